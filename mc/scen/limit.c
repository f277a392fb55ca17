/* C20: many outstanding request-based transfers; the library never has more of them in flight than the message layer supports (opt req_limit). */
#include "common.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
#define CFG(i) (100+(i))
static const int Ms[] = {1, 3, 127, 128, 129, 200, 257, 300};
enum { PUT, GET, ACC, PUTS, GETS, ACCS, PUTV, GETV, ACCV, BPUT, RMW, NK };
void setup_limit(void)
{
  int sm = CH("sm", 2), im = CH("im", 3), shr = CH("shr", 2), d = CH("del", 3), e = CH("e2e", 2), a = CH("atom", 2), th = CH("thr", 2);
  static const char *const iv[] = {"CONSRV", "BATCHED", "DIRECT"};
  mc_env("ARMCI_STRIDED_METHOD", sm ? "DIRECT" : "IOV"); mc_env("ARMCI_IOV_METHOD", iv[im]);
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  if (e) mc_env("ARMCI_NO_FLUSH_LOCAL", "1");
  if (a) mc_env("ARMCI_RMA_ATOMICITY", "1");
  mc_opt("deliver", d); if (th) mc_opt("thread_level", MPI_THREAD_MULTIPLE); mc_set(CFG(0), th); mc_set(CFG(1), sm + 2*(im + 3*(shr + 2*(d + 3*(e + 2*(a + 2*th))))));
  mc_label("strided %d iov %d copy %d delivery %d e2e %d atomicity %d threads %d", sm, im, shr, d, e, a, th);
}
#define MAXM 300
static int L[MAXM][4]; static armci_hdl_t H[MAXM];
void rank_limit(int me, int n)
{
  int a, b, nw, hs, mi, ev, i, k, every = mc_param("every", 1), prov, one = 1; long cnt = 0; void *T[3][MAXP];
  if (mc_get(CFG(0))) { MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov); CHECK(ARMCI_Init_thread(MPI_THREAD_MULTIPLE) == 0, "init", "init"); } else mc_init();
  for (i = 0; i < 3; i++) mc_alloc(T[i], MAXM*16);
  for (a = 0; a < NK; a++) for (b = 0; b < NK; b++) for (nw = 1; nw <= 3; nw++) for (hs = 0; hs < 3; hs++) for (mi = 0; mi < 8; mi++) for (ev = 0; ev < 6; ev++) {
    int M = Ms[mi], tgt = 1 % n;
    if (cnt++ % every != mc_get(CFG(1))*13 % every) continue;
    mc_case();
    if (me == 0) {
      for (k = 0; k < nw; k++) { int z[MAXM*4]; for (i = 0; i < MAXM*4; i++) z[i] = 1000*k + i; mc_poke(tgt, T[k][tgt], z, sizeof z); }
      for (i = 0; i < M; i++) ARMCI_INIT_HANDLE(&H[i]);
      for (i = 0; i < M; i++) {
        int kd = i & 1 ? b : a, w = i % nw, c2[2] = {4, 2}, st = 8, j; armci_hdl_t *h = hs == 0 ? NULL : hs == 1 ? &H[0] : &H[i]; char *r = (char *)T[w][tgt] + 16*i; void *sp[2], *dp[2]; armci_giov_t v = {.src_ptr_array = sp, .dst_ptr_array = dp, .ptr_array_len = 2, .bytes = 4};
        for (j = 0; j < 4; j++) L[i][j] = -100*i - j - 1;
        switch (kd) {
          case PUT: ARMCI_NbPut(L[i], r, 16, tgt, h); break;
          case GET: ARMCI_NbGet(r, L[i], 16, tgt, h); break;
          case ACC: ARMCI_NbAcc(ARMCI_ACC_INT, &one, L[i], r, 16, tgt, h); break;
          case PUTS: ARMCI_NbPutS(L[i], &st, r, &st, c2, 1, tgt, h); break;
          case GETS: ARMCI_NbGetS(r, &st, L[i], &st, c2, 1, tgt, h); break;
          case ACCS: ARMCI_NbAccS(ARMCI_ACC_INT, &one, L[i], &st, r, &st, c2, 1, tgt, h); break;
          case PUTV: case ACCV: sp[0] = &L[i][0]; sp[1] = &L[i][2]; dp[0] = r; dp[1] = r+8; if (kd == PUTV) ARMCI_NbPutV(&v, 1, tgt, h); else ARMCI_NbAccV(ARMCI_ACC_INT, &one, &v, 1, tgt, h); break;
          case GETV: dp[0] = &L[i][0]; dp[1] = &L[i][2]; sp[0] = r; sp[1] = r+8; ARMCI_NbGetV(&v, 1, tgt, h); break;
          case BPUT: ARMCI_Put(L[i], r, 16, tgt); break;
          default: ARMCI_Rmw(ARMCI_FETCH_AND_ADD, &L[i][0], r, 5, tgt); break;
        }
        if (i == M/2) switch (ev) {
          case 1: for (j = 0; j <= i; j++) ARMCI_Wait(&H[j]); break;
          case 2: ARMCI_Fence(tgt); break;
          case 3: ARMCI_WaitAll(); break;
          case 4: for (j = i/2; j <= i; j++) ARMCI_Test(&H[j]); break;
          case 5: ARMCI_AllFence(); break;
        }
      }
      for (i = 0; i < M; i++) ARMCI_Wait(&H[i]);
      ARMCI_WaitAll(); ARMCI_AllFence();
      CHECK(mc_resources(MC_REQS) == 0, "requests", "%d requests are held after everything was waited for", mc_resources(MC_REQS));
      for (i = 0; i < M; i++) { int kd = i & 1 ? b : a, w = i % nw, g[4], j; mc_peek(tgt, (char *)T[w][tgt] + 16*i, g, 16);
        for (j = 0; j < 4; j++) { int blk = kd >= PUTS && kd <= ACCV, hit = blk ? !(j & 1) : kd == RMW ? j == 0 : 1, old = 1000*w + 4*i + j, src = -100*i - j - 1, wr = old, wl = src;
          if (hit) switch (kd) { case PUT: case PUTS: case PUTV: case BPUT: wr = src; break; case ACC: case ACCS: case ACCV: wr = old + src; break; case RMW: wr = old + 5; wl = old; break; default: wl = old; }
          CHECK(g[j] == wr && L[i][j] == wl, "value", "operation %d of %d (kinds %d %d, %d windows, handles %d, event %d): element %d is %d at the target and %d here, expected %d and %d", i, M, a, b, nw, hs, ev, j, g[j], L[i][j], wr, wl); } }
    }
    mc_barrier();
  }
  for (i = 0; i < 3; i++) ARMCI_Free(T[i][me]);
  mc_fini();
  mc_leakcheck("limit");
}
