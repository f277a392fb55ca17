/* C07: fence, fence-all and barrier. */
#include "xfer.h"
#include "cfg.h"
static int flay, fq;
void setup_fence(void)
{
  cfg_base();
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  flay = CH("cache", 2); if (flay) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  fq = CH("ord", 2); if (fq) mc_env("ARMCI_RMA_ORDERING", "none");
  mc_label("strided %s iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d cache %d ordering %s", cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa, !flay, fq ? "none" : "all");
}
enum { PUT, NBPUT, NBPUTH, PUTS, NBPUTS, PUTV, NBPUTV, ACC, NBACC, NBACCH, ACCV, NBACCV, ACCS, PVAL, NBPVAL, SWAPF, NOPS };
static const char *opn[] = {"Put", "NbPut", "NbPut+handle", "PutS", "NbPutS", "PutV", "NbPutV", "Acc", "NbAcc", "NbAcc+handle", "AccV", "NbAccV", "AccS", "PutValueLong", "NbPutValueInt", "PutFlag"};
static ARMCI_Group sub; static armci_hdl_t hd[4];
static void *rb(int a, int t) { return XT[a][t]; }
/* operation op number k (slot of 64 bytes) to process t, allocation a; updates the model */
static void issue(int me, int op, int k, int t, int a)
{
  unsigned char *src = x_priv(64), *dst = (unsigned char *)rb(a, t) + k*64; int i, one = 1, cnt[2] = {8, 3}, ls = 8, rs = 16, rc = 0; armci_giov_t v; void *s[3], *d[3]; armci_hdl_t *h = &hd[k];
  int p = k;    /* element-wise model */
  ARMCI_INIT_HANDLE(h); (void)p;
  for (i = 0; i < 3; i++) { s[i] = src + i*8; d[i] = dst + i*16; }
  v.bytes = 8; v.ptr_array_len = 3; v.src_ptr_array = s; v.dst_ptr_array = d;
  switch (op) {
    case PUT: rc = ARMCI_Put(src, dst, 24, t); break;
    case NBPUT: rc = ARMCI_NbPut(src, dst, 24, t, NULL); break;
    case NBPUTH: rc = ARMCI_NbPut(src, dst, 24, t, h); break;
    case PUTS: rc = ARMCI_PutS(src, &ls, dst, &rs, cnt, 1, t); break;
    case NBPUTS: rc = ARMCI_NbPutS(src, &ls, dst, &rs, cnt, 1, t, h); break;
    case PUTV: rc = ARMCI_PutV(&v, 1, t); break;
    case NBPUTV: rc = ARMCI_NbPutV(&v, 1, t, NULL); break;
    case ACC: rc = ARMCI_Acc(ARMCI_ACC_INT, &one, src, dst, 24, t); break;
    case NBACC: rc = ARMCI_NbAcc(ARMCI_ACC_INT, &one, src, dst, 24, t, NULL); break;
    case NBACCH: rc = ARMCI_NbAcc(ARMCI_ACC_INT, &one, src, dst, 24, t, h); break;
    case ACCV: rc = ARMCI_AccV(ARMCI_ACC_INT, &one, &v, 1, t); break;
    case NBACCV: rc = ARMCI_NbAccV(ARMCI_ACC_INT, &one, &v, 1, t, h); break;
    case ACCS: rc = ARMCI_AccS(ARMCI_ACC_INT, &one, src, &ls, dst, &rs, cnt, 1, t); break;
    case PVAL: rc = ARMCI_PutValueLong(0x1122334455667788L, dst, t); break;
    case NBPVAL: rc = ARMCI_NbPutValueInt(0x12345678, dst, t, NULL); break;
    default: rc = ARMCI_Put_flag(src, dst, 24, (int *)(dst+40), 0x5a5a5a, t); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", opn[op], rc);
  if (op == PUT || op == NBPUT || op == NBPUTH || op == SWAPF) x_copy(me, src, t, dst, 24);
  else if (op == PUTS || op == NBPUTS || op == PUTV || op == NBPUTV) for (i = 0; i < 3; i++) x_copy(me, s[i], t, d[i], 8);
  else if (op == PVAL) { long q = 0x1122334455667788L; memcpy(x_ref(t, dst, 8), &q, 8); }
  else if (op == NBPVAL) { int q = 0x12345678; memcpy(x_ref(t, dst, 4), &q, 4); }
  else if (op == ACC || op == NBACC || op == NBACCH) for (i = 0; i < 6; i++) *(unsigned *)x_ref(t, dst + i*4, 4) += *(unsigned *)x_ref(me, src + i*4, 4);
  else for (i = 0; i < 6; i++) *(unsigned *)x_ref(t, dst + i/2*16 + i%2*4, 4) += *(unsigned *)x_ref(me, src + i*4, 4);
  if (op == SWAPF) { int q = 0x5a5a5a; memcpy(x_ref(t, dst+40, 4), &q, 4); }
}
static void verify_target(int t, const char *what)
{
  int a, i; unsigned char b[XMAX];
  for (a = 0; a < xna; a++) if (XS[a][t]) { mc_peek(t, XT[a][t], b, XS[a][t]);
    for (i = 0; i < XS[a][t]; i++) CHECK(b[i] == XM[a][t][i], "incomplete", "%s: byte %d of allocation %d on rank %d is %02x, expected %02x", what, i, a, t, b[i], XM[a][t][i]); }
}
/* single origin; every pair of operations, every kind of fence */
void rank_fence(int me, int n)
{
  int origin = mc_param("origin", 0), i, o1, o2, t1, t2, a1, a2, sy, salt = 0, gl[MAXP], len = mc_param("len", 2), mem = 1; char what[200];
  mc_init();
  x_zero2 = origin;
  x_alloc(me, n, origin, 128, 3, -1);
  for (i = 0; i < n-1; i++) gl[i] = (i+1) % n;             /* without rank 0 */
  mem = me != 0;
  mc_group(n-1, gl, &sub);
  for (i = 0; i < n; i++) { XT[3][i] = NULL; XS[3][i] = i ? 128 : 0; }
  if (mem) { void *t[MAXP]; ARMCI_Malloc_group(t, 128, &sub); for (i = 0; i < n-1; i++) XT[3][gl[i]] = t[i]; mc_fill(XT[3][me], 128, me, 3); }
  for (i = 1; i < n; i++) { int j; for (j = 0; j < 128; j++) XM[3][i][j] = mc_pat(i, 3, j); }
  if (origin) xna = 4;
  ARMCI_Barrier(); mc_barrier();
  if (me == origin) for (o1 = 0; o1 < NOPS; o1++) for (o2 = len == 2 ? 0 : NOPS-1; o2 < NOPS; o2++) for (t1 = 0; t1 < n; t1++) for (t2 = 0; t2 < n; t2++) for (a1 = 0; a1 < xna; a1++) for (a2 = 0; a2 < xna; a2++) for (sy = 0; sy < n+2; sy++) {
    if (!XS[a1][t1] || !XS[a2][t2]) continue;
    if (x_thin()) continue;
    x_refill(n, salt++);
    snprintf(what, sizeof what, "%s to rank %d allocation %d, %s to rank %d allocation %d, %s %d", opn[o1], t1, a1, opn[o2], t2, a2, sy < n ? "Fence" : sy == n ? "AllFence" : "WaitAll, AllFence", sy);
    if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
    issue(me, o1, 0, t1, a1);
    issue(me, o2, 1, t2, a2);
    if (sy < n) { ARMCI_Fence(sy); verify_target(sy, what); }
    else { if (sy == n+1) ARMCI_WaitAll(); ARMCI_AllFence(); for (i = 0; i < n; i++) verify_target(i, what); }
    for (i = 0; i < 2; i++) ARMCI_Wait(&hd[i]);
    ARMCI_WaitAll(); ARMCI_AllFence(); mc_deliver_all(); x_verify(n, "content", what);
  }
  mc_barrier();
  ARMCI_Barrier();
  if (mem) ARMCI_Free_group(XT[3][me], &sub);
  xna = 3; ARMCI_Group_free(&sub);
  x_free(me, n);
  mc_fini();
}
/* every process puts to or accumulates on others, then all meet in the barrier: data visible everywhere, nobody leaves early */
#define CFG(i) (100+(i))
void setup_bar(void)
{
  int k = CH("form", 8), kind = CH("kind", 3);
  mc_set(CFG(0), k); mc_set(CFG(1), kind);
  mc_opt("layout", CH("layout", 2)*2);
  if (CH("e2e", 2)) mc_env("ARMCI_NO_FLUSH_LOCAL", "1");
  int mb = CH("mbs", 2); if (mb) mc_env("ARMCI_MSG_BARRIER_SYNCS", "1");
  mc_set(CFG(2), mb);
  mc_label("form %d synchronisation %d msg_barrier_syncs %d", k, kind, mb);
}
static int pred_all(void *x) { return mc_get(0) >= *(int *)x; }
void rank_bar(int me, int n)
{
  void *T[MAXP], *U[MAXP]; int form = (int)mc_get(CFG(0)), kind = (int)mc_get(CFG(1)), mb = (int)mc_get(CFG(2)), r, i, round, nr = mc_param("rounds", 1), one = 1, nx = (me+1) % n, pv = (me+n-1) % n; armci_hdl_t h; (void)pred_all; (void)pv;
  mc_init();
  mc_alloc(T, 64); mc_alloc(U, 64); memset(T[me], 0, 64); memset(U[me], 0, 64);
  ARMCI_Barrier();
  mc_begin();
  for (round = 1; round <= nr; round++) {
    int v[2] = {me*10+round, 7}, w = me*100+round; void *sp[1] = {v}, *dp[1]; armci_giov_t gv = {sp, dp, 4, 1}; int *src = malloc(8); src[0] = me*10+round; sp[0] = src;
    ARMCI_INIT_HANDLE(&h);
    dp[0] = (int *)T[nx] + me;
    switch (form) {
      case 0: ARMCI_Put(src, (int *)T[nx] + me, 4, nx); break;
      case 1: ARMCI_NbPut(src, (int *)T[nx] + me, 4, nx, NULL); break;
      case 2: ARMCI_NbPut(src, (int *)T[nx] + me, 4, nx, &h); break;
      case 3: ARMCI_PutV(&gv, 1, nx); break;
      case 4: ARMCI_Acc(ARMCI_ACC_INT, &one, src, (int *)T[nx] + me, 4, nx); break;
      case 5: ARMCI_NbAcc(ARMCI_ACC_INT, &one, src, (int *)T[nx] + me, 4, nx, NULL); break;
      case 6: ARMCI_NbAccV(ARMCI_ACC_INT, &one, &gv, 1, nx, &h); break;
      default: ARMCI_PutValueInt(src[0], (int *)T[nx] + me, nx); break;
    }
    if (n == 2) ARMCI_Put(&w, (int *)U[nx] + me, 4, nx);
    mc_set(0, mc_get(0)+1);
    if (kind == 0) ARMCI_Barrier();
    else if (kind == 1) { ARMCI_AllFence(); armci_msg_barrier(); }
    else { ARMCI_Fence(nx); armci_msg_barrier(); }
    CHECK(mc_get(0) >= (long)n*round, "barrier", "rank %d left the barrier of round %d when %d of %d entries had been made", me, round, (int)mc_get(0), n*round);
    int acc = form >= 4 && form <= 6, sum = 0; for (i = 1; i <= round; i++) sum += pv*10+i;
    int got = ((volatile int *)T[me])[pv], want = acc ? sum : pv*10+round;
    CHECK(got == want, "incomplete", "rank %d loads %d after the barrier of round %d, rank %d had stored %d", me, got, round, pv, want);
    if (n == 2) CHECK(((volatile int *)U[me])[pv] == pv*100+round, "incomplete", "rank %d loads %d from the second allocation", me, ((int *)U[me])[pv]);
    /* third parties */
    if (n > 2) { int t = (nx+1) % n, g = -1, o = (t+n-1) % n; ARMCI_Get((int *)T[t] + o, &g, 4, t); sum = 0; for (i = 1; i <= round; i++) sum += o*10+i;
      int w2 = acc ? sum : o*10+round; if (round == nr) CHECK(g == w2, "incomplete", "rank %d gets %d from rank %d after the barrier, %d expected", me, g, t, w2); }
    ARMCI_Wait(&h); ARMCI_WaitAll(); free(src);
    if (round < nr) ARMCI_Barrier();
    if (round < nr) mc_set(0, mc_get(0)+0);
  }
  mc_end();
  (void)r;
  ARMCI_Barrier();
  ARMCI_Free(U[me]); ARMCI_Free(T[me]);
  mc_fini();
  mc_leakcheck("bar");
}
