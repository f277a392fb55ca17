/* C09: non-blocking handles. */
#define XNP 13
#ifndef TESTS
#define TESTS 8   /* a completed request is reported by the first test of the simulated layer, or by the second; a real one needs time */
#endif
#include "xfer.h"
#include "cfg.h"
void setup_hdl(void)
{
  cfg_base();
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  mc_opt("test_false", CH("tf", 2)*2);
  mc_label("strided %s iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d", cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
enum { PUT, GET, ACC, PUTS, GETS, ACCS, PUTV, GETV, ACCV, ACCX, PVAL, NOPS };
static const char *opn[] = {"NbPut", "NbGet", "NbAcc", "NbPutS", "NbGetS", "NbAccS", "NbPutV", "NbGetV", "NbAccV", "NbAcc(scaled)", "NbPutValueInt"};
static armci_hdl_t hd[2];
#define MAXO 12
static struct { int op, t, h, open; unsigned char *loc; int pi; unsigned char *rem; } O[MAXO]; static int no; static char desc[600];
static void issue(int me, int op, int t, int h, int a)
{
  if (!XS[a][t]) a = 1;
  int k = no++, i, one = 1, two = 2, cnt[2] = {8, 3}, ls = 8, rs = 16, rc = 0; unsigned char *src = x_priv(32), *dst = (unsigned char *)XT[a][t] + k*48; armci_giov_t v; void *s[3], *d[3]; armci_hdl_t *hp = h < 2 ? &hd[h] : NULL;
  O[k].op = op; O[k].t = t; O[k].h = h; O[k].open = 1; O[k].loc = src; O[k].pi = xnp-1; O[k].rem = dst;
  for (i = 0; i < 3; i++) { s[i] = src + i*8; d[i] = dst + i*16; }
  v.bytes = 8; v.ptr_array_len = 3; v.src_ptr_array = op == GETV ? d : s; v.dst_ptr_array = op == GETV ? s : d;
  switch (op) {
    case PUT: rc = ARMCI_NbPut(src, dst, 24, t, hp); break;
    case GET: rc = ARMCI_NbGet(dst, src, 24, t, hp); break;
    case ACC: rc = ARMCI_NbAcc(ARMCI_ACC_INT, &one, src, dst, 24, t, hp); break;
    case ACCX: rc = ARMCI_NbAcc(ARMCI_ACC_INT, &two, src, dst, 24, t, hp); break;
    case PUTS: rc = ARMCI_NbPutS(src, &ls, dst, &rs, cnt, 1, t, hp); break;
    case GETS: rc = ARMCI_NbGetS(dst, &rs, src, &ls, cnt, 1, t, hp); break;
    case ACCS: rc = ARMCI_NbAccS(ARMCI_ACC_INT, &two, src, &ls, dst, &rs, cnt, 1, t, hp); break;
    case PUTV: rc = ARMCI_NbPutV(&v, 1, t, hp); break;
    case GETV: rc = ARMCI_NbGetV(&v, 1, t, hp); break;
    case ACCV: rc = ARMCI_NbAccV(ARMCI_ACC_INT, &one, &v, 1, t, hp); break;
    default: rc = ARMCI_NbPutValueInt(0x12345678, dst, t, hp); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", opn[op], rc);
  if (op == PUT) x_copy(me, src, t, dst, 24);
  else if (op == GET) x_copy(t, dst, me, src, 24);
  else if (op == PUTS || op == PUTV) for (i = 0; i < 3; i++) x_copy(me, s[i], t, d[i], 8);
  else if (op == GETS || op == GETV) for (i = 0; i < 3; i++) x_copy(t, d[i], me, s[i], 8);
  else if (op == PVAL) { int q = 0x12345678; memcpy(x_ref(t, dst, 4), &q, 4); }
  else for (i = 0; i < 6; i++) *(unsigned *)x_ref(t, op == ACC || op == ACCX ? dst + i*4 : dst + i/2*16 + i%2*4, 4) += (op == ACCX || op == ACCS ? 2 : 1) * *(unsigned *)x_ref(me, src + i*4, 4);
}
static int isget(int op) { return op == GET || op == GETS || op == GETV; }
/* operation k is locally complete: a get has delivered, the buffer may be reused */
static void done(int k)
{
  int i, p = O[k].pi;
  if (!O[k].open) return;
  O[k].open = 0;
  if (isget(O[k].op)) for (i = 0; i < XPS[p]; i++) CHECK(XP[p][i] == XPM[p][i], "incomplete", "%s: the result of operation %d (%s) is not there: byte %d is %02x, expected %02x", desc, k, opn[O[k].op], i, XP[p][i], XPM[p][i]);
  for (i = 0; i < XPS[p]; i++) XP[p][i] = XPM[p][i] = (unsigned char)(XPM[p][i]*3 + 0x41);
}
/* 0 none; 1,2 Wait h; 3,4 Test h until complete; 5 WaitAll; 6.. WaitProc */
static void complete(int c, int n)
{
  int k, rc = 0, i;
  if (c == 0) return;
  if (c <= 2) { rc = ARMCI_Wait(&hd[c-1]); CHECK(rc == 0, "status", "%s: Wait returned %d", desc, rc); }
  else if (c <= 4) { for (i = 0; i < TESTS && (rc = ARMCI_Test(&hd[c-3])); i++) if (TESTS > 8) mc_yield(); CHECK(rc == 0, "test-never", "%s: ARMCI_Test does not report completion", desc); }
  else if (c == 5) ARMCI_WaitAll();
  else ARMCI_WaitProc(c-6);
  for (k = 0; k < no; k++) if (c <= 4 ? O[k].h == (c-1)%2 : O[k].h == 2 && (c == 5 || O[k].t == c-6)) done(k);
  (void)n;
}
static void finish(int n)
{
  int k;
  complete(1, n); complete(2, n); complete(5, n);
  for (k = 0; k < no; k++) done(k);
  ARMCI_AllFence(); x_verify(n, "content", desc);
  if (mc_deliver_all()) x_verify(n, "content", desc);
}
static void start(int n)
{
  static int salt;
  x_refill(n, salt); no = 0; desc[0] = 0;
  if (salt & 1) { ARMCI_SET_AGGREGATE_HANDLE(&hd[0]); ARMCI_INIT_HANDLE(&hd[1]); } else { ARMCI_INIT_HANDLE(&hd[0]); ARMCI_SET_AGGREGATE_HANDLE(&hd[1]); }
  salt++;
}
static const char *cn[] = {"-", "Wait0", "Wait1", "Test0", "Test1", "WaitAll", "WaitProc(0)", "WaitProc(1)", "WaitProc(2)"};
void rank_hdl(int me, int n)
{
  int origin = mc_param("origin", 0), o[3], t[3], h[3], c1, c2, k = mc_param("k", 3), m, i, a; static const char *hn[] = {"h0", "h1", "implicit"};
  mc_init();
  x_zero2 = origin;      /* an allocation in which the caller itself has no memory */
  x_alloc(me, n, origin, 48*MAXO+8, 3, -1);
  mc_barrier();
  if (me == origin) {
    for (o[0] = 0; o[0] < NOPS; o[0]++) for (o[1] = 0; o[1] < NOPS; o[1]++) for (o[2] = k > 2 ? 0 : NOPS-1; o[2] < NOPS; o[2]++)
    for (t[0] = 0; t[0] < n; t[0]++) for (t[1] = 0; t[1] < n; t[1]++) for (t[2] = 0; t[2] < n; t[2]++) for (h[0] = 0; h[0] < 3; h[0] += 2) for (h[1] = 0; h[1] < 3; h[1]++) for (h[2] = 0; h[2] < 3; h[2]++) for (c1 = 0; c1 < 6+n; c1++) for (c2 = 0; c2 < 6+n; c2++) {
      if (x_thin()) continue;
      start(n);
      if (mc_tracing()) fprintf(stderr, "case %s\n", desc);
      snprintf(desc, sizeof desc, "%s to %d (%s), %s to %d (%s), %s, %s to %d (%s), %s", opn[o[0]], t[0], hn[h[0]], opn[o[1]], t[1], hn[h[1]], cn[c1], opn[o[2]], t[2], hn[h[2]], cn[c2]);
      a = (c1 + o[0]) % 3;
      issue(me, o[0], t[0], h[0], a); issue(me, o[1], t[1], h[1], (a + (o[1] & 1)) % 3); complete(c1, n); issue(me, o[2], t[2], h[2], a); complete(c2, n);
      finish(n);
    }
    /* many operations on one handle */
    for (m = 1; m <= MAXO; m++) for (i = 0; i < 10; i++) for (c1 = 0; c1 < 4; c1++) for (c2 = 0; c2 < 2; c2++) {
      int j;
      start(n);
      snprintf(desc, sizeof desc, "%d operations on one handle, mix %d, %s", m, i, cn[c1]);
      for (j = 0; j < m; j++) issue(me, (i*j+i) % NOPS, c2 ? (j+1) % n : (me+1) % n, c1 == 3 && j % 3 == 2 ? 2 : 0, j % 3);
      complete(c1 == 2 ? 3 : c1 == 0 ? 0 : 1, n);
      finish(n);
    }
    /* fresh and completed handles */
    start(n); strcpy(desc, "fresh handles");
    complete(1, n); complete(3, n); complete(2, n); complete(4, n); complete(1, n);
    for (i = 0; i < n; i++) complete(6+i, n);
    issue(me, PUT, (me+1) % n, 0, 0); complete(3, n); complete(3, n); complete(1, n); issue(me, GET, (me+1) % n, 0, 1); complete(1, n); complete(3, n);
    finish(n);
  }
  mc_barrier();
  ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
