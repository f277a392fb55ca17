/* C05: concurrent accumulates of every form by several processes (the owner of the memory included) to overlapping elements. */
#include "cfg.h"
enum { ACC, NBH, NBI, ACCS, ACCV, NBSH, NBVI, ACCV2, GET, NF };
static const char *fn[] = {"Acc", "NbAcc", "NbAcc(implicit)", "AccS", "AccV", "NbAccS", "NbAccV(implicit)", "AccV(2 descriptors)", "Get"};
static const int sets[5][9] = {{ACC, NBH, NBI, ACCS, ACCV, NBSH, NBVI, ACCV2, GET}, {ACC, NBI, ACCV, GET}, {ACC, NBVI}, {NBI, ACCS, NBSH, ACCV2}, {NBVI, NBSH, ACC}}, setn[5] = {9, 4, 2, 4, 3};
static const int types[] = {ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP}, ts[] = {4, 8, 4, 8, 8, 16};
#define NE 5
#define CFG(i) (100+(i))
enum { C_PROG, C_T, C_SC, C_OWN, C_ATOM, C_F };
void setup_cacc(void)
{
  int n = mc_size(), k = mc_param("k", 1), F = setn[mc_param("set", 0)], np = 1, i, t, sc;
  cfg_base();
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  if (CH("same", 2)) mc_env("ARMCI_USE_SAME_OP", "1");
  if (!cfg_atom && sets[mc_param("set", 0)][F-1] == GET) F--;       /* reads are atomic only with element-wise atomic transfers */
  for (i = 0; i < n*k; i++) np *= F;
  mc_set(CFG(C_F), F);
  t = CH("t", 6); sc = CH("sc", 2);
  mc_set(CFG(C_T), t); mc_set(CFG(C_SC), sc); mc_set(CFG(C_OWN), CH("own", 2)); mc_set(CFG(C_ATOM), cfg_atom);
  i = CH("prog", np); mc_set(CFG(C_PROG), i);
  mc_label("program %d type %d scale %d strided %d iov %s limit %d chunk %d checks %d copy %d atomic %d e2e %d", i, t, sc, cfg_sm, cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_shr, cfg_atom, cfg_e2e);
}
static int t, sc, nop; static void *tab[MAXP];
static long scalel(int o) { return !sc || !(o & 1) ? 1 : 3; }
/* contribution of operation o to the real part of an element it covers */
static long contrib(int o) { return scalel(o) << (3*o); }
static int form(int o) { int x = (int)mc_get(CFG(C_PROG)), F = (int)mc_get(CFG(C_F)), s = mc_param("set", 0), i; for (i = 0; i < o; i++) x /= F; return sets[s][x % F]; }
static int covers(int o, int e)
{
  int f = form(o); if (f == GET) return 0;
  if (f == ACCS || f == NBSH) return !(e & 1);
  if (f == ACCV || f == NBVI || f == ACCV2) return e == 0 || e == 2 || e == 3;
  return e >= (o & 1) && e < (o & 1)+4;
}
static double elem(const unsigned char *m, int e, int im)
{
  m += e*ts[t];
  switch (t) { case 0: return *(int *)m; case 1: return *(long *)m; case 2: return *(float *)m; case 3: return *(double *)m; case 4: return ((float *)m)[im]; default: return ((double *)m)[im]; }
}
static void put_elem(unsigned char *m, int e, double re, double im)
{
  m += e*ts[t];
  switch (t) { case 0: *(int *)m = (int)re; break; case 1: *(long *)m = (long)re; break; case 2: *(float *)m = re; break; case 3: *(double *)m = re; break;
    case 4: ((float *)m)[0] = re; ((float *)m)[1] = im; break; default: ((double *)m)[0] = re; ((double *)m)[1] = im; }
}
#define INIT(e) (262144.0*((e)+1))
/* (s + i*s') * x with s' = 0 for real types; complex scale is (s, -1) */
static double want(int o, int im) { double x = (double)(1L << (3*o)); return im ? (t >= 4 ? -x + 0 : 0) : scalel(o)*x; }
void rank_cacc(int me, int n)
{
  int k = mc_param("k", 1), i, e, o, r, own, rc; unsigned char *m; 
  static int is; static long ls_; static float fs, cs[2]; static double ds, zs[2]; void *scale;
  t = (int)mc_get(CFG(C_T)); sc = (int)mc_get(CFG(C_SC)); own = mc_get(CFG(C_OWN)) ? n-1 : 0; nop = n*k;
  mc_init();
  mc_alloc(tab, NE*16);
  m = tab[me]; memset(m, 0, NE*16);
  if (me == own) for (e = 0; e < NE; e++) put_elem(m, e, INIT(e), 0);
  unsigned char *SRCS[8] = {0};
  m = tab[own];
  ARMCI_Barrier();
  mc_begin();
  for (i = 0; i < k; i++) {
    int f, z = ts[t], cnt[2], st; unsigned char *src; armci_hdl_t h; armci_giov_t v[2]; void *sp[3], *dp[3];
    o = me*k + i; f = form(o); SRCS[i] = src = malloc(NE*16); ARMCI_INIT_HANDLE(&h);
    for (e = 0; e < NE; e++) put_elem(src, e, (double)(1L << (3*o)), 0);
    is = (int)scalel(o); ls_ = scalel(o); fs = scalel(o); ds = scalel(o); cs[0] = zs[0] = scalel(o); cs[1] = zs[1] = -1;
    scale = t == 0 ? (void *)&is : t == 1 ? (void *)&ls_ : t == 2 ? (void *)&fs : t == 3 ? (void *)&ds : t == 4 ? (void *)cs : (void *)zs;
    sp[0] = src; dp[0] = m; sp[1] = src+z; dp[1] = m+3*z; sp[2] = src+2*z; dp[2] = m+2*z;
    v[0].bytes = z; v[0].ptr_array_len = f == ACCV2 ? 2 : 3; v[0].src_ptr_array = sp; v[0].dst_ptr_array = dp;
    v[1].bytes = z; v[1].ptr_array_len = 1; v[1].src_ptr_array = sp+2; v[1].dst_ptr_array = dp+2;
    cnt[0] = z; cnt[1] = 3; st = 2*z; rc = 0;
    switch (f) {
      case ACC: rc = ARMCI_Acc(types[t], scale, src, m + (o & 1)*z, 4*z, own); break;
      case NBH: rc = ARMCI_NbAcc(types[t], scale, src, m + (o & 1)*z, 4*z, own, &h); ARMCI_Wait(&h); break;
      case NBI: rc = ARMCI_NbAcc(types[t], scale, src, m + (o & 1)*z, 4*z, own, NULL); break;
      case ACCS: rc = ARMCI_AccS(types[t], scale, src, &z, m, &st, cnt, 1, own); break;
      case NBSH: rc = ARMCI_NbAccS(types[t], scale, src, &z, m, &st, cnt, 1, own, &h); ARMCI_Wait(&h); break;
      case ACCV: rc = ARMCI_AccV(types[t], scale, v, 1, own); break;
      case NBVI: rc = ARMCI_NbAccV(types[t], scale, v, 1, own, NULL); break;
      case ACCV2: rc = ARMCI_AccV(types[t], scale, v, 2, own); break;
      default: {
        unsigned char *d = malloc(16); int q, ok = 0; 
        rc = ARMCI_Get(m + 2*z, d, z, own);
        double x = elem(d, 0, 0) - INIT(2), y = t >= 4 ? elem(d, 0, 1) : 0;
        for (q = 0; q < 1 << nop && !ok; q++) {
          double a = 0, b = 0; int j, good = 1;
          for (j = 0; j < nop; j++) if (q >> j & 1) { if (!covers(j, 2) || (j % k && covers(j-1, 2) && !(q >> (j-1) & 1))) good = 0; a += want(j, 0); b += want(j, 1); }
          ok = good && a == x && b == y;
        }
        CHECK(ok, "read", "rank %d read %.1f: not the initial value plus a set of whole contributions in program order", me, x);
        free(d);
      }
    }
    CHECK(rc == 0, "status", "%s returned %d", fn[f], rc);
    if (f == NBI || f == NBVI) { if (i == k-1) ARMCI_WaitAll(); } 
  }
  ARMCI_AllFence();
  mc_end();
  mc_barrier();
  if (me == own) for (e = 0; e < NE; e++) {
    double a = INIT(e), b = 0; for (r = 0; r < nop; r++) if (covers(r, e)) { a += want(r, 0); b += want(r, 1); }
    CHECK(elem(m, e, 0) == a, "sum", "element %d is %.1f after all accumulates, %.1f expected", e, elem(m, e, 0), a);
    if (t >= 4) CHECK(elem(m, e, 1) == b, "sum", "imaginary part of element %d is %.1f after all accumulates, %.1f expected", e, elem(m, e, 1), b);
  }
  ARMCI_Barrier();
  ARMCI_Free(tab[me]);
  for (i = 0; i < k && i < 8; i++) free(SRCS[i]);
  mc_fini();
}
