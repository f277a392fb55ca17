/* C04 / C24 / C08: accumulate in all forms against the element-by-element reference. */
#include "xfer.h"
#include "cfg.h"
static int family;      /* 0 contiguous, 1 strided, 2 vector */
void setup_acc(void)
{
  family = CH("family", 3);
  cfg_base();
  cfg_sm = family == 1 ? CH("sm", 2) : 0; mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  if (family == 2 || (family == 1 && !cfg_sm)) cfg_iovpart();
  mc_label("family %d strided %s iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d", family, cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
static const int types[] = {ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP};
static const char *tn[] = {"INT", "LNG", "FLT", "DBL", "CPL", "DCP"};
static const int ts[] = {4, 8, 4, 8, 8, 16}, tal[] = {4, 8, 4, 8, 4, 8};
#define NSC 6      /* the last one is almost one */
static int isc[NSC] = {1, 0, -1, 3, 1000003, 0x7fffffff}; static long lsc[NSC] = {1, 0, -1, 3, 0x100000001L, 0x7fffffffffffffffL}; static float fsc[NSC] = {1, 0, -1, 0.5f, 4, 1-1/16777216.f};
static double dsc[NSC] = {1, 0, -1, 0.5, 1048576, 1-1/9007199254740992.}; static float csc[NSC][2] = {{1,0}, {0,0}, {0,1}, {2,-1}, {1,1}, {1,1/1073741824.f}}; static double zsc[NSC][2] = {{1,0}, {0,0}, {0,1}, {2,-1}, {1,1}, {1,1/1152921504606846976.}};
static void *scale_of(int t, int k) { return t == 0 ? (void *)&isc[k] : t == 1 ? (void *)&lsc[k] : t == 2 ? (void *)&fsc[k] : t == 3 ? (void *)&dsc[k] : t == 4 ? (void *)csc[k] : (void *)zsc[k]; }
/* typed contents */
static int wide;      /* values of very different magnitudes */
static void tfill(unsigned char *m, int n, int t, int salt)
{
  int i, b = tal[t]; float wf[2] = {wide ? 1048576.f : 1, wide ? 1/1048576.f : 1}; double wd[2] = {wide ? 1e18 : 1, wide ? 1e-18 : 1};
  for (i = 0; i*b+b <= n; i++) { int v = (salt*37 + i*11) % 201 - 100;
    if (t == 0) ((int *)m)[i] = v*1001; else if (t == 1) ((long *)m)[i] = v*0x40000001L + i; else if (b == 4) ((float *)m)[i] = (v*0.5f + 0.25f)*wf[(i+salt)&1]; else ((double *)m)[i] = (v*0.5 + 0.25)*wd[(i+salt)&1]; }
}
static void x_typed(int n, int t, int salt)
{
  int a, r;
  for (a = 0; a < xnp; a++) free(XP[a]);
  xnp = 0; mc_case();
  for (a = 0; a < xna; a++) for (r = 0; r < n; r++) if (XS[a][r]) { tfill(XM[a][r], XS[a][r], t, salt + a*3 + r*5); mc_poke(r, XT[a][r], XM[a][r], XS[a][r]); }
}
static unsigned char *p_typed(int size, int t) { unsigned char *p = x_priv(size); tfill(p, size, t, 77 + xnp); memcpy(XPM[xnp-1], p, size); return p; }
static void x_acc(int me, unsigned char *s, int dr, unsigned char *d, int len, int t, int k)
{
  int i; unsigned char *a = x_ref(me, s, len), *b = x_ref(dr, d, len);
  for (i = 0; i < len; i += ts[t]) {
    if (t == 0) *(int *)(b+i) += (int)((unsigned)isc[k] * (unsigned)*(int *)(a+i));
    else if (t == 1) *(long *)(b+i) = (long)(*(unsigned long *)(b+i) + (unsigned long)lsc[k] * *(unsigned long *)(a+i));
    else if (t == 2) *(float *)(b+i) += fsc[k] * *(float *)(a+i);
    else if (t == 3) *(double *)(b+i) += dsc[k] * *(double *)(a+i);
    else if (t == 4) { float *x = (float *)(a+i), *y = (float *)(b+i); float re = x[0]*csc[k][0] - x[1]*csc[k][1], im = x[0]*csc[k][1] + x[1]*csc[k][0]; y[0] += re; y[1] += im; }
    else { double *x = (double *)(a+i), *y = (double *)(b+i); double re = x[0]*zsc[k][0] - x[1]*zsc[k][1], im = x[0]*zsc[k][1] + x[1]*zsc[k][0]; y[0] += re; y[1] += im; }
  }
}
static int salt;
static void fin(int n, int target, const char *what)
{
  x_verify(n, "content", what);
  if (mc_deliver_all()) x_verify(n, "content", what);
}
static void contig(int me, int n, int op, int target, int t, int k)
{
  static const int len[] = {1, 2, 3, 5, 0}; int ra, lk, il, io, rc = 0; char what[200]; armci_hdl_t h;
  for (ra = 0; ra < 3; ra++) for (lk = mc_param("lk0", 0); lk < mc_param("lk1", 3); lk++) for (il = 0; il < 5; il++) for (io = 0; io < 3; io++) {
    int bytes = len[il]*ts[t], end = (XS[ra][target]-(bytes ? bytes : ts[t]))/tal[t]*tal[t], off = io == 0 ? 0 : io == 1 ? tal[t] : end, b = (ra+1)%3; unsigned char *rem = (unsigned char *)XT[ra][target] + off, *loc;
    if (x_thin()) continue;
    x_typed(n, t, salt++);
    if (lk == 0) loc = p_typed(bytes+32, t) + tal[t]; else if (lk == 1) loc = (unsigned char *)XT[b][me] + tal[t]*il; else loc = (unsigned char *)XT[ra][me] + (io < 2 ? 128 : 0);
    snprintf(what, sizeof what, "%s %s scale %d, %d elements, rank %d allocation %d offset %d, local kind %d", op ? "NbAcc" : "Acc", tn[t], k, len[il], target, ra, off, lk);
    if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
    ARMCI_INIT_HANDLE(&h);
    switch (op) {
      case 0: rc = ARMCI_Acc(types[t], scale_of(t, k), loc, rem, bytes, target); break;
      case 1: rc = ARMCI_NbAcc(types[t], scale_of(t, k), loc, rem, bytes, target, &h); ARMCI_Wait(&h); break;
      default: rc = ARMCI_NbAcc(types[t], scale_of(t, k), loc, rem, bytes, target, NULL); ARMCI_WaitAll(); break;
    }
    CHECK(rc == 0, "status", "%s returned %d", what, rc);
    x_acc(me, loc, target, rem, bytes, t, k); x_reuse(me, loc, bytes); ARMCI_Fence(target); fin(n, target, what);
  }
}
static void strided(int me, int n, int op, int target, int t, int k)
{
  int lv, c, s, lk, i, rc = 0; char what[200]; armci_hdl_t h;
  for (lv = 0; lv < 4; lv++) for (c = 0; c < (1 << (lv+1)) + lv+1; c++) for (s = 0; s < (lv ? 6 : 1); s++) for (lk = mc_param("lk0", 0); lk < mc_param("lk1", 3); lk++) {
    int cnt[5], ls[4], rs[4], idx[5] = {0}; long lm, rm;
    cnt[0] = ts[t]*(1+(c&1)); for (i = 1; i <= lv; i++) cnt[i] = 1 + ((c >> i) & 1) + (i == 1 && c & 1);
    int zero = c >= 1 << (lv+1) ? c - (1 << (lv+1)) : -1; if (zero >= 0) for (i = 0; i <= lv; i++) cnt[i] = i ? 2 : ts[t];    /* one count is zero */
    lm = rm = cnt[0];
    for (i = 0; i < lv; i++) {
      ls[i] = (int)lm + (s == 1 || s == 3 ? tal[t] : s == 5 && i ? ls[i-1] : 0); rs[i] = (int)rm + (s == 2 || s == 3 ? tal[t] : s == 4 && i ? rs[i-1] : s == 5 ? 2*tal[t] : 0);
      lm = (long)ls[i]*cnt[i+1]; rm = (long)rs[i]*cnt[i+1];
    }
    if (zero >= 0) cnt[zero] = 0;
    if (lm > 500 || rm > 500 || (lk && lm > 400)) continue;
    if (x_thin()) continue;
    x_typed(n, t, salt++);
    unsigned char *rem = (unsigned char *)XT[0][target] + tal[t], *loc = lk == 0 ? p_typed((int)lm+32, t) + tal[t] : lk == 1 ? (unsigned char *)XT[1][me] + tal[t] : (unsigned char *)XT[0][me] + XS[0][me]/tal[t]*tal[t]-lm;
    if (lk == 2 && target == me && lm+rm+2*tal[t] > XS[0][me]) continue;
    int l = snprintf(what, sizeof what, "%s %s scale %d rank %d local kind %d, counts", op ? "NbAccS" : "AccS", tn[t], k, target, lk);
    for (i = 0; i <= lv; i++) l += snprintf(what+l, sizeof what-l, " %d", cnt[i]); 
    for (i = 0; i < lv; i++) l += snprintf(what+l, sizeof what-l, " %d/%d", ls[i], rs[i]);
    if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
    ARMCI_INIT_HANDLE(&h);
    switch (op) {
      case 0: rc = ARMCI_AccS(types[t], scale_of(t, k), loc, ls, rem, rs, cnt, lv, target); break;
      case 1: rc = ARMCI_NbAccS(types[t], scale_of(t, k), loc, ls, rem, rs, cnt, lv, target, &h); ARMCI_Wait(&h); break;
      default: rc = ARMCI_NbAccS(types[t], scale_of(t, k), loc, ls, rem, rs, cnt, lv, target, NULL); ARMCI_WaitProc(target); break;
    }
    CHECK(rc == 0, "status", "%s returned %d", what, rc);
    if (zero < 0) for (;;) {
      long so = 0, d = 0; for (i = 0; i < lv; i++) { so += (long)ls[i]*idx[i]; d += (long)rs[i]*idx[i]; }
      x_acc(me, loc+so, target, rem+d, cnt[0], t, k);
      for (i = 0; i < lv; i++) { if (++idx[i] < cnt[i+1]) break; idx[i] = 0; }
      if (i == lv) break;
    }
    x_reuse(me, NULL, 0);
    ARMCI_Fence(target);
    fin(n, target, what);
  }
}
static int pos(int o, int i, int ns, int b, int al) { return o == 0 ? i*b : o == 1 ? i*(b+al) : o == 2 ? (ns-1-i)*(b+2*al) : o == 3 ? (i == 0 ? 1 : i == 1 ? 0 : i)*(b+al) : (i/2)*(b+al)+(i%2)*(b > 2*al && 0 ? al : 0); }
static void vector(int me, int n, int op, int target, int t, int k)
{
  static const int ns[] = {0, 1, 2, 3, 5}; int a, e, ro, lo, ra, lk, i, v, rc = 0, two; char what[200]; armci_hdl_t h;
  int dup = cfg_checks || cfg_im < 2;
  for (two = 0; two < 2; two++) for (a = 0; a < 5; a++) for (e = 0; e < 3; e++) for (ro = 0; ro < 4+dup; ro++) for (lo = 0; lo < 5; lo++) for (ra = 0; ra < 3+cfg_checks; ra++) for (lk = mc_param("lk0", 0); lk < mc_param("lk1", 3); lk++) {
    void *sp[2][8], *dp[2][8]; armci_giov_t iov[2]; int b = e*ts[t], lens[2];
    if ((ns[a] == 0 || e == 0) && (ro || lo)) continue;
    if (two && ((ro+lo+ra+lk) % 3)) continue;
    if (x_thin()) continue;
    x_typed(n, t, salt++);
    for (v = 0; v < 1+two; v++) {
      unsigned char *pr = p_typed(300, t);
      lens[v] = v ? 2 : ns[a];
      for (i = 0; i < lens[v]; i++) {
        int r2 = ra == 3 ? i & 1 : ra, lb = ra == 3 ? 2 : (r2+1)%3, glob = lk == 1 || (lk == 2 && i & 1);
        dp[v][i] = (unsigned char *)XT[r2][target] + tal[t] + (ra == 3 ? 0 : r2*16) + pos(ro, i, lens[v], b, tal[t]);       /* the second descriptor overlaps the first */
        sp[v][i] = (glob ? (unsigned char *)XT[lb][me] : pr) + tal[t]*(1-v) + pos(lo, i, lens[v], b, tal[t]);
      }
      iov[v].src_ptr_array = sp[v]; iov[v].dst_ptr_array = dp[v]; iov[v].bytes = b; iov[v].ptr_array_len = lens[v];
    }
    snprintf(what, sizeof what, "%s %s scale %d rank %d: %d segments of %d elements, remote order %d allocation %d, local order %d kind %d%s", op ? "NbAccV" : "AccV", tn[t], k, target, ns[a], e, ro, ra, lo, lk, two ? ", second descriptor" : "");
    if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
    ARMCI_INIT_HANDLE(&h);
    switch (op) {
      case 0: rc = ARMCI_AccV(types[t], scale_of(t, k), iov, 1+two, target); break;
      case 1: rc = ARMCI_NbAccV(types[t], scale_of(t, k), iov, 1+two, target, &h); ARMCI_Wait(&h); break;
      default: rc = ARMCI_NbAccV(types[t], scale_of(t, k), iov, 1+two, target, NULL); ARMCI_WaitProc(target); break;
    }
    CHECK(rc == 0, "status", "%s returned %d", what, rc);
    for (v = 0; v < 1+two; v++) for (i = 0; i < lens[v]; i++) x_acc(me, sp[v][i], target, dp[v][i], b, t, k);
    x_reuse(me, NULL, 0);
    ARMCI_Fence(target);
    fin(n, target, what);
  }
}
void rank_acc(int me, int n)
{
  int op, target, t, k;
  mc_init();
  x_alloc(me, n, 0, 576, 3, -1);
  mc_barrier();
  if (me == 0) for (op = 0; op < 3; op++) for (target = 0; target < n; target++) for (t = 0; t < 6; t++) for (k = 0; k < NSC; k++) { wide = k == NSC-1;
    (family == 0 ? contig : family == 1 ? strided : vector)(me, n, op, target, t, k);
  }
  mc_barrier();
  ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
