/* C02 / C04 (strided form) / C24: strided transfers against the element-by-element reference. */
#include "xfer.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
static int layout, del, shr, atom, sm, im, lim, chunk;
static const char *iovm[] = {"CONSRV", "BATCHED", "DIRECT", "AUTO"};
static void env_int(const char *n, int v) { char b[16]; snprintf(b, sizeof b, "%d", v); mc_env(n, b); }
void setup_strided(void)
{
  del = CH("del", 3); mc_opt("deliver", del);
  layout = CH("layout", 2); mc_opt("layout", LAY(layout*2));
  shr = CH("shr", 2); mc_env("ARMCI_SHR_BUF_METHOD", shr ? "COPY" : "NOGUARD");
  atom = CH("atom", 2); mc_env("ARMCI_RMA_ATOMICITY", atom ? "1" : "0");
  sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", sm ? "DIRECT" : "IOV");
  im = sm ? 0 : CH("im", 4); if (!sm) mc_env("ARMCI_IOV_METHOD", iovm[im]);
  lim = !sm && im == 1 ? CH("lim", 3) : 0; if (lim) env_int("ARMCI_IOV_BATCHED_LIMIT", lim);
  chunk = !sm && (im == 2 || im == 0) ? CH("chunk", 3) : 0; if (chunk) env_int("ARMCI_IOV_DTYPE_CHUNK", chunk*2-1);
  if (mc_param("checks", 0) || (!sm && CH("checks", 2))) mc_env("ARMCI_IOV_CHECKS", "1");
  mc_label("strided %s iov %s limit %d chunk %d copy %d atomic %d delivery %d layout %d", sm ? "DIRECT" : "IOV", iovm[im], lim, chunk ? chunk*2-1 : 0, shr, atom, del, layout);
}
/* reference: invoke f for every contiguous piece */
static void ref(int op, int me, int target, unsigned char *src, int *ss, unsigned char *dst, int *ds, int *cnt, int lv)
{
  int idx[10] = {0}, i;
  for (i = 0; i <= lv; i++) if (cnt[i] == 0) return;
  for (;;) {
    long so = 0, d = 0; for (i = 0; i < lv; i++) { so += (long)ss[i]*idx[i]; d += (long)ds[i]*idx[i]; }
    if (op & 1) x_copy(target, src+so, me, dst+d, cnt[0]); else x_copy(me, src+so, target, dst+d, cnt[0]);
    for (i = 0; i < lv; i++) { if (++idx[i] < cnt[i+1]) break; idx[i] = 0; }
    if (i == lv) break;
  }
}
static int span(int *st, int *cnt, int lv) { int s = cnt[0], i; for (i = 0; i < lv; i++) s += st[i]*(cnt[i+1] ? cnt[i+1]-1 : 0); return s; }
/* stride kinds: base-3 digits select compact / one byte more / a multiple of the previous stride more; kind 100: transposed */
static void mkstride(int *st, int *cnt, int lv, int kind)
{
  int i; long m = cnt[0];
  if (kind >= 100) {   /* the outermost dimension is the fastest in memory */
    int p = cnt[0];
    for (i = lv-1; i >= 0; i--) { st[i] = p + (kind-100); p = st[i]*cnt[i+1]; }
    return;
  }
  for (i = 0; i < lv; i++) {
    int k = kind % 3; kind /= 3;
    st[i] = (int)(k == 0 ? m : k == 1 ? m+1 : m + (i ? st[i-1] : 3)); m = (long)st[i]*cnt[i+1];
  }
}
static const char *opn[] = {"PutS", "GetS", "NbPutS", "NbGetS", "NbPutS(implicit)", "NbGetS(implicit)"};
static void one(int n, int op, int target, int lv, int *cnt, int *ls, int *rs, int gl, int align)
{
  int me = mc_rank(), rc, i; static int salt; char what[300]; armci_hdl_t h;
  int lsp = span(ls, cnt, lv), rsp = span(rs, cnt, lv);
  if (rsp+align > XS[0][target]) return;
  if (gl ? lsp+4 > XS[1][me] : lsp+2 > XPMAX) return;
  if (x_thin()) return;
  x_refill(n, salt++);
  unsigned char *rem = (unsigned char *)XT[0][target] + align, *loc = gl ? (unsigned char *)XT[1][me] + 3 : x_priv(lsp+2) + 1;
  int l = snprintf(what, sizeof what, "%s to/from rank %d, counts", opn[op], target);
  for (i = 0; i <= lv; i++) l += snprintf(what+l, sizeof what-l, " %d", cnt[i]);
  l += snprintf(what+l, sizeof what-l, ", local strides"); for (i = 0; i < lv; i++) l += snprintf(what+l, sizeof what-l, " %d", ls[i]);
  l += snprintf(what+l, sizeof what-l, ", remote strides"); for (i = 0; i < lv; i++) l += snprintf(what+l, sizeof what-l, " %d", rs[i]);
  l += snprintf(what+l, sizeof what-l, ", %s local buffer", gl ? "global" : "private");
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  int c2[10], a2[10], b2[10]; memcpy(c2, cnt, sizeof(int)*(lv+1)); memcpy(a2, ls, sizeof(int)*lv); memcpy(b2, rs, sizeof(int)*lv);
  ARMCI_INIT_HANDLE(&h);
  switch (op) {
    case 0: rc = ARMCI_PutS(loc, ls, rem, rs, cnt, lv, target); break;
    case 1: rc = ARMCI_GetS(rem, rs, loc, ls, cnt, lv, target); break;
    case 2: rc = ARMCI_NbPutS(loc, ls, rem, rs, cnt, lv, target, &h); ARMCI_Wait(&h); break;
    case 3: rc = ARMCI_NbGetS(rem, rs, loc, ls, cnt, lv, target, &h); ARMCI_Wait(&h); break;
    case 4: rc = ARMCI_NbPutS(loc, ls, rem, rs, cnt, lv, target, NULL); ARMCI_WaitProc(target); break;
    default: rc = ARMCI_NbGetS(rem, rs, loc, ls, cnt, lv, target, NULL); ARMCI_WaitAll(); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", what, rc);
  CHECK(!memcmp(c2, cnt, sizeof(int)*(lv+1)) && !memcmp(a2, ls, sizeof(int)*lv) && !memcmp(b2, rs, sizeof(int)*lv), "args", "%s changed its argument arrays", what);
  if (op & 1) { ref(op, me, target, rem, rs, loc, ls, cnt, lv); x_verify(n, "content", what); x_reuse(me, loc, lsp); } else { ref(op, me, target, loc, ls, rem, rs, cnt, lv); x_reuse(me, loc, lsp); ARMCI_Fence(target); x_verify(n, "content", what); }
  if (mc_deliver_all()) x_verify(n, "content", what);
}
static const int c0s[] = {1, 3, 4, 8, 2, 5, 12, 16};
void rank_strided(int me, int n)
{
  int sz = mc_param("sz", 600), op, target, lv, i, k1, k2, nc0 = mc_param("nc0", 4), cmax = mc_param("cmax", 3), maxlv = mc_param("maxlv", 3), ncmp = mc_param("src_full", 0), nops = mc_param("nops", 6);
  static const int srck[] = {0, 13, 26, 5}; int irr = mc_param("irregular", 1), gl;
  mc_init();
  x_alloc(me, n, 0, sz, 2, -1);
  mc_barrier();
  if (me == 0) for (op = 0; op < nops; op++) for (target = 0; target < 2 && target < n; target++) for (lv = 0; lv <= maxlv; lv++) {
    int nk = 1, nc = nc0, c; for (i = 0; i < lv; i++) { nk *= 3; nc *= cmax; }
    for (c = 0; c < nc; c++) {
      int cnt[10], q = c/nc0; cnt[0] = c0s[c % nc0]; for (i = 0; i < lv; i++) { cnt[i+1] = 1 + q % cmax; q /= cmax; }
      for (k2 = 0; k2 < nk+(lv >= 2 && irr ? 2 : 0); k2++) for (k1 = 0; k1 < (ncmp ? nk : lv ? 4 : 1); k1++) {
        int ls[10], rs[10]; gl = mc_param("gl", (k1+k2+c+op) & 1); 
        if (!irr && lv) { int a = ncmp ? k1 : srck[k1], b = k2, bad = 0; for (i = 0; i < lv; i++) { if (i && (a % 3 == 1 || b % 3 == 1)) bad = 1; a /= 3; b /= 3; } if (bad) continue; }
        mkstride(ls, cnt, lv, ncmp ? k1 : srck[k1]); mkstride(rs, cnt, lv, k2 >= nk ? 100+k2-nk : k2);
        one(n, op, target, lv, cnt, ls, rs, gl, (k2+c) % 3);
      }
    }
  }
  if (me == 0 && mc_param("deep", 1)) for (op = 0; op < nops; op++) for (lv = 4; lv <= 7; lv++) for (i = 0; i < (1 << lv); i += (lv > 5 ? 3 : 1)) for (k1 = 0; k1 < 3; k1++) {
    /* one byte more at every level, at one level only, or nowhere */
    int cnt[10], ls[10], rs[10], b, full = 0, single = 1; cnt[0] = 1 + (i & 1); for (b = 0; b < lv; b++) cnt[b+1] = 1 + ((i >> b) & 1);
    for (b = 0; b < lv; b++) full = full*3 + 1;
    for (b = 0; b < (i+op) % lv; b++) single *= 3;
    mkstride(ls, cnt, lv, k1 == 0 ? 0 : k1 == 1 ? single : full); mkstride(rs, cnt, lv, k1 == 0 ? single : k1 == 1 ? full : 0);
    one(n, op, n-1, lv, cnt, ls, rs, mc_param("gl", i & 1), i % 3);
  }
  /* one of the counts is zero: nothing moves */
  if (me == 0 && mc_param("zero", 1)) for (op = 0; op < nops; op++) for (target = 0; target < 2 && target < n; target++) for (lv = 0; lv <= maxlv; lv++) for (i = 0; i <= lv; i++) for (k1 = 0; k1 < 2; k1++) for (gl = 0; gl < 2; gl++) {
    int cnt[10], ls[10], rs[10], b; cnt[0] = 4; for (b = 0; b < lv; b++) cnt[b+1] = 2;
    if (mc_param("gl", -1) >= 0 && gl != mc_param("gl", -1)) continue;
    mkstride(ls, cnt, lv, k1 ? 13 : 0); mkstride(rs, cnt, lv, k1 ? 26 : 0); cnt[i] = 0;
    one(n, op, target, lv, cnt, ls, rs, gl, i);
  }
  mc_barrier();
  ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
