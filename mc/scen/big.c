/* Large sizes (C01-C04, C08, C13, C14): transfers up to a megabyte, descriptors and dimensions of up to thousands of segments. Sizes lie around every
 * power of two, where code that splits, batches or chunks changes its path. One process issues the operations, one at a time. */
#include "common.h"
#include "cfg.h"
#include <sys/mman.h>
#define SZ ((1 << 20) + 8192)
static int fam;      /* 0 contiguous, 1 accumulate, 2 strided, 3 vector */
void setup_big(void)
{
  fam = mc_param("fam", 0);
  cfg_base();
  cfg_sm = fam == 2 ? CH("sm", 2) : 0; mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  if (fam == 3 || (fam == 2 && !cfg_sm)) {
    int im = CH("im", 4), lim = im == 1 ? CH("lim", 4) : 0, ch = im != 1 ? CH("chunk", 4) : 0; static const int v[] = {0, 7, 64, 256};
    cfg_iovset(im, v[lim], v[ch], CH("checks", 2));
  }
  mc_label("family %d strided %s iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d", fam, cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
static void *T[2][MAXP]; static unsigned char *M[2][MAXP], *pm, *pb, *tmp; static int salt, every, cnt, reuse;
static int types[] = {ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP}; static const int ts[] = {4, 8, 4, 8, 8, 16};
static int si[2] = {1, 3}; static long sl[2] = {1, 3}; static float sf[2] = {1, 3}; static double sd[2] = {1, 3}; static float sc[2][2] = {{1,0}, {2,-1}}; static double sz[2][2] = {{1,0}, {2,-1}};
static void *scale(int t, int k) { return t == 0 ? (void *)&si[k] : t == 1 ? (void *)&sl[k] : t == 2 ? (void *)&sf[k] : t == 3 ? (void *)&sd[k] : t == 4 ? (void *)sc[k] : (void *)sz[k]; }
/* bytes, or values of type t */
static void fill(unsigned char *p, int t, int s)
{
  int i;
  if (t < 0) for (i = 0; i < SZ; i += 4) { unsigned v = (unsigned)(i + s*0x10001)*2654435761u; memcpy(p+i, &v, 4); }
  else if (t == 0) for (i = 0; i < SZ/4; i++) ((int *)p)[i] = (i*7+s) % 20011;
  else if (t == 1) for (i = 0; i < SZ/8; i++) ((long *)p)[i] = (i*7+s) % 20011 * 0x10000001L;
  else if (t == 2 || t == 4) for (i = 0; i < SZ/4; i++) ((float *)p)[i] = (float)((i*7+s) % 2011);
  else for (i = 0; i < SZ/8; i++) ((double *)p)[i] = (i*7+s) % 20011;
}
static void fresh(int n, int t)
{
  int a, r; salt++; mc_case();
  for (a = 0; a < 2; a++) for (r = 0; r < n; r++) { fill(M[a][r], t, salt*13 + a*101 + r*37); mc_poke(r, T[a][r], M[a][r], SZ); }
  fill(pm, t, salt*13 + 997); memcpy(pb, pm, SZ);
}
static void acc1(unsigned char *d, unsigned char *s, int len, int t, int k)
{
  int i; long l; 
  for (i = 0; i < len; i += ts[t]) switch (t) {
    case 0: *(int *)(d+i) += si[k] * *(int *)(s+i); break;
    case 1: l = sl[k] * *(long *)(s+i); *(long *)(d+i) += l; break;
    case 2: *(float *)(d+i) += sf[k] * *(float *)(s+i); break;
    case 3: *(double *)(d+i) += sd[k] * *(double *)(s+i); break;
    case 4: { float *x = (float *)(s+i), *y = (float *)(d+i); y[0] += x[0]*sc[k][0] - x[1]*sc[k][1]; y[1] += x[0]*sc[k][1] + x[1]*sc[k][0]; break; }
    default: { double *x = (double *)(s+i), *y = (double *)(d+i); y[0] += x[0]*sz[k][0] - x[1]*sz[k][1]; y[1] += x[0]*sz[k][1] + x[1]*sz[k][0]; }
  }
}
static void verify(int n, const char *what)
{
  int a, r, i;
  if (memcmp(pb, pm, SZ)) { for (i = 0; pb[i] == pm[i]; i++) ; CHECK(0, "content", "%s: byte %d of the private buffer differs", what, i); }
  for (a = 0; a < 2; a++) for (r = 0; r < n; r++) { mc_peek(r, T[a][r], tmp, SZ); if (memcmp(tmp, M[a][r], SZ)) { for (i = 0; tmp[i] == M[a][r][i]; i++) ; CHECK(0, "content", "%s: byte %d of allocation %d on rank %d differs", what, i, a, r); } }
}
/* model address of the local or remote buffer */
static int lk, tg, me_;
static unsigned char *lm(int off) { return (lk ? M[1][me_] : pm) + off; }
static unsigned char *la(int off) { return (lk ? (unsigned char *)T[1][me_] : pb) + off; }
static unsigned char *rm(int off) { return M[0][tg] + off; }
static unsigned char *rad(int off) { return (unsigned char *)T[0][tg] + off; }
static void spoil(void) { int i; if (!reuse) return; for (i = 0; i < SZ; i += 64) { la(0)[i] ^= 0x5a; lm(0)[i] ^= 0x5a; } }
static void done(int n, int op, const char *what)
{
  if (op & 1) verify(n, what);      /* a get: complete now */
  spoil();
  if (!(op & 1)) ARMCI_Fence(tg);
  verify(n, what);
  if (mc_deliver_all()) verify(n, what);
}
static int thin(void) { return every > 1 && cnt++ % every; }
static const char *on[] = {"put", "get", "nbput", "nbget", "acc", "", "nbacc"};
static void contig(int n, int op, int len, int ro, int lo, int t, int k)
{
  char what[160]; armci_hdl_t h; int rc = 0;
  if (len < 0 || ro+len > SZ || lo+len > SZ || thin()) return;
  fresh(n, t); ARMCI_INIT_HANDLE(&h);
  snprintf(what, sizeof what, "%s of %d bytes (type %d scale %d) at %d of rank %d, local %s %d", on[op], len, t, k, ro, tg, lk ? "global" : "private", lo);
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  switch (op) {
    case 0: rc = ARMCI_Put(la(lo), rad(ro), len, tg); break;
    case 1: rc = ARMCI_Get(rad(ro), la(lo), len, tg); break;
    case 2: rc = ARMCI_NbPut(la(lo), rad(ro), len, tg, &h); ARMCI_Wait(&h); break;
    case 3: rc = ARMCI_NbGet(rad(ro), la(lo), len, tg, &h); ARMCI_Wait(&h); break;
    case 4: rc = ARMCI_Acc(types[t], scale(t, k), la(lo), rad(ro), len, tg); break;
    default: rc = ARMCI_NbAcc(types[t], scale(t, k), la(lo), rad(ro), len, tg, &h); ARMCI_Wait(&h); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", what, rc);
  if (op & 1) memcpy(lm(lo), rm(ro), len); else if (op < 4) memcpy(rm(ro), lm(lo), len); else acc1(rm(ro), lm(lo), len, t, k);
  done(n, op, what);
}
static void piece(int op, int ro, int lo, int len, int t, int k) { if (op & 1) memcpy(lm(lo), rm(ro), len); else if (op < 4) memcpy(rm(ro), lm(lo), len); else acc1(rm(ro), lm(lo), len, t, k); }
static void strided(int n, int op, int lv, const int *c, int lp, int rp, int t, int k)
{
  char what[200]; armci_hdl_t h; int rc = 0, ls[4], rs[4], cc[5], i, j, l, idx[4] = {0}, lsp = c[0], rsp = c[0];
  for (i = 0; i < lv; i++) { ls[i] = lsp + (i == 0 ? lp : 0); rs[i] = rsp + (i == 0 ? rp : 0); lsp = ls[i]*c[i+1]; rsp = rs[i]*c[i+1]; }
  if (lsp+64 > SZ || rsp+64 > SZ || thin()) return;
  for (i = 0; i <= lv; i++) cc[i] = c[i];
  fresh(n, t); ARMCI_INIT_HANDLE(&h);
  l = snprintf(what, sizeof what, "strided %s (type %d scale %d), rank %d, local %s, padding %d/%d, counts", on[op], t, k, tg, lk ? "global" : "private", lp, rp);
  for (i = 0; i <= lv; i++) l += snprintf(what+l, sizeof what-l, " %d", c[i]);
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  switch (op) {
    case 0: rc = ARMCI_PutS(la(16), ls, rad(32), rs, cc, lv, tg); break;
    case 1: rc = ARMCI_GetS(rad(32), rs, la(16), ls, cc, lv, tg); break;
    case 2: rc = ARMCI_NbPutS(la(16), ls, rad(32), rs, cc, lv, tg, &h); ARMCI_Wait(&h); break;
    case 3: rc = ARMCI_NbGetS(rad(32), rs, la(16), ls, cc, lv, tg, &h); ARMCI_Wait(&h); break;
    case 4: rc = ARMCI_AccS(types[t], scale(t, k), la(16), ls, rad(32), rs, cc, lv, tg); break;
    default: rc = ARMCI_NbAccS(types[t], scale(t, k), la(16), ls, rad(32), rs, cc, lv, tg, &h); ARMCI_Wait(&h); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", what, rc);
  for (j = 0; j < lv; j++) CHECK(cc[j+1] == c[j+1], "args", "%s changed its counts", what);
  for (;;) {
    int so = 0, d = 0; for (i = 0; i < lv; i++) { so += ls[i]*idx[i]; d += rs[i]*idx[i]; }
    piece(op, 32+d, 16+so, c[0], t, k);
    for (i = 0; i < lv; i++) { if (++idx[i] < c[i+1]) break; idx[i] = 0; }
    if (i == lv) break;
  }
  done(n, op, what);
}
#define MAXSEG 8200
static void *sp[MAXSEG], *dp[MAXSEG];
static int pos(int o, int i, int ns, int w) { return o == 0 ? i*w : o == 1 ? (ns-1-i)*w : (int)((long)i*7919 % ns)*w; }      /* ascending, descending, scattered (7919 is prime) */
static void vector(int n, int op, int ns, int bytes, int ro, int lo, int t, int k)
{
  char what[200]; armci_hdl_t h; armci_giov_t g[2]; int rc = 0, i, al = t < 0 ? 1 : ts[t], w = bytes+al, half = 0;
  if (ns > MAXSEG || (ns % 7919 == 0) || (long)ns*w + 64 > SZ || thin()) return;
  fresh(n, t); ARMCI_INIT_HANDLE(&h);
  for (i = 0; i < ns; i++) { void *l = la(16 + pos(lo, i, ns, w)), *r = rad(32 + pos(ro, i, ns, w)); if (op & 1) { sp[i] = r; dp[i] = l; } else { sp[i] = l; dp[i] = r; } }
  snprintf(what, sizeof what, "vector %s (type %d scale %d), rank %d, local %s, %d segments of %d bytes, remote order %d, local order %d", on[op], t, k, tg, lk ? "global" : "private", ns, bytes, ro, lo);
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  g[0].src_ptr_array = sp; g[0].dst_ptr_array = dp; g[0].bytes = bytes; g[0].ptr_array_len = ns;
  if ((ns + bytes) % 3 == 0) { half = ns/3; g[0].ptr_array_len = half; g[1] = g[0]; g[1].src_ptr_array = sp+half; g[1].dst_ptr_array = dp+half; g[1].ptr_array_len = ns-half; }
  switch (op) {
    case 0: rc = ARMCI_PutV(g, 1+!!half, tg); break;
    case 1: rc = ARMCI_GetV(g, 1+!!half, tg); break;
    case 2: rc = ARMCI_NbPutV(g, 1+!!half, tg, &h); ARMCI_Wait(&h); break;
    case 3: rc = ARMCI_NbGetV(g, 1+!!half, tg, &h); ARMCI_Wait(&h); break;
    case 4: rc = ARMCI_AccV(types[t], scale(t, k), g, 1+!!half, tg); break;
    default: rc = ARMCI_NbAccV(types[t], scale(t, k), g, 1+!!half, tg, &h); ARMCI_Wait(&h); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", what, rc);
  for (i = 0; i < ns; i++) piece(op, 32 + pos(ro, i, ns, w), 16 + pos(lo, i, ns, w), bytes, t, k);
  done(n, op, what);
}
void rank_big(int me, int n)
{
  int a, r, op, k, d, t, i, j, o0 = mc_param("op0", 0), o1 = mc_param("op1", 4);
  mc_init();
  every = mc_param("every", 1); reuse = mc_param("reuse", 0); me_ = me;
  { unsigned h = 7; char *e = getenv("ARMCI_IOV_METHOD"); h += (unsigned)(cfg_del*3 + cfg_layout*5 + cfg_shr*7 + cfg_atom*11 + cfg_e2e*13 + cfg_wa*17 + cfg_lim*19 + cfg_chunk*23 + cfg_checks*29 + cfg_sm*31 + (e ? e[0] : 0)); cnt = (int)(h % (unsigned)every); }
  for (a = 0; a < 2; a++) mc_alloc(T[a], SZ);
  if (me == 0) { for (a = 0; a < 2; a++) for (r = 0; r < n; r++) M[a][r] = malloc(SZ); pm = malloc(SZ); pb = malloc(SZ); tmp = malloc(SZ); }
  ARMCI_Barrier(); mc_barrier();
  if (me == 0) for (tg = 0; tg < n; tg++) for (lk = mc_param("lk0", 0); lk < 2; lk++) {
    if (fam == 0) for (op = o0; op < o1; op++) for (k = 10; k <= 20; k++) for (d = -1; d <= 1; d++) for (i = 0; i < 2; i++) contig(n, op, (1 << k) + d, i ? 4099 : 0, i ? 3 : 5, -1, 0);
    if (fam == 1) for (op = 4; op < 8; op += 2) for (t = 0; t < 6; t++) for (i = 0; i < 2; i++) for (k = 12; k <= 20; k++) for (d = -1; d <= 1; d++) contig(n, op, (1 << k) + d*ts[t], d ? 0 : ts[t], d < 0 ? ts[t] : 0, t, i);
    if (fam == 2) {
      static const int C[][4] = {{8,255}, {8,256}, {8,257}, {16,1000}, {1024,300}, {16,4097}, {65536,15}, {524288,1}, {8,33,31}, {64,257,5}, {16,2,1025}, {16,1,4096}, {2048,2,100}, {8,3,5,300}, {8,2,257,9}, {16,64,2,64}}; static const int L[] = {1,1,1,1,1,1,1,1,2,2,2,2,2,3,3,3};
      for (op = o0; op < o1; op++) for (i = 0; i < 16; i++) for (j = 0; j < 3; j++) { int c[4]; memcpy(c, C[i], sizeof c); if (j) c[0] -= j % 2; strided(n, op, L[i], c, j == 1 ? 1 : 0, j == 2 ? 3 : 0, -1, 0); }
      for (op = 4; op < 8; op += 2) for (t = 0; t < 6; t++) for (k = 0; k < 2; k++) for (i = 0; i < 16; i++) { int c[4]; memcpy(c, C[i], sizeof c); if (c[0] % ts[t]) c[0] *= 2; if (mc_param("acc", 1)) strided(n, op, L[i], c, (i&1)*ts[t], (i&2)*ts[t], t, k); }
    }
    if (fam == 3) {
      static const int NS[] = {15, 64, 127, 255, 256, 257, 300, 511, 512, 513, 1000, 1025, 4097, 8191}, B[] = {1, 8, 100, 1000};
      for (op = o0; op < o1; op++) for (i = 0; i < 14; i++) for (j = 0; j < 4; j++) for (d = 0; d < 9; d++) vector(n, op, NS[i], B[j], d % 3, d / 3, -1, 0);
      for (op = 4; op < 8; op += 2) for (t = 0; t < 6; t++) for (k = 0; k < 2; k++) for (i = 0; i < 14; i++) for (j = 1; j < 8; j *= 6) for (d = 0; d < 9; d++) if (mc_param("acc", 1)) vector(n, op, NS[i], j*ts[t], d % 3, d / 3, t, k);
    }
  }
  if (me == 0) { for (a = 0; a < 2; a++) for (r = 0; r < n; r++) free(M[a][r]); free(pm); free(pb); free(tmp); }
  mc_barrier(); ARMCI_Barrier();
  for (a = 1; a >= 0; a--) ARMCI_Free(T[a][me]);
  mc_fini();
}
/* reductions and messages of large counts */
static int in(int r, int i, int p) { return (int)(((unsigned)(i*31 + r*1009 + p*77) * 2654435761u) >> 12) % 4001 - 2000; }
void setup_bigmsg(void)
{
  int o = mc_choose(2), shr = mc_choose(2), g = mc_choose(2); mc_opt("red_order", o*2); mc_opt("red_seg", o); mc_opt("layout", g);
  if (shr) mc_env("ARMCI_SHR_BUF_METHOD", "COPY"); 
  mc_set(100, g);
  mc_label("association %d copy %d subgroup %d", o, shr, g);
}
void rank_bigmsg(int me, int n)
{
  static const int ns[] = {255, 1000, 1024, 4096, 4097, 10000, 65537, 131072}; static const int scopes[] = {SCOPE_ALL, SCOPE_MASTERS};
  ARMCI_Group g; int gk = (int)mc_get(100), mem[MAXP], nm = 0, i, j, r, ty, op, rc, member = 0, N; static char *ops[] = {"+", "max", "absmin"};
  mc_init();
  for (i = gk ? n-1 : 0; i >= 0 && i < n; i += gk ? -1 : 1) if (!gk || i != 1 || n == 2) mem[nm++] = i;
  if (gk) mc_group(nm, mem, &g); else ARMCI_Group_get_world(&g);
  for (i = 0; i < nm; i++) member |= mem[i] == me;
  if (member) for (j = 0; j < 8; j++) for (op = 0; op < 3; op++) for (ty = 0; ty < 3; ty++) {
    N = ns[j]; int b = ty == 1 ? 4 : 8; unsigned char *x = malloc((size_t)N*b + 16); memset(x + (size_t)N*b, 0x77, 16); mc_case();
    for (i = 0; i < N; i++) { int v = in(me, i, j+op); if (ty == 0) ((double *)x)[i] = v; else if (ty == 1) ((int *)x)[i] = v; else ((long *)x)[i] = v; }
    if (ty == 0) armci_msg_group_dgop((double *)x, N, ops[op], &g); else if (ty == 1) armci_msg_group_igop((int *)x, N, ops[op], &g); else armci_msg_group_lgop((long *)x, N, ops[op], &g);
    for (i = 0; i < N; i++) {
      long e = 0; for (r = 0; r < nm; r++) { long v = in(mem[r], i, j+op); if (op == 2 && v < 0) v = -v; e = !r ? v : op == 0 ? e+v : op == 1 ? (e > v ? e : v) : (e < v ? e : v); }
      long got = ty == 0 ? (long)((double *)x)[i] : ty == 1 ? ((int *)x)[i] : ((long *)x)[i];
      CHECK(got == e, "value", "'%s' of %d elements (type %d): element %d is %ld, expected %ld", ops[op], N, ty, i, got, e);
    }
    for (i = 0; i < 16; i++) CHECK(x[(size_t)N*b+i] == 0x77, "outside", "'%s' of %d elements wrote behind the buffer", ops[op], N);
    free(x);
  }
  for (j = 0; j < 8; j++) {
    N = ns[j]*8 + j; unsigned char *x = malloc(N+16), *y = malloc(N+16); mc_case();
    for (r = 0; r < n; r += n > 1 ? n-1 : 1) for (op = 0; op < 3; op++) {
      for (i = 0; i < N+16; i++) x[i] = (unsigned char)(i >= N ? 0x77 : me == r ? i*7 + (i>>8) + j + op : 0x33);
      if (op < 2) armci_msg_bcast_scope(scopes[op], x, N, r); else if (member && (r == mem[0] || r == mem[nm-1])) armci_msg_group_bcast_scope(SCOPE_ALL, x, N, r, &g); else continue;
      for (i = 0; i < N+16; i++) CHECK(x[i] == (unsigned char)(i >= N ? 0x77 : i*7 + (i>>8) + j + op), "bcast", "broadcast %d of %d bytes from rank %d: byte %d of rank %d is wrong", op, N, r, i, me);
    }
    if (n > 1) {
      for (i = 0; i < N; i++) x[i] = (unsigned char)(i*3 + (i>>8) + me);
      memset(y, 0x77, N+16);
      if (me == 0) { armci_msg_snd(5, x, N, n-1); armci_msg_rcv(6, y, N+16, &rc, n-1); } else if (me == n-1) { armci_msg_rcv(5, y, N+16, &rc, 0); armci_msg_snd(6, x, N, 0); }
      if (me == 0 || me == n-1) { CHECK(rc == N, "length", "message of %d bytes: received length %d", N, rc); for (i = 0; i < N+16; i++) CHECK(y[i] == (unsigned char)(i >= N ? 0x77 : i*3 + (i>>8) + (me ? 0 : n-1)), "message", "message of %d bytes: byte %d is wrong", N, i); }
    }
    free(x); free(y);
  }
  if (gk) ARMCI_Group_free(&g);
  mc_fini();
}
/* one descriptor of more than a million segments: more than a stack of 8 MB can describe */
#define MN 1100000
void setup_many(void)
{
  static const int v[] = {0, 1000, 65536}; int im;
  cfg_base(); im = 2 + CH("im", 2); cfg_sm = CH("sm", 3);      /* 0: vectors; 1, 2: strided through an IOV, directly */
  if (cfg_sm == 2 && im > 2) mc_skip();
  mc_env("ARMCI_STRIDED_METHOD", cfg_sm == 2 ? "DIRECT" : "IOV");
  cfg_iovset(im, 0, v[CH("chunk", 3)], CH("checks", 2)); mc_opt("max_steps", 20000000);
  mc_label("%s iov %s limit %d chunk %d checks %d delivery %d copy %d atomic %d e2e %d win_create %d", cfg_sm ? cfg_sm == 2 ? "strided DIRECT" : "strided IOV" : "vector", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
void rank_many(int me, int n)
{
  void *T[MAXP], **s, **d; int *p, *m, i, op, rc = 0, ls[1] = {8}, rs[1] = {8}, cn[2] = {4, MN}, one = 1; armci_giov_t g; armci_hdl_t h; static const char *nm[] = {"put", "get", "non-blocking put", "non-blocking get", "accumulate", "non-blocking accumulate"};
  mc_init(); mc_alloc(T, 8*MN);
  if (me == 0) {
    int op0 = mc_param("op", -1);
    p = mmap(NULL, 8*MN, 3, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); m = mmap(NULL, 8*MN, 3, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); s = mmap(NULL, 8*MN, 3, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); d = mmap(NULL, 8*MN, 3, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    for (op = op0 < 0 ? 0 : op0; op < (op0 < 0 ? 6 : op0+1); op++) {
      mc_case();
      for (i = 0; i < 2*MN; i++) m[i] = i*3 + op; mc_poke(1, T[1], m, 8*MN);
      for (i = 0; i < 2*MN; i++) p[i] = -i*5 - op;
      g.bytes = 4; g.ptr_array_len = MN; g.src_ptr_array = s; g.dst_ptr_array = d;
      for (i = 0; i < MN; i++) { void *l = p + 2*i, *r = (int *)T[1] + 2*i; s[i] = (op & 1) && op < 4 ? r : l; d[i] = (op & 1) && op < 4 ? l : r; }
      ARMCI_INIT_HANDLE(&h);
      if (!cfg_sm) switch (op) {
        case 0: rc = ARMCI_PutV(&g, 1, 1); break; case 1: rc = ARMCI_GetV(&g, 1, 1); break; case 2: rc = ARMCI_NbPutV(&g, 1, 1, &h); break;
        case 3: rc = ARMCI_NbGetV(&g, 1, 1, &h); break; case 4: rc = ARMCI_AccV(ARMCI_ACC_INT, &one, &g, 1, 1); break; default: rc = ARMCI_NbAccV(ARMCI_ACC_INT, &one, &g, 1, 1, &h); break;
      } else switch (op) {
        case 0: rc = ARMCI_PutS(p, ls, T[1], rs, cn, 1, 1); break; case 1: rc = ARMCI_GetS(T[1], rs, p, ls, cn, 1, 1); break; case 2: rc = ARMCI_NbPutS(p, ls, T[1], rs, cn, 1, 1, &h); break;
        case 3: rc = ARMCI_NbGetS(T[1], rs, p, ls, cn, 1, 1, &h); break; case 4: rc = ARMCI_AccS(ARMCI_ACC_INT, &one, p, ls, T[1], rs, cn, 1, 1); break; default: rc = ARMCI_NbAccS(ARMCI_ACC_INT, &one, p, ls, T[1], rs, cn, 1, 1, &h); break;
      }
      CHECK(rc == 0, "status", "%s of %d segments returned %d", nm[op], MN, rc);
      if (op == 2 || op == 3 || op == 5) ARMCI_Wait(&h);
      ARMCI_Fence(1); mc_deliver_all(); mc_peek(1, T[1], m, 8*MN);
      for (i = 0; i < 2*MN; i++) {
        int l0 = -i*5 - op, r0 = i*3 + op, l = l0, r = r0;
        if (!(i & 1)) { if (op == 0 || op == 2) r = l0; else if (op < 4) l = r0; else r = l0 + r0; }
        CHECK(p[i] == l && m[i] == r, "content", "%s of %d segments: word %d is %d locally and %d remotely, expected %d and %d", nm[op], MN, i, p[i], m[i], l, r);
      }
    }
    munmap(p, 8*MN); munmap(m, 8*MN); munmap(s, 8*MN); munmap(d, 8*MN);
  }
  mc_barrier(); ARMCI_Barrier(); ARMCI_Free(T[me]); mc_fini();
}
