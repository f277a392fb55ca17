/* Global memory and local buffers of more than 2 and 4 GB: offsets, strides and displacements that do not fit an int. The memory is sparse
 * (untouched pages); a model of the touched bytes of both processes and of the local buffer is compared after every operation. */
#include "cfg.h"
#include <sys/mman.h>
typedef long long ll;
#define G 1073741824LL
static const ll sizes[] = {2*G - 8192, 2*G + 8192, 4*G + 8192, 6*G};
static int cfg_sz, grp;
void setup_huge(void)
{
  cfg_base();
  cfg_sz = CH("sz", 4); grp = CH("grp", 2);
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  mc_set(100, cfg_sz); mc_set(101, grp);
  mc_label("%lld bytes, group %d, strided %s iov %s limit %d chunk %d checks %d delivery %d copy %d atomic %d e2e %d win_create %d", sizes[cfg_sz], grp, cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
/* model: touched bytes; space 0,1: global memory of process 0,1; 2: the local buffer */
typedef struct { unsigned char *p; unsigned char v, sp; } ent;
#define HB 17
static ent *tab; static int ntab; static int *slot; static unsigned char *base[3]; static ll S[3];
static int find(unsigned char *p, int add)
{
  unsigned h = (unsigned)(((unsigned long)p * 0x9e3779b97f4a7c15UL) >> (64-HB));
  while (slot[h] && tab[slot[h]-1].p != p) h = (h+1) & ((1<<HB)-1);
  if (!slot[h] && add) { tab[ntab].p = p; tab[ntab].v = 0; tab[ntab].sp = 0; slot[h] = ++ntab; }
  return slot[h]-1;
}
static void set(unsigned char *p, unsigned char v) { int k = find(p, 1); tab[k].v = v; }
static unsigned char get(unsigned char *p) { int k = find(p, 0); return k < 0 ? 0 : tab[k].v; }
static void touch(int sp, ll off, int len, int salt)      /* gives [off-16, off+len+16) known contents */
{
  ll i; for (i = off-16; i < off+len+16; i++) if (i >= 0 && i < S[sp]) { unsigned char *p = base[sp]+i; if (find(p, 0) < 0) { unsigned char v = (unsigned char)((i*7 + (i >> 12)*3 + (i >> 31)*5 + sp*41 + salt*13) & 0x3f) + 1; *p = v; set(p, v); } }
}
static void forget(void) { int i; for (i = 0; i < ntab; i++) *tab[i].p = 0; ntab = 0; memset(slot, 0, sizeof(int) << HB); }
static void watch(int salt) { static const ll w[] = {0, 64, 2*G-64, 2*G, 2*G+64, 4*G-64, 4*G, 4*G+64}; int i, s; for (s = 0; s < 3; s++) { for (i = 0; i < 8; i++) if (w[i] + 64 <= S[s]) touch(s, w[i], 32, salt); touch(s, S[s]-32, 32, salt); } }
static void verify(const char *what)
{
  int i; mc_deliver_all();
  for (i = 0; i < ntab; i++) if (*tab[i].p != tab[i].v) { int s; for (s = 0; s < 3; s++) if (tab[i].p >= base[s] && tab[i].p < base[s]+S[s]) break; mc_fail("contents", "%s: byte %lld of %s is %02x, expected %02x", what, s < 3 ? (ll)(tab[i].p - base[s]) : -1LL, s == 2 ? "the local buffer" : s ? "process 1" : "process 0", *tab[i].p, tab[i].v); }
}
enum { PUT, GET, ACC };
static const char *on[] = {"put", "get", "acc"};
static void model(int op, unsigned char *l, unsigned char *r, int len, long scale)
{
  int i, j; for (i = 0; i < len; i += 8) {
    if (op == ACC) { long a = 0, b = 0; unsigned char *ca = (unsigned char *)&a, *cb = (unsigned char *)&b; for (j = 0; j < 8; j++) { ca[j] = get(l+i+j); cb[j] = get(r+i+j); } b += a*scale; for (j = 0; j < 8; j++) set(r+i+j, cb[j]); }
    else for (j = 0; j < 8 && i+j < len; j++) if (op == PUT) set(r+i+j, get(l+i+j)); else set(l+i+j, get(r+i+j)); }
}
static int ncase, every, cnt;
static int thin(void) { return every > 1 && cnt++ % every; }
static void contig(int t, int op, int nb, ll ro, ll lo, int len, long scale)
{
  char what[200]; armci_hdl_t h; unsigned char *l = base[2]+lo, *r = base[t]+ro;
  if (thin()) return; mc_case(); ncase++;
  watch(ncase); touch(t, ro, len, ncase); touch(2, lo, len, ncase);
  snprintf(what, sizeof what, "%s%s of %d bytes at offset %lld of process %d, local offset %lld, scale %ld", nb ? "non-blocking " : "", on[op], len, ro, t, lo, scale);
  ARMCI_INIT_HANDLE(&h);
  if (op == PUT) { if (nb) ARMCI_NbPut(l, r, len, t, &h); else ARMCI_Put(l, r, len, t); }
  else if (op == GET) { if (nb) ARMCI_NbGet(r, l, len, t, &h); else ARMCI_Get(r, l, len, t); }
  else { if (nb) ARMCI_NbAcc(ARMCI_ACC_LNG, &scale, l, r, len, t, &h); else ARMCI_Acc(ARMCI_ACC_LNG, &scale, l, r, len, t); }
  if (nb) ARMCI_Wait(&h);
  model(op, l, r, len, scale); ARMCI_Fence(t); verify(what); forget();
}
static void scalar(int t, ll ro)
{
  char what[100]; long v = 0x1122334455667788L, o; int w; unsigned char *r = base[t]+ro; int i;
  if (thin()) return; mc_case(); ncase++;
  watch(ncase); touch(t, ro, 8, ncase);
  snprintf(what, sizeof what, "scalar operations at offset %lld of process %d", ro, t);
  for (o = i = 0; i < 8; i++) o |= (long)get(r+i) << 8*i;
  CHECK(ARMCI_GetValueLong(r, t) == o, "value", "%s: get", what);
  ARMCI_PutValueLong(v, r, t); ARMCI_Fence(t); for (i = 0; i < 8; i++) set(r+i, v >> 8*i); verify(what);
  ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &o, r, 5, t); ARMCI_Fence(t); CHECK(o == v, "rmw", "%s: fetch-and-add", what); v += 5; for (i = 0; i < 8; i++) set(r+i, v >> 8*i); verify(what);
  w = 77; ARMCI_Rmw(ARMCI_SWAP, &w, r, 0, t); ARMCI_Fence(t); CHECK(w == (int)v, "rmw", "%s: swap", what); set(r, 77); for (i = 1; i < 4; i++) set(r+i, 0); verify(what);
  forget();
}
static void strided(int t, int op, int nb, ll ro, int *rs, ll lo, int *ls, int *cn, int lv, long scale)
{
  char what[300]; armci_hdl_t h; unsigned char *l = base[2]+lo, *r = base[t]+ro; int i, j, pass, at; ll re = ro+cn[0], le = lo+cn[0];
  for (i = 0; i < lv; i++) { re += (ll)rs[i]*(cn[i+1]-1); le += (ll)ls[i]*(cn[i+1]-1); }
  if (re > S[t] || le > S[2]) return;
  if (lv > 1) for (i = 0; i < 2; i++) { int *q = i ? ls : rs; for (j = -(cn[1]-1); j < cn[1]; j++) { ll d = q[1] - (ll)q[0]*j; if (d < 0) d = -d; if (d < cn[0]) return; } }      /* blocks of one operation do not overlap */
  if (thin()) return; mc_case(); ncase++;
  watch(ncase);
  for (pass = 0; pass < 2; pass++) {
    if (pass) {
      at = snprintf(what, sizeof what, "%s%s, %d levels, offset %lld of process %d, local %lld, scale %ld, counts", nb ? "non-blocking " : "", on[op], lv, ro, t, lo, scale); for (i = 0; i <= lv; i++) at += snprintf(what+at, sizeof what-at, " %d", cn[i]); for (i = 0; i < lv; i++) at += snprintf(what+at, sizeof what-at, " remote stride %d local %d", rs[i], ls[i]);
      ARMCI_INIT_HANDLE(&h);
      if (op == PUT) { if (nb) ARMCI_NbPutS(l, ls, r, rs, cn, lv, t, &h); else ARMCI_PutS(l, ls, r, rs, cn, lv, t); }
      else if (op == GET) { if (nb) ARMCI_NbGetS(r, rs, l, ls, cn, lv, t, &h); else ARMCI_GetS(r, rs, l, ls, cn, lv, t); }
      else { if (nb) ARMCI_NbAccS(ARMCI_ACC_LNG, &scale, l, ls, r, rs, cn, lv, t, &h); else ARMCI_AccS(ARMCI_ACC_LNG, &scale, l, ls, r, rs, cn, lv, t); }
      if (nb) ARMCI_Wait(&h);
    }
    for (i = 0; i < (lv > 1 ? cn[2] : 1); i++) for (j = 0; j < cn[1]; j++) {
      ll dr = (ll)rs[0]*j + (lv > 1 ? (ll)rs[1]*i : 0), dl = (ll)ls[0]*j + (lv > 1 ? (ll)ls[1]*i : 0);
      if (pass) model(op, l+dl, r+dr, cn[0], scale); else { touch(t, ro+dr, cn[0], ncase); touch(2, lo+dl, cn[0], ncase); }
    }
  }
  ARMCI_Fence(t); verify(what); forget();
}
static void vector(int t, int op, int nb, int k, const ll *ro, const ll *lo, int len, long scale)
{
  char what[300]; armci_hdl_t h; armci_giov_t g; void *s[8], *d[8]; int i, at;
  for (i = 0; i < k; i++) if (ro[i]+len > S[t] || lo[i]+len > S[2]) return;
  if (thin()) return; mc_case(); ncase++;
  watch(ncase);
  at = snprintf(what, sizeof what, "%s%s of %d segments of %d bytes, process %d, scale %ld:", nb ? "non-blocking " : "", on[op], k, len, t, scale);
  for (i = 0; i < k; i++) { touch(t, ro[i], len, ncase); touch(2, lo[i], len, ncase); at += snprintf(what+at, sizeof what-at, " %lld/%lld", ro[i], lo[i]); s[i] = op == GET ? base[t]+ro[i] : base[2]+lo[i]; d[i] = op == GET ? base[2]+lo[i] : base[t]+ro[i]; }
  g.bytes = len; g.ptr_array_len = k; g.src_ptr_array = s; g.dst_ptr_array = d;
  ARMCI_INIT_HANDLE(&h);
  if (op == PUT) { if (nb) ARMCI_NbPutV(&g, 1, t, &h); else ARMCI_PutV(&g, 1, t); }
  else if (op == GET) { if (nb) ARMCI_NbGetV(&g, 1, t, &h); else ARMCI_GetV(&g, 1, t); }
  else { if (nb) ARMCI_NbAccV(ARMCI_ACC_LNG, &scale, &g, 1, t, &h); else ARMCI_AccV(ARMCI_ACC_LNG, &scale, &g, 1, t); }
  if (nb) ARMCI_Wait(&h);
  for (i = 0; i < k; i++) model(op, base[2]+lo[i], base[t]+ro[i], len, scale);
  ARMCI_Fence(t); verify(what); forget();
}
void rank_huge(int me, int n)
{
  void *T[MAXP]; ARMCI_Group g; int i, j, k, op, nb, t, l[2] = {1, 0}; ll sz = sizes[mc_get(100)]; long sc; unsigned char *loc = NULL; int gm = (int)mc_get(101), fam = mc_param("fam", -1);
  static const ll pos[] = {0, 64, 2*G-8, 2*G-32, 2*G, 2*G+4096, 3*G, 4*G-8, 4*G, 4*G+64, 5*G};
  every = mc_param("every", 1);
  mc_init();
  if (gm) { mc_group(2, l, &g); CHECK(ARMCI_Malloc_group(T, me ? sz : sz + 4096, &g) == 0, "malloc", "allocation failed"); base[1] = T[0]; base[0] = T[1]; }
  else { mc_alloc(T, me ? sz : sz + 4096); base[0] = T[0]; base[1] = T[1]; }
  S[0] = sz + 4096; S[1] = sz;
  loc = ARMCI_Malloc_local(sz); base[2] = loc; S[2] = sz;
  ARMCI_Barrier();
  if (me == 0) {
    tab = mmap(NULL, sizeof(ent) << HB, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); slot = mmap(NULL, sizeof(int) << HB, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    cnt = (cfg_sm*31 + cfg_im*37 + cfg_del*3 + cfg_layout*5 + cfg_shr*7 + cfg_atom*11 + cfg_e2e*13 + cfg_wa*17 + cfg_lim*19 + cfg_chunk*23 + cfg_checks*29 + gm*41 + cfg_sz*43) % (every ? every : 1);
    for (t = 1; t >= 0; t--) for (op = mc_param("op0", 0); op < mc_param("op1", 3); op++) for (nb = 0; nb < 2; nb++) for (sc = 1; sc < (op == ACC ? 4 : 2); sc += 2) {
      ll last = S[t]-32; int strides[] = {1 << 20, 1 << 29, 1 << 30, (1 << 30) + 64, 2147483640}, small = 48;
      if (fam < 0 || fam == 0) for (i = 0; i < 12; i++) for (j = 0; j < 12; j += i % 3 + 1) { ll r = i < 11 ? pos[i] : last, q = j < 11 ? pos[j] : S[2]-32; if (r > last || q > S[2]-32) continue; contig(t, op, nb, r, q, 32, sc); if (op == 0 && !nb && !j) scalar(t, r); }
      if (fam < 0 || fam == 1) for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) for (k = 2; k < 6; k++) { int cn[3] = {16, k, 2}, r2[2] = {strides[i], strides[j]}, s2[2] = {small, 512}, b2[2];
        if (j == 0) { strided(t, op, nb, 8, r2, 16, s2, cn, 1, sc); strided(t, op, nb, 16, s2, 8, r2, cn, 1, sc); strided(t, op, nb, 24, r2, 40, r2, cn, 1, sc); strided(t, op, nb, 2*G-16, s2, 0, r2, cn, 1, sc); strided(t, op, nb, G+8, r2, G, r2, cn, 1, sc); }
        if (i == j || k > 3) continue;
        b2[0] = small; b2[1] = strides[j]; strided(t, op, nb, 32, r2, 8, s2, cn, 2, sc); strided(t, op, nb, 0, s2, 16, r2, cn, 2, sc); strided(t, op, nb, 64, r2, 8, b2, cn, 2, sc); strided(t, op, nb, 8, b2, 64, r2, cn, 2, sc); }
      if (fam < 0 || fam == 2) for (i = 0; i < 12; i++) for (j = 0; j < 12; j++) { ll r[4], q[4]; if (i == j) continue;
        for (k = 0; k < 4; k++) { r[k] = k == 0 ? (i < 11 ? pos[i] : last) : k == 1 ? (j < 11 ? pos[j] : last) : k == 2 ? 128 : last-64; q[k] = 64*k+8; }
        if (llabs(r[0]-r[1]) < 24) continue;
        if (r[0] != last && r[1] != last) vector(t, op, nb, 4, r, q, 24, sc); 
        vector(t, op, nb, 2, r, q, 16, sc); q[1] = 2*G+24; vector(t, op, nb, 2, r, q, 16, sc); q[0] = 4*G+4; q[1] = 0; r[0] += 4; vector(t, op, nb, 2, r, q, 16, sc); }
    }
    munmap(tab, sizeof(ent) << HB); munmap(slot, sizeof(int) << HB);
  }
  ARMCI_Barrier();
  ARMCI_Free_local(loc);
  if (gm) { ARMCI_Free_group(T[1-me], &g); ARMCI_Group_free(&g); } else ARMCI_Free(T[me]);
  mc_fini();
}
