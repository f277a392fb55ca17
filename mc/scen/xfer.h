/* Reference model of the memory of all processes for single-origin transfers. Rank ORIGIN issues operations; the other ranks are idle.
 * The model is kept by ORIGIN and compared byte by byte with the real memory of every process. */
#ifndef XFER_H
#define XFER_H
#include "common.h"
#define XNA 4
#define XMAX 700
#ifndef XNP
#define XNP 4
#endif
#define XPMAX 2600
static void *XT[XNA][MAXP]; static int XS[XNA][MAXP]; static ARMCI_Group XG[XNA]; static int xna;
static unsigned char XM[XNA][MAXP][XMAX];
static unsigned char *XP[XNP]; static int XPS[XNP]; static unsigned char XPM[XNP][XPMAX]; static int xnp;
static int x_zero2 = -1;     /* rank that contributes nothing to allocation 2 */
static int xorigin, x_odd;    /* x_odd: added to the size of allocation 1 */
/* with parameter every=k only every k-th case is run, starting at a case that depends on the configuration (so that the configurations
 * together cover the cases evenly) */
static int x_thin(void)
{
  static int every = -1, cnt; static const char *v[] = {"ARMCI_SHR_BUF_METHOD", "ARMCI_RMA_ATOMICITY", "ARMCI_NO_FLUSH_LOCAL", "ARMCI_USE_WIN_ALLOCATE", "ARMCI_STRIDED_METHOD", "ARMCI_IOV_METHOD", "ARMCI_IOV_BATCHED_LIMIT", "ARMCI_IOV_DTYPE_CHUNK", "ARMCI_IOV_CHECKS"};
  if (every < 0) {
    unsigned h = 5381 + mc_param("every_phase", 0); int i; const char *p; every = mc_param("every", 1);
    for (i = 0; i < 9; i++) for (p = getenv(v[i]); p && *p; p++) h = h*33 + (unsigned char)*p;
    cnt = (int)((h >> 3) % (unsigned)(every > 0 ? every : 1));
  }
  return every > 1 && cnt++ % every;
}
/* allocate: allocation 0: world, size sz+8*rank (so bases differ with arena reuse); 1: world, size sz; 2: reversed group of all, size sz;
 * zero: rank that contributes nothing to allocation 0 (or -1) */
static void x_alloc(int me, int n, int origin, int sz, int count, int zero)
{
  int a, r, i, l[MAXP];
  xorigin = origin; xna = count;
  for (a = 0; a < count; a++) {
    for (r = 0; r < n; r++) XS[a][r] = a == 0 ? (r == zero ? 0 : sz + 8*r) : a == 1 ? sz + x_odd : r == x_zero2 ? 0 : sz;
    if (a == 2) { for (i = 0; i < n; i++) l[i] = n-1-i; mc_group(n, l, &XG[a]); 
      void *t[MAXP]; int rc = ARMCI_Malloc_group(t, XS[a][me], &XG[a]); CHECK(rc == 0, "malloc", "ARMCI_Malloc_group returned %d", rc); for (i = 0; i < n; i++) XT[a][l[i]] = t[i]; }
    else mc_alloc(XT[a], XS[a][me]);
    if (XS[a][me]) mc_fill(XT[a][me], XS[a][me], me, a);
    if (me == origin) for (r = 0; r < n; r++) for (i = 0; i < XS[a][r]; i++) XM[a][r][i] = mc_pat(r, a, i);
  }
  ARMCI_Barrier();
}
static void x_free(int me, int n)
{
  for (int i = 0; i < xnp; i++) free(XP[i]);
  xnp = 0;
  for (int a = xna-1; a >= 0; a--) {
    if (a == 2) { ARMCI_Free_group(XS[a][me] ? XT[a][me] : NULL, &XG[a]); ARMCI_Group_free(&XG[a]); }
    else ARMCI_Free(XS[a][me] ? XT[a][me] : NULL);
  }
}
/* fresh contents everywhere (salt distinguishes the cases), keeping model and memory equal; private buffers are dropped */
static void x_refill(int n, int salt)
{
  int a, r, i; static unsigned char base[XNA][MAXP][XMAX]; static int have;
  if (!have) { have = 1; for (a = 0; a < XNA; a++) for (r = 0; r < MAXP; r++) for (i = 0; i < XMAX; i++) base[a][r][i] = mc_pat(r, a, i); }
  for (a = 0; a < xnp; a++) free(XP[a]);
  xnp = 0; mc_case();
  for (a = 0; a < xna; a++) for (r = 0; r < n; r++) if (XS[a][r]) {
    for (i = 0; i < XS[a][r]; i++) XM[a][r][i] = (unsigned char)(base[a][r][i] + salt*29);
    mc_poke(r, XT[a][r], XM[a][r], XS[a][r]);
  }
}
static unsigned char *x_priv(int size)
{
  unsigned char *p = malloc(size); int i;
  for (i = 0; i < size; i++) p[i] = XPM[xnp][i] = (unsigned char)(0xB7 ^ (i*5 + 0x21*xnp));
  XP[xnp] = p; XPS[xnp] = size; xnp++; return p;
}
/* model cell of an address of a rank */
static unsigned char *x_ref(int rank, const void *addr, int len)
{
  const unsigned char *p = addr; int a;
  for (a = 0; a < xna; a++) { unsigned char *b = XT[a][rank]; if (XS[a][rank] && p >= b && p+len <= b+XS[a][rank]) return &XM[a][rank][p-b]; }
  if (rank == xorigin) for (a = 0; a < xnp; a++) if (p >= XP[a] && p+len <= XP[a]+XPS[a]) return &XPM[a][p-XP[a]];
  mc_fail("harness", "address %p of rank %d is not modelled", addr, rank);
}
static void x_copy(int sr, const void *s, int dr, void *d, int len)
{
  if (len <= 0) return;
  unsigned char t[XPMAX]; memcpy(t, x_ref(sr, s, len), len); memcpy(x_ref(dr, d, len), t, len);
}
/* private buffers first (a get), then every byte of global memory of every process */
static void x_verify(int n, const char *key, const char *what)
{
  int a, r, i; unsigned char b[XMAX];
  for (a = 0; a < xnp; a++) if (memcmp(XP[a], XPM[a], XPS[a])) for (i = 0; i < XPS[a]; i++) if (XP[a][i] != XPM[a][i]) CHECK(0, key, "%s: byte %d of private buffer %d is %02x, expected %02x", what, i, a, XP[a][i], XPM[a][i]);
  for (a = 0; a < xna; a++) for (r = 0; r < n; r++) { if (!XS[a][r]) continue; mc_peek(r, XT[a][r], b, XS[a][r]);
    if (memcmp(b, XM[a][r], XS[a][r])) for (i = 0; i < XS[a][r]; i++) CHECK(b[i] == XM[a][r][i], key, "%s: byte %d of allocation %d on rank %d is %02x, expected %02x", what, i, a, r, b[i], XM[a][r][i]); }
}
/* the caller reuses its local memory: private buffers are overwritten (mode 1) or released (mode 2), the range at p is overwritten */
static int x_reuse_mode = -1;
static void x_reuse_seg(int me, void *p, int len)
{
  int a, i;
  if (x_reuse_mode <= 0) return;
  for (a = 0; a < xna; a++) { unsigned char *b = XT[a][me], *q = p; if (XS[a][me] && q >= b && q+len <= b+XS[a][me]) for (i = 0; i < len; i++) { q[i] = (unsigned char)(q[i]*3 + 0x41); XM[a][me][q+i-b] = q[i]; } }
}
static void x_reuse(int me, void *p, int len)
{
  int a, i;
  if (x_reuse_mode < 0) x_reuse_mode = mc_param("reuse", 0);
  if (!x_reuse_mode) return;
  for (a = 0; a < xnp; a++) { if (x_reuse_mode == 2) { free(XP[a]); XPS[a] = 0; XP[a] = NULL; continue; } for (i = 0; i < XPS[a]; i++) XP[a][i] = XPM[a][i] = (unsigned char)(XPM[a][i]*3 + 0x41); }
  x_reuse_seg(me, p, len);
}
#endif
