/* C15: the conflict tree against a set of intervals, all insertion sequences, plus the detection in vector operations. */
#include "common.h"
#include "conflict_tree.h"
int ARMCII_Iov_check_overlap(void **ptrs, int count, int size);
int ARMCII_Iov_check_same_allocation(void **ptrs, int count, int proc);
static int nstored; static int slo[64], shi[64];
#define B ((uint8_t *)0x1000)
static int validate(ctree_t t, ctree_t parent, int *n, long *last)
{
  int l, r;
  if (!t) return 0;
  CHECK(t->parent == parent, "structure", "wrong parent pointer");
  CHECK(*n < 64, "structure", "cycle");
  l = validate(t->left, t, n, last);
  CHECK(t->lo - B > *last, "structure", "ranges out of order"); 
  CHECK(*n < nstored, "structure", "the tree holds more ranges than were stored");
  CHECK(t->lo - B == slo[*n] && t->hi - B == shi[*n], "structure", "entry %d of the tree is [%ld,%ld], expected [%d,%d]", *n, (long)(t->lo-B), (long)(t->hi-B), slo[*n], shi[*n]);
  *last = t->hi - B; ++*n;
  r = validate(t->right, t, n, last);
  CHECK(abs(l-r) <= 1, "balance", "heights %d and %d at [%ld,%ld] (%d stored)", l, r, (long)(t->lo-B), (long)(t->hi-B), nstored);
  CHECK(t->height == (l > r ? l : r)+1, "balance", "recorded height %d, real %d", t->height, (l > r ? l : r)+1);
  return t->height;
}
static void check(ctree_t t, int U)
{
  int n = 0, a, b, i; long last = -1;
  validate(t, NULL, &n, &last);
  CHECK(n == nstored, "structure", "the tree holds %d ranges, expected %d", n, nstored);
  if (U) for (a = 0; a < U; a++) for (b = a; b < U; b++) {
    int hit = 0; for (i = 0; i < nstored; i++) if (slo[i] <= b && shi[i] >= a) hit = 1;
    ctree_t f = ctree_locate(t, B+a, B+b);
    CHECK((f != NULL) == hit, "locate", "lookup of [%d,%d] %s", a, b, f ? "found a range although none intersects" : "found nothing although a stored range intersects");
    if (f) CHECK(f->lo <= B+b && f->hi >= B+a, "locate", "lookup of [%d,%d] returned [%ld,%ld]", a, b, (long)(f->lo-B), (long)(f->hi-B));
  }
}
static void add(ctree_t *t, int lo, int hi)
{
  int i, hit = 0, rc;
  for (i = 0; i < nstored; i++) if (slo[i] <= hi && shi[i] >= lo) hit = 1;
  rc = ctree_insert(t, B+lo, B+hi);
  CHECK(!!rc == hit, "conflict", "insertion of [%d,%d] into %d ranges %s", lo, hi, nstored, rc ? "reported a conflict although none intersects" : "reported no conflict");
  if (hit) return;
  for (i = nstored; i > 0 && slo[i-1] > lo; i--) { slo[i] = slo[i-1]; shi[i] = shi[i-1]; }
  slo[i] = lo; shi[i] = hi; nstored++;
}
/* every sequence of depth d of intervals in [0,U) */
static int SU, SD, SL[16], SH[16], first, seqn; static int64_t seqcount;
static void run(int d)
{
  ctree_t t = CTREE_EMPTY; int i;
  mc_case(); nstored = 0;
  for (i = 0; i < d; i++) { add(&t, SL[i], SH[i]); if (i == d-1) check(t, SU+1); }
  ctree_destroy(&t); CHECK(t == NULL, "destroy", "root is not empty after destruction");
}
static void seqs(int d)
{
  int a, b;
  if (d == SD) return;
  for (a = 0; a < SU; a++) for (b = a; b < SU; b++) {
    if (d == 0 && first >= 0 && a != first) continue;
    SL[d] = a; SH[d] = b; run(d+1); seqs(d+1);
  }
}
void setup_ctree_seq(void) { if (mc_param("U", 5) > 1) first = mc_choose(mc_param("U", 5)); mc_label("first interval starts at %d", first); }
void rank_ctree_seq(int me, int n)
{
  mc_init(); SU = mc_param("U", 5); SD = mc_param("depth", 4); seqs(0); mc_fini();
}
/* every insertion order of N disjoint ranges (balance), plus random-free boundary queries */
static int PN, perm[16], used[16];
static void perms(int d, int first2)
{
  int i;
  if (d == PN) {
    ctree_t t = CTREE_EMPTY; mc_case(); nstored = 0;
    for (i = 0; i < PN; i++) { add(&t, perm[i]*4, perm[i]*4+1+(perm[i]&1)); check(t, i == PN-1 ? PN*4 : 0); }
    add(&t, 0, PN*4); add(&t, perm[0]*4+1, perm[0]*4+3); add(&t, 1, 1); check(t, 0);   /* conflicting insertions change nothing */
    ctree_destroy(&t); return;
  }
  for (i = 0; i < PN; i++) if (!used[i] && (d || i == first2)) { used[i] = 1; perm[d] = i; perms(d+1, first2); used[i] = 0; }
}
void setup_ctree_perm(void) { first = mc_choose(mc_param("N", 7)); mc_label("first inserted %d", first); }
void rank_ctree_perm(int me, int n) { mc_init(); PN = mc_param("N", 7); perms(0, first); mc_fini(); }
/* large structured orders: ascending, descending, zigzag, blocks, interleaved; up to 40 ranges */
void rank_ctree_big(int me, int n)
{
  int k, N, i; mc_init();
  for (k = 0; k < 8; k++) for (N = 1; N <= 40; N++) {
    ctree_t t = CTREE_EMPTY; mc_case(); nstored = 0;
    for (i = 0; i < N; i++) {
      int p = k == 0 ? i : k == 1 ? N-1-i : k == 2 ? (i & 1 ? N-1-i/2 : i/2) : k == 3 ? (i*7) % 41 : k == 4 ? (i & 1 ? N/2+i/2+1 : N/2-i/2) : k == 5 ? (i*17) % 43 : k == 6 ? (i % 5)*8 + i/5 : (i*11) % 47;
      add(&t, p*3+2, p*3+2+(p&1)); check(t, 0);
    }
    check(t, 64); ctree_destroy(&t);
  }
  mc_fini();
}
/* the vector operations' own decisions */
void setup_ctree_iov(void) { mc_env("ARMCI_IOV_CHECKS", mc_choose(2) ? "1" : "0"); }
void rank_ctree_iov(int me, int n)
{
  static unsigned char buf[64]; void *p[4], *tab[MAXP], *tab2[MAXP]; int c, i, j, sz, k, on = !strcmp(getenv("ARMCI_IOV_CHECKS"), "1"); unsigned long N;
  mc_init();
  for (c = 0; c <= 4; c++) for (sz = 1; sz <= 4; sz++) {
    for (N = 1, i = 0; i < c; i++) N *= 7;
    for (unsigned long q = 0; q < N; q++) {
      unsigned long x = q; int ov = 0, d; mc_case();
      for (i = 0; i < c; i++) { p[i] = buf + x % 7 * 2; x /= 7; }
      for (i = 0; i < c; i++) for (j = 0; j < i; j++) { d = abs((int)((char *)p[i] - (char *)p[j])); if (d < sz) ov = 1; }
      k = ARMCII_Iov_check_overlap(p, c, sz);
      CHECK(!!k == (on && ov), "overlap", "%d segments of %d bytes: overlap reported as %d, expected %d", c, sz, k, on && ov);
    }
  }
  mc_alloc(tab, 8 + 4*me); mc_alloc(tab2, 8);
  for (k = 0; k < n; k++) for (c = 1; c <= 3; c++) for (N = 1, i = 0; i < c; i++) {
    N *= 6; if (i < c-1) continue;
    for (unsigned long q = 0; q < N; q++) {
      unsigned long x = q; int same = 1, al[3], r; mc_case();
      for (j = 0; j < c; j++) { int y = x % 6; x /= 6; al[j] = y < 3 ? 0 : y < 5 ? 1 : 2;
        p[j] = y < 3 ? (char *)tab[k] + (y == 0 ? 0 : y == 1 ? 3 : 8+4*k-1) : y < 5 ? (char *)tab2[k] + (y == 4 ? 7 : 0) : (char *)buf; }
      for (j = 1; j < c; j++) if (al[j] != al[0]) same = 0;
      r = ARMCII_Iov_check_same_allocation(p, c, k);
      CHECK(!!r == (!on || same), "same-allocation", "rank %d, %d segments in allocations %d %d %d: same allocation reported as %d", k, c, al[0], c > 1 ? al[1] : -1, c > 2 ? al[2] : -1, r);
    }
  }
  ARMCI_Barrier(); ARMCI_Free(tab2[me]); ARMCI_Free(tab[me]);
  mc_fini();
}
