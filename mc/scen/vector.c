/* C03 / C24: vector transfers against the segment-by-segment reference. */
#include "xfer.h"
#include "cfg.h"
void setup_vector(void) { cfg_iov(); }
static const char *opn[] = {"PutV", "GetV", "NbPutV", "NbGetV", "NbPutV(implicit)", "NbGetV(implicit)"};
typedef struct { int nseg, bytes, rord, lord, ra, lk; } D;
static const int perm[5] = {2, 0, 4, 1, 3};
#define NV 3
static void *SP[NV][8], *DP[NV][8];
static int pos(int ord, int i, int nseg, int b)     /* byte position of segment i */
{
  switch (ord) {
    case 0: return i*b;
    case 1: return i*(b+3) - i%2;
    case 2: return (nseg-1-i)*(b+1);
    case 3: return nseg == 5 ? perm[i]*(b+2) : nseg == 3 ? (i == 0 ? 1 : i == 1 ? 0 : 2)*(b+2) : (nseg-1-i)*(b+3);
    default: return (i/2)*(b+1);   /* pairs of equal positions: sources only */
  }
}
static void one(int n, int op, int target, D *d, int nd)
{
  static int salt; char what[400]; int v, i, l, rc = 0, me = mc_rank(); armci_giov_t iov[NV]; armci_hdl_t h; void *sv[NV][8], *dv[NV][8];
  if (x_thin()) return;
  x_refill(n, salt++);
  l = snprintf(what, sizeof what, "%s to/from rank %d:", opn[op], target);
  for (v = 0; v < nd; v++) {
    D *c = &d[v]; unsigned char *pr = c->lk == 0 || c->lk == 2 ? x_priv(120)+1 : NULL;
    for (i = 0; i < c->nseg; i++) {
      int ra = c->ra == 3 ? i & 1 : c->ra, lb = c->ra == 3 ? 2 : (ra+1)%3;
      unsigned char *rem = (unsigned char *)XT[ra][target] + v*70 + 2 + pos(c->rord, i, c->nseg, c->bytes);
      int glob = c->lk == 1 || (c->lk == 2 && i & 1);
      unsigned char *loc = (glob ? (unsigned char *)XT[lb][me] + v*70 + 3 + (lb == 0 || d[0].ra == 3 ? 0 : 220) : pr) + pos(c->lord, i, c->nseg, c->bytes);
      if (op & 1) { SP[v][i] = rem; DP[v][i] = loc; } else { SP[v][i] = loc; DP[v][i] = rem; }
    }
    iov[v].src_ptr_array = SP[v]; iov[v].dst_ptr_array = DP[v]; iov[v].bytes = c->bytes; iov[v].ptr_array_len = c->nseg;
    l += snprintf(what+l, sizeof what-l, " [%d segments of %d bytes, remote order %d in allocation %d, local order %d kind %d]", c->nseg, c->bytes, c->rord, c->ra, c->lord, c->lk);
  }
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  memcpy(sv, SP, sizeof SP); memcpy(dv, DP, sizeof DP);
  ARMCI_INIT_HANDLE(&h);
  switch (op) {
    case 0: rc = ARMCI_PutV(iov, nd, target); break;
    case 1: rc = ARMCI_GetV(iov, nd, target); break;
    case 2: rc = ARMCI_NbPutV(iov, nd, target, &h); ARMCI_Wait(&h); break;
    case 3: rc = ARMCI_NbGetV(iov, nd, target, &h); ARMCI_Wait(&h); break;
    case 4: rc = ARMCI_NbPutV(iov, nd, target, NULL); ARMCI_WaitAll(); break;
    default: rc = ARMCI_NbGetV(iov, nd, target, NULL); ARMCI_WaitProc(target); break;
  }
  CHECK(rc == 0, "status", "%s returned %d", what, rc);
  CHECK(!memcmp(sv, SP, sizeof SP) && !memcmp(dv, DP, sizeof DP), "args", "%s changed its descriptors", what);
  for (v = 0; v < nd; v++) for (i = 0; i < d[v].nseg; i++)
    if (op & 1) x_copy(target, SP[v][i], me, DP[v][i], d[v].bytes); else x_copy(me, SP[v][i], target, DP[v][i], d[v].bytes);
  if (op & 1) x_verify(n, "content", what);
  x_reuse(me, NULL, 0);
  for (v = 0; v < nd; v++) for (i = 0; i < d[v].nseg; i++) x_reuse_seg(me, op & 1 ? DP[v][i] : SP[v][i], d[v].bytes);
  if (!(op & 1)) ARMCI_Fence(target);
  x_verify(n, "content", what);
  if (mc_deliver_all()) x_verify(n, "content", what);
}
void rank_vector(int me, int n)
{
  static const int ns[] = {0, 1, 2, 3, 5}, bs[] = {0, 1, 3, 8}; int op, target, a, b, r, l, ra, lk, nops = mc_param("nops", 6), checks = cfg_checks;
  mc_init();
  x_alloc(me, n, 0, 520, 3, -1);
  mc_barrier();
  if (me == 0) for (op = 0; op < nops; op++) for (target = 0; target < 2 && target < n; target++) {
    for (a = 0; a < 5; a++) for (b = 0; b < 4; b++) for (r = 0; r < ((op & 1) ? 5 : 4); r++) for (l = 0; l < ((op & 1) ? 4 : 5); l++) for (ra = 0; ra < 3+checks; ra++) for (lk = mc_param("lk0", 0); lk < mc_param("lk1", 3); lk++) {
      D d = {ns[a], bs[b], r, l, ra, lk};
      if ((ns[a] == 0 || bs[b] == 0) && (r || l)) continue;
      one(n, op, target, &d, 1);
    }
    static const D pool[] = {{2,8,0,0,0,0}, {3,3,2,1,1,1}, {0,8,0,0,0,0}, {5,1,3,3,2,2}, {3,0,1,0,1,0}, {1,5,0,0,1,0}, {2,4,2,2,0,2}, {3,8,1,2,2,0}};
    for (a = 0; a < 8; a++) for (b = 0; b < 8; b++) {
      D d[3] = {pool[a], pool[b]}; one(n, op, target, d, 2);
      for (l = 0; l < 8; l++) { d[2] = pool[l]; one(n, op, target, d, 3); }
    }
    one(n, op, target, NULL, 0);
  }
  mc_barrier();
  ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
