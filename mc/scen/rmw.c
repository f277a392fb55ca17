/* C06: concurrent read-modify-write programs. Every process runs a short program of fetch-and-add and swap operations on two locations
 * and then reads a location back; the oracle searches for a sequential order that explains every returned value, every read and the final
 * contents. Order edges: program order of the read-modify-write operations, and from a swap that has returned to everything invoked later. */
#include "cfg.h"
#define OP(r,i) ((r)*4+(i))
#define RET(o) (o)
#define MASK(o) (32+(o))
#define DONE 64
#define CFG(i) (70+(i))
enum { C_LONG, C_PROG, C_LK, C_TGT, C_READ };
static const int addv[] = {1, -3, 0x7ffffff0, -0x7fffffff, 5, 0, -1, 1000000007};
static const long swapl[] = {0x123456789abcdef0L, -5, 0x7fffffffffffffffL, -0x7ffffffffffffff0L, 0, 0x100000000L, -1, 77};
static const int swapi[] = {0x12345678, -5, 0x7fffffff, -0x7ffffff0, 0, 0x10000, -1, 77};
static const long initl[] = {0x7fffffff00000001L, -9}; static const int initi[] = {0x7ffffff1, -9};
static void *tab[MAXP];
void setup_rmw(void)
{
  int n = mc_size(), k = mc_param("k", 2), t, ur, prog;
  mc_opt("layout", CH("layout", 2)*2);
  ur = CH("ur", 4);                                       /* 0 default, 1 requests off, 2 requests + flush, 3 requests off + end-to-end */
  if (ur == 1 || ur == 3) mc_env("ARMCI_USE_REQUEST_ATOMICS", "0");
  if (ur == 2) { mc_env("ARMCI_USE_REQUEST_ATOMICS", "1"); mc_env("ARMCI_FLUSH_REQUEST_ATOMICS", "1"); }
  if (ur == 3) mc_env("ARMCI_NO_FLUSH_LOCAL", "1");
  t = CH("long", 2); mc_set(CFG(C_LONG), t);
  int lk = CH("lk", 2); mc_set(CFG(C_LK), lk);
  if (lk) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  int tgt = CH("tgt", 2); mc_set(CFG(C_TGT), tgt);        /* owner of the location: rank 0 or the last */
  int rd = CH("read", 2); mc_set(CFG(C_READ), rd);
  prog = CH("prog", 1 << (n*k)); mc_set(CFG(C_PROG), prog);
  mc_label("rmw mode %d %s ploc %s owner %d read %d program %x", ur, t ? "long" : "int", lk ? "global" : "private", tgt ? n-1 : 0, rd, prog);
}
static int nop, isl;
static long apply(int o, int swap, long v)
{
  if (isl) return swap ? swapl[o & 7] : (long)((unsigned long)v + (long)addv[o & 7]);
  return swap ? swapi[o & 7] : (long)(int)((unsigned)(int)v + (unsigned)addv[o & 7]);
}
static struct { int id, rank, idx, swap, read; long ret, mask; } o_[16];
static int solve(int used, long v, long fin)
{
  int i, j, all = 1;
  for (i = 0; i < nop; i++) if (!(used >> i & 1)) {
    int ok = 1; all = 0;
    for (j = 0; j < nop && ok; j++) if (!(used >> j & 1) && j != i) {
      if (!o_[i].read && !o_[j].read && o_[j].rank == o_[i].rank && o_[j].idx < o_[i].idx) ok = 0;
      if (o_[j].swap && !o_[j].read && (o_[i].mask >> o_[j].id & 1)) ok = 0;
    }
    if (!ok || o_[i].ret != v) continue;
    if (solve(used | 1 << i, o_[i].read ? v : apply(o_[i].id, o_[i].swap, v), fin)) return 1;
  }
  return all && v == fin;
}
void rank_rmw(int me, int n)
{
  int k = mc_param("k", 2), i, r, owner, prog = (int)mc_get(CFG(C_PROG)), lk = (int)mc_get(CFG(C_LK)), rd = (int)mc_get(CFG(C_READ)); unsigned char *loc, priv[64], *pl; char msg[400] = "";
  isl = (int)mc_get(CFG(C_LONG)); owner = mc_get(CFG(C_TGT)) ? n-1 : 0;
  mc_init();
  mc_alloc(tab, 64 + 8*me);
  mc_fill(tab[me], 64 + 8*me, me, 0);
  if (me == owner) { if (isl) memcpy((char *)tab[me]+8, &initl[0], 8); else memcpy((char *)tab[me]+8, &initi[0], 4); }
  for (i = 0; i < 64; i++) priv[i] = mc_pat(me, 3, i);
  loc = (unsigned char *)tab[owner] + 8; pl = lk ? (unsigned char *)tab[me] + 32 : priv + 16;
  ARMCI_Barrier();
  mc_begin();
  for (i = 0; i < k; i++) {
    int o = OP(me, i), sw = prog >> (me*k+i) & 1;
    if (sw) { if (isl) memcpy(pl, &swapl[o & 7], 8); else memcpy(pl, &swapi[o & 7], 4); }
    mc_set(MASK(o), mc_get(DONE));
    int rc = ARMCI_Rmw(isl ? (sw ? ARMCI_SWAP_LONG : ARMCI_FETCH_AND_ADD_LONG) : (sw ? ARMCI_SWAP : ARMCI_FETCH_AND_ADD), pl, loc, sw ? 0 : addv[o & 7], owner);
    CHECK(rc == 0, "status", "ARMCI_Rmw returned %d", rc);
    if (sw) mc_set(DONE, mc_get(DONE) | 1L << o);
    if (isl) { long v; memcpy(&v, pl, 8); mc_set(RET(o), v); } else { int v; memcpy(&v, pl, 4); mc_set(RET(o), v); }
  }
  if (rd) {
    int o = OP(me, 3); mc_set(MASK(o), mc_get(DONE));
    if (rd == 1 && me == owner) { mc_yield(); mc_set(MASK(o), mc_get(DONE)); mc_set(RET(o), isl ? *(volatile long *)loc : (long)*(volatile int *)loc); }
    else { long v = 0; int w = 0; ARMCI_Get(loc, isl ? (void *)&v : (void *)&w, isl ? 8 : 4, owner); mc_set(RET(o), isl ? v : w); }
  }
  mc_end();
  ARMCI_Barrier();
  if (me == owner) {
    long fin = isl ? *(long *)loc : (long)*(int *)loc; nop = 0;
    for (r = 0; r < n; r++) for (i = 0; i < k + (rd ? 1 : 0); i++) {
      int o = OP(r, i < k ? i : 3);
      o_[nop].id = o; o_[nop].rank = r; o_[nop].idx = i; o_[nop].read = i == k; o_[nop].swap = i < k && (prog >> (r*k+i) & 1); o_[nop].ret = mc_get(RET(o)); o_[nop].mask = mc_get(MASK(o));
      snprintf(msg+strlen(msg), sizeof msg-strlen(msg), " rank %d %s%s->%ld;", r, i == k ? "read" : o_[nop].swap ? "swap " : "add ", i == k ? "" : o_[nop].swap ? "" : "", o_[nop].ret); nop++;
    }
    CHECK(solve(0, isl ? initl[0] : (long)initi[0], fin), "linearizable", "no sequential order explains the results:%s final %ld", msg, fin);
  }
  /* neighbours */
  for (i = 0; i < 64 + 8*me; i++) {
    if (me == owner && i >= 8 && i < (isl ? 16 : 12)) continue;
    if (lk && i >= 32 && i < (isl ? 40 : 36)) continue;
    CHECK(((unsigned char *)tab[me])[i] == mc_pat(me, 0, i), "neighbour", "byte %d of rank %d changed", i, me);
  }
  for (i = 0; i < 64; i++) if (lk || i < 16 || i >= (isl ? 24 : 20)) CHECK(priv[i] == mc_pat(me, 3, i), "neighbour", "byte %d of the private buffer of rank %d changed", i, me);
  ARMCI_Free(tab[me]);
  mc_fini();
  mc_leakcheck("rmw");
}
/* test-and-set lock built from swap; the protected counter must not lose an update */
void rank_spin(int me, int n)
{
  int i, rounds = mc_param("rounds", 1), got = 0, tries = mc_param("tries", 2), v; volatile int *cnt;
  mc_init();
  mc_alloc(tab, 64); memset(tab[me], 0, 64); cnt = (int *)tab[n-1] + 4; (void)cnt;
  ARMCI_Barrier();
  mc_begin();
  for (i = 0; i < tries && got < rounds; i++) {
    v = 1; ARMCI_Rmw(ARMCI_SWAP, &v, (int *)tab[n-1] + 1, 0, n-1);
    if (v) continue;
    CHECK(mc_get(0) == 0, "exclusion", "rank %d took the swap lock while rank %d holds it", me, (int)mc_get(0)-1);
    mc_set(0, me+1); got++;
    ARMCI_Get((int *)tab[n-1] + 4, &v, 4, n-1); CHECK(v == mc_get(1), "visibility", "rank %d read %d under the swap lock, %d expected", me, v, (int)mc_get(1));
    v++; mc_set(1, v); ARMCI_Put(&v, (int *)tab[n-1] + 4, 4, n-1); ARMCI_Fence(n-1);
    mc_set(0, 0);
    v = 0; ARMCI_Rmw(ARMCI_SWAP, &v, (int *)tab[n-1] + 1, 0, n-1);
    CHECK(v == 1, "exclusion", "rank %d released the swap lock and found %d", me, v);
  }
  mc_end();
  ARMCI_Barrier();
  if (me == n-1) CHECK(*cnt == mc_get(1), "visibility", "the counter is %d, %d expected", *cnt, (int)mc_get(1));
  ARMCI_Free(tab[me]);
  mc_fini();
}
