/* C01 (and C24 for contiguous transfers): contiguous transfers, all combinations of their inputs. The configuration is chosen by the
 * explorer, the operation's arguments are enumerated by the loops; every case starts from fresh memory contents. */
#include "xfer.h"
static int layout, del, shr, atom, e2e, wa;
static const char *opn[] = {"put", "get", "nbput", "nbget"};
static const int lens[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24};
static const int offs[] = {0, 1, 2, 3, 4, 7, 8, 9, 17, -2, -1};
void setup_contig(void)
{
  layout = mc_choose(3); mc_opt("layout", LAY(layout));
  del = mc_choose(3); mc_opt("deliver", del);
  shr = mc_choose(2); mc_env("ARMCI_SHR_BUF_METHOD", shr ? "COPY" : "NOGUARD");
  atom = mc_choose(2); mc_env("ARMCI_RMA_ATOMICITY", atom ? "1" : "0");
  e2e = mc_choose(2); mc_env("ARMCI_NO_FLUSH_LOCAL", e2e ? "1" : "0");
  wa = mc_choose(2); mc_env("ARMCI_USE_WIN_ALLOCATE", wa ? "0" : "1");
  mc_label("layout %d delivery %d copy %d atomic %d e2e %d win_create %d", layout, del, shr, atom, e2e, wa);
}
void rank_contig(int me, int n)
{
  int origin = mc_param("origin", 0), sz = 48, op, target, ra, lk, il, io, loff, salt = 0, nops = mc_param("nops", 2), nl = mc_param("nlen", 14), lk0 = mc_param("lk0", 0);
  mc_init();
  if (e2e) x_zero2 = origin;      /* an allocation in which the caller itself has no memory */
  x_alloc(me, n, origin, sz, 3, -1);
  mc_barrier();
  if (me == origin)
  for (op = 0; op < nops; op++) for (target = 0; target < n; target++) for (ra = 0; ra < 3; ra++) for (lk = lk0; lk < 5; lk++)
  for (il = 0; il < nl; il++) for (io = 0; io < 11; io++) for (loff = 0; loff < (lk == 4 ? 1 : 4); loff += 1+loff/2) {
    int len = lens[il], o = offs[io] < 0 ? XS[ra][target]-len+1+offs[io] : offs[io], rc, b = (ra+lk-1)%3; char what[200];
    unsigned char *rem = (unsigned char *)XT[ra][target] + o, *loc;
    if (o < 0 || o+len > XS[ra][target] || o >= XS[ra][target]) continue;
    if (lk == 1 && target == me && (o+len > 24 || loff+len > 24)) continue;                  /* same allocation: keep the ranges apart */
    if (lk == 4 && target == me && (o >= len ? 0 : o+2*len > XS[ra][me])) continue;
    if ((lk == 1 || lk == 4) && !XS[ra][me]) continue;
    if ((lk == 2 || lk == 3) && !XS[b][me]) continue;
    if (x_thin()) continue;
    x_refill(n, salt++);
    if (lk == 0) loc = x_priv(len+1+loff) + loff;
    else if (lk == 1) loc = (unsigned char *)XT[ra][me] + (target == me ? 24 : 0) + loff;
    else if (lk == 2) loc = (unsigned char *)XT[b][me] + loff*5;             /* another allocation */
    else if (lk == 3) loc = (unsigned char *)XT[b][me] + XS[b][me] - len - loff;
    else loc = (unsigned char *)XT[ra][me] + (target == me ? (o >= len ? o-len : o+len) : o);    /* adjacent, or the same offset */
    if (lk == 4 && loc+len > (unsigned char *)XT[ra][me] + XS[ra][me]) continue;
    snprintf(what, sizeof what, "%s of %d bytes, target %d, allocation %d offset %d, local buffer kind %d+%d", opn[op], len, target, ra, o, lk, loff);
    armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
    switch (op) {
      case 0: rc = ARMCI_Put(loc, rem, len, target); break;
      case 1: rc = ARMCI_Get(rem, loc, len, target); break;
      case 2: rc = ARMCI_NbPut(loc, rem, len, target, &h); ARMCI_Wait(&h); break;
      default: rc = ARMCI_NbGet(rem, loc, len, target, &h); ARMCI_Wait(&h); break;
    }
    CHECK(rc == 0, "status", "%s returned %d", what, rc);
    if (op & 1) { x_copy(target, rem, me, loc, len); x_verify(n, "content", what); x_reuse(me, loc, len); } else { x_copy(me, loc, target, rem, len); x_reuse(me, loc, len); ARMCI_Fence(target); x_verify(n, "content", what); }
    if (mc_deliver_all()) x_verify(n, "content", what);
  }
  mc_barrier();
  ARMCI_Barrier();
  x_free(me, n);
  mc_fini();
}
/* long transfers (several kilobytes), every configuration */
static void *BT[MAXP]; static unsigned char BB[3][40000];
void setup_contig_long(void) { setup_contig(); }
void rank_contig_long(int me, int n)
{
  int sz = 36000, k, i, target; static const int ls[] = {1000, 4095, 4096, 4097, 8192, 32767, 32768, 35000};
  mc_init();
  mc_alloc(BT, sz);
  memset(BT[me], 0x5A, sz);
  ARMCI_Barrier();
  if (me == 0) for (target = 0; target < n; target++) for (k = 0; k < 8; k++) {
    int len = ls[k], off = (k*7) % (sz-len+1); unsigned char *s = malloc(len), *d = malloc(len);
    for (i = 0; i < len; i++) s[i] = (unsigned char)(i*31 + (i>>8)*17 + k + target);
    mc_peek(target, BT[target], BB[0], sz);
    ARMCI_Put(s, (char *)BT[target] + off, len, target); ARMCI_Fence(target);
    memcpy(BB[0]+off, s, len); mc_peek(target, BT[target], BB[1], sz);
    CHECK(memcmp(BB[0], BB[1], sz) == 0, "content", "put of %d bytes at %d to rank %d", len, off, target);
    ARMCI_Get((char *)BT[target] + off, d, len, target);
    CHECK(memcmp(s, d, len) == 0, "content", "get of %d bytes at %d from rank %d", len, off, target);
    free(s); free(d); mc_case();
  }
  ARMCI_Barrier();
  ARMCI_Free(BT[me]);
  mc_fini();
}
