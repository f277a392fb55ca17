/* C21: transfers whose remote range leaves the live allocations of the addressed process are refused before anything changes. */
#include "xfer.h"
#include "cfg.h"

void setup_oor(void)
{
  cfg_base();
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  mc_label("strided %s iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d", cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa);
}
enum { PUT, GET, ACC, NBPUT, NBGET, NBACC, PUTS, GETS, ACCS, NBPUTS, NBGETS, NBACCS, PUTV, GETV, ACCV, NBPUTV, NBGETV, NBACCV, FAI, FAL, SWI, SWL, PVI, PVD, GVL, GVF, NOPS };
static const char *opn[] = {"Put", "Get", "Acc", "NbPut", "NbGet", "NbAcc", "PutS", "GetS", "AccS", "NbPutS", "NbGetS", "NbAccS", "PutV", "GetV", "AccV", "NbPutV", "NbGetV", "NbAccV",
  "Rmw(add int)", "Rmw(add long)", "Rmw(swap int)", "Rmw(swap long)", "PutValueInt", "PutValueDouble", "GetValueLong", "GetValueFloat"};
static struct { int op, target, bytes, lv, st[3], cnt[4], nseg, hdl; unsigned char *rem, *seg[8], *loc; int off; } A;
static void call(void *x)
{
  int one = 1, ls[3] = {A.cnt[0], A.cnt[0]*A.cnt[1], 0}, i; long lone = 1; armci_hdl_t h, *hp = A.hdl ? &h : NULL; armci_giov_t iov; void *s[8], *d[8]; (void)lone;
  ARMCI_INIT_HANDLE(&h);
  for (i = 0; i < A.nseg; i++) { s[i] = A.loc + i*32; d[i] = A.seg[i]; }
  iov.bytes = A.bytes; iov.ptr_array_len = A.nseg; iov.src_ptr_array = s; iov.dst_ptr_array = d;
  if (A.op == GETV || A.op == NBGETV) { iov.src_ptr_array = d; iov.dst_ptr_array = s; }
  switch (A.op) {
    case PUT: ARMCI_Put(A.loc, A.rem, A.bytes, A.target); break;
    case GET: ARMCI_Get(A.rem, A.loc, A.bytes, A.target); break;
    case ACC: ARMCI_Acc(ARMCI_ACC_INT, &one, A.loc, A.rem, A.bytes, A.target); break;
    case NBPUT: ARMCI_NbPut(A.loc, A.rem, A.bytes, A.target, hp); break;
    case NBGET: ARMCI_NbGet(A.rem, A.loc, A.bytes, A.target, hp); break;
    case NBACC: ARMCI_NbAcc(ARMCI_ACC_INT, &one, A.loc, A.rem, A.bytes, A.target, hp); break;
    case PUTS: ARMCI_PutS(A.loc, ls, A.rem, A.st, A.cnt, A.lv, A.target); break;
    case GETS: ARMCI_GetS(A.rem, A.st, A.loc, ls, A.cnt, A.lv, A.target); break;
    case ACCS: ARMCI_AccS(ARMCI_ACC_INT, &one, A.loc, ls, A.rem, A.st, A.cnt, A.lv, A.target); break;
    case NBPUTS: ARMCI_NbPutS(A.loc, ls, A.rem, A.st, A.cnt, A.lv, A.target, hp); break;
    case NBGETS: ARMCI_NbGetS(A.rem, A.st, A.loc, ls, A.cnt, A.lv, A.target, hp); break;
    case NBACCS: ARMCI_NbAccS(ARMCI_ACC_INT, &one, A.loc, ls, A.rem, A.st, A.cnt, A.lv, A.target, hp); break;
    case PUTV: ARMCI_PutV(&iov, 1, A.target); break;
    case GETV: ARMCI_GetV(&iov, 1, A.target); break;
    case ACCV: ARMCI_AccV(ARMCI_ACC_INT, &one, &iov, 1, A.target); break;
    case NBPUTV: ARMCI_NbPutV(&iov, 1, A.target, hp); break;
    case NBGETV: ARMCI_NbGetV(&iov, 1, A.target, hp); break;
    case NBACCV: ARMCI_NbAccV(ARMCI_ACC_INT, &one, &iov, 1, A.target, hp); break;
    case FAI: ARMCI_Rmw(ARMCI_FETCH_AND_ADD, A.loc, A.rem, 3, A.target); break;
    case FAL: ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, A.loc, A.rem, 3, A.target); break;
    case SWI: ARMCI_Rmw(ARMCI_SWAP, A.loc, A.rem, 3, A.target); break;
    case SWL: ARMCI_Rmw(ARMCI_SWAP_LONG, A.loc, A.rem, 3, A.target); break;
    case PVI: ARMCI_PutValueInt(0x1234567, A.rem, A.target); break;
    case PVD: ARMCI_PutValueDouble(1.2345, A.rem, A.target); break;
    case GVL: ARMCI_GetValueLong(A.rem, A.target); break;
    default: ARMCI_GetValueFloat(A.rem, A.target); break;
  }
  if (A.hdl) ARMCI_Wait(&h); else ARMCI_WaitAll();
}
/* inside: 1 legal, 0 must be refused; for vectors bytes of the legal segments may have been transferred */
static void attempt(int n, int inside, const char *what)
{
  static unsigned char m0[XNA][MAXP][XMAX]; static unsigned char L[XPMAX]; int a, r, i, me = mc_rank(), isv = A.op >= PUTS && A.op <= NBACCV;
  unsigned char b[XMAX]; static int salt; static unsigned char seen; (void)seen;
  if (x_thin()) return;
  x_refill(n, salt++);
  if (A.op == ACC || A.op == ACCS || A.op == ACCV) ;
  A.loc = x_priv(256);
  memcpy(m0, XM, sizeof m0); memcpy(L, XPM[0], 256);
  if (mc_tracing()) fprintf(stderr, "case: %s (%s)\n", what, inside ? "legal" : "illegal");
  int ab = mc_try(call, NULL);
  if (inside) { CHECK(!ab, "rejected", "%s was refused although its range lies inside a live allocation", what); mc_deliver_all(); ARMCI_AllFence(); return; }
  CHECK(ab, "accepted", "%s was not refused", what);
  mc_deliver_all();
  for (a = 0; a < xna; a++) for (r = 0; r < n; r++) {
    if (!XS[a][r]) continue;
    mc_peek(r, XT[a][r], b, XS[a][r]);
    for (i = 0; i < XS[a][r]; i++) {
      int ok = b[i] == m0[a][r][i], k;
      if (!ok && isv && r == A.target) for (k = 0; k < A.nseg; k++) { unsigned char *p = (unsigned char *)XT[a][r] + i; if (p >= A.seg[k] && p < A.seg[k]+A.bytes) { int b2; for (b2 = 0; b2 < xna; b2++) if (A.seg[k] >= (unsigned char *)XT[b2][r] && A.seg[k]+A.bytes <= (unsigned char *)XT[b2][r]+XS[b2][r]) ok = 1; } }
      CHECK(ok, "changed", "%s was refused after byte %d of allocation %d on rank %d had changed", what, i, a, r);
    }
  }
  if (!isv) for (i = 0; i < 256; i++) CHECK(A.loc[i] == L[i], "changed-local", "%s was refused after byte %d of the local buffer had changed", what, i);
  (void)me;
}
static int within(int target, unsigned char *p, long len)
{
  int a; for (a = 0; a < xna; a++) { unsigned char *b = XT[a][target]; if (XS[a][target] && p >= b && p+len <= b+XS[a][target]) return a+1; }
  return 0;
}
static void *dead[MAXP], *sub[MAXP]; static ARMCI_Group g1;
void rank_oor(int me, int n)
{
  int origin = mc_param("origin", 0), sz = 64, ra, io, il, k, i, gl[MAXP]; char what[200];
  static const int offs[] = {0, 4, -4, -8, -16, 1000, 1001, 1004, 1008, 1016, 1024, 2000, 2001}; static const int lens[] = {4, 8, 24};
  mc_init();
  mc_alloc(dead, 96);
  x_odd = 4;
  x_alloc(me, n, origin, sz, 3, -1);
  for (i = 0; i < n-1; i++) gl[i] = i;                    /* an allocation without the last process */
  memset(sub, 0, sizeof sub);
  mc_group(n-1, gl, &g1);
  if (me < n-1) ARMCI_Malloc_group(sub, 40, &g1);
  ARMCI_Barrier();
  ARMCI_Free(dead[me]);
  ARMCI_Barrier();
  mc_barrier();
  if (me == origin) for (A.op = 0; A.op < NOPS; A.op++) for (A.target = 0; A.target < n; A.target++) for (ra = -2; ra < 3; ra++) for (io = 0; io < 13; io++) for (il = 0; il < 3; il++) for (k = 0; k < 6; k++) {
    int S = ra == -1 ? 96 : ra == -2 ? 40 : XS[ra][A.target], isS = A.op >= PUTS && A.op <= NBACCS, isV = A.op >= PUTV && A.op <= NBACCV, ins, j;
    unsigned char *base = ra == -1 ? dead[A.target] : ra == -2 ? (A.target == n-1 ? sub[0] : NULL) : XT[ra][A.target];
    if (!base) continue;
    A.off = offs[io] >= 2000 ? S + offs[io] - 2000 : offs[io] >= 1000 ? S - (offs[io]-1000) : offs[io];      /* 10xx: counted from the end */
    A.rem = base + A.off; A.bytes = lens[il]; A.hdl = (io+il) & 1; A.nseg = 0;
    if (A.op >= FAI) { if (il || k) continue; A.bytes = A.op == FAL || A.op == SWL || A.op == PVD || A.op == GVL ? 8 : 4; }
    else if (!isS && !isV && k) continue;
    if (A.op >= FAI && A.op <= SWL && ((uintptr_t)A.rem & (A.bytes-1))) continue;
    if (isS) {
      long last = 0; A.cnt[0] = A.bytes; A.lv = k < 3 ? 1 : 2; A.cnt[1] = 2 + k % 3; A.cnt[2] = k & 1 ? 2 : 1; A.st[0] = A.bytes + 4*(k & 1); A.st[1] = A.st[0]*A.cnt[1] + (k == 4 ? 4 : 0);
      for (j = 0; j < A.lv; j++) last += (long)A.st[j]*(A.cnt[j+1]-1);
      if (A.cnt[0]*A.cnt[1]*A.cnt[2] > 250) continue;
      ins = within(A.target, A.rem, last + A.bytes);
      if (!ins) { /* every piece legal although the whole is not: only with checking, pieces in different allocations */
        int all = 1, p, q; for (p = 0; p < A.cnt[1]; p++) for (q = 0; q < (A.lv == 2 ? A.cnt[2] : 1); q++) if (!within(A.target, A.rem + p*A.st[0] + q*A.st[1], A.bytes)) all = 0;
        if (all) continue;
      }
      A.nseg = 0; for (j = 0; j < A.cnt[1]*(A.lv == 2 ? A.cnt[2] : 1) && j < 8; j++) A.seg[A.nseg++] = A.rem + j % A.cnt[1]*A.st[0] + j/A.cnt[1]*A.st[1];
      snprintf(what, sizeof what, "%s of %d x %d x %d at offset %d of allocation %d (size %d) of rank %d, strides %d %d", opn[A.op], A.cnt[0], A.cnt[1], A.lv == 2 ? A.cnt[2] : 1, A.off, ra, S, A.target, A.st[0], A.st[1]);
    } else if (isV) {
      /* one segment at the offset under test, the others legal: first, last, middle, alone */
      int at = k == 0 ? 0 : k == 1 ? 0 : k == 2 ? 1 : k == 3 ? 2 : k == 4 ? 1 : 0; A.nseg = k == 0 ? 1 : k < 3 ? 2 : 3;
      int other = ra < 0 ? 0 : ra; unsigned char *ob = XT[other][A.target];
      if (XS[other][A.target] < 3*24) A.bytes = A.bytes > 16 ? 16 : A.bytes;
      for (j = 0; j < A.nseg; j++) A.seg[j] = j == at ? A.rem : ob + (k == 5 ? 2-j : j)*A.bytes;
      ins = within(A.target, A.rem, A.bytes);
      if (ins && !cfg_checks && A.nseg > 1 && ins != within(A.target, ob, 1)) continue;             /* several allocations need checking */
      if (ins) for (j = 0; j < A.nseg; j++) if (j != at && A.seg[j] < A.rem + A.bytes && A.rem < A.seg[j] + A.bytes) break;
      if (ins && j < A.nseg) continue;
      snprintf(what, sizeof what, "%s of %d segments of %d bytes, segment %d at offset %d of allocation %d (size %d) of rank %d", opn[A.op], A.nseg, A.bytes, at, A.off, ra, S, A.target);
    } else {
      ins = within(A.target, A.rem, A.bytes);
      snprintf(what, sizeof what, "%s of %d bytes at offset %d of allocation %d (size %d) of rank %d", opn[A.op], A.bytes, A.off, ra, S, A.target);
    }
    attempt(n, ins > 0, what);
  }
  mc_expect_abort(NULL);
  MPI_Abort(MPI_COMM_WORLD, 1);     /* abandoned calls leave temporaries behind: the execution ends here */
}
