/* C23: programs of transfers, accumulates and read-modify-writes by one process to overlapping elements of one process (itself or another),
 * with the settings for location consistency. Every read returns what the program's earlier operations left, and after a fence and a
 * synchronisation every process reads the final contents. */
#include "cfg.h"
enum { PUT, ACC, GET, ACCSC, PUTS, ACCS, GETS, PUTV, ACCV, GETV, RADD, RSWAP, PUTVAL, GETVAL, NBPUT, NBACC, NBGET, FLAG, NF };
static const char *fn[] = {"Put", "Acc", "Get", "Acc(scaled)", "PutS", "AccS", "GetS", "PutV", "AccV", "GetV", "Rmw(add)", "Rmw(swap)", "PutValue", "GetValue", "NbPut", "NbAcc", "NbGet", "Put_flag"};
static const int sets[4][NF] = {{PUT, ACC, GET, ACCSC, PUTS, ACCS, GETS, PUTV, ACCV, GETV, RADD, RSWAP, PUTVAL, GETVAL, NBPUT, NBACC, NBGET, FLAG}, {PUT, ACC, GET, PUTS, ACCV, RADD, GETVAL}, {PUT, ACC, GET, PUTS, ACCS, GETS, PUTV, ACCV, GETV}, {PUT, ACC, GET, RADD, PUTVAL}}, setn[4] = {18, 7, 9, 5};
#define NE 6
#define CFG(i) (100+(i))
enum { C_PROG, C_SELF, C_LK, C_F };
static int form(int i) { int x = (int)mc_get(CFG(C_PROG)), F = (int)mc_get(CFG(C_F)), s = mc_param("set", 0); while (i--) x /= F; return sets[s][x % F]; }
void setup_order(void)
{
  int k = mc_param("k", 3), F = setn[mc_param("set", 0)], np = 1, i, at, iov = 0, str = 0;
  for (i = 0; i < k; i++) np *= F;
  mc_set(CFG(C_F), F); mc_set(CFG(C_PROG), CH("prog", np));
  for (i = 0; i < k; i++) { int f = form(i); if (f == PUTV || f == ACCV || f == GETV) iov = 1; if (f == PUTS || f == ACCS || f == GETS) str = 1;
    if (f >= NBPUT && f <= NBGET && !mc_param("nb", 1)) mc_skip(); }
  cfg_layout = CH("layout", 2)*2; mc_opt("layout", cfg_layout);
  at = CH("at", 3); cfg_atom = at != 1; cfg_e2e = at != 0;
  mc_env("ARMCI_RMA_ATOMICITY", cfg_atom ? "1" : "0"); mc_env("ARMCI_NO_FLUSH_LOCAL", cfg_e2e ? "1" : "0");
  if (!cfg_atom) for (i = 0; i < k; i++) { int f = form(i); if (f >= NBPUT && f <= NBGET) mc_skip(); }    /* end-to-end flushing is about blocking operations */
  mc_set(CFG(C_SELF), CH("self", 2));
  mc_set(CFG(C_LK), CH("lk", 2)); mc_env("ARMCI_SHR_BUF_METHOD", mc_get(CFG(C_LK)) ? "COPY" : "NOGUARD");
  cfg_sm = str ? CH("sm", 2) : 0; mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  if (iov || (str && !cfg_sm)) cfg_iovpart(); else { cfg_im = 0; cfg_lim = cfg_chunk = cfg_checks = 0; }
  char s[160] = ""; for (i = 0; i < k; i++) { strcat(s, fn[form(i)]); strcat(s, " "); }
  mc_label("%satomic %d e2e %d self %d global buffer %d strided %d iov %s limit %d chunk %d checks %d", s, cfg_atom, cfg_e2e, (int)mc_get(CFG(C_SELF)), (int)mc_get(CFG(C_LK)), cfg_sm, cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks);
}
void rank_order(int me, int n)
{
  int k = mc_param("k", 3), i, j, tgt = mc_get(CFG(C_SELF)) ? 0 : n-1, lk = (int)mc_get(CFG(C_LK)), ref[NE], *m, *loc; void *tab[MAXP], *lt[MAXP];
  mc_init();
  mc_alloc(tab, NE*4); mc_alloc(lt, 64*4);
  for (j = 0; j < NE; j++) ((int *)tab[me])[j] = ref[j] = 1000*(j+1);
  m = tab[tgt];
  ARMCI_Barrier();
  mc_begin();
  if (me == 0) for (i = 0; i < k; i++) {
    int f = form(i), b = i & 1 ? 0 : 1, sc = f == ACCSC ? 3 : 1, rc = 0, idx[3], c = 0, read = 0, add = 0, z = 4, cnt[2] = {4, 2}, ds = 8, ss = 4, v = (i+1) << (4*i), got[3], buf[3]; long rl; armci_giov_t g; void *rp[3], *lp[3]; armci_hdl_t h;
    ARMCI_INIT_HANDLE(&h);
    switch (f) {
      case PUT: case ACC: case GET: case ACCSC: case NBPUT: case NBACC: case NBGET: c = 2; idx[0] = b; idx[1] = b+1; break;
      case PUTS: case ACCS: case GETS: c = 2; idx[0] = b; idx[1] = b+2; break;
      case PUTV: case ACCV: case GETV: c = 3; idx[0] = 1; idx[1] = 4; idx[2] = 2; break;
      case FLAG: c = 2; idx[0] = 3; idx[1] = 1; break;
      default: c = 1; idx[0] = 1;
    }
    read = f == GET || f == GETS || f == GETV || f == GETVAL || f == NBGET; add = f == ACC || f == ACCSC || f == ACCS || f == ACCV || f == NBACC || f == RADD;
    loc = lk ? (int *)lt[me] + 4*i : buf;
    for (j = 0; j < 3; j++) { loc[j] = read ? -1 : v+j; rp[j] = m + (j < c ? idx[j] : 0); lp[j] = loc+j; }
    if (mc_tracing()) fprintf(stderr, "op %d: %s value %d\n", i, fn[f], v);
    g.bytes = z; g.ptr_array_len = c; g.src_ptr_array = read ? rp : lp; g.dst_ptr_array = read ? lp : rp;
    switch (f) {
      case PUT: rc = ARMCI_Put(loc, m+b, 8, tgt); break;
      case NBPUT: rc = ARMCI_NbPut(loc, m+b, 8, tgt, &h); ARMCI_Wait(&h); break;
      case ACC: case ACCSC: rc = ARMCI_Acc(ARMCI_ACC_INT, &sc, loc, m+b, 8, tgt); break;
      case NBACC: rc = ARMCI_NbAcc(ARMCI_ACC_INT, &sc, loc, m+b, 8, tgt, &h); ARMCI_Wait(&h); break;
      case GET: rc = ARMCI_Get(m+b, loc, 8, tgt); break;
      case NBGET: rc = ARMCI_NbGet(m+b, loc, 8, tgt, &h); ARMCI_Wait(&h); break;
      case PUTS: rc = ARMCI_PutS(loc, &ss, m+b, &ds, cnt, 1, tgt); break;
      case ACCS: rc = ARMCI_AccS(ARMCI_ACC_INT, &sc, loc, &ss, m+b, &ds, cnt, 1, tgt); break;
      case GETS: rc = ARMCI_GetS(m+b, &ds, loc, &ss, cnt, 1, tgt); break;
      case PUTV: rc = ARMCI_PutV(&g, 1, tgt); break;
      case ACCV: rc = ARMCI_AccV(ARMCI_ACC_INT, &sc, &g, 1, tgt); break;
      case GETV: rc = ARMCI_GetV(&g, 1, tgt); break;
      case RADD: rc = ARMCI_Rmw(ARMCI_FETCH_AND_ADD, &got[0], m+1, v, tgt); break;
      case RSWAP: got[0] = v; rc = ARMCI_Rmw(ARMCI_SWAP, &got[0], m+1, 0, tgt); break;
      case PUTVAL: rc = ARMCI_PutValueInt(v, m+1, tgt); break;
      case GETVAL: loc[0] = ARMCI_GetValueInt(m+1, tgt); break;
      case FLAG: rc = ARMCI_Put_flag(loc, m+3, 4, m+1, v+1, tgt); break;
    }
    CHECK(rc == 0, "status", "%s returned %d", fn[f], rc); (void)rl;
    for (j = 0; j < c; j++) {
      int *r = &ref[idx[j]];
      if (read) CHECK(loc[j] == *r, "read", "operation %d (%s) read %d from element %d, the program left %d there", i, fn[f], loc[j], idx[j], *r);
      else if (f == RADD || f == RSWAP) { CHECK(got[0] == *r, "read", "operation %d (%s) returned %d, the program left %d in element 1", i, fn[f], got[0], *r); *r = f == RADD ? *r+v : v; }
      else *r = add ? *r + sc*(v+j) : v+j;
    }
    if (lk) continue;
    memset(buf, 0x5a, sizeof buf);
  }
  mc_end();
  if (me == 0) ARMCI_Fence(tgt);
  if (me == 0) for (j = 0; j < NE; j++) mc_set(j, ref[j]);
  MPI_Barrier(mc_param("world", 0) ? mc_ucomm : MPI_COMM_WORLD);
  for (j = 0; j < NE; j++) {
    int x = ARMCI_GetValueInt(m+j, tgt);
    CHECK(x == mc_get(j), "final", "after the fence rank %d reads %d from element %d, expected %d", me, x, j, (int)mc_get(j));
    if (me == tgt) CHECK(m[j] == mc_get(j), "final", "after the fence element %d is %d, expected %d", j, m[j], (int)mc_get(j));
  }
  ARMCI_Barrier();
  ARMCI_Free(lt[me]); ARMCI_Free(tab[me]);
  mc_fini();
}
