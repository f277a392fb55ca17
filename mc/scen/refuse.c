/* C27: calls with arguments the library cannot honour are refused: the program ends, and nothing has changed by then. Process ORIGIN makes
 * the calls, one at a time; the global memory of every process and the local buffer are compared before and after. */
#include "xfer.h"
#include "cfg.h"
static int cache, ncg;
void setup_refuse(void)
{
  cfg_base();
  cfg_sm = CH("sm", 2); mc_env("ARMCI_STRIDED_METHOD", cfg_sm ? "DIRECT" : "IOV");
  cfg_iovpart();
  cache = CH("cache", 2); if (cache) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  ncg = CH("ncg", 2); if (ncg) mc_env("ARMCI_NONCOLLECTIVE_GROUPS", "1");
  mc_label("strided %s iov %s limit %d chunk %d checks %d delivery %d layout %d copy %d atomic %d e2e %d win_create %d cache %d noncollective %d", cfg_sm ? "DIRECT" : "IOV", cfg_iovm[cfg_im], cfg_lim, cfg_chunk, cfg_checks, cfg_del, cfg_layout, cfg_shr, cfg_atom, cfg_e2e, cfg_wa, !cache, ncg);
}
static struct { int kind, form, a, b, t; unsigned char *loc, *rem, *p; int target; } A;
static ARMCI_Group gs, gr; static armcix_mutex_hdl_t mh; static int nn, me_;
enum { ACCTYPE, ACCSIZE, RMWOP, NULLLOC, MTX, FREE, GOPOP, GOPTYPE, SELOP, BCROOT, ABSID, HANDLE, ERR, WRONGPROC, GRPFREE, NK };
static const int types[] = {ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP}, ts[] = {4, 8, 4, 8, 8, 16}, cs[] = {4, 8, 4, 8, 4, 8};
static const int gtypes[] = {ARMCI_INT, ARMCI_LONG, ARMCI_LONG_LONG, ARMCI_FLOAT, ARMCI_DOUBLE};
static const char *bad[] = {"", "sum", "xor", "ma", "mi", "a", "abs", "o", "MAX", "-", "/", "absm", "l", "b", "prod"};
static void accform(int dt, int bytes)
{
  static double sc[2] = {2, 1}; int ls[2] = {bytes+16, 0}, cnt[2] = {bytes, 2}, cnt1[1] = {bytes}; armci_hdl_t h; armci_giov_t g; void *s[2] = {A.loc, A.loc+64}, *d[2] = {A.rem, A.rem+64}; void *sp = A.b & 1 ? (void *)sc : NULL; static long one[2]; 
  if (!sp) { one[0] = one[1] = 0; if (dt == ARMCI_ACC_INT) *(int *)one = 1; else if (dt == ARMCI_ACC_LNG) one[0] = 1; else if (dt == ARMCI_ACC_FLT || dt == ARMCI_ACC_CPL) *(float *)one = 1; else *(double *)one = 1; sp = one; }
  ARMCI_INIT_HANDLE(&h);
  g.bytes = bytes; g.ptr_array_len = 2; g.src_ptr_array = s; g.dst_ptr_array = d;
  switch (A.form) {
    case 0: ARMCI_Acc(dt, sp, A.loc, A.rem, bytes, A.target); break;
    case 1: ARMCI_NbAcc(dt, sp, A.loc, A.rem, bytes, A.target, &h); ARMCI_Wait(&h); break;
    case 2: ARMCI_AccS(dt, sp, A.loc, ls, A.rem, ls, cnt, 1, A.target); break;
    case 3: ARMCI_NbAccS(dt, sp, A.loc, ls, A.rem, ls, cnt, 1, A.target, &h); ARMCI_Wait(&h); break;
    case 4: ARMCI_AccS(dt, sp, A.loc, ls, A.rem, ls, cnt1, 0, A.target); break;
    case 5: ARMCI_AccV(dt, sp, &g, 1, A.target); break;
    default: ARMCI_NbAccV(dt, sp, &g, 1, A.target, &h); ARMCI_Wait(&h); break;
  }
}
static void call(void *x)
{
  int one = 1, gi[4] = {1, 2, 3, 4}; armci_hdl_t h; static const int mi[] = {-1, 2, 3, 100};
  ARMCI_INIT_HANDLE(&h);
  switch (A.kind) {
    case ACCTYPE: accform(A.a, 16); break;
    case ACCSIZE: accform(types[A.t], A.a); break;
    case RMWOP: ARMCI_Rmw(A.a, A.loc, A.rem, 1, A.target); break;
    case NULLLOC: switch (A.form) {
      case 0: ARMCI_Put(NULL, A.rem, 8, A.target); break; case 1: ARMCI_Get(A.rem, NULL, 8, A.target); break;
      case 2: ARMCI_NbPut(NULL, A.rem, 8, A.target, &h); ARMCI_Wait(&h); break; case 3: ARMCI_NbGet(A.rem, NULL, 8, A.target, &h); ARMCI_Wait(&h); break;
      case 4: ARMCI_NbPut(NULL, A.rem, 8, A.target, NULL); ARMCI_WaitAll(); break; default: ARMCI_Acc(ARMCI_ACC_INT, &one, NULL, A.rem, 8, A.target); } break;
    case MTX: switch (A.form) {
      case 0: ARMCI_Lock(0, A.target); break; case 1: ARMCI_Unlock(0, A.target); break; case 2: ARMCI_Destroy_mutexes(); break;      /* none exist */
      case 3: ARMCIX_Lock_hdl(mh, mi[A.a], A.target); break; case 4: ARMCIX_Trylock_hdl(mh, mi[A.a], A.target); break; case 5: ARMCIX_Unlock_hdl(mh, mi[A.a], A.target); break;
      case 6: ARMCIX_Lock_hdl(mh, 0, A.a ? nn : -1); break; default: ARMCIX_Unlock_hdl(mh, 0, A.a ? nn : -1); } break;
    case FREE: if (A.form) ARMCI_Free_group(A.p, &gs); else ARMCI_Free(A.p); break;
    case GOPOP: if (A.form) armci_msg_group_gop_scope(A.b, A.loc, 2, (char *)bad[A.a], gtypes[A.t], &gr); else armci_msg_gop_scope(A.b, A.loc, 2, (char *)bad[A.a], gtypes[A.t]); break;
    case GOPTYPE: if (A.form) armci_msg_group_gop_scope(A.b, A.loc, 2, A.t ? "max" : "+", A.a, &gr); else armci_msg_gop_scope(A.b, A.loc, 2, A.t ? "max" : "+", A.a); break;
    case SELOP: armci_msg_sel_scope(A.b, A.loc, 8, (char *)bad[A.a], ARMCI_DOUBLE, A.t); break;
    case BCROOT: if (A.form) armci_msg_group_bcast_scope(SCOPE_ALL, A.loc, 8, A.a, &gs); else armci_msg_bcast_scope(SCOPE_ALL, A.loc, 8, A.a); break;
    case ABSID: ARMCI_Absolute_id(A.form == 0 ? &gs : &gr, A.a); break;
    case HANDLE: switch (A.form) { case 0: ARMCI_Wait(NULL); break; case 1: ARMCI_Test(NULL); break; case 2: ARMCI_INIT_HANDLE(NULL); break; case 3: ARMCI_SET_AGGREGATE_HANDLE(NULL); break; default: ARMCI_UNSET_AGGREGATE_HANDLE(NULL); } break;
    case ERR: if (A.form) armci_msg_abort(A.a); else ARMCI_Error("requested by the program", A.a); break;
    case WRONGPROC: switch (A.form) { case 0: ARMCI_Put(A.loc, A.rem, 8, A.a); break; case 1: ARMCI_Get(A.rem, A.loc, 8, A.a); break; case 2: ARMCI_NbPut(A.loc, A.rem, 8, A.a, &h); ARMCI_Wait(&h); break; case 3: ARMCI_NbGet(A.rem, A.loc, 8, A.a, &h); ARMCI_Wait(&h); break;
      case 4: ARMCI_Acc(ARMCI_ACC_INT, gi, A.loc, A.rem, 8, A.a); break; case 5: ARMCI_NbAcc(ARMCI_ACC_INT, gi, A.loc, A.rem, 8, A.a, &h); ARMCI_Wait(&h); break; case 6: ARMCI_Rmw(ARMCI_FETCH_AND_ADD, A.loc, A.rem, 1, A.a); break; case 7: ARMCI_PutValueInt(3, A.rem, A.a); break; default: ARMCI_GetValueLong(A.rem, A.a); } break;
  }
}
static unsigned char L0[256];
static void attempt(int n, const char *what)
{
  static int salt; int ab;
  if (x_thin()) return;
  x_refill(n, salt++);
  A.loc = x_priv(256); memcpy(L0, A.loc, 256);
  if (mc_tracing()) fprintf(stderr, "case: %s\n", what);
  ab = mc_try(call, NULL);
  CHECK(ab, "accepted", "%s was not refused", what);
  if (A.kind == ERR) CHECK(mc_abort_code() == A.a, "code", "%s: the program ended with code %d", what, mc_abort_code());
  mc_deliver_all();
  x_verify(n, "changed", what);
}
static int in(const int *l, int k, int v) { int i; for (i = 0; i < k; i++) if (l[i] == v) return 1; return 0; }
void rank_refuse(int me, int n)
{
  int i, j, k, gl[MAXP], origin = mc_param("origin", 0), form, lvl; char what[200]; void *dead[MAXP]; static const int scopes[] = {SCOPE_ALL, SCOPE_MASTERS, SCOPE_NODE}; static const int codes[] = {1, 2, 13, 100, 255}, rmws[] = {ARMCI_SWAP, ARMCI_SWAP_LONG, ARMCI_FETCH_AND_ADD, ARMCI_FETCH_AND_ADD_LONG};
  nn = n; me_ = me;
  mc_init();
  mc_alloc(dead, 64);
  x_alloc(me, n, origin, 256, 3, -1);
  /* gs: everybody but the last process (the first one if that is the caller); gr: everybody reversed */
  for (i = k = 0; i < n; i++) if (i != (origin == n-1 ? 0 : n-1)) gl[k++] = i;
  if (k) mc_group(k, gl, &gs);
  for (i = 0; i < n; i++) gl[i] = n-1-i;
  mc_group(n, gl, &gr);
  { ARMCI_Group w; ARMCI_Group_get_world(&w); mh = ARMCIX_Create_mutexes_hdl(me == 0 ? 2 : 1, &w); }
  ARMCI_Free(dead[me]);
  ARMCI_Barrier(); mc_barrier();
  if (me == origin) for (A.target = 0; A.target < n; A.target++) {
    A.rem = (unsigned char *)XT[0][A.target] + 16; A.b = A.t = 0;
    A.kind = ACCTYPE; for (A.form = 0; A.form < 7; A.form++) for (A.a = -2; A.a < 60; A.a++) for (A.b = 0; A.b < 2; A.b++) if (!in(types, 6, A.a)) { snprintf(what, sizeof what, "accumulate (form %d) of type %d to process %d", A.form, A.a, A.target); attempt(n, what); }
    A.kind = ACCSIZE; for (A.form = 0; A.form < 7; A.form++) for (A.t = 0; A.t < 6; A.t++) for (A.a = 1; A.a < 50; A.a++) for (A.b = 0; A.b < 2; A.b++) if (A.a % cs[A.t]) { snprintf(what, sizeof what, "accumulate (form %d) of %d bytes of type %d, %s, to process %d", A.form, A.a, A.t, A.b ? "scaled" : "unscaled", A.target); attempt(n, what); }
    A.kind = RMWOP; for (A.a = -2; A.a < 60; A.a++) if (!in(rmws, 4, A.a)) { snprintf(what, sizeof what, "read-modify-write operation %d on process %d", A.a, A.target); attempt(n, what); }
    A.kind = NULLLOC; for (A.form = 0; A.form < 6; A.form++) if (!(A.form == 5 && cfg_shr) && !(A.target == me)) { snprintf(what, sizeof what, "transfer %d with a null local address, process %d", A.form, A.target); if (A.form < 5 && !cfg_shr) attempt(n, what); }
    A.kind = MTX; for (A.form = 0; A.form < 8; A.form++) for (A.a = 0; A.a < (A.form < 3 ? 1 : A.form < 6 ? 4 : 2); A.a++) { snprintf(what, sizeof what, "mutex misuse %d.%d, host %d", A.form, A.a, A.target); attempt(n, what); }
    if (A.target == me) {
      int nmem = n-1;
      A.kind = FREE; for (A.form = 0; A.form < 2; A.form++) for (i = 0; i < 4; i++) { unsigned char *priv = NULL; A.p = i == 0 ? dead[me] : i == 1 ? (unsigned char *)&i : i == 2 ? (priv = malloc(32)) : (unsigned char *)XT[1][me]-1; if (i == 3 && A.p >= (unsigned char *)XT[0][me] && A.p < (unsigned char *)XT[0][me]+XS[0][me]) continue; if (n == 1 && A.form) continue; snprintf(what, sizeof what, "free (form %d) of address kind %d", A.form, i); attempt(n, what); free(priv); }
      for (A.form = 0; A.form < 2; A.form++) for (i = 0; i < 3; i++) { A.b = scopes[i];
        A.kind = GOPOP; for (A.a = 0; A.a < 15; A.a++) for (A.t = 0; A.t < 5; A.t++) { snprintf(what, sizeof what, "global operation '%s' (form %d scope %d type %d)", bad[A.a], A.form, i, A.t); attempt(n, what); }
        A.kind = GOPTYPE; for (A.a = -2; A.a < 60; A.a++) for (A.t = 0; A.t < 2; A.t++) if (!in(gtypes, 5, A.a)) { snprintf(what, sizeof what, "global operation on type %d (form %d scope %d)", A.a, A.form, i); attempt(n, what); }
        A.kind = SELOP; for (A.a = 0; A.a < 15; A.a++) for (A.t = 0; A.t < 2; A.t++) if (!A.form) { snprintf(what, sizeof what, "selection '%s' (scope %d contribute %d)", bad[A.a], i, A.t); attempt(n, what); } }
      A.kind = BCROOT; for (i = 0; i < 4; i++) { A.form = 1; A.a = i == 0 ? -1 : i == 1 ? n : i == 2 ? (origin == n-1 ? 0 : n-1) : n+5; if (n == 1 || (i == 2 && n == 1)) continue; snprintf(what, sizeof what, "group broadcast with root %d", A.a); attempt(n, what); }
      A.kind = BCROOT; A.form = 0; for (i = 0; i < 2; i++) { A.a = i ? n : -1; snprintf(what, sizeof what, "broadcast with root %d", A.a); attempt(n, what); }
      A.kind = ABSID; for (A.form = n == 1; A.form < 2; A.form++) for (i = 0; i < 4; i++) { static const int o[] = {-1, 0, 1, 50}; A.a = i ? (A.form ? n : nmem) + o[i] : -1; snprintf(what, sizeof what, "translation of rank %d in a group of %d", A.a, A.form ? n : nmem); attempt(n, what); }
      A.kind = HANDLE; for (A.form = 0; A.form < 5; A.form++) { snprintf(what, sizeof what, "handle call %d with a null handle", A.form); attempt(n, what); }
      A.kind = ERR; for (A.form = 0; A.form < 2; A.form++) for (i = 0; i < 5; i++) { A.a = codes[i]; snprintf(what, sizeof what, "%s with code %d", A.form ? "armci_msg_abort" : "ARMCI_Error", A.a); attempt(n, what); }
      A.kind = WRONGPROC; for (A.form = 0; A.form < 9; A.form++) for (i = 0; i < 3; i++) { A.a = n + i*i; snprintf(what, sizeof what, "transfer %d to process %d of %d", A.form, A.a, n); attempt(n, what); }
    }
  }
  mc_barrier();
  mc_expect_abort(NULL);
  MPI_Abort(MPI_COMM_WORLD, 1);     /* abandoned calls leave temporaries behind: the execution ends here */
}
/* calls outside of the initialised phase, and mutexes created twice */
void setup_phase(void) { mc_set(100, mc_choose(9)); mc_set(101, mc_choose(3)); mc_label("call %d in phase %d", (int)mc_get(100), (int)mc_get(101)); }
static void pcall(void *x)
{
  void *t[MAXP]; int prov;
  switch ((int)mc_get(100)) {
    case 0: ARMCI_Malloc(t, 16); break;
    case 1: ARMCI_Lock(0, 0); break;
    case 2: ARMCI_Unlock(0, 0); break;
    case 3: ARMCI_Destroy_mutexes(); break;
    case 4: ARMCI_Create_mutexes(1); break;                    /* twice */
    case 5: ARMCI_Init(); break;                               /* without MPI */
    case 6: ARMCI_Init_thread(MPI_THREAD_MULTIPLE); break;
    case 7: ARMCI_Init_args(NULL, NULL); break;
    default: ARMCI_Create_mutexes(0); break;
  }
}
void rank_phase(int me, int n)
{
  int k = (int)mc_get(100), ph = (int)mc_get(101), ab, i;      /* phase 0: before the initialisation, 1: after a life of the library, 2: in it */
  if (k == 0 && ph == 2) mc_skip();
  if ((k == 4 || k == 8) && ph != 2) mc_skip();
  if (k >= 5 && k <= 7 && ph) mc_skip();
  if (!(k >= 5 && k <= 7)) MPI_Init(NULL, NULL);
  if (ph) { CHECK(ARMCI_Init() == 0, "init", "initialise failed"); void *t[MAXP]; mc_alloc(t, 32);
    if (k == 4 || k == 8) ARMCI_Create_mutexes(1); else { ARMCI_Create_mutexes(2); ARMCI_Lock(0, 0); ARMCI_Unlock(0, 0); ARMCI_Destroy_mutexes(); }
    ARMCI_Free(t[me]); ARMCI_Barrier(); if (ph == 1) ARMCI_Finalize(); }
  mc_case();
  ab = mc_try(pcall, NULL);
  CHECK(ab, "accepted", "call %d in phase %d was not refused", k, ph);
  (void)i;
  mc_barrier();
  mc_expect_abort(NULL);
  if (k >= 5 && k <= 7) exit(1);
  MPI_Abort(MPI_COMM_WORLD, 1);
}
