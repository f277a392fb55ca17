/* C19: threads of one process. mode 0: transfers of one thread while the other allocates and frees; 1: two threads transferring (fences, implicit
 * waits, barriers); 2: two threads allocating on different groups; 3: mutexes. */
#include "cfg.h"
#include <pthread.h>
static void *tab[MAXP], *hd[MAXP]; static int n_, me_;
static ARMCI_Group grp[2];
#define OPS 6
#define CFG(i) (100+(i))
static void body(int th, int op)
{
  int *m = (int *)tab[(me_+1) % n_] + 4*(2*me_+th), v[2] = {10*me_+th+1, 7}, w[2] = {0, 0}, old = -1, i, one = 1; void *y[MAXP], *loc; armci_hdl_t h; 
  int c2[2] = {4, 2}, st = 4; armci_giov_t g; void *sp[2] = {v, v+1}, *dp[2] = {m, m+1};
  ARMCI_INIT_HANDLE(&h);
  switch (op) {
    case 0: ARMCI_Put(v, m, 8, (me_+1) % n_); ARMCI_Fence((me_+1) % n_); ARMCI_Get(m, w, 8, (me_+1) % n_); CHECK(w[0] == v[0] && w[1] == 7, "value", "thread %d of rank %d reads back %d,%d", th, me_, w[0], w[1]); break;
    case 1: ARMCI_NbAcc(ARMCI_ACC_INT, &one, v, m, 8, (me_+1) % n_, &h); ARMCI_Wait(&h); ARMCI_AllFence(); ARMCI_Get(m, w, 8, (me_+1) % n_); CHECK(w[0] == v[0] && w[1] == 7, "value", "thread %d of rank %d reads back %d,%d", th, me_, w[0], w[1]); break;
    case 2: ARMCI_Rmw(ARMCI_FETCH_AND_ADD, &old, m, 3, (me_+1) % n_); CHECK(old == 0, "value", "fetch-and-add of thread %d of rank %d returned %d", th, me_, old); ARMCI_Fence((me_+1) % n_); i = ARMCI_GetValueInt(m, (me_+1) % n_); CHECK(i == 3, "value", "thread %d of rank %d reads %d", th, me_, i); break;
    case 3: ARMCI_PutS(v, &st, m, &st, c2, 1, (me_+1) % n_); ARMCI_WaitProc((me_+1) % n_); ARMCI_WaitAll(); ARMCI_Fence((me_+1) % n_); break;
    case 4: g.bytes = 4; g.ptr_array_len = 2; g.src_ptr_array = sp; g.dst_ptr_array = dp; ARMCI_NbPutV(&g, 1, (me_+1) % n_, &h); ARMCI_Wait(&h); ARMCI_AllFence(); break;
    case 5: loc = ARMCI_Malloc_local(16); memset(loc, 1, 16); ARMCI_NbPut(v, m, 8, (me_+1) % n_, NULL); ARMCI_WaitAll(); ARMCI_Fence((me_+1) % n_); ARMCI_Free_local(loc); break;
    case 6: case 7: /* collective over a group: allocate, use, free */
      if (hd[me_]) { ARMCI_Free_group(hd[me_], &grp[0]); hd[me_] = NULL; break; }        /* the oldest allocation goes while the other thread works */
      ARMCI_Malloc_group(y, 16, &grp[op-6]);
      ((int *)y[me_])[1] = 5+me_;
      if (!mc_param("light", 0)) ARMCI_Put(v, y[(me_+1) % n_], 4, (me_+1) % n_), ARMCI_Fence((me_+1) % n_), ARMCI_Get(y[(me_+1) % n_], w, 4, (me_+1) % n_);
      CHECK(mc_param("light", 0) || w[0] == v[0], "value", "thread %d of rank %d reads %d from its allocation", th, me_, w[0]);
      ARMCI_Free_group(y[me_], &grp[op-6]);
      break;
  }
}
static void *second(void *a) { (void)a; body(1, (int)mc_get(CFG(1+me_*2+1))); return NULL; }
void setup_thread(void)
{
  int n = mc_size(), mode = mc_param("mode", 0), r;
  mc_opt("thread_level", MPI_THREAD_MULTIPLE);
  if (CH("shr", 2)) mc_env("ARMCI_SHR_BUF_METHOD", "COPY");
  mc_opt("layout", CH("layout", 2)*2);
  if (CH("sm", 2)) mc_env("ARMCI_STRIDED_METHOD", "IOV");
  int a0 = 0, b0 = 0, sym = 1;
  if (mode == 0) { a0 = CH("a", OPS); b0 = 6; }
  if (mode == 1) { a0 = CH("a", OPS); b0 = CH("b", OPS); }
  if (mode == 2) { a0 = 6; b0 = 7; }
  if (mode == 3) { a0 = 6; b0 = CH("b", OPS); }
  for (r = 0; r < n; r++) { int sw = r && !sym; mc_set(CFG(1+2*r), sw ? b0 : a0); mc_set(CFG(2+2*r), sw ? a0 : b0); }
  mc_label("mode %d thread 0: %d thread 1: %d", mode, a0, b0);
}
void rank_thread(int me, int n)
{
  int i, l[MAXP], act = mc_param("act", n); pthread_t t;
  me_ = me; n_ = n;
  int prov; MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov); CHECK(ARMCI_Init_thread(MPI_THREAD_MULTIPLE) == 0, "init", "init failed");
  for (i = 0; i < n; i++) l[i] = i;
  mc_group(n, l, &grp[0]); mc_group(n, l, &grp[1]);
  if (mc_param("head", 0)) ARMCI_Malloc_group(hd, 16, &grp[0]);
  mc_alloc(tab, n*32); memset(tab[me], 0, n*32);
  ARMCI_Barrier();
  mc_begin();
  if (me >= act && mc_param("mode", 0) == 0) body(1, (int)mc_get(CFG(2+me*2)));      /* only the collective part */
  else if (me < act || mc_param("mode", 0) != 1) {
    pthread_create(&t, NULL, second, NULL);
    body(0, (int)mc_get(CFG(1+me*2)));
    pthread_join(t, NULL);
  }
  mc_end();
  ARMCI_Barrier();
  for (i = 0; i < 2*n; i++) { /* every slot: the contribution of (owner-1)'s thread */ }
  ARMCI_Group_free(&grp[1]); ARMCI_Group_free(&grp[0]);
  ARMCI_Free(tab[me]);
  mc_fini();
  mc_leakcheck("threads");
}
/* mutexes used by two threads of every process: thread t of process r runs lock a; (lock b;) critical; unlock..., the locks are (number, host)
 * pairs and every program acquires them in increasing order */
#define NL 4
static int lm[NL] = {0, 0, 1, 1}, lh[NL] = {0, 1, 0, 1};
static int two;
static void mlock(int id, int L) { ARMCI_Lock(lm[L], lh[L]); CHECK(mc_get(L) == 0, "exclusion", "thread %d of rank %d obtained mutex %d of %d while thread %d of rank %d holds it", id & 1, me_, lm[L], lh[L], ((int)mc_get(L)-1) & 1, ((int)mc_get(L)-1)/2); mc_set(L, id+1); mc_set(8+L, mc_get(8+L)+1); }
static void munlock(int id, int L) { CHECK(mc_get(L) == id+1, "exclusion", "thread %d of rank %d lost mutex %d of %d", id & 1, me_, lm[L], lh[L]); mc_set(L, 0); ARMCI_Unlock(lm[L], lh[L]); }
static void mbody(int th)
{
  int id = 2*me_+th, c = (int)mc_get(CFG(1+id)), r, a = c % NL, b = c / NL - 1;
  for (r = 0; r < mc_param("rounds", 1); r++) {
    mlock(id, a); if (b >= 0) mlock(id, b);
    mc_yield();
    if (b >= 0) munlock(id, b);
    munlock(id, a);
  }
}
static void *msecond(void *a) { (void)a; mbody(1); return NULL; }
void setup_tmutex(void)
{
  int n = mc_size(), i, th = mc_param("threads", 3), k = mc_param("nl", NL); char s[100] = "";
  mc_opt("thread_level", MPI_THREAD_MULTIPLE);
  for (i = 0; i < 2*n; i++) {                  /* threads is a bit set of the active ones */
    int a, b = -1; if (!(th >> i & 1)) { mc_set(CFG(1+i), -1); continue; }
    a = mc_choose(k);
    if (mc_param("nest", 0)) { b = mc_choose(k-a)-1; if (b >= 0) b += a+1; }
    mc_set(CFG(1+i), a + NL*(b+1)); sprintf(s+strlen(s), " %d.%d:%d,%d", i/2, i & 1, a, b);
  }
  mc_label("mutexes%s", s);
}
void rank_tmutex(int me, int n)
{
  pthread_t t; int prov, i, b = mc_param("threads", 3) >> 2*me;
  me_ = me; n_ = n;
  MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov); CHECK(ARMCI_Init_thread(MPI_THREAD_MULTIPLE) == 0, "init", "init failed");
  if (n == 1) for (i = 0; i < NL; i++) lm[i] = i, lh[i] = 0;
  ARMCI_Create_mutexes(n == 1 ? NL : 2);
  ARMCI_Barrier();
  mc_begin();
  if (b & 2) pthread_create(&t, NULL, msecond, NULL);
  if (b & 1) mbody(0);
  if (b & 2) pthread_join(t, NULL);
  mc_end();
  ARMCI_Barrier();
  int64_t tot = 0, want = 0; for (i = 0; i < NL; i++) tot += mc_get(8+i);
  for (i = 0; i < 2*n; i++) if (mc_param("threads", 3) >> i & 1) want += mc_param("rounds", 1)*(mc_get(CFG(1+i)) >= NL ? 2 : 1);
  CHECK(tot == want, "count", "%ld acquisitions, expected %ld", (long)tot, (long)want);
  ARMCI_Destroy_mutexes();
  mc_fini();
  mc_leakcheck("tmutex");
}
