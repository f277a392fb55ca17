/* C10: mutual exclusion, deadlock freedom, hand-over order, data visibility, independence. */
#include "common.h"
/* ghost slots: 0.. holder+1 of lock L (L = host*4+mutex), 32.. critical-section counter of lock L,
 * 64 + 8*L + p: p is inside the lock call of L; 128 + 8*p + q: times q overtook p */
#define HOLD(L) (L)
#define CNT(L)  (32+(L))
#define WAIT(L,p) (64+8*(L)+(p))
#define BYP(p,q) (160+8*(p)+(q))
static armcix_mutex_hdl_t hdl;
static void *tab[MAXP];
static int ticket, gsize, gl[MAXP];
static void lock(int L, int m, int host, int usehdl)
{
  int me = mc_rank(), n = mc_size(), seen[MAXP], p;
  for (p = 0; p < n; p++) seen[p] = p != me && mc_get(WAIT(L,p)) && mc_blocked(p) == 2 ? (int)mc_get(WAIT(L,p)) : 0;
  mc_set(WAIT(L,me), ++ticket);
  if (usehdl == 2) { int r = ARMCIX_Trylock_hdl(hdl, m, host); CHECK(r == 0, "trylock", "trylock returned %d", r); }
  else if (usehdl) ARMCIX_Lock_hdl(hdl, m, host);
  else ARMCI_Lock(m, host);
  mc_set(WAIT(L,me), 0);
  CHECK(mc_get(HOLD(L)) == 0, "exclusion", "rank %d obtained mutex %d of %d while rank %d holds it", me, m, host, (int)mc_get(HOLD(L))-1);
  mc_set(HOLD(L), me+1);
  for (p = 0; p < n; p++) {
    mc_set(BYP(me,p), 0);
    if (seen[p] && mc_get(WAIT(L,p)) == seen[p]) {
      mc_set(BYP(p,me), mc_get(BYP(p,me))+1);
      CHECK(mc_get(BYP(p,me)) <= 1, "fairness", "rank %d, waiting for mutex %d of %d, was overtaken twice by rank %d, which asked later each time", p, m, host, me);
    }
  }
}
static void unlock(int L, int m, int host, int usehdl)
{
  CHECK(mc_get(HOLD(L)) == mc_rank()+1, "exclusion", "rank %d lost mutex %d of %d to rank %d", mc_rank(), m, host, (int)mc_get(HOLD(L))-1);
  mc_set(HOLD(L), 0);
  if (usehdl) ARMCIX_Unlock_hdl(hdl, m, host); else ARMCI_Unlock(m, host);
}
static void critical(int L, int me, int data)
{
  if (!data) { mc_yield(); mc_set(CNT(L), mc_get(CNT(L))+1); return; }
  long v = -1, *x = (long *)tab[0] + L;
  ARMCI_Get(x, &v, sizeof v, 0);
  CHECK(v == mc_get(CNT(L)), "visibility", "rank %d read %ld under the mutex, the previous holders wrote %ld", me, v, (long)mc_get(CNT(L)));
  v++;
  ARMCI_Put(&v, x, sizeof v, 0);
  ARMCI_Fence(0);
  mc_set(CNT(L), v);
}
/* parameters: rounds, data (critical section through global memory), host, hdl (0 ARMCI_Lock, 1 handle, 2 trylock), two (second mutex/host),
 * group (0 world, 1 reversed group), nm (mutexes on the host), only (number of contending ranks) */
void rank_mutex(int me, int n)
{
  int rounds = mc_param("rounds", 2), data = mc_param("data", 0), host = mc_param("host", 0), h = mc_param("hdl", 0), two = mc_param("two", 0);
  int group = mc_param("group", 0), nm = mc_param("nm", 1), act = mc_param("act", n), allh = mc_param("allhosts", 0), first = mc_param("first", 0);
  ARMCI_Group g; int member = 1, i;
  mc_init();
  mc_alloc(tab, 64*sizeof(long));
  memset(tab[me], 0, 64*sizeof(long));
  if (group) {
    gsize = 0;
    if (group == 1) for (i = n-1; i >= 0; i--) gl[gsize++] = i;
    else for (i = n-1; i >= 1; i--) gl[gsize++] = i;     /* group 2: without rank 0 */
    member = 0; for (i = 0; i < gsize; i++) if (gl[i] == me) member = 1;
    mc_group(gsize, gl, &g);
  } else ARMCI_Group_get_world(&g);
  int mine = (me == host || allh || two >= 2) ? nm : 0;
  if (h) { if (member) hdl = ARMCIX_Create_mutexes_hdl(mine, &g); }
  else ARMCI_Create_mutexes(mine);
  ARMCI_Barrier();
  mc_begin();
  if (member && me >= first && me < first+act)
    for (i = 0; i < rounds; i++) {
      int m = nm-1, ho = host;
      if (two == 1) m = (me+i) % nm;                       /* different mutexes of one host */
      if (two == 2) ho = (me+i) % n;                       /* same mutex number on different hosts */
      if (two == 3) {                                      /* nested, ordered */
        int a = 0, b = n > 1 ? 1 : 0;
        lock(a*4, 0, a, h); lock(b*4, 0, b, h); critical(a*4, me, data); critical(b*4, me, data);
        if (i & 1) { unlock(b*4, 0, b, h); unlock(a*4, 0, a, h); } else { unlock(a*4, 0, a, h); unlock(b*4, 0, b, h); }
        continue;
      }
      int L = (ho % 4)*4 + m;
      lock(L, m, ho, h); critical(L, me, data); unlock(L, m, ho, h);
    }
  mc_end();
  ARMCI_Barrier();
  long tot = 0; for (i = 0; i < 16; i++) tot += mc_get(CNT(i));
  int who = group == 2 ? n-1 : act;
  CHECK(tot == (long)who*rounds*(two == 3 ? 2 : 1), "count", "%ld critical sections were counted, %d expected", tot, who*rounds*(two == 3 ? 2 : 1));
  if (h) { if (member) ARMCIX_Destroy_mutexes_hdl(hdl); } else ARMCI_Destroy_mutexes();
  if (group) ARMCI_Group_free(&g);
  ARMCI_Free(tab[me]);
  mc_fini();
  mc_leakcheck("mutex");
}
/* every program: each process carries out K steps, a step being one of four locks (mutex 0/1 of host 0/1) held alone, or (nest) an ordered pair held together;
 * kind 0: ARMCI_Lock; 1: the mutexes of host 1 belong to a second set, made by ARMCIX_Create_mutexes_hdl. life: sets are destroyed and made again before. */
static const int pa[] = {0, 1, 4, 5, 0, 0, 0, 1, 1, 4}, pb[] = {-1, -1, -1, -1, 1, 4, 5, 4, 5, 5};
void setup_mprog(void)
{
  int n = mc_size(), K = mc_param("K", 1), nest = mc_param("nest", 0), i, j, kind = mc_param("kind", -1) >= 0 ? mc_param("kind", -1) : mc_choose(2), life = mc_param("life", -1) >= 0 ? mc_param("life", -1) : mc_choose(2);
  char lab[200]; int at = 0;
  for (i = 0; i < n; i++) { long p = 0; at += sprintf(lab+at, " %d:", i); for (j = 0; j < K; j++) { int a = mc_choose(nest ? 10 : 4); p = p*16+a+1; at += sprintf(lab+at, pb[a] < 0 ? " %d" : " %d+%d", pa[a], pb[a]); } mc_set(232+i, p); }
  mc_set(240, kind); mc_set(241, life);
  mc_label("programs%s, set %d, life %d", lab, kind, life);
}
void rank_mprog(int me, int n)
{
  int K = mc_param("K", 1), kind = (int)mc_get(240), life = (int)mc_get(241), i, j, data = mc_param("data", 0); ARMCI_Group w; long p = mc_get(232+me), tot = 0, want = 0;
  mc_init();
  ARMCI_Group_get_world(&w);
  mc_alloc(tab, 64*sizeof(long)); memset(tab[me], 0, 64*sizeof(long));
  if (life) { armcix_mutex_hdl_t o; ARMCI_Create_mutexes(me == 1 ? 3 : 0); ARMCI_Lock(2, 1); ARMCI_Unlock(2, 1); ARMCI_Destroy_mutexes(); o = ARMCIX_Create_mutexes_hdl(1, &w); hdl = ARMCIX_Create_mutexes_hdl(2, &w); ARMCIX_Lock_hdl(o, 0, me); ARMCIX_Unlock_hdl(o, 0, me); ARMCIX_Destroy_mutexes_hdl(o); }
  else hdl = ARMCIX_Create_mutexes_hdl(me == 1 ? 2 : 0, &w);
  ARMCI_Create_mutexes(me < 2 ? 2 : 0);
  ARMCI_Barrier();
  mc_begin();
  for (i = 0; i < K; i++) {
    int a; long q = p; for (j = 0; j < K-1-i; j++) q /= 16; a = (int)(q % 16) - 1;
    int A = pa[a], B = pb[a], ha = A/4, hb = B/4;
    lock(A, A%4, ha, kind && ha); if (B >= 0) lock(B, B%4, hb, kind && hb);
    critical(A, me, data); if (B >= 0) critical(B, me, data);
    if (B >= 0 && (i+me) & 1) unlock(B, B%4, hb, kind && hb);
    unlock(A, A%4, ha, kind && ha); if (B >= 0 && !((i+me) & 1)) unlock(B, B%4, hb, kind && hb);
  }
  mc_end();
  ARMCI_Barrier();
  for (i = 0; i < 16; i++) tot += mc_get(CNT(i));
  for (i = 0; i < n; i++) for (p = mc_get(232+i), j = 0; j < K; j++, p /= 16) want += pb[p%16-1] < 0 ? 1 : 2;
  CHECK(tot == want, "count", "%ld critical sections were counted, %ld expected", tot, want);
  ARMCIX_Destroy_mutexes_hdl(hdl); ARMCI_Destroy_mutexes();
  ARMCI_Free(tab[me]);
  mc_fini();
  mc_leakcheck("mutex");
}
/* many mutexes: of every mutex of a large set (nm on host 0, fewer elsewhere; every third one in several sets) one process holds it, a second one is kept out
 * of it and gets every other one; the holders' and waiters' roles rotate. No exploration: the space is the mutex number. */
void setup_mmany(void) { mc_opt("det_sched", 2); mc_set(240, mc_choose(2)); mc_set(241, mc_choose(2)); mc_opt("layout", (int)mc_get(241)); mc_label("many mutexes, sets %d layout %d", (int)mc_get(240), (int)mc_get(241)); }
static int mm_cnt(int h, int nm) { return h == 0 ? nm : h == 1 ? 9 : h == 2 ? 0 : 1; }
void rank_mmany(int me, int n)
{
  int nm = mc_param("nm", 40), sets = (int)mc_get(240) ? 3 : 1, h, x, s, y, k, q; ARMCI_Group w; armcix_mutex_hdl_t hd[3]; 
  static const int nb[] = {-1, 1, 2, -2, 8, -8, 16, -16, 32, -32, 64, 128, -64, -128, 256, -256};
  mc_init(); ARMCI_Group_get_world(&w);
  for (s = 0; s < sets; s++) if (s) hd[s] = ARMCIX_Create_mutexes_hdl(mm_cnt((me+s) % n, nm), &w); else ARMCI_Create_mutexes(mm_cnt(me, nm));
#define MM_LOCK(s, m, h) do { if (s) ARMCIX_Lock_hdl(hd[s], m, h); else ARMCI_Lock(m, h); } while (0)
#define MM_UNLOCK(s, m, h) do { if (s) ARMCIX_Unlock_hdl(hd[s], m, h); else ARMCI_Unlock(m, h); } while (0)
  for (s = 0; s < sets; s++) for (h = 0; h < n; h++) for (x = 0; x < mm_cnt((h+s) % n, nm); x++) {
    int A = (x+h) % n, B = (A+1+x/n % (n-1)) % n, c = mm_cnt((h+s) % n, nm);
    mc_case();
    mc_barrier(); if (me == 0) mc_set(250, 0), mc_set(251, 0); mc_barrier();
    if (me == A) MM_LOCK(s, x, h);
    mc_barrier();
    if (me == B) {
      for (k = 0; k < (int)(sizeof nb/sizeof *nb); k++) { y = x + nb[k]; if (y >= 0 && y < c) { MM_LOCK(s, y, h); MM_UNLOCK(s, y, h); } }
      for (q = 0; q < n; q++) if (q != h && x < mm_cnt((q+s) % n, nm)) { MM_LOCK(s, x, q); MM_UNLOCK(s, x, q); }
      for (k = 0; k < sets; k++) if (k != s && x < mm_cnt((h+k) % n, nm)) { MM_LOCK(k, x, h); MM_UNLOCK(k, x, h); }
      mc_set(250, 1);
      MM_LOCK(s, x, h); mc_set(251, 1); MM_UNLOCK(s, x, h);
    }
    if (me == A) {
      for (k = 0; k < 100000 && !mc_get(251) && !(mc_get(250) && mc_blocked(B) == 2); k++) mc_yield();
      CHECK(!mc_get(251), "exclusion", "process %d obtained mutex %d of host %d (set %d) while process %d holds it", B, x, h, s, A);
      CHECK(mc_get(250), "independence", "process %d cannot obtain the other mutexes while process %d holds mutex %d of host %d (set %d)", B, A, x, h, s);
      MM_UNLOCK(s, x, h);
    }
  }
  mc_barrier();
  for (s = 1; s < sets; s++) ARMCIX_Destroy_mutexes_hdl(hd[s]);
  ARMCI_Destroy_mutexes();
  mc_fini();
  mc_leakcheck("mmany");
}
