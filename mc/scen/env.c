/* C18: (parse) every documented setting against every kind of value; (mix) a program using every part of the interface under every
 * combination of at most w settings that differ from their defaults; its results are computed independently of the settings. */
#include "common.h"
#include <armci_internals.h>
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
/* ------------------------------------------------------------------ parse */
enum { B, I, G, L, SM, IM, SH, V, PU, DEP };       /* boolean, integer, granularity, integer limits, methods, verbosity, pause, deprecated */
#define F(x) offsetof(global_state_t, x)
#if defined(OPEN_MPI) && OMPI_MAJOR_VERSION < 5
#define OLD 1
#else
#define OLD 0
#endif
#if defined(OPEN_MPI) && OMPI_MAJOR_VERSION >= 5
#define CHUNK 1
#elif defined(MPICH_VERSION)
#define CHUNK 256
#else
#define CHUNK 0
#endif
static const struct { const char *name; int kind, dflt; size_t off; } S[] = {
  {"ARMCI_DEBUG_ALLOC", B, 0, F(debug_alloc)}, {"ARMCI_CACHE_RANK_TRANSLATION", B, 1, F(cache_rank_translation)}, {"ARMCI_USE_REQUEST_ATOMICS", B, !OLD, F(use_request_atomics)},
  {"ARMCI_NONCOLLECTIVE_GROUPS", B, 0, F(noncollective_groups)}, {"ARMCI_IOV_CHECKS", B, 0, F(iov_checks)}, {"ARMCI_PROGRESS_THREAD", B, 0, F(progress_thread)},
  {"ARMCI_FLUSH_REQUEST_ATOMICS", B, 0, F(flush_request_atomics)}, {"ARMCI_RMA_ATOMICITY", B, 0, F(rma_atomicity)}, {"ARMCI_NO_FLUSH_LOCAL", B, 0, F(end_to_end_flush)}, {"ARMCI_RMA_NOCHECK", B, 1, F(rma_nocheck)},
  {"ARMCI_USE_WIN_ALLOCATE", B, 1, F(use_win_allocate)}, {"ARMCI_MSG_BARRIER_SYNCS", B, 0, F(msg_barrier_syncs)}, {"ARMCI_EXPLICIT_NB_PROGRESS", B, 1, F(explicit_nb_progress)}, {"ARMCI_USE_ALLOC_SHM", B, 1, F(use_alloc_shm)},
  {"ARMCI_DISABLE_SHM_ACC", B, 0, F(disable_shm_accumulate)}, {"ARMCI_USE_SAME_OP", B, 0, F(use_same_op)},
  {"ARMCI_VERBOSE", V, 0, F(verbose)}, {"ARMCI_IOV_BATCHED_LIMIT", I, 0, F(iov_batched_limit)}, {"ARMCI_IOV_DTYPE_CHUNK", I, CHUNK, F(iov_dtype_chunk)}, {"ARMCI_ACCUMULATE_GRANULARITY", G, 1048576, F(accumulate_granularity)},
  {"ARMCI_PROGRESS_USLEEP", PU, 0, F(progress_usleep)}, {"ARMCI_STRIDED_METHOD", SM, 0, F(strided_method)}, {"ARMCI_IOV_METHOD", IM, 0, F(iov_method)}, {"ARMCI_SHR_BUF_METHOD", SH, 0, F(shr_buf_method)}, {"ARMCI_FLUSH_BARRIERS", DEP, 0, 0} };
#define NS ((int)(sizeof S/sizeof *S))
static const char *const val[] = {NULL, "1", "t", "T", "true", "TRUE", "y", "Y", "yes", "10", "0", "f", "F", "false", "n", "N", "no", "2", "-1", "", "abc", " 1", "on", "5", "129", "250", "1000000", "2500000", "2147483647", "-3", "4294967296", "2147483648", "-4294967297", "99999999999", "7abc", "+6", "00",
  "AUTO", "CONSRV", "BATCHED", "DIRECT", "IOV", "COPY", "NOGUARD", "auto", "Direct", "DIRECTX", "DIREC", "iov", "copy", "NOGUAR", " COPY"};
#define NV ((int)(sizeof val/sizeof *val))
static long clampi(const char *v) { long x = strtol(v, NULL, 10); return x > 2147483647L ? 2147483647L : x < -2147483648L ? -2147483648L : x; }
static int truth(const char *v) { return *v && strchr("tTyY1", *v) != NULL; }
void setup_parse(void)
{
  int s = CH("set", NS), v = CH("val", NV), k = CH("again", 2), ver = CH("ver", 6);
  if (ver && S[s].kind != V) mc_skip();
  if (val[v]) mc_env(S[s].name, val[v]);
  if (S[s].kind == PU) mc_env("ARMCI_PROGRESS_THREAD", "y");
  mc_opt("thread_level", MPI_THREAD_MULTIPLE); mc_opt("det_sched", 2); mc_opt("version", ver);
  mc_set(0, s); mc_set(1, v); mc_set(2, k);
  mc_label("%s=%s library version %d%s", S[s].name, val[v] ? val[v] : "(unset)", ver, k ? ", second initialisation" : "");
}
void rank_parse(int me, int n)
{
  int s = mc_get(0), prov, i, j, g; const char *v = val[mc_get(1)]; void *b[3][MAXP];
  MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov);
  for (i = 0; i <= mc_get(2); i++) {
    CHECK(ARMCI_Init_thread(MPI_THREAD_MULTIPLE) == 0, "init", "initialise failed");
    for (j = 0; j < NS; j++) {
      int got = *(int *)((char *)&ARMCII_GLOBAL_STATE + S[j].off), def = S[j].dflt, want = def; const char *u = j == s ? v : S[s].kind == PU && !strcmp(S[j].name, "ARMCI_PROGRESS_THREAD") ? "y" : NULL; long x = u ? clampi(u) : 0;
      mc_case();
      switch (S[j].kind) {
        case DEP: continue;
        case B: if (u) want = truth(u); got = !!got; break;
        case V: if (u && truth(u)) want = 1; else if (u && (!*u || strchr("0fFnN-", *u))) want = 0; else if (u) continue; got = got > 0; break;
        case I: if (u) want = x < 0 ? 0 : x; if (u && x < 0 && got == def) want = def; break;      /* an invalid value: zero or the default */
        case G: if (u) want = x < 0 ? def : x; break;
        case PU: if (u) want = x < 0 ? -x : x; if (x == -2147483648L) want = got > 0 ? got : 1; break;
        case SM: want = u && !strcmp(u, "IOV") ? ARMCII_STRIDED_IOV : u && !strcmp(u, "DIRECT") ? ARMCII_STRIDED_DIRECT : OLD ? ARMCII_STRIDED_IOV : ARMCII_STRIDED_DIRECT; break;
        case SH: want = u && !strcmp(u, "COPY") ? ARMCII_SHR_BUF_COPY : ARMCII_SHR_BUF_NOGUARD; break;
        default: want = ARMCII_IOV_BATCHED;
#ifndef OPEN_MPI
          if (u) want = !strcmp(u, "AUTO") ? ARMCII_IOV_AUTO : !strcmp(u, "CONSRV") ? ARMCII_IOV_CONSRV : !strcmp(u, "DIRECT") ? ARMCII_IOV_DIRECT : want;
#endif
      }
      CHECK(got == want, "parse", "with %s=%s the setting %s is %d, expected %d", S[s].name, v ? v : "(unset)", S[j].name, got, want);
    }
    /* the documented effect on windows: 1 for small ones, the setting otherwise */
    for (j = 0; j < 3; j++) { mc_alloc(b[j], j == 0 ? 128 : j == 1 ? 129 : 300); g = mc_counter("granularity");
      CHECK(g == (j == 0 ? 1 : ARMCII_GLOBAL_STATE.accumulate_granularity), "granularity", "window of %d bytes: hint %d", j == 0 ? 128 : j == 1 ? 129 : 300, g); }
    for (j = 0; j < 3; j++) ARMCI_Free(b[j][me]);
    if (S[s].kind == PU) { for (j = 0; j < 6*n; j++) mc_yield(); 
      CHECK(mc_get(255) == (ARMCII_GLOBAL_STATE.progress_usleep > 0 ? ARMCII_GLOBAL_STATE.progress_usleep : 0), "pause", "the progress thread pauses for %ld us, expected %d", (long)mc_get(255), ARMCII_GLOBAL_STATE.progress_usleep); }
    CHECK(ARMCI_Finalize() == 0, "finalize", "finalise failed");
  }
  MPI_Finalize();
  mc_leakcheck("parse");
}
/* ------------------------------------------------------------------ mix */
static const struct { const char *name, *v[6]; } M[] = {
  {"ARMCI_STRIDED_METHOD", {OLD ? "DIRECT" : "IOV"}}, {"ARMCI_IOV_METHOD", {"CONSRV", "DIRECT", "AUTO"}}, {"ARMCI_IOV_CHECKS", {"1"}}, {"ARMCI_IOV_BATCHED_LIMIT", {"1", "3"}}, {"ARMCI_IOV_DTYPE_CHUNK", {"0", "1", "3"}}, {"ARMCI_SHR_BUF_METHOD", {"COPY"}},
  {"ARMCI_USE_WIN_ALLOCATE", {"0"}}, {"ARMCI_MSG_BARRIER_SYNCS", {"1"}}, {"ARMCI_RMA_ATOMICITY", {"1"}}, {"ARMCI_NO_FLUSH_LOCAL", {"1"}}, {"ARMCI_RMA_NOCHECK", {"0"}}, {"ARMCI_USE_REQUEST_ATOMICS", {OLD ? "1" : "0"}}, {"ARMCI_FLUSH_REQUEST_ATOMICS", {"1"}},
  {"ARMCI_NONCOLLECTIVE_GROUPS", {"1"}}, {"ARMCI_CACHE_RANK_TRANSLATION", {"0"}}, {"ARMCI_DEBUG_ALLOC", {"1"}}, {"ARMCI_EXPLICIT_NB_PROGRESS", {"0"}}, {"ARMCI_USE_SAME_OP", {"1"}}, {"ARMCI_USE_ALLOC_SHM", {"0"}}, {"ARMCI_DISABLE_SHM_ACC", {"1"}},
  {"ARMCI_ACCUMULATE_GRANULARITY", {"0", "8"}}, {"ARMCI_RMA_ORDERING", {"none", "waw", "raw,war"}}, {"ARMCI_VERBOSE", {"1", "2"}}, {"ARMCI_SHM_LIMIT", {"1048576", "3000"}}, {"ARMCI_FLUSH_BARRIERS", {"1"}}, {"ARMCI_PROGRESS_THREAD", {"1"}},
  {"threads", {"1"}}, {"delivery", {"1", "2"}}, {"layout", {"1", "2"}}, {"schedule", {"1", "2"}} };
#define NM ((int)(sizeof M/sizeof *M))
void setup_mix(void)
{
  int w = mc_param("w", 2), i, from = 0, k, nv, thr = 0, prog = 0, inv = CH("inv", 2), on[NM], cur[NM];      /* inv: everything flipped except the chosen ones */
  for (i = 0; i < NM; i++) cur[i] = -1, on[i] = 0;
  for (k = 0; k < w && from < NM; k++) { int x = mc_choose(NM - from + 1); if (x == NM - from) break; from += x; for (nv = 0; nv < 6 && M[from].v[nv]; nv++); on[from] = 1; cur[from] = mc_choose(nv); from++; }
  for (i = 0; i < NM; i++) {
    if (inv) cur[i] = on[i] ? (cur[i] == 0 ? -1 : cur[i]) : i >= NM - 5 ? -1 : 0;
    if (cur[i] < 0) continue;
    const char *v = M[i].v[cur[i]]; mc_label("%s=%s", M[i].name, v);
    if (i < NM - 4) { mc_env(M[i].name, v); if (i == NM - 5) { prog = 1; mc_env("ARMCI_PROGRESS_USLEEP", "5"); } }
    else if (i == NM - 4) thr = 1; else mc_opt(i == NM - 3 ? "deliver" : i == NM - 2 ? "layout" : "det_sched", atoi(v));
  }
  if (prog && !thr) mc_label("(threads off: the progress thread must stay off)");
  if (thr) mc_opt("thread_level", MPI_THREAD_MULTIPLE);
  mc_set(0, thr);
}
#define NE 96                         /* elements of the main allocation of one process */
#define EXP(cond, ...) CHECK(cond, "result", __VA_ARGS__)
static void *T[MAXP], *C[MAXP], *GT[MAXP];
static int exp_at(int r, int i) { return 10000*r + i; }
void rank_mix(int me, int n)
{
  int prov, i, j, r = (me+1) % n, l = (me+n-1) % n, one = 1, two = 2, buf[NE], b2[NE], cnt[3], st[2], st2[2], got, first = 1; long lv; double dv, *dbl; armci_hdl_t h, h2; ARMCI_Group g; armci_giov_t v[2]; void *sp[4], *dp[4], *sp2[2], *dp2[2];
  if (mc_get(0)) { MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov); EXP(ARMCI_Init_thread(MPI_THREAD_MULTIPLE) == 0, "init"); } else mc_init();
again:
  mc_alloc(T, NE*4); mc_alloc(C, me == 0 ? 256 : me == 1 ? 64 : 0);
  /* 1. direct access between begin and end, then contiguous transfers in both directions */
  ARMCI_Access_begin(T[me]); for (i = 0; i < NE; i++) ((int *)T[me])[i] = exp_at(me, i); ARMCI_Access_end(T[me]);
  ARMCI_Barrier();
  memset(buf, 0, sizeof buf); ARMCI_Get(T[r], buf, NE*4, r); for (i = 0; i < NE; i++) EXP(buf[i] == exp_at(r, i), "get: element %d is %d", i, buf[i]);
  ARMCI_Barrier();
  for (i = 0; i < 8; i++) b2[i] = -1000*me - i; ARMCI_Put(b2, (int *)T[r] + 4, 32, r);
  for (i = 0; i < 8; i++) buf[i] = 7; ARMCI_Acc(ARMCI_ACC_INT, &two, buf, (int *)T[r] + 16, 32, r);
  /* 2. strided: 2-D put and accumulate, non-blocking, explicit handle and implicit */
  for (i = 0; i < 24; i++) buf[i] = 50 + 100*me + i;
  cnt[0] = 8; cnt[1] = 3; st[0] = 16; st2[0] = 12; ARMCI_INIT_HANDLE(&h);
  ARMCI_NbPutS(buf, st, (int *)T[r] + 24, st2, cnt, 1, r, &h);
  for (i = 0; i < 12; i++) b2[i] = me + i; ARMCI_INIT_HANDLE(&h2);
  cnt[0] = 4; cnt[1] = 2; cnt[2] = 2; st[0] = 8; st[1] = 24; st2[0] = 8; st2[1] = 16;
  ARMCI_NbAccS(ARMCI_ACC_INT, &one, b2, st, (int *)T[r] + 36, st2, cnt, 2, r, &h2);
  ARMCIX_Progress(); ARMCI_Wait(&h); ARMCIX_Progress(); ARMCI_Wait(&h2);
  /* 3. vectors: two descriptors, then an accumulate */
  for (i = 0; i < 8; i++) buf[i] = 900 + 10*me + i;
  for (i = 0; i < 3; i++) { sp[i] = buf + 2*i; dp[i] = (int *)T[r] + 48 + 3*i; } sp2[0] = buf+6; sp2[1] = buf+7; dp2[0] = (int *)T[r] + 62; dp2[1] = (int *)T[r] + 60;
  v[0] = (armci_giov_t){.src_ptr_array = sp, .dst_ptr_array = dp, .bytes = 8, .ptr_array_len = 3}; v[1] = (armci_giov_t){.src_ptr_array = sp2, .dst_ptr_array = dp2, .bytes = 4, .ptr_array_len = 2};
  ARMCI_PutV(v, 2, r);
  for (i = 0; i < 2; i++) { sp2[i] = buf + 3*i; dp2[i] = (int *)T[r] + 64 + 3*i; } v[0] = (armci_giov_t){.src_ptr_array = sp2, .dst_ptr_array = dp2, .bytes = 8, .ptr_array_len = 2};
  ARMCI_NbAccV(ARMCI_ACC_INT, &two, v, 1, r, NULL); ARMCI_WaitProc(r);
  ARMCI_PutValueInt(4711 + me, (int *)T[r] + 70, r); lv = ARMCI_GetValueInt((int *)T[l] + 90, l); EXP(lv == exp_at(l, 90), "value get: %ld", lv);
  ARMCI_Fence(r); ARMCI_Barrier();
  ARMCI_Get(T[me], b2, NE*4, me);
  for (i = 0; i < NE; i++) { int e = exp_at(me, i), k;
    if (i >= 4 && i < 12) e = -1000*l - (i-4);
    if (i >= 16 && i < 24) e += 14;
    if (i >= 24 && i < 24+9 && (i-24) % 3 < 2) e = 50 + 100*l + 4*((i-24)/3) + (i-24) % 3;
    if (i == 36) e += l + 0; if (i == 38) e += l + 2; if (i == 40) e += l + 6; if (i == 42) e += l + 8;
    for (k = 0; k < 3; k++) if (i == 48+3*k || i == 49+3*k) e = 900 + 10*l + 2*k + (i-48-3*k);
    if (i == 62) e = 906 + 10*l; if (i == 60) e = 907 + 10*l;
    for (k = 0; k < 2; k++) if (i == 64+3*k || i == 65+3*k) e += 2*(900 + 10*l + 3*k + (i-64-3*k));
    if (i == 70) e = 4711 + l;
    EXP(b2[i] == e, "transfers: element %d is %d, expected %d", i, b2[i], e); }
  ARMCI_Barrier();
  /* 4. strided and vector gets */
  cnt[0] = 8; cnt[1] = 4; st[0] = 16; st2[0] = 8; for (i = 0; i < NE; i++) buf[i] = -5; ARMCI_NbGetS((int *)T[r] + 72, st, buf, st2, cnt, 1, r, NULL); ARMCI_WaitAll();
  for (i = 0; i < 9; i++) EXP(buf[i] == (i < 8 ? exp_at(r, 72 + 4*(i/2) + i % 2) : -5), "strided get: element %d is %d", i, buf[i]);
  for (i = 0; i < 3; i++) { sp[i] = (int *)T[r] + 88 - 2*i; dp[i] = buf + 3*i; } v[0] = (armci_giov_t){.src_ptr_array = sp, .dst_ptr_array = dp, .bytes = 8, .ptr_array_len = 3}; ARMCI_GetV(v, 1, r);
  for (i = 0; i < 6; i++) EXP(buf[3*(i/2) + i % 2] == exp_at(r, 88 - 2*(i/2) + i % 2), "vector get: element %d is %d", i, buf[3*(i/2) + i % 2]);
  ARMCI_Barrier();
  /* 5. everybody accumulates to process 0; tickets; a mutex around an unprotected counter; a local buffer in global memory */
  if (me == 0) { ARMCI_Access_begin(C[0]); memset(C[0], 0, 256); ARMCI_Access_end(C[0]); } ARMCI_Barrier();
  dv = 1.5; { double s[2] = {me + 1, 10*(me + 1)}; ARMCI_AccS(ARMCI_ACC_DBL, &dv, s, (int[]){8}, (char *)C[0] + 16, (int[]){16}, (int[]){8, 2}, 1, 0); }
  ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &lv, C[0], 3, 0); EXP(lv >= 0 && lv < 3*n && lv % 3 == 0, "ticket %ld", lv); mc_ghost_mem[4096 + 64*first + lv/3]++; EXP(mc_ghost_mem[4096 + 64*first + lv/3] == 1, "ticket %ld twice", lv);
  if (first) EXP(ARMCI_Create_mutexes(1) == 0, "create mutexes");
  ARMCI_Lock(0, 0); ARMCI_Get((char *)C[0] + 64, &got, 4, 0); got += me + 1; ARMCI_Put(&got, (char *)C[0] + 64, 4, 0); ARMCI_Fence(0); ARMCI_Unlock(0, 0);
  ARMCI_Barrier();
  ARMCI_Get((char *)C[0], buf, 96, 0); dbl = (double *)buf;
  EXP(dbl[2] == 1.5*n*(n+1)/2 && dbl[4] == 15.0*n*(n+1)/2, "accumulated sums %g %g", dbl[2], dbl[4]); EXP(*(long *)buf == 3*n, "ticket counter %ld", *(long *)buf); EXP(buf[16] == n*(n+1)/2, "counter under a mutex: %d", buf[16]);
  ARMCI_Barrier();
  got = 100 + me; ARMCI_Rmw(ARMCI_SWAP, &got, (char *)C[n > 1] + 32, 0, n > 1); ARMCI_Barrier();
  ARMCI_Put((int *)T[me] + 80, (int *)T[r] + 92, 8, r); ARMCI_Barrier(); ARMCI_Get(T[me], buf, NE*4, me); EXP(buf[92] == exp_at(l, 80) && buf[93] == exp_at(l, 81), "put from global memory: %d %d", buf[92], buf[93]); ARMCI_Barrier();
  ARMCI_Get((int *)T[r] + 84, (int *)T[me] + 94, 8, r); ARMCI_Barrier(); ARMCI_Get(T[me], buf, NE*4, me); EXP(buf[94] == exp_at(r, 84) && buf[95] == exp_at(r, 85), "get into global memory: %d %d", buf[94], buf[95]); ARMCI_Barrier();
  /* 6. a notified put */
  ARMCI_Access_begin(T[me]); ((int *)T[me])[0] = 0; ARMCI_Access_end(T[me]); ARMCI_Barrier();
  buf[0] = 31 + me; buf[1] = 32; ARMCI_Put_flag(buf, (int *)T[r] + 1, 8, (int *)T[r], 77, r);
  do { ARMCI_Get(T[me], buf, 12, me); if (buf[0] != 77) { mc_yield(); mc_deliver_all(); } } while (buf[0] != 77); EXP(buf[1] == 31 + l && buf[2] == 32, "data behind the flag: %d %d", buf[1], buf[2]);
  /* 7. collectives and messages */
  buf[0] = me + 1; buf[1] = -me; armci_msg_igop(buf, 2, "+"); EXP(buf[0] == n*(n+1)/2 && buf[1] == -n*(n-1)/2, "sum %d %d", buf[0], buf[1]);
  dv = me ? -2.0*me : 0.5; armci_msg_dgop(&dv, 1, "absmax"); EXP(dv == (n > 1 ? 2.0*(n-1) : 0.5), "absmax %g", dv);
  lv = me == n-1 ? 99 : 0; armci_msg_brdcst(&lv, sizeof lv, n-1); EXP(lv == 99, "broadcast %ld", lv);
  if (n > 1) { if (me == 0) { buf[0] = 5; armci_msg_snd(3, buf, 4, 1); } if (me == 1) { int len, from; armci_msg_rcvany(3, buf, 8, &len); (void)from; EXP(buf[0] == 5 && len == 4, "message"); } }
  lv = me == 1 % n ? 1234 : 7; armci_msg_sel(&lv, sizeof lv, (char *)"max", ARMCI_LONG, 1); EXP(lv == (n > 1 ? 1234 : lv), "selection %ld", lv);
  armci_msg_barrier();
  /* 8. a group of the upper half of the processes */
  { int m = (n+1)/2, list[MAXP], in = me >= n - m; for (i = 0; i < m; i++) list[i] = n - m + i;
    mc_group(m, list, &g);
    if (in) { int gr, gs; ARMCI_Group_rank(&g, &gr); ARMCI_Group_size(&g, &gs); EXP(gs == m && gr == me - (n-m), "group rank %d of %d", gr, gs); 
      for (i = 0; i < m; i++) EXP(ARMCI_Absolute_id(&g, i) == n - m + i, "absolute id of %d", i);
      EXP(ARMCI_Malloc_group(GT, 16, &g) == 0, "group malloc");
      buf[0] = 70 + gr; ARMCI_Put(buf, (char *)GT[(gr+1) % m] + 4, 4, ARMCI_Absolute_id(&g, (gr+1) % m)); ARMCI_AllFence(); armci_msg_group_barrier(&g);
      ARMCI_Get((char *)GT[gr] + 4, buf, 4, me); EXP(buf[0] == 70 + (gr+m-1) % m, "group memory: %d", buf[0]);
      buf[0] = gr; armci_msg_group_igop(buf, 1, "max", &g); EXP(buf[0] == m-1, "group max: %d", buf[0]);
      EXP(ARMCI_Free_group(GT[gr], &g) == 0, "group free"); }
    if (in) ARMCI_Group_free(&g); }
  ARMCI_Barrier();
  ARMCI_Free(T[me]); ARMCI_Free(C[me]);
  if (first) { first = 0; goto again; }
  EXP(ARMCI_Destroy_mutexes() == 0, "destroy mutexes");
  mc_case();
  mc_fini();
  mc_leakcheck("mix");
}
/* ------------------------------------------------------------------ progress thread: every interleaving with the program */
void setup_progress(void)
{
  int e = CH("nbp", 2); if (!e) mc_env("ARMCI_EXPLICIT_NB_PROGRESS", "0");
  mc_env("ARMCI_PROGRESS_THREAD", "y"); if (!e || CH("nap", 2)) mc_env("ARMCI_PROGRESS_USLEEP", "3");
  mc_opt("thread_level", MPI_THREAD_MULTIPLE); mc_opt("explore_all", 1); mc_label("explicit progress %d", e);
}
void rank_progress(int me, int n)
{
  int prov, i, v, to = (me+1) % n; void *b[MAXP];
  MPI_Init_thread(NULL, NULL, MPI_THREAD_MULTIPLE, &prov);
  for (i = 0; i < mc_param("rounds", 1); i++) {
    CHECK(ARMCI_Init_thread(MPI_THREAD_MULTIPLE) == 0, "init", "initialise failed");
    mc_alloc(b, 8); v = 5 + me; ARMCI_NbPut(&v, b[to], 4, to, NULL); ARMCI_WaitAll(); ARMCI_Barrier(); ARMCI_Get(b[me], &v, 4, me); CHECK(v == 5 + (me+n-1) % n, "result", "%d", v);
    ARMCI_Barrier(); ARMCI_Free(b[me]);
    CHECK(ARMCI_Finalize() == 0, "finalize", "finalise failed");
  }
  mc_case(); MPI_Finalize(); mc_leakcheck("progress");
}
