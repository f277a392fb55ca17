/* C16: every sequence of initialise, finalise, (leaked) allocation, use and unfinished transfers, many times in one process. */
#include "common.h"
#define CH(name, k) (mc_param(name, -1) >= 0 ? mc_param(name, -1) : mc_choose(k))
enum { I_INIT, I_ARGS, I_THREAD, I_COMM, I_TCOMM, FIN, ALLOC, GALLOC, USE, NBPUT, NOPS };
static const char *const opn[] = {"Init", "Init_args", "Init_thread", "Init_mpi_comm", "Init_thread_comm", "Finalize", "malloc", "group malloc", "use", "nbput"};
void setup_init(void)
{
  int c = CH("cache", 2), nc = CH("noncoll", 2), wa = CH("winalloc", 2), d = CH("del", 2), cm = CH("comm", 3);
  if (c) mc_env("ARMCI_CACHE_RANK_TRANSLATION", "0");
  if (nc) mc_env("ARMCI_NONCOLLECTIVE_GROUPS", "1");
  if (wa) mc_env("ARMCI_USE_WIN_ALLOCATE", "0");
  mc_opt("deliver", d);
  mc_set(100, cm); mc_set(101, nc); mc_set(102, c + 2*(nc + 2*(wa + 2*(d + 2*cm))));
  mc_label("cache %d noncollective %d winalloc %d delivery %d comm %d", !c, nc, wa, d, cm);
}
#define ML 6
static struct { void *t[MAXP]; int grp; unsigned char v; } A[ML]; static int nl, W, me_; static ARMCI_Group grp[ML]; static int ng;
static int kinds[] = {MC_COMMS, MC_WINS, MC_TYPES, MC_GROUPS, MC_INFOS, MC_OPS, MC_REQS, MC_ARENA, MC_HEAP};
static const char *const kn[] = {"communicators", "windows", "datatypes", "groups", "info objects", "operators", "requests", "window memory blocks", "heap blocks"};
void rank_init(int me, int n)
{
  int K = mc_param("K", 5), every = mc_param("every", 1), d, i, r, rc, dig[8], base[9], lvl = mc_param("mthread", 0) ? MPI_THREAD_MULTIPLE : MPI_THREAD_SINGLE, prov; long s, tot = 1, cnt = 0; MPI_Comm comm; char *av[2] = {"prog", NULL}, **avp = av; int ac = 1; char seq[200];
  MPI_Init_thread(NULL, NULL, lvl, &prov);
  CHECK(!ARMCI_Initialized(), "initialized", "initialised before the first initialise");
  /* communicator of the *_comm forms: world, reversed, all but process 0 */
  switch (mc_get(100)) { case 0: MPI_Comm_dup(MPI_COMM_WORLD, &comm); break; case 1: MPI_Comm_split(MPI_COMM_WORLD, 0, n-me, &comm); break; default: MPI_Comm_split(MPI_COMM_WORLD, me ? 1 : MPI_UNDEFINED, me, &comm); break; }
  for (i = 0; i < 9; i++) base[i] = mc_resources(kinds[i]);
  for (i = 0; i < K; i++) tot *= NOPS;
  for (s = 0; s < tot; s++) {
    long x = s; int depth = 0, ok = 1, al = 0, taking = 1, sp = 0, fins = 0;
    for (d = 0; d < K; d++) { dig[d] = x % NOPS; x /= NOPS; if (dig[d] <= I_TCOMM) depth++; else if (dig[d] == FIN) { if (depth) { if (!--depth) al = 0; } else if (++fins > 1) ok = 0; } else if (!depth || (dig[d] >= USE && !al)) ok = 0; else if (dig[d] == ALLOC || dig[d] == GALLOC) al++; }
    if (!ok || dig[0] > FIN) continue;
    if (cnt++ % every != mc_get(102)*7 % every) continue;
    mc_case();
    seq[0] = 0; for (d = 0; d < K; d++) sp += snprintf(seq+sp, sizeof seq - sp, "%s ", opn[dig[d]]);
    depth = 0; nl = ng = 0;
    for (d = 0; d <= 2*K + 1; d++) {
      int op = d < K ? dig[d] : depth || d > 2*K ? FIN : -1;     /* balance what is left; one more finalise than needed */
      if (op < 0) continue;
      if (depth == 0 && op <= I_TCOMM) taking = !(op >= I_COMM && comm == MPI_COMM_NULL);
      if (op <= I_TCOMM) {
        if (taking) {
          switch (op) { case I_INIT: rc = ARMCI_Init(); break; case I_ARGS: rc = ARMCI_Init_args(&ac, &avp); break; case I_THREAD: rc = ARMCI_Init_thread(lvl); break;
            case I_COMM: rc = ARMCI_Init_mpi_comm(comm); break; default: rc = ARMCI_Init_thread_comm(lvl, comm); break; }
          CHECK(rc == 0, "init", "%s: step %d: initialise returned %d", seq, d, rc);
          if (!depth) { MPI_Comm c = op >= I_COMM ? comm : MPI_COMM_WORLD; MPI_Comm_size(c, &W); MPI_Comm_rank(c, &me_); }
          CHECK(armci_msg_me() == me_ && armci_msg_nproc() == W, "world", "%s: step %d: process %d of %d, expected %d of %d", seq, d, armci_msg_me(), armci_msg_nproc(), me_, W);
        }
        depth++;
      } else if (op == FIN) {
        if (taking) { rc = ARMCI_Finalize(); CHECK(rc == 0, "finalize", "%s: step %d: finalise returned %d", seq, d, rc); }
        if (depth && !--depth) { nl = 0;
          int gc = taking ? ng * (mc_get(101) ? 2 : 1) : 0, gh = taking && !(mc_get(102) & 1) ? 2*ng : 0;      /* the program's own groups */
          for (i = 0; i < 9; i++) CHECK(mc_resources(kinds[i]) == base[i] + (i == 0 ? gc : i == 8 ? gh : 0), "release", "%s: step %d: after the last finalise the library holds %d %s more than before the first initialise", seq, d, mc_resources(kinds[i]) - base[i] - (i == 0 ? gc : i == 8 ? gh : 0), kn[i]);
          if (taking) while (ng) { ng--; MPI_Comm_free(&grp[ng].comm); if (mc_get(101)) MPI_Comm_free(&grp[ng].noncoll_pgroup_comm); free(grp[ng].abs_to_grp); free(grp[ng].grp_to_abs); }
          ng = 0; }
      } else if (taking) {
        if (op == ALLOC || op == GALLOC) { ARMCI_Group *g = NULL; int l[MAXP];
          if (op == GALLOC) { g = &grp[ng++]; for (i = 0; i < W; i++) l[i] = i; ARMCI_Group_create(W, l, g); }
          rc = g ? ARMCI_Malloc_group(A[nl].t, 8 + 4*nl, g) : ARMCI_Malloc(A[nl].t, nl ? 24 : me_ ? 16 : 8);
          CHECK(rc == 0, "malloc", "%s: step %d: allocation returned %d", seq, d, rc);
          A[nl].v = (unsigned char)(1 + 16*nl + me_); memset(A[nl].t[me_], A[nl].v, 8); nl++; ARMCI_Barrier(); }
        if (op == USE) { for (i = 0; i < nl; i++) for (r = 0; r < W; r++) { unsigned char b[8]; ARMCI_Get(A[i].t[r], b, 8, r); CHECK(b[7] == (A[i].v & 0xf0) + 1 + r - (((A[i].v & 0xf0) + 1 + r) & 0x100), "use", "%s: step %d: allocation %d of process %d holds %02x", seq, d, i, r, b[7]); } ARMCI_Barrier(); }
        if (op == NBPUT) { int to = (me_+1) % W; unsigned char b[4]; memset(b, 1 + 16*(nl-1) + to, 4); ARMCI_NbPut(b, A[nl-1].t[to], 4, to, NULL); ARMCI_WaitProc(to); }
      }
      CHECK(!!ARMCI_Initialized() == (depth > 0 && taking), "initialized", "%s: step %d: initialised is %d with %d initialise calls open", seq, d, ARMCI_Initialized(), depth);
    }
    mc_barrier();
  }
  if (comm != MPI_COMM_NULL) MPI_Comm_free(&comm);
  MPI_Finalize();
  mc_leakcheck("init");
}
