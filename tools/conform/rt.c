/* Runs a scenario of mc/scen as an ordinary MPI program on a real MPI library: the harness interface of mc.h without the explorer. Used to
 * compare the simulated MPI layer (and the oracles of the scenarios) with reality, see conform.py. */
#define _GNU_SOURCE
#include <mpi.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <setjmp.h>
#include "mc.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(setup_, SCEN)(void) __attribute__((weak)); void CAT(rank_, SCEN)(int, int);
static struct sh { volatile int pid[16], cnt, gen; long cases; int64_t slot[256]; unsigned char ghost[MC_GHOST]; } *S;
unsigned char *mc_ghost_mem;
static int me, np, dry, ch[200], rad[200], nch, given; static char label[2000]; 
static char **av; static int ac;
int mc_choose(int n) { int v = nch < given ? ch[nch] : 0; if (nch >= given) ch[nch] = 0; rad[nch++] = n; return v; }
void mc_env(const char *n, const char *v) { if (!dry) setenv(n, v, 1); }
void mc_opt(const char *n, int v) { (void)n; (void)v; }
int mc_param(const char *name, int d) { int l = strlen(name); for (int i = 3; i < ac; i++) if (!strncmp(av[i], name, l) && av[i][l] == '=') return atoi(av[i]+l+1); return d; }
int64_t mc_get(int i) { __sync_synchronize(); return ((volatile int64_t *)S->slot)[i]; }
void mc_set(int i, int64_t v) { ((volatile int64_t *)S->slot)[i] = v; __sync_synchronize(); }
int mc_rank(void) { return me; } int mc_size(void) { return np; }
static void progress(void) { int i = 0, f = 0; MPI_Initialized(&i); MPI_Finalized(&f); if (i && !f) MPI_Iprobe(MPI_ANY_SOURCE, 30001, MPI_COMM_SELF, &i, MPI_STATUS_IGNORE); sched_yield(); }
void mc_barrier(void) { int g = S->gen; if (__sync_add_and_fetch(&S->cnt, 1) == np) { S->cnt = 0; __sync_synchronize(); S->gen++; } else while (S->gen == g) progress(); }
void mc_begin(void) { mc_barrier(); } void mc_end(void) { mc_barrier(); }
int mc_deliver_all(void) { progress(); usleep(200); return 0; }
void mc_fail(const char *key, const char *fmt, ...) { va_list a; va_start(a, fmt); printf("FAIL rank %d %s: ", me, key); vprintf(fmt, a); printf(" [%s]\n", label); fflush(stdout); int i = 0; MPI_Initialized(&i); if (i) MPI_Abort(MPI_COMM_WORLD, 3); _exit(3); }
void mc_label(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(label, sizeof label, fmt, a); va_end(a); }
void mc_case(void) { __sync_fetch_and_add(&S->cases, 1); } int mc_tracing(void) { return 0; }
static jmp_buf skipped;
void mc_skip(void) { if (dry) longjmp(skipped, 1); printf("SKIP\n"); fflush(stdout); _exit(0); }
void mc_yield(void) { progress(); }
void mc_block_until(int (*p)(void *), void *a) { while (!p(a)) progress(); }
void mc_peek(int r, const void *addr, void *buf, size_t n)
{
  struct iovec l = {buf, n}, q = {(void *)addr, n}; if (r == me) { memcpy(buf, addr, n); return; }
  if (n && process_vm_readv(S->pid[r], &l, 1, &q, 1, 0) != (ssize_t)n) { perror("process_vm_readv"); MPI_Abort(MPI_COMM_WORLD, 4); }
}
void mc_poke(int r, void *addr, const void *buf, size_t n)
{
  struct iovec l = {(void *)buf, n}, q = {addr, n}; if (r == me) { memcpy(addr, buf, n); return; }
  if (n && process_vm_writev(S->pid[r], &l, 1, &q, 1, 0) != (ssize_t)n) { perror("process_vm_writev"); MPI_Abort(MPI_COMM_WORLD, 4); }
}
static void unsup(const char *w) { printf("UNSUPPORTED %s\n", w); fflush(stdout); MPI_Abort(MPI_COMM_WORLD, 5); }
void mc_expect_abort(int (*c)(void)) { (void)c; unsup("expect_abort"); } int mc_try(void (*f)(void *), void *a) { (void)f; (void)a; unsup("try"); return 0; }
int mc_resources(int k) { (void)k; return 0; } void mc_leakcheck(const char *k) { (void)k; }
int mc_addr_in_arena(const void *p) { (void)p; return 1; } int mc_addr_is_live(const void *p, size_t n) { (void)p; (void)n; return 1; }
int mc_blocked(int r) { (void)r; return 0; } int mc_counter(const char *n) { (void)n; return 0; }
static struct { void (*f)(void *); void *a; pthread_t t; } th[16]; static int nth;
static void *tr(void *i) { th[(long)i].f(th[(long)i].a); return NULL; }
int mc_thread_create(void (*fn)(void *), void *arg) { th[nth].f = fn; th[nth].a = arg; pthread_create(&th[nth].t, NULL, tr, (void *)(long)nth); return nth++; }
void mc_thread_join(int t) { pthread_join(th[t].t, NULL); }
int main(int argc, char **argv)
{
  int i; char *p; av = argv; ac = argc;
  if (!strcmp(argv[1], "dry")) {      /* list every combination of the choices of the setup; argv[2] = processes */
    static struct sh z; S = &z; mc_ghost_mem = S->ghost; dry = 1; np = atoi(argv[2]);
    for (;;) {
      nch = 0;
      if (!setjmp(skipped)) { if (CAT(setup_, SCEN)) CAT(setup_, SCEN)(); for (i = 0; i < nch; i++) printf("%d,", ch[i]); printf(".\n"); }
      while (nch && ch[nch-1]+1 >= rad[nch-1]) nch--;
      if (!nch) return 0;
      ch[nch-1]++; given = nch;
    }
  }
  me = atoi(getenv("OMPI_COMM_WORLD_RANK")); np = atoi(getenv("OMPI_COMM_WORLD_SIZE"));
  i = open(argv[1], O_RDWR); S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, i, 0); if (S == MAP_FAILED) { perror("mmap"); return 4; }
  mc_ghost_mem = S->ghost;
  prctl(PR_SET_PTRACER, PR_SET_PTRACER_ANY, 0, 0, 0); S->pid[me] = getpid();
  for (p = argv[2]; *p && *p != '.'; p++) { ch[given++] = atoi(p); p = strchr(p, ','); }
  if (CAT(setup_, SCEN)) CAT(setup_, SCEN)();
  if (getenv("ARMCI_USE_WIN_ALLOCATE") && !strcmp(getenv("ARMCI_USE_WIN_ALLOCATE"), "0")) setenv("OMPI_MCA_osc", "pt2pt", 1);  /* the shared-memory component has no MPI_Win_create */
  mc_barrier();
  CAT(rank_, SCEN)(me, np);
  mc_barrier(); if (me == 0) { printf("OK %ld cases\n", S->cases); fflush(stdout); }
  return 0;
}
