/* Harness interface of the model checker. Each scenario provides
 *   void setup_<name>(void);          (optional) enumerates inputs; runs before the ranks start
 *   void rank_<name>(int me, int n);  body of every rank
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* nondeterministic choice in [0,n): every value is explored */
int  mc_choose(int n);
/* environment variable seen by getenv() on all ranks (setup only) */
void mc_env(const char *name, const char *value);
/* simulator options (setup only), see mcx.cc opt_names */
void mc_opt(const char *name, int value);
/* command line parameter -p name=value */
int  mc_param(const char *name, int dflt);
/* shared ghost memory, zeroed at the start of every execution, part of the state */
#define MC_GHOST 65536
extern unsigned char *mc_ghost_mem;
int64_t mc_get(int i); void mc_set(int i, int64_t v);      /* 256 shared int64 slots */
int  mc_rank(void); int mc_size(void);
/* exploration window: all ranks meet at mc_begin/mc_end; in between every schedule and delivery is explored */
void mc_begin(void); void mc_end(void);
void mc_barrier(void);                 /* harness barrier: no MPI semantics, no memory effects */
int  mc_deliver_all(void);             /* force delivery of every pending RMA operation */
/* failure of the property; key identifies the kind of failure (stable), fmt is free text */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3), noreturn));
void mc_label(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* description of the inputs (setup) */
void mc_case(void);                    /* counts one checked case inside an execution */
int  mc_tracing(void);
void mc_skip(void) __attribute__((noreturn));    /* setup/rank: this combination is not part of the space */
void mc_yield(void);                   /* plain scheduling point */
void mc_block_until(int (*pred)(void *), void *arg);  /* blocks until pred holds on this rank's memory */
/* read/write the memory of another rank at a given (global-memory) address */
void mc_peek(int rank, const void *addr, void *buf, size_t n);
void mc_poke(int rank, void *addr, const void *buf, size_t n);
/* the next MPI_Abort/exit of any rank is the expected outcome; with check!=NULL it is called (on the aborting rank) first */
void mc_expect_abort(int (*check)(void));
/* runs f(a); 1 if the calling rank would have terminated the program in it (the call is abandoned there), 0 if it returned */
int  mc_abort_code(void);            /* the code with which the call abandoned by the last mc_try ended the program */
int  mc_try(void (*f)(void *), void *a);
/* resources currently held by the calling rank */
enum { MC_COMMS, MC_WINS, MC_TYPES, MC_GROUPS, MC_INFOS, MC_OPS, MC_REQS, MC_ARENA, MC_HEAP, MC_MSGS, MC_PENDING };
int  mc_resources(int kind);
void mc_leakcheck(const char *key);    /* fails if anything of the above is held by this rank */
int  mc_addr_in_arena(const void *p);
int  mc_addr_is_live(const void *p, size_t n);   /* inside live window/Alloc_mem memory of this rank */
int  mc_blocked(int rank);             /* 2 if the main thread of the rank waits for a message, request or collective, 1 if for a window lock, 0 if it can proceed */
int  mc_counter(const char *name);     /* simulator statistics for the oracle: see mcx.cc */
/* threads inside a rank */
int  mc_thread_create(void (*fn)(void *), void *arg);
void mc_thread_join(int tid);
#ifdef __cplusplus
}
#endif
#endif
