// Core declarations of mcx: a model-checking MPI layer + explorer for ARMCI-MPI.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <array>
#include "mpi.h"
#include "mc.h"
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8;
#define MAXR 8
#define MAXT 16

enum Op { O_NONE, O_START,
#define X(n) O_##n,
#include "ops.inc"
#undef X
  O_LAST };
extern const char *op_names[];

struct Call { int op; int st; long id; u64 a[14]; long ret; };

struct Thread { void*catcher=nullptr; 
  int id=-1, rank=-1; void *sp=nullptr; u8 *stk=nullptr; size_t stksz=0; bool done=true; bool started=false;
  Call *call=nullptr; void (*fn)(void*)=nullptr; void *arg=nullptr; u8 *lowsp=nullptr; bool main=false; int joined=0;
};
void thread_exit();
void race_reset(); void race_fork(int p,int c); void race_join(int p,int c); void race_acquire(int t,u64 m); void race_release(int t,u64 m); void race_forget(u64 a,size_t n); bool race_access(int t,u64 a,size_t n,bool w,u64 pc,char*msg,size_t ml);
extern Thread thr[MAXT]; extern int nthr; extern Thread *cur; extern int nranks, nactive;

struct Viol { std::string cat,key,msg; };
struct Prune {};    // execution stops because its continuation is already covered
struct Skip {};     // combination outside of the space
struct EndExec {};  // expected abort reached
[[noreturn]] void viol(const char *cat, const char *key, const char *fmt, ...) __attribute__((format(printf,3,4)));
[[noreturn]] void internal_error(const char *fmt, ...);

// ---------------------------------------------------------------- options
struct Opts { int layout=0, arena_reuse=1, sync_send=0, deliver=0 /*DET: 0 lazy,1 eager,2 reverse*/, strict=0, red_order=0, red_seg=0,
  thread_level=0, req_limit=0, win_model=MPI_WIN_UNIFIED, det_sched=0, test_false=1, zero_alloc_null=0, alloc0=1, tsan=0, cpu_s=5, align=16, big_heap=0, bcast_sync=0, lag=1, tagub=32767, explore_all=0, free_check=1, recv_order=0, access_points=0, rma_order_strict=1, version=0, races=0, max_steps=0, world_rev=0, extra=0; };
extern Opts opt; extern const struct OptName { const char *n; int Opts::*f; } opt_names[];

// ---------------------------------------------------------------- memory
extern u8 *arena; extern size_t arena_hw; 
#define ARENA_ADDR 0x200000000000ULL
#define ARENA_SIZE (64u<<20)
#define HEAP_ADDR 0x300000000000ULL
#define HEAP_STRIDE (256ULL<<20)
#define HEAP_SIZE (192u<<20)
void load_rank(int r);
u8 *mptr(int rank, const void *p);               // host pointer to rank's byte
void mread(int rank, const void *p, void *dst, size_t n);
void mwrite(int rank, void *p, const void *src, size_t n);
void *arena_alloc(int rank, size_t n, int kind); void arena_free(int rank, void *p, int kind);
bool arena_live(int rank, const void *p, size_t n); int arena_count(int rank, int kind);
void check_memory(int rank);
void mem_dirty(int rank);
extern bool rank_dirty[MAXR];
int heap_count(int rank); const char *heap_first(int rank);

// ---------------------------------------------------------------- explorer services
extern bool exploring;                           // inside mc_begin/mc_end
int choose(int n, int kind);                     // kind 0 input,1 schedule (schedule choices are checked against the visited set)
extern long steps;
extern bool tracing; void trace(const char *fmt,...) __attribute__((format(printf,1,2)));
void call_on_main(int rank);                     // sets the rank used for MPI calls made from the main stack
extern int main_rank;
struct H { u64 h=0x9e3779b97f4a7c15ULL; void b(const void *p,size_t n); void i(u64 x){ h=mix(h^x,0xa0761d6478bd642fULL);} static u64 mix(u64 a,u64 b){ __uint128_t r=(__uint128_t)(a^0xe7037ed1a0b428dbULL)*(b|1); return (u64)r^(u64)(r>>64);} };

// ---------------------------------------------------------------- simulator
void sim_reset();
void sim_hash(H&);
bool sim_visible(Thread&,Call&);                 // false: executed immediately by sim_imm
void sim_imm(Thread&,Call&);
bool sim_enabled(Thread&,Call&);
void sim_exec(Thread&,Call&);
int  sim_ndeliver();                             // deliverable pending operations
void sim_deliver(int i);
bool sim_deliver_auto();                         // DET eager mode
void sim_free_hook(int rank,const void*p,size_t n,const char*what);
void sim_stack_hook(Thread&);
int  sim_resources(int rank,int kind); std::string sim_leaks(int rank);
int  sim_counter(int rank,const char*);
int sim_deliver_all();
std::string sim_describe(Thread&,Call&);
