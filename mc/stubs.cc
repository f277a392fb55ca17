// Entry points called by the code under test (runs on the rank's own stack).
#include "core.h"
extern "C" void mc_switch(void **save, void *load);
extern void *main_sp;
extern std::map<std::string,int> cmd_params; extern std::map<std::string,std::string> sim_env; extern std::string exec_label;
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");
template<class T> static inline u64 U(T x){ return (u64)(i64)x; }
template<class T> static inline u64 U(T *x){ return (u64)x; }
template<class R,class...A> static inline u64 U(R(*x)(A...)){ return (u64)x; }
static int last_abort;
static long __attribute__((noinline)) docall(int op, std::initializer_list<u64> l)
{
  Call c; memset(&c,0,sizeof c); c.op=op; int k=0; for (u64 v:l) c.a[k++]=v;
  if (!cur) {                       // called from the main stack (setup code or a user-defined reduction)
    if (main_rank<0) internal_error("MPI call %s outside of a rank", op_names[op]);
    static Thread fake; fake.rank=main_rank; fake.id=MAXT; fake.call=&c;
    if (sim_visible(fake,c)) viol("mpi","visible-call-in-op","%s called inside a reduction operator",op_names[op]);
    sim_imm(fake,c); return c.ret;
  }
  if ((op==O_ABORT||op==O_EXIT) && cur->catcher) { last_abort=(int)c.a[1]; void*j=cur->catcher; cur->catcher=nullptr; __builtin_longjmp((void**)j,1); }
  cur->call=&c;
  mc_switch(&cur->sp, main_sp);
  return c.ret;
}
extern "C" {
#include "stubs_gen.inc"
int MPI_Init(int*a,char***b){ return (int)docall(O_INIT,{U(a),U(b),0,0}); }
int MPI_Is_thread_main(int*f){ *f = cur?cur->main:1; return 0; }
double MPI_Wtime(void){ long t=docall(O_WTIME,{}); return (double)t*0.125; }
double MPI_Wtick(void){ return 0.125; }
int MPI_Get_version(int*a,int*b){ *a=3; *b=1; return 0; }
int MPI_Get_library_version(char*s,int*l){ static const char*const V[]={"mcx model checking message layer","Open MPI v4.1.6, package: Open MPI, ident: 4.1.6, repo rev: v4.1.6, Sep 30, 2023","Open MPI v5.0.9rc1, package: x","MPICH Version:      4.3.1\nMPICH Release date: x\n","Intel(R) MPI Library 2021.16 for Linux* OS\n","MPICH Version:\t3.4a2\n"}; strcpy(s,V[opt.version]); *l=(int)strlen(s); return 0; }
int MPI_Get_processor_name(char*s,int*l){ strcpy(s,"mcx"); *l=3; return 0; }
int MPI_Error_string(int e,char*s,int*l){ *l=sprintf(s,"error %d",e); return 0; }
int MPI_Error_class(int e,int*c){ *c=e; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler){ return 0; }
int MPI_Win_set_errhandler(MPI_Win,MPI_Errhandler){ return 0; }
int MPI_Comm_set_name(MPI_Comm,const char*){ return 0; }
int MPI_Comm_set_info(MPI_Comm,MPI_Info){ return 0; }
int MPI_Win_set_name(MPI_Win,const char*){ return 0; }
int MPI_Win_set_info(MPI_Win,MPI_Info){ return 0; }
int MPI_Comm_dup_with_info(MPI_Comm c,MPI_Info,MPI_Comm*n){ return MPI_Comm_dup(c,n); }
int MPI_Comm_split_type(MPI_Comm c,int,int key,MPI_Info,MPI_Comm*n){ return MPI_Comm_split(c,0,key,n); }
int MPI_Get_address(const void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a,MPI_Aint b){ return a+b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a,MPI_Aint b){ return a-b; }
int MPI_Type_size_x(MPI_Datatype t,MPI_Count*n){ int s; MPI_Type_size(t,&s); *n=s; return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ int z; MPI_Type_size(t,&z); if(!z) *n=0; else *n = s->_bytes%z? MPI_UNDEFINED : (int)(s->_bytes/z); return 0; }
int MPI_Get_elements(const MPI_Status*s,MPI_Datatype t,int*n){ return MPI_Get_count(s,t,n); }
int MPI_Pack_size(int n,MPI_Datatype t,MPI_Comm,int*r){ int z; MPI_Type_size(t,&z); *r=z*n; return 0; }
int MPI_Testsome(int n,MPI_Request*r,int*oc,int*idx,MPI_Status*s){ (void)s; *oc=0; int any=0; for(int i=0;i<n;i++){ if(r[i]==MPI_REQUEST_NULL)continue; any=1; int f; MPI_Test(&r[i],&f,MPI_STATUS_IGNORE); if(f) idx[(*oc)++]=i; } if(!any)*oc=MPI_UNDEFINED; return 0; }
int MPI_Sendrecv(const void*sb,int sc,MPI_Datatype st,int d,int stag,void*rb,int rc,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*stt){ MPI_Request q; MPI_Isend(sb,sc,st,d,stag,c,&q); MPI_Recv(rb,rc,rt,s,rtag,c,stt); return MPI_Wait(&q,MPI_STATUS_IGNORE); }

// ------------------------------------------------------------- harness interface
unsigned char *mc_ghost_mem; static_assert(MC_GHOST>=256*8,"");
i64 mc_slots[256];
int64_t mc_get(int i){ return mc_slots[i]; } void mc_set(int i,int64_t v){ mc_slots[i]=v; }
int mc_choose(int n){ if(n<=1) return 0; if(!cur) return choose(n,0); return (int)docall(O_MC_CHOOSE,{U(n)}); }
void mc_env(const char*n,const char*v){ if(v) sim_env[n]=v; else sim_env.erase(n); }
void mc_opt(const char*n,int v){ for(auto*p=opt_names;p->n;p++) if(!strcmp(p->n,n)){ opt.*(p->f)=v; return; } internal_error("unknown option %s",n); }
int mc_param(const char*n,int d){ auto it=cmd_params.find(n); return it==cmd_params.end()?d:it->second; }
int mc_rank(void){ return cur?cur->rank:0; } int mc_size(void){ return nactive; }
int mc_abort_code(void){ return last_abort; }
int __attribute__((noinline)) mc_try(void (*f)(void*),void*a){ void*jb[5]; if(__builtin_setjmp(jb)==0){ cur->catcher=jb; f(a); cur->catcher=nullptr; return 0; } return 1; }
void mc_begin(void){ docall(O_MC_BEGIN,{}); } void mc_end(void){ docall(O_MC_END,{}); } void mc_barrier(void){ docall(O_MC_BARRIER,{}); }
int mc_deliver_all(void){ if(!cur) return sim_deliver_all(); return (int)docall(O_MC_DELIVERALL,{}); }
void mc_fail(const char*key,const char*fmt,...){ char b[1024]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(!cur) viol("prop",key,"%s",b); docall(O_MC_FAIL,{U(key),U((const char*)b)}); abort(); }
void mc_label(const char*fmt,...){ char b[512]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(exec_label.size()) exec_label+=" "; exec_label+=b; }
void mc_skip(void){ if(!cur) throw Skip(); docall(O_MC_SKIP,{}); abort(); }
void mc_yield(void){ docall(O_MC_YIELD,{}); }
void mc_block_until(int(*p)(void*),void*a){ docall(O_MC_BLOCK,{U(p),U(a)}); }
void mc_peek(int r,const void*a,void*b,size_t n){ if(!cur) mread(r,a,b,n); else docall(O_MC_PEEK,{U(r),U(a),U(b),U(n)}); }
void mc_poke(int r,void*a,const void*b,size_t n){ if(!cur) mwrite(r,a,b,n); else docall(O_MC_POKE,{U(r),U(a),U(b),U(n)}); }
void mc_expect_abort(int(*c)(void)){ docall(O_MC_EXPECT,{U(c)}); }
int mc_resources(int k){ return (int)docall(O_MC_RES,{U(k)}); }
void mc_leakcheck(const char*key){ docall(O_MC_LEAK,{U(key)}); }
int mc_addr_in_arena(const void*p){ return (u64)p>=ARENA_ADDR && (u64)p<ARENA_ADDR+ARENA_SIZE; }
int mc_addr_is_live(const void*p,size_t n){ return (int)docall(O_MC_ADDR,{U(p),U(n)}); }
int mc_blocked(int r){ char b[16]; sprintf(b,"blocked%d",r); return (int)docall(O_MC_COUNTER,{U((const char*)b)}); }
int mc_counter(const char*n){ return (int)docall(O_MC_COUNTER,{U(n)}); }
int mc_thread_create(void(*f)(void*),void*a){ return (int)docall(O_MC_TCREATE,{U(f),U(a)}); }
void mc_thread_join(int t){ docall(O_MC_TJOIN,{U(t)}); }

// ------------------------------------------------------------- libc wrappers (-Wl,--wrap)
}
// heap: per-rank bump allocator at a fixed address; blocks are never reused within an execution
struct HB { u64 size; unsigned magic, freed; u64 pad; u64 red; };
static const u64 RED=0xFDFDFDFDFDFDFDFDULL;
struct RankHeap { size_t bump=0, hw=0; int live=0; }; 
RankHeap heaps[MAXR];
static int myrank(){ return cur?cur->rank:(main_rank>=0?main_rank:0); }
static u8* hbase(int r){ return (u8*)(HEAP_ADDR+(u64)r*HEAP_STRIDE); }
static void* halloc(size_t n,int fill){
  int r=myrank(); RankHeap&h=heaps[r]; size_t tot=sizeof(HB)+((n+7)/8*8)+8+16; tot=(tot+15)&~15ull;
  if (h.bump+tot>HEAP_SIZE) return nullptr;
  u8*p=hbase(r)+h.bump; h.bump+=tot; if(h.bump>h.hw) h.hw=h.bump; h.live++;
  HB*b=(HB*)p; b->size=n; b->magic=0xA110C8ED; b->freed=0; b->pad=0; b->red=RED; u8*d=(u8*)(b+1);
  memset(d,fill,n); memset(d+n,0xFD,tot-sizeof(HB)-n); rank_dirty[r]=true; race_forget((u64)d,n); return d; }
static const char* hcheck(HB*b){ if(b->magic!=0xA110C8ED) return "bad-free"; if(b->freed) return "double-free"; if(b->red!=RED) return "underrun";
  u8*d=(u8*)(b+1); for(size_t i=b->size;i<b->size+16;i++) if(d[i]!=0xFD) return "overrun"; return nullptr; }
size_t heap_block_size(void*p){ return ((HB*)p-1)->size; }
const char* heap_do_free(int r,void*p){ // main stack
  if((u8*)p<hbase(r)+sizeof(HB)||(u8*)p>=hbase(r)+heaps[r].bump) return "free of a pointer that was not allocated by this process";
  HB*b=(HB*)p-1; if(const char*e=hcheck(b)) return e; b->freed=1; heaps[r].live--; memset(p,0xDD,b->size); rank_dirty[r]=true; return nullptr; }
int heap_count(int r){ return heaps[r].live; }
const char* heap_scan(int r){ u8*p=hbase(r),*e=p+heaps[r].bump; while(p<e){ HB*b=(HB*)p; if(b->magic!=0xA110C8ED) return "heap block header overwritten"; if(b->red!=RED) return "write before a heap block";
    u8*d=(u8*)(b+1); for(size_t i=b->size;i<b->size+16;i++) if(d[i]!=0xFD) return "write after the end of a heap block";
    if(b->freed) for(size_t i=0;i<b->size;i++) if(d[i]!=0xDD) return "write to a freed heap block";
    size_t tot=sizeof(HB)+((b->size+7)/8*8)+8+16; tot=(tot+15)&~15ull; p+=tot; } return nullptr; }
static size_t nexttrim[MAXR];
void heap_trim(int r){ if(heaps[r].bump<(1u<<18)) { nexttrim[r]=0; return; } if(heaps[r].bump<nexttrim[r]) return; size_t last=0; u8*p=hbase(r),*e=p+heaps[r].bump; if(heap_scan(r)) return; /* reported at the end of the execution */ while(p<e){ HB*b=(HB*)p; size_t tot=sizeof(HB)+((b->size+7)/8*8)+8+16; tot=(tot+15)&~15ull; p+=tot; if(!b->freed) last=(size_t)(p-hbase(r)); } memset(hbase(r)+last,0,heaps[r].bump-last); heaps[r].bump=last; nexttrim[r]=last+(1u<<18); }
void heap_reset(){ for(int r=0;r<MAXR;r++){ if(heaps[r].hw) memset(hbase(r),0,heaps[r].hw); heaps[r]=RankHeap(); nexttrim[r]=0; } }
extern "C" {
static void race(void*p,size_t n,int w,void*pc){ char m[400]; if(race_access(cur->id,(u64)p,n,w,(u64)pc,m,sizeof m)) docall(O_MC_FAIL,{U((const char*)"data-race"),U((const char*)m)}); }
void* __wrap_malloc(size_t n){ return halloc(n,0xCD); }
void* __wrap_calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; return halloc(n,0); }
void __wrap_free(void*p){ if(p&&opt.races&&cur) race(p,heap_block_size(p),1,__builtin_return_address(0)); if(p) docall(O_FREE,{U(p)}); }
/* a large block at the end of the heap grows in place: memory that is never reused would not suffice for an array that grows by one element at a time */
static bool grow(void*p,size_t n){ int r=myrank(); RankHeap&h=heaps[r]; HB*b=(HB*)p-1; if((u8*)p<hbase(r)+sizeof(HB)||(u8*)p>=hbase(r)+h.bump||b->magic!=0xA110C8ED||b->freed||b->red!=RED||b->size<4096||n<b->size) return false; size_t o=sizeof(HB)+((b->size+7)/8*8)+8+16; o=(o+15)&~15ull; if((u8*)b+o!=hbase(r)+h.bump) return false;
  u8*d=(u8*)p; for(size_t i=b->size;i<b->size+16;i++) if(d[i]!=0xFD) return false; size_t tot=sizeof(HB)+((n+7)/8*8)+8+16; tot=(tot+15)&~15ull; size_t off=(u8*)b-hbase(r); if(off+tot>HEAP_SIZE) return false; memset(d+b->size,0xCD,n-b->size); memset(d+n,0xFD,tot-sizeof(HB)-n); b->size=n; h.bump=off+tot; if(h.bump>h.hw) h.hw=h.bump; rank_dirty[r]=true; return true; }
void* __wrap_realloc(void*p,size_t n){ if(!p) return halloc(n,0xCD); if(grow(p,n)) return p; void*q=halloc(n,0xCD); size_t o=heap_block_size(p); if(q) memcpy(q,p,o<n?o:n); __wrap_free(p); return q; }
char* __wrap_strdup(const char*s){ size_t n=strlen(s)+1; char*d=(char*)halloc(n,0xCD); memcpy(d,s,n); return d; }
char* __wrap_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*d=(char*)halloc(n+1,0xCD); memcpy(d,s,n); d[n]=0; return d; }
int __wrap_posix_memalign(void**o,size_t,size_t n){ *o=halloc(n,0xCD); return 0; }
void* __wrap_aligned_alloc(size_t,size_t n){ return halloc(n,0xCD); }
char* __wrap_getenv(const char*n){ auto it=sim_env.find(n); return it==sim_env.end()?nullptr:(char*)it->second.c_str(); }
void __wrap_abort(void){ docall(O_EXIT,{U(1),U(134)}); for(;;); }
void __wrap_exit(int c){ docall(O_EXIT,{U(0),U(c)}); for(;;); }
void __wrap__exit(int c){ docall(O_EXIT,{U(0),U(c)}); for(;;); }
void __wrap___assert_fail(const char*,const char*,unsigned,const char*){ docall(O_EXIT,{U(1),U(134)}); for(;;); }
int __wrap_usleep(unsigned){ docall(O_MC_YIELD,{}); return 0; }
unsigned __wrap_sleep(unsigned){ docall(O_MC_YIELD,{}); return 0; }
int __wrap_nanosleep(const struct timespec*t,struct timespec*){ mc_slots[255]=t->tv_sec<0||t->tv_nsec<0||t->tv_nsec>999999999?-1:t->tv_sec*1000000+t->tv_nsec/1000; docall(O_MC_YIELD,{}); return mc_slots[255]<0?-1:0; }
int mc_pthread_create(unsigned long*h,const void*,void*(*f)(void*),void*a){ *h=1+docall(O_MC_TCREATE,{U(f),U(a)}); return 0; }
int mc_pthread_join(unsigned long h,void**r){ if(r) *r=nullptr; docall(O_MC_TJOIN,{U(h-1)}); return 0; }
void mc_pthread_exit(void*){ thread_exit(); }
unsigned long mc_pthread_self(void){ return 1+cur->id; }
int __wrap_sched_yield(void){ docall(O_MC_YIELD,{}); return 0; }
int __wrap_pthread_mutex_lock(void*m){ return (int)docall(O_PM_LOCK,{U(m)}); }
int __wrap_pthread_mutex_trylock(void*m){ return (int)docall(O_PM_TRYLOCK,{U(m)}); }
int __wrap_pthread_mutex_unlock(void*m){ return (int)docall(O_PM_UNLOCK,{U(m)}); }
int __wrap_pthread_mutex_init(void*m,const void*){ memset(m,0,40); return 0; }
int __wrap_pthread_mutex_destroy(void*){ return 0; }
int __wrap_pthread_cond_init(void*c,const void*){ memset(c,0,48); return 0; }
int __wrap_pthread_cond_destroy(void*){ return 0; }
int __wrap_pthread_cond_wait(void*c,void*m){ long k=docall(O_PC_ENTER,{U(c),U(m)}); docall(O_PC_BLOCK,{U(c),U(k)}); docall(O_PM_LOCK,{U(m)}); return 0; }
int __wrap_pthread_cond_signal(void*c){ docall(O_PC_SIGNAL,{U(c),U(0)}); return 0; }
int __wrap_pthread_cond_broadcast(void*c){ docall(O_PC_SIGNAL,{U(c),U(1)}); return 0; }
int __wrap_pthread_rwlock_init(void*m,const void*){ memset(m,0,56); return 0; }
int __wrap_pthread_rwlock_destroy(void*){ return 0; }
int __wrap_pthread_rwlock_rdlock(void*m){ docall(O_RW_RD,{U(m)}); return 0; }
int __wrap_pthread_rwlock_wrlock(void*m){ docall(O_RW_WR,{U(m)}); return 0; }
int __wrap_pthread_rwlock_unlock(void*m){ docall(O_RW_UN,{U(m)}); return 0; }
// memory-access hooks of the -fsanitize=thread variant: scheduling points at accesses to shared process memory, and the race detector
static inline void acc(void*p,int w,size_t n,void*pc){ if(cur&&opt.races) race(p,n,w,pc); if(cur && exploring && opt.access_points){ u8*s=cur->stk; if((u8*)p>=s&&(u8*)p<s+cur->stksz) return; if(opt.access_points==2&&!((u64)p>=ARENA_ADDR&&(u64)p<ARENA_ADDR+ARENA_SIZE)) return; docall(O_MC_ACCESS,{U(p),U(w)}); } }
#define RA __builtin_return_address(0)
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} 
#define TS(n) void __tsan_read##n(void*p){acc(p,0,n,RA);} void __tsan_write##n(void*p){acc(p,1,n,RA);} void __tsan_unaligned_read##n(void*p){acc(p,0,n,RA);} void __tsan_unaligned_write##n(void*p){acc(p,1,n,RA);} void __tsan_volatile_read##n(void*p){acc(p,0,n,RA);} void __tsan_volatile_write##n(void*p){acc(p,1,n,RA);} void __tsan_read_write##n(void*p){acc(p,1,n,RA);}
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void*p,u64 n){acc(p,0,n,RA);} void __tsan_write_range(void*p,u64 n){acc(p,1,n,RA);}
void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
void* __tsan_memcpy(void*d,const void*s,u64 n){ acc((void*)s,0,n,RA); acc(d,1,n,RA); return memcpy(d,s,n);} void* __tsan_memset(void*d,int c,u64 n){acc(d,1,n,RA);return memset(d,c,n);} void* __tsan_memmove(void*d,const void*s,u64 n){acc((void*)s,0,n,RA); acc(d,1,n,RA);return memmove(d,s,n);}
static inline void at(const volatile void*p,int w){ if(cur&&opt.races){ race_acquire(cur->id,(u64)p); race_release(cur->id,(u64)p); } if(cur&&exploring&&opt.access_points) acc((void*)p,w,1,RA); }
#define AT(b,T) T __tsan_atomic##b##_load(const volatile T*p,int){ at(p,0); return *p; } void __tsan_atomic##b##_store(volatile T*p,T v,int){ at(p,1); *p=v; } \
  T __tsan_atomic##b##_exchange(volatile T*p,T v,int){ at(p,1); T o=*p; *p=v; return o; } T __tsan_atomic##b##_fetch_add(volatile T*p,T v,int){ at(p,1); T o=*p; *p=o+v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T*p,T v,int){ at(p,1); T o=*p; *p=o-v; return o; } T __tsan_atomic##b##_fetch_or(volatile T*p,T v,int){ at(p,1); T o=*p; *p=o|v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T*p,T v,int){ at(p,1); T o=*p; *p=o&v; return o; } T __tsan_atomic##b##_fetch_xor(volatile T*p,T v,int){ at(p,1); T o=*p; *p=o^v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ at(p,1); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T*p,T*e,T v,int,int){ at(p,1); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T*p,T e,T v,int,int){ at(p,1); T o=*p; if(o==e) *p=v; return o; }
AT(8,char) AT(16,short) AT(32,int) AT(64,long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
