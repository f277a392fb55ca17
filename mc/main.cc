#include <ucontext.h>
// Loader, scheduler and explorer.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <errno.h>
#include <atomic>
using std::vector; using std::string;

extern "C" void mc_switch(void **save, void *load);
const char* heap_do_free(int r,void*p); const char* heap_scan(int r); void heap_reset(); size_t heap_block_size(void*p);
struct RankHeap { size_t bump, hw; int live; }; extern RankHeap heaps[MAXR]; extern i64 mc_slots[256];

Thread thr[MAXT]; int nthr; Thread *cur; int nranks=2, nactive=2; void *main_sp; int main_rank=-1; Opts opt, base_opt; bool exploring; long steps; bool tracing; bool rank_dirty[MAXR];
std::map<string,int> cmd_params; std::map<string,string> sim_env, base_env; string exec_label;
#define OPTF(x) {#x,&Opts::x}
const OptName opt_names[]={ OPTF(layout),OPTF(arena_reuse),OPTF(sync_send),OPTF(deliver),OPTF(strict),OPTF(red_order),OPTF(red_seg),OPTF(thread_level),OPTF(req_limit),OPTF(win_model),OPTF(det_sched),OPTF(test_false),OPTF(zero_alloc_null),OPTF(alloc0),OPTF(tsan),OPTF(cpu_s),OPTF(align),OPTF(bcast_sync),OPTF(lag),OPTF(tagub),OPTF(explore_all),OPTF(free_check),OPTF(recv_order),OPTF(access_points),OPTF(version),OPTF(races),OPTF(max_steps),OPTF(world_rev),OPTF(extra),{nullptr,nullptr} };

void viol(const char*cat,const char*key,const char*fmt,...){ char b[2048]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); throw Viol{cat,key,b}; }
static int errfd=2;
void internal_error(const char*fmt,...){ char b[2048]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); dprintf(errfd,"mcx: internal error: %s\n",b); _exit(3); }
void trace(const char*fmt,...){ if(!tracing) return; char b[1024]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b-1,fmt,ap); va_end(ap); if(n>(int)sizeof b-2) n=sizeof b-2; b[n++]='\n'; if(write(errfd,b,n)<0){} }
void call_on_main(int r){ main_rank=r; }
void H::b(const void*p,size_t n){ const u8*c=(const u8*)p; u64 x=h^(n*0x9fb21c651e98df25ULL); while(n>=16){ u64 a,d; memcpy(&a,c,8); memcpy(&d,c+8,8); x=mix(x^a,d^0x589965cc75374cc3ULL); c+=16; n-=16; } u64 a=0,d=0; if(n>=8){ memcpy(&a,c,8); c+=8; n-=8; } if(n) memcpy(&d,c,n); h=mix(x^a,d^0x1d8e4e27c47d124fULL); }

// ---------------------------------------------------------------- arena
u8*arena; size_t arena_hw; static u8*back[MAXR]; static int loaded=-1; struct Blk { size_t off,size; int kind; bool live,huge=false; }; static vector<Blk> blks[MAXR]; static size_t abump[MAXR];
void load_rank(int r){ if(loaded==r) return; if(loaded>=0) memcpy(back[loaded],arena,arena_hw); memcpy(arena,back[r],arena_hw); loaded=r; }
u8*mptr(int rank,const void*p){ u64 a=(u64)p; if(a>=ARENA_ADDR&&a<ARENA_ADDR+ARENA_SIZE&&rank!=loaded) return back[rank]+(a-ARENA_ADDR); return (u8*)p; }
void mread(int rank,const void*p,void*d,size_t n){ memcpy(d,mptr(rank,p),n); }
void mwrite(int rank,void*p,const void*s,size_t n){ memcpy(mptr(rank,p),s,n); rank_dirty[rank]=true; }
void mem_dirty(int r){ rank_dirty[r]=true; }
static void grow_hw(size_t n){ n=(n+63)&~63ull; if(n<=arena_hw) return; if(n>ARENA_SIZE) internal_error("arena exhausted"); size_t o=arena_hw; memset(arena+o,0xDD,n-o); for(int r=0;r<MAXR;r++) memset(back[r]+o,0xDD,n-o); arena_hw=n; }
static size_t abase(int r){ return opt.layout==0||opt.layout==3?64:opt.layout==1?64+48*r:64+4096*r; }
// Blocks of 256 MB and more live outside of the arena, at addresses of their own, as untouched pages: they are neither filled nor hashed, and unmapped when released.
static size_t hbump[MAXR];
static void*huge_alloc(int r,size_t n,int kind){ size_t len=(n+4095)&~4095ull; u8*p=(u8*)0x600000000000ULL+((u64)r<<37)+hbump[r]; hbump[r]+=len+4096; if(hbump[r]>1ull<<37) internal_error("huge blocks exhausted"); if(mmap(p,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED) internal_error("no address space for a huge block: %s (%p, %zu)",strerror(errno),(void*)p,len); Blk b{(size_t)(p-arena),n,kind,true,true}; blks[r].push_back(b); rank_dirty[r]=true; return p; }
static void huge_drop(Blk&b){ munmap(arena+b.off,(b.size+4095)&~4095ull); b.live=false; }
void*arena_alloc(int r,size_t n,int kind){ if(n>=256u<<20) return huge_alloc(r,n,kind); const bool tight=opt.layout==3; const size_t rz=tight?0:16; size_t sz=n?n:1, al=opt.align>16?opt.align:tight?8:16; size_t off; auto&v=blks[r]; if(opt.arena_reuse){ off=abase(r); for(bool again=true;again;){ again=false; for(auto&b:v) if(b.live&&off<b.off+std::max<size_t>(b.size,1)+rz&&b.off<off+sz+rz){ off=(b.off+std::max<size_t>(b.size,1)+rz+al-1)/al*al; again=true; } } } else { off=std::max(abase(r),abump[r]); } 
  abump[r]=std::max(abump[r],(off+sz+rz+al-1)/al*al); grow_hw(off+sz+32); v.push_back({off,n,kind,true}); u8*p=mptr(r,arena+off); memset(p,0xCD,sz); if(!n) *p=0xDD; rank_dirty[r]=true; return arena+off; }
static bool poison(int r,size_t lo,size_t hi){ for(size_t i=lo;i<hi;i++) if(*mptr(r,arena+i)!=0xDD) return false; return true; }
void arena_free(int r,void*p,int kind){ for(auto&b:blks[r]) if(b.live&&arena+b.off==(u8*)p){ if(b.kind!=kind) viol("mpi","free-mem","rank %d: memory released with the wrong function",r); sim_free_hook(r,p,b.size,kind==1?"MPI_Win_free":"MPI_Free_mem"); if(b.huge){ huge_drop(b); rank_dirty[r]=true; return; } if(opt.layout!=3&&(!poison(r,b.off+b.size,b.off+b.size+16)||!poison(r,b.off-16,b.off))) viol("heap","arena-overrun","rank %d: bytes next to a memory block of the message layer were overwritten",r); memset(mptr(r,p),0xDD,b.size?b.size:1); b.live=false; rank_dirty[r]=true; return; }
  viol("mpi","free-mem","rank %d: MPI_Free_mem of %p which is not an allocated block",r,p); }
bool arena_live(int r,const void*p,size_t n){ for(auto&b:blks[r]) if(b.live&&(u8*)p>=arena+b.off&&(u8*)p+n<=arena+b.off+b.size) return true; return false; }
int arena_count(int r,int kind){ int n=0; for(auto&b:blks[r]) if(b.live&&(!kind||b.kind==kind)) n++; return n; }
void check_memory(int r){ if(!opt.free_check) return; if(const char*e=heap_scan(r)) viol("heap","heap-corruption","rank %d: %s",r,e); size_t pos=0; vector<Blk> l; for(auto&b:blks[r]) if(b.live&&b.size&&!b.huge) l.push_back(b); std::sort(l.begin(),l.end(),[](const Blk&a,const Blk&b){return a.off<b.off;}); l.push_back({arena_hw,0,0,true}); for(auto&b:l){ if(!poison(r,pos,b.off)) viol("heap","arena-overrun","rank %d: bytes outside of any allocated global-memory block were overwritten",r); pos=b.off+b.size; } }

// ---------------------------------------------------------------- shared state between workers
#define MAXCH 6000
struct Item { int len, base; uint16_t ch[MAXCH]; uint16_t n[MAXCH]; };
struct VRec { char cat[24],key[96],msg[1500],label[512]; int len; uint16_t ch[MAXCH]; u8 kind[MAXCH]; std::atomic<long> count; bool known; };
struct WStat { u64 cases, execs, complete, steps, newsteps, pruned, skipped, choices, maxdepth, states, limited; int curlen; uint16_t cur[MAXCH]; char sample[700]; char sample0[700]; };
#define NITEM 64
struct Shared { std::atomic<int> lock; std::atomic<int> idle; int nitems; std::atomic<int> stop; std::atomic<int> nviol; std::atomic<u64> vcount; std::atomic<int> vfull; std::atomic<int> timeout; Item items[NITEM]; VRec v[12]; WStat w[64]; };
static Shared*S; static std::atomic<u64>*vis; static u64 vmask; static WStat*me; static int nworkers=1;
static void slock(){ int z=0; int spin=0; while(!S->lock.compare_exchange_weak(z,1)){ z=0; if(++spin>1000) usleep(50); } } static void sunlock(){ S->lock=0; }
static bool visit(u64 h){ if(!h) h=1; u64 i=h&vmask; for(int k=0;k<64;k++,i=(i+1)&vmask){ u64 e=vis[i].load(std::memory_order_relaxed); if(e==h) return false; if(e==0){ u64 z=0; if(vis[i].compare_exchange_strong(z,h)){ me->states++; return true; } if(z==h) return false; } } S->vfull=1; return true; }

// ---------------------------------------------------------------- choices
struct Node { uint16_t n, c; u8 kind; }; static vector<Node> nodes; static size_t pos_, base_; static vector<uint16_t> prefix; static int devbudget=-1, devleft; static bool statemode=true;
int choose(int n,int kind){ if(n<1) internal_error("choose(%d)",n); if(n==1) return 0; if(pos_>=MAXCH) internal_error("too many choices"); int c;
  if(pos_<prefix.size()){ c=prefix[pos_]; if(pos_<nodes.size()){ if(nodes[pos_].n!=n) internal_error("nondeterministic execution: choice %zu has %d options, had %d [%s]",pos_,n,nodes[pos_].n,exec_label.c_str()); } else nodes.push_back({(uint16_t)n,(uint16_t)c,(u8)kind}); if(c>=n) internal_error("nondeterministic execution: choice %zu has only %d options [%s]",pos_,n,exec_label.c_str()); }
  else { c=0; int nn=n; if(kind==1&&devbudget>=0&&devleft<=0){ nn=1; me->limited++; } nodes.push_back({(uint16_t)nn,0,(u8)kind}); }
  if(kind==1&&c>0) devleft--; pos_++; return c; }

// ---------------------------------------------------------------- ranks: shared objects, stacks
struct Seg { u8*a; size_t n; vector<u8> snap; }; struct Lib { void*h; vector<Seg> segs; void(*fn)(int,int); void(*setup)(void); void(*outer)(void); }; static Lib libs[MAXR]; static string scen;
static int dl_cb(struct dl_phdr_info*i,size_t,void*d){ auto*p=(std::pair<u64,Lib*>*)d; if(i->dlpi_addr!=p->first) return 0; for(int k=0;k<i->dlpi_phnum;k++){ auto&ph=i->dlpi_phdr[k]; if(ph.p_type==PT_LOAD&&(ph.p_flags&PF_W)) p->second->segs.push_back({(u8*)(i->dlpi_addr+ph.p_vaddr),ph.p_memsz,{}}); } return 0; }
static void load_libs(const char*so){ FILE*f=fopen(so,"rb"); if(!f){ dprintf(2,"mcx: cannot open %s\n",so); _exit(3);} vector<u8> d; fseek(f,0,SEEK_END); d.resize(ftell(f)); rewind(f); if(fread(d.data(),1,d.size(),f)!=d.size()) _exit(3); fclose(f);
  for(int r=0;r<nranks;r++){ int fd=memfd_create("rank",0); if(fd<0||write(fd,d.data(),d.size())!=(ssize_t)d.size()){ dprintf(2,"mcx: memfd failed\n"); _exit(3);} char p[64]; sprintf(p,"/proc/self/fd/%d",fd); libs[r].h=dlopen(p,RTLD_NOW|RTLD_LOCAL); if(!libs[r].h){ dprintf(2,"mcx: dlopen: %s\n",dlerror()); _exit(3);} 
    struct link_map*lm; dlinfo(libs[r].h,RTLD_DI_LINKMAP,&lm); std::pair<u64,Lib*> q{lm->l_addr,&libs[r]}; dl_iterate_phdr(dl_cb,&q); libs[r].fn=(void(*)(int,int))dlsym(libs[r].h,("rank_"+scen).c_str()); libs[r].setup=(void(*)())dlsym(libs[r].h,("setup_"+scen).c_str()); libs[r].outer=(void(*)())dlsym(libs[r].h,"mc_outsider"); if(!libs[r].fn||!libs[r].outer){ dprintf(2,"mcx: no scenario %s\n",scen.c_str()); _exit(3);} for(auto&s:libs[r].segs) s.snap.assign(s.a,s.a+s.n); } }
#define STK (512<<10)
static u8*stkmem;
static void thread_main(){ Thread*t=cur; if(t->main){ if(t->rank<nactive) libs[t->rank].fn(t->rank,nactive); else libs[t->rank].outer(); } else t->fn(t->arg); t->done=true; t->call=nullptr; mc_switch(&t->sp,main_sp); abort(); }
void thread_exit(){ Thread*t=cur; t->done=true; t->call=nullptr; mc_switch(&t->sp,main_sp); abort(); }
static void make_thread(int i,int rank){ Thread&t=thr[i]; t.id=i; t.rank=rank; t.stk=stkmem+(size_t)i*(STK+8192)+8192; t.stksz=STK; if(t.lowsp){ u8*lo=t.lowsp-24576; if(lo<t.stk) lo=t.stk; memset(lo,0,t.stk+STK-lo); } t.lowsp=t.stk+STK; u64*s=(u64*)(t.stk+STK-64); s[0]=0; *--s=0; *--s=(u64)thread_main; for(int k=0;k<6;k++) *--s=0; t.sp=s; t.done=false; t.started=false; t.call=nullptr; t.catcher=nullptr; t.joined=0; }
static void run(Thread&t){ load_rank(t.rank); rank_dirty[t.rank]=true; cur=&t; t.started=true; mc_switch(&main_sp,t.sp); cur=nullptr; if((u8*)t.sp<t.lowsp) t.lowsp=(u8*)t.sp; }
static string schedlog; static bool want_log=true;
static int create_thread(Thread&p,Call&c){ if(nthr>=MAXT) internal_error("too many threads"); int i=nthr++; make_thread(i,p.rank); thr[i].main=false; thr[i].fn=(void(*)(void*))c.a[0]; thr[i].arg=(void*)c.a[1]; race_fork(p.id,i); return i; }
static volatile u64 progress;
static void stepthread(Thread&t){ // run until the next visible call
  for(;;){ run(t); if(t.done) return; Call&c=*t.call; steps++; progress++; if(opt.strict) sim_stack_hook(t);
    if(c.op==O_FREE){ void*p=(void*)c.a[0]; u8*hb=(u8*)(HEAP_ADDR+(u64)t.rank*HEAP_STRIDE); if((u8*)p>=hb&&(u8*)p<hb+HEAP_SIZE) sim_free_hook(t.rank,p,heap_block_size(p),"free"); if(const char*e=heap_do_free(t.rank,p)) viol("heap","bad-free","rank %d: %s (%p)",t.rank,e,p); continue; }
    if(c.op==O_MC_TCREATE){ c.ret=create_thread(t,c); continue; }
    if(sim_visible(t,c)){ if(tracing) trace("  rank %d.%d reaches %s",t.rank,t.id,op_names[c.op]); return; }
    if(tracing&&getenv("MCX_IMM")) trace("    imm %s",op_names[c.op]); sim_imm(t,c); } }
static u64 rank_hash[MAXR];
static u64 state_hash(){ H h; for(int r=0;r<nranks;r++){ if(rank_dirty[r]){ H q; for(auto&s:libs[r].segs) q.b(s.a,s.n); q.b((void*)(HEAP_ADDR+(u64)r*HEAP_STRIDE),heaps[r].bump); for(auto&b:blks[r]) if(b.live){ q.i(b.off); q.i(b.size); if(!b.huge) q.b(mptr(r,arena+b.off),b.size);} for(int i=0;i<nthr;i++) if(thr[i].rank==r){ Thread&t=thr[i]; q.i(t.done*2+t.started); if(!t.done){ u8*top=t.stk+STK; q.b(t.sp,top-(u8*)t.sp); q.i((u64)t.sp); } } rank_hash[r]=q.h; rank_dirty[r]=false; } h.i(rank_hash[r]); }
  h.b(mc_ghost_mem,MC_GHOST>4096?4096:MC_GHOST); h.b(mc_slots,sizeof mc_slots); sim_hash(h); if(devbudget>=0) h.i(devleft); return h.h; }
static double deadline; static sigjmp_buf jb; static volatile int sigcode; static volatile u64 exec_no; static u64 tick_exec; static int ticks;
static volatile bool in_exec;
static void*sigaddr,*sigpc;
static void onsig(int s,siginfo_t*si,void*uc){ sigaddr=si->si_addr; sigpc=(void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];  if(s==SIGVTALRM){ if(!in_exec) return; if(deadline>0){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); if(S->stop||t.tv_sec+t.tv_nsec*1e-9>deadline){ if(!S->stop) S->timeout=1; S->stop=1; siglongjmp(jb,SIGALRM); } } if(tick_exec!=exec_no+progress){ tick_exec=exec_no+progress; ticks=0; return; } if(++ticks<opt.cpu_s) return; ticks=0; } else if(!in_exec){ dprintf(errfd,"mcx: signal %d at %p outside of an execution\n",s,si->si_addr); _exit(3); } sigcode=s; siglongjmp(jb,s); }
static long max_steps=400000;
static void reset_exec(){ for(int r=0;r<nranks;r++){ for(auto&s:libs[r].segs) memcpy(s.a,s.snap.data(),s.n); rank_dirty[r]=true; for(auto&b:blks[r]) if(b.live&&b.huge) huge_drop(b); hbump[r]=0; blks[r].clear(); abump[r]=0; } loaded=-1; size_t o=arena_hw; if(o){ memset(arena,0xDD,o); for(int r=0;r<nranks;r++) memset(back[r],0xDD,o); } arena_hw=0; heap_reset(); opt=base_opt; sim_env=base_env; exec_label.clear(); memset(mc_ghost_mem,0,MC_GHOST); memset(mc_slots,0,sizeof mc_slots); exploring=false; cur=nullptr; main_rank=-1; steps=0; sim_reset(); race_reset(); nthr=nranks; for(int i=0;i<nranks;i++){ make_thread(i,i); thr[i].main=true; } if(want_log) schedlog.clear(); }
static void loginfo(const char*fmt,...){ if(!want_log||schedlog.size()>900) return; char b[64]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); schedlog+=b; }
enum Res { RES_OK, RES_PRUNE, RES_SKIP }; 
static Res execute(){ // one execution under the current prefix; throws Viol
  pos_=0; devleft=devbudget; reset_exec(); load_rank(0);
  if(libs[0].setup){ main_rank=0; libs[0].setup(); main_rank=-1; if(opt.explore_all) exploring=true; }
  grow_hw(64);
  int lastt=0, rot=0; vector<int> en; 
  for(;;){ // gather the options
    en.clear(); bool alldone=true; 
    for(int k=0;k<nthr;k++){ int i=(lastt+k)%nthr; if(!exploring&&opt.det_sched==1) i=nthr-1-k; if(!exploring&&(rot||opt.det_sched==2)) i=(lastt+1+k)%nthr; Thread&t=thr[i]; if(t.done) continue; alldone=false; if(!t.started||sim_enabled(t,*t.call)){ en.push_back(i); if(!exploring) break; } }
    if(alldone) break;
    int nd = exploring? sim_ndeliver() : 0;
    int no=(int)en.size()+nd, pick=0;
    if(no==0){ if(!exploring&&sim_ndeliver()){ sim_deliver(0); continue; } string s; for(int i=0;i<nthr;i++) if(!thr[i].done){ char b[80]; snprintf(b,sizeof b," rank %d in %s;",thr[i].rank,thr[i].call?op_names[thr[i].call->op]:"?"); s+=b; } viol("deadlock","deadlock","no process can make progress:%s",s.c_str()); }
    if(no>1){ if(pos_>=prefix.size()&&exploring){ if(statemode&&!visit(state_hash())) return RES_PRUNE; }
      pick=choose(no,1); }
    if(steps>(opt.max_steps?opt.max_steps:max_steps)) viol("hang","livelock","no termination within %ld steps",opt.max_steps?(long)opt.max_steps:max_steps);
    if(pick<(int)en.size()){ Thread&t=thr[en[pick]]; lastt=en[pick]; rot=t.started&&(t.call->op==O_MC_YIELD||t.call->op==O_IPROBE); me->steps++; if(pos_>=prefix.size()) me->newsteps++; if(!t.started){ stepthread(t); continue; } Call&c=*t.call; if(exploring) loginfo(" %d:%s",t.id,op_names[c.op]); if(tracing) trace("step: rank %d.%d %s",t.rank,t.id,op_names[c.op]); 
      sim_exec(t,c); if((c.op==O_SEND||c.op==O_SSEND)&&c.st==1) continue; /* rendezvous send: posted, waits for its match */ stepthread(t); }
    else { me->steps++; if(pos_>=prefix.size()) me->newsteps++; loginfo(" D%d",pick-(int)en.size()); sim_deliver(pick-(int)en.size()); } }
  for(int r=0;r<nranks;r++) check_memory(r);
  return RES_OK; }
static vector<string> known_keys;
static void record(const Viol&v){ slock(); string key=v.cat+":"+v.key; for(int i=0;i<S->nviol;i++) if(key==string(S->v[i].cat)+":"+S->v[i].key){ S->v[i].count++; sunlock(); return; }
  if(S->nviol<12){ VRec&r=S->v[S->nviol]; snprintf(r.cat,sizeof r.cat,"%s",v.cat.c_str()); snprintf(r.key,sizeof r.key,"%s",v.key.c_str()); snprintf(r.msg,sizeof r.msg,"%s",v.msg.c_str()); snprintf(r.label,sizeof r.label,"%s",exec_label.c_str()); r.len=(int)nodes.size(); for(size_t i=0;i<nodes.size()&&i<MAXCH;i++){ r.ch[i]=i<prefix.size()?prefix[i]:nodes[i].c; r.kind[i]=nodes[i].kind; } r.count=1; r.known=std::find(known_keys.begin(),known_keys.end(),key)!=known_keys.end(); if(!r.known) S->stop=1; S->nviol++; } else S->stop=1; sunlock(); }
static bool run_one(Viol*out=nullptr){ // returns whether a violation happened
  exec_no++; me->execs++; me->curlen=(int)std::min<size_t>(prefix.size(),MAXCH); memcpy(me->cur,prefix.data(),me->curlen*2); Viol v; bool bad=false;
  in_exec=true; int sg=sigsetjmp(jb,1);
  if(sg==0){ try { Res r=execute(); if(r==RES_PRUNE) me->pruned++; else { me->complete++; if(want_log){ string s="["+exec_label+"]"+schedlog; char*d=me->complete==1?me->sample0:me->sample; snprintf(d,690,"%s",s.c_str()); } } } catch(Viol&x){ v=x; bad=true; } catch(Skip&){ me->skipped++; } catch(Prune&){ me->pruned++; } catch(EndExec&){ me->complete++; if(want_log){ string s="["+exec_label+"] (terminated as expected)"; snprintf(me->sample,690,"%s",s.c_str()); } } }
  else if(sg==SIGALRM){ in_exec=false; cur=nullptr; me->pruned++; } else { in_exec=false; cur=nullptr; bad=true; if(sg==SIGVTALRM) v={"hang","no-progress","the library made no progress (endless loop)"}; else { char b[200]; snprintf(b,sizeof b,"signal %d (%s) while executing",sg,strsignal(sg)); if(tracing){ Dl_info di; fprintf(stderr,"fault address %p, instruction %p (%s)\n",sigaddr,sigpc,dladdr(sigpc,&di)&&di.dli_sname?di.dli_sname:"?"); } v={"crash","signal",b}; } }
  in_exec=false; cur=nullptr; if(nodes.size()>me->maxdepth) me->maxdepth=nodes.size(); me->choices+=nodes.size(); if(bad){ if(out) *out=v; else record(v); } return bad; }
void heap_trim(int r);
extern "C" void mc_case(void){ if(me) me->cases++; steps=0; if(cur){ rank_dirty[cur->rank]=true; heap_trim(cur->rank); } }
extern "C" int mc_tracing(void){ return tracing; }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void donate(){ slock(); { for(size_t i=base_;i<nodes.size()&&S->nitems<nworkers;i++) if(nodes[i].c+1<nodes[i].n){ Item&it=S->items[S->nitems++]; it.len=(int)i+1; it.base=(int)i; for(size_t k=0;k<=i;k++){ it.ch[k]=nodes[k].c; it.n[k]=nodes[k].n; } it.ch[i]=nodes[i].c+1; nodes[i].n=nodes[i].c+1; } } sunlock(); }
static void explore_item(){ // DFS below the given prefix; nodes before base_ are fixed
  for(;;){ nodes.resize(std::min(nodes.size(),prefix.size())); 
    vector<Node> keep=nodes; // node limits may be narrower than the option count (donated work): hide them during the run
    nodes.clear(); run_one(); for(size_t i=0;i<keep.size()&&i<nodes.size();i++) nodes[i]=keep[i];
    if(S->stop) return; if((exec_no&15)==0&&now()>deadline){ S->timeout=1; S->stop=1; return; }
    for(size_t i=0;i<prefix.size()&&i<nodes.size();i++) nodes[i].c=prefix[i];
    if(S->idle.load()>0&&nworkers>1&&S->nitems<nworkers) donate();
    int i=(int)nodes.size()-1; while(i>=(int)base_&&nodes[i].c+1>=nodes[i].n) i--; if(i<(int)base_) return;
    nodes.resize(i+1); nodes[i].c++; prefix.resize(i+1); for(int k=0;k<=i;k++) prefix[k]=nodes[k].c; } }
static void worker(int w){ me=&S->w[w]; nodes.reserve(MAXCH); prefix.reserve(MAXCH); bool first=(w==0); for(;;){ if(first){ prefix.clear(); nodes.clear(); base_=0; first=false; } else { bool got=false; S->idle++; while(!S->stop){ if(S->nitems>0){ slock(); if(S->nitems>0){ Item&it=S->items[0]; prefix.assign(it.ch,it.ch+it.len); nodes.clear(); for(int k=0;k<it.len;k++) nodes.push_back({it.n[k],it.ch[k],0}); base_=it.base; for(int k=1;k<S->nitems;k++) { S->items[k-1].len=S->items[k].len; S->items[k-1].base=S->items[k].base; memcpy(S->items[k-1].ch,S->items[k].ch,S->items[k].len*2); memcpy(S->items[k-1].n,S->items[k].n,S->items[k].len*2); } S->nitems--; S->idle--; got=true; sunlock(); break; } sunlock(); } if(S->idle==nworkers&&S->nitems==0) break; usleep(100); } if(!got) return; }
    if(S->stop) return; explore_item(); } }
static void install_signals(){ static u8 alt[65536]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGVTALRM}) sigaction(s,&sa,nullptr); struct itimerval it={{1,0},{1,0}}; setitimer(ITIMER_VIRTUAL,&it,nullptr); }
static string jesc(const char*s){ string o; for(;*s;s++){ if(*s=='"'||*s=='\\'){ o+='\\'; o+=*s; } else if((u8)*s<32) o+=' '; else o+=*s; } return o; }
int main(int argc,char**argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)&&!getenv("MCX_REEXEC")){ if(personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)>=0){ setenv("MCX_REEXEC","1",1); execv("/proc/self/exe",argv); } }
  const char*so=nullptr; double maxs=600; int vbits=22; string replay_choices; bool replay=false; string optstr;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&](){ if(i+1>=argc){ fprintf(stderr,"missing argument\n"); exit(3);} return string(argv[++i]); };
    if(a=="--lib"){ so=strdup(nx().c_str()); } else if(a=="--scen") scen=nx(); else if(a=="-n") nranks=atoi(nx().c_str()); else if(a=="-j") nworkers=atoi(nx().c_str()); else if(a=="--max-s") maxs=atof(nx().c_str()); else if(a=="--vbits") vbits=atoi(nx().c_str()); else if(a=="--dev") devbudget=atoi(nx().c_str()); else if(a=="--nostate") statemode=false; else if(a=="--max-steps") max_steps=atol(nx().c_str());
    else if(a=="-o"||a=="-p"||a=="-e"){ string s=nx(); size_t q=s.find('='); string k=s.substr(0,q),v=s.substr(q+1); if(a=="-e") base_env[k]=v; else if(a=="-p") cmd_params[k]=atoi(v.c_str()); else { bool ok=false; for(auto*p=opt_names;p->n;p++) if(k==p->n){ base_opt.*(p->f)=atoi(v.c_str()); ok=true; } if(!ok){ fprintf(stderr,"bad option %s\n",k.c_str()); exit(3);} } }
    else if(a=="--known") known_keys.push_back(nx()); else if(a=="--replay"){ replay=true; replay_choices=nx(); } else { fprintf(stderr,"bad argument %s\n",a.c_str()); exit(3);} }
  nactive=nranks; nranks+=base_opt.extra; if(nranks>MAXR) internal_error("too many processes");
  opt=base_opt; prctl(PR_SET_PDEATHSIG,SIGKILL);
  mc_ghost_mem=(u8*)mmap((void*)0x400000000000ULL,MC_GHOST,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0);
  arena=(u8*)mmap((void*)ARENA_ADDR,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); for(int r=0;r<MAXR;r++) back[r]=(u8*)mmap(nullptr,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  for(int r=0;r<MAXR;r++) if(mmap((void*)(HEAP_ADDR+(u64)r*HEAP_STRIDE),HEAP_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED) internal_error("heap map");
  stkmem=(u8*)mmap((void*)0x500000000000ULL,(size_t)MAXT*(STK+8192)+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); for(int i=0;i<MAXT;i++) mprotect(stkmem+(size_t)i*(STK+8192),8192,PROT_NONE);
  S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); vmask=(1ull<<vbits)-1; vis=(std::atomic<u64>*)mmap(nullptr,(vmask+1)*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(arena==MAP_FAILED||(void*)S==MAP_FAILED||(void*)vis==MAP_FAILED) internal_error("mmap failed");
  load_libs(so); double t0=now(); deadline=t0+maxs; errfd=dup(2);
  if(replay){ me=&S->w[0]; statemode=false; install_signals(); tracing=getenv("MCX_QUIET")==nullptr; want_log=true; const char*p=replay_choices.c_str(); while(*p){ prefix.push_back((uint16_t)strtol(p,(char**)&p,10)); if(*p==',') p++; } Viol v; bool bad=run_one(&v); fflush(stdout); if(bad) printf("REPLAY VIOLATION %s:%s %s [%s]\n",v.cat.c_str(),v.key.c_str(),v.msg.c_str(),exec_label.c_str()); else printf("REPLAY OK [%s]\n",exec_label.c_str()); return bad?1:0; }
  vector<pid_t> kids; fflush(stdout); for(int w=0;w<nworkers;w++){ pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); int nul=open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2); install_signals(); worker(w); _exit(0); } kids.push_back(p); }
  bool broken=false; for(size_t k=0;k<kids.size();k++){ int st; pid_t p=wait(&st); if(p<0) break; int w=(int)(std::find(kids.begin(),kids.end(),p)-kids.begin()); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ fprintf(stderr,"mcx: worker %d died (status %x)\n",w,st); S->stop=1; if(WIFSIGNALED(st)&&WTERMSIG(st)!=SIGKILL&&WTERMSIG(st)!=SIGTERM&&S->nviol<12){ slock(); VRec&r=S->v[S->nviol++]; strcpy(r.cat,"crash"); strcpy(r.key,"worker"); snprintf(r.msg,sizeof r.msg,"the process running the library died with signal %d",WTERMSIG(st)); r.len=S->w[w].curlen; memcpy(r.ch,S->w[w].cur,r.len*2); r.count=1; sunlock(); } else broken=true; S->lock=0; } }
  u64 cs=0,ex=0,co=0,stp=0,ns=0,pr=0,sk=0,ch=0,md=0,stt=0,lim=0; for(int w=0;w<nworkers;w++){ WStat&x=S->w[w]; cs+=x.cases; ex+=x.execs; co+=x.complete; stp+=x.steps; ns+=x.newsteps; pr+=x.pruned; sk+=x.skipped; ch+=x.choices; md=std::max(md,x.maxdepth); stt+=x.states; lim+=x.limited; }
  printf("{\"scenario\":\"%s\",\"n\":%d,\"cases\":%lu,\"executions\":%lu,\"complete\":%lu,\"pruned\":%lu,\"skipped\":%lu,\"steps\":%lu,\"new_steps\":%lu,\"states\":%lu,\"choices\":%lu,\"max_depth\":%lu,\"exhaustive\":%s,\"limited\":%lu,\"timeout\":%s,\"wall_s\":%.2f,\"samples\":[",scen.c_str(),nactive,cs,ex,co,pr,sk,stp,ns,stt,ch,md,(S->timeout||S->stop)?"false":"true",lim,S->timeout?"true":"false",now()-t0);
  int ns2=0; for(int w=0;w<nworkers&&ns2<3;w++) for(char*q:{S->w[w].sample0,S->w[w].sample}) if(q[0]&&ns2<3) printf("%s\"%s\"",ns2++?",":"",jesc(q).c_str());
  printf("],\"violations\":["); for(int i=0;i<S->nviol;i++){ VRec&r=S->v[i]; printf("%s{\"cat\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"label\":\"%s\",\"known\":%s,\"count\":%ld,\"choices\":\"",i?",":"",r.cat,jesc(r.key).c_str(),jesc(r.msg).c_str(),jesc(r.label).c_str(),r.known?"true":"false",r.count.load()); for(int k=0;k<r.len;k++) printf("%s%d",k?",":"",r.ch[k]); printf("\"}"); } printf("]}\n"); fflush(stdout);
  return broken?3:0; }
