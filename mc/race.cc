// Data races between threads of one process on the library's own memory (the -fsanitize=thread variant, option races): happens-before through
// thread creation and joining, pthread mutexes, read-write locks and atomics. Since every schedule at the granularity of these operations and of
// the MPI calls is explored, two accesses that can be adjacent in some execution are unordered in an explored one.
#include "core.h"
#include <unordered_map>
#include <dlfcn.h>
namespace {
typedef uint32_t u32;
struct VC { u32 c[MAXT]; VC(){ memset(c,0,sizeof c); } void join(const VC&o){ for(int i=0;i<MAXT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
struct Cell { int8_t wt=-1; u32 wc=0; u32 r[MAXT]={}; u64 wpc=0; };
VC vc[MAXT]; std::unordered_map<u64,VC> locks; std::unordered_map<u64,Cell> cells;
const char* where(u64 pc,char*b,size_t n){ Dl_info d; if(dladdr((void*)pc,&d)&&d.dli_sname) snprintf(b,n,"%s+0x%lx",d.dli_sname,(long)(pc-(u64)d.dli_saddr)); else snprintf(b,n,"%s","?"); return b; }
bool multi(int rank){ for(int i=nranks;i<nthr;i++) if(thr[i].rank==rank&&!thr[i].joined) return true; return false; }
}
void race_reset(){ for(auto&v:vc) v=VC(); for(int i=0;i<MAXT;i++) vc[i].c[i]=1; locks.clear(); cells.clear(); }
void race_fork(int p,int c){ if(!opt.races) return; vc[c]=vc[p]; vc[c].c[c]=1; vc[p].c[p]++; }
void race_join(int p,int c){ if(!opt.races) return; vc[p].join(vc[c]); }
void race_acquire(int t,u64 m){ if(opt.races){ auto i=locks.find(m); if(i!=locks.end()) vc[t].join(i->second); } }
void race_release(int t,u64 m){ if(opt.races){ locks[m].join(vc[t]); vc[t].c[t]++; } }
void race_forget(u64 a,size_t n){ if(opt.races&&!cells.empty()) for(size_t i=0;i<n;i++) cells.erase(a+i); }
bool race_access(int t,u64 a,size_t n,bool w,u64 pc,char*msg,size_t ml){ // true: unordered with an earlier access
  if(!multi(thr[t].rank)) return false;
  for(int i=0;i<nthr;i++) if(a>=(u64)thr[i].stk&&a<(u64)thr[i].stk+thr[i].stksz) return false;
  if(a>=ARENA_ADDR&&a<ARENA_ADDR+ARENA_SIZE) return false;
  char b1[120],b2[120];
  for(size_t i=0;i<n;i++){ Cell&c=cells[a+i];
    if(c.wt>=0&&c.wt!=t&&c.wc>vc[t].c[c.wt]){ snprintf(msg,ml,"%s at %s is concurrent with a write of another thread of the process at %s",w?"a write":"a read",where(pc,b1,sizeof b1),where(c.wpc,b2,sizeof b2)); return true; }
    if(w) for(int u=0;u<MAXT;u++) if(u!=t&&c.r[u]>vc[t].c[u]){ snprintf(msg,ml,"a write at %s is concurrent with a read of another thread of the process",where(pc,b1,sizeof b1)); return true; }
    if(w){ c.wt=(int8_t)t; c.wc=vc[t].c[t]; c.wpc=pc; } else c.r[t]=vc[t].c[t]; }
  return false; }
void race_hash(H&h){ if(!opt.races) return; for(int i=0;i<nthr;i++) h.b(vc[i].c,sizeof(u32)*nthr); u64 s=0;
  for(auto&p:locks){ H q; q.i(p.first); q.b(p.second.c,sizeof p.second.c); s+=q.h; } for(auto&p:cells){ H q; q.i(p.first); q.i(p.second.wt); q.i(p.second.wc); q.b(p.second.r,sizeof p.second.r); s+=q.h; } h.i(s); }
