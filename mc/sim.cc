// The simulated MPI library: semantics of every call the code under test makes, with every freedom the MPI standard leaves
// to an implementation exposed as an explicit choice (delivery time and order of one-sided operations, matching of
// receives, time of local completion, lock grant order, reduction order and segmentation).
#include "core.h"
using std::shared_ptr; using std::make_shared; using std::vector; using std::string;
#define ARG(i) (c.a[i])
#define INT(i) ((int)(i64)c.a[i])
#define LNG(i) ((long)(i64)c.a[i])
#define PTR(T,i) ((T*)c.a[i])

const char *op_names[] = { "NONE","START",
#define X(n) #n,
#include "ops.inc"
#undef X
  "LAST" };

// ---------------------------------------------------------------- basic types
struct Basic { int size; char cls; const char *name; };
static const Basic basics[] = { {0,'?',"null"},{1,'b',"BYTE"},{1,'t',"CHAR"},{1,'i',"SIGNED_CHAR"},{1,'u',"UNSIGNED_CHAR"},{2,'i',"SHORT"},{2,'u',"USHORT"},{4,'i',"INT"},{4,'u',"UNSIGNED"},
 {8,'i',"LONG"},{8,'u',"ULONG"},{8,'i',"LONG_LONG"},{8,'u',"ULONG_LONG"},{4,'f',"FLOAT"},{8,'f',"DOUBLE"},{16,'f',"LONG_DOUBLE"},{8,'i',"AINT"},{1,'i',"INT8"},{2,'i',"INT16"},{4,'i',"INT32"},{8,'i',"INT64"},
 {1,'u',"UINT8"},{2,'u',"UINT16"},{4,'u',"UINT32"},{8,'u',"UINT64"},{8,'c',"CFLOAT_COMPLEX"},{16,'c',"CDOUBLE_COMPLEX"},{1,'l',"BOOL"},{8,'p',"2INT"},{16,'p',"DOUBLE_INT"},{16,'p',"LONG_INT"},{8,'p',"FLOAT_INT"},{8,'i',"COUNT"},{8,'i',"OFFSET"} };
static const int NB = sizeof basics/sizeof basics[0];
static int basic_of(int h){ int i=h&0xffffff; return i<NB?i:-1; }
struct Run { i64 off,len; int basic; };
struct Type { bool builtin=false, committed=false; int basic=-1; i64 size=0, lb=0, ub=0; vector<Run> runs; i64 tlb()const{ if(runs.empty())return 0; i64 m=runs[0].off; for(auto&r:runs) m=std::min(m,r.off); return m;} i64 tub()const{ if(runs.empty())return 0; i64 m=runs[0].off+runs[0].len; for(auto&r:runs) m=std::max(m,r.off+r.len); return m;} i64 ext()const{return ub-lb;} i64 ctlb=0, ctub=0; int ovl=-1; };
typedef shared_ptr<Type> TypeP;
// does a datatype name a byte twice (within one element, or between consecutive elements)?
static bool self_overlap(Type&t,i64 cnt){ if(t.builtin||cnt<=0||!t.size) return false; if(t.ovl<0){ bool sorted=true; t.ovl=0; for(size_t i=1;i<t.runs.size()&&sorted;i++) if(t.runs[i].off<t.runs[i-1].off+t.runs[i-1].len) sorted=false; if(!sorted){ vector<std::pair<i64,i64>> v; for(auto&r:t.runs) if(r.len) v.push_back({r.off,r.len}); std::sort(v.begin(),v.end()); for(size_t i=1;i<v.size();i++) if(v[i].first<v[i-1].first+v[i-1].second){ t.ovl=1; break; } } }
  return t.ovl||(cnt>1&&t.runs.size()==1&&t.ext()<t.size); }
static void tfinish(Type&t){ t.ctlb=t.tlb(); t.ctub=t.tub(); t.size=0; int b=-2; for(auto&r:t.runs){ t.size+=r.len; b = b==-2?r.basic:(b==r.basic?b:-1);} t.basic=b==-2?1:b; }
static void tadd(Type&t,i64 off,const Type&o,i64 cnt){ for(i64 k=0;k<cnt;k++) for(auto&r:o.runs){ i64 f=off+k*o.ext()+r.off; if(t.runs.size()){ Run&l=t.runs.back(); if(l.basic==r.basic&&l.off+l.len==f){ l.len+=r.len; continue; } } t.runs.push_back({f,r.len,r.basic}); } }
static TypeP builtin_types[64];

// ---------------------------------------------------------------- objects
struct Coll; struct Msg { int src,tag; vector<u8> data; vector<int> sig; shared_ptr<Coll> special; bool sync=false; shared_ptr<bool> matched; };
struct Comm { int id; vector<int> mem, rem; bool inter=false; int seq[MAXR]={0}; std::map<int,shared_ptr<Coll>> colls; std::deque<shared_ptr<Msg>> q[MAXR]; bool freed[MAXR]={0};
  const vector<int>& local(int wr)const{ if(inter && std::find(rem.begin(),rem.end(),wr)!=rem.end()) return rem; return mem; }
  const vector<int>& remote(int wr)const{ if(!inter) return mem; return &local(wr)==&mem?rem:mem; }
  int rank(int wr)const{ auto&l=local(wr); auto it=std::find(l.begin(),l.end(),wr); return it==l.end()?-1:(int)(it-l.begin()); } };
typedef shared_ptr<Comm> CommP;
struct Group { vector<int> mem; }; typedef shared_ptr<Group> GroupP;
struct Info { std::map<string,string> kv; }; typedef shared_ptr<Info> InfoP;
struct UOp { MPI_User_function *fn; bool commute; }; typedef shared_ptr<UOp> UOpP;
struct PendOp; typedef shared_ptr<PendOp> PendP;
struct Win { string granul; int id; CommP comm; u64 base[MAXR]; i64 size[MAXR]; int du[MAXR]; int flavor; bool lockall[MAXR]={0}; u8 lk[MAXR][MAXR]; bool freed[MAXR]={0}; vector<PendP> pend; bool o_rar=true,o_raw=true,o_war=true,o_waw=true; bool same_op=false; i64 acc_max[MAXR]; bool acc_contig[MAXR]={0}; int fence[MAXR]={0}; void *pub[MAXR]; i64 mu_base[MAXR]; };
typedef shared_ptr<Win> WinP;
struct PendOp { int id,kind; WinP w; int org,tgt; u64 oaddr=0; i64 oc=0; TypeP ot; u64 raddr=0; i64 rc=0; TypeP rt; u64 taddr=0; i64 tc=0; TypeP tt; int op=0; u64 caddr=0; bool captured=false,localdone=false,reqop=false; vector<u8> data,snap; int st=0; vector<u8> newdata; bool gone=false; int othr=0;
  i64 tlo()const{ return (i64)taddr+tt->ctlb; } i64 thi()const{ return (i64)taddr+(tc-1)*tt->ext()+tt->ctub; }
  bool accclass()const{ return kind>=O_ACC&&kind<=O_CAS; } bool isget()const{ return kind!=O_PUT&&kind!=O_ACC; } bool writes()const{ return kind==O_PUT||kind==O_ACC||kind==O_CAS||((kind==O_GACC||kind==O_FOP)&&op!=MPI_NO_OP); } bool reads()const{ return kind!=O_PUT&&kind!=O_ACC; } };
struct Req { int kind; /*0 rma 1 send 2 recv 3 coll*/ PendP op; shared_ptr<bool> matched; u64 buf=0; i64 cnt=0; TypeP t; int src=0,tag=0; CommP comm; int tests=0; shared_ptr<Coll> coll; bool flushed=false; };
typedef shared_ptr<Req> ReqP;
struct Coll { int kind,seq; CommP comm; int narr=0,nleft=0; vector<int> all; vector<bool> arr,took; vector<Call> cl; vector<vector<u8>> data; vector<vector<int>> ints; vector<CommP> newc; WinP win; bool paired=false; vector<GroupP> grp; vector<TypeP> ty;
  int idx(int wr){ for(size_t i=0;i<all.size();i++) if(all[i]==wr) return (int)i; return -1; } bool full(){ return narr==(int)all.size(); } };
typedef shared_ptr<Coll> CollP;

template<class T> struct Tab { vector<shared_ptr<T>> v; int first=1; int add(shared_ptr<T> p){ for(size_t i=first;i<v.size();i++) if(!v[i]){ v[i]=p; return (int)i; } if((int)v.size()<first) v.resize(first); v.push_back(p); return (int)v.size()-1; }
  T* get(int i){ return i>=0&&i<(int)v.size()?v[i].get():nullptr; } shared_ptr<T> sp(int i){ return i>=0&&i<(int)v.size()?v[i]:nullptr; } int live(){ int n=0; for(size_t i=first;i<v.size();i++) if(v[i]) n++; return n; } };
struct RankS { int granul=-1; Tab<Comm> comms; Tab<Group> groups; Tab<Win> wins; Tab<Type> types; Tab<UOp> ops; Tab<Info> infos; Tab<Req> reqs; bool inited=false, finalized=false; long wtime=0; int (*expect)(void)=nullptr; bool expect_set=false; int nreq=0,maxreq=0; long cnt[O_LAST]={0}; };
static RankS R[MAXR];
static vector<shared_ptr<bool>> sendw; static vector<shared_ptr<Win>> allwins; static vector<std::weak_ptr<Comm>> allcomms; static int next_id; static int aborted;
// exploration barrier state
static int bar_count[3]; static int bar_gen[3];

#define MPIERR(key,...) viol("mpi",key,__VA_ARGS__)
static CommP comm(Thread&t,int h){ RankS&r=R[t.rank]; if((h>>24)!=1) MPIERR("bad-comm","rank %d: invalid communicator handle 0x%x in %s",t.rank,h,op_names[t.call->op]); CommP p=r.comms.sp(h&0xffffff); if(!p) MPIERR("bad-comm","rank %d: %s communicator in %s",t.rank,h==MPI_COMM_NULL?"null":"freed or invalid",op_names[t.call->op]); return p; }
static WinP win(Thread&t,int h){ RankS&r=R[t.rank]; if((h>>24)!=3) MPIERR("bad-win","rank %d: invalid window handle in %s",t.rank,op_names[t.call->op]); WinP p=r.wins.sp(h&0xffffff); if(!p) MPIERR("bad-win","rank %d: null or freed window in %s",t.rank,op_names[t.call->op]); return p; }
static GroupP group(Thread&t,int h){ RankS&r=R[t.rank]; GroupP p=(h>>24)==2?r.groups.sp(h&0xffffff):nullptr; if(!p) MPIERR("bad-group","rank %d: null or freed group in %s",t.rank,op_names[t.call->op]); return p; }
static TypeP type_any(Thread&t,int h){ if((h>>24)!=4) MPIERR("bad-type","rank %d: invalid datatype handle 0x%x in %s",t.rank,h,op_names[t.call->op]); int b=basic_of(h); if(b>0) return builtin_types[b]; TypeP p=R[t.rank].types.sp((h&0xffffff)); if(!p) MPIERR("bad-type","rank %d: null or freed datatype in %s",t.rank,op_names[t.call->op]); return p; }
static TypeP type(Thread&t,int h){ TypeP p=type_any(t,h); if(!p->builtin&&!p->committed) MPIERR("uncommitted-type","rank %d: datatype used in %s was not committed",t.rank,op_names[t.call->op]); return p; }
static int addcomm(int r,CommP c){ return 0x01000000|R[r].comms.add(c); }
static int addgroup(int r,vector<int> m){ auto g=make_shared<Group>(); g->mem=m; return 0x02000000|R[r].groups.add(g); }
static int addtype(int r,TypeP t){ R[r].types.first=NB; return 0x04000000|R[r].types.add(t); }
static CommP newcomm(){ auto c=make_shared<Comm>(); c->id=next_id++; allcomms.push_back(c); return c; }
static void chkcount(Thread&t,i64 n){ if(n<0) MPIERR("neg-count","rank %d: negative count %ld in %s",t.rank,(long)n,op_names[t.call->op]); }

void sim_reset(){
  for(auto&w:allwins){ auto v=w->pend; w->pend.clear(); } for(auto&wc:allcomms) if(auto c=wc.lock()){ c->colls.clear(); for(auto&q:c->q) q.clear(); }
  for(int r=0;r<MAXR;r++){ R[r].reqs.v.clear(); }
  allwins.clear(); allcomms.clear(); sendw.clear(); next_id=1; aborted=0; memset(bar_count,0,sizeof bar_count); memset(bar_gen,0,sizeof bar_gen);
  if(!builtin_types[1]) for(int i=1;i<NB;i++){ auto t=make_shared<Type>(); t->builtin=t->committed=true; t->basic=i; t->size=basics[i].size; t->lb=0; t->ub=t->size; t->runs.push_back({0,t->size,i}); t->ctlb=0; t->ctub=t->size; builtin_types[i]=t; }
  for(int r=0;r<MAXR;r++){ R[r]=RankS(); R[r].ops.first=1; }
  CommP w=newcomm(); for(int r=0;r<nranks;r++) w->mem.push_back(opt.world_rev?nranks-1-r:r);
  for(int r=0;r<nranks;r++){ CommP s=newcomm(); s->mem={r}; R[r].comms.v={nullptr,w,s}; R[r].comms.first=3; R[r].groups.v={nullptr,make_shared<Group>()}; R[r].groups.first=2; R[r].ops.first=32; R[r].types.first=NB; }
}

// ---------------------------------------------------------------- data movement
static void pack(int rank,u64 base,i64 count,const Type&t,vector<u8>&out){ out.resize((size_t)(count*t.size)); u8*o=out.data(); for(i64 k=0;k<count;k++) for(auto&r:t.runs){ mread(rank,(void*)(base+k*t.ext()+r.off),o,(size_t)r.len); o+=r.len; } }
static void unpack(int rank,u64 base,i64 count,const Type&t,const u8*in,i64 n){ const u8*e=in+n; for(i64 k=0;k<count&&in<e;k++) for(auto&r:t.runs){ i64 l=std::min<i64>(r.len,e-in); if(l<=0) break; mwrite(rank,(void*)(base+k*t.ext()+r.off),in,(size_t)l); in+=l; } }
static bool is_int(char c){ return c=='i'||c=='u'; }
static bool op_valid(int op,int basic){ if(basic<=0) return false; char k=basics[basic].cls; switch(op){ case MPI_MAX: case MPI_MIN: return is_int(k)||k=='f'; case MPI_SUM: case MPI_PROD: return is_int(k)||k=='f'||k=='c'; case MPI_LAND: case MPI_LOR: case MPI_LXOR: return is_int(k)||k=='l'; case MPI_BAND: case MPI_BOR: case MPI_BXOR: return is_int(k)||k=='b'; case MPI_MINLOC: case MPI_MAXLOC: return k=='p'; case MPI_REPLACE: case MPI_NO_OP: return true; } return false; }
template<class T> static void ap_i(int op,T*io,const T*in){ T a=*in,b=*io; switch(op){ case MPI_MAX:*io=a>b?a:b;break; case MPI_MIN:*io=a<b?a:b;break; case MPI_SUM:*io=(T)((u64)a+(u64)b);break; case MPI_PROD:*io=(T)((u64)a*(u64)b);break; case MPI_LAND:*io=a&&b;break; case MPI_LOR:*io=a||b;break; case MPI_LXOR:*io=(!a)!=(!b);break; case MPI_BAND:*io=a&b;break; case MPI_BOR:*io=a|b;break; case MPI_BXOR:*io=a^b;break; } }
template<class T> static void ap_f(int op,T*io,const T*in){ T a=*in,b=*io; switch(op){ case MPI_MAX:*io=a>b?a:b;break; case MPI_MIN:*io=a<b?a:b;break; case MPI_SUM:*io=a+b;break; case MPI_PROD:*io=a*b;break; } }
template<class T> static void ap_c(int op,T*io,const T*in){ if(op==MPI_SUM){ io[0]+=in[0]; io[1]+=in[1]; } else { T r=io[0]*in[0]-io[1]*in[1], i=io[0]*in[1]+io[1]*in[0]; io[0]=r; io[1]=i; } }
static void op_apply(int op,int basic,void*io,const void*in){
  if(op==MPI_NO_OP) return; int sz=basics[basic].size; if(op==MPI_REPLACE){ memcpy(io,in,sz); return; }
  union { u8 b[16]; i64 i; long double d; } x,y; memcpy(x.b,io,sz); memcpy(y.b,in,sz); char k=basics[basic].cls;
  if(k=='i'){ switch(sz){case 1:ap_i(op,(int8_t*)x.b,(int8_t*)y.b);break;case 2:ap_i(op,(int16_t*)x.b,(int16_t*)y.b);break;case 4:ap_i(op,(int32_t*)x.b,(int32_t*)y.b);break;default:ap_i(op,(i64*)x.b,(i64*)y.b);} }
  else if(k=='u'||k=='b'||k=='l'){ switch(sz){case 1:ap_i(op,(u8*)x.b,(u8*)y.b);break;case 2:ap_i(op,(uint16_t*)x.b,(uint16_t*)y.b);break;case 4:ap_i(op,(uint32_t*)x.b,(uint32_t*)y.b);break;default:ap_i(op,(u64*)x.b,(u64*)y.b);} }
  else if(k=='f'){ if(sz==4) ap_f(op,(float*)x.b,(float*)y.b); else if(sz==8) ap_f(op,(double*)x.b,(double*)y.b); else ap_f(op,(long double*)x.b,(long double*)y.b); }
  else if(k=='c'){ if(sz==8) ap_c(op,(float*)x.b,(float*)y.b); else ap_c(op,(double*)x.b,(double*)y.b); }
  else if(k=='p'){ double a,b; int ia,ib; auto ld=[&](u8*p,double&v,int&i){ switch(basic){case 0x1c:v=*(int*)p;i=*(int*)(p+4);break;case 0x1d:v=*(double*)p;i=*(int*)(p+8);break;case 0x1e:v=(double)*(long*)p;i=*(int*)(p+8);break;default:v=*(float*)p;i=*(int*)(p+4);} }; ld(x.b,b,ib); ld(y.b,a,ia); bool take = op==MPI_MAXLOC? (a>b||(a==b&&ia<ib)) : (a<b||(a==b&&ia<ib)); if(take) memcpy(x.b,y.b,16); }
  memcpy(io,x.b,sz); }

// ---------------------------------------------------------------- one-sided operations
static bool overlap(const PendOp&a,const PendOp&b){ if(a.tgt!=b.tgt||a.w!=b.w) return false; if(a.tc==0||b.tc==0) return false; if(!(a.tlo()<b.thi()&&b.tlo()<a.thi())) return false;
  if(a.tt->runs.size()*a.tc+b.tt->runs.size()*b.tc>4000) return true;
  for(i64 i=0;i<a.tc;i++) for(auto&r:a.tt->runs){ i64 lo=(i64)a.taddr+i*a.tt->ext()+r.off,hi=lo+r.len; for(i64 j=0;j<b.tc;j++) for(auto&s:b.tt->runs){ i64 l2=(i64)b.taddr+j*b.tt->ext()+s.off; if(lo<l2+s.len&&l2<hi) return true; } } return false; }
static bool must_order(const PendOp&a,const PendOp&b){ // a issued before b
  if(a.org!=b.org||!a.accclass()||!b.accclass()||!overlap(a,b)) return false; Win&w=*a.w;
  return (a.writes()&&b.writes()&&w.o_waw)||(a.writes()&&b.reads()&&w.o_raw)||(a.reads()&&b.writes()&&w.o_war)||(a.reads()&&b.reads()&&w.o_rar); }
static void remove_op(PendP p){ auto&v=p->w->pend; for(size_t i=0;i<v.size();i++) if(v[i]==p){ v.erase(v.begin()+i); break; } p->gone=true; p->localdone=true; p->captured=true; }
static void strict_origin(PendOp&p){ if(opt.strict&&!p.snap.empty()){ vector<u8> now; pack(p.org,p.oaddr,p.oc,*p.ot,now); if(now!=p.snap) viol("buf","origin-modified","origin buffer of %s issued by rank %d was changed before the operation was locally complete",op_names[p.kind],p.org); } }
static void capture(PendOp&p){ if(p.captured) return; if(p.kind!=O_GET&&p.op!=MPI_NO_OP){ strict_origin(p); pack(p.org,p.oaddr,p.oc,*p.ot,p.data); if(p.kind==O_CAS){ vector<u8> cmp; pack(p.org,p.caddr,1,*p.ot,cmp); p.data.insert(p.data.end(),cmp.begin(),cmp.end()); } } p.captured=true; }
static void write_result(PendOp&p,const vector<u8>&d){ if(opt.strict){ vector<u8> now; pack(p.org,p.raddr,p.rc,*p.rt,now); for(u8 b:now) if(b!=0xEE) viol("buf","result-touched","result buffer of %s issued by rank %d was changed before the operation was complete",op_names[p.kind],p.org); }
  unpack(p.org,p.raddr,p.rc,*p.rt,d.data(),(i64)d.size()); }
static void deliver(PendP p);
static void forced_first(PendP p){ // operations that must take effect at the target before p
  if(!p->accclass()) return; for(bool again=true;again;){ again=false; for(auto q:p->w->pend){ if(q==p) break; if(must_order(*q,*p)){ deliver(q); again=true; break; } } }
  for(bool again=true;again;){ again=false; for(auto q:p->w->pend) if(q!=p&&q->st==2&&overlap(*q,*p)){ deliver(q); again=true; break; } } }
static void fetch(PendP p,bool lag){ // target-side execution
  forced_first(p); capture(*p); PendOp&o=*p; vector<u8> old; pack(o.tgt,o.taddr,o.tc,*o.tt,old);
  if(o.kind==O_GET){ write_result(o,old); remove_op(p); return; }
  vector<u8> nw=old;
  if(o.kind==O_PUT) nw=o.data; else if(o.kind==O_CAS){ size_t n=old.size(); if(!memcmp(old.data(),o.data.data()+n,n)) memcpy(nw.data(),o.data.data(),n); }
  else if(o.op!=MPI_NO_OP){ int b=o.tt->basic; int sz=basics[b].size; for(size_t i=0;i+sz<=nw.size();i+=sz) op_apply(o.op,b,&nw[i],&o.data[i]); }
  if(o.isget()) write_result(o,old);
  o.localdone=true;
  if(lag&&o.writes()&&nw!=old){ o.st=2; o.newdata=nw; return; }
  if(o.writes()) unpack(o.tgt,o.taddr,o.tc,*o.tt,nw.data(),(i64)nw.size());
  remove_op(p); }
static void deliver(PendP p){ if(p->gone) return; if(p->st==2){ unpack(p->tgt,p->taddr,p->tc,*p->tt,p->newdata.data(),(i64)p->newdata.size()); remove_op(p); return; } fetch(p,false); }
static void local_complete(PendP p){ if(p->gone||p->localdone) return; if(p->kind==O_PUT||p->kind==O_ACC){ capture(*p); p->localdone=true; } else fetch(p, opt.lag&&(exploring||opt.deliver!=1)); }
static vector<PendP> pend_of(Win&w,int org,int tgt){ vector<PendP> v; for(auto p:w.pend) if(p->org==org&&(tgt<0||p->tgt==tgt)) v.push_back(p); if(opt.deliver==2&&!exploring) std::reverse(v.begin(),v.end()); return v; }
static void flush(Win&w,int org,int tgt){ for(auto p:pend_of(w,org,tgt)) deliver(p); }
static void flush_local(Win&w,int org,int tgt){ for(auto p:pend_of(w,org,tgt)) local_complete(p); }
static bool conflict(PendOp&a){ for(auto q:a.w->pend) if(q.get()!=&a&&overlap(*q,a)&&(q->writes()||a.writes())) return true; return false; }
static vector<PendP> deliverable(){ vector<PendP> v; for(auto&w:allwins) for(size_t i=0;i<w->pend.size();i++){ PendP p=w->pend[i]; if(w->lk[p->org][p->tgt]==2&&!conflict(*p)) continue; bool ok=true; if(p->st!=2) for(size_t j=0;j<i&&ok;j++) if(must_order(*w->pend[j],*p)) ok=false; if(ok) v.push_back(p); } return v; }
int sim_ndeliver(){ return (int)deliverable().size(); }
void sim_deliver(int i){ auto v=deliverable(); PendP p=v[i]; trace("  deliver %s #%d %d->%d addr %lx n %ld%s",op_names[p->kind],p->id,p->org,p->tgt,(long)p->taddr,(long)(p->tc*p->tt->size),p->st==2?" (commit)":""); deliver(p); }
int sim_deliver_all(){ int n=0; for(auto&w:allwins) while(!w->pend.empty()){ deliver(w->pend[0]); n++; } return n; }
bool sim_deliver_auto(){ return false; }

static int need_epoch(Thread&t,Win&w,int h,int tr){ (void)h; auto&m=w.comm->mem; if(tr<0||tr>=(int)m.size()) MPIERR("rma-rank","rank %d: %s to invalid target rank %d (window has %d processes)",t.rank,op_names[t.call->op],tr,(int)m.size()); int tw=m[tr]; if(!w.lockall[t.rank]&&!w.lk[t.rank][tw]) MPIERR("rma-no-epoch","rank %d: %s outside of an access epoch to target %d",t.rank,op_names[t.call->op],tr); return tw; }
static void issue(Thread&t,Call&c,int kind,u64 o,i64 oc,int ot,u64 r,i64 rc,int rt,int tr,i64 disp,i64 tc,int tt,int op,int wh,int*req,u64 cmp=0){
  WinP w=win(t,wh); if(tr==MPI_PROC_NULL){ if(req){ auto q=make_shared<Req>(); q->kind=3; *req=0x07000000|R[t.rank].reqs.add(q);} return; }
  int tw=need_epoch(t,*w,wh,tr); chkcount(t,tc);
  auto p=make_shared<PendOp>(); PendOp&x=*p; x.id=next_id++; x.kind=kind; x.w=w; x.org=t.rank; x.tgt=tw; x.op=op; x.tc=tc; x.tt=type(t,tt); x.othr=t.id;
  bool noorig = (kind==O_GET)||op==MPI_NO_OP;
  if(!noorig){ chkcount(t,oc); x.oaddr=o; x.oc=oc; x.ot=type(t,ot); if(oc*x.ot->size!=tc*x.tt->size) MPIERR("rma-size","rank %d: %s transfers %ld bytes from a %ld byte origin",t.rank,op_names[kind],(long)(tc*x.tt->size),(long)(oc*x.ot->size)); if(tc*x.tt->size&&x.ot->basic!=x.tt->basic&&!(kind==O_PUT&&(x.ot->basic==1||x.tt->basic==1))) MPIERR("rma-type","rank %d: %s with mismatching basic datatypes",t.rank,op_names[kind]); x.caddr=cmp; }
  if(kind!=O_PUT&&kind!=O_ACC){ chkcount(t,rc); x.raddr=r; x.rc=rc; x.rt=type(t,rt); if(rc*x.rt->size!=tc*x.tt->size) MPIERR("rma-size","rank %d: %s transfers %ld bytes to a %ld byte result buffer",t.rank,op_names[kind],(long)(tc*x.tt->size),(long)(rc*x.rt->size)); }
  if(kind>=O_ACC&&kind<=O_FOP){ if((op>>24)!=5||(op&0xffffff)>=32||op==MPI_OP_NULL) MPIERR("rma-op","rank %d: %s with an operator that is not predefined",t.rank,op_names[kind]); if(kind==O_ACC&&op==MPI_NO_OP) MPIERR("rma-op","rank %d: MPI_Accumulate with MPI_NO_OP",t.rank); if(x.tt->size&&!(x.tt->basic>0&&op_valid(op,x.tt->basic))) MPIERR("rma-op","rank %d: %s: operator not defined for the datatype",t.rank,op_names[kind]); if(kind==O_FOP&&!x.tt->builtin) MPIERR("rma-op","rank %d: MPI_Fetch_and_op needs a predefined datatype",t.rank); }
  int du=w->du[tw]; x.taddr=w->base[tw]+disp*du;
  if(tc*x.tt->size>0){ i64 lo=disp*du+x.tt->ctlb, hi=disp*du+(tc-1)*x.tt->ext()+x.tt->ctub; if(lo<0||hi>w->size[tw]) MPIERR("rma-range","rank %d: %s accesses bytes [%ld,%ld) of a %ld byte window on rank %d",t.rank,op_names[c.op],(long)lo,(long)hi,(long)w->size[tw],tw);
    if(!noorig&&!x.oaddr&&x.ot->ctlb==0) MPIERR("rma-null","rank %d: %s with a null origin buffer",t.rank,op_names[c.op]); }
  if(x.writes()&&self_overlap(*x.tt,tc)) MPIERR("rma-overlap","rank %d: %s with a target datatype that names a location twice",t.rank,op_names[c.op]);
  if(x.isget()&&x.rt&&self_overlap(*x.rt,rc)) MPIERR("rma-overlap","rank %d: %s into a datatype that names a location twice",t.rank,op_names[c.op]);
  if(w->same_op&&kind>=O_ACC&&kind<=O_FOP&&op!=MPI_NO_OP) for(auto&q:w->pend) if(q->kind>=O_ACC&&q->kind<=O_FOP&&q->op!=MPI_NO_OP&&q->op!=op&&overlap(*q,x)) MPIERR("same-op","concurrent accumulates with different operators on a window created with accumulate_ops=same_op");
  if(kind>=O_ACC&&kind<=O_FOP){ i64 b=tc*x.tt->size; if(w->acc_max[t.rank]>=0&&b>w->acc_max[t.rank]) MPIERR("rma-hint","rank %d: %s of %ld bytes although the window was created with accumulate_max_bytes=%ld",t.rank,op_names[c.op],(long)b,(long)w->acc_max[t.rank]);
    auto nc=[](const Type*y,i64 n){ return y&&!y->builtin&&y->size&&n>0&&(y->runs.size()>1||(n>1&&y->ext()!=y->size)); };
    if(w->acc_contig[t.rank]&&(nc(x.tt.get(),tc)||(!noorig&&nc(x.ot.get(),x.oc)))) MPIERR("rma-hint","rank %d: %s with a noncontiguous datatype although the window was created with accumulate_noncontig_dtype=false",t.rank,op_names[c.op]); }
  if(opt.strict&&!noorig&&kind!=O_CAS) pack(t.rank,x.oaddr,x.oc,*x.ot,x.snap);
  if(x.isget()){ vector<u8> ee((size_t)(rc*x.rt->size),0xEE); unpack(t.rank,x.raddr,rc,*x.rt,ee.data(),(i64)ee.size()); }
  trace("  rank %d %s #%d -> %d window %d [%ld..%ld)",t.rank,op_names[c.op],x.id,tw,w->id,(long)(x.taddr-w->base[tw]),(long)(x.taddr-w->base[tw]+(tc?(tc-1)*x.tt->ext()+x.tt->ctub:0)));
  if(tc*x.tt->size==0) { x.gone=x.localdone=x.captured=true; } else { w->pend.push_back(p); }
  if(req){ auto q=make_shared<Req>(); q->kind=0; q->op=p; x.reqop=true; RankS&rs=R[t.rank]; *req=0x07000000|rs.reqs.add(q); 
    int n=0; for(auto&z:rs.reqs.v) if(z&&z->kind==0&&!z->flushed) n++; if(n>rs.maxreq) rs.maxreq=n; if(opt.req_limit&&n>opt.req_limit) MPIERR("request-limit","rank %d has %d outstanding request-based transfers (the message layer supports %d)",t.rank,n,opt.req_limit); }
  if(!exploring&&opt.deliver==1) deliver(p); }
static void mark_flushed(int r,WinP w,int tgt){ for(auto&z:R[r].reqs.v) if(z&&z->kind==0&&z->op&&z->op->w==w&&(tgt<0||z->op->tgt==tgt)) z->flushed=true; }

// a buffer that is released while an operation in flight still uses it
void sim_free_hook(int rank,const void*p,size_t n,const char*what){ if(!opt.strict) return; u64 lo=(u64)p,hi=lo+n; for(auto&w:allwins) for(auto&q:w->pend) if(q->org==rank){
  if(!q->captured&&q->ot&&q->oc){ u64 a=q->oaddr+q->ot->ctlb,b=q->oaddr+(q->oc-1)*q->ot->ext()+q->ot->ctub; if(a<hi&&lo<b) viol("buf","origin-freed","rank %d: %s releases the origin buffer of an operation (%s) in flight",rank,what,op_names[q->kind]); }
  if(!q->localdone&&q->rt&&q->rc){ u64 a=q->raddr+q->rt->ctlb,b=q->raddr+(q->rc-1)*q->rt->ext()+q->rt->ctub; if(a<hi&&lo<b) viol("buf","result-freed","rank %d: %s releases the result buffer of an operation (%s) in flight",rank,what,op_names[q->kind]); } } }
void sim_stack_hook(Thread&t){ if(!opt.strict||!t.call) return; u64 lo=(u64)t.stk,hi=(u64)t.sp; for(auto&w:allwins) for(auto&q:w->pend) if(q->org==t.rank){
  if(!q->captured&&q->ot&&q->oc&&q->oaddr>=lo&&q->oaddr<hi) viol("buf","origin-stack-dead","rank %d: the origin buffer of an operation (%s) in flight is in a stack frame that has returned",t.rank,op_names[q->kind]);
  if(!q->localdone&&q->rt&&q->rc&&q->raddr>=lo&&q->raddr<hi) viol("buf","result-stack-dead","rank %d: the result buffer of an operation (%s) in flight is in a stack frame that has returned",t.rank,op_names[q->kind]); } }

// ---------------------------------------------------------------- point to point
static shared_ptr<Msg> find_msg(Comm&cm,int me,int src,int tag,bool pick,Thread*t=nullptr){ // src comm rank or ANY
  auto&q=cm.q[me]; vector<shared_ptr<Msg>> cand; vector<int> srcs; for(auto&m:q){ if(m->special&&!t) {} if(tag!=MPI_ANY_TAG&&m->tag!=tag) continue; if(src!=MPI_ANY_SOURCE&&m->src!=src) continue; if(std::find(srcs.begin(),srcs.end(),m->src)!=srcs.end()) continue; srcs.push_back(m->src); cand.push_back(m); }
  if(cand.empty()) return nullptr; int k=0; if(pick&&cand.size()>1){ k = (exploring||opt.recv_order==2) ? choose((int)cand.size(),1) : opt.recv_order==1?(int)cand.size()-1:0; } return cand[k]; }
static void set_status(u64 sp,int src,int tag,i64 bytes){ if(!sp) return; MPI_Status*s=(MPI_Status*)sp; s->MPI_SOURCE=src; s->MPI_TAG=tag; s->_bytes=bytes; s->_cancelled=0; }
static void do_recv(Thread&t,Comm&cm,shared_ptr<Msg> m,u64 buf,i64 cnt,TypeP ty,u64 status){ if(m->special) MPIERR("internal-traffic","rank %d: a user receive matches a message of group creation (source %d tag %d)",t.rank,m->src,m->tag);
  if((i64)m->data.size()>cnt*ty->size) MPIERR("truncate","rank %d: message of %ld bytes received into a %ld byte buffer",t.rank,(long)m->data.size(),(long)(cnt*ty->size));
  unpack(t.rank,buf,cnt,*ty,m->data.data(),(i64)m->data.size()); set_status(status,m->src,m->tag,(i64)m->data.size()); auto&q=cm.q[t.rank]; q.erase(std::find(q.begin(),q.end(),m)); if(m->matched) *m->matched=true; 
  trace("  rank %d receives from %d tag %d (%ld bytes)",t.rank,m->src,m->tag,(long)m->data.size()); }
static shared_ptr<bool> do_send(Thread&t,Call&c,bool sync){ CommP cm=comm(t,INT(5)); int dst=INT(3); if(dst==MPI_PROC_NULL) return make_shared<bool>(true); auto&rem=cm->remote(t.rank); if(dst<0||dst>=(int)rem.size()) MPIERR("bad-rank","rank %d: send to invalid rank %d",t.rank,dst); if(INT(4)<0||INT(4)>opt.tagub) MPIERR("bad-tag","rank %d: send with invalid tag %d",t.rank,INT(4)); chkcount(t,INT(1)); auto m=make_shared<Msg>(); m->src=cm->rank(t.rank); m->tag=INT(4); TypeP ty=type(t,INT(2)); pack(t.rank,ARG(0),INT(1),*ty,m->data); m->sync=sync; m->matched=make_shared<bool>(!sync); cm->q[rem[dst]].push_back(m); trace("  rank %d sends to %d tag %d (%ld bytes)",t.rank,rem[dst],m->tag,(long)m->data.size()); return m->matched; }
static void chk_src(Thread&t,Comm&cm,int src){ if(src==MPI_ANY_SOURCE||src==MPI_PROC_NULL) return; if(src<0||src>=(int)cm.remote(t.rank).size()) MPIERR("bad-rank","rank %d: receive from invalid rank %d",t.rank,src); }

// ---------------------------------------------------------------- requests
static Req* req(Thread&t,int h){ if((h>>24)!=7) MPIERR("bad-request","rank %d: invalid request handle 0x%x in %s",t.rank,h,op_names[t.call->op]); Req*q=R[t.rank].reqs.get(h&0xffffff); if(!q) MPIERR("bad-request","rank %d: request in %s was already freed or never existed",t.rank,op_names[t.call->op]); return q; }
static bool coll_ready(CollP,int);
static bool req_ready(Thread&t,Req*q){ switch(q->kind){ case 0: return true; case 1: return *q->matched; case 2: return find_msg(*q->comm,t.rank,q->src,q->tag,false)!=nullptr; case 3: return !q->coll||coll_ready(q->coll,t.rank); } return true; }
static bool req_done_already(Thread&t,Req*q){ if(q->kind==0) return q->op->gone||q->op->localdone; return req_ready(t,q); }
static void req_complete(Thread&t,int*h,u64 status){ Req*q=req(t,*h); if(q->kind==0) local_complete(q->op); else if(q->kind==2) do_recv(t,*q->comm,find_msg(*q->comm,t.rank,q->src,q->tag,true),q->buf,q->cnt,q->t,status); if(q->kind!=2) set_status(status,MPI_ANY_SOURCE,MPI_ANY_TAG,0); R[t.rank].reqs.v[*h&0xffffff]=nullptr; *h=MPI_REQUEST_NULL; }
static bool test_true(Thread&t,Req*q){ // has this request completed at the time of a test?
  if(req_done_already(t,q)) return true; if(q->kind!=0) return false;
  if(exploring){ if(q->tests>=opt.test_false) return true; if(choose(2,1)==0){ q->tests++; return false; } return true; }
  if(q->tests<opt.test_false){ q->tests++; return false; } return true; }

// ---------------------------------------------------------------- collectives
static bool is_coll(int op){ switch(op){ case O_INIT: case O_BARRIER: case O_IBARRIER: case O_BCAST: case O_REDUCE: case O_ALLREDUCE: case O_ALLGATHER: case O_ALLGATHERV: case O_GATHER: case O_SCATTER: case O_ALLTOALL: case O_SCAN: case O_EXSCAN: case O_REDSCATB: case O_C_DUP: case O_C_SPLIT: case O_C_CREATE: case O_C_CREATEGRP: case O_IC_CREATE: case O_IC_MERGE: case O_W_CREATE: case O_W_ALLOCATE: case O_W_FREE: case O_W_FENCE: return op!=O_INIT; } return false; }
static int coll_comm_arg(Thread&t,Call&c){ switch(c.op){ case O_BARRIER: case O_IBARRIER: case O_C_DUP: case O_C_SPLIT: case O_C_CREATE: case O_C_CREATEGRP: case O_IC_CREATE: case O_IC_MERGE: return INT(0); case O_BCAST: return INT(4); case O_REDUCE: return INT(6); case O_ALLREDUCE: case O_SCAN: case O_EXSCAN: case O_REDSCATB: return INT(5); case O_ALLGATHER: case O_ALLTOALL: return INT(6); case O_ALLGATHERV: return INT(7); case O_GATHER: case O_SCATTER: return INT(7); case O_W_CREATE: return INT(4); case O_W_ALLOCATE: return INT(3);} (void)t; return 0; }
static void ic_try_pair(CollP co);
static void op_check(Thread&t,int op,TypeP ty){ if((op>>24)!=5) MPIERR("bad-op","rank %d: invalid reduction operator",t.rank); int i=op&0xffffff; if(i<32){ if(op==MPI_OP_NULL||op==MPI_REPLACE||op==MPI_NO_OP||ty->basic<=0||!op_valid(op,ty->basic)) MPIERR("bad-op","rank %d: reduction operator is not defined for the datatype",t.rank); } else if(!R[t.rank].ops.get(i)) MPIERR("bad-op","rank %d: reduction operator was freed",t.rank); }
static CollP arrive(Thread&t,Call&c){
  CommP cm; WinP w; if(c.op==O_W_FREE){ w=win(t,*PTR(int,0)); cm=w->comm; } else if(c.op==O_W_FENCE){ w=win(t,INT(1)); cm=w->comm; } else cm=comm(t,coll_comm_arg(t,c));
  vector<int> all=cm->mem; all.insert(all.end(),cm->rem.begin(),cm->rem.end());
  int seqkey; if(c.op==O_C_CREATEGRP){ all=group(t,INT(1))->mem; u64 h=0; for(int m:all) h=h*31+m+1; seqkey=(int)(0x40000000|((h*1009+INT(2))&0xfffffff)); } else seqkey=cm->seq[t.rank]++;
  CollP&slot=cm->colls[seqkey]; if(!slot){ slot=make_shared<Coll>(); slot->kind=c.op; slot->seq=seqkey; slot->comm=cm; slot->all=all; size_t n=all.size(); slot->arr.resize(n); slot->took.resize(n); slot->cl.resize(n); slot->data.resize(n); slot->ints.resize(n); slot->newc.resize(n); slot->grp.resize(n); slot->ty.resize(n); }
  CollP co=slot; if(co->kind!=c.op) MPIERR("coll-mismatch","rank %d calls %s while another process of the communicator is in %s",t.rank,op_names[c.op],op_names[co->kind]);
  int k=co->idx(t.rank); if(k<0||co->arr[k]) MPIERR("coll-concurrent","rank %d: two threads in a collective on the same communicator",t.rank); co->arr[k]=true; co->narr++; co->cl[k]=c; int f=-1; for(size_t i=0;i<co->all.size();i++) if(co->arr[i]&&(int)i!=k) f=(int)i;
  auto same=[&](u64 a,u64 b,const char*what){ if(a!=b) MPIERR("coll-mismatch","%s: processes disagree on %s (%ld, %ld)",op_names[c.op],what,(long)a,(long)b); };
  int n=(int)cm->local(t.rank).size(), me=cm->rank(t.rank); auto chkroot=[&](int r){ if(r<0||r>=n) MPIERR("bad-root","rank %d: %s with invalid root %d",t.rank,op_names[c.op],r); };
  switch(c.op){
    case O_BCAST: { TypeP ty=type(t,INT(2)); chkcount(t,INT(1)); chkroot(INT(3)); co->ty[k]=ty; i64 sz=INT(1)*ty->size; if(f>=0){ same(co->cl[f].a[3],ARG(3),"the root"); same((u64)((int)co->cl[f].a[1]*co->ty[f]->size),(u64)sz,"the byte count"); } if(me==INT(3)) pack(t.rank,ARG(0),INT(1),*ty,co->data[k]); break; }
    case O_REDUCE: case O_ALLREDUCE: case O_SCAN: case O_EXSCAN: case O_REDSCATB: { TypeP ty=type(t,INT(3)); chkcount(t,INT(2)); op_check(t,INT(4),ty); co->ty[k]=ty; if(c.op==O_REDUCE) chkroot(INT(5)); if(f>=0){ same(co->cl[f].a[2],ARG(2),"the count"); if(!((INT(4)&0xffffff)>=32)) same(co->cl[f].a[4],ARG(4),"the operator"); same((u64)co->ty[f]->basic,(u64)ty->basic,"the datatype"); if(c.op==O_REDUCE) same(co->cl[f].a[5],ARG(5),"the root"); }
      i64 cnt=INT(2)*(c.op==O_REDSCATB?n:1); pack(t.rank,(void*)ARG(0)==MPI_IN_PLACE?ARG(1):ARG(0),cnt,*ty,co->data[k]); 
      if((void*)ARG(0)!=MPI_IN_PLACE&&ARG(0)==ARG(1)&&cnt*ty->size>0&&(c.op!=O_REDUCE||me==INT(5))) MPIERR("alias","rank %d: %s with aliased send and receive buffers",t.rank,op_names[c.op]); break; }
    case O_ALLGATHER: case O_GATHER: { bool inpl=(void*)ARG(0)==MPI_IN_PLACE; if(inpl){ TypeP ty=type(t,INT(5)); co->ty[k]=ty; pack(t.rank,ARG(3)+me*INT(4)*ty->ext(),INT(4),*ty,co->data[k]); } else { TypeP ty=type(t,INT(2)); chkcount(t,INT(1)); co->ty[k]=ty; pack(t.rank,ARG(0),INT(1),*ty,co->data[k]);
        if(c.op==O_ALLGATHER){ TypeP rt=type(t,INT(5)); if(INT(1)*ty->size!=INT(4)*rt->size) MPIERR("coll-mismatch","rank %d: MPI_Allgather send and receive sizes differ",t.rank); u64 a=ARG(0),b=ARG(0)+INT(1)*ty->ext(),x=ARG(3),y=ARG(3)+(u64)n*INT(4)*rt->ext(); if(INT(1)*ty->size>0&&a<y&&x<b) MPIERR("alias","rank %d: MPI_Allgather with overlapping send and receive buffers",t.rank); } } if(f>=0) same(co->data[f].size(),co->data[k].size(),"the byte count"); break; }
    case O_ALLGATHERV: { bool inpl=(void*)ARG(0)==MPI_IN_PLACE; if(inpl){ TypeP ty=type(t,INT(6)); pack(t.rank,ARG(3)+PTR(int,5)[me]*ty->ext(),PTR(int,4)[me],*ty,co->data[k]); } else pack(t.rank,ARG(0),INT(1),*type(t,INT(2)),co->data[k]); break; }
    case O_SCATTER: { chkroot(INT(6)); if(me==INT(6)) pack(t.rank,ARG(0),(i64)INT(1)*n,*type(t,INT(2)),co->data[k]); break; }
    case O_ALLTOALL: { TypeP ty=(void*)ARG(0)==MPI_IN_PLACE?type(t,INT(5)):type(t,INT(2)); u64 b=(void*)ARG(0)==MPI_IN_PLACE?ARG(3):ARG(0); pack(t.rank,b,(i64)n*((void*)ARG(0)==MPI_IN_PLACE?INT(4):INT(1)),*ty,co->data[k]); break; }
    case O_C_SPLIT: co->ints[k]={INT(1),INT(2)}; if(INT(1)<0&&INT(1)!=MPI_UNDEFINED) MPIERR("bad-color","rank %d: MPI_Comm_split with negative color",t.rank); break;
    case O_C_CREATE: case O_C_CREATEGRP: co->grp[k]=group(t,INT(1)); for(int m:co->grp[k]->mem) if(std::find(cm->mem.begin(),cm->mem.end(),m)==cm->mem.end()) MPIERR("bad-group","rank %d: MPI_Comm_create with a group that is not a subset of the communicator",t.rank); if(f>=0&&co->grp[f]->mem!=co->grp[k]->mem&&std::find(co->grp[k]->mem.begin(),co->grp[k]->mem.end(),co->all[f])!=co->grp[k]->mem.end()) MPIERR("coll-mismatch","MPI_Comm_create: members pass different groups"); break;
    case O_IC_CREATE: { int lead=INT(1); chkroot(lead); if(me==lead){ CommP pc=comm(t,INT(2)); if(INT(3)<0||INT(3)>=(int)pc->mem.size()) MPIERR("bad-rank","rank %d: MPI_Intercomm_create with invalid remote leader",t.rank); } break; }
    case O_W_CREATE: case O_W_ALLOCATE: { if(f<0){ co->win=make_shared<Win>(); co->win->id=next_id++; co->win->comm=cm; for(i64&m:co->win->acc_max) m=-1; memset(co->win->lk,0,sizeof co->win->lk); } Win&x=*co->win; InfoP inf; int ih=c.op==O_W_CREATE?INT(3):INT(2); if(ih!=MPI_INFO_NULL){ inf=R[t.rank].infos.sp(ih&0xffffff); if(!inf) MPIERR("bad-info","rank %d: freed info in window creation",t.rank); }
      if(inf){ auto it=inf->kv.find("accumulate_ordering"); if(it!=inf->kv.end()){ const string&s=it->second; bool any=s!="none"; auto has=[&](const char*q){ return any&&s.find(q)!=string::npos; }; x.o_rar=has("rar"); x.o_raw=has("raw"); x.o_war=has("war"); x.o_waw=has("waw"); 
          string rest=s; for(const char*q:{"rar","raw","war","waw","none",",","\0"}){ size_t z; while(*q&&(z=rest.find(q))!=string::npos) rest.erase(z,strlen(q)); } if(!rest.empty()) MPIERR("bad-info","accumulate_ordering=\"%s\" is not a valid value",s.c_str()); }
        it=inf->kv.find("accumulate_ops"); if(it!=inf->kv.end()&&it->second=="same_op") x.same_op=true;
        it=inf->kv.find("mpi_accumulate_granularity"); string gr=it==inf->kv.end()?"":it->second; R[t.rank].granul=gr.empty()?-1:atoi(gr.c_str()); if(f<0) co->win->granul=gr; else if(co->win->granul!=gr) MPIERR("bad-info","mpi_accumulate_granularity is \"%s\" on process %d and \"%s\" on another process of the window",gr.c_str(),t.rank,co->win->granul.c_str());
        it=inf->kv.find("accumulate_max_bytes"); if(it!=inf->kv.end()) x.acc_max[t.rank]=it->second=="unlimited"?-1:atol(it->second.c_str());
        it=inf->kv.find("accumulate_noncontig_dtype"); x.acc_contig[t.rank]=it!=inf->kv.end()&&it->second=="false";
        if((it=inf->kv.find("no_locks"))!=inf->kv.end()&&it->second=="true") MPIERR("bad-info","window created with no_locks=true is locked later"); }
      i64 size=c.op==O_W_CREATE?LNG(1):LNG(0); int du=c.op==O_W_CREATE?INT(2):INT(1); if(size<0||du<=0) MPIERR("bad-arg","rank %d: window creation with size %ld, displacement unit %d",t.rank,(long)size,du); x.size[t.rank]=size; x.du[t.rank]=du; x.flavor=c.op==O_W_CREATE?MPI_WIN_FLAVOR_CREATE:MPI_WIN_FLAVOR_ALLOCATE;
      if(c.op==O_W_CREATE){ x.base[t.rank]=ARG(0); if(size>0&&!ARG(0)) MPIERR("bad-arg","rank %d: window of size %ld on a null base",t.rank,(long)size); } else { x.base[t.rank]=size?(u64)arena_alloc(t.rank,size,1):(opt.zero_alloc_null?0:(u64)arena+arena_hw); } break; }
    case O_W_FREE: { if(f<0) co->win=w; else if(co->win!=w) MPIERR("coll-mismatch","MPI_Win_free: processes free different windows of the same group"); for(int m:w->comm->mem) if(w->lk[t.rank][m]) MPIERR("win-free-epoch","rank %d: MPI_Win_free inside an access epoch",t.rank); if(w->lockall[t.rank]) MPIERR("win-free-epoch","rank %d: MPI_Win_free inside a lock_all epoch",t.rank); break; }
    default: break; }
  if(co->full()){
    if(c.op==O_C_DUP){ CommP nc=newcomm(); nc->mem=cm->mem; nc->rem=cm->rem; nc->inter=cm->inter; for(auto&x:co->newc) x=nc; }
    if(c.op==O_C_SPLIT){ std::set<int> done; for(size_t i=0;i<co->all.size();i++){ int col=co->ints[i][0]; if(col==MPI_UNDEFINED||done.count(col)) continue; done.insert(col); vector<std::array<int,3>> v; for(size_t j=0;j<co->all.size();j++) if(co->ints[j][0]==col) v.push_back({co->ints[j][1],(int)j,co->all[j]}); std::sort(v.begin(),v.end()); CommP nc=newcomm(); for(auto&e:v){ nc->mem.push_back(e[2]); co->newc[e[1]]=nc; } } }
    if(c.op==O_C_CREATE||c.op==O_C_CREATEGRP){ for(size_t i=0;i<co->all.size();i++){ auto&g=co->grp[i]->mem; if(co->newc[i]||std::find(g.begin(),g.end(),co->all[i])==g.end()) continue; CommP nc=newcomm(); nc->mem=g; for(int m:g){ int j=co->idx(m); if(co->grp[j]->mem!=g) MPIERR("coll-mismatch","MPI_Comm_create: members pass different groups"); co->newc[j]=nc; } } }
    if(c.op==O_IC_MERGE){ int ha=-1,hb=-1; for(size_t i=0;i<co->all.size();i++){ bool a=i<cm->mem.size(); int&h=a?ha:hb; int v=(int)co->cl[i].a[1]; if(h==-1) h=v; else if((h!=0)!=(v!=0)) MPIERR("coll-mismatch","MPI_Intercomm_merge: members of one side pass different values of high"); } CommP nc=newcomm(); if(ha<=hb){ nc->mem=cm->mem; nc->mem.insert(nc->mem.end(),cm->rem.begin(),cm->rem.end()); if((ha!=0)==(hb!=0)) {} } else { nc->mem=cm->rem; nc->mem.insert(nc->mem.end(),cm->mem.begin(),cm->mem.end()); } for(auto&x:co->newc) x=nc; }
    if(c.op==O_IC_CREATE){ int lead=co->idx(cm->mem[INT(1)]); Call&lc=co->cl[lead]; CommP pc; { pc=R[co->all[lead]].comms.sp((int)lc.a[2]&0xffffff); } auto m=make_shared<Msg>(); m->src=pc->rank(co->all[lead]); m->tag=(int)lc.a[4]; m->special=co; pc->q[pc->mem[(int)lc.a[3]]].push_back(m); ic_try_pair(co); }
    if(c.op==O_W_CREATE||c.op==O_W_ALLOCATE) allwins.push_back(co->win);
    if(c.op==O_W_FREE){ if(!co->win->pend.empty()) MPIERR("win-free-pending","MPI_Win_free with incomplete operations"); }
  }
  return co; }
static void ic_try_pair(CollP co){ // a full local side looks for the message of the other side's leader
  CommP lc=co->comm; int lead=co->idx(lc->mem[(int)co->cl[0].a[1]]); int lw=co->all[lead]; Call&c=co->cl[lead]; CommP pc=R[lw].comms.sp((int)c.a[2]&0xffffff); auto&q=pc->q[lw]; for(auto it=q.begin();it!=q.end();++it){ auto m=*it; if(m->src!=(int)c.a[3]||m->tag!=(int)c.a[4]) continue; if(!m->special) MPIERR("internal-traffic","a user message (source %d tag %d) would be received by MPI_Intercomm_create",m->src,m->tag); CollP ot=m->special; 
    int olead=ot->idx(ot->comm->mem[(int)ot->cl[0].a[1]]); Call&oc=ot->cl[olead]; if(pc->mem[(int)oc.a[3]]!=lw||ot->paired||co->paired) return; 
    auto&oq=pc->q[ot->all[olead]]; auto o2=oq.end(); for(auto z=oq.begin();z!=oq.end();++z) if((*z)->special==co){ o2=z; break; } if(o2==oq.end()) return;
    for(int x:co->all) for(int y:ot->all) if(x==y) MPIERR("intercomm-overlap","MPI_Intercomm_create with overlapping groups");
    oq.erase(o2); q.erase(std::find(q.begin(),q.end(),m)); CommP nc=newcomm(); nc->inter=true; nc->mem=co->all; nc->rem=ot->all; for(auto&x:co->newc) x=nc; for(auto&x:ot->newc) x=nc; co->paired=ot->paired=true; return; } }
static bool coll_ready(CollP co,int wr){ Comm&cm=*co->comm; int k=co->idx(wr); Call&c=co->cl[k]; int me=cm.rank(wr); switch(co->kind){
    case O_BCAST: { int root=INT(3); if(me==root) return opt.bcast_sync?co->full():true; return co->arr[co->idx(cm.local(wr)[root])]; }
    case O_SCATTER: { int root=INT(6); return me==root||co->arr[co->idx(cm.mem[root])]; }
    case O_REDUCE: if(me!=INT(5)) return true; return co->full(); case O_GATHER: if(me!=INT(6)) return true; return co->full();
    case O_SCAN: for(int i=0;i<=me;i++) if(!co->arr[co->idx(cm.mem[i])]) return false; return true;
    case O_IC_CREATE: return co->paired; default: return co->full(); } }
static void run_op(Thread&t,int op,TypeP ty,const vector<u8>&in,vector<u8>&io,i64 count,int th){ int i=op&0xffffff; if(i<32){ int b=ty->basic,sz=basics[b].size; for(size_t k=0;k+sz<=io.size();k+=sz) op_apply(op,b,&io[k],&in[k]); return; }
  UOpP u=R[t.rank].ops.sp(i); if(!u) MPIERR("bad-op","rank %d: operator freed while in use",t.rank);
  i64 es=ty->ext(); auto call=[&](i64 f,i64 n){ if(n<=0) return; // give the function copies with guard bytes
    vector<u8> a((size_t)(n*es)),b((size_t)(n*es)); memcpy(a.data(),&in[f*ty->size],(size_t)(n*ty->size)); memcpy(b.data(),&io[f*ty->size],(size_t)(n*ty->size)); int len=(int)n; MPI_Datatype dt=th; call_on_main(t.rank); u->fn(a.data(),b.data(),&len,&dt); call_on_main(-1); memcpy(&io[f*ty->size],b.data(),(size_t)(n*ty->size)); };
  if(ty->ext()!=ty->size) { call(0,count); return; }
  switch(opt.red_seg){ case 0: call(0,count); break; case 1: for(i64 k=0;k<count;k++) call(k,1); break; case 2: call(0,count/2); call(count/2,count-count/2); break; default: { i64 s=opt.red_seg; for(i64 k=0;k<count;k+=s) call(k,std::min(s,count-k)); } } }
static vector<u8> reduce(Thread&t,CollP co,int lo,int hi,const vector<int>&ord,int op,TypeP ty,i64 cnt,int th){ // members ord[lo..hi)
  if(hi-lo==1) return co->data[co->idx(ord[lo])]; bool comm_ok=(op&0xffffff)<32||R[t.rank].ops.sp(op&0xffffff)->commute; int mode=opt.red_order; if(mode==3&&!comm_ok) mode=0; vector<u8> res;
  if(mode==0){ res=co->data[co->idx(ord[lo])]; for(int i=lo+1;i<hi;i++){ vector<u8> io=co->data[co->idx(ord[i])]; run_op(t,op,ty,res,io,cnt,th); res=io; } }
  else if(mode==1){ res=co->data[co->idx(ord[hi-1])]; for(int i=hi-2;i>=lo;i--) run_op(t,op,ty,co->data[co->idx(ord[i])],res,cnt,th); }
  else if(mode==2){ int m=(lo+hi)/2; vector<u8> a=reduce(t,co,lo,m,ord,op,ty,cnt,th); res=reduce(t,co,m,hi,ord,op,ty,cnt,th); run_op(t,op,ty,a,res,cnt,th); }
  else { res=co->data[co->idx(ord[hi-1])]; for(int i=hi-2;i>=lo;i--){ vector<u8> io=co->data[co->idx(ord[i])]; run_op(t,op,ty,res,io,cnt,th); res=io; } }
  return res; }
static void coll_take(Thread&t,Call&c,CollP co){ CommP cm=co->comm; int k=co->idx(t.rank); int me=cm->rank(t.rank); int n=(int)cm->mem.size(); RankS&r=R[t.rank];
  switch(co->kind){
    case O_BCAST: { int root=INT(3); if(me!=root){ auto&d=co->data[co->idx(cm->local(t.rank)[root])]; unpack(t.rank,ARG(0),INT(1),*co->ty[k],d.data(),(i64)d.size()); } break; }
    case O_ALLREDUCE: case O_REDUCE: { if(co->kind==O_REDUCE&&me!=INT(5)) break; auto d=reduce(t,co,0,n,cm->mem,INT(4),co->ty[k],INT(2),INT(3)); unpack(t.rank,ARG(1),INT(2),*co->ty[k],d.data(),(i64)d.size()); break; }
    case O_REDSCATB: { auto d=reduce(t,co,0,n,cm->mem,INT(4),co->ty[k],(i64)INT(2)*n,INT(3)); i64 b=INT(2)*co->ty[k]->size; unpack(t.rank,ARG(1),INT(2),*co->ty[k],d.data()+me*b,b); break; }
    case O_SCAN: { auto d=reduce(t,co,0,me+1,cm->mem,INT(4),co->ty[k],INT(2),INT(3)); unpack(t.rank,ARG(1),INT(2),*co->ty[k],d.data(),(i64)d.size()); break; }
    case O_EXSCAN: { if(me==0) break; auto d=reduce(t,co,0,me,cm->mem,INT(4),co->ty[k],INT(2),INT(3)); unpack(t.rank,ARG(1),INT(2),*co->ty[k],d.data(),(i64)d.size()); break; }
    case O_ALLGATHER: case O_GATHER: { if(co->kind==O_GATHER&&me!=INT(6)) break; TypeP ty=type(t,INT(5)); for(int i=0;i<n;i++){ auto&d=co->data[co->idx(cm->mem[i])]; unpack(t.rank,ARG(3)+(u64)i*INT(4)*ty->ext(),INT(4),*ty,d.data(),(i64)d.size()); } break; }
    case O_ALLGATHERV: { TypeP ty=type(t,INT(6)); for(int i=0;i<n;i++){ auto&d=co->data[co->idx(cm->mem[i])]; unpack(t.rank,ARG(3)+PTR(int,5)[i]*ty->ext(),PTR(int,4)[i],*ty,d.data(),(i64)d.size()); } break; }
    case O_SCATTER: { if((void*)ARG(3)==MPI_IN_PLACE) break; auto&d=co->data[co->idx(cm->mem[INT(6)])]; i64 b=(i64)d.size()/n; unpack(t.rank,ARG(3),INT(4),*type(t,INT(5)),d.data()+me*b,b); break; }
    case O_ALLTOALL: { TypeP ty=type(t,INT(5)); for(int i=0;i<n;i++){ auto&d=co->data[co->idx(cm->mem[i])]; i64 b=(i64)d.size()/n; unpack(t.rank,ARG(3)+(u64)i*INT(4)*ty->ext(),INT(4),*ty,d.data()+me*b,b); } break; }
    case O_C_DUP: *PTR(int,1)=addcomm(t.rank,co->newc[k]); break;
    case O_C_SPLIT: *PTR(int,3)=co->newc[k]?addcomm(t.rank,co->newc[k]):MPI_COMM_NULL; break;
    case O_C_CREATE: *PTR(int,2)=co->newc[k]?addcomm(t.rank,co->newc[k]):MPI_COMM_NULL; break;
    case O_C_CREATEGRP: *PTR(int,3)=co->newc[k]?addcomm(t.rank,co->newc[k]):MPI_COMM_NULL; break;
    case O_IC_CREATE: *PTR(int,5)=addcomm(t.rank,co->newc[k]); break;
    case O_IC_MERGE: *PTR(int,2)=addcomm(t.rank,co->newc[k]); break;
    case O_W_CREATE: *PTR(int,5)=0x03000000|r.wins.add(co->win); break;
    case O_W_ALLOCATE: *PTR(u64,4)=co->win->base[t.rank]; *PTR(int,5)=0x03000000|r.wins.add(co->win); break;
    case O_W_FREE: { int h=*PTR(int,0)&0xffffff; WinP w=co->win; w->freed[t.rank]=true; r.wins.v[h]=nullptr; *PTR(int,0)=MPI_WIN_NULL; if(w->flavor==MPI_WIN_FLAVOR_ALLOCATE&&w->size[t.rank]) arena_free(t.rank,(void*)w->base[t.rank],1); break; }
    default: break; }
  co->took[k]=true; if(++co->nleft==(int)co->all.size()){ cm->colls.erase(co->seq); if(co->kind==O_W_FREE) allwins.erase(std::find(allwins.begin(),allwins.end(),co->win)); } mem_dirty(t.rank); }
static CollP coll_of(Thread&t,Call&c){ // the instance a waiting call belongs to
  CommP cm; if(c.op==O_W_FREE) cm=R[t.rank].wins.sp(*PTR(int,0)&0xffffff)->comm; else if(c.op==O_W_FENCE) cm=win(t,INT(1))->comm; else cm=comm(t,coll_comm_arg(t,c)); auto it=cm->colls.find((int)c.id); return it==cm->colls.end()?nullptr:it->second; }

// ---------------------------------------------------------------- classification of calls
bool sim_visible(Thread&t,Call&c){
  if(is_coll(c.op)){ if(c.op==O_IBARRIER) return false; c.id=arrive(t,c)->seq; c.st=1; return true; }
  if(c.op==O_IPROBE) return !t.main;   /* polled by the progress thread */
  switch(c.op){ case O_SEND: case O_SSEND: case O_RECV: case O_PROBE: case O_WAIT: case O_TEST: case O_WAITALL: case O_TESTALL: case O_WAITANY: case O_TESTANY: case O_WAITSOME: case O_W_LOCK: case O_W_UNLOCK: case O_W_UNLOCKALL: case O_W_FLUSH: case O_W_FLUSHALL: case O_W_FLUSHL: case O_W_FLUSHLALL:
    case O_MC_BEGIN: case O_MC_END: case O_MC_BARRIER: case O_MC_YIELD: case O_MC_BLOCK: case O_MC_TJOIN: case O_PM_LOCK: case O_PC_BLOCK: case O_RW_RD: case O_RW_WR: case O_MC_ACCESS: case O_MC_DELIVERALL: 
      if(c.op==O_MC_BEGIN||c.op==O_MC_END||c.op==O_MC_BARRIER){ int k=c.op-O_MC_BEGIN; c.id=bar_gen[k]; if(++bar_count[k]==nactive){ bar_count[k]=0; bar_gen[k]++; if(k==0) exploring=true; if(k==1) exploring=false; } }
      if(c.op==O_SEND||c.op==O_SSEND){ }
      return true; }
  return false; }
bool sim_enabled(Thread&t,Call&c){
  if(is_coll(c.op)) return coll_ready(coll_of(t,c),t.rank);
  switch(c.op){ 
    case O_SEND: case O_SSEND: if(c.st==1) return *sendw[c.id]; return true;
    case O_RECV: if(INT(3)==MPI_PROC_NULL) return true; return find_msg(*comm(t,INT(5)),t.rank,INT(3),INT(4),false)!=nullptr;
    case O_PROBE: return find_msg(*comm(t,INT(2)),t.rank,INT(0),INT(1),false)!=nullptr;
    case O_WAIT: { int h=*PTR(int,0); return h==MPI_REQUEST_NULL||req_ready(t,req(t,h)); }
    case O_WAITALL: { for(int i=0;i<INT(0);i++){ int h=PTR(int,1)[i]; if(h!=MPI_REQUEST_NULL&&!req_ready(t,req(t,h))) return false; } return true; }
    case O_WAITANY: case O_WAITSOME: { bool any=false; for(int i=0;i<INT(0);i++){ int h=PTR(int,1)[i]; if(h!=MPI_REQUEST_NULL){ any=true; if(req_ready(t,req(t,h))) return true; } } return !any; }
    case O_W_LOCK: { WinP w=win(t,INT(3)); auto&m=w->comm->mem; int tr=INT(1); if(tr<0||tr>=(int)m.size()) MPIERR("rma-rank","rank %d: MPI_Win_lock of invalid rank %d",t.rank,tr); int tw=m[tr]; bool ex=INT(0)==MPI_LOCK_EXCLUSIVE; for(int o:m) if(o!=t.rank){ if(w->lk[o][tw]==2) return false; if(ex&&(w->lk[o][tw]||w->lockall[o])) return false; } return true; }
    case O_MC_BEGIN: case O_MC_END: case O_MC_BARRIER: return bar_gen[c.op-O_MC_BEGIN]!=c.id;
    case O_MC_BLOCK: { load_rank(t.rank); call_on_main(t.rank); int ok=((int(*)(void*))ARG(0))((void*)ARG(1)); call_on_main(-1); return ok; }
    case O_MC_TJOIN: return thr[INT(0)].done;
    case O_PM_LOCK: { int owner=((int*)ARG(0))[0]; return owner==0; }
    case O_PC_BLOCK: return ((int*)ARG(0))[1]>INT(1);
    case O_RW_RD: return ((int*)ARG(0))[0]==0; case O_RW_WR: return ((int*)ARG(0))[0]==0&&((int*)ARG(0))[1]==0;
    default: return true; } }
void sim_exec(Thread&t,Call&c){ RankS&r=R[t.rank]; r.cnt[c.op]++; c.ret=0; load_rank(t.rank); mem_dirty(t.rank);
  if(is_coll(c.op)){ coll_take(t,c,coll_of(t,c)); return; }
  auto lockt=[&](int tr,WinP w){ auto&m=w->comm->mem; if(tr<0||tr>=(int)m.size()) MPIERR("rma-rank","rank %d: %s with invalid rank %d",t.rank,op_names[c.op],tr); return m[tr]; };
  switch(c.op){
    case O_SEND: case O_SSEND: { if(c.st==1){ c.st=2; break; } bool sync=c.op==O_SSEND||opt.sync_send; auto m=do_send(t,c,sync); if(sync&&!*m){ c.st=1; c.id=(long)sendw.size(); sendw.push_back(m); } break; }
    case O_RECV: { CommP cm=comm(t,INT(5)); if(INT(3)==MPI_PROC_NULL){ set_status(ARG(6),MPI_PROC_NULL,MPI_ANY_TAG,0); break; } do_recv(t,*cm,find_msg(*cm,t.rank,INT(3),INT(4),true),ARG(0),INT(1),type(t,INT(2)),ARG(6)); break; }
    case O_PROBE: { CommP cm=comm(t,INT(2)); auto m=find_msg(*cm,t.rank,INT(0),INT(1),true); set_status(ARG(3),m->src,m->tag,(i64)m->data.size()); break; }
    case O_WAIT: { int*h=PTR(int,0); if(*h==MPI_REQUEST_NULL){ set_status(ARG(1),MPI_ANY_SOURCE,MPI_ANY_TAG,0); break; } req_complete(t,h,ARG(1)); break; }
    case O_TEST: { int*h=PTR(int,0); int*f=PTR(int,1); if(*h==MPI_REQUEST_NULL){ *f=1; break; } if(test_true(t,req(t,*h))){ *f=1; req_complete(t,h,ARG(2)); } else *f=0; break; }
    case O_WAITALL: { chkcount(t,INT(0)); MPI_Status*s=PTR(MPI_Status,2); for(int k=0;k<INT(0);k++){ int i=(opt.deliver==2&&!exploring)?INT(0)-1-k:k; int*h=&PTR(int,1)[i]; if(*h!=MPI_REQUEST_NULL) req_complete(t,h,s?(u64)&s[i]:0); } break; }
    case O_TESTALL: { int all=1; for(int i=0;i<INT(0);i++){ int h=PTR(int,1)[i]; if(h!=MPI_REQUEST_NULL&&!test_true(t,req(t,h))) all=0; } *PTR(int,2)=all; if(all) for(int i=0;i<INT(0);i++){ int*h=&PTR(int,1)[i]; if(*h!=MPI_REQUEST_NULL) req_complete(t,h,0); } break; }
    case O_TESTANY: case O_WAITANY: { int*idx=PTR(int,2); int*f=c.op==O_TESTANY?PTR(int,3):nullptr; vector<int> rd; bool any=false; for(int i=0;i<INT(0);i++){ int h=PTR(int,1)[i]; if(h==MPI_REQUEST_NULL) continue; any=true; Req*q=req(t,h); if(c.op==O_WAITANY?req_ready(t,q):test_true(t,q)) rd.push_back(i); } if(!any){ *idx=MPI_UNDEFINED; if(f)*f=1; break; } if(rd.empty()){ *f=0; *idx=MPI_UNDEFINED; break; } int k=rd.size()>1?(exploring?choose((int)rd.size(),1):opt.deliver==2?(int)rd.size()-1:0):0; *idx=rd[k]; if(f)*f=1; req_complete(t,&PTR(int,1)[rd[k]],c.op==O_WAITANY?ARG(3):ARG(4)); break; }
    case O_WAITSOME: { int n=0; bool any=false; for(int i=0;i<INT(0);i++){ int*h=&PTR(int,1)[i]; if(*h==MPI_REQUEST_NULL) continue; any=true; if(req_ready(t,req(t,*h))){ PTR(int,3)[n++]=i; req_complete(t,h,0);} } *PTR(int,2)=any?n:MPI_UNDEFINED; break; }
    case O_W_LOCK: { WinP w=win(t,INT(3)); int tw=lockt(INT(1),w); if(w->lockall[t.rank]||w->lk[t.rank][tw]) MPIERR("lock-nested","rank %d: MPI_Win_lock of a target that is already locked by this process",t.rank); if(INT(0)!=MPI_LOCK_EXCLUSIVE&&INT(0)!=MPI_LOCK_SHARED) MPIERR("bad-arg","rank %d: bad lock type",t.rank); w->lk[t.rank][tw]=INT(0)==MPI_LOCK_EXCLUSIVE?2:1; break; }
    case O_W_UNLOCK: { WinP w=win(t,INT(1)); int tw=lockt(INT(0),w); if(!w->lk[t.rank][tw]) MPIERR("unlock","rank %d: MPI_Win_unlock without lock",t.rank); flush(*w,t.rank,tw); mark_flushed(t.rank,w,tw); w->lk[t.rank][tw]=0; break; }
    case O_W_UNLOCKALL: { WinP w=win(t,INT(0)); if(!w->lockall[t.rank]) MPIERR("unlock","rank %d: MPI_Win_unlock_all without lock_all",t.rank); flush(*w,t.rank,-1); mark_flushed(t.rank,w,-1); w->lockall[t.rank]=false; break; }
    case O_W_FLUSH: { WinP w=win(t,INT(1)); int tw=need_epoch(t,*w,INT(1),INT(0)); flush(*w,t.rank,tw); mark_flushed(t.rank,w,tw); break; }
    case O_W_FLUSHALL: { WinP w=win(t,INT(0)); if(!w->lockall[t.rank]) { bool any=false; for(int m:w->comm->mem) any|=w->lk[t.rank][m]; if(!any) MPIERR("rma-no-epoch","rank %d: MPI_Win_flush_all outside of an epoch",t.rank);} flush(*w,t.rank,-1); mark_flushed(t.rank,w,-1); break; }
    case O_W_FLUSHL: { WinP w=win(t,INT(1)); int tw=need_epoch(t,*w,INT(1),INT(0)); flush_local(*w,t.rank,tw); mark_flushed(t.rank,w,tw); break; }
    case O_W_FLUSHLALL: { WinP w=win(t,INT(0)); if(!w->lockall[t.rank]) { bool any=false; for(int m:w->comm->mem) any|=w->lk[t.rank][m]; if(!any) MPIERR("rma-no-epoch","rank %d: MPI_Win_flush_local_all outside of an epoch",t.rank);} flush_local(*w,t.rank,-1); mark_flushed(t.rank,w,-1); break; }
    case O_MC_DELIVERALL: c.ret=sim_deliver_all(); break;
    case O_MC_TJOIN: race_join(t.id,INT(0)); thr[INT(0)].joined=1; break;
    case O_PM_LOCK: ((int*)ARG(0))[0]=t.id+1; race_acquire(t.id,ARG(0)); break;
    case O_RW_RD: ((int*)ARG(0))[1]++; race_acquire(t.id,ARG(0)); break; case O_RW_WR: ((int*)ARG(0))[0]=t.id+1; race_acquire(t.id,ARG(0)); race_acquire(t.id,ARG(0)+4); break;
    default: break; } }
void sim_imm(Thread&t,Call&c){ RankS&r=R[t.rank]; r.cnt[c.op]++; c.ret=0;
  switch(c.op){
    case O_INIT: if(r.inited) MPIERR("init","MPI_Init called twice"); r.inited=true; if(ARG(3)) *PTR(int,3)=opt.thread_level; break;
    case O_FINALIZE: r.finalized=true; break;
    case O_INITIALIZED: *PTR(int,0)=r.inited; break;
    case O_FINALIZED: *PTR(int,0)=r.finalized; break;
    case O_QTHREAD: *PTR(int,0)=opt.thread_level; break;
    case O_ABORT: case O_EXIT: { if(r.expect_set){ if(r.expect){ load_rank(t.rank); call_on_main(t.rank); int ok=r.expect(); call_on_main(-1); if(!ok) viol("prop","abort-check","rank %d: state at the expected termination is wrong",t.rank); } aborted=1; throw EndExec(); } viol("abort",c.op==O_ABORT?"mpi-abort":"exit","rank %d: the library terminated the program (%s)",t.rank,c.op==O_ABORT?"MPI_Abort":"exit/abort"); }
    case O_WTIME: c.ret=++r.wtime; break;
    case O_C_RANK: *PTR(int,1)=comm(t,INT(0))->rank(t.rank); break;
    case O_C_SIZE: *PTR(int,1)=(int)comm(t,INT(0))->local(t.rank).size(); break;
    case O_C_RSIZE: *PTR(int,1)=(int)comm(t,INT(0))->remote(t.rank).size(); break;
    case O_C_TESTINTER: *PTR(int,1)=comm(t,INT(0))->inter; break;
    case O_C_FREE: { CommP p=comm(t,*PTR(int,0)); int i=*PTR(int,0)&0xffffff; if(i<3) MPIERR("comm-free","rank %d: MPI_Comm_free of a predefined communicator",t.rank); p->freed[t.rank]=true; r.comms.v[i]=nullptr; *PTR(int,0)=MPI_COMM_NULL; break; }
    case O_C_GROUP: *PTR(int,1)=addgroup(t.rank,comm(t,INT(0))->local(t.rank)); break;
    case O_C_CMP: { CommP a=comm(t,INT(0)),b=comm(t,INT(1)); int v; if(a==b) v=MPI_IDENT; else if(a->mem==b->mem) v=MPI_CONGRUENT; else { auto x=a->mem,y=b->mem; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); v=x==y?MPI_SIMILAR:MPI_UNEQUAL; } *PTR(int,2)=v; break; }
    case O_C_ATTR: { static int tub; tub=opt.tagub; if(INT(1)==MPI_TAG_UB){ *PTR(int*,2)=&tub; *PTR(int,3)=1; } else *PTR(int,3)=0; break; }
    case O_G_INCL: { GroupP g=group(t,INT(0)); vector<int> m; for(int i=0;i<INT(1);i++){ int k=PTR(int,2)[i]; if(k<0||k>=(int)g->mem.size()) MPIERR("bad-rank","rank %d: MPI_Group_incl with invalid rank %d",t.rank,k); if(std::find(m.begin(),m.end(),g->mem[k])!=m.end()) MPIERR("bad-rank","rank %d: MPI_Group_incl with duplicate rank %d",t.rank,k); m.push_back(g->mem[k]); } *PTR(int,3)=addgroup(t.rank,m); break; }
    case O_G_EXCL: { GroupP g=group(t,INT(0)); vector<int> m; for(int j=0;j<(int)g->mem.size();j++){ bool ex=false; for(int i=0;i<INT(1);i++) ex|=PTR(int,2)[i]==j; if(!ex) m.push_back(g->mem[j]); } *PTR(int,3)=addgroup(t.rank,m); break; }
    case O_G_FREE: { group(t,*PTR(int,0)); int i=*PTR(int,0)&0xffffff; if(i>=2) r.groups.v[i]=nullptr; *PTR(int,0)=MPI_GROUP_NULL; break; }
    case O_G_TRANS: { GroupP a=group(t,INT(0)),b=group(t,INT(3)); for(int i=0;i<INT(1);i++){ int k=PTR(int,2)[i]; if(k==MPI_PROC_NULL){ PTR(int,4)[i]=MPI_PROC_NULL; continue; } if(k<0||k>=(int)a->mem.size()) MPIERR("bad-rank","rank %d: MPI_Group_translate_ranks of invalid rank %d",t.rank,k); auto it=std::find(b->mem.begin(),b->mem.end(),a->mem[k]); PTR(int,4)[i]=it==b->mem.end()?MPI_UNDEFINED:(int)(it-b->mem.begin()); } break; }
    case O_G_SIZE: *PTR(int,1)=(int)group(t,INT(0))->mem.size(); break;
    case O_G_RANK: { GroupP a=group(t,INT(0)); auto it=std::find(a->mem.begin(),a->mem.end(),t.rank); *PTR(int,1)=it==a->mem.end()?MPI_UNDEFINED:(int)(it-a->mem.begin()); break; }
    case O_G_CMP: { auto x=group(t,INT(0))->mem,y=group(t,INT(1))->mem; int v=MPI_UNEQUAL; if(x==y) v=MPI_IDENT; else { std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(x==y) v=MPI_SIMILAR; } *PTR(int,2)=v; break; }
    case O_G_UNION: case O_G_INTER: case O_G_DIFF: { GroupP a=group(t,INT(0)),b=group(t,INT(1)); vector<int> m; auto in=[&](vector<int>&v,int x){ return std::find(v.begin(),v.end(),x)!=v.end(); }; for(int x:a->mem) if(c.op==O_G_UNION||in(b->mem,x)==(c.op==O_G_INTER)) m.push_back(x); if(c.op==O_G_UNION) for(int x:b->mem) if(!in(m,x)) m.push_back(x); *PTR(int,2)=addgroup(t.rank,m); break; }
    case O_ISEND: { auto q=make_shared<Req>(); q->kind=1; q->matched=do_send(t,c,opt.sync_send); *PTR(int,6)=0x07000000|r.reqs.add(q); break; }
    case O_IRECV: { auto q=make_shared<Req>(); q->kind=2; q->buf=ARG(0); q->cnt=INT(1); q->t=type(t,INT(2)); q->src=INT(3); q->tag=INT(4); q->comm=comm(t,INT(5)); chk_src(t,*q->comm,q->src); *PTR(int,6)=0x07000000|r.reqs.add(q); break; }
    case O_IPROBE: { CommP cm=comm(t,INT(2)); auto m=find_msg(*cm,t.rank,INT(0),INT(1),false); *PTR(int,3)=m?1:0; if(m) set_status(ARG(4),m->src,m->tag,(i64)m->data.size()); break; }
    case O_IBARRIER: { auto q=make_shared<Req>(); q->kind=3; q->coll=arrive(t,c); *PTR(int,1)=0x07000000|r.reqs.add(q); break; }
    case O_REQFREE: { req(t,*PTR(int,0)); r.reqs.v[*PTR(int,0)&0xffffff]=nullptr; *PTR(int,0)=MPI_REQUEST_NULL; break; }
    case O_REQSTATUS: { *PTR(int,1)=INT(0)==MPI_REQUEST_NULL?1:(int)req_done_already(t,req(t,INT(0))); break; }
    case O_REDLOCAL: { TypeP ty=type(t,INT(3)); op_check(t,INT(4),ty); vector<u8> a,b; pack(t.rank,ARG(0),INT(2),*ty,a); pack(t.rank,ARG(1),INT(2),*ty,b); run_op(t,INT(4),ty,a,b,INT(2),INT(3)); unpack(t.rank,ARG(1),INT(2),*ty,b.data(),(i64)b.size()); break; }
    case O_OP_CREATE: { auto u=make_shared<UOp>(); u->fn=(MPI_User_function*)ARG(0); u->commute=INT(1); *PTR(int,2)=0x05000000|r.ops.add(u); break; }
    case O_OP_FREE: { int i=*PTR(int,0)&0xffffff; if((*PTR(int,0)>>24)!=5||i<32||!r.ops.get(i)) MPIERR("bad-op","rank %d: MPI_Op_free of an invalid operator",t.rank); r.ops.v[i]=nullptr; *PTR(int,0)=MPI_OP_NULL; break; }
    case O_OP_COMM: { int i=INT(0)&0xffffff; *PTR(int,1)=i<32?1:r.ops.get(i)->commute; break; }
    case O_I_CREATE: *PTR(int,0)=0x06000000|r.infos.add(make_shared<Info>()); break;
    case O_I_SET: { InfoP i=r.infos.sp(INT(0)&0xffffff); if(!i) MPIERR("bad-info","rank %d: MPI_Info_set on a null or freed info",t.rank); if(!ARG(1)||!ARG(2)||strlen(PTR(char,1))==0||strlen(PTR(char,1))>MPI_MAX_INFO_KEY) MPIERR("bad-info","rank %d: invalid info key",t.rank); i->kv[PTR(char,1)]=PTR(char,2); break; }
    case O_I_FREE: { int i=*PTR(int,0)&0xffffff; if(!r.infos.get(i)) MPIERR("bad-info","rank %d: MPI_Info_free of a null or freed info",t.rank); r.infos.v[i]=nullptr; *PTR(int,0)=MPI_INFO_NULL; break; }
    case O_I_GET: { InfoP i=r.infos.sp(INT(0)&0xffffff); if(!i) MPIERR("bad-info","rank %d: MPI_Info_get on a null or freed info",t.rank); auto it=i->kv.find(PTR(char,1)); if(it==i->kv.end()) *PTR(int,4)=0; else { *PTR(int,4)=1; strncpy(PTR(char,3),it->second.c_str(),INT(2)); PTR(char,3)[std::min<size_t>(INT(2),it->second.size())]=0; } break; }
    case O_I_DUP: { InfoP i=r.infos.sp(INT(0)&0xffffff); if(!i) MPIERR("bad-info","null info"); *PTR(int,1)=0x06000000|r.infos.add(make_shared<Info>(*i)); break; }
    case O_ALLOC: { if(LNG(0)<0) MPIERR("bad-arg","rank %d: MPI_Alloc_mem of %ld bytes",t.rank,LNG(0)); if(INT(1)!=MPI_INFO_NULL&&!r.infos.get(INT(1)&0xffffff)) MPIERR("bad-info","rank %d: MPI_Alloc_mem with a freed info",t.rank); void*p=!LNG(0)&&opt.alloc0?nullptr:arena_alloc(t.rank,(size_t)LNG(0),2); load_rank(t.rank); *PTR(void*,2)=p; break; }
    case O_FREEMEM: { if(!ARG(0)&&opt.alloc0) break; if(!ARG(0)) MPIERR("free-mem","rank %d: MPI_Free_mem(NULL)",t.rank); for(auto&w:allwins) if(!w->freed[t.rank]&&w->comm->rank(t.rank)>=0&&w->size[t.rank]>0&&w->base[t.rank]==ARG(0)) MPIERR("free-mem","rank %d: MPI_Free_mem of memory exposed in a live window",t.rank); arena_free(t.rank,PTR(void,0),2); break; }
    case O_T_CONTIG: case O_T_VECTOR: case O_T_HVECTOR: case O_T_INDEXED: case O_T_HINDEXED: case O_T_IBLOCK: case O_T_HIBLOCK: case O_T_STRUCT: case O_T_SUBARRAY: case O_T_RESIZED: case O_T_DUP: {
      auto n=make_shared<Type>(); Type&x=*n; bool setb=false; u64 out=0; auto chk=[&](i64 v){ chkcount(t,v); }; auto bounds=[&](i64 off,const Type&o,i64 cnt){ if(cnt<=0) return; i64 lo=off+o.lb, hi=off+(cnt-1)*o.ext()+o.ub; if(o.ext()<0) lo=off+(cnt-1)*o.ext()+o.lb; if(!setb){ x.lb=lo; x.ub=hi; setb=true; } else { x.lb=std::min(x.lb,lo); x.ub=std::max(x.ub,hi);} };
      switch(c.op){
        case O_T_CONTIG: { chk(INT(0)); TypeP o=type_any(t,INT(1)); tadd(x,0,*o,INT(0)); bounds(0,*o,INT(0)); out=ARG(2); break; }
        case O_T_DUP: { TypeP o=type_any(t,INT(0)); x=*o; x.builtin=false; setb=true; out=ARG(1); break; }
        case O_T_RESIZED: { TypeP o=type_any(t,INT(0)); x=*o; x.builtin=false; x.lb=LNG(1); x.ub=LNG(1)+LNG(2); setb=true; x.committed=false; out=ARG(3); break; }
        case O_T_VECTOR: case O_T_HVECTOR: { chk(INT(0)); chk(INT(1)); TypeP o=type_any(t,INT(3)); i64 s=c.op==O_T_VECTOR?INT(2)*o->ext():LNG(2); for(int i=0;i<INT(0);i++){ tadd(x,i*s,*o,INT(1)); bounds(i*s,*o,INT(1)); } out=ARG(4); break; }
        case O_T_INDEXED: case O_T_HINDEXED: { chk(INT(0)); TypeP o=type_any(t,INT(3)); for(int i=0;i<INT(0);i++){ chk(PTR(int,1)[i]); i64 d=c.op==O_T_INDEXED?PTR(int,2)[i]*o->ext():PTR(long,2)[i]; tadd(x,d,*o,PTR(int,1)[i]); bounds(d,*o,PTR(int,1)[i]); } out=ARG(4); break; }
        case O_T_IBLOCK: case O_T_HIBLOCK: { chk(INT(0)); chk(INT(1)); TypeP o=type_any(t,INT(3)); for(int i=0;i<INT(0);i++){ i64 d=c.op==O_T_IBLOCK?PTR(int,2)[i]*o->ext():PTR(long,2)[i]; tadd(x,d,*o,INT(1)); bounds(d,*o,INT(1)); } out=ARG(4); break; }
        case O_T_STRUCT: { chk(INT(0)); for(int i=0;i<INT(0);i++){ TypeP o=type_any(t,PTR(int,3)[i]); tadd(x,PTR(long,2)[i],*o,PTR(int,1)[i]); bounds(PTR(long,2)[i],*o,PTR(int,1)[i]); } out=ARG(4); break; }
        case O_T_SUBARRAY: { int nd=INT(0); const int*sz=PTR(int,1),*ss=PTR(int,2),*st=PTR(int,3); TypeP o=type_any(t,INT(5)); if(nd<1) MPIERR("bad-arg","rank %d: subarray with %d dimensions",t.rank,nd); bool C=INT(4)==MPI_ORDER_C; i64 tot=1; for(int i=0;i<nd;i++){ if(sz[i]<1||ss[i]<1||ss[i]>sz[i]||st[i]<0||st[i]+ss[i]>sz[i]) MPIERR("bad-subarray","rank %d: invalid subarray dimension %d: size %d subsize %d start %d",t.rank,i,sz[i],ss[i],st[i]); tot*=sz[i]; }
            vector<int> ix(nd,0); for(;;){ i64 lin=0; if(C) for(int i=0;i<nd;i++) lin=lin*sz[i]+st[i]+ix[i]; else for(int i=nd-1;i>=0;i--) lin=lin*sz[i]+st[i]+ix[i]; tadd(x,lin*o->ext(),*o,1); int d; if(C){ for(d=nd-1;d>=0;d--){ if(++ix[d]<ss[d]) break; ix[d]=0; } if(d<0) break; } else { for(d=0;d<nd;d++){ if(++ix[d]<ss[d]) break; ix[d]=0; } if(d==nd) break; } } x.lb=0; x.ub=tot*o->ext(); setb=true; out=ARG(6); break; } }
      x.committed=false; tfinish(x); if(c.op==O_T_DUP) x.committed=true; *(int*)out=addtype(t.rank,n); break; }
    case O_T_COMMIT: type_any(t,*PTR(int,0))->committed=true; break;
    case O_T_FREE: { TypeP p=type_any(t,*PTR(int,0)); if(p->builtin) MPIERR("type-free","rank %d: MPI_Type_free of a predefined datatype",t.rank); r.types.v[*PTR(int,0)&0xffffff]=nullptr; *PTR(int,0)=MPI_DATATYPE_NULL; break; }
    case O_T_SIZE: *PTR(int,1)=(int)type_any(t,INT(0))->size; break;
    case O_T_EXTENT: { TypeP p=type_any(t,INT(0)); *PTR(long,1)=p->lb; *PTR(long,2)=p->ext(); break; }
    case O_T_TEXTENT: { TypeP p=type_any(t,INT(0)); *PTR(long,1)=p->ctlb; *PTR(long,2)=p->ctub-p->ctlb; break; }
    case O_PACK: { TypeP ty=type(t,INT(2)); vector<u8> d; pack(t.rank,ARG(0),INT(1),*ty,d); int*pos=PTR(int,5); if(*pos+(int)d.size()>INT(4)) MPIERR("truncate","MPI_Pack buffer too small"); mwrite(t.rank,(void*)(ARG(3)+*pos),d.data(),d.size()); *pos+=(int)d.size(); break; }
    case O_UNPACK: { TypeP ty=type(t,INT(5)); int*pos=PTR(int,2); i64 n=INT(4)*ty->size; if(*pos+n>INT(1)) MPIERR("truncate","MPI_Unpack buffer too small"); vector<u8> d((size_t)n); mread(t.rank,(void*)(ARG(0)+*pos),d.data(),d.size()); unpack(t.rank,ARG(3),INT(4),*ty,d.data(),n); *pos+=(int)n; break; }
    case O_W_LOCKALL: { WinP w=win(t,INT(1)); if(w->lockall[t.rank]) MPIERR("lock-nested","rank %d: nested MPI_Win_lock_all",t.rank); for(int m:w->comm->mem){ if(w->lk[t.rank][m]) MPIERR("lock-nested","rank %d: MPI_Win_lock_all with a lock held",t.rank); } w->lockall[t.rank]=true; break; }
    case O_W_SYNC: { win(t,INT(0)); break; }
    case O_W_ATTR: { WinP w=win(t,INT(0)); static long v[4][MAXR]; *PTR(int,3)=1; switch(INT(1)){ case MPI_WIN_BASE: *PTR(u64,2)=w->base[t.rank]; break; case MPI_WIN_SIZE: v[0][t.rank]=w->size[t.rank]; *PTR(void*,2)=&v[0][t.rank]; break; case MPI_WIN_DISP_UNIT: v[1][t.rank]=w->du[t.rank]; *PTR(void*,2)=&v[1][t.rank]; break; case MPI_WIN_CREATE_FLAVOR: v[2][t.rank]=w->flavor; *PTR(void*,2)=&v[2][t.rank]; break; case MPI_WIN_MODEL: v[3][t.rank]=opt.win_model; *PTR(void*,2)=&v[3][t.rank]; if(!opt.win_model) *PTR(int,3)=0; break; default: *PTR(int,3)=0; } break; }
    case O_W_GROUP: *PTR(int,1)=addgroup(t.rank,win(t,INT(0))->comm->mem); break;
    case O_PUT: issue(t,c,O_PUT,ARG(0),INT(1),INT(2),0,0,0,INT(3),LNG(4),INT(5),INT(6),0,INT(7),nullptr); break;
    case O_RPUT: issue(t,c,O_PUT,ARG(0),INT(1),INT(2),0,0,0,INT(3),LNG(4),INT(5),INT(6),0,INT(7),PTR(int,8)); break;
    case O_GET: issue(t,c,O_GET,0,0,0,ARG(0),INT(1),INT(2),INT(3),LNG(4),INT(5),INT(6),0,INT(7),nullptr); break;
    case O_RGET: issue(t,c,O_GET,0,0,0,ARG(0),INT(1),INT(2),INT(3),LNG(4),INT(5),INT(6),0,INT(7),PTR(int,8)); break;
    case O_ACC: issue(t,c,O_ACC,ARG(0),INT(1),INT(2),0,0,0,INT(3),LNG(4),INT(5),INT(6),INT(7),INT(8),nullptr); break;
    case O_RACC: issue(t,c,O_ACC,ARG(0),INT(1),INT(2),0,0,0,INT(3),LNG(4),INT(5),INT(6),INT(7),INT(8),PTR(int,9)); break;
    case O_GACC: issue(t,c,O_GACC,ARG(0),INT(1),INT(2),ARG(3),INT(4),INT(5),INT(6),LNG(7),INT(8),INT(9),INT(10),INT(11),nullptr); break;
    case O_RGACC: issue(t,c,O_GACC,ARG(0),INT(1),INT(2),ARG(3),INT(4),INT(5),INT(6),LNG(7),INT(8),INT(9),INT(10),INT(11),PTR(int,12)); break;
    case O_FOP: issue(t,c,O_FOP,ARG(0),1,INT(2),ARG(1),1,INT(2),INT(3),LNG(4),1,INT(2),INT(5),INT(6),nullptr); break;
    case O_CAS: issue(t,c,O_CAS,ARG(0),1,INT(3),ARG(2),1,INT(3),INT(4),LNG(5),1,INT(3),MPI_REPLACE,INT(6),nullptr,ARG(1)); break;
    // harness
    case O_MC_FAIL: viol("prop",PTR(char,0),"%s",PTR(char,1));
    case O_MC_SKIP: throw Skip();
    case O_MC_CHOOSE: c.ret=choose(INT(0),0); break;
    case O_MC_PEEK: mread(INT(0),PTR(void,1),PTR(void,2),ARG(3)); break;
    case O_MC_POKE: mwrite(INT(0),PTR(void,1),PTR(void,2),ARG(3)); break;
    case O_MC_EXPECT: r.expect_set=true; r.expect=(int(*)(void))ARG(0); break;
    case O_MC_RES: c.ret=sim_resources(t.rank,INT(0)); break;
    case O_MC_LEAK: { string s=sim_leaks(t.rank); if(!s.empty()) viol("leak",PTR(char,0),"rank %d still holds: %s",t.rank,s.c_str()); break; }
    case O_MC_ADDR: c.ret=arena_live(t.rank,PTR(void,0),ARG(1)); break;
    case O_MC_COUNTER: c.ret=sim_counter(t.rank,PTR(char,0)); break;
    case O_PM_TRYLOCK: { int*m=PTR(int,0); if(m[0]==0){ m[0]=t.id+1; race_acquire(t.id,ARG(0)); c.ret=0; } else c.ret=16; break; }
    case O_PM_UNLOCK: { int*m=PTR(int,0); if(m[0]!=t.id+1) viol("mpi","mutex-unlock","rank %d: unlock of a pthread mutex that the thread does not hold",t.rank); race_release(t.id,ARG(0)); m[0]=0; break; }
    case O_PC_ENTER: { int*m=PTR(int,1),*q=PTR(int,0); if(m[0]!=t.id+1) viol("mpi","mutex-unlock","rank %d: waiting on a condition variable without holding the mutex",t.rank); race_release(t.id,ARG(1)); m[0]=0; c.ret=q[0]++; break; }
    case O_PC_SIGNAL: { int*q=PTR(int,0); if(INT(1)) q[1]=q[0]; else if(q[1]<q[0]) q[1]++; break; }
    case O_RW_UN: { int*m=PTR(int,0); if(m[0]==t.id+1){ race_release(t.id,ARG(0)); m[0]=0; } else if(!m[0]&&m[1]>0){ race_release(t.id,ARG(0)+4); m[1]--; } else viol("mpi","mutex-unlock","rank %d: unlock of a pthread read-write lock that the thread does not hold",t.rank); break; }
    default: internal_error("unhandled call %s",op_names[c.op]); }
  mem_dirty(t.rank); }
// ---------------------------------------------------------------- resources
int sim_resources(int rank,int kind){ RankS&r=R[rank]; switch(kind){ case MC_COMMS: return r.comms.live(); case MC_WINS: return r.wins.live(); case MC_TYPES: return r.types.live(); case MC_GROUPS: return r.groups.live(); case MC_INFOS: return r.infos.live(); case MC_OPS: return r.ops.live(); case MC_REQS: return r.reqs.live(); case MC_ARENA: return arena_count(rank,0); case MC_HEAP: return heap_count(rank); case MC_MSGS: { int n=0; for(auto&w:allcomms) if(auto c=w.lock()) n+=(int)c->q[rank].size(); return n; } case MC_PENDING: { int n=0; for(auto&w:allwins) for(auto&p:w->pend) n+=p->org==rank; return n; } } return -1; }
string sim_leaks(int rank){ static const char*nm[]={"communicator","window","datatype","group","info","operator","request","message-layer memory block","heap block","undelivered message","pending operation"}; string s; for(int k=0;k<=10;k++){ int n=sim_resources(rank,k); if(n){ if(s.size()) s+=", "; s+=std::to_string(n)+" "+nm[k]; } } return s; }
int sim_counter(int rank,const char*n){ RankS&r=R[rank]; if(!strncmp(n,"blocked",7)){ int q=atoi(n+7); Thread&t=thr[q]; bool b=!t.done&&t.started&&t.call&&!sim_enabled(t,*t.call); load_rank(rank); return b?(t.call->op==O_W_LOCK?1:2):0; } if(!strcmp(n,"maxreq")) return r.maxreq; if(!strcmp(n,"granularity")) return r.granul; if(!strcmp(n,"aborted")) return aborted; for(int i=0;i<O_LAST;i++) if(!strcmp(op_names[i],n)) return (int)r.cnt[i]; return -1; }
// ---------------------------------------------------------------- state hash
void race_hash(H&);
void sim_hash(H&h){ race_hash(h); for(auto&w:allwins){ h.i(w->id); for(int i=0;i<nranks;i++){ h.i(w->lockall[i]); h.b(w->lk[i],nranks); } for(auto&p:w->pend){ h.i(p->kind); h.i((u64)p->org<<32|p->tgt<<16|p->st<<4|p->captured<<1|p->localdone); h.i(p->taddr); h.i(p->tc); h.i(p->oaddr); h.i(p->raddr); h.i(p->op); h.b(p->data.data(),p->data.size()); h.b(p->newdata.data(),p->newdata.size()); h.i((u64)p->tt->size); h.i(p->tt->runs.size()); for(auto&x:p->tt->runs) h.i((u64)x.off<<20^x.len); if(p->ot){ h.i(p->oc); for(auto&x:p->ot->runs) h.i((u64)x.off<<20^x.len); } } h.i(77); }
  for(auto&wc:allcomms) if(auto c=wc.lock()){ for(int i=0;i<nranks;i++){ h.i(c->seq[i]); for(auto&m:c->q[i]){ h.i((u64)m->src<<32|(u64)(unsigned)m->tag); h.b(m->data.data(),m->data.size()); if(m->special) h.i(99); } h.i(55); } for(auto&k:c->colls){ h.i(k.first); for(size_t i=0;i<k.second->all.size();i++){ h.i(k.second->arr[i]*2+k.second->took[i]); h.b(k.second->data[i].data(),k.second->data[i].size()); } h.i(k.second->paired); } h.i(33); }
  for(int r=0;r<nranks;r++){ RankS&s=R[r]; for(auto&q:s.reqs.v){ if(!q){ h.i(1); continue; } h.i(q->kind*16+q->tests); if(q->op){ h.i(q->op->gone*4+q->op->localdone*2+q->flushed); h.i(q->op->taddr*64+q->op->kind); } } h.i(s.comms.v.size()*1000+s.wins.v.size()*100+s.types.live()); h.i(s.expect_set); h.i(s.wtime); }
  for(int k=0;k<3;k++) h.i(bar_gen[k]*16+bar_count[k]); h.i(exploring); }
