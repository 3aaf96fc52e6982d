// Symbolic executor: memory model, instruction semantics, path exploration.
#include "ir.h"
#include "solver.h"
#include <chrono>
#include <set>
#include <deque>
#include <unordered_set>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <sys/resource.h>
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_t0, g_tlimit=240; static u64 g_maxSteps=50000000; static int g_jobs=1; static bool g_trace=false; static u64 g_maxViol=3;
static std::vector<u64> g_params; static std::string g_outdir=".";

// ---------------- memory
static const int PS=64;
struct Page { int rc=1; u64 init=0; u8 c[PS]; Ex** sym=nullptr; ~Page(){ delete[] sym; } };
static Page* newPage(bool zero){ Page*p=new Page(); memset(p->c,0,PS); p->init=zero?~(u64)0:0; return p; }
static Page* clonePage(Page*o){ Page*p=new Page(); p->init=o->init; memcpy(p->c,o->c,PS); if(o->sym){ p->sym=new Ex*[PS]; memcpy(p->sym,o->sym,sizeof(Ex*)*PS);} return p; }
enum { F_FREED=1, F_HEAP=2, F_RO=4, F_STACK=8, F_ZERO=16, F_FN=32 };
struct Obj { int rc=1; u64 size=0; u8 fl=0; u32 tag=0; std::vector<Page*> pg; 
  ~Obj(){ for(Page*p:pg) if(p&&--p->rc==0) delete p; } };
struct ObjRef { Obj*o; ObjRef(Obj*x=nullptr):o(x){} ObjRef(const ObjRef&r):o(r.o){ if(o)o->rc++; } ObjRef(ObjRef&&r)noexcept:o(r.o){r.o=nullptr;} ObjRef&operator=(ObjRef r){ std::swap(o,r.o); return *this;} ~ObjRef(){ if(o&&--o->rc==0) delete o; } };
static Obj* cloneObj(Obj*x){ Obj*n=new Obj(); n->size=x->size;n->fl=x->fl;n->tag=x->tag;n->pg=x->pg; for(Page*p:n->pg) if(p)p->rc++; return n; }
static const u64 BASE=0x80000000ull;
static inline u64 addrOf(u32 id){ return ((u64)id<<32)|BASE; }
static inline u32 idOf(u64 a){ return (u32)(a>>32); }

struct Frame { Function*fn; int bb=0, ip=0, prev=-1; std::vector<Val> r; std::vector<u32> al; int retDst=-1; };
struct State {
  std::vector<std::shared_ptr<Frame>> st; std::vector<ObjRef> objs; std::vector<u32> freeStack; std::vector<std::pair<u64,u32>> freeHeap; int reuse=0;
  std::vector<Ex*> pc; std::vector<const Dom*> dom; std::vector<u8> multi, sing; Model m; std::vector<u8> vkind; // 0 input, 1 uninit
  std::vector<u32> inputs; std::unordered_map<Ex*,u64> known; u64 steps=0; u32 depth=0; u64 errnoAddr=0; std::vector<u64> tls; 
  Frame& top(){ if(st.back().use_count()>1) st.back()=std::make_shared<Frame>(*st.back()); return *st.back(); }
  Obj& wr(u32 id){ ObjRef&r=objs[id]; if(r.o->rc>1){ Obj*n=cloneObj(r.o); r=ObjRef(n);} return *r.o; }
};
static Page* wpage(Obj&o,u64 i){ Page*&p=o.pg[i]; if(!p) p=newPage(o.fl&F_ZERO); else if(p->rc>1){ Page*n=clonePage(p); p->rc--; p=n; } return p; }
struct PathEnd { int k; std::string kind,msg; }; // k: 0 normal,1 pruned,2 violation,3 incomplete
[[noreturn]] static void viol(const char*kind,const std::string&msg){ throw PathEnd{2,kind,msg}; }
[[noreturn]] static void incomplete(const std::string&msg){ throw PathEnd{3,"incomplete",msg}; }

static State* S; static std::deque<State*> work; 
static std::unordered_map<u64,Function*> fnByAddr; static u32 nextFnId=0x40000000;
u64 fnAddr(Function*f){ if(!f->addr){ f->addr=((u64)nextFnId++<<32)|BASE; fnByAddr[f->addr]=f; } return f->addr; }
Function* fnAt(u64 a){ auto it=fnByAddr.find(a); return it==fnByAddr.end()?nullptr:it->second; }

static u32 newObj(State&s,u64 size,u8 fl,int id=-1){ Obj*o=new Obj(); o->size=size;o->fl=fl;o->pg.resize((size+PS-1)/PS,nullptr); if(id>=0){ s.objs[id]=ObjRef(o); return id; } if((fl&F_STACK)&&!s.freeStack.empty()){ u32 i=s.freeStack.back(); s.freeStack.pop_back(); s.objs[i]=ObjRef(o); return i; } s.objs.push_back(ObjRef(o)); return (u32)s.objs.size()-1; }
static u32 newVar(State&s,int kind){ u32 v=(u32)s.vkind.size(); s.vkind.push_back(kind); s.m.push_back(0); s.dom.push_back(nullptr); s.multi.push_back(0); s.sing.push_back(0); if(kind==0) s.inputs.push_back(v); return v; }

static char bufm[256];
static Obj& chk(State&s,u64 a,u64 n,u64&off,bool wr,const char*what){
  u32 id=idOf(a);
  if(id==0||id>=s.objs.size()||!s.objs[id].o){ snprintf(bufm,256,"%s of %llu bytes through invalid pointer 0x%llx",what,(unsigned long long)n,(unsigned long long)a); viol(a<4096?"null-deref":"wild-pointer",bufm); }
  Obj&o=*s.objs[id].o; off=a-addrOf(id);
  if(o.fl&F_FREED){ snprintf(bufm,256,"%s of %llu bytes in freed %s object (size %llu)",what,(unsigned long long)n,(o.fl&F_STACK)?"stack":"heap",(unsigned long long)o.size); viol("use-after-free",bufm); }
  if(off>o.size||n>o.size-off){ snprintf(bufm,256,"%s of %llu bytes at offset %lld of a %llu-byte object",what,(unsigned long long)n,(long long)off,(unsigned long long)o.size); viol("out-of-bounds",bufm); }
  if(wr&&(o.fl&F_RO)) viol("write-to-constant",what);
  return o; }
static Ex* uninitByte(State&s,u32 id,u64 off){ u32 v=newVar(s,1); Ex*e=mkVar(v); Page*p=wpage(s.wr(id),off/PS); if(!p->sym){p->sym=new Ex*[PS](); } p->sym[off%PS]=e; p->init|=1ull<<(off%PS); return e; }
static Val byteAt(State&s,u32 id,Obj&o,u64 off){ Page*p=o.pg[off/PS]; unsigned i=off%PS; if(!p){ if(o.fl&F_ZERO) return Val{0,nullptr}; return Val{0,uninitByte(s,id,off)}; } if(!((p->init>>i)&1)) return Val{0,uninitByte(s,id,off)}; if(p->sym&&p->sym[i]) return Val{0,p->sym[i]}; return Val{p->c[i],nullptr}; }
static inline Ex* ex(const Val&v,unsigned w){ return v.e?v.e:mkConst(v.c,w); }
static inline Val val(Ex*e){ if(isc(e)&&e->w<=64) return Val{(u64)e->c,nullptr}; return Val{0,e}; }
static Val loadC(State&s,u64 a,unsigned w){
  u64 off; unsigned n=(w+7)/8; Obj*o=&chk(s,a,n,off,false,"read"); u32 id=idOf(a);
  Page*p=o->pg[off/PS]; unsigned i=off%PS;
  if(p&&i+n<=PS&&!p->sym){ u64 mk=(n>=64?~(u64)0:((1ull<<n)-1))<<i; if((p->init&mk)==mk&&n<=8){ u64 v=0; memcpy(&v,p->c+i,n); if(w<64) v&=((u64)1<<w)-1; return Val{v,nullptr}; } }
  bool sym=false; u128 c=0; Val bs[16]; for(unsigned k=0;k<n;k++){ bs[k]=byteAt(s,id,*o,off+k); o=s.objs[id].o; if(bs[k].e) sym=true; else c|=(u128)bs[k].c<<(8*k); }
  if(!sym){ c&=maskw(w); if(w<=64) return Val{(u64)c,nullptr}; return Val{0,mkConst(c,w)}; }
  Ex*r=nullptr; for(unsigned k=0;k<n;k++){ Ex*b=ex(bs[k],8); r=r?mkConcat(b,r):b; } if(r->w!=w) r=mkExtract(r,0,w); return val(r); }
static void storeC(State&s,u64 a,unsigned w,Val v){
  u64 off; unsigned n=(w+7)/8; chk(s,a,n,off,true,"write"); Obj&o=s.wr(idOf(a));
  if(v.e&&isc(v.e)){ for(unsigned k=0;k<n;k++){ Page*p=wpage(o,(off+k)/PS); unsigned i=(off+k)%PS; p->c[i]=(u8)(v.e->c>>(8*k)); p->init|=1ull<<i; if(p->sym)p->sym[i]=nullptr; } return; }
  if(!v.e){ u64 c=v.c; unsigned i=off%PS; if(i+n<=PS&&n<=8){ Page*p=wpage(o,off/PS); memcpy(p->c+i,&c,n); p->init|=((n>=64?~(u64)0:((1ull<<n)-1))<<i); if(p->sym) for(unsigned k=0;k<n;k++) p->sym[i+k]=nullptr; return; }
    for(unsigned k=0;k<n;k++){ Page*p=wpage(o,(off+k)/PS); unsigned j=(off+k)%PS; p->c[j]=k<8?(u8)(c>>(8*k)):0; p->init|=1ull<<j; if(p->sym)p->sym[j]=nullptr; } return; }
  Ex*e=v.e; if(e->w<n*8) e=mkZext(e,n*8);
  for(unsigned k=0;k<n;k++){ Page*p=wpage(o,(off+k)/PS); unsigned j=(off+k)%PS; Ex*b=mkExtract(e,8*k,8); p->init|=1ull<<j; if(isc(b)){ p->c[j]=(u8)b->c; if(p->sym)p->sym[j]=nullptr; } else { if(!p->sym)p->sym=new Ex*[PS](); p->sym[j]=b; } } }
static void copyMem(State&s,u64 d,u64 sr,u64 n,bool overlapOk){
  if(n==0) return; u64 so,dof; Obj*o=&chk(s,sr,n,so,false,"read"); chk(s,d,n,dof,true,"write"); u32 si=idOf(sr),di=idOf(d);
  if(si==di&&!overlapOk&&!(so+n<=dof||dof+n<=so)&&so!=dof) viol("overlapping-memcpy","memcpy on overlapping ranges");
  if(si==di&&so==dof) return;
  ObjRef hold(s.objs[si]); // keeps the source version
  Obj&t=s.wr(di); o=hold.o;
  auto one=[&](u64 k){ Page*p=o->pg[(so+k)/PS]; unsigned i=(so+k)%PS; Page*q=wpage(t,(dof+k)/PS); unsigned j=(dof+k)%PS;
    if(!p){ if(o->fl&F_ZERO){ q->c[j]=0;q->init|=1ull<<j; } else q->init&=~(1ull<<j); if(q->sym)q->sym[j]=nullptr; return; }
    if(!((p->init>>i)&1)){ q->init&=~(1ull<<j); if(q->sym)q->sym[j]=nullptr; return; }
    q->init|=1ull<<j; Ex*e=p->sym?p->sym[i]:nullptr; if(e){ if(!q->sym)q->sym=new Ex*[PS](); q->sym[j]=e; } else { q->c[j]=p->c[i]; if(q->sym)q->sym[j]=nullptr; } };
  u64 k=0; while(k<n){ Page*p=o->pg[(so+k)/PS]; unsigned i=(so+k)%PS,j=(dof+k)%PS; u64 run=std::min<u64>({n-k,(u64)(PS-i),(u64)(PS-j)});
    if(p&&!p->sym&&run>1){ u64 mk=run>=64?~(u64)0:((1ull<<run)-1); if(((p->init>>i)&mk)==mk){ Page*q=wpage(t,(dof+k)/PS); memcpy(q->c+j,p->c+i,run); q->init|=mk<<j; if(q->sym) for(u64 x=0;x<run;x++) q->sym[j+x]=nullptr; k+=run; continue; } }
    for(u64 x=0;x<run;x++) one(k+x); k+=run; } }
static void setMem(State&s,u64 d,Val b,u64 n){ if(n==0) return; u64 off; chk(s,d,n,off,true,"write"); Obj&o=s.wr(idOf(d)); u64 k=0; while(k<n){ unsigned j=(off+k)%PS; u64 run=std::min<u64>(n-k,PS-j); Page*q=wpage(o,(off+k)/PS); u64 mk=run>=64?~(u64)0:((1ull<<run)-1); q->init|=mk<<j; if(b.e){ if(!q->sym)q->sym=new Ex*[PS](); for(u64 x=0;x<run;x++)q->sym[j+x]=b.e; } else { memset(q->c+j,(u8)b.c,run); if(q->sym) for(u64 x=0;x<run;x++)q->sym[j+x]=nullptr; } k+=run; } }

// ---------------- constraints
struct DomHash{size_t operator()(const Dom&d)const{u64 h=0;for(u64 x:d.b)h=(h^x)*0x9e3779b97f4a7c15ull+(h>>7);return h;}}; struct DomEq{bool operator()(const Dom&a,const Dom&b)const{return !memcmp(&a,&b,sizeof a);}};
static std::unordered_set<Dom,DomHash,DomEq> doms; static const Dom* intern(const Dom&d){ return &*doms.insert(d).first; }
static const Dom* fullDom(){ static const Dom*f=intern(Dom{{~(u64)0,~(u64)0,~(u64)0,~(u64)0}}); return f; }
static std::unordered_map<Ex*,const Dom*> ttab; static Model ttm;
static const Dom* table(Ex*c){ auto it=ttab.find(c); if(it!=ttab.end()) return it->second; u32 v=(*c->vars)[0]; if(ttm.size()<=v) ttm.resize(v+1,0); u8 old=ttm[v]; Dom d{{0,0,0,0}}; for(int i=0;i<256;i++){ ttm[v]=i; g_evalEpoch++; if(evalEx(c,ttm)) d.b[i>>6]|=1ull<<(i&63);} ttm[v]=old; g_evalEpoch++; const Dom*r=intern(d); ttab[c]=r; return r; }
static bool emptyD(const Dom&d){return !(d.b[0]|d.b[1]|d.b[2]|d.b[3]);}
static Dom meet(const Dom*a,const Dom*b){ Dom r; for(int i=0;i<4;i++) r.b[i]=a->b[i]&b->b[i]; return r; }
static int pick(const Dom&d){ for(int i=0;i<4;i++) if(d.b[i]) return i*64+__builtin_ctzll(d.b[i]); return -1; }
static const Dom* domOf(State&s,u32 v){ return s.dom[v]?s.dom[v]:fullDom(); }
static bool evalIn(State&s,Ex*c){ g_evalEpoch++; return evalEx(c,s.m)!=0; }
static void flatten(Ex*c,std::vector<Ex*>&out){ if(c->op==O_AND&&c->w==1){flatten(c->a,out);flatten(c->b,out);} else if(!isc(c)) out.push_back(c); }
// ---- bytes whose domain has shrunk to one value are replaced by it
static int single(const Dom*d){ int v=-1; for(int i=0;i<4;i++) if(u64 x=d->b[i]){ if(v>=0||(x&(x-1))) return -1; v=i*64+__builtin_ctzll(x); } return v; }
static bool touches(State&s,Ex*e){ for(u32 v:*e->vars) if(s.dom[v]) return true; return false; }
struct EDKey{Ex*e;const Dom*d; bool operator==(const EDKey&o)const{return e==o.e&&d==o.d;}}; struct EDH{size_t operator()(const EDKey&k)const{return ((size_t)k.e>>4)*31+(size_t)k.d;}};
static std::unordered_map<EDKey,Ex*,EDH> constOn;
// a function of one byte that is the same for all the values the byte can still have
static Ex* constantOn(Ex*e,u32 v,const Dom*d){ auto it=constOn.find({e,d}); if(it!=constOn.end()) return it->second; if(ttm.size()<=v) ttm.resize(v+1,0); u8 old=ttm[v]; bool first=true,same=true; u128 val=0;
  for(int i=0;i<256&&same;i++) if(d->get(i)){ ttm[v]=i; g_evalEpoch++; u128 x=evalEx(e,ttm); if(first){ val=x; first=false; } else same=x==val; }
  ttm[v]=old; g_evalEpoch++; Ex*r=same&&!first?mkConst(val,e->w):nullptr; constOn[{e,d}]=r; return r; }
static Ex* substIn(State&s,Ex*e,std::unordered_map<Ex*,Ex*>&memo){
  if(e->op==O_VAR) return s.sing[e->lo]?mkConst(single(s.dom[e->lo]),8):e;
  if(!e->a||!touches(s,e)) return e;
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  if(e->vars->size()==1){ Ex*r=constantOn(e,(*e->vars)[0],s.dom[(*e->vars)[0]]); if(r) return r; if(e->op==O_CONCAT||e->op==O_EXTRACT) return e; }
  Ex*a=substIn(s,e->a,memo),*b=e->b?substIn(s,e->b,memo):nullptr,*r;
  switch(e->op){
   case O_CONCAT: r=mkConcat(a,b); break; case O_EXTRACT: r=mkExtract(a,e->lo,e->w); break; case O_SEXT: r=mkSext(a,e->w); break;
   case O_ITE: r=isc(a)?(a->c?b:substIn(s,e->d,memo)):mkIte(a,b,substIn(s,e->d,memo)); break;
   case O_EQ: r=mkEq(a,b); break; case O_ULT: case O_ULE: case O_SLT: case O_SLE: r=mkCmp(e->op,a,b); break;
   case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: r=(isc(b)&&!b->c)?e:mkBin(e->op,a,b); break;
   default: r=e->op>=O_FCMP?mkFp(e->op,e->w,e->aux,a,b):mkBin(e->op,a,b); }
  memo[e]=r; return r; }
static Ex* subst(State&s,Ex*e){ if(isc(e)||!touches(s,e)) return e; std::unordered_map<Ex*,Ex*> memo; return substIn(s,e,memo); }
// a byte's domain as a formula
struct DKey{u32 v;const Dom*d; bool operator==(const DKey&o)const{return v==o.v&&d==o.d;}}; struct DKH{size_t operator()(const DKey&k)const{return (size_t)k.d*31+k.v;}};
static std::unordered_map<DKey,Ex*,DKH> domEx;
static Ex* domFormula(u32 v,const Dom*d){ auto it=domEx.find({v,d}); if(it!=domEx.end()) return it->second; Ex*x=mkVar(v); int runs=0; for(int i=0;i<256;i++) if(d->get(i)&&(i==0||!d->get(i-1))) runs++;
  int nruns=0; for(int i=0;i<256;i++) if(!d->get(i)&&(i==0||d->get(i-1))) nruns++;
  bool neg=nruns<runs; Ex*r=mkFalse(); for(int i=0;i<256;){ if(d->get(i)==neg){i++;continue;} int j=i; while(j+1<256&&d->get(j+1)!=neg) j++; Ex*c=i==j?mkEq(x,mkConst(i,8)):mkAnd(i?mkCmp(O_ULE,mkConst(i,8),x):mkTrue(),j<255?mkCmp(O_ULE,x,mkConst(j,8)):mkTrue()); r=mkOr(r,c); i=j+1; }
  if(neg) r=mkNot(r); domEx[{v,d}]=r; return r; }
static void assume(State&s,Ex*cond){ std::vector<Ex*> work{cond}; bool removed=false;
  while(!work.empty()){ Ex*c=work.back(); work.pop_back(); c=subst(s,c); if(isc(c)){ if(!c->c) fatal("assumed a falsehood"); continue; }
    if(c->op==O_AND&&c->w==1){ work.push_back(c->b); work.push_back(c->a); continue; }
    if(c->vars->size()==1){ u32 v=(*c->vars)[0]; const Dom*o=domOf(s,v); Dom r=meet(o,table(c)); if(!memcmp(&r,o,sizeof r)) continue; const Dom*d=intern(r); s.dom[v]=d;
      if(single(d)>=0){ s.sing[v]=1; size_t k=0; for(size_t i=0;i<s.pc.size();i++){ Ex*p=s.pc[i]; if(std::binary_search(p->vars->begin(),p->vars->end(),v)){ work.push_back(p); removed=true; } else s.pc[k++]=p; } s.pc.resize(k); } }
    else { bool dup=false; for(Ex*p:s.pc) if(p==c){dup=true;break;} if(dup) continue; for(u32 v:*c->vars) s.multi[v]=1; s.pc.push_back(c); } }
  if(removed){ std::fill(s.multi.begin(),s.multi.end(),0); for(Ex*p:s.pc) for(u32 v:*p->vars) s.multi[v]=1; } }
struct CacheVal{ R r; std::vector<std::pair<u32,u8>> a; };
struct VHash{size_t operator()(const std::vector<u32>&v)const{u64 h=v.size();for(u32 x:v)h=(h^x)*0xff51afd7ed558ccdull+(h>>9);return h;}};
static std::unordered_map<std::vector<u32>,CacheVal,VHash> qcache;
// at most three bytes with few values left: go through all their combinations
static bool smallDomains(State&s,const std::vector<u32>&in,const std::vector<Ex*>&rel,CacheVal&cv){
  if(in.size()>3) return false; u64 n=1,size=0; for(u32 v:in){ const Dom*d=domOf(s,v); int c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(d->b[i]); n*=c; } for(Ex*e:rel) size+=e->size;
  if(n*std::min<u64>(size,400)>4000000||size>20000) return false;
  Model m=s.m; std::vector<std::vector<u8>> vals; for(u32 v:in){ std::vector<u8> x; for(int i=0;i<256;i++) if(domOf(s,v)->get(i)) x.push_back(i); vals.push_back(x); }
  std::vector<size_t> ix(in.size(),0); g_ss.quick++; cv.r=UNSAT;
  for(size_t i=0;i<in.size();i++) m[in[i]]=vals[i][0];
  for(;;){ g_evalEpoch++; bool ok=true; for(Ex*e:rel) if(!evalEx(e,m)){ ok=false; break; } if(ok){ cv.r=SAT; for(u32 v:in) cv.a.push_back({v,m[v]}); break; }
    size_t i=0; for(;i<in.size();i++){ if(++ix[i]<vals[i].size()){ m[in[i]]=vals[i][ix[i]]; break; } ix[i]=0; m[in[i]]=vals[i][0]; } if(i==in.size()) break; }
  g_evalEpoch++; return true; }
// can (pc && cond) hold?  On SAT: nm = satisfying model
static R feasible(State&s,Ex*cond,Model&nm){
  cond=subst(s,cond);
  if(isc(cond)) { if(cond->c){nm=s.m;return SAT;} return UNSAT; }
  if(cond->op==O_OR&&cond->w==1&&cond->vars->size()>1){ // disjunction
    bool allUnsat=true; std::vector<Ex*> ds; std::vector<Ex*> stk{cond}; while(!stk.empty()){ Ex*x=stk.back();stk.pop_back(); if(x->op==O_OR&&x->w==1){stk.push_back(x->a);stk.push_back(x->b);} else ds.push_back(x);} 
    for(Ex*d:ds){ if(d->vars->size()==1){ u32 v=(*d->vars)[0]; Dom r=meet(domOf(s,v),table(d)); if(emptyD(r)) continue; if(!s.multi[v]){ nm=s.m; nm[v]=pick(r); g_ss.quick++; return SAT; } allUnsat=false; } else allUnsat=false; }
    if(allUnsat){ g_ss.quick++; return UNSAT; } }
  std::vector<Ex*> cj; flatten(cond,cj);
  { bool allS=true; bool anyMulti=false; std::vector<std::pair<u32,Dom>> ds; 
    for(Ex*c:cj){ if(c==mkFalse()) return UNSAT; if(c->vars->size()==1){ u32 v=(*c->vars)[0]; Dom*cur=nullptr; for(auto&x:ds) if(x.first==v) cur=&x.second; Dom r=meet(cur?cur:domOf(s,v),table(c)); if(emptyD(r)){ g_ss.quick++; return UNSAT; } if(cur)*cur=r; else ds.push_back({v,r}); if(s.multi[v]) anyMulti=true; } else allS=false; }
    if(allS&&!anyMulti){ nm=s.m; for(auto&x:ds) nm[x.first]=pick(x.second); g_ss.quick++; return SAT; } }
  // known constraint or its negation already on the path
  if(cj.size()==1){ Ex*n=mkNot(cond); for(Ex*p:s.pc) if(p==n){ g_ss.quick++; return UNSAT; } }
  // slice: what is connected to the condition through shared bytes, then those bytes' domains
  std::vector<u8> mark(s.vkind.size(),0); std::vector<u32> in; for(u32 v:*cond->vars){ mark[v]=1; in.push_back(v); } std::vector<Ex*> rel=cj; std::vector<u8> used(s.pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]){ bool t=false; for(u32 v:*s.pc[i]->vars) if(mark[v]){t=true;break;} if(t){ used[i]=1; rel.push_back(s.pc[i]); for(u32 v:*s.pc[i]->vars) if(!mark[v]){mark[v]=1;in.push_back(v);ch=true;} } } }
  for(u32 v:in) if(s.dom[v]) rel.push_back(domFormula(v,s.dom[v]));
  std::vector<u32> key; for(Ex*e:rel) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=qcache.find(key); CacheVal cv; if(it!=qcache.end()){ g_ss.cached++; cv=it->second; } else { if(!smallDomains(s,in,rel,cv)) cv.r=z3check(rel,cv.a); 
    if(cv.r==SAT){ Model t=s.m; for(auto&x:cv.a) t[x.first]=x.second; g_evalEpoch++; for(Ex*e:rel) if(!evalEx(e,t)){ cv.r=UNKNOWN; fprintf(stderr,"model check failed: %s\n",exStr(e,8).c_str()); break; } g_evalEpoch++; }
    qcache[key]=cv; }
  if(cv.r==SAT){ nm=s.m; for(auto&x:cv.a) nm[x.first]=x.second; }
  return cv.r; }
static u64 st_forks=0;
static State* forkState(){ State*n=new State(*S); n->st.back()=std::make_shared<Frame>(*S->st.back()); n->depth++; st_forks++; return n; }
static bool hasUninit(State&s,Ex*e){ for(u32 v:*e->vars) if(s.vkind[v]==1) return true; return false; }
// Decide a symbolic boolean: returns the value taken by the current state; pushes the sibling (restarting the current instruction) if both are feasible.
// Facts e==k gathered on the path: what follows from them directly is remembered too.
static bool lookKnown(Ex*e,u64&v){ auto it=S->known.find(e); if(it==S->known.end()) return false; v=it->second; return true; }
static void learn(State&s,Ex*e,u64 v,int depth=0){ if(isc(e)||e->w>64) return; if(!s.known.emplace(e,v).second||depth>12) return; u64 m=(u64)maskw(e->w); Ex*a=e->a,*b=e->b;
  switch(e->op){
   case O_ADD: if(isc(b)) learn(s,a,(v-(u64)b->c)&m,depth+1); break;
   case O_SUB: if(isc(b)) learn(s,a,(v+(u64)b->c)&m,depth+1); else if(isc(a)) learn(s,b,((u64)a->c-v)&m,depth+1); break;
   case O_XOR: if(isc(b)) learn(s,a,v^(u64)b->c,depth+1); break;
   case O_CONCAT: learn(s,b,v&(u64)maskw(b->w),depth+1); learn(s,a,v>>b->w,depth+1); break;
   case O_SEXT: learn(s,a,v&(u64)maskw(a->w),depth+1); break;
   case O_EQ: if(v&&isc(b)) learn(s,a,(u64)b->c,depth+1); else if(v&&isc(a)) learn(s,b,(u64)a->c,depth+1); break;
   case O_AND: if(e->w==1&&v){ learn(s,a,1,depth+1); learn(s,b,1,depth+1); } break;
   case O_OR: if(e->w==1&&!v){ learn(s,a,0,depth+1); learn(s,b,0,depth+1); } break;
   default: break; } }
static bool byKnown(Ex*e,u64&v,int depth){ if(e->w>64) return false; if(isc(e)){ v=(u64)e->c; return true; } if(lookKnown(e,v)) return true;
  if(e->op==O_VAR){ const Dom*d=S->dom[e->lo]; if(!d) return false; int n=0; for(int i=0;i<4;i++) n+=__builtin_popcountll(d->b[i]); if(n!=1) return false; v=pick(*d); return true; }
  if(depth<=0||!e->a||e->op>=O_FCMP) return false; u64 x,y,z;
  if(e->op==O_ITE){ if(!byKnown(e->a,x,depth-1)) return false; return byKnown(x?e->b:e->d,v,depth-1); }
  if(!byKnown(e->a,x,depth-1)) { if(e->w==1&&(e->op==O_AND||e->op==O_OR)&&byKnown(e->b,y,depth-1)&&y==(e->op==O_OR)){ v=y; return true; } return false; }
  if(e->w==1&&e->op==O_AND&&!x){ v=0; return true; } if(e->w==1&&e->op==O_OR&&x){ v=1; return true; }
  Ex*r; if(e->op==O_EXTRACT) r=mkExtract(mkConst(x,e->a->w),e->lo,e->w); else if(e->op==O_SEXT) r=mkSext(mkConst(x,e->a->w),e->w);
  else { if(!e->b||!byKnown(e->b,y,depth-1)) return false; Ex*p=mkConst(x,e->a->w),*q=mkConst(y,e->b->w);
    switch(e->op){ case O_CONCAT: r=mkConcat(p,q); break; case O_EQ: r=mkEq(p,q); break; case O_ULT: case O_ULE: case O_SLT: case O_SLE: r=mkCmp(e->op,p,q); break; case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: if(!y) return false; default: r=mkBin(e->op,p,q); } }
  if(!isc(r)) return false; v=(u64)r->c; (void)z; S->known.emplace(e,v); return true; }
// Decide a symbolic boolean: returns the value taken by the current state; pushes the sibling (restarting the current instruction) if both are feasible.
static bool decide(Ex*c){
  if(isc(c)) return c->c!=0;
  u64 kv; if(byKnown(c,kv,8)) return kv!=0;
  Ex*whole=c; c=subst(*S,c); if(isc(c)){ S->known.emplace(whole,(u64)c->c); return c->c!=0; }
  bool d=evalIn(*S,c); Ex*pos=d?c:mkNot(c),*neg=d?mkNot(c):c; Model nm; R r=feasible(*S,neg,nm);
  if(r==UNKNOWN) incomplete("solver timeout");
  if(r==SAT){ if(hasUninit(*S,c)) viol("uninitialised-read","branch depends on uninitialised memory"); State*n=forkState(); n->m=nm; assume(*n,neg); learn(*n,c,!d); if(whole!=c) learn(*n,whole,!d); work.push_back(n); }
  learn(*S,c,d); if(whole!=c) learn(*S,whole,d);
  assume(*S,pos); return d; }
static u64 concretize(const Val&v){ if(!v.e) return v.c; if(isc(v.e)) return (u64)v.e->c; u64 kv; if(byKnown(v.e,kv,8)) return kv;
  Ex*se=subst(*S,v.e); if(isc(se)) return (u64)se->c;
  g_evalEpoch++; u64 x=(u64)evalEx(se,S->m); Ex*eq=mkEq(se,mkConst(x,v.e->w)); Ex*ne=mkNot(eq); Model nm; R r=feasible(*S,ne,nm); if(r==UNKNOWN) incomplete("solver timeout"); if(r==SAT){ if(hasUninit(*S,v.e)) viol("uninitialised-read","address or size depends on uninitialised memory"); State*n=forkState(); n->m=nm; assume(*n,ne); work.push_back(n); } assume(*S,eq); learn(*S,v.e,x); return x; }

// ---------------- results
static u64 st_paths=0, st_pruned=0, st_steps=0, st_incomplete=0; static std::set<u32> g_cov; static std::set<u32> g_dbgHit; static std::vector<std::string> g_samples;
struct Viol { std::string kind,msg,key; std::string hex; std::vector<std::string> stack; }; static std::vector<Viol> g_viol; static std::set<std::string> g_incomplete; static std::set<std::string> g_fnHit;
static std::string inputsHex(State&s){ std::string h; char b[4]; for(u32 v:s.inputs){ snprintf(b,4,"%02x",s.m[v]); h+=b; } return h; }
static std::vector<std::string> stackOf(State&s){ std::vector<std::string> r; for(int i=(int)s.st.size()-1;i>=0;i--){ Frame&f=*s.st[i]; auto&bl=f.fn->blocks[f.bb]; int ip=std::min<int>(f.ip,(int)bl.ins.size()-1); u32 d=bl.ins[ip].dbg; auto ls=dbgStack(d); if(ls.empty()) r.push_back(f.fn->name+" ?:0"); for(auto&l:ls) r.push_back(l.fn+" "+l.file+":"+std::to_string(l.line)); } return r; }
#include "exec_ops.h"
