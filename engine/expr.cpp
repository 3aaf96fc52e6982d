#include "expr.h"
#include <cstdarg>
#include <cmath>
#include <unordered_set>

static std::vector<std::unique_ptr<Ex[]>> arena; static size_t arenaPos=1<<14;
static u32 nextId=1;
static Ex* allocEx(){ if(arenaPos==(1<<14)){ arena.emplace_back(new Ex[1<<14]); arenaPos=0;} return &arena.back()[arenaPos++]; }
size_t numEx(){return nextId;}

struct Key{Op op;u8 aux;u16 w;u32 lo;Ex*a,*b,*d;u128 c;};
static inline u64 hmix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdULL; }
static u64 hashKey(const Key&k){ u64 h=k.op*131+k.w*7+k.aux; h=hmix(h,k.lo); h=hmix(h,(u64)k.a); h=hmix(h,(u64)k.b); h=hmix(h,(u64)k.d); h=hmix(h,(u64)k.c); h=hmix(h,(u64)(k.c>>64)); return h^(h>>29);}
static std::vector<Ex*> tab(1<<16,nullptr); static size_t tabN=0;
static bool same(Ex*e,const Key&k){return e->op==k.op&&e->w==k.w&&e->lo==k.lo&&e->a==k.a&&e->b==k.b&&e->d==k.d&&e->c==k.c&&e->aux==k.aux;}

struct VSHash{size_t operator()(const VarSet&v)const{u64 h=v.size(); for(u32 x:v)h=hmix(h,x); return h;}};
static std::unordered_set<VarSet,VSHash> varsets;
static const VarSet* internVS(VarSet&&v){ return &*varsets.insert(std::move(v)).first; }
static const VarSet* emptyVS(){ static const VarSet* e=internVS(VarSet()); return e; }
static const VarSet* uni(const VarSet*a,const VarSet*b){ if(a==b||b->empty())return a; if(a->empty())return b; 
  VarSet r; r.reserve(a->size()+b->size()); std::set_union(a->begin(),a->end(),b->begin(),b->end(),std::back_inserter(r)); return internVS(std::move(r)); }

static void ranges(Ex*e);
static Ex* intern(Op op,unsigned w,Ex*a,Ex*b,Ex*d,u32 lo,u128 c,u8 aux=0){
  Key k{op,aux,(u16)w,lo,a,b,d,c};
  u64 h=hashKey(k); size_t m=tab.size()-1; size_t i=h&m;
  while(tab[i]){ if(same(tab[i],k)) return tab[i]; i=(i+1)&m; }
  Ex*e=allocEx(); e->op=op;e->aux=aux;e->w=w;e->id=nextId++;e->lo=lo;e->a=a;e->b=b;e->d=d;e->c=c;e->evEpoch=0;e->z3=nullptr;
  e->size=1+(a?a->size:0)+(b?b->size:0)+(d?d->size:0); if(e->size>1000000)e->size=1000000;
  if(op==O_VAR) e->vars=internVS(VarSet{lo}); else { const VarSet*v=emptyVS(); if(a)v=uni(v,a->vars); if(b)v=uni(v,b->vars); if(d)v=uni(v,d->vars); e->vars=v; }
  ranges(e);
  tab[i]=e; tabN++;
  if(tabN*2>tab.size()){ std::vector<Ex*> nt(tab.size()*2,nullptr); size_t nm=nt.size()-1; for(Ex*x:tab) if(x){ Key q{x->op,x->aux,x->w,x->lo,x->a,x->b,x->d,x->c}; size_t j=hashKey(q)&nm; while(nt[j])j=(j+1)&nm; nt[j]=x;} tab.swap(nt); }
  return e;
}
static inline u64 m64(unsigned w){return w>=64?~(u64)0:(((u64)1<<w)-1);}
static void ranges(Ex*e){
  if(e->w>64){e->umin=0;e->umax=~(u64)0;return;}
  u64 M=m64(e->w); e->umin=0;e->umax=M; Ex*a=e->a,*b=e->b;
  switch(e->op){
   case O_CONST: e->umin=e->umax=(u64)e->c; break;
   case O_CONCAT: e->umin=(a->umin<<b->w)|b->umin; e->umax=(a->umax<<b->w)|b->umax; break;
   case O_EXTRACT: if(a->w<=64){ if(e->lo==0){ if(a->umax<=M){e->umin=a->umin;e->umax=a->umax;} } else if((a->umax>>e->lo)<=M){ e->umin=a->umin>>e->lo; e->umax=a->umax>>e->lo; } } break;
   case O_ADD: { u128 lo=(u128)a->umin+b->umin, hi=(u128)a->umax+b->umax; if(hi<=M){e->umin=(u64)lo;e->umax=(u64)hi;} else if(lo>M && hi<=2*(u128)M+1){e->umin=(u64)(lo-M-1);e->umax=(u64)(hi-M-1);} } break;
   case O_SUB: if(a->umin>=b->umax){e->umin=a->umin-b->umax;e->umax=a->umax-b->umin;} break;
   case O_MUL: { u128 hi=(u128)a->umax*b->umax; if(hi<=M){e->umin=a->umin*b->umin;e->umax=(u64)hi;} } break;
   case O_UDIV: if(b->umin>0){e->umin=a->umin/b->umax;e->umax=a->umax/b->umin;} break;
   case O_UREM: if(b->umin>0){e->umax=std::min(a->umax,b->umax-1);} break;
   case O_AND: e->umax=std::min(a->umax,b->umax); break;
   case O_OR: { e->umin=std::max(a->umin,b->umin); u64 x=a->umax|b->umax; int n=x?64-__builtin_clzll(x):0; e->umax=std::min(M,m64(n)); } break;
   case O_XOR: { u64 x=a->umax|b->umax; int n=x?64-__builtin_clzll(x):0; e->umax=std::min(M,m64(n)); } break;
   case O_LSHR: if(b->umin<64) e->umax=a->umax>>b->umin; else e->umax=0; break;
   case O_ITE: e->umin=std::min(b->umin,e->d->umin); e->umax=std::max(b->umax,e->d->umax); break;
   default: break;
  }
}
Ex* mkConst(u128 v,unsigned w){ return intern(O_CONST,w,nullptr,nullptr,nullptr,0,v&maskw(w)); }
Ex* mkTrue(){ static Ex*t=mkConst(1,1); return t;} Ex* mkFalse(){static Ex*t=mkConst(0,1);return t;}
Ex* mkVar(u32 id){ return intern(O_VAR,8,nullptr,nullptr,nullptr,id,0); }
static inline i128 sx(u128 v,unsigned w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

Ex* mkConcat(Ex*hi,Ex*lo){
  if(isc(hi)&&isc(lo)) return mkConst((hi->c<<lo->w)|lo->c,hi->w+lo->w);
  // right-assoc normalise: concat(concat(x,y),z) -> concat(x,concat(y,z))
  if(hi->op==O_CONCAT) return mkConcat(hi->a,mkConcat(hi->b,lo));
  Ex* nx = lo->op==O_CONCAT? lo->a : lo;
  // merge hi with nx
  Ex* m=nullptr;
  if(isc(hi)&&isc(nx)) m=mkConst((hi->c<<nx->w)|nx->c,hi->w+nx->w);
  else if(hi->op==O_EXTRACT && nx->op==O_EXTRACT && hi->a==nx->a && hi->lo==nx->lo+nx->w) m=mkExtract(hi->a,nx->lo,hi->w+nx->w);
  else if(hi->op==O_EXTRACT && hi->a==nx && hi->lo==nx->w) m=nullptr;
  if(m){ return lo->op==O_CONCAT? mkConcat(m,lo->b) : m; }
  // ITE with same cond on both sides
  if(hi->op==O_ITE && nx->op==O_ITE && hi->a==nx->a && hi->w+nx->w<=128 && hi->size+nx->size<64){ Ex* t=mkIte(hi->a,mkConcat(hi->b,nx->b),mkConcat(hi->d,nx->d)); return lo->op==O_CONCAT? mkConcat(t,lo->b):t; }
  return intern(O_CONCAT,hi->w+lo->w,hi,lo,nullptr,0,0);
}
Ex* mkExtract(Ex*e,unsigned lo,unsigned w){
  if(lo==0&&w==e->w) return e;
  if(lo+w>e->w) fatal("bad extract");
  switch(e->op){
   case O_CONST: return mkConst(e->c>>lo,w);
   case O_EXTRACT: return mkExtract(e->a,e->lo+lo,w);
   case O_CONCAT: { unsigned bw=e->b->w; if(lo>=bw) return mkExtract(e->a,lo-bw,w); if(lo+w<=bw) return mkExtract(e->b,lo,w); return mkConcat(mkExtract(e->a,0,lo+w-bw),mkExtract(e->b,lo,bw-lo)); }
   case O_SEXT: { unsigned aw=e->a->w; if(lo+w<=aw) return mkExtract(e->a,lo,w); if(lo>=aw-1){ Ex*s=mkExtract(e->a,aw-1,1); return mkSext(s,w);} return mkSext(mkExtract(e->a,lo,aw-lo),w); }
   case O_ITE: if((isc(e->b)||isc(e->d)||e->size<40)) return mkIte(e->a,mkExtract(e->b,lo,w),mkExtract(e->d,lo,w)); break;
   case O_AND: case O_OR: case O_XOR: return mkBin(e->op,mkExtract(e->a,lo,w),mkExtract(e->b,lo,w));
   case O_ADD: case O_SUB: case O_MUL: if(lo==0) return mkBin(e->op,mkExtract(e->a,0,w),mkExtract(e->b,0,w)); break;
   default: break;
  }
  if(e->w<=64 && lo>0 && (e->umax>>lo)==0) return mkConst(0,w);
  return intern(O_EXTRACT,w,e,nullptr,nullptr,lo,0);
}
Ex* mkZext(Ex*e,unsigned w){ if(w==e->w) return e; return mkConcat(mkConst(0,w-e->w),e); }
Ex* mkSext(Ex*e,unsigned w){
  if(w==e->w) return e;
  if(isc(e)) return mkConst((u128)sx(e->c,e->w),w);
  if(e->op==O_SEXT) return mkSext(e->a,w);
  if(e->op==O_CONCAT && isc(e->a) && !((e->a->c>>(e->a->w-1))&1)) return mkZext(e,w);
  if(e->w<=64 && e->umax < (1ULL<<(e->w-1))) return mkZext(e,w);
  if(e->op==O_ITE && isc(e->b) && isc(e->d)) return mkIte(e->a,mkSext(e->b,w),mkSext(e->d,w));
  return intern(O_SEXT,w,e,nullptr,nullptr,0,0);
}
Ex* mkNot(Ex*a){ return mkBin(O_XOR,a,mkConst(maskw(a->w),a->w)); }
static bool comm(Op o){return o==O_ADD||o==O_MUL||o==O_AND||o==O_OR||o==O_XOR;}
static bool foldBin(Op op,u128 a,u128 b,unsigned w,u128&r){
  switch(op){
   case O_ADD:r=a+b;break; case O_SUB:r=a-b;break; case O_MUL:r=a*b;break;
   case O_UDIV: r= b==0? maskw(w): a/b;break; case O_UREM: r= b==0? a: a%b;break;
   case O_SDIV: { i128 x=sx(a,w),y=sx(b,w); if(y==0) r= x<0?1:maskw(w); else if(y==-1) r=(u128)0-(u128)x; else r=(u128)(x/y);} break;
   case O_SREM: { i128 x=sx(a,w),y=sx(b,w); if(y==0) r=(u128)x; else if(y==-1) r=0; else r=(u128)(x%y);} break;
   case O_SHL: r= b>=w?0:a<<(unsigned)b;break; case O_LSHR: r= b>=w?0:a>>(unsigned)b;break;
   case O_ASHR: { i128 x=sx(a,w); r=(u128)(x>>(unsigned)(b>=w?w-1:b)); } break;
   case O_AND:r=a&b;break; case O_OR:r=a|b;break; case O_XOR:r=a^b;break;
   case O_EQ: r=a==b;return true; case O_ULT: r=a<b;return true; case O_ULE:r=a<=b;return true;
   case O_SLT: r=sx(a,w)<sx(b,w);return true; case O_SLE:r=sx(a,w)<=sx(b,w);return true;
   default:return false; }
  r&=maskw(w); return true;
}
// piecewise bitwise op
static void cuts(Ex*e,unsigned base,std::vector<unsigned>&v){
  if(e->op==O_CONCAT){ cuts(e->b,base,v); v.push_back(base+e->b->w); cuts(e->a,base+e->b->w,v); }
}
static void ccuts(u128 c,unsigned w,std::vector<unsigned>&v){ for(unsigned i=1;i<w;i++) if(((c>>i)&1)!=((c>>(i-1))&1)) v.push_back(i); }
static Ex* bitwise(Op op,Ex*a,Ex*b){
  unsigned w=a->w; std::vector<unsigned> v;
  bool ca=a->op==O_CONCAT, cb=b->op==O_CONCAT;
  if(isc(b)){ std::vector<unsigned> t; ccuts(b->c,w,t); if(t.size()>6 && !ca) return nullptr; if(t.size()<=6) v=t; }
  else if(!ca&&!cb) return nullptr;
  if(!isc(b) && ca&&cb==false){ // only worthwhile when the concat has const pieces
    bool k=false; for(Ex*x=a;;x=x->b){ if(x->op!=O_CONCAT){k|=isc(x);break;} k|=isc(x->a);} if(!k) return nullptr; }
  if(!isc(b) && cb&&!ca){ bool k=false; for(Ex*x=b;;x=x->b){ if(x->op!=O_CONCAT){k|=isc(x);break;} k|=isc(x->a);} if(!k) return nullptr; }
  cuts(a,0,v); cuts(b,0,v); std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end());
  if(v.empty()) return nullptr;
  if(op==O_XOR && isc(b)){ /* keep simple xor chains */ }
  v.push_back(w); unsigned p=0; Ex*r=nullptr;
  for(unsigned q:v){ Ex*x=mkExtract(a,p,q-p),*y=mkExtract(b,p,q-p); Ex*z=mkBin(op,x,y); r=r?mkConcat(z,r):z; p=q; }
  return r;
}
// disjoint bits?
static bool disjointPieces(Ex*a,Ex*b){
  if(a->w>128) return false; unsigned w=a->w; std::vector<unsigned> v; cuts(a,0,v); cuts(b,0,v); if(v.empty()) return false; std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); v.push_back(w);
  unsigned p=0; for(unsigned q:v){ Ex*x=mkExtract(a,p,q-p),*y=mkExtract(b,p,q-p); if(!((isc(x)&&x->c==0)||(isc(y)&&y->c==0))) return false; p=q;} return true;
}
Ex* mkBin(Op op,Ex*a,Ex*b){
  unsigned w=a->w;
  if(op>=O_EQ&&op<=O_SLE) return mkCmp(op,a,b);
  if(b->w!=w) fatal("width mismatch op %d %d %d",op,w,b->w);
  if(isc(a)&&isc(b)){ u128 r; if(foldBin(op,a->c,b->c,w,r)) return mkConst(r,w); }
  if(comm(op)){ if(isc(a)|| (!isc(b)&&a->id>b->id)) std::swap(a,b); }
  u128 M=maskw(w);
  // distribute over ITE with constant arms
  if(isc(b)&&a->op==O_ITE&&isc(a->b)&&isc(a->d)) return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->d,b));
  if(isc(a)&&b->op==O_ITE&&isc(b->b)&&isc(b->d)) return mkIte(b->a,mkBin(op,a,b->b),mkBin(op,a,b->d));
  switch(op){
   case O_ADD:
    if(w==1) return mkBin(O_XOR,a,b);
    if(isc(b)){ if(b->c==0) return a; if(a->op==O_ADD&&isc(a->b)) return mkBin(O_ADD,a->a,mkConst(a->b->c+b->c,w));
      if(a->op==O_SUB&&isc(a->a)) return mkBin(O_SUB,mkConst(a->a->c+b->c,w),a->b); }
    else {
      if(a->op==O_ADD&&isc(a->b)) return mkBin(O_ADD,mkBin(O_ADD,a->a,b),a->b);
      if(b->op==O_ADD&&isc(b->b)) return mkBin(O_ADD,mkBin(O_ADD,a,b->a),b->b);
      if(a->op==O_SUB&&a->b==b) return a->a; if(b->op==O_SUB&&b->b==a) return b->a;
    }
    if((a->op==O_CONCAT||b->op==O_CONCAT)&&disjointPieces(a,b)) return mkBin(O_OR,a,b);
    break;
   case O_SUB:
    if(a==b) return mkConst(0,w); if(w==1) return mkBin(O_XOR,a,b);
    if(isc(b)) return mkBin(O_ADD,a,mkConst((u128)0-b->c,w));
    if(a->op==O_ADD&&isc(a->b)) { return mkBin(O_ADD,mkBin(O_SUB,a->a,b),a->b); }
    if(b->op==O_ADD&&isc(b->b)) { return mkBin(O_ADD,mkBin(O_SUB,a,b->a),mkConst((u128)0-b->b->c,w)); }
    if(a->op==O_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; }
    if(b->op==O_ADD){ if(b->a==a) return mkBin(O_SUB,mkConst(0,w),b->b); if(b->b==a) return mkBin(O_SUB,mkConst(0,w),b->a); }
    if(b->op==O_SUB&&b->a==a) return b->b; // a-(a-x)=x
    break;
   case O_MUL:
    if(isc(b)){ if(b->c==0) return b; if(b->c==1) return a; if((b->c&(b->c-1))==0){ unsigned s=0; while(!((b->c>>s)&1))s++; return mkBin(O_SHL,a,mkConst(s,w)); } }
    if(w==1) return mkBin(O_AND,a,b);
    break;
   case O_UDIV: if(isc(b)&&b->c==1) return a; if(isc(b)&&b->c&&(b->c&(b->c-1))==0){ unsigned s=0; while(!((b->c>>s)&1))s++; return mkBin(O_LSHR,a,mkConst(s,w)); }
    if(w<=64&&isc(b)&&b->c&&a->umax<b->c) return mkConst(0,w); break;
   case O_UREM: if(isc(b)&&b->c&&(b->c&(b->c-1))==0) return mkBin(O_AND,a,mkConst(b->c-1,w)); if(w<=64&&isc(b)&&b->c&&a->umax<b->c) return a; break;
   case O_SHL: if(isc(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkConcat(mkExtract(a,0,w-s),mkConst(0,s)); } if(isc(a)&&a->c==0) return a; break;
   case O_LSHR: if(isc(b)){ if(b->c==0) return a; if(b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkZext(mkExtract(a,s,w-s),w); } if(isc(a)&&a->c==0) return a; break;
   case O_ASHR: if(isc(b)){ if(b->c==0) return a; unsigned s=b->c>=w?w-1:(unsigned)b->c; return mkSext(mkExtract(a,s,w-s),w); } break;
   case O_AND: if(a==b) return a; if(isc(b)){ if(b->c==0) return b; if(b->c==M) return a; if(a->op==O_AND&&isc(a->b)) return mkBin(O_AND,a->a,mkConst(a->b->c&b->c,w)); }
    if(w==1){ if(b==mkNot(a)) return mkFalse(); 
      if(a->op==O_AND&&(a->a==b||a->b==b)) return a; if(b->op==O_AND&&(b->a==a||b->b==a)) return b; }
    break;
   case O_OR: if(a==b) return a; if(isc(b)){ if(b->c==0) return a; if(b->c==M) return b; if(a->op==O_OR&&isc(a->b)) return mkBin(O_OR,a->a,mkConst(a->b->c|b->c,w)); }
    if(w==1){ if(b==mkNot(a)) return mkTrue(); }
    break;
   case O_XOR: if(a==b) return mkConst(0,w); if(isc(b)){ if(b->c==0) return a; if(a->op==O_XOR&&isc(a->b)) return mkBin(O_XOR,a->a,mkConst(a->b->c^b->c,w));
      if(w==1){ // negate comparisons
        if(a->op==O_ULT) return mkCmp(O_ULE,a->b,a->a); if(a->op==O_ULE) return mkCmp(O_ULT,a->b,a->a);
        if(a->op==O_SLT) return mkCmp(O_SLE,a->b,a->a); if(a->op==O_SLE) return mkCmp(O_SLT,a->b,a->a);
        if(a->op==O_AND && a->size<60) return mkBin(O_OR,mkNot(a->a),mkNot(a->b)); if(a->op==O_OR && a->size<60) return mkBin(O_AND,mkNot(a->a),mkNot(a->b));
      } }
    break;
   default: break;
  }
  if(op==O_AND||op==O_OR||op==O_XOR){ if(w>1){ Ex*r=bitwise(op,a,b); if(r) return r; } }
  return intern(op,w,a,b,nullptr,0,0);
}
Ex* mkEq(Ex*a,Ex*b){ return mkCmp(O_EQ,a,b); }
Ex* mkCmp(Op op,Ex*a,Ex*b){
  unsigned w=a->w; if(b->w!=w) fatal("cmp width mismatch %d %d",w,b->w);
  if(isc(a)&&isc(b)){ u128 r; foldBin(op,a->c,b->c,w,r); return r?mkTrue():mkFalse(); }
  if(op==O_EQ){
    if(a==b) return mkTrue();
    if(isc(a)||(!isc(b)&&a->id>b->id)) std::swap(a,b);
    if(w==1){ if(isc(b)) return b->c? a: mkNot(a); return mkNot(mkBin(O_XOR,a,b)); }
    if(w<=64&&(a->umax<b->umin||b->umax<a->umin)) return mkFalse();
    if(isc(b)){
      if(a->op==O_CONCAT){ Ex*h=mkEq(a->a,mkExtract(b,a->b->w,a->a->w)); if(h==mkFalse()) return h; Ex*l=mkEq(a->b,mkExtract(b,0,a->b->w)); return mkAnd(h,l); }
      if(a->op==O_SEXT){ unsigned aw=a->a->w; Ex*t=mkConst(b->c,aw); if(mkSext(t,w)!=b) return mkFalse(); return mkEq(a->a,t); }
      if(a->op==O_ADD&&isc(a->b)) return mkEq(a->a,mkConst(b->c-a->b->c,w));
      if(a->op==O_SUB&&isc(a->a)) return mkEq(a->b,mkConst(a->a->c-b->c,w));
      if(a->op==O_XOR&&isc(a->b)) return mkEq(a->a,mkConst(b->c^a->b->c,w));
      if(a->op==O_ITE){ Ex*x=mkEq(a->b,b),*y=mkEq(a->d,b); if(isc(x)||isc(y)||(a->size<200)) return mkIte(a->a,x,y); }
      if(a->op==O_SUB && b->c==0) return mkEq(a->a,a->b);
    } else {
      if(a->op==O_CONCAT&&b->op==O_CONCAT){ unsigned bw=std::min(a->b->w,b->b->w); Ex*h=mkEq(mkExtract(a,bw,w-bw),mkExtract(b,bw,w-bw)); if(h==mkFalse()) return h; return mkAnd(h,mkEq(mkExtract(a,0,bw),mkExtract(b,0,bw))); }
      if(a->op==O_ADD&&isc(a->b)&&b->op==O_ADD&&isc(b->b)) { if(a->a==b->a) return a->b==b->b?mkTrue():mkFalse(); }
      if(a->op==O_ADD&&isc(a->b)&&a->a==b) return mkFalse();
      if(b->op==O_ADD&&isc(b->b)&&b->a==a) return mkFalse();
      if(a->op==O_SEXT&&b->op==O_SEXT&&a->a->w==b->a->w) return mkEq(a->a,b->a);
    }
    return intern(O_EQ,1,a,b,nullptr,0,0);
  }
  if(a==b) return (op==O_ULE||op==O_SLE)?mkTrue():mkFalse();
  // distribute over ITE consts
  if(isc(b)&&a->op==O_ITE&&(isc(a->b)||isc(a->d))&&a->size<400) return mkIte(a->a,mkCmp(op,a->b,b),mkCmp(op,a->d,b));
  if(isc(a)&&b->op==O_ITE&&(isc(b->b)||isc(b->d))&&b->size<400) return mkIte(b->a,mkCmp(op,a,b->b),mkCmp(op,a,b->d));
  if(op==O_ULT||op==O_ULE){
    if(w==1){ if(op==O_ULT) return mkAnd(mkNot(a),b); return mkOr(mkNot(a),b); }
    if(w<=64){
      if(op==O_ULT){ if(a->umax<b->umin) return mkTrue(); if(a->umin>=b->umax) return mkFalse(); }
      else { if(a->umax<=b->umin) return mkTrue(); if(a->umin>b->umax) return mkFalse(); }
    }
    // normalise: ULE with const -> ULT
    if(op==O_ULE&&isc(b)) { if(b->c==maskw(w)) return mkTrue(); return mkCmp(O_ULT,a,mkConst(b->c+1,w)); }
    if(op==O_ULE&&isc(a)) { if(a->c==0) return mkTrue(); return mkCmp(O_ULT,mkConst(a->c-1,w),b); }
    if(isc(b)&&op==O_ULT&&b->c==1) return mkEq(a,mkConst(0,w));
    if(isc(a)&&op==O_ULT&&a->c==0) return mkNot(mkEq(b,mkConst(0,w)));
    if(isc(b)&&op==O_ULT&&b->c==maskw(w)) return mkNot(mkEq(a,b));
    // zero-extended operands
    auto lead=[&](Ex*x)->unsigned{ if(x->op==O_CONCAT&&isc(x->a)&&x->a->c==0) return x->a->w; if(isc(x)){ unsigned n=0; while(n<w&&!((x->c>>(w-1-n))&1)) n++; return n; } return 0; };
    unsigned la=lead(a),lb=lead(b); unsigned l=std::min(la,lb); if(l>0&&l<w) return mkCmp(op,mkExtract(a,0,w-l),mkExtract(b,0,w-l));
    // common low constant bits: concat(x,0s) < const
    if(a->op==O_CONCAT&&isc(b)&&op==O_ULT){ unsigned bw=a->b->w; Ex* bh=mkExtract(b,bw,w-bw); Ex* bl=mkExtract(b,0,bw); Ex*ah=a->a; 
       if(isc(ah)) { if(ah->c<bh->c) return mkTrue(); if(ah->c>bh->c) return mkFalse(); return mkCmp(O_ULT,a->b,bl);} 
       if(bl->c==0) return mkCmp(O_ULT,ah,bh); }
    if(b->op==O_CONCAT&&isc(a)&&op==O_ULT){ unsigned bw=b->b->w; Ex* ah=mkExtract(a,bw,w-bw); Ex* al=mkExtract(a,0,bw);
       if(isc(b->a)) { if(ah->c<b->a->c) return mkTrue(); if(ah->c>b->a->c) return mkFalse(); return mkCmp(O_ULT,al,b->b);} 
       if(al->c==maskw(bw)) return mkCmp(O_ULT,ah,b->a); }
    // x + c (no wrap) < k
    if(w<=64 && isc(b)&&op==O_ULT&&a->op==O_ADD&&isc(a->b)&&(u128)a->a->umax+a->b->c<=maskw(w)){ if(b->c<=a->b->c) return mkFalse(); return mkCmp(O_ULT,a->a,mkConst(b->c-a->b->c,w)); }
  } else {
    if(w<=64){ u64 h=1ULL<<(w-1); bool an=a->umax<h, bn=b->umax<h; if(an&&bn) return mkCmp(op==O_SLT?O_ULT:O_ULE,a,b);
      bool am=a->umin>=h, bm=b->umin>=h; if(am&&bn) return mkTrue(); if(an&&bm) return mkFalse(); if(am&&bm) return mkCmp(op==O_SLT?O_ULT:O_ULE,a,b); }
    if(a->op==O_SEXT&&b->op==O_SEXT&&a->a->w==b->a->w) return mkCmp(op,a->a,b->a);
    if(a->op==O_SEXT&&isc(b)){ unsigned aw=a->a->w; i128 v=sx(b->c,w); i128 mn=-((i128)1<<(aw-1)), mx=((i128)1<<(aw-1))-1; if(op==O_SLT){ if(v>mx) return mkTrue(); if(v<=mn) return mkFalse(); } else { if(v>=mx) return mkTrue(); if(v<mn) return mkFalse(); } return mkCmp(op,a->a,mkConst((u128)v,aw)); }
    if(b->op==O_SEXT&&isc(a)){ unsigned aw=b->a->w; i128 v=sx(a->c,w); i128 mn=-((i128)1<<(aw-1)), mx=((i128)1<<(aw-1))-1; if(op==O_SLT){ if(v<mn) return mkTrue(); if(v>=mx) return mkFalse(); } else { if(v<=mn) return mkTrue(); if(v>mx) return mkFalse(); } return mkCmp(op,mkConst((u128)v,aw),b->a); }
    // sign test
    if(op==O_SLT&&isc(b)&&b->c==0) return mkExtract(a,w-1,1);
    if(op==O_SLE&&isc(a)&&a->c==0) return mkNot(mkExtract(b,w-1,1));
    if(op==O_SLT&&isc(a)&&a->c==maskw(w)) return mkNot(mkExtract(b,w-1,1)); // -1 < b
    if(op==O_SLE&&isc(b)&&b->c==maskw(w)) return mkExtract(a,w-1,1);         // a <= -1
  }
  return intern(op,1,a,b,nullptr,0,0);
}
Ex* mkIte(Ex*c,Ex*t,Ex*f){
  if(isc(c)) return c->c?t:f; if(t==f) return t;
  if(t->w!=f->w) fatal("ite width");
  if(c->op==O_XOR&&isc(c->b)) return mkIte(c->a,f,t);
  if(t->w==1){ if(isc(t)&&isc(f)) return t->c? c: mkNot(c); if(isc(t)) return t->c? mkOr(c,f): mkAnd(mkNot(c),f); if(isc(f)) return f->c? mkOr(mkNot(c),t): mkAnd(c,t);
  }
  if(t->op==O_ITE&&t->a==c) t=t->b; if(f->op==O_ITE&&f->a==c) f=f->d; if(t==f) return t;
  // x==k ? k : x
  if(c->op==O_EQ&&isc(c->b)&&t==c->b&&f==c->a) return f;
  if(t->op==O_CONCAT&&f->op==O_CONCAT&&t->a==f->a) return mkConcat(t->a,mkIte(c,t->b,f->b));
  if(t->op==O_CONCAT&&f->op==O_CONCAT&&t->b==f->b) return mkConcat(mkIte(c,t->a,f->a),t->b);
  return intern(O_ITE,t->w,c,t,f,0,0);
}
static double asD(u128 v){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d; }
static float asF(u128 v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
static u128 fromD(double d){u64 x;memcpy(&x,&d,8);return x;} static u128 fromF(float d){u32 x;memcpy(&x,&d,4);return x;}
static double toD(u128 v,unsigned w){return w==32?(double)asF(v):asD(v);}
static u128 fpFold(Op op,unsigned w,unsigned aux,Ex*a,Ex*b,u128 x,u128 y){
  (void)b; unsigned aw=a->w;
  switch(op){
   case O_FCMP: { double p=toD(x,aw),q=toD(y,aw); bool un=std::isnan(p)||std::isnan(q); bool r=false; bool ord=!un;
     switch(aux&7){ case 1:r=p==q;break; case 2:r=p>q;break; case 3:r=p>=q;break; case 4:r=p<q;break; case 5:r=p<=q;break; case 6:r=p!=q;break; case 7:r=true;break; default:r=false; }
     // aux: low 3 bits: 0 false 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 true(ord) ; bit3: unordered variant
     if(aux&8) return un||r; return ord&&r; }
   case O_FPEXT: return fromD((double)asF(x));
   case O_FPTRUNC: return fromF((float)asD(x));
   case O_SITOFP: { i128 v=sx(x,aw); return w==32?fromF((float)v):fromD((double)v);} 
   case O_UITOFP: return w==32?fromF((float)x):fromD((double)x);
   case O_FPTOSI: { double d=toD(x,aw); if(std::isnan(d)) return 0; i128 mn=-((i128)1<<(w-1)), mx=((i128)1<<(w-1))-1; if(d<=(double)mn) return (u128)mn&maskw(w); if(d>=(double)mx) return (u128)mx&maskw(w); return (u128)(i128)d & maskw(w);} 
   case O_FPTOUI: { double d=toD(x,aw); if(std::isnan(d)||d<=0) return 0; u128 mx=maskw(w); if(d>=(double)mx) return mx; return (u128)d; }
   case O_FADD: return w==32?fromF(asF(x)+asF(y)):fromD(asD(x)+asD(y));
   case O_FSUB: return w==32?fromF(asF(x)-asF(y)):fromD(asD(x)-asD(y));
   case O_FMUL: return w==32?fromF(asF(x)*asF(y)):fromD(asD(x)*asD(y));
   case O_FDIV: return w==32?fromF(asF(x)/asF(y)):fromD(asD(x)/asD(y));
   case O_FRTI: { double d=toD(x,aw); double r=aux==1?std::trunc(d):aux==2?std::floor(d):aux==3?std::ceil(d):aux==4?std::round(d):std::nearbyint(d); return w==32?fromF((float)r):fromD(r); }
   default: fatal("fpFold"); }
}
Ex* mkFp(Op op,unsigned w,unsigned aux,Ex*a,Ex*b){
  if(isc(a)&&(!b||isc(b))) return mkConst(fpFold(op,w,aux,a,b,a->c,b?b->c:0),w);
  if(op==O_FPTRUNC&&a->op==O_FPEXT) { /* trunc(ext(x)): x up to NaN payload; keep node */ }
  return intern(op,w,a,b,nullptr,0,0,(u8)aux);
}
u64 g_evalEpoch=1;
u128 evalEx(Ex*e,const Model&m){
  if(e->op==O_CONST) return e->c;
  if(e->op==O_VAR) return e->lo<m.size()?m[e->lo]:0;
  if(e->evEpoch==g_evalEpoch) return e->ev;
  u128 r=0;
  switch(e->op){
   case O_CONCAT: { // iterative along right spine
     r=0; Ex*x=e; while(x->op==O_CONCAT){ r=(x->a->w>=128?0:(r<<x->a->w))|evalEx(x->a,m); x=x->b; } r=(r<<x->w)|evalEx(x,m); break; }
   case O_EXTRACT: r=(evalEx(e->a,m)>>e->lo)&maskw(e->w); break;
   case O_SEXT: r=(u128)sx(evalEx(e->a,m),e->a->w)&maskw(e->w); break;
   case O_ITE: r=evalEx(e->a,m)?evalEx(e->b,m):evalEx(e->d,m); break;
   case O_EQ:case O_ULT:case O_ULE:case O_SLT:case O_SLE: foldBin(e->op,evalEx(e->a,m),evalEx(e->b,m),e->a->w,r); break;
   default:
     if(e->op>=O_FCMP) r=fpFold(e->op,e->w,e->aux,e->a,e->b,evalEx(e->a,m),e->b?evalEx(e->b,m):0);
     else foldBin(e->op,evalEx(e->a,m),evalEx(e->b,m),e->w,r);
  }
  e->evEpoch=g_evalEpoch; e->ev=r; return r;
}
std::string exStr(Ex*e,int depth){
  static const char*nm[]={"const","var","concat","extract","sext","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","ule","slt","sle","ite","fcmp","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","fadd","fsub","fmul","fdiv"};
  char buf[64];
  if(e->op==O_CONST){ snprintf(buf,64,"0x%llx:%d",(unsigned long long)e->c,e->w); return buf; }
  if(e->op==O_VAR){ snprintf(buf,64,"v%u",e->lo); return buf; }
  if(depth==0) return "..";
  std::string s="("; s+=nm[e->op]; if(e->op==O_EXTRACT){ snprintf(buf,64,"[%u+%u]",e->lo,e->w); s+=buf; } if(e->op==O_SEXT){snprintf(buf,64,"%u",e->w); s+=buf;}
  for(Ex*x:{e->a,e->b,e->d}) if(x){ s+=" "; s+=exStr(x,depth-1);} return s+")";
}
void fatal(const char*fmt,...){ va_list ap; va_start(ap,fmt); fprintf(stderr,"ENGINE-FATAL: "); vfprintf(stderr,fmt,ap); fprintf(stderr,"\n"); va_end(ap); fflush(nullptr); _exit(3); }
