static inline Val opv(Frame&f,const Opnd&o){ return o.k? f.fn->consts[o.i] : f.r[o.i]; }
static inline u64 msk(u64 v,unsigned w){ return w>=64?v:v&(((u64)1<<w)-1); }
static inline i64 sxt(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 s=(u64)1<<(w-1); v=msk(v,w); return (i64)((v^s)-s); }
static Val binop(Op op,unsigned w,Val a,Val b){
  if(op==O_UDIV||op==O_SDIV||op==O_UREM||op==O_SREM){ // division by zero is UB: the panic check precedes it
    if(b.e){ if(!decide(mkNot(mkEq(b.e,mkConst(0,w))))) viol("division-by-zero","division by zero"); } else if(b.c==0) viol("division-by-zero","division by zero"); }
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c,r=0; switch(op){ case O_ADD:r=x+y;break;case O_SUB:r=x-y;break;case O_MUL:r=x*y;break;case O_AND:r=x&y;break;case O_OR:r=x|y;break;case O_XOR:r=x^y;break;
      case O_SHL:r=y>=w?0:x<<y;break;case O_LSHR:r=y>=w?0:x>>y;break;case O_ASHR:r=(u64)(sxt(x,w)>>(y>=w?w-1:y));break;
      case O_UDIV:r=x/y;break;case O_UREM:r=x%y;break;case O_SDIV: r=(sxt(y,w)==-1)?(u64)0-x:(u64)(sxt(x,w)/sxt(y,w));break;case O_SREM: r=(sxt(y,w)==-1)?0:(u64)(sxt(x,w)%sxt(y,w));break; default: fatal("bin"); } return Val{msk(r,w),nullptr}; }
  return val(mkBin(op,ex(a,w),ex(b,w))); }
static Val icmp(int pred,unsigned w,Val a,Val b){
  if(!a.e&&!b.e){ u64 x=msk(a.c,w),y=msk(b.c,w); i64 p=sxt(x,w),q=sxt(y,w); bool r=false; switch(pred){case 0:r=x==y;break;case 1:r=x!=y;break;case 2:r=x<y;break;case 3:r=x<=y;break;case 4:r=x>y;break;case 5:r=x>=y;break;case 6:r=p<q;break;case 7:r=p<=q;break;case 8:r=p>q;break;case 9:r=p>=q;break;} return Val{r,nullptr}; }
  Ex*x=ex(a,w),*y=ex(b,w); switch(pred){case 0:return val(mkEq(x,y));case 1:return val(mkNot(mkEq(x,y)));case 2:return val(mkCmp(O_ULT,x,y));case 3:return val(mkCmp(O_ULE,x,y));case 4:return val(mkCmp(O_ULT,y,x));case 5:return val(mkCmp(O_ULE,y,x));case 6:return val(mkCmp(O_SLT,x,y));case 7:return val(mkCmp(O_SLE,x,y));case 8:return val(mkCmp(O_SLT,y,x));default:return val(mkCmp(O_SLE,y,x));} }
static Val select1(Val c,Val a,Val b,unsigned w){ if(!c.e) return c.c&1?a:b; if(!a.e&&!b.e&&a.c==b.c&&w<=64) return a; return val(mkIte(c.e,ex(a,w),ex(b,w))); }
static Val castv(int k,unsigned fw,unsigned w,Val v){
  switch(k){
   case C_ZEXT: if(!v.e&&w<=64) return v; return val(mkZext(ex(v,fw),w));
   case C_SEXT: if(!v.e&&w<=64) return Val{msk((u64)sxt(v.c,fw),w),nullptr}; return val(mkSext(ex(v,fw),w));
   case C_TRUNC: if(!v.e) return Val{msk(v.c,w),nullptr}; return val(mkExtract(ex(v,fw),0,w));
   case C_BITCAST: return v;
   case C_FPEXT: return val(mkFp(O_FPEXT,w,0,ex(v,fw))); case C_FPTRUNC: return val(mkFp(O_FPTRUNC,w,0,ex(v,fw)));
   case C_SITOFP: return val(mkFp(O_SITOFP,w,0,ex(v,fw))); case C_UITOFP: return val(mkFp(O_UITOFP,w,0,ex(v,fw)));
   case C_FPTOSI: return val(mkFp(O_FPTOSI,w,0,ex(v,fw))); case C_FPTOUI: return val(mkFp(O_FPTOUI,w,0,ex(v,fw)));
  } fatal("cast"); }
static void jump(Frame&f,int bb);
static void popFrame(std::vector<Val>*ret){
  Frame&f=S->top(); for(u32 id:f.al){ Obj*o=new Obj(); o->fl=F_FREED|F_STACK; o->size=S->objs[id].o->size; S->objs[id]=ObjRef(o); S->freeStack.push_back(id); }
  S->st.pop_back(); if(S->st.empty()) throw PathEnd{0,"",""};
  Frame&c=S->top(); Instr&I=c.fn->blocks[c.bb].ins[c.ip]; if(ret&&I.dst>=0) for(int i=0;i<I.ndst;i++) c.r[I.dst+i]=(*ret)[i];
  if(!I.x.empty()){ // invoke: normal destination
    jump(c,I.x[0]); } else c.ip++; }
static void jump(Frame&f,int bb){
  int from=f.bb; auto&ins=f.fn->blocks[bb].ins; size_t n=0; while(n<ins.size()&&ins[n].op==I_PHI) n++;
  static std::vector<Val> tmp; tmp.clear();
  for(size_t i=0;i<n;i++){ Instr&P=ins[i]; int k=-1; for(size_t j=0;j<P.x.size();j++) if(P.x[j]==from){k=(int)j;break;} if(k<0) fatal("phi edge missing in %s",f.fn->name.c_str()); for(auto&o:P.phi[k]) tmp.push_back(opv(f,o)); P.hit=true; }
  size_t t=0; for(size_t i=0;i<n;i++) for(int j=0;j<ins[i].ndst;j++) f.r[ins[i].dst+j]=tmp[t++];
  f.prev=from; f.bb=bb; f.ip=(int)n; }
static Val loadV(u64 a,const Leaf&lf){ return loadC(*S,a+lf.off,lf.w); }
static void setRet(Frame&f,Instr&I,std::initializer_list<Val> v){ int i=0; if(I.dst>=0) for(auto&x:v) f.r[I.dst+i++]=x; }
static u64 heapAlloc(u64 n,bool zero){ if(n>(1ull<<30)) viol("huge-allocation","allocation of more than 1 GiB"); if(S->reuse){ for(int i=(int)S->freeHeap.size()-1;i>=0;i--) if(S->reuse>1?(S->freeHeap[i].first+63)/64==(n+63)/64:S->freeHeap[i].first==n){ u32 id=S->freeHeap[i].second; S->freeHeap.erase(S->freeHeap.begin()+i); newObj(*S,n,F_HEAP|(zero?F_ZERO:0),id); return addrOf(id);} } return addrOf(newObj(*S,n,F_HEAP|(zero?F_ZERO:0))); }
static void heapFree(u64 p){ if(!p) return; u32 id=idOf(p); if(id>=S->objs.size()||!S->objs[id].o||p!=addrOf(id)||!(S->objs[id].o->fl&F_HEAP)) viol("invalid-free","free of a pointer that is not a heap block"); Obj*o=S->objs[id].o; if(o->fl&F_FREED) viol("double-free","block freed twice"); Obj*n=new Obj(); n->size=o->size; n->fl=F_HEAP|F_FREED; if(S->reuse) S->freeHeap.push_back({o->size,id}); S->objs[id]=ObjRef(n); }
static Ex* symInput(unsigned nbytes){ Ex*r=nullptr; for(unsigned i=0;i<nbytes;i++){ Ex*b=mkVar(newVar(*S,0)); r=r?mkConcat(b,r):b; } return r; }
static std::string cstr(u64 p,u64 n){ std::string s; for(u64 i=0;i<n&&i<400;i++){ Val v=loadC(*S,p+i,8); s+=v.e?'?':(char)v.c; } return s; }
static Val memcmpV(u64 a,u64 b,u64 n,bool eqOnly){
  bool sym=false; std::vector<std::pair<Val,Val>> xs; u64 o; if(n){ chk(*S,a,n,o,false,"read"); chk(*S,b,n,o,false,"read"); }
  for(u64 i=0;i<n;i++){ Val x=loadC(*S,a+i,8),y=loadC(*S,b+i,8); if(!x.e&&!y.e){ if(x.c!=y.c){ if(!sym) return Val{msk((u64)(eqOnly?1:(x.c<y.c?-1:1)),32),nullptr}; xs.push_back({x,y}); break; } continue; } sym=true; xs.push_back({x,y}); }
  if(!sym) return Val{0,nullptr};
  if(eqOnly){ Ex*e=mkTrue(); for(auto&p:xs) e=mkAnd(e,mkEq(ex(p.first,8),ex(p.second,8))); return val(mkIte(e,mkConst(0,32),mkConst(1,32))); }
  Ex*r=mkConst(0,32); for(int i=(int)xs.size()-1;i>=0;i--){ Ex*x=ex(xs[i].first,8),*y=ex(xs[i].second,8); r=mkIte(mkEq(x,y),r,mkIte(mkCmp(O_ULT,x,y),mkConst(maskw(32),32),mkConst(1,32))); } return val(r); }
static Ex* bitcount(Ex*x,unsigned w,int kind){ // 0 ctpop 1 ctlz 2 cttz
  if(kind&&w>8&&w%8==0){ // byte by byte, so that what is known about a byte decides its part
    Ex*r=mkConst(w,w); unsigned n=w/8; for(unsigned k=0;k<n;k++){ unsigned i=kind==1?k:n-1-k; Ex*b=mkExtract(x,8*i,8); Ex*in=mkBin(O_ADD,mkZext(bitcount(b,8,kind),w),mkConst(kind==1?8*(n-1-i):8*i,w)); r=mkIte(mkEq(b,mkConst(0,8)),r,in); } return r; }
  if(kind==0){ Ex*r=mkConst(0,w); for(unsigned i=0;i<w;i++) r=mkBin(O_ADD,r,mkZext(mkExtract(x,i,1),w)); return r; }
  Ex*r=mkConst(w,w); if(kind==1){ for(unsigned i=0;i<w;i++) r=mkIte(mkEq(mkExtract(x,i,1),mkConst(1,1)),mkConst(w-1-i,w),r); } else { for(int i=(int)w-1;i>=0;i--) r=mkIte(mkEq(mkExtract(x,i,1),mkConst(1,1)),mkConst(i,w),r); } return r; }
static void builtin(Frame&f,Instr&I){
  auto arg=[&](int i){ return opv(f,I.ops[i]); };
  unsigned w=I.ty&&I.ty->k==T_INT?I.ty->w:64; size_t lanes=1; if(I.ty&&I.ty->k==T_VECTOR){ lanes=I.ty->n; w=I.ty->el->w; }
  auto lane2=[&](auto fn){ for(size_t k=0;k<lanes;k++) f.r[I.dst+k]=fn(opv(f,I.ops[k]),opv(f,I.ops[lanes+k])); };
  auto aw=[&](int i){ return I.aty[i]->k==T_VECTOR?I.aty[i]->el->w:I.aty[i]->w; };
  bool jumpInv=!I.x.empty();
  switch(I.bi){
   case B_NOPV: break;
   case B_ZERO: setRet(f,I,{Val{0,nullptr}}); break;
   case B_ID0: for(int k=0;k<I.ndst;k++) f.r[I.dst+k]=opv(f,I.ops[k]); break;
   case B_MEMCPY: case B_MEMMOVE: { u64 n=concretize(arg(2)),d=concretize(arg(0)),s=concretize(arg(1)); copyMem(*S,d,s,n,I.bi==B_MEMMOVE); if(I.dst>=0) f.r[I.dst]=Val{d,nullptr}; break; }
   case B_MEMSET: { u64 n=concretize(arg(2)),d=concretize(arg(0)); Val b=arg(1); if(b.e) b=val(mkExtract(b.e,0,8)); else b.c&=255; setMem(*S,d,b,n); if(I.dst>=0) f.r[I.dst]=Val{d,nullptr}; break; }
   case B_ASSUME: { Val c=arg(0); bool ok=c.e?decide(c.e):c.c; if(!ok) viol("ub-assume","compiler assumption violated (undefined behaviour)"); break; }
   case B_FSHL: case B_FSHR: { Val a=arg(0),b=arg(1),c=arg(2); u64 s=concretize(c)%w; if(I.bi==B_FSHR) s=(w-s)%w; if(I.bi==B_FSHR&&s==0){ f.r[I.dst]=b; break;} if(s==0){ f.r[I.dst]=a; break;} f.r[I.dst]=val(mkConcat(mkExtract(ex(a,w),0,w-s),mkExtract(ex(b,w),w-s,s))); break; }
   case B_UMAX: lane2([&](Val a,Val b){ Val c=icmp(4,w,a,b); return select1(c,a,b,w); }); break;
   case B_UMIN: lane2([&](Val a,Val b){ Val c=icmp(2,w,a,b); return select1(c,a,b,w); }); break;
   case B_SMAX: lane2([&](Val a,Val b){ Val c=icmp(8,w,a,b); return select1(c,a,b,w); }); break;
   case B_SMIN: lane2([&](Val a,Val b){ Val c=icmp(6,w,a,b); return select1(c,a,b,w); }); break;
   case B_ABS: { Val a=arg(0); unsigned ww=aw(0); f.r[I.dst]=select1(icmp(6,ww,a,Val{0,nullptr}),binop(O_SUB,ww,Val{0,nullptr},a),a,ww); break; }
   case B_FABS: { Val a=arg(0); unsigned ww=aw(0); f.r[I.dst]=binop(O_AND,ww,a,Val{msk(~(u64)0,ww)>>1,nullptr}); break; }
   case B_FPCLASS: { unsigned ww=aw(0),mb=ww==64?52:23; Ex*x=ex(arg(0),ww); u64 m=concretize(arg(1)); Ex*man=mkExtract(x,0,mb),*exn=mkExtract(x,mb,ww-1-mb); Val sg=val(mkExtract(x,ww-1,1)); unsigned ew=ww-1-mb;
     Val ez=icmp(0,ew,val(exn),Val{0,nullptr}),eo=icmp(0,ew,val(exn),Val{msk(~(u64)0,ew),nullptr}),mz=icmp(0,mb,val(man),Val{0,nullptr}),qn=val(mkExtract(x,mb-1,1));
     auto N=[&](Val a){ return binop(O_XOR,1,a,Val{1,nullptr}); }; auto A=[&](Val a,Val b){ return binop(O_AND,1,a,b); }; Val r{0,nullptr}; auto add=[&](unsigned bit,Val v){ if(m>>bit&1) r=binop(O_OR,1,r,v); };
     Val nan=A(eo,N(mz)),inf=A(eo,mz),zero=A(ez,mz),subn=A(ez,N(mz)),nor=A(N(ez),N(eo)); Val ps=N(sg);
     add(0,A(nan,N(qn))); add(1,A(nan,qn)); add(2,A(inf,sg)); add(3,A(nor,sg)); add(4,A(subn,sg)); add(5,A(zero,sg)); add(6,A(zero,ps)); add(7,A(subn,ps)); add(8,A(nor,ps)); add(9,A(inf,ps)); f.r[I.dst]=r; break; }
   case B_PTRMASK: f.r[I.dst]=binop(O_AND,64,arg(0),arg(1)); break;
   case B_FMIN: case B_FMAX: { unsigned ww=aw(0); Val a=arg(0),b=arg(1); auto fc=[&](unsigned p,Val x,Val y){ return val(mkFp(O_FCMP,1,p,ex(x,ww),ex(y,ww))); }; // the other operand where one is NaN
     Val c=fc(I.bi==B_FMIN?4:2,a,b), an=fc(8,a,a); f.r[I.dst]=select1(an,b,select1(fc(8,b,b),a,select1(c,a,b,ww),ww),ww); break; }
   case B_COPYSIGN: { unsigned ww=aw(0); u64 sb=(u64)1<<(ww-1); f.r[I.dst]=binop(O_OR,ww,binop(O_AND,ww,arg(0),Val{sb-1,nullptr}),binop(O_AND,ww,arg(1),Val{sb,nullptr})); break; }
   case B_FTRUNC: case B_FFLOOR: case B_FCEIL: case B_FROUND: case B_FRINT: { unsigned ww=aw(0); f.r[I.dst]=val(mkFp(O_FRTI,ww,I.bi==B_FTRUNC?1:I.bi==B_FFLOOR?2:I.bi==B_FCEIL?3:I.bi==B_FROUND?4:0,ex(arg(0),ww))); break; }
   case B_SSUBSAT: case B_SADDSAT: { unsigned ww=aw(0); if(ww>64) fatal("sat width"); Ex*a=mkSext(ex(arg(0),ww),2*ww),*b=mkSext(ex(arg(1),ww),2*ww); Ex*full=mkBin(I.bi==B_SADDSAT?O_ADD:O_SUB,a,b); Val r=val(mkExtract(full,0,ww)); Val ok=icmp(0,2*ww,val(mkSext(mkExtract(full,0,ww),2*ww)),val(full)); Val ng=val(mkExtract(full,2*ww-1,1)); f.r[I.dst]=select1(ok,r,select1(ng,Val{(u64)1<<(ww-1),nullptr},Val{((u64)1<<(ww-1))-1,nullptr},ww),ww); break; }
   case B_UMULO: case B_UADDO: case B_USUBO: case B_SMULO: case B_SADDO: case B_SSUBO: {
     unsigned ww=aw(0); Val a=arg(0),b=arg(1); Op op=(I.bi==B_UMULO||I.bi==B_SMULO)?O_MUL:(I.bi==B_UADDO||I.bi==B_SADDO)?O_ADD:O_SUB; bool sg=I.bi==B_SMULO||I.bi==B_SADDO||I.bi==B_SSUBO;
     Val r=binop(op,ww,a,b),o;
     if(I.bi==B_UADDO) o=icmp(2,ww,r,a); else if(I.bi==B_USUBO) o=icmp(2,ww,a,b);
     else if(ww<=64){ Ex*xa=sg?mkSext(ex(a,ww),2*ww):mkZext(ex(a,ww),2*ww),*xb=sg?mkSext(ex(b,ww),2*ww):mkZext(ex(b,ww),2*ww); Ex*full=mkBin(op,xa,xb); Ex*back=sg?mkSext(mkExtract(full,0,ww),2*ww):mkZext(mkExtract(full,0,ww),2*ww); o=val(mkNot(mkEq(full,back))); }
     else fatal("mulo i128");
     setRet(f,I,{r,o}); break; }
   case B_USUBSAT: lane2([&](Val a,Val b){ return select1(icmp(2,w,a,b),Val{0,nullptr},binop(O_SUB,w,a,b),w); }); break;
   case B_UADDSAT: lane2([&](Val a,Val b){ Val r=binop(O_ADD,w,a,b); return select1(icmp(2,w,r,a),Val{msk(~(u64)0,w),nullptr},r,w); }); break;
   case B_CTPOP: case B_CTLZ: case B_CTTZ: for(size_t k=0;k<lanes;k++){ Val a=opv(f,I.ops[k]); int kd=I.bi==B_CTPOP?0:I.bi==B_CTLZ?1:2; if(!a.e){ u64 x=msk(a.c,w); u64 r=kd==0?__builtin_popcountll(x):kd==1?(x?(u64)__builtin_clzll(x)-(64-w):w):(x?(u64)__builtin_ctzll(x):w); f.r[I.dst+k]=Val{r,nullptr}; } else f.r[I.dst+k]=val(bitcount(a.e,w,kd)); } break;
   case B_BSWAP: { Val a=arg(0); Ex*x=ex(a,w),*r=nullptr; for(unsigned i=0;i<w/8;i++){ Ex*b=mkExtract(x,8*i,8); r=r?mkConcat(r,b):b; } f.r[I.dst]=val(r); break; }
   case B_BITREV: { Val a=arg(0); Ex*x=ex(a,w),*r=nullptr; for(unsigned i=0;i<w;i++){ Ex*b=mkExtract(x,i,1); r=r?mkConcat(r,b):b; } f.r[I.dst]=val(r); break; }
   case B_UCMP: case B_SCMP: { unsigned ww=aw(0); Val a=arg(0),b=arg(1); int lt=I.bi==B_UCMP?2:6; Val l=icmp(lt,ww,a,b),e=icmp(0,ww,a,b); f.r[I.dst]=select1(e,Val{0,nullptr},select1(l,Val{msk(~(u64)0,w),nullptr},Val{1,nullptr},w),w); break; }
   case B_ISCONST: f.r[I.dst]=Val{0,nullptr}; break;
   case B_EXPECT: f.r[I.dst]=arg(0); break;
   case B_FPTOSISAT: f.r[I.dst]=val(mkFp(O_FPTOSI,w,0,ex(arg(0),aw(0)))); break;
   case B_FPTOUISAT: f.r[I.dst]=val(mkFp(O_FPTOUI,w,0,ex(arg(0),aw(0)))); break;
   case B_TRAP: viol("trap","trap instruction reached");
   case B_ABORT: viol("abort","abort called");
   case B_PANIC: viol("panic","panic: "+demangle(I.fn->name));
   case B_MALLOC: { u64 n=concretize(arg(0)); f.r[I.dst]=Val{heapAlloc(n,false),nullptr}; break; }
   case B_CALLOC: { u64 n=concretize(arg(0)),m=concretize(arg(1)); f.r[I.dst]=Val{heapAlloc(n*m,true),nullptr}; break; }
   case B_REALLOC: { u64 n=concretize(arg(1)),p=concretize(arg(0)); u64 q=heapAlloc(n,false); if(p){ u64 o; Obj&ob=chk(*S,p,0,o,false,"realloc"); u64 cp=std::min(n,ob.size); copyMem(*S,q,p,cp,false); heapFree(p);} f.r[I.dst]=Val{q,nullptr}; break; }
   case B_FREE: { u64 p=concretize(arg(0)); heapFree(p); break; }
   case B_PMEMALIGN: { u64 n=concretize(arg(2)),pp=concretize(arg(0)); u64 q=heapAlloc(n,false); storeC(*S,pp,64,Val{q,nullptr}); f.r[I.dst]=Val{0,nullptr}; break; }
   case B_MEMCMP: case B_BCMP: { u64 n=concretize(arg(2)),a=concretize(arg(0)),b=concretize(arg(1)); f.r[I.dst]=memcmpV(a,b,n,I.bi==B_BCMP); break; }
   case B_STRLEN: { u64 p=concretize(arg(0)); u64 n=0; for(;;n++){ Val v=loadC(*S,p+n,8); u64 c=concretize(v); if(!c) break; } f.r[I.dst]=Val{n,nullptr}; break; }
   case B_MEMCHR: { Val cv=arg(1); u64 n=concretize(arg(2)),p=concretize(arg(0)); u64 r=0; for(u64 i=0;i<n;i++){ Val v=loadC(*S,p+i,8); Val e=icmp(0,8,v,cv.e?val(mkExtract(cv.e,0,8)):Val{cv.c&255,nullptr}); bool y=e.e?decide(e.e):e.c; if(y){ r=p+i; break; } } f.r[I.dst]=Val{r,nullptr}; break; }
   case B_SYSCALL: { u64 nr=concretize(arg(0)); if(nr==318){ u64 p=concretize(arg(1)),n=concretize(arg(2)); setMem(*S,p,Val{0x5a,nullptr},n); f.r[I.dst]=Val{n,nullptr}; } else if(nr==202) f.r[I.dst]=Val{0,nullptr}; else incomplete("syscall "+std::to_string(nr)); break; }
   case B_ERRNO: { if(!S->errnoAddr){ S->errnoAddr=addrOf(newObj(*S,4,F_ZERO)); } f.r[I.dst]=Val{S->errnoAddr,nullptr}; break; }
   case B_GETRANDOM: { u64 p=concretize(arg(0)),n=concretize(arg(1)); setMem(*S,p,Val{0x5a,nullptr},n); f.r[I.dst]=Val{n,nullptr}; break; }
   case B_KEYCREATE: { u64 p=concretize(arg(0)); S->tls.push_back(0); storeC(*S,p,32,Val{(u64)S->tls.size(),nullptr}); f.r[I.dst]=Val{0,nullptr}; break; }
   case B_SETSPEC: { u64 k=concretize(arg(0)),v=concretize(arg(1)); if(k==0||k>S->tls.size()) incomplete("pthread key"); S->tls[k-1]=v; if(I.dst>=0) S->top().r[I.dst]=Val{0,nullptr}; break; }
   case B_GETSPEC: { u64 k=concretize(arg(0)); if(k==0||k>S->tls.size()) incomplete("pthread key"); S->top().r[I.dst]=Val{S->tls[k-1],nullptr}; break; }
   case B_WRITE: f.r[I.dst]=arg(2); break;
   case B_FMTFORMAT: { // -> empty String {cap=0, ptr=1, len=0} through sret
     u64 p=concretize(arg(0)); storeC(*S,p,64,Val{0,nullptr}); storeC(*S,p+8,64,Val{1,nullptr}); storeC(*S,p+16,64,Val{0,nullptr}); break; }
   case B_FMTWRITE: f.r[I.dst]=Val{0,nullptr}; break;
   case B_SYM_U8: f.r[I.dst]=val(symInput(1)); break; case B_SYM_U16: f.r[I.dst]=val(symInput(2)); break; case B_SYM_U32: f.r[I.dst]=val(symInput(4)); break; case B_SYM_U64: f.r[I.dst]=val(symInput(8)); break;
   case B_SYM_BYTES: { u64 n=concretize(arg(1)),p=concretize(arg(0)); for(u64 i=0;i<n;i++) storeC(*S,p+i,8,val(symInput(1))); break; }
   case B_SYM_ASSUME: { Val c=arg(0); if(!c.e){ if(!(c.c&1)) throw PathEnd{1,"",""}; } else { Ex*e=c.e->w==1?c.e:mkExtract(c.e,0,1); if(evalIn(*S,e)) assume(*S,e); else { Model nm; R r=feasible(*S,e,nm); if(r==UNKNOWN) incomplete("solver timeout in assume"); if(r==UNSAT) throw PathEnd{1,"",""}; S->m=nm; assume(*S,e); } } break; }
   case B_SYM_CHOICE: { u64 n=concretize(arg(0)); if(n<=1){ // still consumes no input
       f.r[I.dst]=Val{0,nullptr}; break; }
     unsigned nb=n<=256?1:2; // one (or two) input bytes; forked eagerly over all values
     u32 base=(u32)S->vkind.size(); State*orig=new State(*S);
     for(u64 k=n;k-->1;){ State*s2=new State(*orig); st_forks++; s2->depth++; State*sv=S; S=s2; Ex*x=symInput(nb); for(unsigned b=0;b<nb;b++) s2->m[base+b]=(u8)(k>>(8*b)); assume(*s2,mkEq(x,mkConst(k,8*nb))); Frame&g=s2->top(); Instr&J=g.fn->blocks[g.bb].ins[g.ip]; g.r[J.dst]=Val{k,nullptr}; if(jumpInv) jump(g,J.x[0]); else g.ip++; S=sv; work.push_back(s2); }
     delete orig; Ex*x=symInput(nb); assume(*S,mkEq(x,mkConst(0,8*nb))); Frame&g=S->top(); g.r[I.dst]=Val{0,nullptr}; break; }
   case B_SYM_COVER: g_cov.insert((u32)concretize(arg(0))); break;
   case B_SYM_PARAM: { u64 i=concretize(arg(0)); f.r[I.dst]=Val{i<g_params.size()?g_params[i]:0,nullptr}; break; }
   case B_SYM_CONC: { u64 v=concretize(arg(0)); f.r[I.dst]=Val{v,nullptr}; break; }
   case B_SYM_FAIL: { u64 p=concretize(arg(0)),n=concretize(arg(1)); viol("assertion",cstr(p,n)); }
   case B_SYM_ACTIVE: f.r[I.dst]=Val{1,nullptr}; break;
   case B_SYM_REUSE: S->reuse=concretize(arg(0)); break;
   case B_SYM_LIVE: { u64 n=0; for(auto&r:S->objs) if(r.o&&(r.o->fl&F_HEAP)&&!(r.o->fl&F_FREED)) n++; f.r[I.dst]=Val{n,nullptr}; break; }
   case B_SYM_LOG: { u64 p=concretize(arg(0)),n=concretize(arg(1)); Val v=arg(2); fprintf(stderr,"LOG %s %s\n",cstr(p,n).c_str(),v.e?exStr(v.e,10).c_str():std::to_string(v.c).c_str()); break; }
   default: fatal("builtin %d (%s) in %s",I.bi,I.fn?I.fn->name.c_str():"?",f.fn->name.c_str());
  }
  Frame&g=S->top(); if(jumpInv) jump(g,I.x[0]); else g.ip++;
}
static void pushCall(Frame&f,Instr&I,Function*fn,size_t argStart){
  M.parseFn(fn); fn->calls++; if(S->st.size()>2000) viol("stack-overflow","call depth exceeds 2000 frames (unbounded recursion)");
  auto nf=std::make_shared<Frame>(); nf->fn=fn; nf->r.resize(fn->nslots,Val{0,nullptr}); size_t np=0; for(Type*t:fn->ptys) np+=leavesOf(t).size(); if(I.ops.size()-argStart<np) fatal("argument count calling %s",fn->name.c_str());
  for(size_t i=0;i<np;i++) nf->r[i]=opv(f,I.ops[argStart+i]);
  S->st.push_back(std::move(nf)); }
static void step(){
  Frame&f=S->top(); Instr&I=f.fn->blocks[f.bb].ins[f.ip]; I.hit=true; S->steps++; st_steps++;
  switch(I.op){
   case I_BIN: { size_t n=I.ndst; for(size_t k=0;k<n;k++){ Val r=binop((Op)I.sub,I.w,opv(f,I.ops[k]),opv(f,I.ops[n+k])); S->top().r[I.dst+k]=r; } S->top().ip++; break; }
   case I_ICMP: { size_t n=I.ndst; for(size_t k=0;k<n;k++) f.r[I.dst+k]=icmp(I.sub,I.w,opv(f,I.ops[k]),opv(f,I.ops[n+k])); f.ip++; break; }
   case I_FCMP: { size_t n=I.ndst; for(size_t k=0;k<n;k++) f.r[I.dst+k]=val(mkFp(O_FCMP,1,I.sub,ex(opv(f,I.ops[k]),I.w),ex(opv(f,I.ops[n+k]),I.w))); f.ip++; break; }
   case I_FBIN: { size_t n=I.ndst; for(size_t k=0;k<n;k++) f.r[I.dst+k]=val(mkFp((Op)I.sub,I.w,0,ex(opv(f,I.ops[k]),I.w),ex(opv(f,I.ops[n+k]),I.w))); f.ip++; break; }
   case I_FNEG: { for(int k=0;k<I.ndst;k++) f.r[I.dst+k]=binop(O_XOR,I.w,opv(f,I.ops[k]),Val{(u64)1<<(I.w-1),nullptr}); f.ip++; break; }
   case I_CAST: { Type*ft=I.aty[0];
      if(I.sub==C_BITCAST&&(int)leavesOf(ft).size()!=I.ndst){ // vector<->int: go through bits
        auto&lv=leavesOf(ft); Ex*b=nullptr; for(size_t k=0;k<lv.size();k++){ Ex*x=ex(opv(f,I.ops[k]),lv[k].w); b=b?mkConcat(x,b):x; } unsigned p=0; for(auto&q:leavesOf(I.ty)){ f.r[I.dst+p/q.w]=val(mkExtract(b,p,q.w)); p+=q.w; } }
      else { unsigned fw=ft->k==T_VECTOR?ft->el->w:ft->w; for(int k=0;k<I.ndst;k++) f.r[I.dst+k]=castv(I.sub,fw,I.w,opv(f,I.ops[k])); }
      f.ip++; break; }
   case I_SELECT: { size_t nc=I.xs[0]; auto&lv=leavesOf(I.ty); if(nc==1){ Val c=opv(f,I.ops[0]); if(c.e&&I.sub){ bool d=decide(c.e); Frame&g=S->top(); for(int k=0;k<I.ndst;k++) g.r[I.dst+k]=opv(g,I.ops[1+k+(d?0:I.ndst)]); g.ip++; break; } for(int k=0;k<I.ndst;k++) f.r[I.dst+k]=select1(c,opv(f,I.ops[1+k]),opv(f,I.ops[1+I.ndst+k]),lv[k].w); }
      else for(int k=0;k<I.ndst;k++) f.r[I.dst+k]=select1(opv(f,I.ops[k]),opv(f,I.ops[nc+k]),opv(f,I.ops[nc+I.ndst+k]),lv[k].w);
      f.ip++; break; }
   case I_COPY: { if(I.ndst==1) f.r[I.dst]=opv(f,I.ops[0]); else { static std::vector<Val> t; t.clear(); for(auto&o:I.ops) t.push_back(opv(f,o)); for(int k=0;k<I.ndst;k++) f.r[I.dst+k]=t[k]; } f.ip++; break; }
   case I_ALLOCA: { u32 id=newObj(*S,I.xs[0],F_STACK); f.al.push_back(id); f.r[I.dst]=Val{addrOf(id),nullptr}; f.ip++; break; }
   case I_LOAD: { Val p=opv(f,I.ops[0]);
      if(p.e){ // symbolic address into a constant table: build an if-then-else over the feasible range
        u64 lo=p.e->umin,hi=p.e->umax; u32 id=idOf(lo); Ex*idx=p.e; u64 base=0; if(idx->op==O_ADD&&isc(idx->b)){ base=(u64)idx->b->c; idx=idx->a; lo=base+idx->umin; hi=base+idx->umax; id=idOf(lo);} 
        auto&lv=leavesOf(I.ty);
        if(lv.size()==1&&id==idOf(hi)&&id<S->objs.size()&&S->objs[id].o&&(S->objs[id].o->fl&F_RO)&&hi-lo<=8192&&hi>=lo){ Obj&o=*S->objs[id].o; unsigned nb=(lv[0].w+7)/8; Model nm; u64 end=addrOf(id)+o.size; if(lo>=addrOf(id)&&hi+nb<=end){ Ex*r=nullptr; std::vector<std::pair<u64,Val>> runs; for(u64 a=lo;a<=hi;a++){ Val v=loadC(*S,a,lv[0].w); if(runs.empty()||v.e||runs.back().second.e||runs.back().second.c!=v.c) runs.push_back({a,v}); else runs.back().first=a; }
            if(runs.size()<=600){ for(size_t k=runs.size();k-->0;){ Ex*x=ex(runs[k].second,lv[0].w); r=r?mkIte(mkCmp(O_ULE,idx,mkConst(runs[k].first-base,64)),x,r):x; } f.r[I.dst]=val(r); f.ip++; break; } } } }
      u64 a=concretize(p); Frame&g=S->top(); auto&lv=leavesOf(I.ty); for(size_t k=0;k<lv.size();k++) g.r[I.dst+k]=loadV(a,lv[k]); g.ip++; break; }
   case I_STORE: { u64 a=concretize(opv(f,I.ops.back())); Frame&g=S->top(); auto&lv=leavesOf(I.ty); for(size_t k=0;k<lv.size();k++) storeC(*S,a+lv[k].off,lv[k].w,opv(g,I.ops[k])); g.ip++; break; }
   case I_GEP: { Val b=opv(f,I.ops[0]); b=binop(O_ADD,64,b,Val{I.xs[0],nullptr}); for(size_t k=1;k<I.ops.size();k++){ Val i=opv(f,I.ops[k]); unsigned iw=I.x[k-1]; if(iw<64) i=castv(C_SEXT,iw,64,i); else if(iw>64) i=castv(C_TRUNC,iw,64,i); b=binop(O_ADD,64,b,binop(O_MUL,64,i,Val{I.xs[k],nullptr})); } f.r[I.dst]=b; f.ip++; break; }
   case I_BR: jump(f,I.x[0]); break;
   case I_CBR: { Val c=opv(f,I.ops[0]); bool d=c.e?decide(c.e):(c.c&1); jump(S->top(),I.x[d?0:1]); break; }
   case I_SWITCH: { Val c=opv(f,I.ops[0]); if(!c.e){ int t=I.x[0]; for(size_t k=0;k<I.xs.size();k++) if(I.xs[k]==c.c){t=I.x[k+1];break;} jump(f,t); break; }
      // group by target
      std::vector<std::pair<int,Ex*>> g; Ex*any=mkFalse(); for(size_t k=0;k<I.xs.size();k++){ Ex*e=mkEq(c.e,mkConst(I.xs[k],I.w)); if(e==mkFalse()) continue; any=mkOr(any,e); bool fnd=false; for(auto&p:g) if(p.first==I.x[k+1]){p.second=mkOr(p.second,e);fnd=true;break;} if(!fnd) g.push_back({I.x[k+1],e}); }
      bool done=false; for(auto&p:g) if(p.first!=I.x[0]&&decide(p.second)){ jump(S->top(),p.first); done=true; break; }
      if(!done) jump(S->top(),I.x[0]); break; }
   case I_RET: { std::vector<Val> r; for(auto&o:I.ops) r.push_back(opv(f,o)); popFrame(&r); break; }
   case I_UNREACH: viol("unreachable","unreachable code reached (undefined behaviour)");
   case I_TRAP: incomplete("landingpad reached");
   case I_NOP: f.ip++; break;
   case I_RMW: { u64 a=concretize(opv(f,I.ops[0])); Frame&g=S->top(); Val v=opv(g,I.ops[1]); Val o=loadC(*S,a,I.w); Val n; switch(I.sub){ case R_XCHG:n=v;break; case R_ADD:n=binop(O_ADD,I.w,o,v);break; case R_SUB:n=binop(O_SUB,I.w,o,v);break; case R_AND:n=binop(O_AND,I.w,o,v);break; case R_OR:n=binop(O_OR,I.w,o,v);break; case R_XOR:n=binop(O_XOR,I.w,o,v);break; case R_UMAX:n=select1(icmp(4,I.w,o,v),o,v,I.w);break; case R_UMIN:n=select1(icmp(2,I.w,o,v),o,v,I.w);break; default: fatal("rmw"); } storeC(*S,a,I.w,n); g.r[I.dst]=o; g.ip++; break; }
   case I_CMPXCHG: { u64 a=concretize(opv(f,I.ops[0])); Val o=loadC(*S,a,I.w); Val e=icmp(0,I.w,o,opv(S->top(),I.ops[1])); bool d=e.e?decide(e.e):e.c; Frame&g=S->top(); if(d) storeC(*S,a,I.w,opv(g,I.ops[2])); g.r[I.dst]=o; g.r[I.dst+1]=Val{d,nullptr}; g.ip++; break; }
   case I_CALL: {
      if(I.bi!=B_NONE){ builtin(f,I); break; }
      Function*fn=I.fn; size_t as=0; if(!fn){ u64 a=concretize(opv(f,I.ops[0])); fn=fnAt(a); as=1; if(!fn) viol("bad-call","call through an invalid function pointer"); 
        if(fn->bi!=B_NONE){ Instr J=I; J.fn=fn; J.bi=fn->bi; J.ops.erase(J.ops.begin()); builtin(S->top(),J); break; } }
      if(!fn->hasBody) incomplete("call to external function "+fn->name);
      pushCall(S->top(),I,fn,as); break; }
   default: fatal("op %d",I.op);
  }
}
