#include "ir.h"
#include <fstream>
#include <sstream>
#include <set>
Module M;
// ---------- types
static std::vector<Type*> allTypes; static std::map<std::string,Type*> tcache;
static Type* mk(const std::string&key){ auto&t=tcache[key]; if(!t){t=new Type();} return t; }
Type* tInt(unsigned w){ Type*t=mk("i"+std::to_string(w)); if(t->w==0){ t->k=T_INT;t->w=w; t->size=w<=8?1:w<=16?2:w<=32?4:w<=64?8:(w+63)/64*8; t->align=w<=8?1:w<=16?2:w<=32?4:w<=64?8:16; if(w>32&&w<64)t->size=8; } return t; }
Type* tPtr(){ Type*t=mk("p"); t->k=T_PTR;t->w=64;t->size=8;t->align=8; return t; }
Type* tVoid(){ Type*t=mk("v"); t->k=T_VOID; return t; }
u64 allocSize(Type*t){ return t->size; }
static void addLeaves(Type*t,u64 off,std::vector<Leaf>&v){
  switch(t->k){ case T_INT: case T_FLOAT: case T_DOUBLE: v.push_back({off,t->w,false}); break; case T_PTR: v.push_back({off,64,true}); break;
   case T_ARRAY: case T_VECTOR: for(u64 i=0;i<t->n;i++) addLeaves(t->el,off+i*t->el->size,v); break;
   case T_STRUCT: for(size_t i=0;i<t->f.size();i++) addLeaves(t->f[i],off+t->foff[i],v); break; default: break; } }
const std::vector<Leaf>& leavesOf(Type*t){ if(!t->leavesDone){ addLeaves(t,0,t->leaves); t->leavesDone=true;} return t->leaves; }
// ---------- lexer
enum LT : u8 { L_END, L_WORD, L_LOCAL, L_GLOBAL, L_INT, L_HEX, L_STR, L_CSTR, L_PUNCT, L_META, L_ATTR };
struct Lex { const char*p,*e; LT t; sv s; std::string str; 
  Lex(sv x){p=x.data();e=p+x.size();next();}
  static bool idc(char c){return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-';}
  void next(){
    while(p<e){ if(*p==' '||*p=='\n'||*p=='\t'||*p=='\r') p++; else if(*p==';'){ while(p<e&&*p!='\n')p++; } else if(*p=='/'&&p+1<e&&p[1]=='*'){ p+=2; while(p+1<e&&!(*p=='*'&&p[1]=='/'))p++; p+=2; } else break; }
    if(p>=e){t=L_END;s=sv();return;}
    char c=*p; const char*b=p;
    if(c=='%'||c=='@'){ p++; if(p<e&&*p=='"'){ p++; const char*q=p; while(p<e&&*p!='"')p++; s=sv(q,p-q); p++; } else { const char*q=p; while(p<e&&idc(*p))p++; s=sv(q,p-q);} t=c=='%'?L_LOCAL:L_GLOBAL; return; }
    if(c=='!'){ p++; if(p<e&&*p=='"'){ p++; const char*q=p; while(p<e&&*p!='"')p++; s=sv(q,p-q); p++; t=L_STR; return;} const char*q=p; while(p<e&&idc(*p))p++; s=sv(q,p-q); t=L_META; return; }
    if(c=='#'){ p++; const char*q=p; while(p<e&&idc(*p))p++; s=sv(q,p-q); t=L_ATTR; return; }
    if(c=='"'){ p++; const char*q=p; while(p<e&&*p!='"')p++; s=sv(q,p-q); p++; t=L_STR; return; }
    if(c=='c'&&p+1<e&&p[1]=='"'){ p+=2; const char*q=p; while(p<e&&*p!='"')p++; s=sv(q,p-q); p++; t=L_CSTR; return; }
    if(isdigit((unsigned char)c)||(c=='-'&&p+1<e&&isdigit((unsigned char)p[1]))){ p++; if(c=='0'&&p<e&&(*p=='x')){ p++; while(p<e&&isalnum((unsigned char)*p))p++; t=L_HEX; s=sv(b,p-b); return;} while(p<e&&(isalnum((unsigned char)*p)||*p=='.'||((*p=='+'||*p=='-')&&(p[-1]=='e'||p[-1]=='E'))))p++; s=sv(b,p-b); t=L_INT; return; }
    if(isalpha((unsigned char)c)||c=='_'){ while(p<e&&idc(*p))p++; s=sv(b,p-b); t=L_WORD; return; }
    if(c=='.'){ while(p<e&&*p=='.')p++; s=sv(b,p-b); t=L_PUNCT; return; }
    p++; s=sv(b,1); t=L_PUNCT;
  }
  bool is(const char*x){return (t==L_WORD||t==L_PUNCT)&&s==x;}
  bool eat(const char*x){ if(is(x)){next();return true;} return false; }
  void need(const char*x){ if(!eat(x)) fatal("IR parse: expected '%s' got '%.*s' near: %.120s",x,(int)s.size(),s.data(), std::string(s.data(),std::min<size_t>(120,e-s.data())).c_str()); }
  void skipParens(){ // at '('
    int d=0; do{ if(is("(")||is("[")||is("{"))d++; else if(is(")")||is("]")||is("}"))d--; if(t==L_END) fatal("parens"); next(); }while(d>0); }
};
static bool typeStart(Lex&l){ if(l.t==L_WORD){ sv s=l.s; if(s=="ptr"||s=="void"||s=="float"||s=="double"||s=="half"||s=="metadata"||s=="label"||s=="x86_fp80"||s=="fp128"||s=="token"||s=="b8") return true; if(s.size()>1&&s[0]=='i'&&isdigit((unsigned char)s[1])) return true; return false; } return l.is("{")||l.is("[")||l.is("<"); }
static Type* parseType(Lex&l){
  Type*t=nullptr;
  if(l.t==L_WORD){ sv s=l.s;
    if(s=="ptr"){t=tPtr(); l.next(); if(l.is("addrspace")){l.next();l.skipParens();} }
    else if(s=="void"){t=tVoid();l.next();}
    else if(s=="float"){t=mk("float");t->k=T_FLOAT;t->w=32;t->size=4;t->align=4;l.next();}
    else if(s=="double"){t=mk("double");t->k=T_DOUBLE;t->w=64;t->size=8;t->align=8;l.next();}
    else if(s=="half"){t=mk("half");t->k=T_OTHER;t->w=16;t->size=2;t->align=2;l.next();}
    else if(s=="fp128"||s=="x86_fp80"){t=mk("f128");t->k=T_OTHER;t->w=128;t->size=16;t->align=16;l.next();}
    else if(s=="metadata"||s=="token"){t=mk("m");t->k=T_META;l.next();}
    else if(s=="label"){t=mk("l");t->k=T_LABEL;l.next();}
    else if(s[0]=='i'){ t=tInt(atoi(std::string(s.substr(1)).c_str())); l.next(); }
    else fatal("type? %.*s",(int)s.size(),s.data());
  } else if(l.t==L_LOCAL){ auto it=M.named.find(std::string(l.s)); if(it==M.named.end()) fatal("named type %s",std::string(l.s).c_str()); t=it->second; l.next(); }
  else if(l.is("[")){ l.next(); u64 n=strtoull(std::string(l.s).c_str(),0,10); l.next(); l.need("x"); Type*el=parseType(l); l.need("]"); char k[64]; snprintf(k,64,"a%llu_%p",(unsigned long long)n,(void*)el); t=mk(k); t->k=T_ARRAY;t->n=n;t->el=el;t->size=n*el->size;t->align=el->align; }
  else if(l.is("<")||l.is("{")){
    bool packed=false; if(l.is("<")){ l.next(); if(!l.is("{")){ u64 n=strtoull(std::string(l.s).c_str(),0,10); l.next(); l.need("x"); Type*el=parseType(l); l.need(">"); char k[64]; snprintf(k,64,"v%llu_%p",(unsigned long long)n,(void*)el); t=mk(k); t->k=T_VECTOR;t->n=n;t->el=el; 
        t->size= el->w==1? (n+7)/8 : n*el->size; u64 a=1; while(a<t->size)a*=2; t->align=a; t->size=a; return t; } packed=true; }
    l.need("{"); std::vector<Type*> fs; std::string key=packed?"sp":"s"; if(!l.is("}")) do{ fs.push_back(parseType(l)); char k[32]; snprintf(k,32,"_%p",(void*)fs.back()); key+=k; }while(l.eat(",")); l.need("}"); if(packed) l.need(">");
    t=mk(key); if(t->size==0&&t->f.empty()){ t->k=T_STRUCT;t->packed=packed;t->f=fs; u64 o=0; u32 al=1; for(Type*f:fs){ u32 a=packed?1:f->align; o=(o+a-1)/a*a; t->foff.push_back(o); o+=f->size; al=std::max(al,a);} t->size=(o+al-1)/al*al; t->align=al; }
  } else fatal("type? '%.*s' near %.80s",(int)l.s.size(),l.s.data(),std::string(l.s.data(),std::min<size_t>(80,l.e-l.s.data())).c_str());
  return t;
}
static bool valueWord(sv s){ static const std::set<sv> w={"null","undef","poison","true","false","zeroinitializer","getelementptr","ptrtoint","ptrtoaddr","inttoptr","splat","trunc","sub","add","bitcast","none","asm","blockaddress","dso_local_equivalent","xor","mul"}; return w.count(s); }
static void skipAttrs(Lex&l){ // attributes between type and value
  for(;;){ if(l.t==L_STR){ l.next(); if(l.is("=")){l.next();l.next();} continue; } if(l.t==L_ATTR){l.next();continue;}
    if(l.t!=L_WORD||valueWord(l.s)||typeStart(l)) return; bool al=l.s=="align"; l.next(); if(al){ if(l.is("(")) l.skipParens(); else l.next(); } else if(l.is("(")) l.skipParens(); } }
static u128 parseBig(sv s){ bool neg=false; size_t i=0; if(s[0]=='-'){neg=true;i=1;} u128 v=0; for(;i<s.size();i++) v=v*10+(s[i]-'0'); return neg?(u128)0-v:v; }
// ---------- constants: produce flattened Vals
static Val vc(u64 c){return Val{c,nullptr};}
static u64 globalAddr(const std::string&n0){ std::string n=n0; auto al=M.aliases.find(n); if(al!=M.aliases.end()) n=al->second; auto g=M.globals.find(n); if(g!=M.globals.end()) return g->second->weak?0:g->second->addr; auto f=M.fns.find(n); if(f!=M.fns.end()) return fnAddr(f->second); fatal("unknown global @%s",n.c_str()); }
static void constZero(Type*t,std::vector<Val>&out){ for(auto&lf:leavesOf(t)) out.push_back(lf.w>64?Val{0,mkConst(0,lf.w)}:vc(0)); }
static void parseConst(Lex&l,Type*t,std::vector<Val>&out, std::vector<bool>*undef=nullptr);
static Val parseConst1(Lex&l){ Type*t=parseType(l); skipAttrs(l); std::vector<Val> v; parseConst(l,t,v); if(v.size()!=1) fatal("const expr operand"); return v[0]; }
static u64 gepOff(Type*t,const std::vector<u64>&idx){ u64 off=idx[0]*t->size; for(size_t i=1;i<idx.size();i++){ if(t->k==T_STRUCT){ off+=t->foff[idx[i]]; t=t->f[idx[i]]; } else { t=t->el; off+=idx[i]*t->size; } } return off; }
static void parseConst(Lex&l,Type*t,std::vector<Val>&out,std::vector<bool>*undef){
  size_t n0=out.size();
  auto fin=[&](bool u){ if(undef) undef->resize(out.size(),u); (void)n0; };
  if(l.is("zeroinitializer")||l.is("undef")||l.is("poison")||l.is("null")){ bool u=l.is("undef")||l.is("poison"); l.next(); constZero(t,out); fin(u); return; }
  if(l.t==L_INT){ if(t->k==T_FLOAT||t->k==T_DOUBLE){ double d=strtod(std::string(l.s).c_str(),0); if(t->k==T_FLOAT){float f=(float)d;u32 b;memcpy(&b,&f,4);out.push_back(vc(b));} else {u64 b;memcpy(&b,&d,8);out.push_back(vc(b));} l.next(); fin(false); return; }
    u128 v=parseBig(l.s)&maskw(t->w); l.next(); if(t->w>64) out.push_back(Val{0,mkConst(v,t->w)}); else out.push_back(vc((u64)v)); fin(false); return; }
  if(l.t==L_HEX){ u64 b=strtoull(std::string(l.s).c_str(),0,16); l.next(); if(t->k==T_FLOAT){ double d; memcpy(&d,&b,8); float f=(float)d; u32 x; memcpy(&x,&f,4); out.push_back(vc(x)); } else out.push_back(vc(b)); fin(false); return; }
  if(t->k==T_FLOAT||t->k==T_DOUBLE){ // f0x<bits>, [+-]inf, [+-]qnan, [+-][s]nan(0x<payload>)
    if(l.t==L_WORD&&l.s.size()>3&&l.s.substr(0,3)=="f0x"){ u64 b=strtoull(std::string(l.s.substr(1)).c_str(),0,16); l.next(); out.push_back(vc(b)); fin(false); return; }
    bool neg=l.is("-"); if(l.is("+")||l.is("-")) l.next();
    if(l.is("inf")||l.is("qnan")||l.is("nan")||l.is("snan")){ bool f=t->k==T_FLOAT; sv k=l.s; u64 e=f?0x7f800000ull:0x7ff0000000000000ull,q=f?0x400000ull:0x8000000000000ull,s=f?0x80000000ull:0x8000000000000000ull; u64 b=e; if(k!="inf"){ if(k!="snan") b|=q; l.next(); if(l.is("(")){ l.next(); b|=strtoull(std::string(l.s).c_str(),0,16); l.next(); l.need(")"); } } else l.next(); if(neg) b|=s; out.push_back(vc(b)); fin(false); return; } }
  if(l.is("true")||l.is("false")){ out.push_back(vc(l.is("true"))); l.next(); fin(false); return; }
  if(l.t==L_GLOBAL){ out.push_back(vc(globalAddr(std::string(l.s)))); l.next(); fin(false); return; }
  if(l.t==L_CSTR){ sv s=l.s; for(size_t i=0;i<s.size();){ u8 c; if(s[i]=='\\'){ if(s[i+1]=='\\'){c='\\';i+=2;} else { c=(u8)strtoul(std::string(s.substr(i+1,2)).c_str(),0,16); i+=3; } } else c=s[i++]; out.push_back(vc(c)); } l.next(); fin(false); return; }
  if(l.is("splat")){ l.next(); l.need("("); Val v=parseConst1(l); l.need(")"); for(u64 i=0;i<t->n;i++) out.push_back(v); fin(false); return; }
  if(l.is("<")||l.is("{")||l.is("[")){ bool p=l.is("<"); l.next(); bool pk=p&&l.is("{"); if(pk) l.next(); if(!(l.is("}")||l.is("]")||l.is(">"))) do{ Type*et=parseType(l); parseConst(l,et,out,undef); }while(l.eat(",")); l.next(); if(pk) l.need(">"); return; }
  if(l.is("getelementptr")){ l.next(); while(!l.is("(")) { l.next(); if(l.is("(")&&false) break; } 
    l.need("("); Type*bt=parseType(l); l.need(","); Val b=parseConst1(l); std::vector<u64> idx; while(l.eat(",")){ Type*it=parseType(l); std::vector<Val> v; parseConst(l,it,v); u64 x=v[0].c; if(it->w==32) x=(u64)(i64)(int32_t)x; idx.push_back(x);} l.need(")"); out.push_back(vc(b.c+gepOff(bt,idx))); fin(false); return; }
  if(l.is("ptrtoint")||l.is("inttoptr")||l.is("bitcast")||l.is("trunc")||l.is("ptrtoaddr")){ l.next(); l.need("("); Val v=parseConst1(l); l.need("to"); Type*tt=parseType(l); l.need(")"); v.c&=(u64)maskw(tt->w); out.push_back(v); fin(false); return; }
  if(l.is("sub")||l.is("add")||l.is("xor")||l.is("mul")){ char c=l.s[0]; l.next(); while(l.t==L_WORD) l.next(); l.need("("); Val a=parseConst1(l); l.need(","); Val b=parseConst1(l); l.need(")"); u64 r=c=='s'?a.c-b.c:c=='a'?a.c+b.c:c=='x'?a.c^b.c:a.c*b.c; out.push_back(vc(r&(u64)maskw(t->w))); fin(false); return; }
  fatal("const? '%.*s' near %.100s",(int)l.s.size(),l.s.data(),std::string(l.s.data(),std::min<size_t>(100,l.e-l.s.data())).c_str());
}
void Module::initGlobal(Global*g,std::vector<u8>&bytes,std::vector<bool>&init){
  bytes.assign(g->ty->size,0); init.assign(g->ty->size,true);
  if(!g->hasInit) return;
  Lex l(g->init); if(l.is("zeroinitializer")) return;
  std::vector<Val> v; std::vector<bool> ud; parseConst(l,g->ty,v,&ud); auto&lv=leavesOf(g->ty); if(v.size()!=lv.size()) fatal("global %s init %zu vs %zu",g->name.c_str(),v.size(),lv.size());
  ud.resize(v.size(),false);
  for(size_t i=0;i<v.size();i++){ unsigned nb=(lv[i].w+7)/8; u128 c=v[i].e?v[i].e->c:v[i].c; for(unsigned j=0;j<nb;j++){ bytes[lv[i].off+j]=(u8)(c>>(8*j)); init[lv[i].off+j]=!ud[i]; } }
}
sv Module::meta(u32 id){ if(id>=metaOff.size()||metaOff[id].second==0) return sv(); return sv(buf.data()+metaOff[id].first,metaOff[id].second); }
Function* Module::getFn(const std::string&n0){ std::string n=n0; auto al=aliases.find(n); if(al!=aliases.end()) n=al->second; auto it=fns.find(n); if(it!=fns.end()) return it->second; Function*f=new Function(); f->name=n; f->bi=builtinFor(n); fns[n]=f; fnList.push_back(f); return f; }
static std::string gname(sv line,size_t&pos){ // line starts with @
  size_t i=1; if(line[i]=='"'){ size_t j=line.find('"',i+1); pos=j+1; return std::string(line.substr(i+1,j-i-1)); } size_t j=i; while(j<line.size()&&Lex::idc(line[j]))j++; pos=j; return std::string(line.substr(i,j-i)); }
void Module::load(const char*path){
  std::ifstream in(path,std::ios::binary); if(!in) fatal("cannot open %s",path); std::stringstream ss; ss<<in.rdbuf(); buf=ss.str();
  size_t i=0,n=buf.size(); std::vector<std::pair<sv,std::string>> typeLines;
  while(i<n){ size_t e=buf.find('\n',i); if(e==std::string::npos) e=n; sv line(buf.data()+i,e-i); size_t nxt=e+1;
    if(!line.empty()){
      char c=line[0];
      if(c=='!'){ if(line.size()>1&&isdigit((unsigned char)line[1])){ u32 id=atoi(line.data()+1); size_t eq=line.find(" = "); if(metaOff.size()<=id) metaOff.resize(id+1024,{0,0}); metaOff[id]={(u32)(i+eq+3),(u32)(line.size()-eq-3)}; } }
      else if(c=='%'){ size_t eq=line.find(" = type "); if(eq!=sv::npos){ std::string nm(line.substr(1,eq-1)); if(nm[0]=='"') nm=nm.substr(1,nm.size()-2); Lex l(line.substr(eq+8)); if(l.is("opaque")){ auto*t=new Type(); t->k=T_OTHER; named[nm]=t; } else named[nm]=parseType(l); } }
      else if(c=='@'){ size_t p; std::string nm=gname(line,p); sv rest=line.substr(p); // " = ..."
        if(rest.substr(0,3)==" = "){ rest=rest.substr(3); Lex l(rest); Global*g=new Global(); g->name=nm; bool alias=false; bool ext=false;
          while(l.t==L_WORD&&!l.is("global")&&!l.is("constant")&&!l.is("alias")&&!l.is("ifunc")){ if(l.is("external")) ext=true; if(l.is("extern_weak")){ext=true;g->weak=true;} l.next(); if(l.is("(")) l.skipParens(); }
          if(l.is("alias")){ alias=true; l.next(); parseType(l); l.need(","); parseType(l); if(l.t==L_GLOBAL) aliases[nm]=std::string(l.s); else fatal("alias form"); }
          if(!alias){ g->constant=l.is("constant"); l.next(); g->ty=parseType(l); g->hasInit=!ext; if(g->hasInit) g->init=sv(l.s.data()-((l.t==L_CSTR)?2:(l.t==L_GLOBAL?1:0)), rest.data()+rest.size()-(l.s.data()-((l.t==L_CSTR)?2:(l.t==L_GLOBAL?1:0)))); globals[nm]=g; globalList.push_back(g); } } }
      else if(line.substr(0,7)=="define "||line.substr(0,8)=="declare "){ bool def=c=='d'&&line[2]=='f'; size_t at=line.find('@'); size_t p; std::string nm=gname(line.substr(at),p); Function*f=fns.count(nm)?fns[nm]:nullptr; if(!f){f=new Function(); f->name=nm; fns[nm]=f; fnList.push_back(f);} f->bi=builtinFor(nm);
        if(def){ size_t end=buf.find("\n}",i); f->text=sv(buf.data()+i,end-i+1); f->hasBody=true; nxt=end+3; } else if(line.find("extern_weak")!=sv::npos) {} }
    }
    i=nxt; }
}
// ---------- function parsing
struct FP {
  Function*f; std::unordered_map<std::string,std::pair<int,Type*>> regs; std::unordered_map<std::string,int> labels; 
  std::map<std::pair<u64,int>,int> cmap;
  int newSlots(Type*t){ auto&lv=leavesOf(t); int b=f->nslots; f->nslots+=(int)lv.size(); for(auto&x:lv) f->slotw.push_back(x.w); return b; }
  std::unordered_map<std::string,std::vector<Opnd>> fwd;
  std::pair<int,Type*>& reg(sv n,Type*t){ std::string s(n); auto it=regs.find(s); if(it!=regs.end()) return it->second; return regs[s]={newSlots(t),t}; }
  std::vector<Opnd> value(Lex&l,Type*t){
    std::vector<Opnd> r; if(t->k==T_META||t->k==T_LABEL){ // skip metadata operand
      while(!(l.is(",")||l.is(")")||l.t==L_END)) { if(l.is("(")){l.skipParens();} else l.next(); } return r; }
    if(l.t==L_LOCAL){ auto&x=reg(l.s,t); size_t n=leavesOf(t).size(); for(size_t i=0;i<n;i++) r.push_back({false,x.first+(int)i}); l.next(); return r; }
    std::vector<Val> v; parseConst(l,t,v); for(auto&c:v){ f->consts.push_back(c); r.push_back({true,(int)f->consts.size()-1}); } return r; }
  int label(Lex&l){ l.need("label"); if(l.t!=L_LOCAL) fatal("label"); auto it=labels.find(std::string(l.s)); if(it==labels.end()) fatal("unknown label %s",std::string(l.s).c_str()); l.next(); return it->second; }
  Opnd one(Lex&l,Type*t){ auto v=value(l,t); if(v.size()!=1) fatal("scalar expected in %s near %.80s",f->name.c_str(),std::string(l.s.data(),std::min<size_t>(80,l.e-l.s.data())).c_str()); return v[0]; }
};
static void skipFlags(Lex&l){ for(;;){ if(l.t!=L_WORD||typeStart(l)||valueWord(l.s)) return; l.next(); if(l.is("(")) l.skipParens(); } }
void Module::parseFn(Function*f){
  if(f->parsed) return; f->parsed=true; FP P; P.f=f; sv t=f->text;
  // header up to '{' at end of first line
  size_t nl=t.find('\n'); sv hdr=t.substr(0,nl); size_t at=hdr.find('@'); { size_t p; gname(hdr.substr(at),p);
    // return type: the last type before '@'
    { Lex l(hdr.substr(6,at-6)); f->ret=nullptr; while(l.t!=L_END){ if(typeStart(l)||l.t==L_LOCAL){ f->ret=parseType(l); } else if(l.t==L_WORD&&l.s=="align"){ l.next(); if(l.is("("))l.skipParens(); else l.next(); } else { l.next(); if(l.is("(")) l.skipParens(); } } }
    Lex l(hdr.substr(at+p)); l.need("("); if(!l.is(")")) do{ if(l.is("...")){l.next();break;} Type*pt=parseType(l); skipAttrs(l); f->ptys.push_back(pt); if(l.t==L_LOCAL){ f->pslot.push_back(P.reg(l.s,pt).first); l.next(); } else { f->pslot.push_back(P.newSlots(pt)); } }while(l.eat(",")); 
    size_t d=hdr.rfind("!dbg !"); if(d!=sv::npos) f->dbg=atoi(hdr.data()+d+6); }
  // split logical lines
  std::vector<sv> lines; size_t i=nl+1; while(i<t.size()){ size_t e=t.find('\n',i); if(e==sv::npos)e=t.size(); sv ln=t.substr(i,e-i); size_t st=i; i=e+1; if(ln.empty()||ln=="}") continue; size_t k=ln.find_first_not_of(' '); if(k==sv::npos||ln[k]==';') continue; if(ln.substr(k,4)=="#dbg") continue;
    if(ln[0]==' '){ auto extend=[&](){ size_t e2=t.find('\n',i); if(e2==sv::npos)e2=t.size(); i=e2+1; ln=t.substr(st,e2-st); };
      if(ln.find("switch ")!=sv::npos&&ln.find('[')!=sv::npos&&ln.find("  switch ")==k-2+0){ while(ln.rfind("\n  ]")==sv::npos && i<t.size()) extend(); }
      else if(ln.find("invoke ")!=sv::npos&&ln.find(" unwind label")==sv::npos&&(ln.substr(k,7)=="invoke "||ln.find(" = invoke ")!=sv::npos)) extend();
      else if(ln.find("landingpad")!=sv::npos){ while(i<t.size()){ size_t e2=t.find('\n',i); sv nx=t.substr(i,e2-i); size_t k2=nx.find_first_not_of(' '); if(k2!=sv::npos&&k2>2&&(nx.substr(k2,7)=="cleanup"||nx.substr(k2,5)=="catch"||nx.substr(k2,6)=="filter")) extend(); else break; } } }
    lines.push_back(ln); }
  // labels
  int nb=0; bool first=true; for(auto&ln:lines){ if(ln[0]!=' '){ sv nm=ln.substr(0,ln.find(':')); if(nm[0]=='"') nm=nm.substr(1,nm.size()-2); P.labels[std::string(nm)]=nb++; first=false; } else if(first){ P.labels["<entry>"]=nb++; first=false; } }
  f->blocks.resize(nb); int cb=-1; 
  struct PhiFix{int b,i;}; 
  for(auto&ln:lines){
    if(ln[0]!=' '){ cb++; sv nm=ln.substr(0,ln.find(':')); f->blocks[cb].name=std::string(nm); continue; }
    if(cb<0) cb=0;
    Lex l(ln); Instr I; std::string dst; sv dn; bool has=false;
    if(l.t==L_LOCAL){ dn=l.s; has=true; l.next(); l.need("="); }
    size_t d=ln.rfind("!dbg !"); if(d!=sv::npos) I.dbg=atoi(ln.data()+d+6);
    if(l.t!=L_WORD) fatal("instr? %s",std::string(ln).c_str());
    std::string op(l.s); l.next();
    auto setDst=[&](Type*ty){ if(has){ auto&r=P.reg(dn,ty); I.dst=r.first; I.ndst=(int)leavesOf(ty).size(); } I.ty=ty; };
    auto laneW=[&](Type*ty)->unsigned{ return ty->k==T_VECTOR?ty->el->w:ty->w; };
    static const std::unordered_map<std::string,int> bins={{"add",O_ADD},{"sub",O_SUB},{"mul",O_MUL},{"udiv",O_UDIV},{"sdiv",O_SDIV},{"urem",O_UREM},{"srem",O_SREM},{"shl",O_SHL},{"lshr",O_LSHR},{"ashr",O_ASHR},{"and",O_AND},{"or",O_OR},{"xor",O_XOR}};
    static const std::unordered_map<std::string,int> casts={{"zext",C_ZEXT},{"sext",C_SEXT},{"trunc",C_TRUNC},{"bitcast",C_BITCAST},{"ptrtoint",C_ZEXT},{"inttoptr",C_ZEXT},{"ptrtoaddr",C_ZEXT},{"fpext",C_FPEXT},{"fptrunc",C_FPTRUNC},{"sitofp",C_SITOFP},{"uitofp",C_UITOFP},{"fptosi",C_FPTOSI},{"fptoui",C_FPTOUI}};
    auto bi=bins.find(op); auto ci=casts.find(op);
    if(bi!=bins.end()){ skipFlags(l); Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); auto b=P.value(l,ty); I.op=I_BIN; I.sub=bi->second; I.w=laneW(ty); I.ops=a; I.ops.insert(I.ops.end(),b.begin(),b.end()); setDst(ty); }
    else if(op=="fadd"||op=="fsub"||op=="fmul"||op=="fdiv"){ skipFlags(l); Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); auto b=P.value(l,ty); I.op=I_FBIN; I.sub=op=="fadd"?O_FADD:op=="fsub"?O_FSUB:op=="fmul"?O_FMUL:O_FDIV; I.w=laneW(ty); I.ops=a; I.ops.insert(I.ops.end(),b.begin(),b.end()); setDst(ty); }
    else if(op=="fneg"){ skipFlags(l); Type*ty=parseType(l); I.ops=P.value(l,ty); I.op=I_FNEG; I.w=laneW(ty); setDst(ty); }
    else if(ci!=casts.end()){ skipFlags(l); Type*ty=parseType(l); I.ops=P.value(l,ty); l.need("to"); Type*tt=parseType(l); I.op=I_CAST; I.sub=ci->second; I.w=laneW(tt); I.aty.push_back(ty); if(op=="inttoptr"||op=="ptrtoint"||op=="ptrtoaddr"){ if(laneW(ty)>I.w) I.sub=C_TRUNC; } setDst(tt); }
    else if(op=="icmp"||op=="fcmp"){ std::string pred; for(;;){ std::string w(l.s); l.next(); if(w=="samesign"||w=="fast"||w=="nnan"||w=="ninf"||w=="nsz"||w=="arcp"||w=="contract"||w=="afn"||w=="reassoc") continue; pred=w; break; }
      Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); auto b=P.value(l,ty); I.ops=a; I.ops.insert(I.ops.end(),b.begin(),b.end()); I.w=laneW(ty);
      if(op=="icmp"){ I.op=I_ICMP; static const char*pn[]={"eq","ne","ult","ule","ugt","uge","slt","sle","sgt","sge"}; I.sub=255; for(int k=0;k<10;k++) if(pred==pn[k]) I.sub=k; if(I.sub==255) fatal("icmp %s",pred.c_str()); }
      else { I.op=I_FCMP; static const std::map<std::string,int> pm={{"false",0},{"oeq",1},{"ogt",2},{"oge",3},{"olt",4},{"ole",5},{"one",6},{"ord",7},{"ueq",9},{"ugt",10},{"uge",11},{"ult",12},{"ule",13},{"une",14},{"uno",8},{"true",15}}; auto it=pm.find(pred); if(it==pm.end()) fatal("fcmp %s",pred.c_str()); I.sub=it->second; }
      Type*rt=tInt(1); if(ty->k==T_VECTOR){ char k[64]; snprintf(k,64,"v%llu_%p",(unsigned long long)ty->n,(void*)rt); Type*vt=mk(k); vt->k=T_VECTOR; vt->n=ty->n; vt->el=rt; vt->size=1; rt=vt; } setDst(rt); }
    else if(op=="select"){ skipFlags(l); Type*ct=parseType(l); auto c=P.value(l,ct); l.need(","); Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); parseType(l); auto b=P.value(l,ty); I.op=I_SELECT; I.xs={c.size()}; I.ops=c; I.ops.insert(I.ops.end(),a.begin(),a.end()); I.ops.insert(I.ops.end(),b.begin(),b.end()); setDst(ty); bool hp=false; for(auto&lf:leavesOf(ty)) hp|=lf.ptr; I.sub=hp; }
    else if(op=="freeze"){ Type*ty=parseType(l); I.ops=P.value(l,ty); I.op=I_COPY; setDst(ty); }
    else if(op=="phi"){ skipFlags(l); Type*ty=parseType(l); I.op=I_PHI; setDst(ty); do{ l.need("["); I.phi.push_back(P.value(l,ty)); l.need(","); auto it=P.labels.find(std::string(l.s)); int b; if(it==P.labels.end()){ b=P.labels.count("<entry>")?P.labels["<entry>"]:-1; } else b=it->second; I.x.push_back(b); l.next(); l.need("]"); if(!l.is(",")) break; l.next(); if(!l.is("[")) break; }while(true); }
    else if(op=="alloca"){ skipFlags(l); Type*ty=parseType(l); u64 n=1; if(l.is(",")){ l.next(); if(typeStart(l)){ Type*it=parseType(l); std::vector<Val> v; if(l.t==L_LOCAL) fatal("dynamic alloca in %s",f->name.c_str()); parseConst(l,it,v); n=v[0].c; } } I.op=I_ALLOCA; I.xs={ty->size*n}; setDst(tPtr()); }
    else if(op=="load"){ while(l.is("atomic")||l.is("volatile")) l.next(); Type*ty=parseType(l); l.need(","); parseType(l); I.ops.push_back(P.one(l,tPtr())); I.op=I_LOAD; setDst(ty); }
    else if(op=="store"){ while(l.is("atomic")||l.is("volatile")) l.next(); Type*ty=parseType(l); I.ops=P.value(l,ty); l.need(","); parseType(l); I.ops.push_back(P.one(l,tPtr())); I.op=I_STORE; I.ty=ty; }
    else if(op=="getelementptr"){ skipFlags(l); Type*bt=parseType(l); l.need(","); Type*pt=parseType(l); if(pt->k==T_VECTOR) fatal("vector gep"); I.ops.push_back(P.one(l,pt)); I.op=I_GEP; u64 coff=0; Type*ct=bt; bool firstIdx=true;
      // xs: [const offset, scale...] with ops[1..]; x: index width
      std::vector<u64> scales; while(l.is(",")){ l.next(); if(l.t==L_META) break; Type*it=parseType(l); bool isC=l.t==L_INT||l.is("true")||l.is("false"); Type*sc; u64 cidx=0; if(isC){ std::vector<Val> v; parseConst(l,it,v); cidx=v[0].c; if(it->w<64){ u64 s=1ULL<<(it->w-1); cidx=(cidx^s)-s; } }
        if(firstIdx){ sc=ct; if(isC) coff+=cidx*sc->size; else { I.ops.push_back(P.one(l,it)); I.x.push_back(it->w); scales.push_back(sc->size);} firstIdx=false; }
        else if(ct->k==T_STRUCT){ if(!isC) fatal("gep struct"); coff+=ct->foff[cidx]; ct=ct->f[cidx]; }
        else { ct=ct->el; if(isC) coff+=cidx*ct->size; else { I.ops.push_back(P.one(l,it)); I.x.push_back(it->w); scales.push_back(ct->size);} } }
      I.xs.push_back(coff); I.xs.insert(I.xs.end(),scales.begin(),scales.end()); setDst(tPtr()); }
    else if(op=="br"){ if(l.is("label")){ I.op=I_BR; I.x.push_back(P.label(l)); } else { Type*ty=parseType(l); I.ops.push_back(P.one(l,ty)); l.need(","); I.op=I_CBR; I.x.push_back(P.label(l)); l.need(","); I.x.push_back(P.label(l)); } }
    else if(op=="switch"){ Type*ty=parseType(l); I.ops.push_back(P.one(l,ty)); I.w=ty->w; l.need(","); I.op=I_SWITCH; I.x.push_back(P.label(l)); l.need("["); while(!l.is("]")){ Type*ct=parseType(l); if(ct->w>64) fatal("switch i128"); std::vector<Val> v; parseConst(l,ct,v); I.xs.push_back(v[0].c); l.need(","); I.x.push_back(P.label(l)); } }
    else if(op=="ret"){ Type*ty=parseType(l); I.op=I_RET; if(ty->k!=T_VOID) I.ops=P.value(l,ty); }
    else if(op=="unreachable"){ I.op=I_UNREACH; }
    else if(op=="extractvalue"){ Type*ty=parseType(l); auto a=P.value(l,ty); int base=0; Type*ct=ty; while(l.is(",")){ l.next(); if(l.t!=L_INT) break; u64 k=strtoull(std::string(l.s).c_str(),0,10); l.next(); if(ct->k==T_STRUCT){ for(u64 q=0;q<k;q++) base+=(int)leavesOf(ct->f[q]).size(); ct=ct->f[k]; } else { base+=(int)(k*leavesOf(ct->el).size()); ct=ct->el; } }
      I.op=I_COPY; size_t n=leavesOf(ct).size(); I.ops.assign(a.begin()+base,a.begin()+base+n); setDst(ct); }
    else if(op=="insertvalue"){ Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); Type*vt=parseType(l); auto v=P.value(l,vt); int base=0; Type*ct=ty; while(l.is(",")){ l.next(); if(l.t!=L_INT) break; u64 k=strtoull(std::string(l.s).c_str(),0,10); l.next(); if(ct->k==T_STRUCT){ for(u64 q=0;q<k;q++) base+=(int)leavesOf(ct->f[q]).size(); ct=ct->f[k]; } else { base+=(int)(k*leavesOf(ct->el).size()); ct=ct->el; } }
      for(size_t q=0;q<v.size();q++) a[base+q]=v[q]; I.op=I_COPY; I.ops=a; setDst(ty); }
    else if(op=="extractelement"){ Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); Type*it=parseType(l); std::vector<Val> v; parseConst(l,it,v); I.op=I_COPY; I.ops={a[v[0].c]}; setDst(ty->el); }
    else if(op=="insertelement"){ Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); Type*et=parseType(l); auto e=P.value(l,et); l.need(","); Type*it=parseType(l); std::vector<Val> v; parseConst(l,it,v); a[v[0].c]=e[0]; I.op=I_COPY; I.ops=a; setDst(ty); }
    else if(op=="shufflevector"){ Type*ty=parseType(l); auto a=P.value(l,ty); l.need(","); parseType(l); auto b=P.value(l,ty); l.need(","); Type*mt=parseType(l); std::vector<Val> v; parseConst(l,mt,v); I.op=I_COPY; for(auto&m:v){ u64 k=m.c; I.ops.push_back(k<a.size()?a[k]:b[k-a.size()]); } char k[64]; snprintf(k,64,"v%llu_%p",(unsigned long long)mt->n,(void*)ty->el); Type*rt=mk(k); rt->k=T_VECTOR;rt->n=mt->n;rt->el=ty->el;rt->size=mt->n*ty->el->size; setDst(rt); }
    else if(op=="atomicrmw"){ while(l.is("volatile")) l.next(); static const char*rn[]={"xchg","add","sub","and","or","xor","nand","max","min","umax","umin"}; I.sub=255; for(int k=0;k<11;k++) if(l.is(rn[k])) I.sub=k; if(I.sub==255) fatal("rmw"); l.next(); parseType(l); I.ops.push_back(P.one(l,tPtr())); l.need(","); Type*ty=parseType(l); I.ops.push_back(P.one(l,ty)); I.op=I_RMW; I.w=ty->w; setDst(ty); }
    else if(op=="cmpxchg"){ while(l.is("weak")||l.is("volatile")) l.next(); parseType(l); I.ops.push_back(P.one(l,tPtr())); l.need(","); Type*ty=parseType(l); I.ops.push_back(P.one(l,ty)); l.need(","); parseType(l); I.ops.push_back(P.one(l,ty)); I.op=I_CMPXCHG; I.w=ty->w; char k[64]; snprintf(k,64,"s_%p_%p",(void*)ty,(void*)tInt(1)); Type*rt=mk(k); if(rt->f.empty()){ rt->k=T_STRUCT; rt->f={ty,tInt(1)}; rt->foff={0,ty->size}; rt->size=ty->size*2; rt->align=ty->align; } I.ty=ty; if(has){ auto&r=P.reg(dn,rt); I.dst=r.first; I.ndst=2; } }
    else if(op=="fence"){ I.op=I_NOP; }
    else if(op=="landingpad"||op=="resume"||op=="catchswitch"||op=="cleanuppad"){ I.op=I_TRAP; if(has){ Lex l2(l); Type*ty=parseType(l2); setDst(ty);} }
    else if(op=="call"||op=="invoke"||op=="tail"||op=="musttail"||op=="notail"){
      if(op=="tail"||op=="musttail"||op=="notail") l.need("call"); bool inv=op=="invoke";
      // cconv / ret attrs
      skipAttrs(l); while(l.t==L_WORD&&!typeStart(l)) { l.next(); skipAttrs(l); }
      Type*rt=parseType(l); // maybe function type follows
      if(l.is("(")){ l.skipParens(); }
      I.op=I_CALL; Function*cf=nullptr; Opnd fp{true,-1}; bool isAsm=false;
      if(l.t==L_GLOBAL){ cf=getFn(std::string(l.s)); l.next(); }
      else if(l.is("asm")){ isAsm=true; while(l.t!=L_STR) l.next(); l.next(); while(!l.is("(")) l.next(); }
      else if(l.t==L_LOCAL){ fp={false,P.reg(l.s,tPtr()).first}; l.next(); }
      else { std::vector<Val> v; parseConst(l,tPtr(),v); f->consts.push_back(v[0]); fp={true,(int)f->consts.size()-1}; }
      I.fn=cf; if(cf) I.bi=cf->bi; if(isAsm) I.bi=B_NOPV; 
      if(!cf&&!isAsm) I.ops.push_back(fp);
      l.need("("); if(!l.is(")")) do{ Type*pt=parseType(l); if(pt->k!=T_META) skipAttrs(l); auto v=P.value(l,pt); I.aty.push_back(pt); I.ops.insert(I.ops.end(),v.begin(),v.end()); }while(l.eat(",")); l.need(")");
      if(rt->k!=T_VOID) setDst(rt); else I.ty=rt;
      if(inv){ while(!l.is("to")) l.next(); l.next(); I.x.push_back(P.label(l)); }
    }
    else fatal("unsupported instruction %s in %s",op.c_str(),f->name.c_str());
    f->blocks[cb].ins.push_back(std::move(I));
  }
}
// ---------- debug info
static std::string field(sv m,const char*k){ std::string key=std::string(k)+": "; size_t p=0; for(;;){ p=m.find(key,p); if(p==sv::npos) return ""; if(p==0||m[p-1]==' '||m[p-1]=='(') break; p++; } p+=key.size(); if(m[p]=='"'){ size_t e=m.find('"',p+1); return std::string(m.substr(p+1,e-p-1)); } size_t e=p; while(e<m.size()&&m[e]!=','&&m[e]!=')') e++; return std::string(m.substr(p,e-p)); }
static u32 mref(const std::string&s){ return s.size()>1&&s[0]=='!'?atoi(s.c_str()+1):0; }
std::vector<Loc> dbgStack(u32 dbg){ std::vector<Loc> r; int guard=0; while(dbg&&guard++<64){ sv m=M.meta(dbg); if(m.empty()) break; int line=atoi(field(m,"line").c_str()); u32 sc=mref(field(m,"scope")); u32 ia=mref(field(m,"inlinedAt")); std::string fn,file; int g2=0; u32 sp=0; while(sc&&g2++<64){ sv s=M.meta(sc); if(s.find("DISubprogram")!=sv::npos){ fn=field(s,"linkageName"); if(fn.empty()) fn=field(s,"name"); u32 fl=mref(field(s,"file")); sv fm=M.meta(fl); file=field(fm,"filename"); sp=sc; break; } sc=mref(field(s,"scope")); } r.push_back({fn,file,line,sp}); dbg=ia; } return r; }
