#include "exec.cpp"
#include <cxxabi.h>
#include <fstream>
#include <atomic>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
std::string demangle(const std::string&s){ return s; }
static bool ends(const std::string&s,const char*x){ size_t n=strlen(x); return s.size()>=n&&!s.compare(s.size()-n,n,x); }
static bool g_fmt=false; // execute formatting too (entries named ..._debug_...)
Bi builtinFor(const std::string&n){
  static const std::unordered_map<std::string,Bi> ex={{"trunc",B_FTRUNC},{"truncf",B_FTRUNC},{"floor",B_FFLOOR},{"floorf",B_FFLOOR},{"ceil",B_FCEIL},{"ceilf",B_FCEIL},{"round",B_FROUND},{"roundf",B_FROUND},{"rint",B_FRINT},{"rintf",B_FRINT},{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"posix_memalign",B_PMEMALIGN},{"memcmp",B_MEMCMP},{"bcmp",B_BCMP},{"strlen",B_STRLEN},{"memchr",B_MEMCHR},{"syscall",B_SYSCALL},{"__errno_location",B_ERRNO},{"getrandom",B_GETRANDOM},{"pthread_key_create",B_KEYCREATE},{"pthread_setspecific",B_SETSPEC},{"pthread_getspecific",B_GETSPEC},{"pthread_key_delete",B_ZERO},{"abort",B_ABORT},{"write",B_WRITE},{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"getenv",B_ZERO},{"__cxa_thread_atexit_impl",B_ZERO},{"sched_yield",B_ZERO},
   {"sym_u8",B_SYM_U8},{"sym_u16",B_SYM_U16},{"sym_u32",B_SYM_U32},{"sym_u64",B_SYM_U64},{"sym_bytes",B_SYM_BYTES},{"sym_assume",B_SYM_ASSUME},{"sym_choice",B_SYM_CHOICE},{"sym_cover",B_SYM_COVER},{"sym_param",B_SYM_PARAM},{"sym_conc",B_SYM_CONC},{"sym_fail",B_SYM_FAIL},{"sym_active",B_SYM_ACTIVE},{"sym_reuse",B_SYM_REUSE},{"sym_live",B_SYM_LIVE},{"sym_log",B_SYM_LOG}};
  auto it=ex.find(n); if(it!=ex.end()) return it->second;
  if(n.compare(0,5,"llvm.")==0){ std::string b=n.substr(5); auto st=[&](const char*p){ return b.compare(0,strlen(p),p)==0; };
    if(st("memcpy")) return B_MEMCPY; if(st("memmove")) return B_MEMMOVE; if(st("memset")) return B_MEMSET; if(st("assume")) return B_ASSUME;
    if(st("lifetime")||st("experimental.noalias")||st("dbg")||st("prefetch")||st("x86.sse2.pause")||st("donothing")||st("invariant.end")) return B_NOPV; if(st("invariant.start")) return B_ZERO;
    if(st("fshl")) return B_FSHL; if(st("fshr")) return B_FSHR; if(st("umax")) return B_UMAX; if(st("umin.")) return B_UMIN; if(st("smax")) return B_SMAX; if(st("smin")) return B_SMIN;
    if(st("umul.with")) return B_UMULO; if(st("uadd.with")) return B_UADDO; if(st("usub.with")) return B_USUBO; if(st("smul.with")) return B_SMULO; if(st("sadd.with")) return B_SADDO; if(st("ssub.with")) return B_SSUBO;
    if(st("ctpop")) return B_CTPOP; if(st("cttz")) return B_CTTZ; if(st("ctlz")) return B_CTLZ; if(st("bswap")) return B_BSWAP; if(st("bitreverse")) return B_BITREV; if(st("ucmp")) return B_UCMP; if(st("scmp")) return B_SCMP;
    if(st("usub.sat")) return B_USUBSAT; if(st("uadd.sat")) return B_UADDSAT; if(st("is.constant")) return B_ISCONST; if(st("threadlocal.address")) return B_ID0; if(st("fptosi.sat")) return B_FPTOSISAT; if(st("fptoui.sat")) return B_FPTOUISAT; if(st("trap")||st("ubsantrap")||st("debugtrap")) return B_TRAP; if(st("expect")) return B_EXPECT; if(st("abs")) return B_ABS; if(st("fabs")) return B_FABS; if(st("is.fpclass")) return B_FPCLASS; if(st("copysign")) return B_COPYSIGN; if(st("minnum")||st("minimumnum")) return B_FMIN; if(st("maxnum")||st("maximumnum")) return B_FMAX; if(st("ptrmask")) return B_PTRMASK; if(st("trunc.")) return B_FTRUNC; if(st("floor.")) return B_FFLOOR; if(st("ceil.")) return B_FCEIL; if(st("round.")) return B_FROUND; if(st("rint.")||st("nearbyint.")||st("roundeven.")) return B_FRINT; if(st("ssub.sat")) return B_SSUBSAT; if(st("sadd.sat")) return B_SADDSAT;
    return B_UNKNOWN; }
  if(n.find("4core9panicking")!=std::string::npos||n.find("rust_begin_unwind")!=std::string::npos) return B_PANIC;
  if(n.compare(0,2,"_R")==0){ if(n.find("8ZKwes1zzDd_3std9panicking")!=std::string::npos){} if(n.find("3std9panicking")!=std::string::npos&&n.compare(0,6,"_RNvNt")==0) return B_PANIC; }
  if(g_fmt) return B_NONE;
  if(ends(n,"5alloc3fmt6format12format_inner")) return B_FMTFORMAT;
  if(ends(n,"4core3fmt5write")) return B_FMTWRITE;
  return B_NONE; }
static std::string jstr(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32||(unsigned char)c>126){ char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)c); r+=b; } else r+=c; } return r+"\""; }
// Once a violation is found, the other paths get g_grace seconds more (0: as long as they need).
static double g_grace=0; static std::atomic<u64>*g_first=nullptr;
// One violation per key, message (but for the numbers in it) and place is kept.
static void addViol(const Viol&v){ auto id=[](const Viol&v){ std::string r=v.key+"|"; for(char c:v.msg) if(c<'0'||c>'9') r+=c; for(size_t i=0;i<v.stack.size()&&i<3;i++) r+="|"+v.stack[i]; return r; }; std::string n=id(v); for(auto&o:g_viol) if(id(o)==n) return; g_viol.push_back(v); }
static void endPath(const PathEnd&e){
  if(e.k==2&&g_first&&g_grace>0){ u64 z=0; g_first->compare_exchange_strong(z,(u64)((now()-g_t0)*1000)+1); }
  if(e.k==0){ st_paths++; if(g_samples.size()<4||((st_paths&(st_paths-1))==0&&g_samples.size()<12)) g_samples.push_back(inputsHex(*S)); }
  else if(e.k==1) st_pruned++;
  else if(e.k==2){ Viol v; v.kind=e.kind; v.msg=e.msg; v.hex=inputsHex(*S); v.stack=stackOf(*S); std::string k=e.kind; int n=0; for(auto&l:v.stack) if(l.find("/src/")!=std::string::npos&&l.find("/library/")==std::string::npos&&n<2){ k+=" | "+l.substr(l.rfind(' ')+1); n++; } v.key=e.kind=="stack-overflow"||e.kind=="no-termination"?e.kind:k; addViol(v); }
  else { st_incomplete++; auto st=stackOf(*S); g_incomplete.insert(e.msg+" @ "+(st.empty()?"":st[0])); } }
static bool timeUp(){ double t=now()-g_t0; if(t>g_tlimit) return true; if(g_first){ u64 f=g_first->load(); if(f&&t>f/1000.0+g_grace) return true; } return false; }
static void runState(){ // run S to its end
  try{ u64 lim=S->steps+g_maxSteps; for(;;){ step(); if(S->steps>lim) viol("no-termination","instruction limit reached"); if((S->steps&0xfff)==0&&timeUp()) incomplete("time limit"); } }
  catch(PathEnd&e){ endPath(e); }
  delete S; S=nullptr; }
static void collectHits(){ for(Function*f:M.fnList) if(f->parsed) for(auto&b:f->blocks) for(auto&i:b.ins) if(i.hit){ g_fnHit.insert(f->name); if(i.dbg) g_dbgHit.insert(i.dbg);} }
static void writeRes(const std::string&path){ collectHits(); std::ofstream o(path+".tmp"); o<<"stats "<<st_paths<<" "<<st_pruned<<" "<<st_steps<<" "<<st_incomplete<<" "<<st_forks<<" "<<g_ss.queries<<" "<<g_ss.sat<<" "<<g_ss.unsat<<" "<<g_ss.unknown<<" "<<g_ss.cached<<" "<<g_ss.quick<<" "<<g_ss.time<<" "<<g_ss.maxTime<<"\n"; for(u32 c:g_cov) o<<"cov "<<c<<"\n"; for(u32 d:g_dbgHit) o<<"dbg "<<d<<"\n"; for(auto&f:g_fnHit) o<<"fn "<<f<<"\n"; for(auto&s:g_samples) o<<"sample "<<s<<"\n"; for(auto&s:g_incomplete) o<<"inc "<<s<<"\n"; for(auto&v:g_viol){ o<<"viol "<<v.kind<<"\t"<<v.msg<<"\t"<<v.key<<"\t"<<v.hex; for(auto&s:v.stack) o<<"\t"<<s; o<<"\n"; } o<<"end\n"; o.close(); rename((path+".tmp").c_str(),path.c_str()); }
static bool mergeRes(const std::string&path){ std::ifstream in(path); if(!in) return false; std::string l; bool end=false; while(std::getline(in,l)){ std::stringstream ss(l); std::string k; ss>>k; if(k=="stats"){ u64 a,b,c,d,e,q,s,u,n,cc,qk; double t,mt; ss>>a>>b>>c>>d>>e>>q>>s>>u>>n>>cc>>qk>>t>>mt; st_paths+=a;st_pruned+=b;st_steps+=c;st_incomplete+=d;st_forks+=e;g_ss.queries+=q;g_ss.sat+=s;g_ss.unsat+=u;g_ss.unknown+=n;g_ss.cached+=cc;g_ss.quick+=qk;g_ss.time+=t;g_ss.maxTime=std::max(g_ss.maxTime,mt);} else if(k=="cov"){u32 c;ss>>c;g_cov.insert(c);} else if(k=="dbg"){u32 c;ss>>c;g_dbgHit.insert(c);} else if(k=="fn"){g_fnHit.insert(l.substr(3));} else if(k=="sample"){ if(g_samples.size()<12) g_samples.push_back(l.size()>7?l.substr(7):""); } else if(k=="inc") g_incomplete.insert(l.substr(4)); else if(k=="viol"){ Viol v; std::vector<std::string> fs; size_t p=5; for(;;){ size_t e=l.find('\t',p); fs.push_back(l.substr(p,e==std::string::npos?e:e-p)); if(e==std::string::npos) break; p=e+1; } v.kind=fs[0];v.msg=fs[1];v.key=fs[2];v.hex=fs[3]; v.stack.assign(fs.begin()+4,fs.end()); addViol(v);} else if(k=="end") end=true; } return end; }
int main(int argc,char**argv){
  std::string ll,entry,out="out.json"; std::vector<u8> conc; bool useConc=false; std::string dump;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--ll") ll=nx(); else if(a=="--entry") entry=nx(); else if(a=="--out") out=nx(); else if(a=="--grace") g_grace=atof(nx().c_str()); else if(a=="--time") g_tlimit=atof(nx().c_str()); else if(a=="--jobs") g_jobs=atoi(nx().c_str()); else if(a=="--steps") g_maxSteps=strtoull(nx().c_str(),0,10); else if(a=="--param") g_params.push_back(strtoull(nx().c_str(),0,0)); else if(a=="--qtimeout") g_qtimeout=atoi(nx().c_str()); else if(a=="--maxviol") g_maxViol=atoi(nx().c_str()); else if(a=="--concrete"){ useConc=true; std::string h=nx(); for(size_t k=0;k+1<h.size();k+=2) conc.push_back((u8)strtoul(h.substr(k,2).c_str(),0,16)); } else if(a=="--dump") dump=nx(); else if(a=="--trace") g_trace=true; else fatal("arg %s",a.c_str()); }
  struct rlimit rl={1ull<<30,RLIM_INFINITY}; (void)rl;
  g_fmt=entry.find("_debug")!=std::string::npos;
  g_t0=now(); M.load(ll.c_str()); double tload=now()-g_t0; if(!dump.empty()) g_dump=fopen(dump.c_str(),"w");
  State*s0=new State(); s0->objs.push_back(ObjRef()); 
  for(Global*g:M.globalList){ u32 id=newObj(*s0,g->ty->size,(g->constant?F_RO:0)|F_ZERO); g->oid=id; g->addr=addrOf(id); }
  std::vector<u8> by; std::vector<bool> ini; for(Global*g:M.globalList){ if(!g->hasInit) continue; if(g->name.compare(0,5,"llvm.")==0) continue; M.initGlobal(g,by,ini); Obj&o=*s0->objs[g->oid].o; for(size_t k=0;k<by.size();k++){ if(by[k]==0&&ini[k]&&!o.pg[k/PS]) continue; Page*p=wpage(o,k/PS); p->c[k%PS]=by[k]; /* undef initialisers read as zero */ } }
  Function*f=M.getFn(entry); if(!f->hasBody) fatal("no entry %s",entry.c_str()); M.parseFn(f);
  auto fr=std::make_shared<Frame>(); fr->fn=f; fr->r.resize(f->nslots,Val{0,nullptr}); s0->st.push_back(fr); (void)useConc; (void)conc;
  work.push_back(s0);
  { void*m=mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(m==MAP_FAILED) fatal("mmap"); g_first=new(m) std::atomic<u64>(0); prctl(PR_SET_PDEATHSIG,SIGKILL); }
  // phase 1: breadth-first until there is enough work to share
  size_t target=g_jobs>1?(size_t)g_jobs*24:0;
  if(g_jobs>1){ while(!work.empty()&&work.size()<target&&!timeUp()&&g_viol.size()<g_maxViol){ 
      // run the oldest state until it forks or ends
      S=work.front(); work.pop_front(); size_t n0=work.size(); bool ended=false; try{ u64 lim=S->steps+g_maxSteps; while(work.size()==n0){ step(); if(S->steps>lim) viol("no-termination","instruction limit reached"); if((S->steps&0xfff)==0&&timeUp()) incomplete("time limit"); } } catch(PathEnd&e){ endPath(e); ended=true; } if(ended){ delete S; S=nullptr; } else { work.push_back(S); S=nullptr; } }
    if(work.size()>=2&&g_viol.size()<g_maxViol&&!timeUp()){ // phase 2: one process per pending state
      // shared between the processes; a worker with much left to do hands half of it to a process of its own
      struct Sh{ std::atomic<int> active,ids; std::atomic<bool> drained,stop; }; Sh*sh=(Sh*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(sh==MAP_FAILED) fatal("mmap"); new(sh) Sh(); sh->active=0; sh->ids=0; sh->drained=false; sh->stop=false;
      std::vector<State*> ws(work.begin(),work.end()); work.clear(); size_t nxt=0; std::map<pid_t,int> run;
      auto reset=[&]{ st_paths=st_pruned=st_steps=st_incomplete=st_forks=0; g_ss=SolverStats(); g_viol.clear(); g_samples.clear(); g_incomplete.clear(); };
      auto worker=[&](int id){ std::vector<pid_t> kids; double last=now(); 
        while(!work.empty()){ S=work.back(); work.pop_back(); if(timeUp()){ st_incomplete++; g_incomplete.insert("time limit"); break; } if(sh->stop) break; runState(); if(g_viol.size()>=g_maxViol){ sh->stop=true; break; }
          if(work.size()>=2&&sh->drained&&now()-last>0.05){ last=now(); int a=sh->active.load(); if(a<g_jobs&&sh->active.compare_exchange_strong(a,a+1)){ int nid=sh->ids++; fflush(nullptr); pid_t p=fork(); if(p<0) fatal("fork");
              // the child takes every other state, so that both get old (large) and young (small) ones
              std::deque<State*> keep; size_t k=0; for(State*s:work){ if((k++&1)==(p==0?0u:1u)) keep.push_back(s); else if(p!=0) delete s; } work.swap(keep);
              if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); reset(); kids.clear(); id=nid; } else kids.push_back(p); } } }
        writeRes(out+".w"+std::to_string(id)); sh->active--; for(pid_t p:kids) waitpid(p,nullptr,0); _exit(0); };
      while(nxt<ws.size()||!run.empty()){
        bool stop=sh->stop||timeUp();
        if(nxt<ws.size()&&!stop&&(int)run.size()<g_jobs){ int id=sh->ids++; sh->active++; fflush(nullptr); pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); reset(); work.clear(); work.push_back(ws[nxt]); worker(id); } if(p<0) fatal("fork"); run[p]=id; nxt++; if(nxt==ws.size()) sh->drained=true; continue; }
        if(stop&&run.empty()){ if(nxt<ws.size()&&!sh->stop){ st_incomplete++; g_incomplete.insert("time limit"); } break; }
        int stt; pid_t p=waitpid(-1,&stt,0); if(p<0) break; run.erase(p); }
      bool early=sh->stop; for(int k=0;k<sh->ids;k++){ std::string rf=out+".w"+std::to_string(k); if(!mergeRes(rf)&&!early){ st_incomplete++; g_incomplete.insert("a worker failed"); } unlink(rf.c_str()); } } }
  while(!work.empty()&&g_viol.size()<g_maxViol){ if(timeUp()){ st_incomplete++; g_incomplete.insert("time limit"); break; } S=work.back(); work.pop_back(); runState(); }
  collectHits();
  // functions covered (through debug info, including inlined ones)
  std::map<std::string,std::set<int>> cov; for(u32 d:g_dbgHit) for(auto&l:dbgStack(d)) cov[l.fn+" "+l.file].insert(l.line);
  std::ofstream o(out); o<<"{\"entry\":"<<jstr(entry)<<",\"paths\":"<<st_paths<<",\"pruned\":"<<st_pruned<<",\"steps\":"<<st_steps<<",\"forks\":"<<st_forks<<",\"incomplete\":"<<st_incomplete<<",\"queries\":"<<g_ss.queries<<",\"sat\":"<<g_ss.sat<<",\"unsat\":"<<g_ss.unsat<<",\"unknown\":"<<g_ss.unknown<<",\"cached\":"<<g_ss.cached<<",\"quick\":"<<g_ss.quick<<",\"solver_s\":"<<g_ss.time<<",\"max_query_s\":"<<g_ss.maxTime<<",\"load_s\":"<<tload<<",\"wall_s\":"<<now()-g_t0<<",\n\"covers\":["; bool c1=false; for(u32 c:g_cov){ o<<(c1?",":"")<<c; c1=true; } o<<"],\n\"incomplete_why\":["; c1=false; for(auto&s:g_incomplete){ o<<(c1?",":"")<<jstr(s); c1=true; } o<<"],\n\"samples\":["; c1=false; for(auto&s:g_samples){ o<<(c1?",":"")<<jstr(s); c1=true; } o<<"],\n\"violations\":["; c1=false; for(auto&v:g_viol){ o<<(c1?",":"")<<"{\"kind\":"<<jstr(v.kind)<<",\"msg\":"<<jstr(v.msg)<<",\"key\":"<<jstr(v.key)<<",\"input\":"<<jstr(v.hex)<<",\"stack\":["; bool c2=false; for(auto&x:v.stack){ o<<(c2?",":"")<<jstr(x); c2=true; } o<<"]}"; c1=true; } o<<"],\n\"functions\":{"; c1=false; for(auto&p:cov){ o<<(c1?",":"")<<jstr(p.first)<<":"<<p.second.size(); c1=true; } o<<"}}\n"; o.close(); fflush(nullptr); _exit(0); }
