#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unordered_set>
SolverStats g_ss; unsigned g_qtimeout=60000; FILE* g_dump=nullptr;
static Z3_context C=nullptr; static Z3_solver SB=nullptr, SF=nullptr, SQ=nullptr;
static void onerr(Z3_context c,Z3_error_code e){ fatal("z3 error: %s",Z3_get_error_msg(c,e)); }
static void init(){ if(C) return; Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_set_error_handler(C,onerr); }
static Z3_sort bvs(unsigned w){ return Z3_mk_bv_sort(C,w); }
static Z3_sort fps(unsigned w){ return w==32?Z3_mk_fpa_sort_32(C):Z3_mk_fpa_sort_64(C); }
static Z3_ast bl(Z3_ast b){ // bool -> bv1
  return Z3_mk_ite(C,b,Z3_mk_unsigned_int64(C,1,bvs(1)),Z3_mk_unsigned_int64(C,0,bvs(1))); }
static Z3_ast tr(Ex*e); static Z3_ast trb(Ex*e);
static Z3_ast fp(Ex*e){ return Z3_mk_fpa_to_fp_bv(C,tr(e),fps(e->w)); }
static std::unordered_map<Ex*,Z3_ast> bcache;
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(C,a); return a; }
static Z3_ast trb(Ex*e){ // width-1 expr as Bool
  auto it=bcache.find(e); if(it!=bcache.end()) return it->second; Z3_ast r;
  switch(e->op){
   case O_CONST: r=e->c?Z3_mk_true(C):Z3_mk_false(C); break;
   case O_EQ: r=e->a->w==1?Z3_mk_iff(C,trb(e->a),trb(e->b)):Z3_mk_eq(C,tr(e->a),tr(e->b)); break;
   case O_ULT: r=Z3_mk_bvult(C,tr(e->a),tr(e->b)); break; case O_ULE: r=Z3_mk_bvule(C,tr(e->a),tr(e->b)); break;
   case O_SLT: r=Z3_mk_bvslt(C,tr(e->a),tr(e->b)); break; case O_SLE: r=Z3_mk_bvsle(C,tr(e->a),tr(e->b)); break;
   case O_AND: { Z3_ast x[2]={trb(e->a),trb(e->b)}; r=Z3_mk_and(C,2,x); break; }
   case O_OR: { Z3_ast x[2]={trb(e->a),trb(e->b)}; r=Z3_mk_or(C,2,x); break; }
   case O_XOR: if(isc(e->b)) r=e->b->c?Z3_mk_not(C,trb(e->a)):trb(e->a); else r=Z3_mk_xor(C,trb(e->a),trb(e->b)); break;
   case O_ITE: r=Z3_mk_ite(C,trb(e->a),trb(e->b),trb(e->d)); break;
   case O_FCMP: { Z3_ast x=fp(e->a),y=fp(e->b); Z3_ast un2[2]={Z3_mk_fpa_is_nan(C,x),Z3_mk_fpa_is_nan(C,y)}; Z3_ast un=Z3_mk_or(C,2,un2); Z3_ast c;
      switch(e->aux&7){ case 1:c=Z3_mk_fpa_eq(C,x,y);break; case 2:c=Z3_mk_fpa_gt(C,x,y);break; case 3:c=Z3_mk_fpa_geq(C,x,y);break; case 4:c=Z3_mk_fpa_lt(C,x,y);break; case 5:c=Z3_mk_fpa_leq(C,x,y);break; case 6:c=Z3_mk_not(C,Z3_mk_fpa_eq(C,x,y));break; case 7:c=Z3_mk_true(C);break; default:c=Z3_mk_false(C);} 
      if(e->aux&8){ Z3_ast z[2]={un,c}; r=Z3_mk_or(C,2,z);} else { Z3_ast z[2]={Z3_mk_not(C,un),c}; r=Z3_mk_and(C,2,z);} break; }
   default: r=Z3_mk_eq(C,tr(e),Z3_mk_unsigned_int64(C,1,bvs(1)));
  }
  keep(r); bcache[e]=r; return r; }
static Z3_ast cst(u128 v,unsigned w){ if(w<=64) return Z3_mk_unsigned_int64(C,(u64)v,bvs(w)); return Z3_mk_concat(C,Z3_mk_unsigned_int64(C,(u64)(v>>64),bvs(w-64)),Z3_mk_unsigned_int64(C,(u64)v,bvs(64))); }
static Z3_ast tr(Ex*e){
  if(e->z3) return (Z3_ast)e->z3; Z3_ast r=nullptr;
  if(e->w==1&&e->op!=O_EXTRACT&&e->op!=O_CONST) { r=bl(trb(e)); }
  else switch(e->op){
   case O_CONST: r=cst(e->c,e->w); break;
   case O_VAR: { r=Z3_mk_const(C,Z3_mk_int_symbol(C,e->lo),bvs(8)); break; }
   case O_CONCAT: r=Z3_mk_concat(C,tr(e->a),tr(e->b)); break;
   case O_EXTRACT: r=Z3_mk_extract(C,e->lo+e->w-1,e->lo,tr(e->a)); break;
   case O_SEXT: r=Z3_mk_sign_ext(C,e->w-e->a->w,tr(e->a)); break;
   case O_ADD: r=Z3_mk_bvadd(C,tr(e->a),tr(e->b)); break; case O_SUB: r=Z3_mk_bvsub(C,tr(e->a),tr(e->b)); break; case O_MUL: r=Z3_mk_bvmul(C,tr(e->a),tr(e->b)); break;
   case O_UDIV: r=Z3_mk_bvudiv(C,tr(e->a),tr(e->b)); break; case O_SDIV: r=Z3_mk_bvsdiv(C,tr(e->a),tr(e->b)); break; case O_UREM: r=Z3_mk_bvurem(C,tr(e->a),tr(e->b)); break; case O_SREM: r=Z3_mk_bvsrem(C,tr(e->a),tr(e->b)); break;
   case O_SHL: r=Z3_mk_bvshl(C,tr(e->a),tr(e->b)); break; case O_LSHR: r=Z3_mk_bvlshr(C,tr(e->a),tr(e->b)); break; case O_ASHR: r=Z3_mk_bvashr(C,tr(e->a),tr(e->b)); break;
   case O_AND: r=Z3_mk_bvand(C,tr(e->a),tr(e->b)); break; case O_OR: r=Z3_mk_bvor(C,tr(e->a),tr(e->b)); break; case O_XOR: r=Z3_mk_bvxor(C,tr(e->a),tr(e->b)); break;
   case O_ITE: r=Z3_mk_ite(C,trb(e->a),tr(e->b),tr(e->d)); break;
   case O_FPEXT: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_float(C,Z3_mk_fpa_rne(C),fp(e->a),fps(e->w))); break;
   case O_FPTRUNC: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_float(C,Z3_mk_fpa_rne(C),fp(e->a),fps(e->w))); break;
   case O_SITOFP: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_signed(C,Z3_mk_fpa_rne(C),tr(e->a),fps(e->w))); break;
   case O_UITOFP: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_to_fp_unsigned(C,Z3_mk_fpa_rne(C),tr(e->a),fps(e->w))); break;
   case O_FPTOSI: case O_FPTOUI: { bool sg=e->op==O_FPTOSI; Z3_ast x=fp(e->a); unsigned w=e->w; Z3_sort s=fps(e->a->w);
      u128 mxv=sg?(((u128)1<<(w-1))-1):maskw(w); u128 mnv=sg?((u128)1<<(w-1)):0;
      Z3_ast mx=cst(mxv,w),mn=cst(mnv,w);
      // first float >= 2^(w-1) (or 2^w) saturates high; <= min saturates low
      Z3_ast hiB=Z3_mk_fpa_numeral_double(C,sg?(double)((u128)1<<(w-1)):(w==64?18446744073709551616.0:(double)((u128)1<<w)),s);
      Z3_ast loB=Z3_mk_fpa_numeral_double(C,sg?-(double)((u128)1<<(w-1)):0.0,s);
      Z3_ast cv=sg?Z3_mk_fpa_to_sbv(C,Z3_mk_fpa_rtz(C),x,w):Z3_mk_fpa_to_ubv(C,Z3_mk_fpa_rtz(C),x,w);
      r=Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,x),cst(0,w),Z3_mk_ite(C,Z3_mk_fpa_geq(C,x,hiB),mx,Z3_mk_ite(C,Z3_mk_fpa_leq(C,x,loB),mn,cv))); break; }
   case O_FADD: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_add(C,Z3_mk_fpa_rne(C),fp(e->a),fp(e->b))); break;
   case O_FSUB: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_sub(C,Z3_mk_fpa_rne(C),fp(e->a),fp(e->b))); break;
   case O_FMUL: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_mul(C,Z3_mk_fpa_rne(C),fp(e->a),fp(e->b))); break;
   case O_FDIV: r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_div(C,Z3_mk_fpa_rne(C),fp(e->a),fp(e->b))); break;
   case O_FRTI: { Z3_ast rm=e->aux==1?Z3_mk_fpa_rtz(C):e->aux==2?Z3_mk_fpa_rtn(C):e->aux==3?Z3_mk_fpa_rtp(C):e->aux==4?Z3_mk_fpa_rna(C):Z3_mk_fpa_rne(C); r=Z3_mk_fpa_to_ieee_bv(C,Z3_mk_fpa_round_to_integral(C,rm,fp(e->a))); break; }
   default: fatal("z3 tr op %d",e->op);
  }
  keep(r); e->z3=r; return r;
}
static bool hasFp(Ex*e,std::unordered_set<Ex*>&seen){ if(e->op>=O_FCMP) return true; if(!e->a||!seen.insert(e).second) return false; return hasFp(e->a,seen)||(e->b&&hasFp(e->b,seen))||(e->d&&hasFp(e->d,seen)); }
static std::unordered_map<Ex*,bool> fpc;
R z3check(const std::vector<Ex*>&cons,std::vector<std::pair<u32,u8>>&asg){
  init(); auto t0=std::chrono::steady_clock::now(); g_ss.queries++;
  bool fpq=false; for(Ex*e:cons){ auto it=fpc.find(e); bool h; if(it==fpc.end()){ std::unordered_set<Ex*> seen; h=hasFp(e,seen); fpc[e]=h; } else h=it->second; fpq|=h; }
  Z3_solver S;
  if(fpq){ if(!SF){ SF=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_FPBV")); Z3_solver_inc_ref(C,SF);} S=SF; }
  else { if(!SB){ SB=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,SB);} S=SB; }
  { Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),g_qtimeout); Z3_solver_set_params(C,S,p); Z3_params_dec_ref(C,p); }
  if(g_dump){ Z3_solver_reset(C,S); for(Ex*e:cons) Z3_solver_assert(C,S,trb(e)); fprintf(g_dump,"; query %llu\n(push 1)\n%s(check-sat)\n(pop 1)\n",(unsigned long long)g_ss.queries,Z3_solver_to_string(C,S)); }
  Z3_lbool r=Z3_L_UNDEF; R res=UNKNOWN;
  // most queries are tiny: the plain SMT core answers them quicker than the bit-blasting tactic
  if(!fpq){ if(!SQ){ SQ=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,SQ); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),40); Z3_solver_set_params(C,SQ,p); Z3_params_dec_ref(C,p); }
    Z3_solver_reset(C,SQ); for(Ex*e:cons) Z3_solver_assert(C,SQ,trb(e)); r=Z3_solver_check(C,SQ); if(r!=Z3_L_UNDEF) S=SQ; }
  if(r==Z3_L_UNDEF){ Z3_solver_reset(C,S); for(Ex*e:cons) Z3_solver_assert(C,S,trb(e)); r=Z3_solver_check(C,S); }
  if(r==Z3_L_TRUE){ res=SAT; g_ss.sat++; Z3_model m=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,m); std::vector<u32> vs; for(Ex*e:cons) vs.insert(vs.end(),e->vars->begin(),e->vars->end()); std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
    for(u32 v:vs){ Z3_ast a=tr(mkVar(v)),o; if(Z3_model_eval(C,m,a,true,&o)){ unsigned x=0; Z3_get_numeral_uint(C,o,&x); asg.push_back({v,(u8)x}); } } Z3_model_dec_ref(C,m); }
  else if(r==Z3_L_FALSE){ res=UNSAT; g_ss.unsat++; } else { g_ss.unknown++; if(getenv("SYMEX_DEBUG")) fprintf(stderr,"unknown (fp %d): %s after %g s\n",(int)fpq,Z3_solver_get_reason_unknown(C,S),std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()); }
  if(g_dump) fprintf(g_dump,"; -> %s\n",res==SAT?"sat":res==UNSAT?"unsat":"unknown");
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); g_ss.time+=dt; g_ss.maxTime=std::max(g_ss.maxTime,dt); return res;
}
