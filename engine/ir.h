// Textual LLVM IR (rustc/LLVM 23 flavour): types, module, lazily parsed functions.
#pragma once
#include "expr.h"
#include <map>
#include <string_view>
typedef std::string_view sv;

struct Val { u64 c; Ex* e; };

enum TK : u8 { T_VOID,T_INT,T_PTR,T_FLOAT,T_DOUBLE,T_ARRAY,T_VECTOR,T_STRUCT,T_META,T_LABEL,T_FUNC,T_OTHER };
struct Type; struct Leaf { u64 off; u32 w; bool ptr; };
struct Type { TK k; u32 w=0; u64 n=0; Type* el=nullptr; std::vector<Type*> f; bool packed=false; u64 size=0; u32 align=1; std::vector<Leaf> leaves; std::vector<u64> foff; bool leavesDone=false; };
Type* tInt(unsigned w); Type* tPtr(); Type* tVoid();
const std::vector<Leaf>& leavesOf(Type*t);
u64 allocSize(Type*t);

struct Opnd { bool k; int i; }; // k: constant pool index, else register slot

enum Opc : u8 { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_CAST, I_SELECT, I_PHI, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL,
  I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_RMW, I_CMPXCHG, I_NOP, I_COPY, I_TRAP };
enum Cast : u8 { C_ZEXT,C_SEXT,C_TRUNC,C_BITCAST,C_FPEXT,C_FPTRUNC,C_SITOFP,C_UITOFP,C_FPTOSI,C_FPTOUI };
enum RmwOp : u8 { R_XCHG,R_ADD,R_SUB,R_AND,R_OR,R_XOR,R_NAND,R_MAX,R_MIN,R_UMAX,R_UMIN };
enum Bi : u16 { B_NONE=0, B_NOPV, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ASSUME, B_FSHL, B_FSHR, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_UMULO, B_UADDO, B_USUBO, B_SMULO, B_SADDO, B_SSUBO,
  B_CTPOP,B_CTTZ,B_CTLZ,B_BSWAP,B_BITREV,B_UCMP,B_SCMP,B_USUBSAT,B_UADDSAT,B_SSUBSAT,B_SADDSAT,B_ISCONST,B_ID0,B_FPTOSISAT,B_FPTOUISAT,B_TRAP,B_ABS,B_FABS,B_FPCLASS,B_COPYSIGN,B_FMIN,B_FMAX,B_PTRMASK,B_FTRUNC,B_FFLOOR,B_FCEIL,B_FROUND,B_FRINT,B_EXPECT,
  B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_PMEMALIGN,B_MEMCMP,B_BCMP,B_STRLEN,B_SYSCALL,B_ERRNO,B_GETRANDOM,B_KEYCREATE,B_SETSPEC,B_GETSPEC,B_ABORT,B_PANIC,B_FMTFORMAT,B_FMTWRITE,B_WRITE,B_ZERO,B_GETENV,B_MEMCHR,B_MEMRCHR,
  B_SYM_U8,B_SYM_U16,B_SYM_U32,B_SYM_U64,B_SYM_BYTES,B_SYM_ASSUME,B_SYM_CHOICE,B_SYM_COVER,B_SYM_PARAM,B_SYM_CONC,B_SYM_FAIL,B_SYM_ACTIVE,B_SYM_REUSE,B_SYM_LIVE,B_SYM_LOG,B_SYM_FREEZE,B_UNKNOWN };

struct Function; struct Block;
struct Instr { Opc op; u8 sub=0; u16 w=0; int dst=-1; int ndst=0; u32 dbg=0; bool hit=false; std::vector<Opnd> ops; std::vector<int> x; // targets / indices
  std::vector<u64> xs; Type* ty=nullptr; Function* fn=nullptr; Bi bi=B_NONE; std::vector<std::vector<Opnd>> phi; std::vector<Type*> aty; };
struct Block { std::string name; std::vector<Instr> ins; };
struct Function { std::string name; sv text; bool hasBody=false, parsed=false; u32 dbg=0; Type* ret=nullptr; std::vector<Type*> ptys; std::vector<int> pslot; int nslots=0; std::vector<Block> blocks; std::vector<Val> consts; std::vector<u16> slotw; u64 addr=0; Bi bi=B_NONE; u64 calls=0; };
struct Global { std::string name; Type* ty=nullptr; sv init; bool constant=false, hasInit=false, weak=false; u64 addr=0; u32 oid=0; };

struct Module {
  std::string buf;
  std::unordered_map<std::string,Function*> fns; std::unordered_map<std::string,Global*> globals; std::vector<Global*> globalList; std::vector<Function*> fnList;
  std::unordered_map<std::string,Type*> named; std::unordered_map<std::string,std::string> aliases;
  std::vector<std::pair<u32,u32>> metaOff; // index -> offset,len
  void load(const char* path);
  void parseFn(Function*f);
  void initGlobal(Global*g, std::vector<u8>& bytes, std::vector<bool>& init);
  sv meta(u32 id);
  Function* getFn(const std::string&name);
};
extern Module M;
u64 fnAddr(Function*f); Function* fnAt(u64 addr); // provided by memory layer
std::string demangle(const std::string&);
struct Loc { std::string fn, file; int line; u32 scope=0; };
std::vector<Loc> dbgStack(u32 dbg);
Bi builtinFor(const std::string&n);
