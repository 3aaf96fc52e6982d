// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <memory>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

[[noreturn]] void fatal(const char* fmt, ...);

enum Op : u8 { O_CONST, O_VAR, O_CONCAT, O_EXTRACT, O_SEXT, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_FCMP, O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FRTI };

typedef std::vector<u32> VarSet;
struct Ex {
  Op op; u8 aux; u16 w; u32 id; u32 lo;  // lo: EXTRACT low bit / VAR id / FCMP predicate
  Ex *a, *b, *d;
  u128 c;
  u64 umin, umax;           // valid for w<=64
  const VarSet* vars;
  u64 evEpoch; u128 ev;
  void* z3; u32 size;
};
inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
inline bool isc(const Ex*e){return e->op==O_CONST;}

Ex* mkConst(u128 v, unsigned w);
Ex* mkVar(u32 id);
Ex* mkConcat(Ex* hi, Ex* lo);
Ex* mkExtract(Ex* e, unsigned lo, unsigned w);
Ex* mkZext(Ex* e, unsigned w);
Ex* mkSext(Ex* e, unsigned w);
Ex* mkBin(Op op, Ex* a, Ex* b);
Ex* mkEq(Ex* a, Ex* b);
Ex* mkCmp(Op op, Ex* a, Ex* b); // EQ/ULT/ULE/SLT/SLE
Ex* mkNot(Ex* a);               // bitwise not
Ex* mkIte(Ex* c, Ex* t, Ex* f);
Ex* mkFp(Op op, unsigned w, unsigned aux, Ex* a, Ex* b=nullptr);
inline Ex* mkAnd(Ex*a,Ex*b){return mkBin(O_AND,a,b);}
inline Ex* mkOr(Ex*a,Ex*b){return mkBin(O_OR,a,b);}
Ex* mkTrue(); Ex* mkFalse();

typedef std::vector<u8> Model; // var id -> byte
extern u64 g_evalEpoch;
u128 evalEx(Ex* e, const Model& m); // uses cache valid for g_evalEpoch
std::string exStr(Ex* e, int depth=6);
size_t numEx();
