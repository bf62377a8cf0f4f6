// Hash-consed bit-vector / IEEE expressions with eager simplification and unsigned intervals.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_UMULO, O_SMULO,
  O_ITE, O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT,
  // IEEE operations; operands and results are bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FEQ, O_FLT, O_FLE, O_FNAN,
  O_UITOFP, O_SITOFP, O_FPTOUI_SAT, O_FPTOSI_SAT, O_FPEXT, O_FPTRUNC, O_FROUND /*k: 0 floor 1 ceil 2 trunc 3 rint 4 round-away*/,
  O_NOPS
};
extern const char* op_names[];

struct SymSet;
struct Expr {
  Op op; u8 hasfp; u16 w; u32 id;
  Expr *a, *b, *c;
  u128 k;            // constant value / symbol id / extract low bit
  u128 lo, hi;       // unsigned interval
  u64 h;
  SymSet* syms;      // sorted set of symbol ids
  // evaluation memo
  u64 ep; u128 ev;
};
struct SymSet { std::vector<u32> v; };
struct SymInfo { std::string name; u16 w; u128 lo, hi; };
extern std::vector<SymInfo> g_syms;
extern u64 g_nexpr;

static inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sext128(u128 v, unsigned w){ if(w>=128) return (i128)v; unsigned s=128-w; return ((i128)(v<<s))>>s; }
static inline unsigned bitlen(u128 v){ u64 h=(u64)(v>>64), l=(u64)v; if(h) return 128-__builtin_clzll(h); if(l) return 64-__builtin_clzll(l); return 0; }

Expr* mkC(unsigned w, u128 v);
Expr* mkSym(const std::string& name, unsigned w, u128 lo, u128 hi);
Expr* mk(Op op, unsigned w, Expr* a, Expr* b=nullptr, Expr* c=nullptr, u128 k=0);
static inline bool isC(const Expr* e){ return e->op==O_CONST; }
Expr* mkNot(Expr* a);
Expr* mkAnd(Expr* a, Expr* b);
Expr* mkOr(Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkEq(Expr* a, Expr* b);
// concrete evaluation of one operator
u128 foldop(Op op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u128 k);
bool evalExpr(Expr* e, const std::vector<u128>& model, u128& out); // total: unknown syms take their lower bound
void newEvalEpoch();
u128 evalM(Expr* e, const std::vector<u128>& model);
std::string toStr(Expr* e, int depth=6);
double u2d(u64 b); u64 d2u(double d);

// interval of the values of a floating-point expression
struct FI{ double lo,hi; bool nan; };
FI fint(Expr* e);
