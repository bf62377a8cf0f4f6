// Pre-decoded form of LLVM functions: scalar micro-instructions over flattened slots.
#pragma once
#include "expr.h"
#include <map>
struct Val { u64 lo, hi; Expr* e; };
static inline u128 v128(const Val& v){ return ((u128)v.hi<<64)|v.lo; }
static inline Val cval(u128 x){ return Val{(u64)x,(u64)(x>>64),nullptr}; }

enum IOp : u8 { I_NOP, I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_ZEXT, I_SEXT, I_TRUNC, I_FPCAST, I_REPACK, I_LOAD, I_STORE, I_GEP, I_GEPK, I_SELECT, I_MOVE,
  I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_ALLOCA, I_ARMW, I_CMPXCHG, I_INTR, I_EXTRACTDYN, I_INSERTDYN };
enum IntrK : u8 { N_MEMCPY, N_MEMMOVE, N_MEMSET, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UADDS, N_USUBS, N_SADDS, N_SSUBS, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_BITREV, N_FSHL, N_FSHR, N_UMIN, N_UMAX, N_SMIN, N_SMAX, N_ABS,
  N_FPTOUI_SAT, N_FPTOSI_SAT, N_FABS, N_FLOOR, N_CEIL, N_TRUNC, N_RINT, N_ROUND, N_COPYSIGN, N_FMA, N_LIFEEND, N_ASSUME, N_TRAP, N_MOVMSK, N_REDUCE, N_PSHUFB, N_PSAD, N_UCMP };
struct Func;
struct Inst {
  IOp op; u8 sub; u16 w; u16 w2; u16 n;   // n: pool count
  int dst; int a, b, c;                    // operands: >=0 slot, <0 constant ~i
  int pool;                                // index into func->pool
  union { Func* f; i64 imm; };
};
struct Edge { int target; int block; int cp; int ncp; }; // copies at pool[cp..cp+2*ncp)
struct Block { int start, end; std::vector<int> succ; };
struct Ctx; struct State; struct Exec;
typedef bool (*Builtin)(Exec&, State&, const Inst&); // false: state ended
struct Func {
  std::string name, dem; int idx; bool decoded=false; bool ext=false; const void* llf=nullptr;
  std::vector<Inst> code; std::vector<int> pool; std::vector<Edge> edges; std::vector<Block> blocks; 
  int nslots=0, nargs=0, nret=0; std::vector<std::pair<int,u64>> byval; // (arg slot, size)
  std::vector<int> blockOf; // per inst
  Builtin bi=nullptr; Func* redirect=nullptr; Func* redirectSym=nullptr; int symArg=-1, symMem=0;
  // analyses
  std::vector<int> ipdom; bool haveIpdom=false; std::vector<std::vector<u64>> liveIn; bool haveLive=false; std::map<int,std::vector<u64>> liveAtC;
  u64 calls=0; bool isTarget=false; bool vararg=false;
};
struct Module {
  std::vector<Func*> funcs; std::unordered_map<std::string,Func*> byName; std::vector<Val> cpool; std::vector<bool> cpoolD;
  std::unordered_map<std::string,u64> gaddr; // global name -> address
  u64 gend;
};
extern Module M;
const u64 RSHIFT=44; const u64 GBASE=1ull<<RSHIFT, HBASE=2ull<<RSHIFT, SBASE=3ull<<RSHIFT, FBASE=4ull<<RSHIFT;
void loadModule(const char* path, std::function<void(u64 addr,const u8* data,size_t n)> writeMem);
void decode(Func* f);
int linkArchive(int argc, char** argv);
