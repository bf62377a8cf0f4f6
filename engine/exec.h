// Symbolic interpreter over the pre-decoded LLVM functions.
#pragma once
#include "expr.h"
#include "solver.h"
#include "ir.h"
#include <string>
#include <vector>
#include <set>
#include <deque>
struct SB { Expr* e[64]; u8 off[64]; };
struct Page { u32 rc; u32 nov; SB* ov[64]; u8 d[4096]; };
struct Chunk { u32 rc; Page* p[512]; };
struct Frame { Func* f; int base; int pc; u64 sp; int dst; };
struct Known { Expr* e; bool v; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs; std::vector<Chunk*> mem[5];
  u64 bump, sp; std::vector<Expr*> pc; std::unordered_map<Expr*,char> known; std::vector<u128> model;
  std::map<std::string,int> symc; std::vector<std::pair<std::string,u128>> choices; std::vector<std::pair<std::string,Expr*>> inputs;
  u64 icount=0; int mergeOn=1; int panicMode=0; int errnoAddr=0; u64 id=0; int depthForks=0; bool stale=false;
};
struct Stop { int depth=-1; int pc=-1; }; // pc>=0: start of a block in frame `depth`; pc==-1: return of that frame
enum RunRes { RR_ENDED, RR_ARRIVED, RR_ESCAPED, RR_BUDGET };
