// odcv: symbolic executor / VC generator over LLVM IR of the real code.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <unordered_set>

namespace odcv {
struct V { uint64_t c; E e; uint16_t w; };
static inline V vC(unsigned w, uint64_t c) { return V{c & maskw(w), nullptr, (uint16_t)w}; }
static inline V vE(E e) { if (isC(e)) return V{e->aux, nullptr, e->w}; return V{0, e, e->w}; }
static inline E toE(const V& v) { return v.e ? v.e : mkC(v.w, v.c); }
struct Val { V v; std::shared_ptr<std::vector<Val>> agg; };

struct MemObj;
struct Upd { int kind; E off; uint64_t len; E lenE; E val; std::shared_ptr<MemObj> src; E srcOff; std::shared_ptr<Upd> next; };
struct MemObj {
  uint64_t base = 0, size = 0; uint64_t birth = 0;
  bool sym = false, ro = false, dead = false; char kind = 'h';
  E sizeE = nullptr; uint64_t arr = 0; std::shared_ptr<Upd> upd;
  std::string name;
  // fixed-size objects: copy-on-write pages; an absent page is all zero (un = false) or all uninitialised (un = true)
  bool un = false; std::vector<std::shared_ptr<struct Page>> pg;
};
struct Page { std::vector<uint8_t> d; std::vector<E> s; std::vector<uint8_t> ix; };
typedef std::shared_ptr<MemObj> ObjP;
struct Region { std::vector<ObjP> o; uint64_t next; };

struct CInst { unsigned opc; llvm::Instruction* I; std::vector<int> ops; unsigned w; int dst; uint64_t goff; std::vector<std::pair<int, uint64_t>> gidx; };
struct CFunc {
  llvm::Function* F; std::vector<CInst> code; std::unordered_map<llvm::BasicBlock*, unsigned> bbStart; unsigned nregs; std::vector<Val> consts; std::string dem;
  std::unique_ptr<llvm::DominatorTree> DT; std::unique_ptr<llvm::LoopInfo> LI;
};
struct LoopRun { struct LoopCfg* cfg; llvm::Loop* L; int phase; uint64_t entrySeq; E n; std::string key; std::set<std::pair<uint64_t, unsigned>> writes; std::set<uint64_t> arrWrites; };
struct Frame {
  CFunc* cf; unsigned pc; std::vector<Val> r; size_t stackMark; int retDst; llvm::BasicBlock* prev; llvm::InvokeInst* inv; // inv: the invoke in the CALLER
  std::vector<LoopRun> loops; std::vector<Val> varargs; unsigned ay = 0;
};
struct Exc { uint64_t obj, ti; };
// tasks: a parked task keeps its frames here; every task has a stack region of its own
struct Ctx { std::vector<Frame> fr; std::vector<Exc> caught; Exc cur{0, 0}; std::string thrownAt; };
// happens-before: accesses per 8-byte word since tasks exist
struct Acc { uint32_t task, clk; uint8_t mask; bool write; };
struct RPage { std::vector<Acc> w[64]; };
struct Race { std::vector<std::vector<uint32_t>> vc; std::map<uint64_t, std::vector<uint32_t>> sync; std::unordered_map<uint64_t, std::shared_ptr<RPage>> pg; };
struct LoopCfg { std::string fn; int which; llvm::Function* inv; std::string tag; };
struct State {
  std::vector<Frame> fr; Region glob, heap, symh; std::vector<Region> stks; unsigned ct = 0; std::vector<Ctx> ctx; int noRace = 0; Race race;
  Region& stk() { return stks[ct]; }
  std::vector<E> pc; ModelP model; uint64_t seq = 0, nextArr = 1; uint64_t steps = 0;
  std::vector<std::pair<std::string, E>> inputs; std::map<std::string, int> inputCount;
  std::vector<Exc> excs; std::vector<Exc> caught; Exc cur{0, 0};
  std::unordered_map<E, uint64_t> known;
  std::map<std::string, uint64_t> repl;
  std::vector<LoopCfg*> loops; std::vector<std::pair<uint64_t, unsigned>> ghosts;
  std::vector<std::string> trace; std::string thrownAt; unsigned activeLoops = 0; unsigned forks = 0;
};
}
