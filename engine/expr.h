// Expression layer of odcv: hash-consed bit-vector / IEEE expressions with normalising constructors.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <functional>
#include <z3.h>

namespace odcv {
typedef __int128 i128;
enum class Op : uint8_t { Const, Sym, Lin, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
  FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno, FExt, FTrunc, SI2F, UI2F, F2SI, F2UI, ARead };

struct Expr {
  Op op; uint16_t w; uint32_t id; bool nowrap;
  uint64_t aux, aux2;               // Const: value; Sym: index; Lin: constant; Extract: low bit; ARead: array,bytes
  int64_t lo, hi;                   // signed range (w==1: 0..1)
  std::vector<const Expr*> k;
  std::vector<uint64_t> cf;         // Lin coefficients
  std::vector<uint32_t>* syms = nullptr;  // cached free symbols
};
typedef const Expr* E;

struct SymInfo { std::string name; unsigned w; int64_t lo, hi; bool isfp; };
extern std::vector<SymInfo> g_syms;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

E mkC(unsigned w, uint64_t v);
E mkSym(unsigned w, const std::string& name, int64_t lo, int64_t hi, bool isfp = false);
E mkSym(unsigned w, const std::string& name);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkNeg(E a);
E mkBin(Op op, E a, E b);     // UDiv..AShr
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkNot(E a); E mkAnd(E a, E b); E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w); E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(std::vector<E> hiToLo);
E mkFBin(Op op, E a, E b); E mkFCmp(Op op, E a, E b);
E mkFConv(Op op, E a, unsigned w);
E mkARead(uint64_t arr, unsigned bytes, E off);
static inline bool isC(E e) { return e->op == Op::Const; }
static inline bool isTrue(E e) { return e->op == Op::Const && e->w == 1 && e->aux == 1; }
static inline bool isFalse(E e) { return e->op == Op::Const && e->w == 1 && e->aux == 0; }
// Linear decomposition
void linDecomp(E e, uint64_t& c, std::vector<std::pair<E, uint64_t>>& terms);
E mkLinV(unsigned w, uint64_t c, std::vector<std::pair<E, uint64_t>> terms);
std::string str(E e, int depth = 6);
const std::vector<uint32_t>& symsOf(E e);
E subst(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo);

// ---- solver -------------------------------------------------------------------------------------------------------
struct ModelBox { Z3_model m; ModelBox(Z3_model mm); ~ModelBox(); };
typedef std::shared_ptr<ModelBox> ModelP;
enum class Sat { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double seconds = 0, maxq = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
extern unsigned g_timeoutMs;
Sat solve(const std::vector<E>& cs, ModelP* model, unsigned timeoutMs = 0);
bool modelEvalBool(const ModelP& m, E e, bool& out);
bool modelEval(const ModelP& m, E e, uint64_t& out);
std::string toSmt2(const std::vector<E>& cs);
}
