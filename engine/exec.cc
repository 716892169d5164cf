#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cxxabi.h>
#include <unistd.h>
using namespace llvm;
namespace odcv {

// ---------------------------------------------------------------------------------------------------------------------
// options and results
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static double optTime = 300; static uint64_t optMaxPaths = 200000, optMaxSteps = 400000000ull, optMaxLoop = 100000; static bool optVerbose = false;
static bool optFirstFail = false; static unsigned optFailLimit = 5;
static std::chrono::steady_clock::time_point t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

struct ObRes { uint64_t n = 0, ok = 0, failed = 0, unknown = 0, trivial = 0; std::string detail; std::string where; std::vector<std::pair<std::string, uint64_t>> witness; bool haveWitness = false; std::string smt; };
static std::map<std::string, ObRes> obs;
static std::map<std::string, uint64_t> covers;
static std::map<std::string, uint64_t> errors;     // structural failures
static std::map<std::string, uint64_t> paths;      // path endings
static std::set<std::string> enteredFns, stubbedFns, opaqueFns, trustedSeen;
static uint64_t nPaths = 0, nSteps = 0, nMemChecks = 0, nForks = 0;
static bool needRestart = false; static unsigned nRestarts = 0;

[[noreturn]] static void failHere(const std::string& name, const std::string& detail);
struct PathEnd { std::string why; };
struct Unsupported { std::string why; };
struct Retry {};                           // instruction must be re-executed (after frame push)

static std::unordered_map<Function*, std::unique_ptr<CFunc>> cfs;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> fnAt;
static std::vector<std::unique_ptr<State>> work;
static State* S;
static E g_uninit;

static std::string demangle1(const std::string& n) { return llvm::demangle(n); }
static std::unordered_map<Function*, std::string> demCache;
static const std::string& dem(Function* F) { auto it = demCache.find(F); if (it != demCache.end()) return it->second; return demCache[F] = demangle1(F->getName().str()); }

static std::string where() {
  std::string s;
  int n = 0;
  for (size_t i = S->fr.size(); i-- > 0 && n < 6;) {
    Frame& f = S->fr[i]; unsigned pc = f.pc; if (pc >= f.cf->code.size()) continue;
    Instruction* I = f.cf->code[pc].I; std::string l;
    if (I->getDebugLoc()) { auto* sc = cast<DIScope>(I->getDebugLoc().getScope()); std::string fn = sc->getFilename().str(); auto p = fn.rfind('/'); l = (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(I->getDebugLoc().getLine()); }
    std::string nm = f.cf->dem; auto p = nm.find('('); if (p != std::string::npos && p > 0) nm = nm.substr(0, p); if (nm.size() > 70) nm = nm.substr(0, 67) + "...";
    s += (s.empty() ? "" : " < ") + nm + (l.empty() ? "" : "@" + l); n++;
  }
  return s;
}
static std::string srcLoc() {   // innermost frame that lies in the project (odc::) or else the innermost
  for (size_t i = S->fr.size(); i-- > 0;) {
    Frame& f = S->fr[i]; if (f.pc >= f.cf->code.size()) continue;
    Instruction* I = f.cf->code[f.pc].I;
    if (I->getDebugLoc()) { auto* sc = cast<DIScope>(I->getDebugLoc().getScope()); std::string fn = sc->getFilename().str(); if (fn.find("/odc/") != std::string::npos || fn.find("harness") != std::string::npos) { auto p = fn.rfind('/'); return fn.substr(p + 1) + ":" + std::to_string(I->getDebugLoc().getLine()); } }
  }
  return "?";
}
static std::string odcFn() { for (size_t i = S->fr.size(); i-- > 0;) { const std::string& d = S->fr[i].cf->dem; if (d.find("odc::") != std::string::npos || d.compare(0, 4, "odc_") == 0) { std::string n = d; auto p = n.find('('); if (p != std::string::npos && p) n = n.substr(0, p); return n; } } return "harness"; }

// ---------------------------------------------------------------------------------------------------------------------
// memory
static ObjP findIn(Region& R, uint64_t a) {
  auto& o = R.o; size_t lo = 0, hi = o.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (o[m]->base <= a) lo = m + 1; else hi = m; }
  if (lo == 0) return nullptr;
  return o[lo - 1];
}
static const uint64_t GLOB0 = 0x100000000ull, HEAP0 = 0x1000000000ull, SYM0 = 0x100000000000ull, STK0 = 0x700000000000ull, SYMSPAN = 1ull << 36, SYMMAX = 1ull << 35;
static const uint64_t STKSPAN = 1ull << 36;
static Region& regionOf(uint64_t a) { if (a >= STK0) { uint64_t k = (a - STK0) / STKSPAN; return S->stks[k < S->stks.size() ? k : 0]; } if (a >= SYM0) return S->symh; if (a >= HEAP0) return S->heap; return S->glob; }
static ObjP objAt(uint64_t a) { ObjP o = findIn(regionOf(a), a); return o; }
static size_t idxIn(Region& R, uint64_t base) { auto& o = R.o; size_t lo = 0, hi = o.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (o[m]->base <= base) lo = m + 1; else hi = m; } return lo - 1; }
static MemObj* writable(uint64_t base) {
  Region& R = regionOf(base); size_t i = idxIn(R, base); ObjP& p = R.o[i];
  if (p.use_count() > 1) p = std::make_shared<MemObj>(*p);
  return p.get();
}
static const unsigned PGB = 9; static const uint64_t PGS = 1ull << PGB, PGM = PGS - 1;
static inline E sAt(const MemObj* o, uint64_t off) { auto p = o->pg[off >> PGB].get(); if (!p) return o->un ? g_uninit : nullptr; return p->s.empty() ? nullptr : p->s[off & PGM]; }
static inline uint8_t dAt(const MemObj* o, uint64_t off) { auto p = o->pg[off >> PGB].get(); return p ? p->d[off & PGM] : 0; }
static inline uint8_t ixAt(const MemObj* o, uint64_t off) { auto p = o->pg[off >> PGB].get(); return p && !p->ix.empty() ? p->ix[off & PGM] : 0; }
static Page* pageW(MemObj* o, uint64_t off) {
  auto& p = o->pg[off >> PGB];
  if (!p) { p = std::make_shared<Page>(); uint64_t n = std::min(PGS, o->size - (off & ~PGM)); p->d.assign(n, 0); if (o->un) { p->s.assign(n, g_uninit); p->ix.assign(n, 0); } }
  else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  return p.get();
}
static inline void setC(MemObj* o, uint64_t off, uint8_t c) { Page* p = pageW(o, off); p->d[off & PGM] = c; if (!p->s.empty()) p->s[off & PGM] = nullptr; }
static inline void setS(MemObj* o, uint64_t off, E e, uint8_t ix) { Page* p = pageW(o, off); if (p->s.empty()) { if (!e) return; p->s.assign(p->d.size(), nullptr); p->ix.assign(p->d.size(), 0); } p->s[off & PGM] = e; p->ix[off & PGM] = ix; }
static void readC(const MemObj* o, uint64_t off, void* to, uint64_t n) { for (uint64_t k = 0; k < n;) { uint64_t q = std::min(n - k, PGS - ((off + k) & PGM)); auto p = o->pg[(off + k) >> PGB].get(); if (p) memcpy((char*)to + k, &p->d[(off + k) & PGM], q); else memset((char*)to + k, 0, q); k += q; } }
static void writeC(MemObj* o, uint64_t off, const void* from, uint64_t n) { for (uint64_t k = 0; k < n;) { uint64_t q = std::min(n - k, PGS - ((off + k) & PGM)); Page* p = pageW(o, off + k); uint64_t f = (off + k) & PGM; memcpy(&p->d[f], (const char*)from + k, q); if (!p->s.empty()) std::fill(p->s.begin() + f, p->s.begin() + f + q, (E) nullptr); k += q; } }
static void copyBytes(MemObj* o, uint64_t to, const MemObj* so, uint64_t from, uint64_t n) {   // different objects (or a snapshot)
  for (uint64_t k = 0; k < n;) {
    uint64_t q = std::min(n - k, std::min(PGS - ((to + k) & PGM), PGS - ((from + k) & PGM))), tf = (to + k) & PGM, ff = (from + k) & PGM;
    auto sp = so->pg[(from + k) >> PGB]; auto& dpp = o->pg[(to + k) >> PGB];
    if (!sp && !dpp && so->un == o->un) { k += q; continue; }
    if (q == PGS && sp && sp->d.size() == PGS) { dpp = sp; k += q; continue; }
    Page* p = pageW(o, to + k);
    if (sp) memcpy(&p->d[tf], &sp->d[ff], q); else memset(&p->d[tf], 0, q);
    bool ssym = sp ? !sp->s.empty() : so->un;
    if (ssym && p->s.empty()) { p->s.assign(p->d.size(), nullptr); p->ix.assign(p->d.size(), 0); }
    if (!p->s.empty()) {
      if (!ssym) std::fill(p->s.begin() + tf, p->s.begin() + tf + q, (E) nullptr);
      else if (!sp) std::fill(p->s.begin() + tf, p->s.begin() + tf + q, g_uninit);
      else { std::copy(sp->s.begin() + ff, sp->s.begin() + ff + q, p->s.begin() + tf); std::copy(sp->ix.begin() + ff, sp->ix.begin() + ff + q, p->ix.begin() + tf); }
    }
    k += q;
  }
}
static ObjP newObj(Region& R, uint64_t size, char kind, const std::string& name, bool uninit) {
  auto o = std::make_shared<MemObj>();
  o->base = R.next; o->size = size; o->kind = kind; o->name = name; o->birth = S->seq++;
  uint64_t gap = 64;
  R.next = (R.next + size + gap + 15) & ~15ull;
  o->un = uninit; o->pg.resize((size + PGS - 1) >> PGB);
  R.o.push_back(o);
  return o;
}
static ObjP newSym(E sizeE, const std::string& name, bool uninit) {
  auto o = std::make_shared<MemObj>();
  o->base = S->symh.next; o->size = SYMSPAN / 2; o->sizeE = sizeE; o->sym = true; o->kind = 'y'; o->name = name; o->birth = S->seq++; o->arr = S->nextArr++ ;
  S->symh.next += SYMSPAN; S->symh.o.push_back(o);
  if (S->symh.next > STK0) throw Unsupported{"too many symbolic objects"};
  return o;
}
static uint64_t newHeap(uint64_t size, const std::string& name = "heap") { return newObj(S->heap, size, 'h', name, true)->base; }

static void noteWrite(uint64_t addr, unsigned n, uint64_t birth) {
  if (!S->activeLoops) return;
  for (auto& f : S->fr) for (auto& l : f.loops) if (l.phase == 3 && birth < l.entrySeq) l.writes.insert({addr, n});
}
static void noteArrWrite(const MemObj* o) {
  if (!S->activeLoops) return;
  for (auto& f : S->fr) for (auto& l : f.loops) if (l.phase == 3 && o->birth < l.entrySeq) l.arrWrites.insert(o->base);
}

static Sat query(const std::vector<E>& extra, ModelP* m, unsigned tmo = 0) {
  // independence slicing
  std::vector<E> cs = extra; std::set<uint32_t> ss; for (E e : extra) for (uint32_t s : symsOf(e)) ss.insert(s);
  std::vector<bool> used(S->pc.size(), false); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < S->pc.size(); i++) if (!used[i]) {
      auto& v = symsOf(S->pc[i]); bool hit = false; for (uint32_t s : v) if (ss.count(s)) { hit = true; break; }
      if (hit) { used[i] = true; ch = true; cs.push_back(S->pc[i]); for (uint32_t s : v) ss.insert(s); }
    } }
  if (m) { // need a full model: use all of the path condition
    std::vector<E> all = S->pc; all.insert(all.end(), extra.begin(), extra.end());
    Sat r = solve(cs, nullptr, tmo); if (r != Sat::Sat) return r;
    return solve(all, m, tmo);
  }
  return solve(cs, nullptr, tmo);
}
static void addPC(E c) {
  if (isTrue(c)) return;
  if (c->op == Op::And && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
  for (E x : S->pc) if (x == c) return;
  S->pc.push_back(c);
  // remember constants pinned by equalities
  if (c->op == Op::Eq && isC(c->k[1])) S->known[c->k[0]] = c->k[1]->aux;
}
static bool ensureModel() {
  if (S->model) return true;
  ModelP m; std::vector<E> all = S->pc; Sat r = solve(all, &m);
  if (r == Sat::Sat) { S->model = m; return true; }
  if (r == Sat::Unsat) throw PathEnd{"infeasible"};
  return false;
}
static std::unique_ptr<State> cloneState() { nForks++; S->forks++; return std::make_unique<State>(*S); }

// is `c` forced? returns 1 must-true, 0 must-false, -1 both possible (or unknown)
static int mustBe(E c) {
  if (isTrue(c)) return 1; if (isFalse(c)) return 0;
  for (E x : S->pc) { if (x == c) return 1; }
  E nc = mkNot(c); for (E x : S->pc) if (x == nc) return 0;
  bool mv; bool have = ensureModel() && modelEvalBool(S->model, c, mv);
  if (have) {
    if (mv) { Sat r = query({nc}, nullptr); return r == Sat::Unsat ? 1 : -1; }
    Sat r = query({c}, nullptr); return r == Sat::Unsat ? 0 : -1;
  }
  if (query({nc}, nullptr) == Sat::Unsat) return 1;
  if (query({c}, nullptr) == Sat::Unsat) return 0;
  return -1;
}
// decide a condition, forking when both sides are feasible; the other side is queued to re-execute from `alt`
// alt: function applied to the cloned state. Returns the value taken in the current state.
static bool decide(E c, const std::function<void(State&, bool)>& alt) {
  if (isTrue(c)) return true; if (isFalse(c)) return false;
  for (E x : S->pc) if (x == c) return true;
  E nc = mkNot(c); for (E x : S->pc) if (x == nc) return false;
  bool mv = true; bool have = ensureModel() && modelEvalBool(S->model, c, mv);
  ModelP other; Sat r;
  if (have) {
    r = query({mv ? nc : c}, &other);
    if (r == Sat::Unsat) { return mv; }
  } else {
    Sat r1 = query({c}, nullptr), r2 = query({nc}, nullptr);
    if (r1 == Sat::Unsat && r2 == Sat::Unsat) throw PathEnd{"infeasible"};
    if (r1 == Sat::Unsat) return false;
    if (r2 == Sat::Unsat) return true;
    mv = true; r = Sat::Unknown;
  }
  auto o = cloneState();
  { State* sv = S; S = o.get(); addPC(mv ? nc : c); S->model = r == Sat::Sat ? other : nullptr; alt(*o, !mv); S = sv; }
  work.push_back(std::move(o));
  addPC(mv ? c : nc);
  if (!have) S->model = nullptr;
  return mv;
}
// make an expression concrete by forking over its feasible values (current instruction is re-executed in the others)
static uint64_t concretize(const V& v) {
  if (!v.e) return v.c;
  auto it = S->known.find(v.e); if (it != S->known.end()) return it->second;
  if (!ensureModel()) throw Unsupported{"solver unknown while concretising"};
  uint64_t x; if (!modelEval(S->model, v.e, x)) throw Unsupported{"cannot evaluate expression for concretisation"};
  E c = mkEq(v.e, mkC(v.w, x));
  ModelP other; Sat r = query({mkNot(c)}, &other);
  if (r != Sat::Unsat) {
    auto o = cloneState();
    if (o->forks > 5000) throw Unsupported{"too many values while concretising at " + where()};
    { State* sv = S; S = o.get(); addPC(mkNot(c)); S->model = r == Sat::Sat ? other : nullptr; S = sv; }
    work.push_back(std::move(o));
    addPC(c);
  }
  S->known[v.e] = x;
  return x;
}

// ---- obligations --------------------------------------------------------------------------------------------------
static void recordFailure(ObRes& o, const ModelP& m, const std::string& detail) {
  o.failed++;
  if (!o.haveWitness) {
    o.detail = detail; o.where = where(); o.haveWitness = true;
    std::map<std::string, int> cnt;
    for (auto& in : S->inputs) { uint64_t x = 0; if (m) modelEval(m, in.second, x); o.witness.push_back({in.first, x}); }
  }
}
static void obligation(const std::string& name, E c, const std::string& detail) {
  ObRes& o = obs[name]; o.n++;
  if (isTrue(c)) { o.ok++; o.trivial++; return; }
  ModelP m; E nc = mkNot(c);
  Sat r = isTrue(nc) ? Sat::Sat : query({nc}, nullptr);
  if (r == Sat::Unsat) { o.ok++; addPC(c); return; }
  if (r == Sat::Sat) {
    std::vector<E> all = S->pc; all.push_back(nc); r = solve(all, &m);
    if (r == Sat::Unsat) throw PathEnd{"infeasible"};
    if (r == Sat::Sat) {
      recordFailure(o, m, detail + " cond=" + str(c, 7));
      if (optVerbose) std::cerr << "FAIL " << name << " " << detail << "\n   at " << where() << "\n   cond " << str(c, 10) << "\n";
      if (isFalse(c) || query({c}, nullptr) == Sat::Unsat) throw PathEnd{"obligation failed"};
      addPC(c); S->model = nullptr; return;
    }
  }
  o.unknown++; if (o.detail.empty()) { o.detail = "unknown: " + detail + " cond=" + str(c, 7); o.where = where(); if (o.smt.empty()) { std::vector<E> all = S->pc; all.push_back(nc); o.smt = toSmt2(all); } }
  addPC(c); S->model = nullptr;
}
[[noreturn]] static void failHere(const std::string& name, const std::string& detail) {
  obligation(name, mkC(1, 0), detail);
  throw PathEnd{"failed"};
}

// ---- reading and writing ------------------------------------------------------------------------------------------
static E byteAt(const MemObj* o, uint64_t off) {
  E e = sAt(o, off);
  if (!e) return mkC(8, dAt(o, off));
  if (e == g_uninit) return e;
  if (e->w < 8) return mkZExt(e, 8);
  return mkExtract(e, 8 * ixAt(o, off), 8);
}
static uint64_t uninitCount = 0;
static V readFixed(ObjP op, uint64_t off, unsigned n, unsigned w) {
  MemObj* o = op.get();
  if (n <= 8 && (off & PGM) + n <= PGS) {
    auto p = o->pg[off >> PGB].get();
    if (p ? p->s.empty() : !o->un) { uint64_t v = 0; if (p) memcpy(&v, &p->d[off & PGM], n); return vC(w, v); }
    if (p) { const E* se = &p->s[off & PGM]; bool conc = true; for (unsigned i = 0; i < n; i++) if (se[i]) { conc = false; break; } if (conc) { uint64_t v = 0; memcpy(&v, &p->d[off & PGM], n); return vC(w, v); } }
  }
  E e0 = sAt(o, off);
  if (e0 && e0 != g_uninit && ixAt(o, off) == 0 && (e0->w + 7) / 8 == n) {
    bool same = true; for (unsigned i = 1; i < n; i++) if (sAt(o, off + i) != e0 || ixAt(o, off + i) != i) { same = false; break; }
    if (same) { if (e0->w == w) return vE(e0); if (e0->w > w) return vE(mkExtract(e0, 0, w)); return vE(mkZExt(e0, w)); }
  }
  bool un = false; for (unsigned i = 0; i < n; i++) if (sAt(o, off + i) == g_uninit) un = true;
  if (un) {
    MemObj* wo = writable(o->base);
    bool all = true; for (unsigned i = 0; i < n; i++) if (sAt(wo, off + i) != g_uninit) all = false;
    if (all && n <= 8) { E f = mkSym(8 * n, "uninit" + std::to_string(uninitCount++)); for (unsigned i = 0; i < n; i++) setS(wo, off + i, f, i); return vE(w == 8 * n ? f : mkExtract(f, 0, w)); }
    for (unsigned i = 0; i < n; i++) if (sAt(wo, off + i) == g_uninit) setS(wo, off + i, mkSym(8, "uninit" + std::to_string(uninitCount++)), 0);
    o = wo;
  }
  std::vector<E> p; for (unsigned i = n; i-- > 0;) p.push_back(byteAt(o, off + i));
  E r = mkConcat(p); if (r->w > w) r = mkExtract(r, 0, w);
  return vE(r);
}
static void writeFixed(uint64_t base, uint64_t off, unsigned n, const V& v) {
  MemObj* o = writable(base);
  noteWrite(base + off, n, o->birth);
  if (!v.e && n <= 8) { writeC(o, off, &v.c, n); return; }
  E e = toE(v);
  if (n > 8) { for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, 8 * i, 8); if (isC(b)) setC(o, off + i, b->aux); else setS(o, off + i, b, 0); } return; }
  for (unsigned i = 0; i < n; i++) setS(o, off + i, e, i);
}
static V readSymArr(ObjP o, std::shared_ptr<Upd> u, E off, unsigned n);
static E arrBase(const ObjP& o, E off, unsigned n) { return mkARead(o->arr, n, off); }
static V readSymArr(ObjP o, std::shared_ptr<Upd> u, E off, unsigned n) {
  for (; u; u = u->next) {
    E d = mkSub(off, u->off);
    if (u->kind == 0) {
      if (isC(d)) {
        int64_t dd = sext(d->aux, 64);
        if (dd == 0 && u->len == n) return vE(u->val);
        if (dd >= (int64_t)u->len || dd <= -(int64_t)n) continue;
        if (dd >= 0 && dd + n <= u->len) return vE(mkExtract(u->val, 8 * dd, 8 * n));
        std::vector<E> p; for (unsigned i = n; i-- > 0;) p.push_back(toE(readSymArr(o, u, mkAdd(off, mkC(64, i)), 1)));
        return vE(mkConcat(p));
      }
      // disjoint?
      E dis = mkOr(mkSle(mkC(64, u->len), d), mkSle(d, mkC(64, (uint64_t)-(int64_t)n)));
      int m = mustBe(dis);
      if (m == 1) continue;
      E inside = mkAnd(mkSle(mkC(64, 0), d), mkSle(d, mkC(64, u->len - n)));
      if (u->len == n) {
        E eq = mkEq(off, u->off); int me = mustBe(eq);
        if (me == 1) return vE(u->val);
        if (mustBe(mkOr(dis, eq)) == 1) { V rest = readSymArr(o, u->next, off, n); return vE(mkIte(eq, u->val, toE(rest))); }
      }
      (void)inside;
      if (n == 1) { // byte read inside a wider write
        V rest = readSymArr(o, u->next, off, n); E r = toE(rest);
        for (unsigned i = 0; i < u->len; i++) r = mkIte(mkEq(d, mkC(64, i)), mkExtract(u->val, 8 * i, 8), r);
        return vE(r);
      }
      std::vector<E> p; for (unsigned i = n; i-- > 0;) p.push_back(toE(readSymArr(o, u, mkAdd(off, mkC(64, i)), 1)));
      return vE(mkConcat(p));
    }
    // range updates: fill (1) or copy (2) of [off, off+lenE)
    E dis = mkOr(mkSle(u->lenE, d), mkSle(d, mkC(64, (uint64_t)-(int64_t)n)));
    if (mustBe(dis) == 1) continue;
    E ins = mkAnd(mkSle(mkC(64, 0), d), mkSle(mkAdd(d, mkC(64, n)), u->lenE));
    auto inner = [&]() -> E {
      if (u->kind == 1) { std::vector<E> p(n, u->val); return mkConcat(p); }
      E so = mkAdd(d, u->srcOff);
      if (u->src->sym) return toE(readSymArr(u->src, u->src->upd, so, n));
      if (!isC(so)) { auto it = S->known.find(so); if (it != S->known.end()) so = mkC(64, it->second); else throw Unsupported{"symbolic read through a copy of a fixed object"}; }
      return toE(readFixed(u->src, so->aux, n, 8 * n));
    };
    int mi = mustBe(ins);
    if (mi == 1) return vE(inner());
    if (mustBe(mkOr(dis, ins)) == 1) { E rest = toE(readSymArr(o, u->next, off, n)); return vE(mkIte(ins, inner(), rest)); }
    if (n > 1) { std::vector<E> p; for (unsigned i = n; i-- > 0;) p.push_back(toE(readSymArr(o, u, mkAdd(off, mkC(64, i)), 1))); return vE(mkConcat(p)); }
    throw Unsupported{"partial overlap of symbolic ranges"};
  }
  return vE(arrBase(o, off, n));
}
static void writeSymArr(uint64_t base, E off, unsigned n, E val) {
  MemObj* o = writable(base); noteArrWrite(o);
  auto u = std::make_shared<Upd>(); u->kind = 0; u->off = off; u->len = n; u->val = val; u->next = o->upd;
  // overwrite of the same location: drop older identical write at the head
  if (o->upd && o->upd->kind == 0 && o->upd->off == off && o->upd->len == n) u->next = o->upd->next;
  o->upd = u;
}

// ---- happens-before -----------------------------------------------------------------------------------------------
static bool inAtomic = false;
static void hbJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void hbAcquire(uint64_t x) { auto it = S->race.sync.find(x); if (it != S->race.sync.end()) hbJoin(S->race.vc[S->ct], it->second); }
static void hbRelease(uint64_t x) { auto& v = S->race.vc[S->ct]; hbJoin(S->race.sync[x], v); v[S->ct]++; }
static void raceCheck(uint64_t a, uint64_t n, bool write, const std::string& nm) {
  auto& v = S->race.vc[S->ct]; uint32_t clk = v[S->ct];
  for (uint64_t k = 0; k < n;) {
    uint64_t x = a + k, q = std::min<uint64_t>(n - k, 8 - (x & 7)); uint8_t m = (uint8_t)(((1u << q) - 1) << (x & 7)); k += q;
    auto& pp = S->race.pg[x >> 9]; if (!pp) pp = std::make_shared<RPage>(); else if (pp.use_count() > 1) pp = std::make_shared<RPage>(*pp);
    auto& w = pp->w[(x >> 3) & 63]; size_t j = 0; bool have = false;
    for (size_t i = 0; i < w.size(); i++) {
      Acc& c = w[i];
      if (c.task != S->ct) { if ((c.mask & m) && (c.write || write) && c.clk > (c.task < v.size() ? v[c.task] : 0)) failHere("no-data-race", std::string(write ? "write" : "read") + " of " + nm + " by task " + std::to_string(S->ct) + " against unordered " + (c.write ? "write" : "read") + " of task " + std::to_string(c.task)); }
      else if (c.write == write && c.mask == m) { c.clk = clk; have = true; }
      else if (c.write <= write && !(c.mask & ~m)) continue;
      w[j++] = c;
    }
    w.resize(j); if (!have) w.push_back({S->ct, clk, m, write});
  }
}
struct Ref { ObjP o; E offE; uint64_t off; bool isSym; };
// resolve an access of n bytes at addr (n constant) or lenE symbolic
static Ref resolve(const V& addr, uint64_t n, E lenE, bool write, const char* what) {
  nMemChecks++;
  if (!addr.e) {
    uint64_t a = addr.c; ObjP o = objAt(a);
    if (o && !o->dead && !o->sym && a >= o->base && !lenE && a + n <= o->base + o->size) { if (S->stks.size() > 1 && !S->noRace && !inAtomic) raceCheck(a, n, write, o->name); if (write && o->ro) failHere("memory-safety@" + odcFn(), std::string("write to constant ") + o->name); return {o, nullptr, a - o->base, false}; }
    if (o && o->sym && !o->dead && a >= o->base && a < o->base + SYMSPAN) {
      E off = mkC(64, a - o->base), end = lenE ? mkAdd(off, lenE) : mkAdd(off, mkC(64, n));
      obligation("memory-safety@" + odcFn(), mkAnd(mkSle(off, end), mkSle(end, o->sizeE)), std::string(what) + " within " + o->name);
      return {o, off, a - o->base, true};
    }
    if (o && !o->dead && !o->sym && lenE && a >= o->base && a <= o->base + o->size) return {o, nullptr, a - o->base, false};
    if (n == 0 && !lenE) return {nullptr, nullptr, 0, false};
    std::string why = a < 4096 ? "null pointer" : o && a < o->base + o->size + 64 ? (o->dead ? "use after free of " : "out of bounds of ") + o->name + " size " + std::to_string(o->size) + " offset " + std::to_string((int64_t)(a - o->base)) : "wild pointer";
    failHere("memory-safety@" + odcFn(), std::string(what) + " " + std::to_string(n) + " bytes: " + why);
  }
  E e = addr.e;
  auto kn = S->known.find(e);
  if (kn != S->known.end()) return resolve(vC(64, kn->second), n, lenE, write, what);
  uint64_t c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(e, c, t);
  ObjP o = c > 4096 ? objAt(c) : nullptr;
  if (c > 4096 && (!o || c >= o->base + (o->sym ? SYMSPAN - 4096 : o->size + 1))) { ObjP o2 = objAt(c + 64); if (o2 && o2->base > c) o = o2; }
  bool hasIte = false; for (auto& p : t) if (p.first->op == Op::Ite && (p.first->hi > (int64_t)GLOB0)) hasIte = true;
  if (!o || hasIte) {
    // pick an object using the model, fork on the address lying in it
    if (!ensureModel()) throw Unsupported{"symbolic pointer, solver unknown"};
    uint64_t a; if (!modelEval(S->model, e, a)) throw Unsupported{"symbolic pointer"};
    o = objAt(a);
    if (!o || a >= o->base + (o->sym ? SYMSPAN : o->size + 1)) failHere("memory-safety@" + odcFn(), std::string(what) + ": symbolic pointer outside every object: " + str(e, 4));
    E in = mkAnd(mkUle(mkC(64, o->base), e), mkUlt(e, mkC(64, o->base + (o->sym ? SYMSPAN : o->size + 1))));
    decide(in, [](State&, bool) {});   // the clone re-executes this instruction
  }
  if (o->dead) failHere("memory-safety@" + odcFn(), std::string(what) + ": use after free of " + o->name);
  E off = mkSub(e, mkC(64, o->base));
  E size = o->sym ? o->sizeE : mkC(64, o->size);
  E end = lenE ? mkAdd(off, lenE) : mkAdd(off, mkC(64, n));
  E inb = mkAnd(mkSle(mkC(64, 0), off), mkAnd(mkSle(end, size), mkSle(off, end)));
  if (!isTrue(inb)) obligation("memory-safety@" + odcFn(), inb, std::string(what) + " within " + o->name);
  if (write && o->ro) failHere("memory-safety@" + odcFn(), "write to constant " + o->name);
  if (o->sym) return {o, off, 0, true};
  if (isC(off)) return {o, nullptr, off->aux, false};
  uint64_t v = concretize(vE(off));
  S->known[e] = o->base + v;
  return {o, nullptr, v, false};
}
static V load(const V& addr, unsigned n, unsigned w) {
  Ref r = resolve(addr, n, nullptr, false, "read");
  if (r.isSym) { V v = readSymArr(r.o, r.o->upd, r.offE, n); if (v.w > w) v = vE(mkExtract(toE(v), 0, w)); return v; }
  return readFixed(r.o, r.off, n, w);
}
static void store(const V& addr, const V& v0, unsigned n) {
  Ref r = resolve(addr, n, nullptr, true, "write");
  V v = v0; if (v.w < 8 * n && v.w <= 64) v = v.e ? vE(mkZExt(v.e, 8 * n)) : vC(8 * n, v.c);
  if (r.isSym) { writeSymArr(r.o->base, r.offE, n, toE(v)); return; }
  writeFixed(r.o->base, r.off, n, v);
}
static void copyMem(const V& dst, const V& src, const V& len, bool move) {
  V L = len;
  if (L.e) { auto it = S->known.find(L.e); if (it != S->known.end()) L = vC(64, it->second); }
  if (!L.e && L.c == 0) return;
  if (L.e) {
    // symbolic length: both sides must be symbolic-size objects, or we fork on the length
    auto isSymPtr = [&](const V& p) { uint64_t c = p.c; if (p.e) { c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(p.e, c, t); } return c >= SYM0 && c < STK0; };
    if (!isSymPtr(dst) || !isSymPtr(src)) { L = vC(64, concretize(L)); if (L.c == 0) return; }
    else {
      E le = L.e;
      int z = mustBe(mkEq(le, mkC(64, 0))); if (z == 1) return;
      Ref a = resolve(dst, 0, le, true, "memcpy destination"), b = resolve(src, 0, le, false, "memcpy source");
      auto snap = b.o; MemObj* o = writable(a.o->base); noteArrWrite(o);
      auto u = std::make_shared<Upd>(); u->kind = 2; u->off = a.offE; u->lenE = le; u->src = snap; u->srcOff = b.offE; u->next = o->upd; o->upd = u;
      return;
    }
  }
  uint64_t n = L.c;
  if (n > (1ull << 28)) failHere("memory-safety@" + odcFn(), "memcpy of " + std::to_string((int64_t)n) + " bytes");
  Ref b = resolve(src, n, nullptr, false, "memcpy source");
  Ref a = resolve(dst, n, nullptr, true, "memcpy destination");
  if (!a.isSym && !b.isSym) {
    if (!move && a.o == b.o && a.off != b.off && a.off < b.off + n && b.off < a.off + n) obligation("memory-safety@" + odcFn(), mkC(1, 0), "overlapping memcpy");
    ObjP so = b.o; MemObj* o = writable(a.o->base); noteWrite(a.o->base + a.off, n, o->birth);
    if (S->activeLoops && n > 8) { // log in 8-byte chunks so that pointers and scalars are recognised individually
      for (auto& f : S->fr) for (auto& l : f.loops) if (l.phase == 3 && o->birth < l.entrySeq) { l.writes.erase({a.o->base + a.off, (unsigned)n}); for (uint64_t k = 0; k < n;) { unsigned q = n - k >= 8 ? 8 : n - k >= 4 ? 4 : n - k >= 2 ? 2 : 1; l.writes.insert({a.o->base + a.off + k, q}); k += q; } }
    }
    if (so->base == o->base) { // possibly overlapping: via temporaries
      if (so.get() != o) { copyBytes(o, a.off, so.get(), b.off, n); return; }
      MemObj snap = *so; copyBytes(o, a.off, &snap, b.off, n); return;
    }
    copyBytes(o, a.off, so.get(), b.off, n);
    return;
  }
  if (a.isSym && b.isSym && n > 16) {
    MemObj* o = writable(a.o->base); noteArrWrite(o); auto u = std::make_shared<Upd>(); u->kind = 2; u->off = a.offE; u->lenE = mkC(64, n); u->src = b.o; u->srcOff = b.offE; u->next = o->upd; o->upd = u; return;
  }
  // piecewise
  std::vector<std::pair<uint64_t, V>> parts;
  for (uint64_t k = 0; k < n;) {
    unsigned q = n - k >= 8 ? 8 : n - k >= 4 ? 4 : n - k >= 2 ? 2 : 1;
    parts.push_back({k, b.isSym ? readSymArr(b.o, b.o->upd, mkAdd(b.offE, mkC(64, k)), q) : readFixed(b.o, b.off + k, q, 8 * q)}); k += q;
  }
  for (auto& p : parts) { unsigned q = p.second.w / 8; if (a.isSym) writeSymArr(a.o->base, mkAdd(a.offE, mkC(64, p.first)), q, toE(p.second)); else writeFixed(a.o->base, a.off + p.first, q, p.second); }
}
static void setMem(const V& dst, const V& byte, const V& len) {
  V L = len; if (L.e) { auto it = S->known.find(L.e); if (it != S->known.end()) L = vC(64, it->second); }
  if (!L.e && L.c == 0) return;
  E b = mkExtract(toE(byte), 0, 8);
  uint64_t c = dst.c; if (dst.e) { c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(dst.e, c, t); }
  if (c >= SYM0 && c < STK0) {
    E le = toE(L); if (L.e && mustBe(mkEq(le, mkC(64, 0))) == 1) return;
    Ref a = resolve(dst, 0, le, true, "memset"); MemObj* o = writable(a.o->base); noteArrWrite(o);
    if (!L.e && L.c <= 8) { std::vector<E> p(L.c, b); writeSymArr(a.o->base, a.offE, L.c, mkConcat(p)); return; }
    auto u = std::make_shared<Upd>(); u->kind = 1; u->off = a.offE; u->lenE = le; u->val = b; u->next = o->upd; o->upd = u; return;
  }
  uint64_t n = concretize(L); if (!n) return;
  if (n > (1ull << 28)) failHere("memory-safety@" + odcFn(), "memset of " + std::to_string((int64_t)n) + " bytes");
  Ref a = resolve(dst, n, nullptr, true, "memset");
  if (isC(b) && !a.isSym && n > 32 && !S->activeLoops) { std::vector<uint8_t> z(n, (uint8_t)b->aux); writeC(writable(a.o->base), a.off, z.data(), n); return; }
  for (uint64_t k = 0; k < n;) { unsigned q = n - k >= 8 ? 8 : n - k >= 4 ? 4 : n - k >= 2 ? 2 : 1; std::vector<E> p(q, b); writeFixed(a.o->base, a.off + k, q, vE(mkConcat(p))); k += q; }
}

// ---------------------------------------------------------------------------------------------------------------------
// globals and constants
static uint64_t globalAddr(const GlobalValue* g);
static void initConst(MemObj* o, uint64_t off, const Constant* c);
static Val constVal(const Constant* c);
static unsigned tyBytes(Type* t) { return DL->getTypeStoreSize(t); }
static unsigned tyBits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  if (auto* v = dyn_cast<FixedVectorType>(t)) return DL->getTypeSizeInBits(v);
  return 0;
}
static uint64_t fnNext = 0x10000;
static State* gInit;
static uint64_t globalAddr(const GlobalValue* g) {
  if (auto* al = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(al->getAliaseeObject()));
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto* f = dyn_cast<Function>(g)) { uint64_t a = fnNext; fnNext += 16; gaddr[g] = a; fnAt[a] = const_cast<Function*>(f); return a; }
  throw Unsupported{"global not laid out: " + g->getName().str()};
}
static uint64_t constPtr(const Constant* c) { Val v = constVal(c); if (v.v.e) throw Unsupported{"symbolic constant"}; return v.v.c; }
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return {vC(ci->getBitWidth(), ci->getZExtValue()), nullptr}; 
    std::vector<E> p; auto& av = ci->getValue(); unsigned bw = ci->getBitWidth(); for (unsigned i = (bw + 63) / 64; i-- > 0;) { unsigned wi = std::min(64u, bw - 64 * i); p.push_back(mkC(wi, av.extractBitsAsZExtValue(wi, 64 * i))); } return {vE(mkConcat(p)), nullptr}; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (!t->isDoubleTy() && !t->isFloatTy()) return {vC(64, 0), nullptr}; return {vC(tyBits(t), cf->getValueAPF().bitcastToAPInt().getZExtValue()), nullptr}; }
  if (isa<ConstantPointerNull>(c)) return {vC(64, 0), nullptr};
  if (auto* g = dyn_cast<GlobalValue>(c)) return {vC(64, globalAddr(g)), nullptr};
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    Val v; v.v = vC(1, 0); v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < n; i++) { Constant* el = c->getAggregateElement(i); v.agg->push_back(constVal(el)); }
    return v;
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned w = tyBits(t); if (w == 0) w = 64; if (w > 64) return {vE(mkC(w, 0)), nullptr}; return {vC(w, 0), nullptr}; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        return {vC(64, constPtr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue()), nullptr};
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: { Val v = constVal(ce->getOperand(0)); v.v.w = tyBits(t); v.v.c &= maskw(v.v.w); return v; }
      case Instruction::Sub: return {vC(tyBits(t), constPtr(ce->getOperand(0)) - constPtr(ce->getOperand(1))), nullptr};
      case Instruction::Add: return {vC(tyBits(t), constPtr(ce->getOperand(0)) + constPtr(ce->getOperand(1))), nullptr};
      case Instruction::Trunc: return {vC(tyBits(t), constPtr(ce->getOperand(0))), nullptr};
      case Instruction::ICmp: { uint64_t a = constPtr(ce->getOperand(0)), b = constPtr(ce->getOperand(1)); auto p = (CmpInst::Predicate)ce->getPredicate(); return {vC(1, p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : a < b), nullptr}; }
      default: throw Unsupported{std::string("constant expr ") + ce->getOpcodeName()};
    }
  }
  if (t->isVectorTy()) { std::vector<E> p; unsigned n = cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = n; i-- > 0;) p.push_back(toE(constVal(c->getAggregateElement(i)).v)); return {vE(mkConcat(p)), nullptr}; }
  throw Unsupported{"constant kind"};
}
static void initConst(MemObj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); writeC(o, off, r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i)); return; }
  if (t->isX86_FP80Ty()) return;
  Val v = constVal(c); uint64_t x = v.v.c; if (v.v.e) { for (unsigned i = 0; i < tyBytes(t); i++) setC(o, off + i, mkExtract(v.v.e, 8 * i, 8)->aux); return; }
  writeC(o, off, &x, std::min<unsigned>(8, tyBytes(t)));
}
static void layoutGlobals() {
  for (auto& F : *M) globalAddr(&F);
  std::vector<GlobalVariable*> gs;
  for (auto& G : M->globals()) {
    if (G.getName().startswith("llvm.")) continue;
    Type* t = G.getValueType(); uint64_t sz = t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 0;
    bool ext = G.isDeclaration(); if (ext && sz < 512) sz = 512;
    ObjP o = newObj(S->glob, sz, 'g', G.getName().str(), false);
    gaddr[&G] = o->base; o->ro = G.isConstant() && !ext; if (!ext) gs.push_back(&G);
    if (ext && !G.getName().startswith("_ZTI") && !G.getName().startswith("_ZTV")) o->un = true;
    if (G.getName() == "__libc_single_threaded") { o->un = false; setC(o.get(), 0, 1); }
  }
  for (auto* G : gs) { MemObj* o = writable(gaddr[G]); initConst(o, 0, G->getInitializer()); }
}

// ---------------------------------------------------------------------------------------------------------------------
// function compilation
static CFunc* compile(Function* F) {
  auto it = cfs.find(F); if (it != cfs.end()) return it->second.get();
  auto cf = std::make_unique<CFunc>(); cf->F = F; cf->dem = dem(F);
  std::unordered_map<const Value*, int> slot; int n = 0;
  for (auto& A : F->args()) slot[&A] = n++;
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  cf->nregs = n;
  std::unordered_map<const Value*, int> cs;
  auto opnd = [&](const Value* v) -> int {
    auto s = slot.find(v); if (s != slot.end()) return s->second;
    if (auto* c = dyn_cast<Constant>(v)) {
      auto k = cs.find(v); if (k != cs.end()) return k->second;
      Val x; try { x = constVal(c); } catch (Unsupported&) { x.v = vC(64, 0); }
      cf->consts.push_back(x); int id = -(int)cf->consts.size(); cs[v] = id; return id;
    }
    return INT_MIN;
  };
  for (auto& B : *F) {
    cf->bbStart[&B] = cf->code.size();
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      CInst c; c.opc = I.getOpcode(); c.I = &I; c.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; c.w = tyBits(I.getType()); c.goff = 0;
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        c.ops.push_back(opnd(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value* ix = gi.getOperand();
          if (auto* st = gi.getStructTypeOrNull()) c.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) c.goff += ci->getSExtValue() * sz; else c.gidx.push_back({opnd(ix), sz}); }
        }
      } else for (auto& o : I.operands()) c.ops.push_back(opnd(o.get()));
      cf->code.push_back(std::move(c));
    }
  }
  CFunc* r = cf.get(); cfs[F] = std::move(cf); return r;
}
static inline const Val& get(Frame& f, int op) { if (op >= 0) return f.r[op]; return f.cf->consts[-op - 1]; }

// ---------------------------------------------------------------------------------------------------------------------
// RTTI
static std::string tiName(uint64_t ti) { ObjP o = objAt(ti); return o ? o->name : "?"; }
static bool ldC(uint64_t a, uint64_t& v) { ObjP o = objAt(a); if (!o || o->sym || o->dead || a + 8 > o->base + o->size) return false; V x = readFixed(o, a - o->base, 8, 64); if (x.e) return false; v = x.c; return true; }
static const std::map<std::string, std::vector<std::string>>& stdBases() {
  static std::map<std::string, std::vector<std::string>> m = {
    {"_ZTISt11logic_error", {"_ZTISt9exception"}}, {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt8bad_cast", {"_ZTISt9exception"}},
    {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}}, {"_ZTISt12length_error", {"_ZTISt11logic_error"}}, {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}}, {"_ZTISt17bad_function_call", {"_ZTISt9exception"}}, {"_ZTISt12system_error", {"_ZTISt13runtime_error"}} };
  return m;
}
static void tiBases(uint64_t ti, std::vector<std::pair<uint64_t, int64_t>>& out) {
  ObjP o = objAt(ti); if (!o) return;
  auto it = stdBases().find(o->name);
  GlobalVariable* G = M->getGlobalVariable(o->name, true);
  if (!G || G->isDeclaration()) { if (it != stdBases().end()) for (auto& b : it->second) { auto* g = M->getGlobalVariable(b, true); if (g) out.push_back({gaddr[g], 0}); } return; }
  uint64_t vt; if (!ldC(ti, vt)) return; std::string vn = tiName(vt);
  if (vn.find("si_class") != std::string::npos) { uint64_t b; if (ldC(ti + 16, b)) out.push_back({b, 0}); }
  else if (vn.find("vmi_class") != std::string::npos) {
    V cnt = load(vC(64, ti + 20), 4, 32); for (unsigned i = 0; i < cnt.c; i++) { uint64_t b, f; if (ldC(ti + 24 + 16 * i, b) && ldC(ti + 32 + 16 * i, f)) out.push_back({b, (f & 1) ? 0 : (int64_t)f >> 8}); }
  }
}
static bool tiFind(uint64_t from, uint64_t to, int64_t& off, int depth = 0) {
  if (from == to || tiName(from) == tiName(to)) return true;
  if (depth > 20) return false;
  std::vector<std::pair<uint64_t, int64_t>> b; tiBases(from, b);
  for (auto& p : b) { int64_t o = off + p.second; if (tiFind(p.first, to, o, depth + 1)) { off = o; return true; } }
  return false;
}
static std::map<uint64_t, int> selId;
static int selector(uint64_t ti) { auto it = selId.find(ti); if (it != selId.end()) return it->second; int k = selId.size() + 1; return selId[ti] = k; }

// ---------------------------------------------------------------------------------------------------------------------
// control
static void enterBlock(Frame& f, BasicBlock* from, BasicBlock* to) {
  f.prev = from; f.pc = f.cf->bbStart[to];
  // leaving cut loops
  while (!f.loops.empty() && !f.loops.back().L->contains(to)) { f.loops.pop_back(); S->activeLoops--; }
  // phis
  unsigned pc = f.pc; std::vector<std::pair<int, Val>> tmp;
  while (pc < f.cf->code.size() && f.cf->code[pc].opc == Instruction::PHI) {
    auto* P = cast<PHINode>(f.cf->code[pc].I); int ix = P->getBasicBlockIndex(from);
    tmp.push_back({f.cf->code[pc].dst, get(f, f.cf->code[pc].ops[ix])}); pc++;
  }
  for (auto& t : tmp) f.r[t.first] = t.second;
  f.pc = pc;
}
static void popFrame() {
  Frame& f = S->fr.back();
  S->activeLoops -= f.loops.size();
  Region& K = S->stk(); K.o.resize(f.stackMark);
  K.next = K.o.empty() ? STK0 + S->ct * STKSPAN : ((K.o.back()->base + K.o.back()->size + 64 + 15) & ~15ull);
  S->fr.pop_back();
}
static void unwind() {
  // current exception in S->cur
  while (true) {
    InvokeInst* inv = S->fr.back().inv; popFrame();
    if (S->fr.empty()) { std::string n = tiName(S->cur.ti); failHere("no-uncaught-exception", "uncaught exception of type " + n + " thrown at " + S->thrownAt); }
    if (!inv) continue;
    Frame& f = S->fr.back(); BasicBlock* ud = inv->getUnwindDest(); LandingPadInst* lp = ud->getLandingPadInst();
    bool enter = lp->isCleanup(); int sel = 0;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) { auto* c = lp->getClause(i); uint64_t ti = constPtr(c); int64_t off = 0; if (ti == 0 || tiFind(S->cur.ti, ti, off)) { enter = true; sel = selector(ti); break; } }
      else { enter = true; sel = -1; break; }
    }
    if (!enter) continue;
    S->excs.push_back(S->cur);
    enterBlock(f, inv->getParent(), ud);
    // execute landingpad now
    unsigned pc = f.pc; while (f.cf->code[pc].opc != Instruction::LandingPad) pc++;
    Val v; v.v = vC(1, 0); v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back({vC(64, S->cur.obj), nullptr}); v.agg->push_back({vC(32, (uint32_t)sel), nullptr});
    f.r[f.cf->code[pc].dst] = v; f.pc = pc + 1;
    return;
  }
}
static void doThrow(uint64_t obj, uint64_t ti) { S->cur = {obj, ti}; S->thrownAt = where(); 
  // the throwing call may itself be an invoke in the current frame: emulate by a dummy frame
  Frame& f = S->fr.back(); const CInst& ci = f.cf->code[f.pc]; InvokeInst* inv = dyn_cast<InvokeInst>(ci.I);
  Frame d; d.cf = f.cf; d.pc = f.pc; d.stackMark = S->stk().o.size(); d.inv = inv; d.retDst = -1; d.prev = nullptr; S->fr.push_back(std::move(d));
  unwind();
}
static void pushCall(Function* F, std::vector<Val> args, int retDst, InvokeInst* inv) {
  if (S->fr.size() > 400) throw Unsupported{"call depth at " + where()};
  CFunc* cf = compile(F);
  if (enteredFns.size() < 20000) { static std::unordered_set<Function*> seen; if (seen.insert(F).second && (cf->dem.find("odc::") != std::string::npos || cf->dem.compare(0, 4, "odc_") == 0)) enteredFns.insert(cf->dem); }
  Frame f; f.cf = cf; f.pc = 0; f.r.resize(cf->nregs); f.stackMark = S->stk().o.size(); f.retDst = retDst; f.inv = inv; f.prev = nullptr;
  unsigned n = F->arg_size();
  for (unsigned i = 0; i < args.size(); i++) {
    if (i < n) {
      f.r[i] = args[i];
      if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(t); S->fr.push_back(std::move(f)); ObjP o = newObj(S->stk(), sz, 's', "byval", true); copyMem(vC(64, o->base), args[i].v, vC(64, sz), true); f = std::move(S->fr.back()); S->fr.pop_back(); f.r[i] = {vC(64, o->base), nullptr}; }
    } else f.varargs.push_back(args[i]);
  }
  S->fr.push_back(std::move(f));
}
static void finishCall(Frame& f, const CInst& ci, const Val* ret) {   // for handled externals: store the result and advance
  if (ret && ci.dst >= 0) f.r[ci.dst] = *ret;
  if (auto* inv = dyn_cast<InvokeInst>(ci.I)) enterBlock(f, inv->getParent(), inv->getNormalDest());
  else f.pc++;
}

// ---------------------------------------------------------------------------------------------------------------------
// externals
typedef std::function<bool(Frame&, const CInst&, CallBase*, std::vector<Val>&, Val&)> Ext; // true: finishCall with ret
static std::map<std::string, Ext> ext;
static std::string cstr(const V& p) {
  std::string s; uint64_t a = concretize(p);
  for (int i = 0; i < 4096; i++) { ObjP o = objAt(a); if (!o) break; V b = load(vC(64, a + i), 1, 8); if (b.e) { b = vC(8, concretize(b)); } if (!b.c) break; s += (char)b.c; }
  return s;
}
static std::string uniq(const std::string& n) { int k = S->inputCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static void addInput(const std::string& n, E e) { S->inputs.push_back({n, e}); }
static Function* fnOf(uint64_t a) { auto it = fnAt.find(a); return it == fnAt.end() ? nullptr : it->second; }

static bool isOpaqueName(const std::string& d) {
  static const char* pre[] = {"std::basic_ostream", "std::ostream::", "std::ostream&", "std::basic_ios", "std::ios_base", "std::basic_istream", "std::istream", "std::__cxx11::basic_stringstream", "std::__cxx11::basic_ostringstream", "std::__cxx11::basic_istringstream",
    "std::__ostream_insert", "std::ios_base", "std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream", "std::basic_streambuf", "std::__cxx11::basic_stringbuf", "std::locale", "std::__basic_file", "std::basic_filebuf", nullptr};
  for (auto p = pre; *p; ++p) if (d.compare(0, strlen(*p), *p) == 0) return true;
  if (d.find("operator<<") != std::string::npos && (d.find("std::basic_ostream<") != std::string::npos || d.find("std::ostream") != std::string::npos)) return true;
  if (d.find("std::endl<") != std::string::npos || d.find("std::flush<") != std::string::npos || d.find("std::setw") == 0 || d.find("std::setprecision") == 0 || d.find("std::setfill") == 0) return true;
  if (d.find("eckit::Log::") != std::string::npos) return true;
  return false;
}
static std::unordered_map<Function*, char> opq;
// (the reading of lines has a model: models/eckitcsv.cc)
static bool lineReading(Function* F) {
  StringRef n = F->getName();
  return n.starts_with("_ZSt7getlineIc") || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv" || n == "_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv";
}
static bool isOpaque(Function* F) { auto it = opq.find(F); if (it != opq.end()) return it->second; bool r = isOpaqueName(dem(F)) && !lineReading(F); opq[F] = r; return r; }
static uint64_t opaqueObj = 0;
static Val opaqueCall(Frame& f, CallBase* cb, Function* F, std::vector<Val>& a) {
  opaqueFns.insert(dem(F).substr(0, 120));
  if (F->arg_size() && F->hasParamAttribute(0, Attribute::StructRet)) {
    // std::string result: produce an empty string (SSO)
    uint64_t p = concretize(a[0].v); Type* st = F->getParamStructRetType(0);
    uint64_t sz = st ? (uint64_t)DL->getTypeAllocSize(st) : 32;
    if (sz == 32) { store(vC(64, p), vC(64, p + 16), 8); store(vC(64, p + 8), vC(64, 0), 8); store(vC(64, p + 16), vC(8, 0), 1); }
    return {vC(64, p), nullptr};
  }
  Type* rt = cb->getType();
  if (rt->isVoidTy() && a.size() && dem(F).find("stream(") != std::string::npos && (dem(F).find("std::__cxx11::basic_") == 0 || dem(F).find("::basic_istream(") != std::string::npos) && dem(F).find("::~") == std::string::npos) {
    // constructor of a string stream: its table of functions, so that the way to the virtual base (at distance 0 here) can be read
    uint64_t t = newObj(S->heap, 128, 'h', "opaque", true)->base, p = concretize(a[0].v);
    for (int i = 0; i < 128; i += 8) store(vC(64, t + i), vC(64, 0), 8);
    store(vC(64, p), vC(64, t + 64), 8); if (dem(F).find("std::__cxx11::basic_stringstream") == 0) store(vC(64, p + 16), vC(64, t + 64), 8);
  }
  if (rt->isVoidTy()) return {vC(1, 0), nullptr};
  if (rt->isPointerTy()) { if (!a.empty() && cb->getArgOperand(0)->getType()->isPointerTy() && (dem(F).find("operator<<") != std::string::npos || dem(F).find("endl") != std::string::npos || dem(F).find("::operator") != std::string::npos)) return a[0]; if (!opaqueObj) opaqueObj = 0; uint64_t o = newObj(S->heap, 1024, 'h', "opaque", true)->base; return {vC(64, o), nullptr}; }
  unsigned w = tyBits(rt); if (rt->isStructTy()) { Val v; v.v = vC(1, 0); v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < rt->getStructNumElements(); i++) { unsigned wi = tyBits(rt->getStructElementType(i)); v.agg->push_back({vE(mkSym(wi ? wi : 64, "opaque")), nullptr}); } return v; }
  return {vE(mkSym(w, "opaque")), nullptr};
}
static uint64_t doAlloc(const V& size, const std::string& nm) {
  if (size.e) {
    auto it = S->known.find(size.e); if (it != S->known.end()) return newHeap(it->second, nm);
    E big = mkUlt(mkC(64, SYMMAX), size.e);
    if (mustBe(big) == 0) { return newSym(size.e, nm, true)->base; }
    if (!decide(big, [](State&, bool) {})) return newSym(size.e, nm, true)->base;
    return 0;
  }
  if (size.c > (1ull << 30)) return 0;
  return newHeap(size.c, nm);
}
static void throwStd(const char* ti, Frame& f) {
  auto* g = M->getGlobalVariable(ti, true); if (!g) throw Unsupported{std::string("typeinfo missing: ") + ti};
  uint64_t o = newHeap(64, "exception"); doThrow(o, gaddr[g]);
}
static void freeObj(const V& p) {
  uint64_t a = concretize(p); if (!a) return;
  ObjP o = objAt(a);
  if (!o || o->base != a || o->dead || (o->kind != 'h' && o->kind != 'y')) failHere("memory-safety@" + odcFn(), "invalid or double free");
  Region& R = regionOf(a); size_t i = idxIn(R, a);
  if (i + 1 == R.o.size() && !S->activeLoops && R.o.size() > 1) { R.o.pop_back(); return; }
  MemObj* w = writable(a); w->dead = true; w->pg.clear(); w->pg.shrink_to_fit(); w->upd = nullptr;
}
static void registerExt() {
#define EXT(n) ext[n] = [](Frame & f, const CInst& ci, CallBase* cb, std::vector<Val>& a, Val& ret) -> bool
  auto newf = [](Frame& f, const CInst& ci, CallBase* cb, std::vector<Val>& a, Val& ret) -> bool { uint64_t p = doAlloc(a[0].v, "new@" + odcFn()); if (!p) { throwStd("_ZTISt9bad_alloc", f); return false; } ret = {vC(64, p), nullptr}; return true; };
  ext["_Znwm"] = newf; ext["_Znam"] = newf; ext["_ZnwmSt11align_val_t"] = newf;
  EXT("_ZnwmRKSt9nothrow_t") { uint64_t p = doAlloc(a[0].v, "new"); ret = {vC(64, p), nullptr}; return true; }; ext["_ZnamRKSt9nothrow_t"] = ext["_ZnwmRKSt9nothrow_t"];
  EXT("malloc") { uint64_t p = doAlloc(a[0].v, "malloc"); ret = {vC(64, p), nullptr}; return true; };
  EXT("calloc") { uint64_t n = concretize(a[0].v) * concretize(a[1].v); uint64_t p = newObj(S->heap, n, 'h', "calloc", false)->base; ret = {vC(64, p), nullptr}; return true; };
  for (const char* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) EXT(n) { freeObj(a[0].v); return true; };
  EXT("memcpy") { copyMem(a[0].v, a[1].v, a[2].v, false); ret = a[0]; return true; }; EXT("memmove") { copyMem(a[0].v, a[1].v, a[2].v, true); ret = a[0]; return true; };
  EXT("memset") { setMem(a[0].v, a[1].v, a[2].v); ret = a[0]; return true; };
  EXT("__cxa_allocate_exception") { ret = {vC(64, newHeap(concretize(a[0].v), "exception")), nullptr}; return true; };
  EXT("__cxa_free_exception") { return true; };
  EXT("__cxa_throw") { doThrow(concretize(a[0].v), concretize(a[1].v)); return false; };
  EXT("__cxa_begin_catch") { uint64_t p = concretize(a[0].v); Exc e = S->cur; for (auto& x : S->excs) if (x.obj == p) e = x; S->caught.push_back(e); ret = {vC(64, p), nullptr}; return true; };
  EXT("__cxa_end_catch") { if (!S->caught.empty()) S->caught.pop_back(); return true; };
  EXT("__cxa_get_exception_ptr") { ret = a[0]; return true; };
  EXT("__cxa_rethrow") { if (S->caught.empty()) failHere("no-terminate", "rethrow without exception"); Exc e = S->caught.back(); doThrow(e.obj, e.ti); return false; };
  EXT("__cxa_pure_virtual") { failHere("no-terminate", "pure virtual call"); };
  for (const char* n : {"_ZSt9terminatev", "abort", "exit", "_exit", "__assert_fail"}) EXT(n) { failHere("no-terminate", "program terminates: " + cb->getCalledOperand()->getName().str()); };
  EXT("__cxa_guard_acquire") { if (S->stks.size() > 1) hbAcquire(a[0].v.c); V g = load(a[0].v, 1, 8); uint64_t x = concretize(g); ret = {vC(32, x ? 0 : 1), nullptr}; return true; };
  EXT("__cxa_guard_release") { if (S->stks.size() > 1) hbRelease(a[0].v.c); store(a[0].v, vC(8, 1), 1); return true; };
  EXT("__cxa_guard_abort") { return true; };
  for (const char* n : {"__cxa_atexit", "atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"}) EXT(n) { ret = {vC(32, 0), nullptr}; return true; };
  EXT("_ZSt18uncaught_exceptionv") { ret = {vC(1, 0), nullptr}; return true; };
  EXT("_ZSt19uncaught_exceptionsv") { ret = {vC(32, 0), nullptr}; return true; };
  EXT("getenv") { ret = {vC(64, 0), nullptr}; return true; };
  EXT("__errno_location") { static std::map<int, int> z; auto* g = M->getGlobalVariable("v_errno", true); if (!g) throw Unsupported{"errno"}; ret = {vC(64, gaddr[g]), nullptr}; return true; };
  EXT("__dynamic_cast") {
    uint64_t p = concretize(a[0].v); uint64_t dst = concretize(a[2].v);
    if (!p) { ret = {vC(64, 0), nullptr}; return true; }
    uint64_t vp, ti, top; if (!ldC(p, vp) || !ldC(vp - 8, ti) || !ldC(vp - 16, top)) throw Unsupported{"dynamic_cast on opaque object"};
    uint64_t full = p + top; int64_t off = 0;
    if (tiFind(ti, dst, off)) ret = {vC(64, full + off), nullptr}; else ret = {vC(64, 0), nullptr};
    return true; };
  // ---- verification interface
  EXT("v_u64") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(64, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_u32") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(32, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_u16") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(16, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_u8") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(8, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_bool") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(1, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_range") { std::string n = uniq(cstr(a[0].v)); int64_t lo = (int64_t)concretize(a[1].v), hi = (int64_t)concretize(a[2].v); E e = mkSym(64, n, lo, hi); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_intd") { std::string n = uniq(cstr(a[0].v)); int64_t lo = (int64_t)concretize(a[1].v), hi = (int64_t)concretize(a[2].v); E e = mkSym(64, n, lo, hi); addInput(n, e); ret = {vE(mkFConv(Op::SI2F, e, 64)), nullptr}; return true; };
  EXT("v_double") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(64, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_float") { std::string n = uniq(cstr(a[0].v)); E e = mkSym(32, n); addInput(n, e); ret = {vE(e), nullptr}; return true; };
  EXT("v_bytes") { std::string n = uniq(cstr(a[2].v)); uint64_t k = concretize(a[1].v), p = concretize(a[0].v); for (uint64_t i = 0; i < k; i++) { std::string m = n + "[" + std::to_string(i) + "]"; E e = mkSym(8, m); addInput(m, e); store(vC(64, p + i), vE(e), 1); } return true; };
  EXT("v_symbuf") { std::string n = uniq(cstr(a[0].v)); E sz = toE(a[1].v); ObjP o = newSym(sz, n, false); ret = {vC(64, o->base), nullptr}; return true; };
  EXT("v_havoc_buf") { uint64_t p = concretize(a[0].v); MemObj* o = writable(p); if (!o->sym) throw Unsupported{"v_havoc_buf"}; noteArrWrite(o); o->upd = nullptr; o->arr = S->nextArr++; return true; };
  EXT("v_objsize") { V p = a[0].v; uint64_t c = p.c; if (p.e) { c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(p.e, c, t); } ObjP o = objAt(c); if (!o) throw Unsupported{"v_objsize"}; ret = {o->sym ? vE(o->sizeE) : vC(64, o->size), nullptr}; return true; };
  EXT("v_choose") { std::string n = uniq(cstr(a[0].v)); uint64_t k = concretize(a[1].v); E e = mkSym(64, n, 0, (int64_t)k - 1); addInput(n, e);
    for (uint64_t i = 1; i < k; i++) { auto o = cloneState(); State* sv = S; S = o.get(); E c = mkEq(e, mkC(64, i)); addPC(c); S->model = nullptr; S->known[e] = i; Frame& g = S->fr.back(); Val rv{vC(64, i), nullptr}; finishCall(g, g.cf->code[g.pc], &rv); S = sv; work.push_back(std::move(o)); }
    addPC(mkEq(e, mkC(64, 0))); S->model = nullptr; S->known[e] = 0; ret = {vC(64, 0), nullptr}; return true; };
  EXT("v_concretize") { ret = {vC(64, concretize(a[0].v)), nullptr}; return true; };
  EXT("v_assume") { E c = toE(a[0].v); if (c->w != 1) c = mkNot(mkEq(c, mkC(c->w, 0))); int m = mustBe(c); if (m == 0) throw PathEnd{"assume"}; if (m < 0) { addPC(c); bool mv; if (!(S->model && modelEvalBool(S->model, c, mv) && mv)) { S->model = nullptr; if (query({c}, nullptr) == Sat::Unsat) throw PathEnd{"assume"}; } } return true; };
  EXT("v_check") { E c = toE(a[0].v); if (c->w != 1) c = mkNot(mkEq(c, mkC(c->w, 0))); obligation(cstr(a[1].v), c, "check"); return true; };
  EXT("v_fail") { failHere(cstr(a[0].v), "v_fail reached"); };
  EXT("v_cover") { covers[cstr(a[0].v)]++; return true; };
  EXT("v_native") { ret = {vC(1, 0), nullptr}; return true; };
  EXT("v_spawn") {   // a new task that starts in fn(arg) when it is first switched to; returns its number
    if (!S->loops.empty()) throw Unsupported{"tasks and loop contracts together"};
    Function* F = fnOf(concretize(a[0].v)); unsigned k = S->stks.size(); Val arg = a[1];
    if (k == 1) { S->race.vc.assign(1, {1}); S->ctx.resize(1); }
    if (k > 200) throw Unsupported{"too many tasks"};
    S->stks.emplace_back(); S->stks[k].next = STK0 + k * STKSPAN; S->ctx.emplace_back();
    auto& me = S->race.vc[S->ct]; std::vector<uint32_t> v = me; v.resize(k + 1, 0); v[k] = 1; me[S->ct]++; S->race.vc.push_back(v);
    std::vector<Frame> mine; mine.swap(S->fr); unsigned ct = S->ct; S->ct = k; pushCall(F, {arg}, -1, nullptr); S->ctx[k].fr.swap(S->fr); S->fr.swap(mine); S->ct = ct;
    ret = {vC(32, k), nullptr}; return true; };
  EXT("v_switch") {
    unsigned k = concretize(a[0].v); if (k >= S->ctx.size() || k == S->ct || S->ctx[k].fr.empty()) throw Unsupported{"switch to a task that is not there"};
    finishCall(f, ci, nullptr);
    auto park = [&](Ctx& c) { c.fr.swap(S->fr); c.caught.swap(S->caught); std::swap(c.cur, S->cur); c.thrownAt.swap(S->thrownAt); };
    park(S->ctx[S->ct]); S->ct = k; park(S->ctx[k]); return false; };
  EXT("v_norace") { S->noRace += (int)sext(concretize(a[0].v), 32); return true; };
  EXT("v_acquire") { if (S->stks.size() > 1) hbAcquire(concretize(a[0].v)); return true; };
  EXT("v_release") { if (S->stks.size() > 1) hbRelease(concretize(a[0].v)); return true; };
  EXT("v_stop") { throw PathEnd{"stop"}; };
  EXT("v_trace") { if (optVerbose) { std::cerr << "TRACE " << cstr(a[0].v) << " " << str(toE(a[1].v), 8) << "\n"; } return true; };
  EXT("v_replace") { std::string n = cstr(a[0].v); S->repl[n] = concretize(a[1].v); return true; };
  EXT("v_is_sat") { ret = {vC(1, mustBe(toE(a[0].v)) != 0), nullptr}; return true; };
  EXT("v_must") { E c = toE(a[0].v); ret = {vC(1, mustBe(c) == 1), nullptr}; return true; };
  EXT("v_loop") { auto* l = new LoopCfg(); l->fn = cstr(a[0].v); l->which = (int)sext(concretize(a[1].v), 32); l->inv = fnOf(concretize(a[2].v)); l->tag = cstr(a[3].v); S->loops.push_back(l); return true; };
  EXT("v_iter") {
    for (size_t i = S->fr.size(); i-- > 0;) if (!S->fr[i].loops.empty()) { auto& l = S->fr[i].loops.back(); if (l.phase == 1 || !l.n) ret = {vC(64, 0), nullptr}; else if (l.phase == 4) ret = {vE(mkAdd(l.n, mkC(64, 1))), nullptr}; else ret = {vE(l.n), nullptr}; return true; }
    throw Unsupported{"v_iter outside a loop with a contract"};
  };
  EXT("v_ghost") { S->ghosts.push_back({concretize(a[0].v), (unsigned)concretize(a[1].v)}); return true; };
}

// ---------------------------------------------------------------------------------------------------------------------
// loop contracts
struct CellCand { std::string kind; uint64_t param; };             // "ghost" idx, "affine" delta, "same", "fresh"
struct LoopKnow { std::map<std::pair<uint64_t, unsigned>, std::set<std::string>> refuted; std::set<std::pair<uint64_t, unsigned>> mods; std::set<uint64_t> arrs; std::map<std::pair<uint64_t, unsigned>, int64_t> delta; };
static std::map<std::string, LoopKnow> know;
struct CellDef { std::pair<uint64_t, unsigned> cell; std::string kind; E entry; };
static std::map<std::string, bool> loopUsed;

static bool isPtrLike(const V& v, uint64_t& base) {
  if (v.w != 64) return false; uint64_t c = v.c; if (v.e) { c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(v.e, c, t); }
  if (c < GLOB0) return false; ObjP o = objAt(c); if (!o || c > o->base + (o->sym ? SYMSPAN : o->size)) return false; base = o->base; return true;
}
static V cellRead(std::pair<uint64_t, unsigned> c) { ObjP o = objAt(c.first); return readFixed(o, c.first - o->base, c.second, 8 * c.second); }
static bool ghostCell(std::pair<uint64_t, unsigned> c) { for (auto& g : S->ghosts) if (c.first >= g.first && c.first < g.first + g.second) return true; return false; }
static E fit(E g, unsigned w) { if (g->w == w) return g; if (g->w > w) return mkExtract(g, 0, w); return mkSExt(g, w); }

static std::vector<std::string> candsFor(const std::string& key, std::pair<uint64_t, unsigned> c, const V& entry) {
  std::vector<std::string> r; LoopKnow& K = know[key];
  uint64_t b; bool ptr = isPtrLike(entry, b);
  if (ghostCell(c)) return {"fresh"};
  r.push_back("same");
  if (!ptr) for (size_t i = 0; i < S->ghosts.size(); i++) if (S->ghosts[i].second <= 8) r.push_back("ghost" + std::to_string(i));
  if (K.delta.count(c) && K.delta[c] != INT64_MIN) r.push_back("affine");
  if (ptr) { r.push_back("ptr"); }
  r.push_back("fresh");
  std::vector<std::string> out; for (auto& x : r) if (!K.refuted[c].count(x)) out.push_back(x);
  return out;
}
static E candExpr(const std::string& k, const std::string& key, std::pair<uint64_t, unsigned> c, E entry, E n) {
  unsigned w = 8 * c.second;
  if (k == "same") return entry;
  if (k.compare(0, 5, "ghost") == 0) { auto& g = S->ghosts[atoi(k.c_str() + 5)]; return fit(toE(load(vC(64, g.first), g.second, 8 * g.second)), w); }
  if (k == "affine") return mkAdd(entry, mkMul(fit(n, w), mkC(w, (uint64_t)know[key].delta[c])));
  return nullptr;
}
static std::map<const void*, std::vector<CellDef>> dummy;
struct LoopDefs { std::vector<CellDef> defs; };
static std::map<std::string, LoopDefs> curDefs;   // keyed by loop key + path-unique id
static uint64_t loopSeq = 0;

static void callInv(LoopCfg* cfg, int mode) { pushCall(cfg->inv, {Val{vC(32, (uint64_t)mode), nullptr}}, -1, nullptr); }

// called when control is about to execute the first instruction of a loop header; returns true if a frame was pushed / path must re-dispatch
static bool loopHook(Frame& f, BasicBlock* bb) {
  if (S->loops.empty()) return false;
  CFunc* cf = f.cf;
  LoopCfg* cfg = nullptr; Loop* L = nullptr;
  for (auto* c : S->loops) if (c->fn[0] == '*' ? cf->dem.find(c->fn.substr(1)) != std::string::npos : cf->dem.compare(0, c->fn.size(), c->fn) == 0) {
    if (!cf->LI) { cf->DT = std::make_unique<DominatorTree>(*cf->F); cf->LI = std::make_unique<LoopInfo>(*cf->DT); }
    Loop* l = cf->LI->getLoopFor(bb); if (!l || l->getHeader() != bb) continue;
    // ordinal among loops whose body (transitively, statically) mentions the tag; which: n-th such loop in depth-first order
    std::vector<Loop*> all; std::function<void(Loop*)> rec = [&](Loop* x) { all.push_back(x); std::vector<Loop*> sub(x->getSubLoops().begin(), x->getSubLoops().end()); std::sort(sub.begin(), sub.end(), [&](Loop* p, Loop* q) { return cf->bbStart[p->getHeader()] < cf->bbStart[q->getHeader()]; }); for (auto* s : sub) rec(s); };
    std::vector<Loop*> tops(cf->LI->begin(), cf->LI->end()); std::sort(tops.begin(), tops.end(), [&](Loop* p, Loop* q) { return cf->bbStart[p->getHeader()] < cf->bbStart[q->getHeader()]; });
    for (auto* t : tops) rec(t);
    std::vector<Loop*> match;
    for (auto* x : all) {
      bool hit = c->tag.empty();
      for (auto* b : x->blocks()) for (auto& I : *b) if (auto* cb = dyn_cast<CallBase>(&I)) if (Function* cfn = cb->getCalledFunction()) if (!c->tag.empty() && dem(cfn).find(c->tag) != std::string::npos) hit = true;
      if (hit) match.push_back(x);
    }
    if (c->which < (int)match.size() && match[c->which] == l) { cfg = c; L = l; break; }
  }
  if (!cfg) return false;
  std::string key = cf->dem + "#" + cfg->tag + std::to_string(cfg->which);
  LoopRun* run = nullptr; for (auto& r : f.loops) if (r.L == L) run = &r;
  if (!run) {
    loopUsed[key] = true;
    LoopRun r; r.cfg = cfg; r.L = L; r.phase = 1; r.entrySeq = S->seq; r.key = key; r.n = nullptr;
    f.loops.push_back(r); S->activeLoops++;
    callInv(cfg, 0);
    return true;
  }
  LoopKnow& K = know[key];
  if (run->phase == 1) {
    // havoc
    run->entrySeq = S->seq; run->n = mkSym(64, "iter", 0, 1ll << 40); 
    std::vector<CellDef> defs;
    std::vector<std::pair<uint64_t, unsigned>> cells(K.mods.begin(), K.mods.end());
    std::stable_sort(cells.begin(), cells.end(), [&](auto& a, auto& b) { return ghostCell(a) > ghostCell(b); });
    std::vector<std::pair<std::pair<uint64_t, unsigned>, E>> entries;
    // entry values and validity of definitional candidates at entry
    for (auto& c : cells) {
      ObjP o = objAt(c.first); if (!o || o->dead || o->sym || c.first + c.second > o->base + o->size || o->birth >= run->entrySeq) continue;
      V ev = cellRead(c); E entry = toE(ev);
      for (auto& k : candsFor(key, c, ev)) if (k.compare(0, 5, "ghost") == 0) { E x = candExpr(k, key, c, entry, run->n); if (mustBe(mkEq(x, entry)) != 1) K.refuted[c].insert(k); }
      entries.push_back({c, entry});
    }
    for (uint64_t b : K.arrs) { ObjP o = objAt(b); if (o && o->base == b && o->sym && !o->dead) { MemObj* w = writable(b); w->upd = nullptr; w->arr = S->nextArr++; } }
    for (auto& ce : entries) {
      auto c = ce.first; V ev = vE(ce.second); auto cs = candsFor(key, c, ev); std::string k = cs.empty() ? "fresh" : cs[0]; E x = candExpr(k, key, c, ce.second, run->n);
      unsigned w = 8 * c.second;
      if (k == "ptr") { uint64_t b = 0; isPtrLike(ev, b); ObjP o = objAt(b); x = mkAdd(mkC(64, b), mkSym(64, "off@" + o->name, 0, o->sym ? (int64_t)SYMMAX : (int64_t)o->size)); }
      if (!x) { int64_t lo, hi; lo = w >= 64 ? INT64_MIN : -(1ll << (w - 1)); hi = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; x = mkSym(w, "havoc" + std::to_string(loopSeq++), lo, hi); }
      ObjP o = objAt(c.first); writeFixed(o->base, c.first - o->base, c.second, vE(x));
      defs.push_back({c, k, ce.second});
    }
    S->model = nullptr; run->phase = 2; run->writes.clear(); run->arrWrites.clear();
    run->key = key + "@" + std::to_string(loopSeq++); curDefs[run->key].defs = defs;
    for (size_t i = 0; i < f.loops.size(); i++) if (&f.loops[i] == run) { run = &f.loops[i]; }
    callInv(cfg, 1);
    return true;
  }
  if (run->phase == 2) { run->phase = 3; run->entrySeq = S->seq; return false; }
  if (run->phase == 3) {
    // back edge: check candidate definitions
    std::string rk = run->key; auto& defs = curDefs[rk].defs;
    E n1 = mkAdd(run->n, mkC(64, 1));
    auto writes = run->writes; auto arrW = run->arrWrites;
    for (auto& w : writes) {
      ObjP o = objAt(w.first); if (!o || o->dead) continue;
      bool inK = K.mods.count(w);
      if (!inK) {
        // ignore writes that are covered by the same cell with other granularity only when identical
        K.mods.insert(w); needRestart = true;
      }
    }
    for (uint64_t b : arrW) if (!K.arrs.count(b)) { K.arrs.insert(b); needRestart = true; }
    for (auto& d : defs) {
      ObjP o = objAt(d.cell.first); if (!o || o->dead) continue;
      V now = cellRead(d.cell);
      if (!K.delta.count(d.cell)) { // learn a stride from the first iteration that starts from the entry value
        E df = mkSub(toE(now), d.entry); K.delta[d.cell] = (d.kind == "same" && isC(df)) ? sext(df->aux, df->w) : INT64_MIN; if (d.kind == "same" && isC(df) && df->aux == 0) K.delta.erase(d.cell);
      }
      if (d.kind == "fresh") continue;
      if (d.kind == "ptr") { uint64_t b1, b2; V ev = vE(d.entry); if (!isPtrLike(now, b1) || !isPtrLike(ev, b2) || b1 != b2) { K.refuted[d.cell].insert("ptr"); needRestart = true; } continue; }
      E x = candExpr(d.kind, key, d.cell, d.entry, n1);
      if (mustBe(mkEq(x, toE(now))) != 1) { K.refuted[d.cell].insert(d.kind); needRestart = true; if (optVerbose) std::cerr << "refuted " << d.kind << " for cell " << std::hex << d.cell.first << std::dec << "(" << (objAt(d.cell.first)->name) << ") now=" << str(toE(now), 6) << "\n"; }
    }
    if (needRestart) throw PathEnd{"restart"};
    run->phase = 4; callInv(cfg, 2); return true;
  }
  if (run->phase == 4) throw PathEnd{"loop iteration done"};
  return false;
}

// ---------------------------------------------------------------------------------------------------------------------
static V binop(unsigned opc, const V& a, const V& b) {
  unsigned w = a.w;
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sext(x, w), sy = sext(y, w);
    switch (opc) {
      case Instruction::Add: return vC(w, x + y); case Instruction::Sub: return vC(w, x - y); case Instruction::Mul: return vC(w, x * y);
      case Instruction::And: return vC(w, x & y); case Instruction::Or: return vC(w, x | y); case Instruction::Xor: return vC(w, x ^ y);
      case Instruction::Shl: return vC(w, y >= w ? 0 : x << y); case Instruction::LShr: return vC(w, y >= w ? 0 : x >> y); case Instruction::AShr: return vC(w, (uint64_t)(sx >> std::min<uint64_t>(y, 63)));
      case Instruction::UDiv: if (!y) failHere("no-division-by-zero", "udiv"); return vC(w, x / y);
      case Instruction::URem: if (!y) failHere("no-division-by-zero", "urem"); return vC(w, x % y);
      case Instruction::SDiv: if (!y) failHere("no-division-by-zero", "sdiv"); if (sy == -1) return vC(w, 0 - x); return vC(w, (uint64_t)(sx / sy));
      case Instruction::SRem: if (!y) failHere("no-division-by-zero", "srem"); if (sy == -1) return vC(w, 0); return vC(w, (uint64_t)(sx % sy));
    }
  }
  E x = toE(a), y = toE(b);
  switch (opc) {
    case Instruction::Add: return vE(mkAdd(x, y)); case Instruction::Sub: return vE(mkSub(x, y)); case Instruction::Mul: return vE(mkMul(x, y));
    case Instruction::And: return vE(mkBin(Op::And, x, y)); case Instruction::Or: return vE(mkBin(Op::Or, x, y)); case Instruction::Xor: return vE(mkBin(Op::Xor, x, y));
    case Instruction::Shl: return vE(mkBin(Op::Shl, x, y)); case Instruction::LShr: return vE(mkBin(Op::LShr, x, y)); case Instruction::AShr: return vE(mkBin(Op::AShr, x, y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (!isC(y) || y->aux == 0) obligation("no-division-by-zero", mkNot(mkEq(y, mkC(w, 0))), "division");
      return vE(mkBin(opc == Instruction::UDiv ? Op::UDiv : opc == Instruction::URem ? Op::URem : opc == Instruction::SDiv ? Op::SDiv : Op::SRem, x, y));
  }
  throw Unsupported{"binop"};
}
static V icmp(CmpInst::Predicate p, const V& a, const V& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = sext(x, a.w), sy = sext(y, a.w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; }
    return vC(1, r);
  }
  E x = toE(a), y = toE(b);
  switch (p) { case CmpInst::ICMP_EQ: return vE(mkEq(x, y)); case CmpInst::ICMP_NE: return vE(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return vE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return vE(mkUle(x, y)); case CmpInst::ICMP_UGT: return vE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return vE(mkUle(y, x)); case CmpInst::ICMP_SLT: return vE(mkSlt(x, y)); case CmpInst::ICMP_SLE: return vE(mkSle(x, y)); case CmpInst::ICMP_SGT: return vE(mkSlt(y, x)); default: return vE(mkSle(y, x)); }
}
static V fcmp(CmpInst::Predicate p, const V& a, const V& b) {
  E x = toE(a), y = toE(b); auto eq = [&] { return mkFCmp(Op::FOeq, x, y); }; auto un = [&] { return mkFCmp(Op::FUno, x, y); };
  switch (p) {
    case CmpInst::FCMP_OEQ: return vE(eq()); case CmpInst::FCMP_OGT: return vE(mkFCmp(Op::FOlt, y, x)); case CmpInst::FCMP_OGE: return vE(mkFCmp(Op::FOle, y, x)); case CmpInst::FCMP_OLT: return vE(mkFCmp(Op::FOlt, x, y)); case CmpInst::FCMP_OLE: return vE(mkFCmp(Op::FOle, x, y));
    case CmpInst::FCMP_ONE: return vE(mkAnd(mkNot(un()), mkNot(eq()))); case CmpInst::FCMP_ORD: return vE(mkNot(un())); case CmpInst::FCMP_UEQ: return vE(mkOr(un(), eq()));
    case CmpInst::FCMP_UGT: return vE(mkNot(mkFCmp(Op::FOle, x, y))); case CmpInst::FCMP_UGE: return vE(mkNot(mkFCmp(Op::FOlt, x, y))); case CmpInst::FCMP_ULT: return vE(mkNot(mkFCmp(Op::FOle, y, x))); case CmpInst::FCMP_ULE: return vE(mkNot(mkFCmp(Op::FOlt, y, x)));
    case CmpInst::FCMP_UNE: return vE(mkNot(eq())); case CmpInst::FCMP_UNO: return vE(un()); case CmpInst::FCMP_FALSE: return vC(1, 0); default: return vC(1, 1);
  }
}
static V bswapV(const V& v) { E e = toE(v); std::vector<E> p; for (unsigned i = 0; i < v.w / 8; i++) p.push_back(mkExtract(e, 8 * i, 8)); return vE(mkConcat(p)); }

static Val loadTy(const V& p, Type* t) {
  if (t->isStructTy() || t->isArrayTy()) {
    Val v; v.v = vC(1, 0); v.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType()); V q = p.e ? vE(mkAdd(p.e, mkC(64, off))) : vC(64, p.c + off); v.agg->push_back(loadTy(q, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); }
    return v;
  }
  unsigned w = tyBits(t); if (!w) { // x86_fp80 and friends: opaque
    return {vE(mkSym(64, "opaque_fp")), nullptr}; }
  return {load(p, tyBytes(t), w), nullptr};
}
static void storeTy(const V& p, const Val& v, Type* t) {
  if (v.agg) { unsigned n = v.agg->size(); for (unsigned i = 0; i < n; i++) { uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(t->getArrayElementType()); V q = p.e ? vE(mkAdd(p.e, mkC(64, off))) : vC(64, p.c + off); storeTy(q, (*v.agg)[i], t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()); } return; }
  if (!tyBits(t)) return;
  store(p, v.v, tyBytes(t));
}

static std::unordered_map<Function*, std::string> replName;
static void doCall(Frame& f, const CInst& ci) {
  auto* cb = cast<CallBase>(ci.I);
  unsigned na = cb->arg_size();
  Function* F = cb->getCalledFunction();
  if (!F) {
    if (cb->isInlineAsm()) { Val z{vC(64, 0), nullptr}; finishCall(f, ci, &z); return; }
    const Val& t = get(f, ci.ops[ci.ops.size() - 1]);
    if (auto* ca = dyn_cast<Constant>(cb->getCalledOperand())) if (auto* fa = dyn_cast<Function>(ca->stripPointerCastsAndAliases())) F = fa;
    if (!F) { uint64_t a = concretize(t.v); F = fnOf(a); if (!F) { 
      ObjP o = objAt(a); failHere("memory-safety@" + odcFn(), "call through invalid function pointer " + std::to_string(a)); } }
  }
  std::vector<Val> a(na); for (unsigned i = 0; i < na; i++) a[i] = get(f, ci.ops[i]);
  if (F->isIntrinsic()) {
    Val r{vC(ci.w ? ci.w : 1, 0), nullptr};
    switch (F->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: break;
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(a[0].v, a[1].v, a[2].v.w == 64 ? a[2].v : vE(mkZExt(toE(a[2].v), 64)), false); break;
      case Intrinsic::memmove: copyMem(a[0].v, a[1].v, a[2].v.w == 64 ? a[2].v : vE(mkZExt(toE(a[2].v), 64)), true); break;
      case Intrinsic::memset: setMem(a[0].v, a[1].v, a[2].v.w == 64 ? a[2].v : vE(mkZExt(toE(a[2].v), 64))); break;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; break;
      case Intrinsic::eh_typeid_for: r.v = vC(32, selector(concretize(a[0].v))); break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: failHere("no-terminate", "trap");
      case Intrinsic::bswap: r.v = bswapV(a[0].v); break;
      case Intrinsic::umax: r.v = vE(mkIte(mkUlt(toE(a[0].v), toE(a[1].v)), toE(a[1].v), toE(a[0].v))); break;
      case Intrinsic::umin: r.v = vE(mkIte(mkUlt(toE(a[0].v), toE(a[1].v)), toE(a[0].v), toE(a[1].v))); break;
      case Intrinsic::smax: r.v = vE(mkIte(mkSlt(toE(a[0].v), toE(a[1].v)), toE(a[1].v), toE(a[0].v))); break;
      case Intrinsic::smin: r.v = vE(mkIte(mkSlt(toE(a[0].v), toE(a[1].v)), toE(a[0].v), toE(a[1].v))); break;
      case Intrinsic::abs: r.v = vE(mkIte(mkSlt(toE(a[0].v), mkC(ci.w, 0)), mkNeg(toE(a[0].v)), toE(a[0].v))); break;
      case Intrinsic::ctlz: { uint64_t x = concretize(a[0].v); unsigned w = a[0].v.w; unsigned n = 0; while (n < w && !((x >> (w - 1 - n)) & 1)) n++; r.v = vC(w, n); break; }
      case Intrinsic::cttz: { uint64_t x = concretize(a[0].v); unsigned w = a[0].v.w; unsigned n = 0; while (n < w && !((x >> n) & 1)) n++; r.v = vC(w, n); break; }
      case Intrinsic::ctpop: { r.v = vC(ci.w, __builtin_popcountll(concretize(a[0].v))); break; }
      case Intrinsic::fabs: r.v = vE(mkBin(Op::And, toE(a[0].v), mkC(ci.w, maskw(ci.w - 1)))); break;
      case Intrinsic::is_fpclass: {
        E x = toE(a[0].v); unsigned w = a[0].v.w, mb = w == 64 ? 52 : 23; if (w != 64 && w != 32) throw Unsupported{"is.fpclass width"};
        uint64_t mask = concretize(a[1].v); E mag = mkBin(Op::And, x, mkC(w, maskw(w - 1))), inf = mkC(w, maskw(w - 1) & ~maskw(mb)), neg = mkNot(mkEq(mkBin(Op::And, x, mkC(w, 1ull << (w - 1))), mkC(w, 0)));
        E qn = mkC(w, (maskw(w - 1) & ~maskw(mb)) | (1ull << (mb - 1))), mn = mkC(w, 1ull << mb), z = mkC(w, 0);
        E isnan = mkUlt(inf, mag), sub = mkAnd(mkNot(mkEq(mag, z)), mkUlt(mag, mn)), nrm = mkAnd(mkNot(mkUlt(mag, mn)), mkUlt(mag, inf));
        E res = mkC(1, 0); auto add = [&](unsigned bit, E c) { if (mask & bit) res = mkOr(res, c); };
        if ((mask & 3) == 3) res = isnan; else { add(1, mkAnd(isnan, mkUlt(mag, qn))); add(2, mkNot(mkUlt(mag, qn))); }
        add(4, mkAnd(mkEq(mag, inf), neg)); add(8, mkAnd(nrm, neg)); add(16, mkAnd(sub, neg)); add(32, mkAnd(mkEq(mag, z), neg));
        add(64, mkAnd(mkEq(mag, z), mkNot(neg))); add(128, mkAnd(sub, mkNot(neg))); add(256, mkAnd(nrm, mkNot(neg))); add(512, mkAnd(mkEq(mag, inf), mkNot(neg)));
        r.v = vE(res); break; }
      case Intrinsic::copysign: { unsigned w = ci.w; r.v = vE(mkBin(Op::Or, mkBin(Op::And, toE(a[0].v), mkC(w, maskw(w - 1))), mkBin(Op::And, toE(a[1].v), mkC(w, 1ull << (w - 1))))); break; }
      case Intrinsic::fmuladd: r.v = vE(mkFBin(Op::FAdd, mkFBin(Op::FMul, toE(a[0].v), toE(a[1].v)), toE(a[2].v))); break;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: {
        uint64_t x = concretize(a[0].v), y = concretize(a[1].v); unsigned w = a[0].v.w; unsigned __int128 z; bool ov;
        auto id = F->getIntrinsicID(); if (id == Intrinsic::uadd_with_overflow) { z = (unsigned __int128)x + y; ov = (z >> w) != 0; } else if (id == Intrinsic::usub_with_overflow) { z = (unsigned __int128)x - y; ov = x < y; } else if (id == Intrinsic::umul_with_overflow) { z = (unsigned __int128)x * y; ov = (z >> w) != 0; } else { i128 t = (i128)sext(x, w) + sext(y, w); z = t; ov = t != sext((uint64_t)t, w); }
        r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back({vC(w, (uint64_t)z), nullptr}); r.agg->push_back({vC(1, ov), nullptr}); break; }
      case Intrinsic::objectsize: r.v = vC(ci.w, ~0ull); break;
      case Intrinsic::is_constant: r.v = vC(1, 0); break;
      case Intrinsic::stacksave: r.v = vC(64, 0); break;
      case Intrinsic::stackrestore: break;
      case Intrinsic::threadlocal_address: r = a[0]; break;
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: { if (a[0].v.e) { E e = a[0].v.e; if (e->op == Op::SI2F) { r = a[0]; break; } auto id = F->getIntrinsicID(); if (ci.w != 64 || id == Intrinsic::round) throw Unsupported{"symbolic rounding"};
          // through the integers where these hold the value, itself elsewhere
          E t = mkFConv(Op::SI2F, mkFConv(Op::F2SI, e, 64), 64), one = mkC(64, 0x3ff0000000000000ull), sgn = mkBin(Op::And, e, mkC(64, 1ull << 63)), mag = mkBin(Op::And, e, mkC(64, maskw(63)));
          E x = id == Intrinsic::floor ? mkIte(mkFCmp(Op::FOlt, e, t), mkFBin(Op::FSub, t, one), t) : mkBin(Op::Or, id == Intrinsic::ceil ? mkIte(mkFCmp(Op::FOlt, t, e), mkFBin(Op::FAdd, t, one), t) : t, sgn);
          r.v = vE(mkIte(mkUle(mag, mkC(64, 0x43d0000000000000ull)), mkIte(mkFCmp(Op::FOeq, e, t), e, x), e)); break; } double d; memcpy(&d, &a[0].v.c, 8); auto id = F->getIntrinsicID(); d = id == Intrinsic::floor ? std::floor(d) : id == Intrinsic::ceil ? std::ceil(d) : id == Intrinsic::round ? std::round(d) : std::trunc(d); uint64_t u; memcpy(&u, &d, 8); r.v = vC(64, u); break; }
      default: throw Unsupported{"intrinsic " + F->getName().str()};
    }
    finishCall(f, ci, &r); return;
  }
  auto* inv = dyn_cast<InvokeInst>(cb);
  // contract stubs
  if (!S->repl.empty()) {
    const std::string& d = dem(F);
    for (auto& kv : S->repl) if (d.compare(0, kv.first.size(), kv.first) == 0) {
      Function* R = fnOf(kv.second); bool inside = false; 
      for (auto& fr : S->fr) if (fr.cf->F == R) inside = true;
      if (!inside) { stubbedFns.insert(d); pushCall(R, a, ci.dst, inv); return; }
    }
  }
  auto it = ext.find(F->getName().str());
  if (it != ext.end() ) { Val r{vC(ci.w ? ci.w : 1, 0), nullptr}; size_t depth = S->fr.size(); (void)depth; if (it->second(f, ci, cb, a, r)) finishCall(S->fr.back(), ci, &r); return; }
  if (isOpaque(F)) { Val r = opaqueCall(f, cb, F, a); finishCall(f, ci, &r); return; }
  if (F->isDeclaration()) {
    throw Unsupported{"external function " + dem(F)};
  }
  pushCall(F, std::move(a), ci.dst, inv);
}

// an atomic access orders tasks through its address; in the code of the project it is also a point where tasks may switch
static bool atomicPoint(Frame& f, const V& p, int dir) {
  if (!S->noRace && f.ay != f.pc + 1) {
    bool proj = false;
    for (size_t i = S->fr.size(); i-- > 0;) { auto* sp = S->fr[i].cf->F->getSubprogram(); if (!sp) break; std::string fn = sp->getFilename().str(); if (fn.find("/c++/") != std::string::npos) continue; proj = fn.find("/odc/") != std::string::npos; break; }
    if (dem(f.cf->F).find("_Sp_counted") != std::string::npos || dem(f.cf->F).find("__exchange_and_add") != std::string::npos || dem(f.cf->F).find("__atomic_add") != std::string::npos) proj = false;
    if (proj) { f.ay = f.pc + 1; pushCall(M->getFunction("v_yield_atomic"), {}, -3, nullptr); return true; }
  }
  f.ay = 0;
  if (!p.e) { if (dir & 1) hbAcquire(p.c); if (dir & 2) hbRelease(p.c); }
  inAtomic = true; return false;
}
static void step() {
  Frame& f = S->fr.back(); const CInst& ci = f.cf->code[f.pc]; Instruction* I = ci.I;
  if (!S->loops.empty() && (f.prev || true)) {
    BasicBlock* bb = I->getParent(); if (f.cf->bbStart[bb] == f.pc && ci.opc != Instruction::LandingPad) { if (loopHook(f, bb)) return; }
  }
  switch (ci.opc) {
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(A->getAllocatedType()); if (A->isArrayAllocation()) n *= concretize(get(f, ci.ops[0]).v);
      ObjP o = newObj(S->stk(), n, 's', A->getName().str(), true); f.r[ci.dst] = {vC(64, o->base), nullptr}; f.pc++; break; }
    case Instruction::Load: { bool at = S->stks.size() > 1 && cast<LoadInst>(I)->isAtomic(); if (at && atomicPoint(f, get(f, ci.ops[0]).v, 1)) return; Val v = loadTy(get(f, ci.ops[0]).v, I->getType()); inAtomic = false; f.r[ci.dst] = v; f.pc++; break; }
    case Instruction::Store: { bool at = S->stks.size() > 1 && cast<StoreInst>(I)->isAtomic(); if (at && atomicPoint(f, get(f, ci.ops[1]).v, 2)) return; storeTy(get(f, ci.ops[1]).v, get(f, ci.ops[0]), cast<StoreInst>(I)->getValueOperand()->getType()); inAtomic = false; f.pc++; break; }
    case Instruction::GetElementPtr: {
      const V& b = get(f, ci.ops[0]).v;
      bool sym = b.e; for (auto& g : ci.gidx) if (get(f, g.first).v.e) sym = true;
      if (!sym) { uint64_t x = b.c + ci.goff; for (auto& g : ci.gidx) { const V& i = get(f, g.first).v; x += (uint64_t)sext(i.c, i.w) * g.second; } f.r[ci.dst] = {vC(64, x), nullptr}; }
      else { E x = mkAdd(toE(b), mkC(64, ci.goff)); for (auto& g : ci.gidx) { E i = toE(get(f, g.first).v); x = mkAdd(x, mkMul(mkSExt(i, 64), mkC(64, g.second))); } f.r[ci.dst] = {vE(x), nullptr}; }
      f.pc++; break; }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I); BasicBlock* from = I->getParent();
      if (B->isUnconditional()) { enterBlock(f, from, B->getSuccessor(0)); break; }
      const V& c = get(f, ci.ops[0]).v; bool t;
      if (!c.e) t = c.c; else t = decide(c.e, [from, B](State& s, bool v) { Frame& g = s.fr.back(); enterBlock(g, from, B->getSuccessor(v ? 0 : 1)); });
      enterBlock(f, from, B->getSuccessor(t ? 0 : 1)); break; }
    case Instruction::Switch: {
      auto* W = cast<SwitchInst>(I); const V& c = get(f, ci.ops[0]).v;
      if (c.e) {
        // fork per case
        for (auto cs : W->cases()) { uint64_t k = cs.getCaseValue()->getZExtValue(); BasicBlock* to = cs.getCaseSuccessor(); BasicBlock* from = I->getParent(); 
          bool t = decide(mkEq(c.e, mkC(c.w, k)), [](State& s, bool v) {});  // clone re-executes the switch with the negated/asserted constraint
          if (t) { enterBlock(f, from, to); return; } }
        enterBlock(f, I->getParent(), W->getDefaultDest()); break;
      }
      BasicBlock* to = W->getDefaultDest(); for (auto cs : W->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { to = cs.getCaseSuccessor(); break; }
      enterBlock(f, I->getParent(), to); break; }
    case Instruction::Ret: {
      Val v; bool has = !ci.ops.empty(); if (has) v = get(f, ci.ops[0]);
      int rd = f.retDst; InvokeInst* inv = f.inv; bool sp = f.retDst == -2; popFrame();
      if (S->fr.empty()) throw PathEnd{"done"};
      Frame& g = S->fr.back(); (void)sp;
      if (rd == -3) break;
      const CInst& cc = g.cf->code[g.pc]; 
      if (rd == -1 && !(isa<CallBase>(cc.I))) break;               // invariant callback: re-dispatch the header
      if (rd == -1 && !g.loops.empty() && (g.loops.back().phase == 1 || g.loops.back().phase == 2 || g.loops.back().phase == 4) && g.cf->bbStart[cc.I->getParent()] == g.pc && g.loops.back().L->getHeader() == cc.I->getParent()) break;
      if (has && rd >= 0) g.r[rd] = v;
      if (inv) enterBlock(g, inv->getParent(), inv->getNormalDest()); else g.pc++;
      break; }
    case Instruction::Call: case Instruction::Invoke: doCall(f, ci); break;
    case Instruction::Resume: {
      const Val& v = get(f, ci.ops[0]); uint64_t p = concretize((*v.agg)[0].v); Exc e = S->cur; for (auto& x : S->excs) if (x.obj == p) e = x; S->cur = e;
      unwind(); break; }
    case Instruction::Unreachable: failHere("no-unreachable", "unreachable instruction reached");
    case Instruction::ICmp: f.r[ci.dst] = {icmp(cast<CmpInst>(I)->getPredicate(), get(f, ci.ops[0]).v, get(f, ci.ops[1]).v), nullptr}; f.pc++; break;
    case Instruction::FCmp: f.r[ci.dst] = {fcmp(cast<CmpInst>(I)->getPredicate(), get(f, ci.ops[0]).v, get(f, ci.ops[1]).v), nullptr}; f.pc++; break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      { V r = binop(ci.opc, get(f, ci.ops[0]).v, get(f, ci.ops[1]).v); f.r[ci.dst] = {r, nullptr}; f.pc++; break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      f.r[ci.dst] = {vE(mkFBin(ci.opc == Instruction::FAdd ? Op::FAdd : ci.opc == Instruction::FSub ? Op::FSub : ci.opc == Instruction::FMul ? Op::FMul : Op::FDiv, toE(get(f, ci.ops[0]).v), toE(get(f, ci.ops[1]).v))), nullptr}; f.pc++; break;
    case Instruction::FNeg: f.r[ci.dst] = {vE(mkBin(Op::Xor, toE(get(f, ci.ops[0]).v), mkC(ci.w, 1ull << (ci.w - 1)))), nullptr}; f.pc++; break;
    case Instruction::ZExt: { const V& a = get(f, ci.ops[0]).v; f.r[ci.dst] = {(a.e || ci.w > 64) ? vE(mkZExt(toE(a), ci.w)) : vC(ci.w, a.c), nullptr}; f.pc++; break; }
    case Instruction::SExt: { const V& a = get(f, ci.ops[0]).v; f.r[ci.dst] = {(a.e || ci.w > 64) ? vE(mkSExt(toE(a), ci.w)) : vC(ci.w, (uint64_t)sext(a.c, a.w)), nullptr}; f.pc++; break; }
    case Instruction::Trunc: { const V& a = get(f, ci.ops[0]).v; f.r[ci.dst] = {a.e ? vE(mkExtract(a.e, 0, ci.w)) : vC(ci.w, a.c), nullptr}; f.pc++; break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
      Val a = get(f, ci.ops[0]); if (!a.agg && ci.w && a.v.w != ci.w) { a.v = a.v.w > ci.w ? vE(mkExtract(toE(a.v), 0, ci.w)) : vE(mkZExt(toE(a.v), ci.w)); } f.r[ci.dst] = a; f.pc++; break; }
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      if (!ci.w || !tyBits(I->getOperand(0)->getType())) { f.r[ci.dst] = {vE(mkSym(ci.w ? ci.w : 64, "opaque_fp")), nullptr}; f.pc++; break; }
      Op o = ci.opc == Instruction::FPTrunc ? Op::FTrunc : ci.opc == Instruction::FPExt ? Op::FExt : ci.opc == Instruction::SIToFP ? Op::SI2F : ci.opc == Instruction::UIToFP ? Op::UI2F : ci.opc == Instruction::FPToSI ? Op::F2SI : Op::F2UI;
      f.r[ci.dst] = {vE(mkFConv(o, toE(get(f, ci.ops[0]).v), ci.w)), nullptr}; f.pc++; break; }
    case Instruction::Select: {
      const V& c = get(f, ci.ops[0]).v; const Val &x = get(f, ci.ops[1]), &y = get(f, ci.ops[2]);
      if (!c.e) f.r[ci.dst] = c.c ? x : y;
      else if (x.agg || I->getType()->isPointerTy()) { bool t = decide(c.e, [](State&, bool) {}); f.r[ci.dst] = t ? x : y; }
      else f.r[ci.dst] = {vE(mkIte(c.e, toE(x.v), toE(y.v))), nullptr};
      f.pc++; break; }
    case Instruction::ExtractValue: { auto* X = cast<ExtractValueInst>(I); Val v = get(f, ci.ops[0]); for (unsigned i : X->getIndices()) { Val t = (*v.agg)[i]; v = t; } f.r[ci.dst] = v; f.pc++; break; }
    case Instruction::InsertValue: {
      auto* X = cast<InsertValueInst>(I); Val v = get(f, ci.ops[0]); const Val& n = get(f, ci.ops[1]);
      auto copy = [](const Val& x) { Val c = x; if (c.agg) c.agg = std::make_shared<std::vector<Val>>(*c.agg); return c; };
      v = copy(v); Val* p = &v; auto idx = X->getIndices(); for (size_t k = 0; k + 1 < idx.size(); k++) { (*p->agg)[idx[k]] = copy((*p->agg)[idx[k]]); p = &(*p->agg)[idx[k]]; } (*p->agg)[idx.back()] = n; f.r[ci.dst] = v; f.pc++; break; }
    case Instruction::AtomicRMW: {
      if (S->stks.size() > 1 && atomicPoint(f, get(f, ci.ops[0]).v, 3)) return;
      auto* A = cast<AtomicRMWInst>(I); V p = get(f, ci.ops[0]).v, x = get(f, ci.ops[1]).v; unsigned n = tyBytes(A->getType()); V o = load(p, n, x.w); V r;
      switch (A->getOperation()) { case AtomicRMWInst::Xchg: r = x; break; case AtomicRMWInst::Add: r = binop(Instruction::Add, o, x); break; case AtomicRMWInst::Sub: r = binop(Instruction::Sub, o, x); break; case AtomicRMWInst::Or: r = binop(Instruction::Or, o, x); break; case AtomicRMWInst::And: r = binop(Instruction::And, o, x); break; default: throw Unsupported{"atomicrmw"}; }
      store(p, r, n); inAtomic = false; f.r[ci.dst] = {o, nullptr}; f.pc++; break; }
    case Instruction::AtomicCmpXchg: {
      if (S->stks.size() > 1 && atomicPoint(f, get(f, ci.ops[0]).v, 3)) return;
      V p = get(f, ci.ops[0]).v, e = get(f, ci.ops[1]).v, x = get(f, ci.ops[2]).v; unsigned n = e.w / 8; V o = load(p, n, e.w); uint64_t ov = concretize(o), ev = concretize(e);
      if (ov == ev) store(p, x, n);
      inAtomic = false;
      Val r; r.v = vC(1, 0); r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back({o, nullptr}); r.agg->push_back({vC(1, ov == ev), nullptr}); f.r[ci.dst] = r; f.pc++; break; }
    case Instruction::Fence: f.pc++; break;
    case Instruction::ExtractElement: { auto* vt = cast<FixedVectorType>(I->getOperand(0)->getType()); unsigned ew = tyBits(vt->getElementType()); uint64_t ix = concretize(get(f, ci.ops[1]).v); f.r[ci.dst] = {vE(mkExtract(toE(get(f, ci.ops[0]).v), ew * ix, ew)), nullptr}; f.pc++; break; }
    case Instruction::InsertElement: { auto* vt = cast<FixedVectorType>(I->getType()); unsigned ew = tyBits(vt->getElementType()); uint64_t ix = concretize(get(f, ci.ops[2]).v); E v = toE(get(f, ci.ops[0]).v); std::vector<E> p; for (unsigned i = vt->getNumElements(); i-- > 0;) p.push_back(i == ix ? toE(get(f, ci.ops[1]).v) : mkExtract(v, ew * i, ew)); f.r[ci.dst] = {vE(mkConcat(p)), nullptr}; f.pc++; break; }
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}

struct Suspect { std::string why, where; std::vector<std::pair<std::string, uint64_t>> w; };
static std::vector<Suspect> suspects;
static bool runAll(std::unique_ptr<State> init, bool keepState, std::unique_ptr<State>* out) {
  work.clear(); work.push_back(std::move(init));
  while (!work.empty()) {
    std::unique_ptr<State> st = std::move(work.back()); work.pop_back(); S = st.get();
    std::string end; inAtomic = false;
    try {
      while (true) {
        step();
        nSteps++; S->steps++;
        if ((nSteps & 0xfff) == 0) {
          if (S->steps > optMaxSteps) throw Unsupported{"step limit at " + where()};
          if (elapsed() > optTime) throw Unsupported{"time limit at " + where()};
        }
      }
    } catch (PathEnd& p) { end = p.why; }
    catch (Unsupported& u) { end = "unsupported"; errors[u.why]++;
      if (suspects.size() < 8) { ModelP sm = S->model; if (!sm) try { solve(S->pc, &sm); } catch (...) {} Suspect q{u.why, S->fr.empty() ? "" : where(), {}}; for (auto& in : S->inputs) { uint64_t x = 0; if (sm) modelEval(sm, in.second, x); q.w.push_back({in.first, x}); } suspects.push_back(q); }
      if (optVerbose) std::cerr << "UNSUPPORTED " << u.why << " at " << where() << "\n"; if (errors.size() < 2 || u.why.find("time limit") == std::string::npos) errors[u.why + " | " + (S->fr.empty() ? "" : where())]++; }
    nPaths++; paths[end]++;
    if (needRestart) { work.clear(); return false; }
    if (keepState && end == "done") { *out = std::move(st); return true; }
    if (elapsed() > optTime) { if (!work.empty()) errors["time limit: unexplored paths"] += work.size(); work.clear(); break; }
    if (nPaths > optMaxPaths) { errors["path limit"]++; work.clear(); break; }
    uint64_t fails = 0; for (auto& o : obs) fails += o.second.failed; if (optFirstFail && fails) { work.clear(); break; }
    // enough witnesses
    if (fails > 200) { errors["many failures: stopped"]++; work.clear(); break; }
  }
  return true;
}
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r + "\""; }

int mainImpl(int argc, char** argv) {
  std::string bc, harness, out; bool list = false; unsigned tmo = 20000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--harness") harness = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") optTime = atof(argv[++i]); else if (a == "--qtime") tmo = atof(argv[++i]) * 1000;
    else if (a == "--max-paths") optMaxPaths = atoll(argv[++i]); else if (a == "--max-steps") optMaxSteps = atoll(argv[++i]); else if (a == "-v") optVerbose = true; else if (a == "--list") list = true; else if (a == "--first-fail") optFirstFail = true; else bc = a;
  }
  t0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(bc, err, ctx);
  if (!M) { std::cerr << "cannot read " << bc << "\n"; return 2; }
  DL = &M->getDataLayout();
  if (list) { for (auto& F : *M) if (!F.isDeclaration() && (F.getName().startswith("H_") || F.getName().startswith("P_") || F.getName().startswith("B_"))) std::cout << F.getName().str() << "\n"; std::cout.flush(); _exit(0); }
  Function* H = M->getFunction(harness); if (!H || H->isDeclaration()) { std::cerr << "no harness " << harness << "\n"; return 2; }
  solverInit(tmo); registerExt(); g_uninit = mkSym(8, "UNINIT");
  auto mk = [&]() { auto s = std::make_unique<State>(); s->glob.next = GLOB0; s->heap.next = HEAP0; s->symh.next = SYM0; s->stks.resize(1); s->stks[0].next = STK0; return s; };
  auto base = mk(); S = base.get();
  std::unique_ptr<State> ready;
  try {
    layoutGlobals();
    std::vector<std::pair<int, Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : arr->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), fn}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) {
      pushCall(c.second, {}, -1, nullptr);
      std::unique_ptr<State> o; runAll(std::move(base), true, &o);
      if (!o) { std::cerr << "static constructor failed: " << c.second->getName().str() << "\n"; for (auto& e : errors) std::cerr << "  " << e.first << "\n"; for (auto& e : obs) std::cerr << "  " << e.first << " " << e.second.detail << "\n"; errors["static constructor " + c.second->getName().str()]++; break; }
      base = std::move(o); S = base.get();
    }
    ready = std::move(base);
  } catch (Unsupported& u) { std::cerr << "init: " << u.why << "\n"; errors["init: " + u.why]++; }
  double tInit = elapsed();
  if (ready) {
    paths.clear(); nPaths = 0; enteredFns.clear(); opaqueFns.clear();
    for (nRestarts = 0; nRestarts < 400; nRestarts++) {
      needRestart = false; obs.clear(); covers.clear(); errors.clear(); suspects.clear(); paths.clear(); nPaths = 0; curDefs.clear();
      auto s = std::make_unique<State>(*ready); S = s.get(); pushCall(H, {}, -1, nullptr);
      bool done = runAll(std::move(s), false, nullptr);
      if (done && !needRestart) break;
      if (elapsed() > optTime) { errors["time limit while inferring loop frames"]++; break; }
    }
  }
  std::ostringstream o; uint64_t nob = 0, nok = 0, nf = 0, nu = 0, ntriv = 0;
  for (auto& x : obs) { nob += x.second.n; nok += x.second.ok; nf += x.second.failed; nu += x.second.unknown; ntriv += x.second.trivial; }
  std::string verdict = nf ? "fail" : nu ? "unknown" : !errors.empty() ? "incomplete" : "ok";
  o << "{\n \"harness\": " << jstr(harness) << ",\n \"verdict\": " << jstr(verdict) << ",\n \"obligation_instances\": " << nob << ", \"discharged\": " << nok << ", \"trivial\": " << ntriv << ", \"failed\": " << nf << ", \"undecided\": " << nu << ",\n";
  o << " \"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"steps\": " << nSteps << ", \"mem_checks\": " << nMemChecks << ", \"restarts\": " << nRestarts << ",\n";
  o << " \"solver\": {\"queries\": " << g_ss.queries << ", \"cache_hits\": " << g_ss.cacheHits << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown << ", \"seconds\": " << g_ss.seconds << ", \"max_query_s\": " << g_ss.maxq << "},\n \"init_s\": " << tInit << ", \"wall_s\": " << elapsed() << ",\n";
  auto mapOut = [&](const char* k, std::map<std::string, uint64_t>& m) { o << " \"" << k << "\": {"; bool first = true; for (auto& x : m) { o << (first ? "" : ", ") << jstr(x.first) << ": " << x.second; first = false; } o << "},\n"; };
  mapOut("covers", covers); mapOut("errors", errors); mapOut("path_ends", paths);
  auto setOut = [&](const char* k, std::set<std::string>& m) { o << " \"" << k << "\": ["; bool first = true; for (auto& x : m) { o << (first ? "" : ", ") << jstr(x); first = false; } o << "],\n"; };
  setOut("functions", enteredFns); setOut("replaced_by_contract", stubbedFns); setOut("opaque", opaqueFns);
  o << " \"loop_contracts\": ["; { bool first = true; for (auto& l : loopUsed) { o << (first ? "" : ", ") << jstr(l.first); first = false; } } o << "],\n";
  o << " \"suspects\": ["; { bool f1 = true; for (auto& q : suspects) { o << (f1 ? "" : ", ") << "{\"why\": " << jstr(q.why) << ", \"where\": " << jstr(q.where) << ", \"witness\": ["; f1 = false; bool f2 = true; for (auto& w : q.w) { o << (f2 ? "" : ", ") << "[" << jstr(w.first) << ", \"" << w.second << "\"]"; f2 = false; } o << "]}"; } } o << "],\n";
  o << " \"obligations\": [\n"; bool first = true;
  for (auto& x : obs) {
    ObRes& r = x.second; o << (first ? "" : ",\n") << "  {\"name\": " << jstr(x.first) << ", \"n\": " << r.n << ", \"discharged\": " << r.ok << ", \"failed\": " << r.failed << ", \"undecided\": " << r.unknown; first = false;
    if (!r.detail.empty()) o << ", \"detail\": " << jstr(r.detail.substr(0, 2000)) << ", \"where\": " << jstr(r.where);
    if (r.haveWitness) { o << ", \"witness\": ["; bool f2 = true; for (auto& w : r.witness) { o << (f2 ? "" : ", ") << "[" << jstr(w.first) << ", \"" << w.second << "\"]"; f2 = false; } o << "]"; }
    if (!r.smt.empty() && !r.haveWitness) o << ", \"smt2\": " << jstr(r.smt.substr(0, 20000));
    o << "}";
  }
  o << "\n ]\n}\n";
  if (out.empty()) std::cout << o.str(); else { std::ofstream fo(out); fo << o.str(); }
  std::cout.flush(); _exit(verdict == "ok" ? 0 : verdict == "fail" ? 1 : 3);
}
}
int main(int argc, char** argv) { return odcv::mainImpl(argc, argv); }
