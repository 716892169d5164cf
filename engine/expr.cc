#include "expr.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <sstream>
namespace odcv {
std::vector<SymInfo> g_syms;
SolverStats g_ss;
unsigned g_timeoutMs = 20000;

struct Key { uint64_t h; };
static std::unordered_map<uint64_t, std::vector<E>> g_table;
static uint32_t g_next = 1;
static std::unordered_map<uint64_t, E> g_constCache[65];

static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static void fullRange(unsigned w, int64_t& lo, int64_t& hi) {
  if (w == 1) { lo = 0; hi = 1; return; }
  if (w >= 64) { lo = INT64_MIN; hi = INT64_MAX; return; }
  lo = -(1ll << (w - 1)); hi = (1ll << (w - 1)) - 1;
}
static bool inW(i128 v, unsigned w) {
  if (w >= 64) return v >= (i128)INT64_MIN && v <= (i128)INT64_MAX;
  return v >= -((i128)1 << (w - 1)) && v <= ((i128)1 << (w - 1)) - 1;
}

static E intern(Op op, unsigned w, uint64_t aux, uint64_t aux2, std::vector<E> k, std::vector<uint64_t> cf = {}) {
  uint64_t h = hmix(hmix(hmix((uint64_t)op, w), aux), aux2);
  for (E x : k) h = hmix(h, x->id);
  for (uint64_t x : cf) h = hmix(h, x);
  auto& v = g_table[h];
  for (E x : v)
    if (x->op == op && x->w == w && x->aux == aux && x->aux2 == aux2 && x->k == k && x->cf == cf) return x;
  Expr* e = new Expr();
  e->op = op; e->w = w; e->aux = aux; e->aux2 = aux2; e->k = std::move(k); e->cf = std::move(cf); e->id = g_next++; e->nowrap = false;
  fullRange(w, e->lo, e->hi);
  switch (op) {
    case Op::Const: if (w == 1) e->lo = e->hi = aux; else if (w <= 64) e->lo = e->hi = sext(aux, w); break;
    case Op::Sym: e->lo = std::max(e->lo, g_syms[aux].lo); e->hi = std::min(e->hi, g_syms[aux].hi); break;
    case Op::ZExt: {
      E c = e->k[0];
      if (c->w == 1) { e->lo = 0; e->hi = 1; }
      else if (c->lo >= 0) { e->lo = c->lo; e->hi = c->hi; }
      else if (c->w < 64) { e->lo = 0; e->hi = (int64_t)maskw(c->w); }
      break; }
    case Op::SExt: { E c = e->k[0]; if (c->w == 1) { e->lo = -1; e->hi = 0; } else { e->lo = c->lo; e->hi = c->hi; } break; }
    case Op::Lin: {
      i128 lo = sext(aux, w), hi = lo;
      bool ok = true;
      for (size_t i = 0; i < e->k.size() && ok; i++) {
        i128 c = sext(e->cf[i], w);
        i128 a = c * e->k[i]->lo, b = c * e->k[i]->hi;
        if (a > b) std::swap(a, b);
        lo += a; hi += b;
        if (lo < -((i128)1 << 100) || hi > ((i128)1 << 100)) ok = false;
      }
      if (ok && inW(lo, w) && inW(hi, w)) { e->lo = (int64_t)lo; e->hi = (int64_t)hi; e->nowrap = true; }
      break; }
    case Op::Ite: e->lo = std::min(e->k[1]->lo, e->k[2]->lo); e->hi = std::max(e->k[1]->hi, e->k[2]->hi); break;
    case Op::Extract: {
      E c = e->k[0];
      if (aux == 0 && c->w <= 64 && w > 1 && inW(c->lo, w) && inW(c->hi, w)) { e->lo = c->lo; e->hi = c->hi; }
      else if (w > 1 && c->w <= 64 && c->lo >= 0 && aux < 64) {
        // unsigned bits; if the high part is small
        uint64_t top = (uint64_t)c->hi >> aux;
        if (inW((i128)top, w)) { e->lo = 0; e->hi = (int64_t)top; }
      }
      break; }
    case Op::And: if (w > 1) for (E x : e->k) if (x->lo >= 0) { e->lo = 0; e->hi = std::min(e->hi, x->hi); } break;
    case Op::LShr: if (w > 1 && isC(e->k[1]) && e->k[1]->aux > 0 && w <= 64) { e->lo = 0; e->hi = (int64_t)(maskw(w) >> e->k[1]->aux); if (e->k[0]->lo >= 0) e->hi = std::min<int64_t>(e->hi, e->k[0]->hi >> e->k[1]->aux); } break;
    case Op::UDiv: if (w > 1 && e->k[0]->lo >= 0) { e->lo = 0; e->hi = e->k[0]->hi; if (isC(e->k[1]) && e->k[1]->lo > 0) e->hi /= e->k[1]->lo; } break;
    case Op::SDiv: if (w > 1 && e->k[0]->lo >= 0 && e->k[1]->lo > 0) { e->lo = 0; e->hi = e->k[0]->hi / e->k[1]->lo; } break;
    case Op::URem: case Op::SRem: if (w > 1 && e->k[0]->lo >= 0 && e->k[1]->lo > 0) { e->lo = 0; e->hi = std::min(e->k[0]->hi, e->k[1]->hi - 1); } break;
    default: break;
  }
  v.push_back(e);
  return e;
}

E mkC(unsigned w, uint64_t v) {
  v &= maskw(w);
  if (w <= 64) { auto& m = g_constCache[w]; auto it = m.find(v); if (it != m.end()) return it->second; E e = intern(Op::Const, w, v, 0, {}); m[v] = e; return e; }
  // wide constants: only zero-extended small ones, represented as a concat
  return mkConcat({mkC(w - 64, 0), mkC(64, v)});
}
E mkSym(unsigned w, const std::string& name, int64_t lo, int64_t hi, bool isfp) {
  g_syms.push_back({name, w, lo, hi, isfp});
  return intern(Op::Sym, w, g_syms.size() - 1, 0, {});
}
E mkSym(unsigned w, const std::string& name) { int64_t lo, hi; fullRange(w, lo, hi); return mkSym(w, name, lo, hi); }

void linDecomp(E e, uint64_t& c, std::vector<std::pair<E, uint64_t>>& t) {
  if (e->op == Op::Const) { c += e->aux; return; }
  if (e->op == Op::Lin) { c += e->aux; for (size_t i = 0; i < e->k.size(); i++) t.push_back({e->k[i], e->cf[i]}); return; }
  t.push_back({e, 1});
}
E mkLinV(unsigned w, uint64_t c, std::vector<std::pair<E, uint64_t>> t) {
  std::sort(t.begin(), t.end(), [](const std::pair<E, uint64_t>& a, const std::pair<E, uint64_t>& b) { return a.first->id < b.first->id; });
  std::vector<E> k; std::vector<uint64_t> cf;
  for (size_t i = 0; i < t.size();) {
    uint64_t s = 0; size_t j = i;
    for (; j < t.size() && t[j].first == t[i].first; j++) s += t[j].second;
    s &= maskw(w);
    if (s) { k.push_back(t[i].first); cf.push_back(s); }
    i = j;
  }
  c &= maskw(w);
  if (k.empty()) return mkC(w, c);
  if (k.size() == 1 && cf[0] == 1 && c == 0) return k[0];
  return intern(Op::Lin, w, c, 0, k, cf);
}
E mkAdd(E a, E b) {
  if (isC(a) && isC(b)) return mkC(a->w, a->aux + b->aux);
  if (a->w == 1) return intern(Op::Xor, 1, 0, 0, a->id < b->id ? std::vector<E>{a, b} : std::vector<E>{b, a});
  uint64_t c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(a, c, t); linDecomp(b, c, t);
  return mkLinV(a->w, c, std::move(t));
}
static E mkScale(E a, uint64_t s) {
  uint64_t c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(a, c, t);
  c *= s; for (auto& p : t) p.second *= s;
  return mkLinV(a->w, c, std::move(t));
}
E mkNeg(E a) { return mkScale(a, ~0ull); }
E mkSub(E a, E b) { return mkAdd(a, mkNeg(b)); }
E mkMul(E a, E b) {
  if (isC(a) && isC(b)) return mkC(a->w, a->aux * b->aux);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) return mkScale(a, b->aux);
  // distribute over linear sums so that (r+1)*s and r*s+s agree
  if (a->op == Op::Lin || b->op == Op::Lin) {
    uint64_t ca = 0, cb = 0; std::vector<std::pair<E, uint64_t>> ta, tb, out; linDecomp(a, ca, ta); linDecomp(b, cb, tb);
    if (ta.size() * tb.size() <= 16) {
      for (auto& x : ta) { if (cb) out.push_back({x.first, x.second * cb}); for (auto& y : tb) out.push_back({mkMul(x.first, y.first), x.second * y.second}); }
      if (ca) for (auto& y : tb) out.push_back({y.first, y.second * ca});
      // products may themselves be Lin
      std::vector<std::pair<E, uint64_t>> flat; uint64_t c = ca * cb;
      for (auto& o : out) { uint64_t c2 = 0; std::vector<std::pair<E, uint64_t>> t2; linDecomp(o.first, c2, t2); c += c2 * o.second; for (auto& z : t2) flat.push_back({z.first, z.second * o.second}); }
      return mkLinV(a->w, c, std::move(flat));
    }
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(Op::Mul, a->w, 0, 0, {a, b});
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    uint64_t x = a->aux, y = b->aux; int64_t sx = sext(x, w), sy = sext(y, w);
    switch (op) {
      case Op::UDiv: if (y) return mkC(w, x / y); break;
      case Op::SDiv: if (sy && !(sy == -1)) return mkC(w, (uint64_t)(sx / sy)); if (sy == -1) return mkC(w, 0 - x); break;
      case Op::URem: if (y) return mkC(w, x % y); break;
      case Op::SRem: if (sy && sy != -1) return mkC(w, (uint64_t)(sx % sy)); if (sy == -1) return mkC(w, 0); break;
      case Op::And: return mkC(w, x & y);
      case Op::Or: return mkC(w, x | y);
      case Op::Xor: return mkC(w, x ^ y);
      case Op::Shl: return mkC(w, y >= w ? 0 : x << y);
      case Op::LShr: return mkC(w, y >= w ? 0 : x >> y);
      case Op::AShr: return mkC(w, (uint64_t)(sx >> std::min<uint64_t>(y, 63)));
      default: break;
    }
  }
  if (op == Op::And || op == Op::Or || op == Op::Xor) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (isC(b)) {
      uint64_t m = b->aux;
      if (op == Op::And) {
        if (m == 0) return b;
        if (m == maskw(w)) return a;
        if (w > 1 && w <= 64 && (m & (m + 1)) == 0) { unsigned n = __builtin_popcountll(m); return mkZExt(mkExtract(a, 0, n), w); }
      } else if (op == Op::Or) { if (m == 0) return a; if (m == maskw(w)) return b; }
      else {
        if (m == 0) return a;
        if (w == 1) { // not
          if (a->op == Op::Xor && isC(a->k[1]) && a->k[1]->aux == 1) return a->k[0];
          if (a->op == Op::Ult) return mkUle(a->k[1], a->k[0]);
          if (a->op == Op::Ule) return mkUlt(a->k[1], a->k[0]);
          if (a->op == Op::Slt) return mkSle(a->k[1], a->k[0]);
          if (a->op == Op::Sle) return mkSlt(a->k[1], a->k[0]);
        }
        if (m == maskw(w) && w > 1) return mkSub(mkC(w, maskw(w)), a);
      }
    }
    if (a == b) { if (op == Op::Xor) return mkC(w, 0); return a; }
    if (w == 1 && op != Op::Xor) { E na = mkNot(a); if (na == b) return mkC(1, op == Op::And ? 0 : 1); }
    if (op == Op::Or && w > 1) {
      // or of disjoint zext/shl pieces is left to the solver
    }
    return intern(op, w, 0, 0, {a, b});
  }
  if (isC(b)) {
    uint64_t y = b->aux;
    if (op == Op::Shl) { if (y == 0) return a; if (y >= w) return mkC(w, 0); return mkScale(a, 1ull << y); }
    if (op == Op::LShr) { if (y == 0) return a; if (y >= w) return mkC(w, 0); return mkZExt(mkExtract(a, y, w - y), w); }
    if (op == Op::AShr) { if (y == 0) return a; if (y >= w) y = w - 1; return mkSExt(mkExtract(a, y, w - y), w); }
    if ((op == Op::UDiv || op == Op::URem) && y && (y & (y - 1)) == 0) {
      unsigned n = __builtin_ctzll(y);
      if (n == 0) return op == Op::UDiv ? a : mkC(w, 0);
      return op == Op::UDiv ? mkBin(Op::LShr, a, mkC(w, n)) : mkZExt(mkExtract(a, 0, n), w);
    }
    if ((op == Op::SDiv || op == Op::SRem) && a->lo >= 0 && sext(y, w) > 0) {
      if (a->hi < sext(y, w)) return op == Op::SDiv ? mkC(w, 0) : a;
      return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
    }
    if (op == Op::SDiv && y == 1) return a;
    // exact division of a linear sum
    if ((op == Op::SDiv || op == Op::UDiv) && a->op == Op::Lin && a->nowrap && (op == Op::SDiv || a->lo >= 0)) {
      int64_t sy = sext(y, w); bool ok = sy > 0 && sext(a->aux, w) % sy == 0;
      for (uint64_t c : a->cf) if (ok && sext(c, w) % sy) ok = false;
      if (ok) { std::vector<std::pair<E, uint64_t>> t; for (size_t i = 0; i < a->k.size(); i++) t.push_back({a->k[i], (uint64_t)(sext(a->cf[i], w) / sy)}); return mkLinV(w, (uint64_t)(sext(a->aux, w) / sy), t); }
    }
  }
  return intern(op, w, 0, 0, {a, b});
}
E mkNot(E a) { return mkBin(Op::Xor, a, mkC(1, 1)); }
E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }

// the greatest common divisor of the coefficients of a sum that does not wrap
static int64_t linGcd(E d) {
  if (d->op != Op::Lin || !d->nowrap) return 1;
  uint64_t g = 0;
  for (uint64_t c : d->cf) { int64_t v = sext(c, d->w); if (v == INT64_MIN) return 1; uint64_t u = (uint64_t)(v < 0 ? -v : v); while (u) { uint64_t t = g % u; g = u; u = t; } }
  return g > 1 ? (int64_t)g : 1;
}
static E linDiv(E d, int64_t g, int64_t c) {   // the terms of d divided by g, plus c
  std::vector<std::pair<E, uint64_t>> t;
  for (size_t i = 0; i < d->k.size(); i++) t.push_back({d->k[i], (uint64_t)(sext(d->cf[i], d->w) / g)});
  return mkLinV(d->w, (uint64_t)c, std::move(t));
}
E mkEq(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(1, a->aux == b->aux);
  if (isC(a)) std::swap(a, b);
  if (a->w == 1) {
    if (isC(b)) return b->aux ? a : mkNot(a);
    return mkNot(intern(Op::Xor, 1, 0, 0, a->id < b->id ? std::vector<E>{a, b} : std::vector<E>{b, a}));
  }
  if (a->w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkC(1, 0);
  if (isC(b)) {
    if (a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (a->op == Op::ZExt) { uint64_t m = maskw(a->k[0]->w); if (b->aux & ~m) return mkC(1, 0); return mkEq(a->k[0], mkC(a->k[0]->w, b->aux)); }
    if (a->op == Op::SExt) { E t = mkC(a->k[0]->w, b->aux); if ((uint64_t)(sext(t->aux, t->w)) != (uint64_t)sext(b->aux, b->w)) return mkC(1, 0); return mkEq(a->k[0], t); }
    if (a->op == Op::Concat && a->w <= 64) {
      E r = mkC(1, 1); unsigned lo = 0;
      for (size_t i = a->k.size(); i-- > 0;) { E x = a->k[i]; r = mkAnd(r, mkEq(x, mkC(x->w, b->aux >> lo))); lo += x->w; }
      return r;
    }
  }
  if (a->op == b->op && (a->op == Op::ZExt || a->op == Op::SExt) && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
  if (a->w <= 64) {
    E d = mkSub(a, b);
    if (isC(d)) return mkC(1, d->aux == 0);
    if (d->op == Op::Lin) {
      if (d->nowrap && (d->lo > 0 || d->hi < 0)) return mkC(1, 0);
      if (int64_t g = linGcd(d); g > 1) { int64_t c = sext(d->aux, d->w); if (c % g) return mkC(1, 0); return mkEq(linDiv(d, g, c / g), mkC(d->w, 0)); }
      if (d->k.size() == 1 && d->cf[0] == 1) { E x = d->k[0], y = mkC(d->w, 0 - d->aux); if (x != a || y != b) { if (!(isC(b) && a == x)) return mkEq(x, y); } }
      else if (d->k.size() == 1 && d->cf[0] == maskw(d->w)) { E x = d->k[0], y = mkC(d->w, d->aux); if (!(a == x && b == y)) return mkEq(x, y); }
      else if (!(d->k.size() == 2 && d->aux == 0 && d->cf[0] == 1 && d->cf[1] == maskw(d->w)) && !(isC(b) && b->aux == 0)) {
        if (d->k.size() == 2 && d->aux == 0 && d->cf[1] == 1 && d->cf[0] == maskw(d->w)) { a = d->k[0]; b = d->k[1]; return intern(Op::Eq, 1, 0, 0, {a, b}); }
        a = d; b = mkC(d->w, 0); return intern(Op::Eq, 1, 0, 0, {a, b});
      }
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return intern(Op::Eq, 1, 0, 0, {a, b});
}
static bool nonneg(E a) { return a->w > 1 && a->lo >= 0; }
E mkSlt(E a, E b) {
  if (a == b) return mkC(1, 0);
  if (a->hi < b->lo) return mkC(1, 1);
  if (a->lo >= b->hi) return mkC(1, 0);
  if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w && a->k[0]->w > 1) return mkSlt(a->k[0], b->k[0]);
  if ((a->op != Op::Lin || a->nowrap) && (b->op != Op::Lin || b->nowrap) && (a->op == Op::Lin || b->op == Op::Lin)) {
    E d = mkSub(a, b);
    if (isC(d)) return mkC(1, sext(d->aux, d->w) < 0);
    if (d->op != Op::Lin || d->nowrap) {
      // a<b  <=>  d<0 (no wrap) ; canonical: sum < -const
      if (d->hi < 0) return mkC(1, 1);
      if (d->lo >= 0) return mkC(1, 0);
      uint64_t c = 0; std::vector<std::pair<E, uint64_t>> t; linDecomp(d, c, t);
      E s = mkLinV(d->w, 0, t), r = mkC(d->w, 0 - c);
      if (s->op == Op::Lin && !s->nowrap) return intern(Op::Slt, 1, 0, 0, {a, b});
      if (s->hi < r->lo) return mkC(1, 1);
      if (s->lo >= r->hi) return mkC(1, 0);
      if (int64_t g = linGcd(s); g > 1) { int64_t q = r->lo / g, m = r->lo % g; if (m > 0) q++; return mkSlt(linDiv(s, g, 0), mkC(s->w, (uint64_t)q)); }   // s < r  <=>  s/g < ceil(r/g)
      if (s->op == Op::Lin && s->k.size() == 1 && s->cf[0] == maskw(s->w)) return intern(Op::Slt, 1, 0, 0, {mkNeg(r), s->k[0]});
      return intern(Op::Slt, 1, 0, 0, {s, r});
    }
  }
  return intern(Op::Slt, 1, 0, 0, {a, b});
}
E mkSle(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (a->hi <= b->lo) return mkC(1, 1);
  if (a->lo > b->hi) return mkC(1, 0);
  if (isC(b) && b->lo < INT64_MAX) return mkSlt(a, mkC(b->w, b->aux + 1));
  if (isC(a) && a->lo > INT64_MIN) return mkSlt(mkC(a->w, a->aux - 1), b);
  if ((a->op != Op::Lin || a->nowrap) && (b->op != Op::Lin || b->nowrap) && (a->op == Op::Lin || b->op == Op::Lin)) {
    E d = mkSub(a, b);
    if ((d->op != Op::Lin || d->nowrap)) {
      if (d->hi <= 0) return mkC(1, 1);
      if (d->lo > 0) return mkC(1, 0);
      return mkSlt(d, mkC(d->w, 1));
    }
  }
  return intern(Op::Sle, 1, 0, 0, {a, b});
}
E mkUlt(E a, E b) {
  if (a == b) return mkC(1, 0);
  if (isC(a) && isC(b)) return mkC(1, a->aux < b->aux);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && b->aux == 0) return mkC(1, 0);
  if (nonneg(a) && nonneg(b)) return mkSlt(a, b);
  if (a->lo >= 0 && b->hi < 0) return mkC(1, 1);
  if (a->hi < 0 && b->lo >= 0) return mkC(1, 0);
  if (isC(b) && b->aux == 1) return mkEq(a, mkC(a->w, 0));
  if (isC(a) && a->aux == 0) return mkNot(mkEq(a, b));
  return intern(Op::Ult, 1, 0, 0, {a, b});
}
E mkUle(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(1, a->aux <= b->aux);
  if (a->w == 1) return mkOr(mkNot(a), b);
  if (isC(a) && a->aux == 0) return mkC(1, 1);
  if (nonneg(a) && nonneg(b)) return mkSle(a, b);
  if (a->lo >= 0 && b->hi < 0) return mkC(1, 1);
  if (a->hi < 0 && b->lo >= 0) return mkC(1, 0);
  if (isC(b) && b->aux == 0) return mkEq(a, b);
  return intern(Op::Ule, 1, 0, 0, {a, b});
}
E mkIte(E c, E a, E b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  return intern(Op::Ite, a->w, 0, 0, {c, a, b});
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a) && w <= 64) return mkC(w, a->aux);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (w <= 64 && nonneg(a)) return mkSExt(a, w);
  if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]) && w <= 64) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return intern(Op::ZExt, w, 0, 0, {a});
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a) && w <= 64) return mkC(w, (uint64_t)sext(a->aux, a->w));
  if (a->op == Op::SExt && a->k[0]->w > 1) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Lin && a->nowrap && w <= 64) {
    std::vector<std::pair<E, uint64_t>> t;
    for (size_t i = 0; i < a->k.size(); i++) t.push_back({mkSExt(a->k[i], w), (uint64_t)sext(a->cf[i], a->w)});
    return mkLinV(w, (uint64_t)sext(a->aux, a->w), t);
  }
  // sext(trunc(x)) with x in range
  if (a->op == Op::Extract && a->aux == 0 && a->k[0]->w == w && w <= 64 && a->w > 1 && inW(a->k[0]->lo, a->w) && inW(a->k[0]->hi, a->w)) return a->k[0];
  if (a->op == Op::Extract && a->aux == 0 && a->k[0]->w < w && w <= 64 && a->w > 1 && inW(a->k[0]->lo, a->w) && inW(a->k[0]->hi, a->w)) return mkSExt(a->k[0], w);
  if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]) && w <= 64) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(Op::SExt, w, 0, 0, {a});
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case Op::Const: return mkC(w, a->aux >> lo);
    case Op::Extract: return mkExtract(a->k[0], lo + a->aux, w);
    case Op::ZExt: {
      E c = a->k[0];
      if (lo >= c->w) return mkC(w, 0);
      if (lo + w <= c->w) return mkExtract(c, lo, w);
      return mkZExt(mkExtract(c, lo, c->w - lo), w);
    }
    case Op::SExt: {
      E c = a->k[0];
      if (lo + w <= c->w) return mkExtract(c, lo, w);
      if (c->w > 1 && c->lo >= 0) { if (lo >= c->w) return mkC(w, 0); return mkZExt(mkExtract(c, lo, c->w - lo), w); }
      if (lo == 0) return mkSExt(c, w);
      break;
    }
    case Op::Concat: {
      unsigned pos = 0; std::vector<E> parts; // low to high
      for (size_t i = a->k.size(); i-- > 0;) {
        E x = a->k[i]; unsigned l = pos, h = pos + x->w; pos = h;
        unsigned s = std::max(l, lo), e = std::min(h, lo + w);
        if (s < e) parts.push_back(mkExtract(x, s - l, e - s));
      }
      std::reverse(parts.begin(), parts.end());
      return mkConcat(parts);
    }
    case Op::Lin:
      if (lo == 0) {
        std::vector<std::pair<E, uint64_t>> t;
        if (w == 1) break;
        for (size_t i = 0; i < a->k.size(); i++) t.push_back({mkExtract(a->k[i], 0, w), a->cf[i]});
        std::vector<std::pair<E, uint64_t>> f; uint64_t c = a->aux;
        for (auto& p : t) { uint64_t c2 = 0; std::vector<std::pair<E, uint64_t>> t2; linDecomp(p.first, c2, t2); c += c2 * p.second; for (auto& z : t2) f.push_back({z.first, z.second * p.second}); }
        return mkLinV(w, c, f);
      }
      break;
    case Op::Ite: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case Op::And: case Op::Or: case Op::Xor:
      if (isC(a->k[1])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
      break;
    default: break;
  }
  if (a->w <= 64 && lo > 0 && a->w > 1 && a->lo >= 0 && lo < 63 && ((uint64_t)a->hi >> lo) == 0) return mkC(w, 0);
  return intern(Op::Extract, w, lo, 0, {a});
}
E mkConcat(std::vector<E> p) {
  std::vector<E> f;
  for (E x : p) { if (x->op == Op::Concat) f.insert(f.end(), x->k.begin(), x->k.end()); else f.push_back(x); }
  std::vector<E> r; // hi to lo
  for (E x : f) {
    bool again = true;
    while (again && !r.empty()) {
      again = false;
      E h = r.back();
      if (isC(h) && isC(x) && h->w + x->w <= 64) { x = mkC(h->w + x->w, (h->aux << x->w) | x->aux); r.pop_back(); again = true; continue; }
      if (h->op == Op::Extract && h->aux >= x->w) {
        E src = h->k[0]; unsigned l = h->aux;
        if (mkExtract(src, l - x->w, x->w) == x) { E m = mkExtract(src, l - x->w, h->w + x->w); r.pop_back(); x = m; again = true; continue; }
      }
      if (h->op == Op::ZExt && 0) {}
      // sign/zero-extension tail: high part of ZExt pushed through already
    }
    r.push_back(x);
  }
  if (r.size() == 1) return r[0];
  unsigned w = 0; for (E x : r) w += x->w;
  if (isC(r[0]) && r[0]->aux == 0) {
    std::vector<E> rest(r.begin() + 1, r.end());
    E low = rest.size() == 1 ? rest[0] : mkConcat(rest);
    return mkZExt(low, w);
  }
  return intern(Op::Concat, w, 0, 0, r);
}

// ---- floating point -----------------------------------------------------------------------------------------------
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { uint32_t u = v; float d; memcpy(&d, &u, 4); return d; }
static uint64_t dBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fBits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static const int64_t P53 = 1ll << 53;
static E toIntD(E e) {   // double known to be the exact value of a 64-bit integer expression, |x|<=2^53, not -0
  if (e->w != 64) return nullptr;
  if (isC(e)) { double d = asD(e->aux); if (std::isfinite(d) && std::fabs(d) <= (double)P53 && d == std::floor(d) && !(d == 0 && std::signbit(d))) return mkC(64, (uint64_t)(int64_t)d); return nullptr; }
  if (e->op == Op::SI2F && e->k[0]->w == 64 && e->k[0]->lo >= -P53 && e->k[0]->hi <= P53) return e->k[0];
  if (e->op == Op::Ite) { E a = toIntD(e->k[1]); if (!a) return nullptr; E b = toIntD(e->k[2]); if (!b) return nullptr; return mkIte(e->k[0], a, b); }
  return nullptr;
}
static bool small(E i) { return i->lo >= -(P53 / 2) && i->hi <= P53 / 2; }
E mkFBin(Op op, E a, E b) {
  if (isC(a) && isC(b)) {
    if (a->w == 64) { double x = asD(a->aux), y = asD(b->aux); switch (op) { case Op::FAdd: return mkC(64, dBits(x + y)); case Op::FSub: return mkC(64, dBits(x - y)); case Op::FMul: return mkC(64, dBits(x * y)); case Op::FDiv: return mkC(64, dBits(x / y)); default: break; } }
    if (a->w == 32) { float x = asF(a->aux), y = asF(b->aux); switch (op) { case Op::FAdd: return mkC(32, fBits(x + y)); case Op::FSub: return mkC(32, fBits(x - y)); case Op::FMul: return mkC(32, fBits(x * y)); case Op::FDiv: return mkC(32, fBits(x / y)); default: break; } }
  }
  if (op == Op::FAdd || op == Op::FSub) {
    E x = toIntD(a), y = toIntD(b);
    if (x && y && small(x) && small(y)) return mkFConv(Op::SI2F, op == Op::FAdd ? mkAdd(x, y) : mkSub(x, y), 64);
  }
  return intern(op, a->w, 0, 0, {a, b});
}
E mkFCmp(Op op, E a, E b) {
  if (isC(a) && isC(b)) {
    double x = a->w == 64 ? asD(a->aux) : asF(a->aux), y = a->w == 64 ? asD(b->aux) : asF(b->aux);
    switch (op) { case Op::FOeq: return mkC(1, x == y); case Op::FOlt: return mkC(1, x < y); case Op::FOle: return mkC(1, x <= y); case Op::FUno: return mkC(1, std::isnan(x) || std::isnan(y)); default: break; }
  }
  E x = toIntD(a), y = toIntD(b);
  if (x && y) {
    switch (op) { case Op::FOeq: return mkEq(x, y); case Op::FOlt: return mkSlt(x, y); case Op::FOle: return mkSle(x, y); case Op::FUno: return mkC(1, 0); default: break; }
  }
  if ((x && isC(b)) || (y && isC(a))) {
    bool cb = x && isC(b); E i = cb ? x : y; double d = asD(cb ? b->aux : a->aux);
    if (std::isnan(d)) return mkC(1, op == Op::FUno);
    if (op == Op::FUno) return mkC(1, 0);
    if (op == Op::FOeq) { if (d == 0) return mkEq(i, mkC(64, 0)); return mkC(1, 0); }   // non-integral or out of range (or -0)
    if (d == 0) d = 0;
    if (d > (double)P53) return mkC(1, cb ? 1 : 0);
    if (d < -(double)P53) return mkC(1, cb ? 0 : 1);
    int64_t f = (int64_t)std::floor(d), c = (int64_t)std::ceil(d);
    if (cb) return op == Op::FOlt ? mkSlt(i, mkC(64, (uint64_t)c)) : mkSle(i, mkC(64, (uint64_t)f));
    return op == Op::FOlt ? mkSlt(mkC(64, (uint64_t)f), i) : mkSle(mkC(64, (uint64_t)c), i);
  }
  // comparisons of widened floats
  if (a->op == Op::FExt && b->op == Op::FExt) return mkFCmp(op, a->k[0], b->k[0]);
  if (op == Op::FUno) {
    auto never = [](E e) { return e->op == Op::SI2F || e->op == Op::UI2F; };
    if (never(a) && (never(b) || isC(b))) return isC(b) ? mkC(1, std::isnan(asD(b->aux))) : mkC(1, 0);
    if (a == b && a->op == Op::FExt) return mkFCmp(op, a->k[0], a->k[0]);
  }
  if (op == Op::FOeq && !isC(b) && a->id > b->id) std::swap(a, b);
  return intern(op, 1, 0, 0, {a, b});
}
// x86-64 conversions (gcc and clang): narrower than 32 bits through cvttsd2si 32; u32 through cvttsd2si 64; invalid -> INT_MIN
static unsigned convBits(Op op, unsigned w) { return op == Op::F2SI ? (w <= 32 ? 32 : 64) : (w <= 16 ? 32 : 64); }
static uint64_t x86conv(Op op, double d, unsigned w) {
  unsigned c = convBits(op, w); const double P63 = 9223372036854775808.0;
  if (c == 32) return (d > -2147483649.0 && d < 2147483648.0 ? (uint64_t)(int64_t)d : 0x80000000ull) & maskw(w);
  if (op == Op::F2UI && w == 64 && d >= P63) return d < 2 * P63 ? (uint64_t)d : 0;
  return (d >= -P63 && d < P63 ? (uint64_t)(int64_t)d : 1ull << 63) & maskw(w);
}
E mkFConv(Op op, E a, unsigned w) {
  if (isC(a)) {
    switch (op) {
      case Op::FExt: { float f = asF(a->aux); if (!std::isnan(f)) return mkC(64, dBits((double)f)); break; }
      case Op::FTrunc: { double d = asD(a->aux); if (!std::isnan(d)) return mkC(32, fBits((float)d)); break; }
      case Op::SI2F: { int64_t v = sext(a->aux, a->w); return w == 64 ? mkC(64, dBits((double)v)) : mkC(32, fBits((float)v)); }
      case Op::UI2F: { uint64_t v = a->aux; return w == 64 ? mkC(64, dBits((double)v)) : mkC(32, fBits((float)v)); }
      case Op::F2SI: case Op::F2UI: return mkC(w, x86conv(op, a->w == 64 ? asD(a->aux) : asF(a->aux), w));
      default: break;
    }
  }
  if (op == Op::FTrunc && a->op == Op::FExt) return a->k[0];
  if (op == Op::UI2F && a->w < 64) return mkFConv(Op::SI2F, mkZExt(a, 64), w);
  if (op == Op::UI2F && a->lo >= 0 && a->w == 64) return mkFConv(Op::SI2F, a, w);
  if (op == Op::SI2F && a->w < 64) return mkFConv(Op::SI2F, mkSExt(a, 64), w);
  if (op == Op::F2SI || op == Op::F2UI) { E i = toIntD(a); if (i) {
    if (convBits(op, w) == 64 || (i->lo >= INT32_MIN && i->hi <= INT32_MAX)) return mkExtract(i, 0, w);
    E in = mkAnd(mkSle(mkC(64, (uint64_t)(int64_t)INT32_MIN), i), mkSle(i, mkC(64, INT32_MAX)));
    return mkIte(in, mkExtract(i, 0, w), mkC(w, 0x80000000ull & maskw(w)));
  } }
  return intern(op, w, 0, 0, {a});
}
E mkARead(uint64_t arr, unsigned bytes, E off) { return intern(Op::ARead, bytes * 8, arr, bytes, {off}); }

const std::vector<uint32_t>& symsOf(E e) {
  static std::vector<uint32_t> empty;
  if (e->syms) return *e->syms;
  std::vector<uint32_t>* v = new std::vector<uint32_t>();
  if (e->op == Op::Sym) v->push_back(e->aux);
  if (e->op == Op::ARead) v->push_back(0x80000000u | (uint32_t)e->aux);
  for (E k : e->k) { auto& s = symsOf(k); v->insert(v->end(), s.begin(), s.end()); }
  std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end());
  const_cast<Expr*>(e)->syms = v;
  return *v;
}

E subst(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo) {
  auto it = m.find(e); if (it != m.end()) return it->second;
  if (e->k.empty()) return e;
  auto jt = memo.find(e); if (jt != memo.end()) return jt->second;
  std::vector<E> k; bool ch = false;
  for (E x : e->k) { E y = subst(x, m, memo); ch |= y != x; k.push_back(y); }
  E r = e;
  if (ch) switch (e->op) {
    case Op::Lin: { r = mkC(e->w, e->aux); for (size_t i = 0; i < k.size(); i++) r = mkAdd(r, mkMul(k[i], mkC(e->w, e->cf[i]))); break; }
    case Op::Mul: r = mkMul(k[0], k[1]); break;
    case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::And: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr: r = mkBin(e->op, k[0], k[1]); break;
    case Op::Eq: r = mkEq(k[0], k[1]); break; case Op::Ult: r = mkUlt(k[0], k[1]); break; case Op::Ule: r = mkUle(k[0], k[1]); break;
    case Op::Slt: r = mkSlt(k[0], k[1]); break; case Op::Sle: r = mkSle(k[0], k[1]); break;
    case Op::Ite: r = mkIte(k[0], k[1], k[2]); break;
    case Op::ZExt: r = mkZExt(k[0], e->w); break; case Op::SExt: r = mkSExt(k[0], e->w); break;
    case Op::Extract: r = mkExtract(k[0], e->aux, e->w); break; case Op::Concat: r = mkConcat(k); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: r = mkFBin(e->op, k[0], k[1]); break;
    case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: r = mkFCmp(e->op, k[0], k[1]); break;
    case Op::FExt: case Op::FTrunc: case Op::SI2F: case Op::UI2F: case Op::F2SI: case Op::F2UI: r = mkFConv(e->op, k[0], e->w); break;
    case Op::ARead: r = mkARead(e->aux, e->aux2, k[0]); break;
    default: break;
  }
  memo[e] = r;
  return r;
}

std::string str(E e, int d) {
  static const char* n[] = {"C", "S", "lin", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "=", "u<", "u<=", "s<", "s<=", "ite", "zext", "sext", "extract", "concat", "fadd", "fsub", "fmul", "fdiv", "f=", "f<", "f<=", "funo", "fext", "ftrunc", "si2f", "ui2f", "f2si", "f2ui", "aread"};
  std::ostringstream o;
  if (e->op == Op::Const) { if (e->w == 1) o << (e->aux ? "true" : "false"); else o << sext(e->aux, e->w) << ":" << e->w; return o.str(); }
  if (e->op == Op::Sym) return g_syms[e->aux].name;
  if (d <= 0) return "...";
  o << "(" << n[(int)e->op];
  if (e->op == Op::Lin) { o << " " << sext(e->aux, e->w); for (size_t i = 0; i < e->k.size(); i++) o << " + " << sext(e->cf[i], e->w) << "*" << str(e->k[i], d - 1); o << ")"; return o.str(); }
  if (e->op == Op::Extract) o << "[" << e->aux << "+" << e->w << "]";
  if (e->op == Op::ZExt || e->op == Op::SExt) o << "->" << e->w;
  if (e->op == Op::ARead) o << " A" << e->aux << "," << e->aux2;
  for (E x : e->k) o << " " << str(x, d - 1);
  o << ")";
  return o.str();
}

// ---- z3 -------------------------------------------------------------------------------------------------------------
static Z3_context ctx;
static Z3_solver gslv[2];
static std::unordered_map<E, Z3_ast> zcV, zcB;
static std::map<std::pair<uint64_t, unsigned>, Z3_func_decl> arrDecl;
static bool zerr = false; static std::string zerrmsg;
static void onerr(Z3_context c, Z3_error_code e) { zerr = true; zerrmsg = Z3_get_error_msg(c, e); }
ModelBox::ModelBox(Z3_model mm) : m(mm) { Z3_model_inc_ref(ctx, m); }
ModelBox::~ModelBox() { Z3_model_dec_ref(ctx, m); }
void solverInit(unsigned t) {
  g_timeoutMs = t;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // AST lifetime: stack of scopes never popped
  Z3_set_error_handler(ctx, onerr);
  Z3_set_ast_print_mode(ctx, Z3_PRINT_SMTLIB2_COMPLIANT);
}
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
static Z3_ast zv(E e);
static Z3_ast zb(E e);
static Z3_ast zf(E e) { return Z3_mk_fpa_to_fp_bv(ctx, zv(e), fps(e->w)); }
// value as an FP term, avoiding a round trip through bits when possible
static Z3_ast zfp(E e) {
  Z3_ast rne = Z3_mk_fpa_rne(ctx);
  switch (e->op) {
    case Op::FAdd: return Z3_mk_fpa_add(ctx, rne, zfp(e->k[0]), zfp(e->k[1]));
    case Op::FSub: return Z3_mk_fpa_sub(ctx, rne, zfp(e->k[0]), zfp(e->k[1]));
    case Op::FMul: return Z3_mk_fpa_mul(ctx, rne, zfp(e->k[0]), zfp(e->k[1]));
    case Op::FDiv: return Z3_mk_fpa_div(ctx, rne, zfp(e->k[0]), zfp(e->k[1]));
    case Op::FExt: case Op::FTrunc: return Z3_mk_fpa_to_fp_float(ctx, rne, zfp(e->k[0]), fps(e->w));
    case Op::SI2F: return Z3_mk_fpa_to_fp_signed(ctx, rne, zv(e->k[0]), fps(e->w));
    case Op::UI2F: return Z3_mk_fpa_to_fp_unsigned(ctx, rne, zv(e->k[0]), fps(e->w));
    case Op::Ite: return Z3_mk_ite(ctx, zb(e->k[0]), zfp(e->k[1]), zfp(e->k[2]));
    default: return zf(e);
  }
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast zb(E e) {
  auto it = zcB.find(e); if (it != zcB.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case Op::Const: r = e->aux ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->aux), Z3_mk_bool_sort(ctx)); break;
    case Op::And: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case Op::Or: { Z3_ast a[2] = {zb(e->k[0]), zb(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case Op::Xor: if (isTrue(e->k[1])) r = Z3_mk_not(ctx, zb(e->k[0])); else r = Z3_mk_xor(ctx, zb(e->k[0]), zb(e->k[1])); break;
    case Op::Eq: r = Z3_mk_eq(ctx, zv(e->k[0]), zv(e->k[1])); break;
    case Op::Ult: r = Z3_mk_bvult(ctx, zv(e->k[0]), zv(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, zv(e->k[0]), zv(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, zv(e->k[0]), zv(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, zv(e->k[0]), zv(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(ctx, zb(e->k[0]), zb(e->k[1]), zb(e->k[2])); break;
    case Op::FOeq: r = Z3_mk_fpa_eq(ctx, zfp(e->k[0]), zfp(e->k[1])); break;
    case Op::FOlt: r = Z3_mk_fpa_lt(ctx, zfp(e->k[0]), zfp(e->k[1])); break;
    case Op::FOle: r = Z3_mk_fpa_leq(ctx, zfp(e->k[0]), zfp(e->k[1])); break;
    case Op::FUno: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, zfp(e->k[0])), Z3_mk_fpa_is_nan(ctx, zfp(e->k[1]))}; r = Z3_mk_or(ctx, 2, a); break; }
    default: r = Z3_mk_eq(ctx, zv(e), Z3_mk_unsigned_int64(ctx, 1, bv(1))); break;
  }
  keep(r); zcB[e] = r; return r;
}
static Z3_ast zv(E e) {
  auto it = zcV.find(e); if (it != zcV.end()) return it->second;
  Z3_ast r = nullptr;
  auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(ctx, zv(e->k[0]), zv(e->k[1])); };
  bool boolish = e->w == 1 && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule || e->op == Op::Slt || e->op == Op::Sle || e->op == Op::FOeq || e->op == Op::FOlt || e->op == Op::FOle || e->op == Op::FUno || e->op == Op::Sym || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Const || e->op == Op::Ite);
  if (boolish) r = Z3_mk_ite(ctx, zb(e), Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
  else switch (e->op) {
    case Op::Const: r = Z3_mk_unsigned_int64(ctx, e->aux, bv(e->w)); break;
    case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->aux), bv(e->w)); break;
    case Op::Lin: {
      for (size_t i = 0; i < e->k.size(); i++) {
        Z3_ast t = zv(e->k[i]); uint64_t c = e->cf[i]; bool neg = false;
        if (sext(c, e->w) < 0) { neg = true; c = (0 - c) & maskw(e->w); }
        if (c != 1) t = Z3_mk_bvmul(ctx, Z3_mk_unsigned_int64(ctx, c, bv(e->w)), t);
        if (!r) r = neg ? Z3_mk_bvneg(ctx, t) : t;
        else r = neg ? Z3_mk_bvsub(ctx, r, t) : Z3_mk_bvadd(ctx, r, t);
      }
      if (e->aux) r = Z3_mk_bvadd(ctx, r, Z3_mk_unsigned_int64(ctx, e->aux, bv(e->w)));
      break; }
    case Op::Mul: r = bin(Z3_mk_bvmul); break;
    case Op::UDiv: r = bin(Z3_mk_bvudiv); break;
    case Op::SDiv: r = bin(Z3_mk_bvsdiv); break;
    case Op::URem: r = bin(Z3_mk_bvurem); break;
    case Op::SRem: r = bin(Z3_mk_bvsrem); break;
    case Op::And: r = bin(Z3_mk_bvand); break;
    case Op::Or: r = bin(Z3_mk_bvor); break;
    case Op::Xor: r = bin(Z3_mk_bvxor); break;
    case Op::Shl: r = bin(Z3_mk_bvshl); break;
    case Op::LShr: r = bin(Z3_mk_bvlshr); break;
    case Op::AShr: r = bin(Z3_mk_bvashr); break;
    case Op::Ite: r = Z3_mk_ite(ctx, zb(e->k[0]), zv(e->k[1]), zv(e->k[2])); break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, zv(e->k[0])); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, zv(e->k[0])); break;
    case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, zv(e->k[0])); break;
    case Op::Concat: r = zv(e->k[0]); for (size_t i = 1; i < e->k.size(); i++) r = Z3_mk_concat(ctx, r, zv(e->k[i])); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FExt: case Op::FTrunc: case Op::SI2F: case Op::UI2F:
      r = Z3_mk_fpa_to_ieee_bv(ctx, zfp(e)); break;
    case Op::F2SI: case Op::F2UI: {
      Z3_ast x = zfp(e->k[0]); Z3_sort fs = fps(e->k[0]->w); unsigned c = convBits(e->op, e->w);
      auto num = [&](double d) { return Z3_mk_fpa_numeral_double(ctx, d, fs); };
      if (e->k[0]->w == 32 && c == 32) { Z3_ast a[2] = {Z3_mk_fpa_geq(ctx, x, num(-2147483648.0)), Z3_mk_fpa_lt(ctx, x, num(2147483648.0))}; r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, a), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, 32), Z3_mk_unsigned_int64(ctx, 0x80000000ull, bv(32))); }
      else if (c == 32) { Z3_ast a[2] = {Z3_mk_fpa_gt(ctx, x, num(-2147483649.0)), Z3_mk_fpa_lt(ctx, x, num(2147483648.0))}; r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, a), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, 32), Z3_mk_unsigned_int64(ctx, 0x80000000ull, bv(32))); }
      else {
        const double P63 = 9223372036854775808.0;
        Z3_ast a[2] = {Z3_mk_fpa_geq(ctx, x, num(-P63)), Z3_mk_fpa_lt(ctx, x, num(P63))};
        r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, a), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, 64), Z3_mk_unsigned_int64(ctx, 1ull << 63, bv(64)));
        if (e->op == Op::F2UI && e->w == 64) r = Z3_mk_ite(ctx, Z3_mk_fpa_geq(ctx, x, num(P63)), Z3_mk_ite(ctx, Z3_mk_fpa_lt(ctx, x, num(2 * P63)), Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), x, 64), Z3_mk_unsigned_int64(ctx, 0, bv(64))), r);
      }
      if (e->w < c) r = Z3_mk_extract(ctx, e->w - 1, 0, r);
      break; }
    case Op::ARead: {
      auto key = std::make_pair(e->aux, (unsigned)e->aux2); auto jt = arrDecl.find(key);
      if (jt == arrDecl.end()) {
        Z3_sort d = bv(64); char nm[64]; snprintf(nm, sizeof nm, "A%llu_%u", (unsigned long long)e->aux, (unsigned)e->aux2);
        Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm), 1, &d, bv(e->w)); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f));
        jt = arrDecl.emplace(key, f).first;
      }
      Z3_ast a = zv(e->k[0]); r = Z3_mk_app(ctx, jt->second, 1, &a); break; }
    default: fprintf(stderr, "zv: bad op %d\n", (int)e->op); abort();
  }
  if (zerr) { fprintf(stderr, "z3 error: %s in %s\n", zerrmsg.c_str(), str(e).c_str()); zerr = false; abort(); }
  keep(r); zcV[e] = r; return r;
}
static bool usesFP(E e, std::unordered_map<E, bool>& memo) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = (e->op >= Op::FAdd && e->op <= Op::F2UI);
  for (E k : e->k) if (!r && usesFP(k, memo)) r = true;
  memo[e] = r; return r;
}
static void boundsFor(const std::set<uint32_t>& ss, std::vector<Z3_ast>& out) {
  for (uint32_t s : ss) {
    if (s & 0x80000000u) continue;
    auto& si = g_syms[s]; if (si.w == 1 || si.w > 64) continue;
    int64_t lo, hi; fullRange(si.w, lo, hi);
    Z3_ast v = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)s), bv(si.w));
    if (si.lo > lo) out.push_back(Z3_mk_bvsle(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)si.lo & maskw(si.w), bv(si.w)), v));
    if (si.hi < hi) out.push_back(Z3_mk_bvsle(ctx, v, Z3_mk_unsigned_int64(ctx, (uint64_t)si.hi & maskw(si.w), bv(si.w))));
  }
}
static std::map<std::vector<uint32_t>, Sat> g_unsatCache;
Sat solve(const std::vector<E>& cs0, ModelP* model, unsigned tmo) {
  std::vector<E> cs;
  for (E c : cs0) { if (isTrue(c)) continue; if (isFalse(c)) return Sat::Unsat; cs.push_back(c); }
  std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto ct = g_unsatCache.find(key);
  if (ct != g_unsatCache.end() && ct->second == Sat::Unsat) { g_ss.cacheHits++; return Sat::Unsat; }
  if (ct != g_unsatCache.end() && !model) { g_ss.cacheHits++; return ct->second; }
  auto t0 = std::chrono::steady_clock::now();
  std::unordered_map<E, bool> memo; bool fp = false; std::set<uint32_t> ss; bool arr = false;
  for (E c : cs) { if (!fp && usesFP(c, memo)) fp = true; for (uint32_t s : symsOf(c)) { ss.insert(s); if (s & 0x80000000u) arr = true; } }
  Z3_solver s;
  if (fp) s = Z3_mk_solver(ctx);
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, arr ? "QF_UFBV" : "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo ? tmo : g_timeoutMs);
  Z3_solver_set_params(ctx, s, p);
  for (E c : cs) Z3_solver_assert(ctx, s, zb(c));
  std::vector<Z3_ast> bs; boundsFor(ss, bs);
  for (Z3_ast b : bs) Z3_solver_assert(ctx, s, b);
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (zerr) { zerr = false; r = Z3_L_UNDEF; }
  Sat res = r == Z3_L_TRUE ? Sat::Sat : r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown;
  if (res == Sat::Sat && model) { Z3_model m = Z3_solver_get_model(ctx, s); *model = std::make_shared<ModelBox>(m); }
  Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++; g_ss.seconds += dt; g_ss.maxq = std::max(g_ss.maxq, dt);
  if (res == Sat::Sat) g_ss.sat++; else if (res == Sat::Unsat) g_ss.unsat++; else g_ss.unknown++;
  if (res != Sat::Unknown) g_unsatCache[key] = res;
  if (getenv("ODCV_SLOW") && dt > 1.0) { fprintf(stderr, "[slow %.1fs res=%d]\n", dt, (int)res); for (E c : cs) fprintf(stderr, "   %s\n", str(c, 8).c_str()); }
  return res;
}
bool modelEval(const ModelP& m, E e, uint64_t& out) {
  if (isC(e)) { out = e->aux; return true; }
  if (e->w == 1) { bool b; if (!modelEvalBool(m, e, b)) return false; out = b; return true; }
  if (e->w > 64) return false;
  Z3_ast r = nullptr;
  if (!Z3_model_eval(ctx, m->m, zv(e), true, &r) || !r) { zerr = false; return false; }
  uint64_t v; if (Z3_get_ast_kind(ctx, r) != Z3_NUMERAL_AST || !Z3_get_numeral_uint64(ctx, r, &v)) { zerr = false; return false; }
  out = v; return true;
}
bool modelEvalBool(const ModelP& m, E e, bool& out) {
  if (isC(e)) { out = e->aux; return true; }
  Z3_ast r = nullptr;
  if (!Z3_model_eval(ctx, m->m, zb(e), true, &r) || !r) { zerr = false; return false; }
  Z3_lbool b = Z3_get_bool_value(ctx, r);
  if (b == Z3_L_UNDEF) return false;
  out = b == Z3_L_TRUE; return true;
}
std::string toSmt2(const std::vector<E>& cs) {
  Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
  std::set<uint32_t> ss;
  for (E c : cs) { Z3_solver_assert(ctx, s, zb(c)); for (uint32_t x : symsOf(c)) ss.insert(x); }
  std::vector<Z3_ast> bs; boundsFor(ss, bs); for (Z3_ast b : bs) Z3_solver_assert(ctx, s, b);
  std::string r = Z3_solver_to_string(ctx, s); Z3_solver_dec_ref(ctx, s); return r;
}
}
