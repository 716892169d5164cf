// C13: a span lists exactly the distinct values of the requested columns. Public interface only.
#include <set>
#include "pipe.h"
#include "fmt.h"
using namespace H;
template <class T> static bool sameSet(const std::set<T>& a, const std::vector<T>& rows) {
  for (auto& x : rows) if (!a.count(x)) return false;
  for (auto& x : a) { bool in = false; for (auto& y : rows) if (y == x) in = true; if (!in) return false; }
  return true;
}
static std::string str(const Col& c, size_t r) { const char* p = (const char*)c.v[r].data(); return std::string(p, ::strnlen(p, c.width)); }
struct Count : SpanVisitor { int n = 0; void operator()(const std::string&, const std::set<long>&) override { n++; } void operator()(const std::string&, const std::set<double>&) override { n += 10; } void operator()(const std::string&, const std::set<std::string>&) override { n += 100; } };
static void cmpSpan(const odc::api::Span& s, const Tab& t, const std::vector<size_t>& cols) {
  bool dbl = odc::ODBAPISettings::instance().integersAsDoubles();
  int want = 0;
  for (size_t k : cols) {
    auto& c = t.c[k];
    if (integral(c.type)) { want++; std::vector<long> v; for (auto& x : c.v) v.push_back(dbl ? (long)ldD(x.data()) : ldI(x.data())); v_check(sameSet(s.getIntegerValues(c.name), v), "integer-values"); }
    else if (c.type == STRING) { want += 100; std::vector<std::string> v; for (size_t r = 0; r < t.rows; r++) v.push_back(str(c, r)); v_check(sameSet(s.getStringValues(c.name), v), "string-values"); }
    else { want += 10; std::vector<double> v; for (auto& x : c.v) v.push_back(ldD(x.data())); v_check(sameSet(s.getRealValues(c.name), v), "real-values"); }
  }
  Count n; s.visit(n); v_check(n.n == want, "only-the-requested-columns");
}
// kinds per column: 0 constant, 1 two values, 2 all different, 3 with missing, 4 only missing
static int64_t iv(int kind, size_t r) { switch (kind) { case 0: return 42; case 1: return r % 2 ? 1000000 : -3; case 2: return (int64_t)r * 50 - 7; case 3: return r == 1 ? 2147483647 : 5; default: return 2147483647; } }
static double dv(int kind, size_t r) { switch (kind) { case 0: return 1.25; case 1: return r % 2 ? 0.1 : -3; case 2: return r * 0.3; case 3: return r == 1 ? -2147483647.0 : 0.5; default: return -2147483647.0; } }
static void sv(int kind, size_t r, unsigned char* b, size_t w) { ::memset(b, 0, w); switch (kind) { case 0: ::memset(b, 'c', w); break; case 1: ::memset(b, r % 2 ? 'x' : 'y', r % 2 ? w : 3); break; case 2: b[0] = 'a' + r; ::memset(b + 1, 'q', w - 1); break; case 3: if (r != 1) ::memset(b, 'z', w > 8 ? 9 : 5); break; default: break; } }
static Tab table(size_t rows, int ki, int kd, int ks, size_t w, bool dbl) {
  asDoubles(dbl);
  Tab t; t.add("i@t", INTEGER); t.add("d@t", DOUBLE); t.add("s@t", STRING, w); t.add("r", REAL); t.add("b", BITFIELD);
  for (size_t r = 0; r < rows; r++) { putInt(t, 0, dbl, iv(ki, r)); t.putD(1, dv(kd, r)); unsigned char b[64]; sv(ks, r, b, w); t.put(2, b); t.putD(3, kd == 2 ? 0.5 * r : 0.5); putInt(t, 4, dbl, ki == 3 ? 1 : (int64_t)(r % 2)); }
  return t;
}
static void one(size_t rows, bool agg) {
  bool dbl = v_choose("as-doubles", 2);
  size_t w = v_choose("width", 2) ? 24 : 8;
  int ki = (int)v_choose("ki", 5), kd = (int)v_choose("kd", 5), ks = (int)v_choose("ks", 5);
  Tab t = table(rows, ki, kd, ks, w, dbl);
  VHandle out; enc(t, out); size_t len = out.own.size(); if (agg) enc(t, out);
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, agg); Frame f = rd.next();
  odc::api::Span s = f.span({"i@t", "d@t", "s@t", "r", "b"}, false);
  v_check((long long)s.offset() == 0 && (long long)s.length() == (long long)out.own.size() / 1, "extent");
  cmpSpan(s, t, {0, 1, 2, 3, 4});
  (void)len; v_cover("done");
}
HARNESS(B_all_kinds) { one(3, false); }
HARNESS(B_aggregated) { 
  bool dbl = false; int k1 = (int)v_choose("k1", 5), k2 = (int)v_choose("k2", 5); Tab a = table(2, k1, k1, 0, 8, dbl), b = table(3, k2, k2, 0, 8, dbl);
  VHandle out; enc(a, out); enc(b, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, true); Frame f = rd.next();
  v_check(f.rowCount() == 5, "one-frame");
  for (size_t c = 0; c < a.c.size(); c++) for (auto& x : b.c[c].v) a.c[c].v.push_back(x); a.rows = 5;
  odc::api::Span s = f.span({"b", "i@t", "s@t", "d@t"}, false); cmpSpan(s, a, {0, 1, 2, 4});
  v_check((long long)s.length() == (long long)out.own.size() && (long long)s.offset() == 0, "extent"); v_cover("done"); }
// subsets; only constants allowed
HARNESS(B_only_constants) {
  int ki = (int)v_choose("ki", 5), kd = (int)v_choose("kd", 5), ks = (int)v_choose("ks", 5);
  Tab t = table(3, ki, kd, ks, 8, false);
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  size_t sub = v_choose("subset", 8); std::vector<std::string> nm; std::vector<size_t> ix; bool varies = false;
  if (sub & 1) { nm.push_back("i@t"); ix.push_back(0); varies |= ki != 0 && ki != 4; }
  if (sub & 2) { nm.push_back("d@t"); ix.push_back(1); varies |= kd != 0 && kd != 4; }
  if (sub & 4) { nm.push_back("s@t"); ix.push_back(2); varies |= ks != 0 && ks != 4; }
  bool thrown = false;
  try { odc::api::Span s = f.span(nm, true); cmpSpan(s, t, ix); } catch (std::exception&) { thrown = true; }
  if (varies) v_check(thrown, "not-constant-is-refused");
  bool onlyConst = true; if (sub & 1) onlyConst &= ki == 0; if (sub & 2) onlyConst &= kd == 0; if (sub & 4) onlyConst &= ks == 0;
  if (onlyConst) v_check(!thrown, "constant-is-accepted");
  v_cover("done");
}
HARNESS(B_unknown) {
  Tab t = table(2, (int)v_choose("k", 3), 0, 0, 8, false); VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  static const char* N[] = {"x", "i@", "i@u", "ii", "I@t", "@t"};
  bool thrown = false; try { f.span({"d@t", N[v_choose("name", 6)]}, v_choose("const", 2)); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "unknown-column-refused"); v_cover("done");
}
HARNESS(B_free_ints) {  // all integer values free
  asDoubles(false); Tab t; t.add("i", INTEGER); t.add("k", INTEGER);
  for (int r = 0; r < 2; r++) { t.putI(0, v_range("i", INT32_MIN, INT32_MAX)); t.putI(1, 3); }
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  odc::api::Span s = f.span({"i"}, false); auto& g = s.getIntegerValues("i");
  long a = ldI(t.c[0].v[0].data()), b = ldI(t.c[0].v[1].data());
  bool same = a == b; v_check(g.size() == (same ? 1u : 2u), "number-of-values"); v_check(g.count(a) && g.count(b), "integer-values"); v_cover("done");
}
HARNESS(B_free_constant) {
  asDoubles(v_choose("as-doubles", 2)); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("s", STRING, 8);
  int64_t x = v_range("i", INT32_MIN, INT32_MAX); double d = v_double("d"); v_assume(d == d); unsigned char b[8]; ::memset(b, 0, 8); v_bytes(b, 2, "s");
  for (int r = 0; r < 2; r++) { putInt(t, 0, odc::ODBAPISettings::instance().integersAsDoubles(), x); t.putD(1, d); t.put(2, b); }
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  odc::api::Span s = f.span({"i", "d", "s"}, false);
  auto& gi = s.getIntegerValues("i"); v_check(gi.size() == 1 && *gi.begin() == x, "integer-values");
  auto& gd = s.getRealValues("d"); v_check(gd.size() == 1 && *gd.begin() == d, "real-values");
  auto& gs = s.getStringValues("s"); size_t n = ::strnlen((char*)b, 8); v_check(gs.size() == 1 && gs.begin()->size() == n && ::memcmp(gs.begin()->data(), b, n) == 0, "string-values");
  v_cover("done");
}
HARNESS(B_nan) {  // a NaN is equal to nothing: neither listed nor in the way of the others
  asDoubles(true); Tab t; t.add("d", DOUBLE); t.add("r", REAL); size_t at = v_choose("nan", 5); double n = __builtin_nan(""), v[5] = {3, 1, 2, 5, 4};
  std::vector<double> w; for (size_t r = 0; r < 5; r++) { bool isn = r == at || (r == 0 && v_choose("two", 2)); t.putD(0, isn ? n : v[r]); t.putD(1, isn ? n : v[r]); if (!isn) w.push_back(v[r]); }
  VHandle out; enc(t, out); enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, v_choose("aggregated", 2)); Frame f = rd.next();
  odc::api::Span s = f.span({"d", "r"}, false); v_check(sameSet(s.getRealValues("d"), w) && sameSet(s.getRealValues("r"), w), "real-values");
  v_check(s.getRealValues("d").size() == w.size() && s.getRealValues("r").size() == w.size(), "number-of-values"); v_cover("done");
}
HARNESS(B_only_nan) {
  asDoubles(true); Tab t; t.add("d", DOUBLE); t.add("i", INTEGER); for (int r = 0; r < 2; r++) { t.putD(0, __builtin_nan("")); t.putD(1, r); }
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  odc::api::Span s = f.span({"d"}, false); v_check(s.getRealValues("d").empty(), "real-values"); v_cover("done");
}
HARNESS(B_left_out) {  // columns left out of the first row hold the missing value there
  bool dbl = v_choose("as-doubles", 2), other = v_choose("otherOrder", 2); asDoubles(dbl); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("k", INTEGER);
  for (size_t r = 0; r < 3; r++) { putInt(t, 0, dbl, r == 0 ? 2147483647 : 5 + (int)r * 300); t.putD(1, r == 0 ? -2147483647. : 0.1 * r); putInt(t, 2, dbl, r); }
  VHandle e; enc(t, e); F::Frame fr; if (!F::parse(e.own.data(), e.own.size(), fr)) { v_check(false, "format"); return; }
  size_t n = v_choose("left-out", 3); fr.row[0].start = n; fr.row[0].cell.erase(fr.row[0].cell.begin(), fr.row[0].cell.begin() + n);
  fr.dataSize = 0; for (auto& r : fr.row) { fr.dataSize += 2; for (auto& c : r.cell) fr.dataSize += c.size(); }
  F::Bytes b = F::emit(fr, other); cmpStream(b.data(), b.size(), t);
  VHandle in(b.data(), b.size()); Reader rd(in, false); Frame f = rd.next(); odc::api::Span s = f.span({"i", "d", "k"}, false); cmpSpan(s, t, {0, 1, 2}); v_cover("done");
}
