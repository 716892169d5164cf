// C18: the comparison of two data sets reports a difference exactly when there is one. Public interfaces only.
#include "pipe.h"
#include "odc/Comparator.h"
#include "odc/MDI.h"
#include "odc/Reader.h"
#include "odc/core/MetaData.h"
using namespace H;
using odc::core::MetaData;
struct CHandle : VHandle { using VHandle::VHandle; eckit::DataHandle* clone() const override { return new CHandle(rd, rdlen); } };
static bool differ(const VHandle& a, const VHandle& b, bool flags) {
  CHandle x(a.own.data(), a.own.size()), y(b.own.data(), b.own.size());
  try { odc::Comparator(!flags).compare(x, y); } catch (std::exception&) { return true; }
  return false;
}
// ---- one cell: the contract of the comparison of two rows, whole domains -------------------------------------------------
static void column(MetaData& m, ColumnType t, bool hm, double miss) { m.setSize(1); m[0]->name("a"); m[0]->type<odc::core::SameByteOrder>(t); if (t != STRING) m[0]->missingValue(miss); m[0]->hasMissing(hm); }
static bool cells(ColumnType t, double a, double b, bool skip, bool h1, bool h2, double m1, double m2) {
  MetaData x(0), y(0); column(x, t, h1, m1); column(y, t, h2, m2); odc::Comparator c(skip);
  try { c.compare(1, &a, &b, x, y); } catch (std::exception&) { return true; }
  return false;
}
static void ints(ColumnType t) {
  bool d = v_choose("asDoubles", 2); asDoubles(d); bool skip = v_choose("skip", 2), h1 = v_choose("hm1", 2), h2 = v_choose("hm2", 2);
  int64_t i = v_range("i", INT32_MIN, INT32_MAX), j = v_range("j", INT32_MIN, INT32_MAX); double a, b; if (d) { a = (double)i; b = (double)j; } else { ::memcpy(&a, &i, 8); ::memcpy(&b, &j, 8); }
  bool x = (skip || h1) && i == 77, y = (skip || h2) && j == 78;
  v_check(cells(t, a, b, skip, h1, h2, 77, 78) == (x != y || (!x && i != j)), "differs-exactly-when-different"); v_cover("done");
}
HARNESS(B_int_cell) { ints(INTEGER); }
HARNESS(B_bitfield_cell) { ints(BITFIELD); }
HARNESS(B_equal_doubles) {  // equal numbers, infinities included; a NaN equals nothing
  double a = v_double("a"); bool skip = v_choose("skip", 2), h = v_choose("hm", 2); ColumnType t = v_choose("real", 2) ? REAL : DOUBLE;
  v_check(cells(t, a, a, skip, h, h, -5, -5) == (a != a), "equal-is-equal"); v_cover("done");
}
HARNESS(B_unequal_doubles) {  // apart from each other by more than any tolerance, and one of them missing
  static const double V[7] = {0, 1, -1, 1.0001, -1e300, __builtin_inf(), -__builtin_inf()};
  size_t i = v_choose("i", 7), j = v_choose("j", 7); bool skip = v_choose("skip", 2), h1 = v_choose("hm1", 2), h2 = v_choose("hm2", 2); double m1 = v_choose("m1", 2) ? V[i] : -5, m2 = v_choose("m2", 2) ? V[j] : -5;
  bool x = (skip || h1) && m1 == V[i], y = (skip || h2) && m2 == V[j]; ColumnType t = v_choose("real", 2) ? REAL : DOUBLE;
  bool same = t == REAL ? (float)V[i] == (float)V[j] : V[i] == V[j];
  v_check(cells(t, V[i], V[j], skip, h1, h2, m1, m2) == (x != y || (!x && !same)), "differs-exactly-when-different"); v_cover("done");
}
HARNESS(B_tolerance) {  // a factor of 1e-10 is within, of 1e-8 without, whatever the magnitude and the side
  static const double V[5] = {1, -1, 1e-3, 1e10, -3e200}; double a = V[v_choose("v", 5)]; bool near = v_choose("near", 2), up = v_choose("up", 2), sw = v_choose("swap", 2); double e = near ? 1e-10 : 1e-8, b = up ? a * (1 + e) : a * (1 - e);
  v_check(cells(DOUBLE, sw ? b : a, sw ? a : b, v_choose("skip", 2), false, false, -5, -5) == !near, "tolerance"); v_cover("done");
}
HARNESS(B_string_cell) {  // widths may differ: what counts is the text
  MetaData m1(0), m2(0); size_t w1 = 1 + v_choose("w1", 2), w2 = 1 + v_choose("w2", 2); column(m1, STRING, false, 0); column(m2, STRING, false, 0); m1[0]->dataSizeDoubles(w1); m2[0]->dataSizeDoubles(w2);
  double a[2] = {0, 0}, b[2] = {0, 0}; unsigned char *p = (unsigned char*)a, *q = (unsigned char*)b; static const size_t L[5] = {0, 1, 7, 8, 9};
  size_t n1 = std::min(L[v_choose("n1", 5)], w1 * 8), n2 = std::min(L[v_choose("n2", 5)], w2 * 8); ::memset(p, 'x', n1); ::memset(q, 'x', n2);
  size_t at = v_choose("at", 3); at = at == 0 ? 0 : at == 1 ? 6 : 8; if (at < n1) v_bytes(p + at, 1, "p"); if (at < n2) v_bytes(q + at, 1, "q");
  size_t l1 = ::strnlen((char*)p, w1 * 8), l2 = ::strnlen((char*)q, w2 * 8); bool same = l1 == l2; for (size_t k = 0; k < l1 && same; k++) same = p[k] == q[k];
  bool thrown = false; try { odc::Comparator(true).compare(1, a, b, m1, m2); } catch (std::exception&) { thrown = true; }
  v_check(thrown == !same, "differs-exactly-when-different"); v_cover("done");
}
// ---- whole data sets -------------------------------------------------------------------------------------------------------
static Tab table(size_t rows) {
  Tab t; t.add("s", STRING, 16); t.add("i@t", INTEGER); Col& c = t.add("b", BITFIELD); c.bits = {{"x", 1, 0}, {"y", 2, 1}}; t.add("d", DOUBLE); t.add("k", INTEGER); t.add("z", STRING, 8);
  for (size_t r = 0; r < rows; r++) { unsigned char b[16] = {0}; ::memcpy(b, r ? "abcdefghijk" : "xyz", r ? 11 : 3); t.put(0, b); t.putI(1, r == 1 ? 2147483647 : 4); t.putI(2, r); t.putD(3, 1.5 * r); t.putI(4, 1000000000); unsigned char e[8] = {0}; t.put(5, e); }
  return t;
}
HARNESS(B_equal_sets) {  // the same rows, however they are cut into frames
  asDoubles(false); Tab t = table(4); VHandle a, b; size_t x = 1 + v_choose("cut1", 4), y = 1 + v_choose("cut2", 4); enc(t, a, {}, x); enc(t, b, {}, y);
  v_check(!differ(a, b, false), "no-difference"); if (x == y) v_check(!differ(a, b, true), "no-difference"); v_cover("done");
}
HARNESS(B_one_cell) {  // one cell differs
  asDoubles(false); Tab t = table(4), u = table(4); size_t r = v_choose("row", 4), c = v_choose("col", 6);
  int64_t i; ::memcpy(&i, u.c[c].v[r].data(), 8); double d; ::memcpy(&d, u.c[c].v[r].data(), 8);
  if (c == 0 || c == 5) u.c[c].v[r][v_choose("at", 2) && c == 0 && r ? 10 : 0] = 'q'; else if (c == 3) { d += 0.001; ::memcpy(u.c[c].v[r].data(), &d, 8); } else { i += v_choose("down", 2) ? 1 : -1; ::memcpy(u.c[c].v[r].data(), &i, 8); }
  VHandle a, b; enc(t, a, {}, 3); enc(u, b, {}, 1 + v_choose("cut", 4)); bool sw = v_choose("swap", 2); v_check(differ(sw ? a : b, sw ? b : a, false), "difference"); v_cover("done");
}
HARNESS(B_rows) {  // more rows in one than in the other
  asDoubles(false); size_t m = 1 + v_choose("m", 4), n = 1 + v_choose("n", 4); Tab t = table(m), u = table(n); VHandle a, b; enc(t, a, {}, 1 + v_choose("cut", 3)); enc(u, b, {}, 2);
  v_check(differ(a, b, false) == (m != n), "number-of-rows"); v_cover("done");
}
HARNESS(B_columns) {  // columns differ in number, name, type, bits, order
  asDoubles(false); size_t k = v_choose("how", 9); size_t late = v_choose("late", 2); Tab t = table(2), u = table(2);
  switch (k) { case 0: break; case 1: u.c.pop_back(); break; case 2: u.c[3].name = "D"; break; case 3: u.c[1].name = "i"; break; case 4: u.c[4].type = BITFIELD; break; case 5: u.c[2].bits[0].name = "w"; break; case 6: u.c[2].bits[1].size = 1; break; case 7: std::swap(u.c[1], u.c[4]); break; default: u.c[3].type = REAL; }
  VHandle a, b; if (late) { Tab f = table(2); enc(f, a); enc(f, b); } enc(t, a); enc(u, b); bool sw = v_choose("swap", 2);
  v_check(differ(sw ? a : b, sw ? b : a, false) == (k != 0), "columns"); v_cover("done");
}
HARNESS(B_excluded) {  // excluded columns are not looked at, all others are
  asDoubles(false); Tab t = table(3), u = table(3); size_t c = v_choose("col", 6), e = v_choose("excluded", 7);
  u.c[c].v[2][0] ^= 1; if (c == 5) u.c[5].v[2][0] = 'w'; if (c == 3) { double d = 9; ::memcpy(u.c[c].v[2].data(), &d, 8); }
  VHandle a, b; enc(t, a); enc(u, b); CHandle x(a.own.data(), a.own.size()), y(b.own.data(), b.own.size());
  odc::Reader r1(x), r2(y); auto i1 = r1.begin(); auto e1 = r1.end(); auto i2 = r2.begin(); auto e2 = r2.end(); std::vector<std::string> ex; if (e < 6) ex.push_back(t.c[e].name); ex.push_back("other");
  bool thrown = false; try { odc::Comparator(true).compare(i1, e1, i2, e2, "1", "2", {}, ex); } catch (std::exception&) { thrown = true; }
  v_check(thrown == (c != e), "excluded"); v_cover("done");
}
HARNESS(B_excluded_width) {  // an excluded column may be of another width
  asDoubles(false); Tab t = table(3), u; u.add("s", STRING, 24); size_t c = v_choose("col", 6); for (size_t k = 1; k < t.c.size(); k++) u.c.push_back(t.c[k]);
  for (size_t r = 0; r < 3; r++) { unsigned char b[24] = {0}; ::memcpy(b, "a text of twenty one.", 21); u.put(0, b); }
  if (c == 1 || c == 2 || c == 4) u.c[c].v[2][0] ^= 1; if (c == 5) u.c[5].v[2][0] = 'w'; if (c == 3) { double d = 9; ::memcpy(u.c[c].v[2].data(), &d, 8); }
  VHandle a, b; enc(t, a); enc(u, b); bool sw = v_choose("swap", 2); CHandle x(a.own.data(), a.own.size()), y(b.own.data(), b.own.size());
  odc::Reader r1(sw ? y : x), r2(sw ? x : y); auto i1 = r1.begin(); auto e1 = r1.end(); auto i2 = r2.begin(); auto e2 = r2.end();
  bool thrown = false; try { odc::Comparator(true).compare(i1, e1, i2, e2, "1", "2", {}, {"s"}); } catch (std::exception&) { thrown = true; }
  v_check(thrown == (c != 0), "excluded"); v_cover("done");
}
