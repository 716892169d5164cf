// C22: configured missing values. Public interface only.
#include "pipe.h"
using namespace H;
static void setI(int64_t m) { odc::api::Settings::setIntegerMissingValue((long)m); v_check(odc::api::Settings::integerMissingValue() == (long)m, "setting-reads-back"); }
static void setD(double m) { odc::api::Settings::setDoubleMissingValue(m); v_check(sameD(odc::api::Settings::doubleMissingValue(), m), "setting-reads-back"); }
static void roundtrip2(const Tab& t, bool ints, int64_t i2, double d2) {
  VHandle out; enc(t, out); if (ints) setI(i2); else setD(d2);
  cmpStream(out.own.data(), out.own.size(), t); v_cover("done");
}
static const int64_t MI[] = {2147483647, 0, -1, 1, -2147483648LL, 255, 65535, 1000};
static const int64_t VI[] = {0, 1, 254, 255, 256, 65534, 65535, -1, 2147483647, -2147483648LL};
// integers: any missing value and any two values, with and without missing cells; the setting is another one when decoding
static void ints(int rows, ColumnType ty, bool dbl) {
  asDoubles(dbl); int64_t m = v_range("missing", INT32_MIN, INT32_MAX); setI(m); Tab t; t.add("c", ty);
  size_t mask = v_choose("mask", (uint64_t)1 << rows);
  for (int r = 0; r < rows; r++) putInt(t, 0, dbl, (mask >> r) & 1 ? m : v_range("v", INT32_MIN, INT32_MAX));
  roundtrip2(t, true, MI[v_choose("then", 3)], 0);
}
HARNESS(B_integer_1) { ints(1, v_choose("bitfield", 2) ? BITFIELD : INTEGER, v_choose("asDoubles", 2)); }
HARNESS(B_integer_2_long) { ints(2, INTEGER, false); }
HARNESS(B_integer_2_double_T) { ints(2, INTEGER, true); }
HARNESS(B_bitfield_2_T) { ints(2, BITFIELD, false); }
HARNESS(B_integer_3_T) { ints(3, INTEGER, false); }
// the edges of the storage forms
HARNESS(B_integer_edges) {
  bool dbl = v_choose("asDoubles", 2); asDoubles(dbl); int64_t m = MI[v_choose("missing", 6)]; setI(m); Tab t; t.add("c", INTEGER); size_t k = v_choose("a", 8); int64_t a = VI[k], b = VI[(k + 1 + v_choose("b", 2)) % 10];
  putInt(t, 0, dbl, a); putInt(t, 0, dbl, m); putInt(t, 0, dbl, b); putInt(t, 0, dbl, a); roundtrip2(t, true, MI[4], 0);
}
// one value of the storage form is symbolic: distance of a value from the smallest
HARNESS(B_integer_offsets) {
  asDoubles(false); int64_t m = v_range("missing", INT32_MIN, INT32_MAX); setI(m); Tab t; t.add("c", INTEGER); int64_t base = v_choose("base", 2) ? -7 : 100000;
  t.putI(0, base); t.putI(0, base + v_range("d", 0, 70000)); if (v_choose("hasMissing", 2)) t.putI(0, m); roundtrip2(t, true, 5, 0);
}
static void dbls(ColumnType ty, size_t w, bool flt) {
  asDoubles(false); double m = flt ? (double)v_float("missing") : v_double("missing"); setD(m); Tab t; t.add("c", ty);
  double a = ty == REAL ? (double)v_float("a") : v_double("a");
  if (w == 0) t.putD(0, a); else if (w == 1) { t.putD(0, m); t.putD(0, m); } else if (w == 2) { t.putD(0, a); t.putD(0, m); } else { t.putD(0, m); t.putD(0, 1.5); t.putD(0, a); }
  static const double D2[] = {0.0, -2147483647.0, 1e300}; 
  VHandle out; bool refused = false;
  try { enc(t, out); } catch (std::exception&) { refused = true; }
  if (refused) {  // the one refusal allowed: a REAL column holding both values reserved by the short storage forms
    bool r1 = false, r2 = false; for (auto& v : t.c[0].v) { float f = (float)ldD(v.data()); uint32_t b; ::memcpy(&b, &f, 4); r1 = r1 || b == 0x00800000u; r2 = r2 || b == 0xff7fffffu; }
    v_check(ty == REAL && r1 && r2, "only-reserved-values-are-refused"); v_cover("refused"); return;
  }
  setD(w == 2 ? D2[v_choose("then", 3)] : 1e300); cmpStream(out.own.data(), out.own.size(), t); v_cover("done");
}
HARNESS(B_double_present) { dbls(DOUBLE, 0, false); }
HARNESS(B_double_missing) { dbls(DOUBLE, 1, false); }
HARNESS(B_double_both) { dbls(DOUBLE, 2, false); }
HARNESS(B_double_three_T) { dbls(DOUBLE, 3, false); }
HARNESS(B_real_present) { dbls(REAL, 0, v_choose("float", 2)); }
HARNESS(B_real_missing) { dbls(REAL, 1, v_choose("float", 2)); }
HARNESS(B_real_both) { dbls(REAL, 2, v_choose("float", 2)); }
HARNESS(B_real_three_T) { dbls(REAL, 3, v_choose("float", 2)); }
// the settings differ between the parts of an aggregated frame; every part keeps its own
HARNESS(B_parts) {
  bool dbl = v_choose("asDoubles", 2); asDoubles(dbl); Tab all; all.add("i", INTEGER); all.add("d", DOUBLE); all.add("r", REAL); VHandle out;
  static const double MD[] = {-2147483647.0, 0.0, 3.25};
  for (int p = 0; p < 2; p++) {
    int64_t m = MI[v_choose("mi", 4)]; double d = MD[v_choose("md", 3)]; setI(m); setD(d); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("r", REAL);
    for (int r = 0; r < 3; r++) for (Tab* x : {&t, &all}) { putInt(*x, 0, dbl, r == 1 ? m : r + 40 * p); x->putD(1, r == 2 ? d : 0.1 * r); x->putD(2, r == 0 ? d : 0.5 * r); }
    enc(t, out);
  }
  setI(77); setD(0.1); cmpStream(out.own.data(), out.own.size(), all, v_choose("aggregated", 2)); v_cover("done");
}
// strings are not affected
HARNESS(B_strings) {
  asDoubles(false); setI(MI[v_choose("missing", 8)]); setD(v_choose("zero", 2) ? 0.0 : asd(0x4141414141414141)); Tab t; t.add("s", STRING, 16); unsigned char z[16] = {0}, a[16] = "AAAAAAAAAAAAAAA", b[16] = "AAAAAAAA";
  for (int r = 0; r < 3; r++) { size_t k = v_choose("s", 3); t.put(0, k == 0 ? z : k == 1 ? a : b); }
  roundtrip2(t, true, 3, 0);
}
// the span shows the values too
HARNESS(B_span) {
  asDoubles(false); int64_t m = MI[v_choose("missing", 5)]; setI(m); setD(0.5); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); bool c = v_choose("constant", 2); for (int r = 0; r < 2; r++) { t.putI(0, c || r ? m : 12); t.putD(1, c || r ? 0.5 : 0.7); }
  VHandle out; enc(t, out); setI(99); setD(0.25); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next(); odc::api::Span s = f.span({"i", "d"}, false);
  std::set<long> wi{(long)m}; std::set<double> wd{0.5}; if (!c) { wi.insert(12); wd.insert(0.7); } v_check(s.getIntegerValues("i") == wi && s.getRealValues("d") == wd, "span-values"); v_cover("done");
}
// the row-wise reader knows the missing value of each frame
#include "odc/Reader.h"
#include "odc/core/MetaData.h"
namespace { struct CHandle : VHandle { using VHandle::VHandle; eckit::DataHandle* clone() const override { return new CHandle(rd, rdlen); } }; }
HARNESS(B_rowwise) {
  bool dbl = v_choose("asDoubles", 2); asDoubles(dbl); VHandle out; int64_t mi[2]; double md[2]; size_t mask = v_choose("mask", 8);
  for (int p = 0; p < 2; p++) {
    mi[p] = p ? -5 : MI[v_choose("missing", 4)]; md[p] = p ? 7.5 : -2147483647.0; setI(mi[p]); setD(md[p]);
    Tab t; t.add("i", INTEGER); t.add("d", DOUBLE);
    for (int r = 0; r < 3; r++) { bool m = mask >> r & 1; int64_t v = 300 * r + 20; putInt(t, 0, dbl, m ? mi[p] : v); t.putD(1, m ? md[p] : 0.25 * r); }
    enc(t, out);
  }
  setI(99); setD(99.5);
  CHandle in(out.own.data(), out.own.size()); odc::Reader rd(in); auto it = rd.begin(); auto end = rd.end(); size_t r = 0;
  for (; it != end && r < 6; ++it, ++r) {
    int p = r / 3; bool m = mask >> (r % 3) & 1; double x = it->missingValue(0);
    v_check(it->isMissing(0) == m && it->isMissing(1) == m, "missing-cells");
    v_check(dbl ? x == (double)mi[p] : (int64_t)bits(x) == mi[p], "missing-integer"); v_check(it->missingValue(1) == md[p], "missing-double");
  }
  v_check(r == 6, "row-count"); v_cover("done");
}
