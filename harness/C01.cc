// C01: numeric values survive encoding and decoding. Public interface only.
#include "pipe.h"
using namespace H;
static void ints(ColumnType ty, int n, bool dbl) {
  asDoubles(dbl);
  Tab t; t.add("a", ty);
  for (int i = 0; i < n; i++) putInt(t, 0, dbl, v_range("i", INT32_MIN, INT32_MAX));
  roundtrip(t);
}
static const double NAN_ = __builtin_nan(""), INF_ = __builtin_inf();
static double special(bool real) {
  static const double F[] = {-2147483647.0, 0.0, -0.0, 1.5, 1.17549435082228750797e-38, 3.40282346638528859812e+38, -3.40282346638528859812e+38, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
  static const double D[] = {-2147483647.0, 0.0, 1.1, 1.17549435082228750797e-38, -3.40282346638528859812e+38, 1.7976931348623157e308, 5e-324, -__builtin_inf(), __builtin_nan("")};
  return real ? F[v_choose("special", 10)] : D[v_choose("special", 9)];
}
// a REAL column with both reserved values may be refused, nothing else
static void refusable(const Tab& t) {
  bool lo = false, hi = false;
  for (auto& x : t.c[0].v) { if (ldD(x.data()) == 1.17549435082228750797e-38) lo = true; if (ldD(x.data()) == -3.40282346638528859812e+38) hi = true; }
  VHandle out;
  try { enc(t, out); }
  catch (eckit::Exception&) { v_check(lo && hi, "refused"); v_cover("refused"); return; }
  cmpStream(out.own.data(), out.own.size(), t);
  v_cover("done");
}
static void reals(int n, int spec = 0) {
  asDoubles(true);
  Tab t; t.add("r", REAL);
  for (int i = 0; i < n; i++) t.putD(0, i < spec ? special(true) : (double)v_float("f"));
  refusable(t);
}
static void doubles(int n, int spec = 0) {
  asDoubles(true);
  Tab t; t.add("d", DOUBLE);
  for (int i = 0; i < n; i++) t.putD(0, i < spec ? special(false) : v_double("d"));
  roundtrip(t);
}
// integers around every storage threshold, as doubles
static void thresholds(ColumnType ty, int n, bool dbl) {
  asDoubles(dbl);
  static const int64_t X[] = {2147483647, -2147483647 - 1, -1, 0, 253, 254, 255, 256, 65533, 65534, 65535, 65536, 2147483646};
  Tab t; t.add("a", ty);
  for (int i = 0; i < n; i++) putInt(t, 0, dbl, X[v_choose("x", 13)]);
  roundtrip(t);
}
// many rows: a run of concrete values with two free ones
static void manyRows(ColumnType ty, int n) {
  asDoubles(false);
  Tab t; t.add("a", ty);
  int at = (int)v_choose("at", 3);
  int64_t step = v_choose("step", 2) ? 1 : 300;
  for (int i = 0; i < n; i++) t.putI(0, i == (at == 0 ? 0 : at == 1 ? n / 2 : n - 1) ? v_range("x", INT32_MIN, INT32_MAX) : (i * 7 % n) * step);
  roundtrip(t);
}
static void mixed(bool dbl) {
  asDoubles(dbl);
  Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("b", BITFIELD); t.add("r", REAL);
  putInt(t, 0, dbl, v_range("i0", INT32_MIN, INT32_MAX)); putInt(t, 0, dbl, 7);
  int w = (int)v_choose("free", 3);
  t.putD(1, w == 0 ? v_double("d0") : 2.5); t.putD(1, w ? v_choose("d1", 2) ? 2.5 : 0.1 : 2.5);
  putInt(t, 2, dbl, 3); putInt(t, 2, dbl, w == 1 ? v_range("b1", INT32_MIN, INT32_MAX) : 1000);
  t.putD(3, 1.5); t.putD(3, w == 2 ? (double)v_float("f1") : 1.5);
  roundtrip(t);
}
HARNESS(B_int1) { ints(INTEGER, 1, v_choose("as-doubles", 2)); }
HARNESS(B_int2_long) { ints(INTEGER, 2, false); }
HARNESS(B_int2_dbl) { ints(INTEGER, 2, true); }
HARNESS(B_int3_long) { ints(INTEGER, 3, false); }
HARNESS(B_int3_dbl_T) { ints(INTEGER, 3, true); }
HARNESS(B_thresholds3_dbl) { thresholds(INTEGER, 3, true); }
HARNESS(B_thresholds3_long) { thresholds(BITFIELD, 3, false); }
HARNESS(B_rows150) { manyRows(INTEGER, 150); }
HARNESS(B_mixed_dbl) { mixed(true); }
HARNESS(B_mixed_long) { mixed(false); }
HARNESS(B_bits3_long) { ints(BITFIELD, 3, false); }
HARNESS(B_bits2_dbl) { ints(BITFIELD, 2, true); }
HARNESS(B_real1) { reals(1); }
HARNESS(B_real2) { reals(2); }
HARNESS(B_real3) { reals(3, 3); }
HARNESS(B_real3_T) { reals(3, 1); }
HARNESS(B_real4_T) { reals(4, 4); }
HARNESS(B_double1) { doubles(1); }
HARNESS(B_double2) { doubles(2); }
HARNESS(B_double3) { doubles(3, 3); }
HARNESS(B_double3_T) { doubles(3, 0); }
