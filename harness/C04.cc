// C04: data written with the other byte order reads back identically. The frame the encoder wrote is taken apart and
// written again in the other byte order by a writer of the format that shares no code with odc (fmt.h).
#include "fmt.h"
using namespace H;
typedef std::map<std::string, std::string> Props;
static void meta(const Frame& f, const Frame& g) {
  v_check(f.rowCount() == g.rowCount() && f.columnCount() == g.columnCount(), "row-and-column-count");
  auto &a = f.columnInfo(), &b = g.columnInfo();
  v_check(a.size() == b.size(), "column-count"); if (a.size() != b.size()) return;
  for (size_t i = 0; i < a.size(); i++) {
    v_check(a[i].name == b[i].name && a[i].type == b[i].type && a[i].decodedSize == b[i].decodedSize, "column-description");
    v_check(a[i].bitfield.size() == b[i].bitfield.size(), "bitfields"); if (a[i].bitfield.size() != b[i].bitfield.size()) continue;
    for (size_t k = 0; k < a[i].bitfield.size(); k++) v_check(a[i].bitfield[k].name == b[i].bitfield[k].name && a[i].bitfield[k].size == b[i].bitfield[k].size && a[i].bitfield[k].offset == b[i].bitfield[k].offset, "bitfields");
  }
  v_check(f.properties() == g.properties(), "properties");
}
static void both(const Tab& t, const Props& pr = {}, bool span = false) {
  VHandle out; enc(t, out, pr);
  F::Frame p; if (!F::parse(out.own.data(), out.own.size(), p)) return;
  F::Bytes o = F::emit(p, true);
  v_check(o.size() == out.own.size(), "same-length");
  VHandle a(out.own.data(), out.own.size()), b(o.data(), o.size());
  Reader ra(a, false), rb(b, false); Frame fa = ra.next(), fb = rb.next();
  v_check((bool)fb, "frame"); if (!fb) return;
  meta(fa, fb);
  v_check(fb.offset() == eckit::Offset(0) && fb.length() == eckit::Length((long long)o.size()), "extent");
  cmpFrame(fb, t, 0);
  cmpFrame(fb, t, 0);  // again from the same frame
  if (span) for (auto& c : t.c) { odc::api::Span s = fa.span({c.name}, false), u = fb.span({c.name}, false); v_check(s == u, "span"); }
  Frame copy(fb); cmpFrame(copy, t, 0);
  v_check(!rb.next(), "one-frame");
  v_cover("done");
}
static void ints(ColumnType ty, int n, bool dbl) {
  asDoubles(dbl); Tab t; t.add("a", ty);
  for (int i = 0; i < n; i++) putInt(t, 0, dbl, v_range("i", INT32_MIN, INT32_MAX));
  both(t);
}
HARNESS(B_int1) { ints(INTEGER, 1, false); }
HARNESS(B_int2) { ints(INTEGER, 2, false); }
HARNESS(B_int2_dbl) { ints(INTEGER, 2, true); }
HARNESS(B_int3_T) { ints(INTEGER, 3, false); }
HARNESS(B_bits2) { ints(BITFIELD, 2, false); }
HARNESS(B_bits2_dbl) { ints(BITFIELD, 2, true); }
static const double SPEC[] = {-2147483647.0, 0.5, 1.17549435082228750797e-38, -3.40282346638528859812e+38, __builtin_nan("")};
HARNESS(B_real) { asDoubles(false); Tab t; t.add("r", REAL); t.putD(0, (double)v_float("f")); double s = SPEC[v_choose("s", 5)]; t.putD(0, s); try { both(t); } catch (eckit::Exception&) { v_check(sameD(s, SPEC[2]) || sameD(s, SPEC[3]), "refused"); v_cover("refused"); } }
HARNESS(B_double) { asDoubles(false); Tab t; t.add("d", DOUBLE); t.putD(0, v_double("d")); t.putD(0, SPEC[v_choose("s", 5)]); both(t); }
HARNESS(B_double1) { asDoubles(false); Tab t; t.add("d", DOUBLE); t.putD(0, v_double("d")); both(t); }
static void strings(int n, size_t w, size_t free) {
  asDoubles(false); Tab t; t.add("s", STRING, w);
  static const char* S[] = {"alpha", "", "exactly8", "a string of up to 24 ..", "second in here"};
  for (int i = 0; i < n; i++) { std::vector<unsigned char> b(w, 0); if (i == 0 && free) { v_bytes(b.data(), free, "s"); for (size_t k = 1; k < free; k++) v_assume(b[k - 1] != 0 || b[k] == 0); } else { const char* x = S[v_choose("text", 5)]; ::memcpy(b.data(), x, std::min(w, ::strlen(x))); } t.put(0, b.data()); }
  both(t, {}, free == 0);
}
HARNESS(B_str8) { strings(1, 8, 8); }
HARNESS(B_str8x2) { strings(2, 8, 3); }
HARNESS(B_str24) { strings(2, 24, 0); }
HARNESS(B_str24x3) { strings(3, 24, 0); }
HARNESS(B_str300) {  // the two-byte index
  asDoubles(false); Tab t; t.add("s", STRING); t.add("i", INTEGER);
  for (int i = 0; i < 300; i++) { std::string z = "s" + std::to_string(i % 280); char b[8] = {0}; ::memcpy(b, z.data(), z.size()); t.put(0, b); t.putI(1, i * 300); }
  both(t);
}
// every storage form of integers in one table, with properties and bitfields
static void forms(bool dbl) {
  asDoubles(dbl); Tab t; const int64_t M = 2147483647;
  static const int64_t X[][3] = {{5, 5, 5}, {5, 7, 260}, {5, 700, 65540}, {-9, 100000, 3}, {5, M, 5}, {5, M, 258}, {5, M, 65538}, {M, 1, 2000000}, {M, M, M}};
  for (int c = 0; c < 9; c++) t.add("c" + std::to_string(c), c % 2 ? BITFIELD : INTEGER);
  t.c[1].bits = {{"p", 3, 0}, {"qq", 12, 3}, {"a longer name than fits inline", 1, 15}}; t.c[3].bits = {{"z", 31, 0}};
  t.add("k", DOUBLE); t.add("km", DOUBLE); t.add("s", STRING, 16); t.add("tail@body", REAL);
  int64_t d = v_range("shift", -1000000, 1000000); bool sh = v_choose("sh", 2);
  for (int r = 0; r < 3; r++) { for (int c = 0; c < 9; c++) putInt(t, c, dbl, X[c][r] == M || !sh ? X[c][r] : X[c][r] + d); t.putD(9, 1.25); t.putD(10, r == 1 ? -2147483647.0 : -7.5); char s[16] = "constant 14chr"; t.put(11, s); t.putD(12, r * 0.1f); }
  both(t, {{"", "empty name"}, {"key", ""}, {"long", "a property value that is longer than the small string buffer"}});
}
HARNESS(B_forms) { forms(false); }
HARNESS(B_forms_dbl) { forms(true); }
// row changes in both orders of columns
HARNESS(B_pattern) {
  asDoubles(false); Tab t; t.add("a", INTEGER); t.add("b", DOUBLE); t.add("c", STRING);
  for (int r = 0; r < 3; r++) { t.putI(0, v_choose("x", 2) * 1000); t.putD(1, v_choose("x", 2) * 0.5); char s[8] = {(char)('a' + v_choose("x", 2)), 0}; t.put(2, s); }
  both(t, {}, true);
}
HARNESS(B_wide) { asDoubles(false); Tab t; int at = 257 + (int)v_choose("at", 2); for (int c = 0; c < 300; c++) { t.add("c" + std::to_string(c), INTEGER); t.putI(c, c * 3); t.putI(c, c < at && c > 1 ? c * 3 : c * 3 + (c >= 257)); } both(t); }
HARNESS(B_empty) { asDoubles(false); Tab t; t.add("a", INTEGER); t.add("s", STRING); both(t, {{"k", "v"}}); }
// frames of both orders in one stream, plain and aggregated, one and two threads
HARNESS(B_mixed) {
  asDoubles(false); Tab t; t.add("a", INTEGER); t.add("d", DOUBLE); t.add("s", STRING);
  F::Bytes all; size_t from = 0;
  for (int k = 0; k < 3; k++) {
    Tab u; u.add("a", INTEGER); u.add("d", DOUBLE); u.add("s", STRING);
    for (int r = 0; r < 2; r++) { int64_t x = k * 70000 + r * 300; double d = k + r * 0.25; char s[8] = {(char)('p' + k + r), 0}; if (k == 1 && r == 1) x = v_range("x", INT32_MIN, INT32_MAX); u.putI(0, x); u.putD(1, d); u.put(2, s); t.putI(0, x); t.putD(1, d); t.put(2, s); }
    VHandle out; enc(u, out); F::Frame p; if (!F::parse(out.own.data(), out.own.size(), p)) return;
    F::Bytes o = F::emit(p, v_choose("other", 2)); all.insert(all.end(), o.begin(), o.end());
  }
  (void)from;
  cmpStream(all.data(), all.size(), t, v_choose("aggregated", 2), 1);
  v_cover("done");
}
