// C03: every row comes back in place, whatever changed since the row before. Public interface only.
#include "pipe.h"
using namespace H;
// r rows x c columns; every cell picks one of k values: every pattern of changes and repetitions
static void patterns(int rows, int cols, int k, bool symbolic) {
  asDoubles(false);
  Tab t;
  static const ColumnType T[] = {INTEGER, DOUBLE, STRING, REAL};
  for (int c = 0; c < cols; c++) t.add(std::string(1, 'a' + c), T[c % 4]);
  for (int r = 0; r < rows; r++)
    for (int c = 0; c < cols; c++) {
      uint64_t x = v_choose("cell", k);
      if (c % 4 == 0) t.putI(c, (int64_t)x * 1000);
      else if (c % 4 == 2) { unsigned char b[8] = {(unsigned char)('a' + x), 0}; t.put(c, b); }
      else t.putD(c, x == 0 ? 1.5 : 0.25 * x);
    }
  (void)symbolic;
  roundtrip(t);
}
// all values free: 2 rows x 2 integer columns, the solver picks which ones agree
static void freeInts(int rows, int cols) {
  asDoubles(false);
  Tab t;
  for (int c = 0; c < cols; c++) t.add(std::string(1, 'a' + c), INTEGER);
  for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) t.putI(c, r == 0 ? 70000 * (c + 1) : v_range("x", -100000, 100000));
  roundtrip(t);
}
// many columns; row r changes first at column at(r)
static void wide(int cols, const size_t* at, int n) {
  asDoubles(false);
  Tab t;
  for (int c = 0; c < cols; c++) t.add("c" + std::to_string(c), INTEGER);
  for (int c = 0; c < cols; c++) t.putI(c, c);
  for (int r = 0; r < n; r++) for (int c = 0; c < cols; c++) { int64_t prev = ldI(t.c[c].v[r].data()); t.putI(c, c == (int)at[r] ? prev + 7 : (c > (int)at[r] && c % 3 == 0) ? prev + 1 : prev); }
  roundtrip(t);
}
static void wideChoice(int cols) {
  static const size_t A[] = {0, 1, 254, 255, 256, 257, 258}, B[] = {0, 256, 258};
  size_t at[2] = {A[v_choose("at", 7)], B[v_choose("at", 3)]};
  wide(cols, at, 2);
}
HARNESS(B_pat4x1) { patterns(4, 1, 2, false); }
HARNESS(B_pat3x2) { patterns(3, 2, 2, false); }
HARNESS(B_pat2x3) { patterns(2, 3, 2, false); }
HARNESS(B_pat3x3_T) { patterns(3, 3, 2, false); }
HARNESS(B_pat4x2_T) { patterns(4, 2, 2, false); }
HARNESS(B_free2x2) { freeInts(2, 2); }
HARNESS(B_free3x1) { freeInts(3, 1); }
HARNESS(B_free2x3_T) { freeInts(2, 3); }
HARNESS(B_wide258) { wideChoice(258); }
// staircases: the first changed column walks up, down, and up and down again
static void stairs(bool up) {
  asDoubles(false);
  size_t n = 5; Tab t;
  for (size_t c = 0; c < n; c++) t.add(std::string(1, 'a' + c), c == 2 ? DOUBLE : INTEGER);
  auto cell = [&](size_t c, int64_t v) { if (c == 2) t.putD(c, v * 0.5); else t.putI(c, v); };
  std::vector<int64_t> cur(n, 0);
  for (size_t c = 0; c < n; c++) cell(c, 0);
  size_t hold_ = v_choose("hold", 3);
  for (size_t k = 0; k < 2 * n + 2; k++) {
    size_t at = up ? k % (n + 1) : n - k % (n + 1);
    for (size_t c = at; c < n; c++) cur[c] = cur[c] + (c == at || c % 2) + (int64_t)c;
    for (size_t h = 0; h <= (k == 3 ? hold_ : 0); h++) for (size_t c = 0; c < n; c++) cell(c, cur[c]);
  }
  roundtrip(t);
}
HARNESS(B_stairs_up) { stairs(true); }
HARNESS(B_stairs_down) { stairs(false); }
// long constant stretches
HARNESS(B_long) {
  asDoubles(false);
  Tab t; t.add("a", INTEGER); t.add("b", DOUBLE); t.add("c", INTEGER);
  size_t at = v_choose("at", 4); size_t N = 120; static const size_t P[] = {1, 59, 118, 119};
  for (size_t r = 0; r < N; r++) { t.putI(0, 5); t.putD(1, r >= P[at] ? 2.5 : 1.5); t.putI(2, r % 40 == 0 ? (int64_t)r : 12); }
  roundtrip(t);
}
// leading string columns of every width: rows that differ in one byte only, wherever it is, and rows that are equal
static void strings(size_t width) {
  asDoubles(false);
  Tab t; t.add("s", STRING, width); t.add("k", INTEGER);
  size_t at = v_choose("at", width); std::vector<unsigned char> b(width, 'm');
  size_t len = v_choose("full", 2) ? width : at + 1; for (size_t i = len; i < width; i++) b[i] = 0;
  for (int r = 0; r < 4; r++) { unsigned char x = r == 1 ? v_u8("byte") : r == 2 ? b[at] : 'm'; v_assume(x != 0); b[at] = x; t.put(0, b.data()); t.putI(1, 4); }
  roundtrip(t);
}
HARNESS(B_strings8) { strings(8); }
HARNESS(B_strings16) { strings(16); }
HARNESS(B_strings24) { strings(24); }
HARNESS(B_strings40) { strings(40); }
// leading numbers that differ in one byte of their representation only
HARNESS(B_numbers) {
  asDoubles(false);
  ColumnType ty = v_choose("type", 2) ? DOUBLE : INTEGER; size_t n = ty == DOUBLE ? 8 : 4;
  Tab t; t.add("a", ty); t.add("k", INTEGER); size_t at = v_choose("at", n);
  unsigned char b[8]; if (ty == DOUBLE) { double d = 1.2345678e-7; ::memcpy(b, &d, 8); } else { int64_t i = 0x12345678; ::memcpy(b, &i, 8); }
  for (int r = 0; r < 3; r++) { if (r == 1) { unsigned char x = v_u8("byte"); v_assume(x < 0x7f); b[at] = x; } t.put(0, b); t.putI(1, 4); }
  roundtrip(t);
}
HARNESS(B_empty) { Tab t; asDoubles(false); t.add("a", INTEGER); t.add("s", STRING); 
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  v_check((bool)f && f.rowCount() == 0 && f.columnCount() == 2, "empty-table"); cmpFrame(f, t, 0); v_check(!rd.next(), "one-frame"); v_cover("done"); }
