// C16: every cell of a delimited text arrives as the value it denotes; what is no such text is refused. Public interfaces only.
#include "pipe.h"
#include <cmath>
#include <sstream>
#ifdef V_NATIVE
#include <cstdio>
#else
extern "C" double v_numbers[16];
extern "C" void v_text(const char* p, size_t n);
#endif
using namespace H;
static const double MISSING_I = 2147483647, MISSING_R = -2147483647;
static int numbers = 0;
static std::string num(double d) {  // a text that denotes exactly d
#ifdef V_NATIVE
  static char b[1300]; ::snprintf(b, sizeof(b), "%.1100g", d); return b;
#else
  v_numbers[numbers] = d; std::string s("\1"); s.push_back((char)('0' + numbers++)); return s;
#endif
}
static size_t import(const std::string& t, VHandle& out, const std::string& delim = ",") {
#ifdef V_NATIVE
  std::istringstream is(t);
#else
  std::istringstream is; v_text(t.data(), t.size());
#endif
  return odc::api::odbFromCSV(is, out, delim);
}
static void refused(const std::string& t, const char* what, const std::string& delim = ",") { VHandle o; bool ok = true; try { import(t, o, delim); } catch (std::exception&) { ok = false; } v_check(!ok, what); }
// the columns and rows written are those of the table
static void is(const Tab& t, size_t n, const VHandle& o) {
  v_check(n == t.rows, "rows-counted"); VHandle in(o.own.data(), o.own.size()); Reader rd(in, false); size_t from = 0;
  while (Frame f = rd.next()) {
    v_check(f.columnCount() == t.c.size(), "columns"); if (f.columnCount() != t.c.size()) return;
    for (size_t i = 0; i < t.c.size(); i++) {
      auto& ci = f.columnInfo()[i]; v_check(ci.name == t.c[i].name && ci.type == t.c[i].type && ci.bitfield.size() == t.c[i].bits.size(), "columns");
      for (size_t k = 0; k < ci.bitfield.size() && k < t.c[i].bits.size(); k++) v_check(ci.bitfield[k].name == t.c[i].bits[k].name && ci.bitfield[k].size == t.c[i].bits[k].size && ci.bitfield[k].offset == t.c[i].bits[k].offset, "fields-of-bits");
    }
    cmpFrame(f, t, from); from += f.rowCount();
  }
  v_check(from == t.rows, "every-line-is-a-row");
}
static void gives(const std::string& text, const Tab& t, const std::string& delim = ",") { VHandle o; size_t n = import(text, o, delim); is(t, n, o); v_cover("done"); }
static void put(Tab& t, size_t c, const std::string& s) { std::vector<unsigned char> b(t.c[c].width); ::memcpy(b.data(), s.data(), s.size()); t.put(c, b.data()); }

HARNESS(B_integer_cell) {  // every number: an integer that fits arrives, any other is refused
  bool dbl = v_choose("asDoubles", 2); asDoubles(dbl); ColumnType ty = v_choose("bitfield", 2) ? BITFIELD : INTEGER; double d = v_double("d"); v_assume(d - d == 0);
  std::string h = ty == INTEGER ? "k:INTEGER,a:INTEGER\n7," : "k:INTEGER,a:BITFIELD[x:3;y:28]\n7,", text = h + num(d) + "\n"; bool good = d >= -2147483648.0 && d <= 2147483647.0 && (double)(int64_t)d == d;
  if (!good) { refused(text, "no-integer-no-import"); v_cover("refused"); return; }
  Tab t; t.add("k", INTEGER); Col& c = t.add("a", ty); if (ty == BITFIELD) c.bits = {{"x", 3, 0}, {"y", 28, 3}}; putInt(t, 0, dbl, 7); putInt(t, 1, dbl, (int64_t)d); gives(text, t);
}
HARNESS(B_integer_texts) {
  bool dbl = v_choose("asDoubles", 2); asDoubles(dbl); static const char* T[] = {"0", "-0", "+12", "-2147483648", "2147483646", "000000000042", "1e3", "-5.0"}; static const double V[] = {0, 0, 12, -2147483648.0, 2147483646, 42, 1000, -5}; size_t i = v_choose("t", 8);
  Tab t; t.add("a", INTEGER); t.add("b", INTEGER); putInt(t, 0, dbl, (int64_t)V[i]); putInt(t, 1, dbl, 1); gives(std::string("a:INTEGER,b:integer\n") + T[i] + ",1\n", t);
}
HARNESS(B_no_numbers) {  // texts that denote no number of the column's type
  asDoubles(v_choose("asDoubles", 2)); static const char* Y[] = {"INTEGER", "REAL", "DOUBLE", "BITFIELD[x:3]"}; static const char* T[] = {"x", "1x", "--1", "1 2", "'1'", "NULLS", ".", "1.5", "2147483648", "-2147483649", "1e30"}; size_t y = v_choose("type", 4), i = v_choose("t", y == 1 || y == 2 ? 7 : 11);
  refused(std::string("k:INTEGER,a:") + Y[y] + "\n1,1\n2," + T[i] + "\n3,3\n", "no-number-no-import"); v_cover("done");
}
HARNESS(B_real_cell) {
  asDoubles(true); float f = v_float("f"); double d = v_double("d"); v_assume(f - f == 0 && d - d == 0); Tab t; t.add("r", REAL); t.add("d", DOUBLE); t.putD(0, f); t.putD(1, d); gives("r:REAL,d:DOUBLE\n" + num(f) + "," + num(d), t);
}
HARNESS(B_real_texts) {
  asDoubles(true); static const char* T[] = {"0", "1.5", "-2.25", "1e3", "-.5", "1024.", "+3", "2.5E-1"}; static const double V[] = {0, 1.5, -2.25, 1000, -0.5, 1024, 3, 0.25}; size_t i = v_choose("i", 8), j = v_choose("j", 8);
  Tab t; t.add("r", REAL); t.add("d", DOUBLE); t.putD(0, V[i]); t.putD(1, V[j]); gives(std::string("r:real,d:Double\n") + T[i] + "," + T[j] + "\n", t);
}
HARNESS(B_string_cell) {  // any text without delimiters, quotes, white space around it
  asDoubles(true); static const size_t L[] = {1, 2, 7, 8, 9, 16, 17}; size_t n = L[v_choose("len", 7)]; size_t at = v_choose("end", 2) ? n - 1 : 0; std::string s(n, 'q'); uint8_t c = v_u8("c");
  v_assume(c != 0 && c != ',' && c != '\n' && c != ' ' && !(c >= 9 && c <= 13) && c != '"' && c != '\''); s[at] = (char)c;
  Tab t; t.add("a", DOUBLE); t.add("s", STRING, (n + 7) / 8 * 8); t.add("b", DOUBLE); t.putD(0, 1); put(t, 1, s); t.putD(2, 2); gives("a:DOUBLE,s:STRING,b:DOUBLE\n1," + s + ",2\n", t);
}
HARNESS(B_string_rows) {  // strings that grow and shrink from row to row, missing ones among them: nothing of one is left in another
  asDoubles(true); static const char* S[] = {"x", "eight888", "nine99999", "seventeen and mor", "NULL"}; std::string text = "a:INTEGER,s:STRING,b:DOUBLE,z:STRING\n"; Tab t; t.add("a", INTEGER); t.add("s", STRING, 24); t.add("b", DOUBLE); t.add("z", STRING, 24);
  for (int r = 0; r < 3; r++) { size_t i = v_choose("s", 5), j = r == 1 ? 2 * v_choose("z", 3) : r; text += std::to_string(r) + "," + S[i] + ",0.5," + S[j] + "\n"; t.putD(0, r); put(t, 1, i == 4 ? "" : S[i]); t.putD(2, 0.5); put(t, 3, j == 4 ? "" : S[j]); }
  gives(text, t);
}
HARNESS(B_quoted) {
  asDoubles(true); static const char* T[] = {"'abc'", "\"abc\"", "' abc '", "'ab\"", "'", "a'b'", "''x''"}; static const char* V[] = {"abc", "abc", " abc ", "'ab\"", "'", "a'b'", "'x'"}; size_t i = v_choose("t", 7);
  Tab t; t.add("s", STRING, 8); t.add("k", INTEGER); put(t, 0, V[i]); t.putD(1, 4); gives(std::string("s:STRING,k:INTEGER\n") + T[i] + ",4\n", t);
}
HARNESS(B_null) {  // NULL, however it is written, is the missing value of its column and no other cell's
  bool dbl = v_choose("asDoubles", 2); asDoubles(dbl); static const char* N[] = {"NULL", "null", "Null"}; std::string nl = N[v_choose("case", 3)], text = "i:INTEGER,r:REAL,d:DOUBLE,b:BITFIELD[x:3],s:STRING\n"; Tab t; t.add("i", INTEGER); t.add("r", REAL); t.add("d", DOUBLE); t.add("b", BITFIELD).bits = {{"x", 3, 0}}; t.add("s", STRING, 8);
  for (int r = 0; r < 2; r++) {
    size_t c = v_choose("null", 6); auto w = [&](size_t k, const char* x) { text += (c == k ? nl : std::string(x)) + (k == 4 ? "\n" : ","); };
    w(0, "3"); w(1, "1.5"); w(2, "2.5"); w(3, "5"); w(4, "text"); putInt(t, 0, dbl, c == 0 ? (int64_t)MISSING_I : 3); t.putD(1, c == 1 ? MISSING_R : 1.5); t.putD(2, c == 2 ? MISSING_R : 2.5); putInt(t, 3, dbl, c == 3 ? (int64_t)MISSING_I : 5); put(t, 4, c == 4 ? "" : "text");
  }
  gives(text, t);
}
HARNESS(B_lines) {  // lines however they end, empty ones among them
  asDoubles(true); static const char* E[] = {"\n", "\r\n", " \n", "\n\n", "\n \t\n"}; std::string end = E[v_choose("end", 5)]; size_t n = v_choose("rows", 4); std::string text = std::string(" a:INTEGER,\tb :REAL") + (end[0] == '\r' ? "\r\n" : "\n"); Tab t; t.add("a", INTEGER); t.add("b", REAL);
  for (size_t r = 0; r < n; r++) { text += " " + std::to_string(r) + "\t,  0.5" + (r + 1 == n && v_choose("last", 2) ? std::string() : end); t.putD(0, (double)r); t.putD(1, 0.5); }
  gives(text, t);
}
HARNESS(B_columns) {  // names and types as the header has them
  asDoubles(true); static const char* D[] = {",", "\t", " ", "|"}; std::string d = D[v_choose("delimiter", 4)]; Tab t; t.add("lat@hdr", REAL); t.add("flags@body", BITFIELD).bits = {{"a", 1, 0}, {"b", 2, 1}, {"c", 28, 3}}; t.add("Some_Name", STRING, 8); t.add("n", INTEGER); t.add("y", DOUBLE);
  std::string text = "lat@hdr:REAL" + d + "flags@body:" + (v_choose("case", 2) ? "bitfield" : "BITFIELD") + "[a:1;b:2;c:28]" + d + "Some_Name:string" + d + "n:INTEGER" + d + "y:double\n";
  for (int r = 0; r < 2; r++) { text += "0.5" + d + "6" + d + "xyz" + d + std::to_string(r) + d + "1.25\n"; t.putD(0, 0.5); t.putD(1, 6); put(t, 2, "xyz"); t.putD(3, r); t.putD(4, 1.25); }
  gives(text, t, d);
}
HARNESS(B_malformed_header) {
  asDoubles(true); static const char* T[] = {"a", "a:", "a:FOO", "a:INTEGER,b", "b:BITFIELD", "b:BITFIELD[", "b:BITFIELD[x:3", "b:BITFIELD]x:3[", "b:BITFIELD[x]", "b:BITFIELD[x:0]", "b:BITFIELD[x:-3]", "b:BITFIELD[x:y]", "b:BITFIELD[x:3;x:3]", "b:BITFIELD[x:16;y:16]", "b:BITFIELD[x:1:2]", "b:BITFIELD[x:3;y:0]"}; size_t i = v_choose("t", 16);
  refused(std::string(T[i]) + (i == 3 ? "\n1,1\n" : "\n1\n"), "no-header-no-import"); v_cover("done");
}
HARNESS(B_malformed_rows) {  // rows of fewer or more cells than the header has fields
  asDoubles(true); static const char* T[] = {"1", "1,2,3", ",", "1,", ",,", "1 2", "1;2"}; size_t i = v_choose("t", 7), at = v_choose("at", 3); std::string text = "a:INTEGER,b:INTEGER\n"; for (size_t r = 0; r < 3; r++) text += r == at ? T[i] + std::string("\n") : "4,5\n";
  refused(text, "no-row-no-import"); v_cover("done");
}
HARNESS(B_handle) {  // the same from a data handle, whatever it gives at a time
  asDoubles(true); std::string text = "a:INTEGER,s:STRING\n1,abc\n\n2,a longer text\n"; Tab t; t.add("a", INTEGER); t.add("s", STRING, 16); t.putD(0, 1); put(t, 1, "abc"); t.putD(0, 2); put(t, 1, "a longer text");
  VHandle in(text.data(), text.size()), o; in.openForRead(); size_t n = v_choose("string", 2) ? odc::api::odbFromCSV(text, o, ",") : odc::api::odbFromCSV(in, o, ","); is(t, n, o); v_cover("done");
}
