// C02: strings survive encoding and decoding. Public interface only.
#include "pipe.h"
using namespace H;
// expected: the string up to its first NUL, then NULs (no branch on symbolic bytes)
static void expectStr(const unsigned char* g, const unsigned char* in, size_t w, const char* what = "string-value") {
  unsigned char live = 0xff, bad = 0;
  for (size_t i = 0; i < w; i++) { live &= (unsigned char)(0 - (unsigned char)(in[i] != 0)); bad |= (unsigned char)(g[i] ^ (in[i] & live)); }
  v_check(bad == 0, what);
}
static void strRoundtrip(const Tab& t) {
  VHandle out; enc(t, out);
  VHandle in(out.own.data(), out.own.size());
  Reader rd(in, false);
  Frame f = rd.next();
  v_check((bool)f && f.rowCount() == t.rows && f.columnCount() == t.c.size(), "shape");
  std::vector<std::vector<unsigned char>> o; std::vector<StridedData> od; std::vector<std::string> names; o.reserve(8);
  const auto& ci = f.columnInfo();
  for (size_t i = 0; i < t.c.size(); i++) { size_t w = ci[i].decodedSize; v_check(w % 8 == 0 && w >= 8 && w <= t.c[i].width, "reported-width"); o.emplace_back(w * t.rows, (unsigned char)0x77); od.emplace_back(o.back().data(), t.rows, w, w); names.push_back(t.c[i].name); }
  Decoder dec(names, od); dec.decode(f, 1);
  for (size_t i = 0; i < t.c.size(); i++) for (size_t r = 0; r < t.rows; r++)
    if (t.c[i].type == STRING) {
      unsigned char x[64]; ::memset(x, 0, sizeof x); size_t w = od[i].dataSize();
      ::memcpy(x, &o[i][r * w], w);  // beyond the reported width the string must have ended
      expectStr(x, t.c[i].v[r].data(), t.c[i].width);
    }
    else v_check(::memcmp(&o[i][r * 8], t.c[i].v[r].data(), 8) == 0, "neighbour-value");
  v_check(!rd.next(), "one-frame");
  v_cover("done");
}
static void freeStr(Tab& t, size_t col, size_t nfree) {
  unsigned char b[64]; ::memset(b, 0, sizeof b);
  v_bytes(b, nfree, "s");
  t.put(col, b);
}
static void menuStr(Tab& t, size_t col, size_t w) {
  static const char* M[] = {"", "a", "ab", "abcdefgh", "\xff\xff\xff\xff\xff\xff\xff\xff", "abcdefghi", "abcdefghijklmnop", "\x01", "abcdefghijklmnopqrstuvwx", "\x00zz"};
  size_t k = v_choose("menu", w == 8 ? 6 : w == 16 ? 8 : 9);
  if (w == 8 && k == 5) k = 7;
  unsigned char b[64]; ::memset(b, 0, sizeof b); ::memcpy(b, M[k], std::min(w, ::strlen(M[k])));
  t.put(col, b);
}
static void menu(int n, size_t w) { Tab t; t.add("s", STRING, w); for (int i = 0; i < n; i++) menuStr(t, 0, w); strRoundtrip(t); }
HARNESS(B_free1) { Tab t; t.add("s", STRING, 8); freeStr(t, 0, 8); strRoundtrip(t); }
HARNESS(B_free2) { Tab t; t.add("s", STRING, 8); freeStr(t, 0, 8); freeStr(t, 0, 2); strRoundtrip(t); }
HARNESS(B_free16) { Tab t; t.add("s", STRING, 16); freeStr(t, 0, 16); strRoundtrip(t); }
HARNESS(B_free24x2) { Tab t; t.add("s", STRING, 24); freeStr(t, 0, 3); menuStr(t, 0, 24); strRoundtrip(t); }
HARNESS(B_menu8x3) { menu(3, 8); }
HARNESS(B_menu16x3) { menu(3, 16); }
HARNESS(B_menu24x2) { menu(2, 24); }
HARNESS(B_menu8x4_T) { menu(4, 8); }
// strings beside other columns: the dictionary and the row layout together
HARNESS(B_mixed) {
  odc::ODBAPISettings::instance().treatIntegersAsDoubles(false);
  Tab t; t.add("i", INTEGER); t.add("s", STRING, 16); t.add("u", STRING, 8); t.add("d", DOUBLE);
  for (int r = 0; r < 2; r++) { t.putI(0, r ? v_choose("i", 2) : 0); menuStr(t, 1, r == 1 ? 16 : 8); unsigned char b[8] = {(unsigned char)('a' + (r ? v_choose("u", 2) : 0)), 0}; t.put(2, b); t.putD(3, 0.25 * r); }
  strRoundtrip(t);
}
// d distinct strings, then some of them again in another order
static void distinct(size_t d, size_t w) {
  Tab t; t.add("s", STRING, w);
  auto s = [&](size_t k) { unsigned char b[32]; ::memset(b, 0, sizeof b); b[0] = 'A' + k % 23; b[1] = 'a' + k / 23 % 26; b[2] = '0' + k / 598 % 10; b[3] = 'a' + k / 5980; if (w > 8) ::memset(b + 4, 'x', 8); t.put(0, b); };
  for (size_t k = 0; k < d; k++) s(k * 7 % d == 0 && k ? k : k);
  s(d - 1); s(0); s(d / 2); s(d - 1); s(d > 256 ? 256 : 0); s(d > 255 ? 255 : 0);
  strRoundtrip(t);
}
HARNESS(B_distinct254) { distinct(254, 8); }
HARNESS(B_distinct255) { distinct(255, 8); }
HARNESS(B_distinct256) { distinct(256, 8); }
HARNESS(B_distinct257) { distinct(257, 16); }
HARNESS(B_distinct300) { distinct(300, 8); }
HARNESS(B_distinct5000_T) { distinct(5000, 8); }
