// C21: column descriptions, bitfields and properties survive. Public interface only.
#include "pipe.h"
using namespace H;
typedef std::map<std::string, std::string> Props;
static size_t rowsOf(const Frame& f) { return f.rowCount(); }
// what a frame has to say about the columns of t (rows [from, from+n) are its rows)
static void cmpCols(const Frame& f, const Tab& t, size_t from) {
  v_check(f.columnCount() == t.c.size() && f.columnInfo().size() == t.c.size(), "column-count"); if (f.columnInfo().size() != t.c.size()) return;
  for (size_t i = 0; i < t.c.size(); i++) {
    auto& a = f.columnInfo()[i]; auto& c = t.c[i];
    v_check(a.name == c.name, "column-name"); v_check(a.type == c.type, "column-type");
    if (c.type == STRING) {
      size_t longest = 0; for (size_t r = from; r < from + rowsOf(f); r++) { size_t k = 0; while (k < c.width && c.v[r][k]) k++; longest = std::max(longest, k); }
      v_check(a.decodedSize % 8 == 0 && a.decodedSize >= longest && a.decodedSize <= c.width, "element-size");
    } else v_check(a.decodedSize == 8, "element-size");
    v_check(a.bitfield.size() == c.bits.size(), "bitfield-count"); if (a.bitfield.size() != c.bits.size()) continue;
    int off = 0;
    for (size_t k = 0; k < c.bits.size(); k++) { v_check(a.bitfield[k].name == c.bits[k].name, "bitfield-name"); v_check(a.bitfield[k].size == c.bits[k].size, "bitfield-size"); v_check(a.bitfield[k].offset == off, "bitfield-offset"); off += c.bits[k].size; }
  }
}
static void cmpProps(const Frame& f, const Props& p) {
  auto& g = f.properties(); size_t n = 0;
  for (auto& kv : p) { auto it = g.find(kv.first); v_check(it != g.end(), "property-is-there"); if (it != g.end()) { v_check(it->second == kv.second, "property-value"); n++; } }
  auto e = g.find("encoder"); v_check(e != g.end() && e->second.size() > 0, "encoder-property"); v_check(g.size() == n + 1, "no-other-property");
}
static void all(const Tab& t, const VHandle& out, const Props& p, bool aggregated = false, size_t frames = 1) {
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, aggregated); size_t from = 0, k = 0;
  while (Frame f = rd.next()) { cmpCols(f, t, from); cmpProps(f, p); from += f.rowCount(); k++; }
  v_check(k == frames, "frame-count"); v_check(from == t.rows, "row-count"); v_cover("done");
}
static std::string sym(const char* nm, size_t n) { std::string s(n, 'x'); v_bytes(&s[0], n, nm); return s; }
static void row(Tab& t, int r) { for (size_t i = 0; i < t.c.size(); i++) { std::vector<unsigned char> b(t.c[i].width, 0); if (t.c[i].type == STRING) { size_t n = (size_t)(r * 5 + 3) % t.c[i].width; for (size_t k = 0; k < n; k++) b[k] = 'a'; t.put(i, b.data()); } else if (integral(t.c[i].type)) t.putI(i, r * 300 + (int)i); else t.putD(i, 0.1 * r); } }
static const ColumnType TY[] = {INTEGER, REAL, STRING, BITFIELD, DOUBLE};
// names: of any bytes, and of lengths on both sides of the small string limit
HARNESS(B_names) {
  asDoubles(false); Tab t; size_t n = v_choose("len", 5); static const size_t LEN[] = {0, 1, 2, 15, 16};
  t.add(sym("name", LEN[n]), TY[v_choose("type", 5)]); t.add(std::string(v_choose("long", 2) ? 300 : 40, 'q') + "@body", INTEGER); if (n) row(t, 1); row(t, 0);
  VHandle out; enc(t, out); all(t, out, {});
}
HARNESS(B_types_in_order) {
  asDoubles(false); Tab t; for (int i = 0; i < 3; i++) { ColumnType y = TY[v_choose("type", 5)]; t.add(std::string("c") + char('0' + i) + "@t", y, y == STRING ? 8 * (size_t)(3 - i) : 8); if (y == BITFIELD) t.c.back().bits = {{"b", 2, 0}, {"c", i + 1, 2}}; }
  int rows = 1 + (int)v_choose("rows", 2); for (int r = 0; r < rows; r++) row(t, r); VHandle out; enc(t, out); all(t, out, {});
}
HARNESS(B_bitfields) {
  asDoubles(false); Tab t; t.add("i", INTEGER); auto& b = t.add("b@t", BITFIELD).bits; size_t n = v_choose("n", 5); int given = v_choose("offsets", 2) ? 3 : 0;
  for (size_t i = 0; i < n; i++) b.push_back({i == 1 ? sym("bit", 3) : std::string(i == 2 ? 40 : 1, (char)('a' + i)), (int)v_range("size", 0, n <= 2 ? 32 : 8), given});
  row(t, 0); row(t, 1); VHandle out; enc(t, out); all(t, out, {});
}
HARNESS(B_bitfields_many) {  // 32 one bit groups
  asDoubles(false); Tab t; auto& b = t.add("b@t", BITFIELD).bits; for (int i = 0; i < 32; i++) b.push_back({std::string("bit") + std::to_string(i), 1, i}); row(t, 0); VHandle out; enc(t, out); all(t, out, {});
}
HARNESS(B_properties) {
  asDoubles(false); Tab t; t.add("i", INTEGER); row(t, 0); row(t, 1); Props p; size_t n = v_choose("n", 4);
  static const size_t LEN[] = {0, 1, 16, 700};
  for (size_t i = 0; i < n; i++) { std::string k = i == 0 ? sym("key", 2) : std::string(i == 1 ? 30 : 3, (char)('j' + i)), v; size_t l = LEN[v_choose("vlen", 4)]; v = l < 3 ? sym("value", l) : std::string(l, 'v') + "\n\0=" + std::string(1, '\0'); p[k] = v; }
  VHandle out; enc(t, out, p); all(t, out, p);
}
HARNESS(B_split) {
  asDoubles(false); Tab t; t.add("i@t", INTEGER); t.add("s@t", STRING, 24); t.add("b@t", BITFIELD).bits = {{"x", 3, 0}, {"y", 5, 3}}; size_t rows = 1 + v_choose("rows", 5), max = 1 + v_choose("max", 5);
  for (size_t r = 0; r < rows; r++) row(t, (int)r); Props p{{"a", "1"}, {"b", std::string(60, 'x')}}; VHandle out; enc(t, out, p, max); all(t, out, p, false, (rows + max - 1) / max);
}
// the header does not fit the buffer at first
HARNESS(B_header_buffer) {
  asDoubles(false); static const size_t SZ[] = {1, 56, 57, 58, 64, 100, 150, 200, 256, 300, 400, 1000};
  size_t keep = odc::ODBAPISettings::instance().headerBufferSize(); odc::ODBAPISettings::instance().headerBufferSize(SZ[v_choose("buffer", 12)]);
  Tab t; t.add("i@t", INTEGER); t.add("s@t", STRING, 16); t.add("b@t", BITFIELD).bits = {{"x", 3, 0}}; row(t, 0); row(t, 1); row(t, 2);
  Props p; for (size_t i = 0, n = v_choose("properties", 3); i < n; i++) p[std::string("k") + char('0' + i)] = std::string(90 * (i + 1), 'v');
  VHandle out; enc(t, out, p); odc::ODBAPISettings::instance().headerBufferSize(keep); all(t, out, p); cmpStream(out.own.data(), out.own.size(), t);
}
// aggregated: the union of the properties of the parts
HARNESS(B_union) {
  asDoubles(false); Tab t; t.add("i@t", INTEGER); t.add("b@t", BITFIELD).bits = {{"x", 3, 0}}; row(t, 0); size_t parts = 1 + v_choose("parts", 3); Props u; VHandle out; Tab w = t; w.rows = 0; for (auto& c : w.c) c.v.clear();
  for (size_t k = 0; k < parts; k++) { Props p; static const size_t M[] = {0, 1, 3, 6}; size_t m = M[v_choose("mask", 4)]; for (size_t i = 0; i < 3; i++) if ((m >> i) & 1) { std::string nm(1, (char)('a' + i)); p[nm] = std::string("value of ") + nm; u[nm] = p[nm]; } enc(t, out, p); row(w, 0); }
  all(w, out, u, true);
}
HARNESS(B_union_conflict) {  // a key with different values: one of them
  asDoubles(false); Tab t; t.add("i@t", INTEGER); row(t, 0); VHandle out; enc(t, out, {{"k", "1"}, {"a", "x"}}); enc(t, out, {{"k", "2"}, {"b", "y"}});
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, true); Frame f = rd.next(); auto& g = f.properties(); v_check(g.size() == 4 && g.count("k") && g.count("a") && g.count("b"), "union-of-the-names");
  v_check(g.at("k") == "1" || g.at("k") == "2", "value-of-a-part"); v_check(g.at("a") == "x" && g.at("b") == "y", "property-value"); v_cover("done");
}
// a copy and the parts handed to other readers say the same
HARNESS(B_frame_copy) {
  asDoubles(false); Tab t; t.add("i@t", INTEGER); t.add("b@t", BITFIELD).bits = {{"x", 3, 0}, {"y", 2, 3}}; t.add("s", STRING, 16); row(t, 0); row(t, 1); Props p{{"a", "1"}}; VHandle out; enc(t, out, p);
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, v_choose("aggregated", 2)); Frame f = rd.next(); Frame g = f; Frame h; h = g; if (v_choose("described", 2)) cmpCols(f, t, 0); cmpCols(h, t, 0); cmpProps(h, p); cmpCols(g, t, 0); cmpFrame(h, t, 0); cmpCols(h, t, 0); cmpProps(f, p); v_cover("done");
}
