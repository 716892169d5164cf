// C05: encoded frames follow the ODB-2 layout and headers are verified on reading. The other side is fmt.h, a parser and
// writer of the format that shares no code with odc.
#include "fmt.h"
using namespace H;
typedef std::map<std::string, std::string> Props;
// the stream is a sequence of well formed frames that hold exactly t, each with its columns and properties
static void layout(const Tab& t, const Props& pr = {}, size_t maxRows = 10000) {
  VHandle out; enc(t, out, pr, maxRows);
  size_t at = 0, from = 0; int n = 0;
  while (at < out.own.size()) {
    F::Frame f; if (!F::parse(out.own.data() + at, out.own.size() - at, f)) return;
    v_check(!f.swapped, "native-byte-order");
    v_check(f.cols.size() == t.c.size(), "columns"); if (f.cols.size() != t.c.size()) return;
    for (size_t i = 0; i < t.c.size(); i++) {
      v_check(f.cols[i].name == t.c[i].name && f.cols[i].type == (int32_t)t.c[i].type, "column-description");
      v_check(f.cols[i].bn.size() == t.c[i].bits.size() && f.cols[i].bs.size() == t.c[i].bits.size(), "bitfields"); if (f.cols[i].bn.size() != t.c[i].bits.size()) return;
      for (size_t k = 0; k < t.c[i].bits.size(); k++) v_check(f.cols[i].bn[k] == t.c[i].bits[k].name && f.cols[i].bs[k] == t.c[i].bits[k].size, "bitfields");
    }
    v_check(f.props.count("encoder") == 1 && f.props.size() == pr.size() + 1, "properties");
    for (auto& kv : pr) v_check(f.props.count(kv.first) && f.props[kv.first] == kv.second, "properties");
    F::cmp(f, t, from);
    from += (size_t)f.rows; at += f.length; n++;
  }
  v_check(at == out.own.size() && from == t.rows, "frames-fill-the-stream");
  v_check(t.rows == 0 ? n == 1 : (size_t)n == (t.rows + maxRows - 1) / maxRows, "frame-count");
  v_cover("done");
}
static void ints(ColumnType ty, int n, bool dbl) { asDoubles(dbl); Tab t; t.add("a", ty); for (int i = 0; i < n; i++) putInt(t, 0, dbl, v_range("i", INT32_MIN, INT32_MAX)); layout(t); }
HARNESS(B_int2) { ints(INTEGER, 2, false); }
HARNESS(B_bits2_dbl) { ints(BITFIELD, 2, true); }
static const double SPEC[] = {-2147483647.0, 0.5, 1.17549435082228750797e-38, -3.40282346638528859812e+38, __builtin_nan("")};
HARNESS(B_real) { asDoubles(false); Tab t; t.add("r", REAL); t.putD(0, (double)v_float("f")); double s = SPEC[v_choose("s", 5)]; t.putD(0, s); try { layout(t); } catch (eckit::Exception&) { v_check(sameD(s, SPEC[2]) || sameD(s, SPEC[3]), "refused"); v_cover("refused"); } }
HARNESS(B_double) { asDoubles(false); Tab t; t.add("d", DOUBLE); t.putD(0, v_double("d")); t.putD(0, SPEC[v_choose("s", 5)]); layout(t); }
static void str(Tab& t, size_t col, const std::string& s) { std::vector<unsigned char> b(t.c[col].width, 0); ::memcpy(b.data(), s.data(), std::min(s.size(), b.size())); t.put(col, b.data()); }
HARNESS(B_str) { asDoubles(false); Tab t; t.add("s", STRING, 16); t.add("u", STRING, 8); static const char* S[] = {"", "exactly8", "sixteen bytes ok", "x"}; for (int i = 0; i < 3; i++) { str(t, 0, S[v_choose("s", 4)]); str(t, 1, i < 2 ? S[1] : S[v_choose("u", 2)]); } layout(t); }
HARNESS(B_symstr) { asDoubles(false); Tab t; t.add("s", STRING); for (int i = 0; i < 2; i++) { unsigned char b[8] = {0}; v_bytes(b, 3, "s"); v_assume(b[0] || !b[1]); v_assume(b[1] || !b[2]); t.put(0, b); } layout(t); }
static void big(Tab& t) {
  for (int c = 0; c < 9; c++) t.add("c" + std::to_string(c) + (c % 3 ? "@body" : ""), c % 2 ? BITFIELD : INTEGER);
  t.c[1].bits = {{"p", 3, 0}, {"qq", 12, 3}, {"a longer name than fits inline", 1, 15}}; t.c[3].bits = {{"z", 31, 0}};
  t.add("k", DOUBLE); t.add("km", DOUBLE); t.add("s", STRING, 16); t.add("tail@body", REAL);
  const int64_t M = 2147483647; static const int64_t X[][3] = {{5, 5, 5}, {5, 7, 260}, {5, 700, 65540}, {-9, 100000, 3}, {5, M, 5}, {5, M, 258}, {5, M, 65538}, {M, 1, 2000000}, {M, M, M}};
  for (int r = 0; r < 3; r++) { for (int c = 0; c < 9; c++) t.putI(c, X[c][r]); t.putD(9, 1.25); t.putD(10, r == 1 ? -2147483647.0 : -7.5); str(t, 11, r == 2 ? "another" : "constant 14chr"); t.putD(12, r * 0.1f); }
}
static const Props PR = {{"", "empty name"}, {"key", ""}, {"long", "a property value that is longer than the small string buffer"}};
HARNESS(B_forms) { asDoubles(false); Tab t; big(t); layout(t, PR, 1 + v_choose("max", 4)); }
HARNESS(B_empty) { asDoubles(false); Tab t; t.add("a", INTEGER); t.add("s", STRING, 32); layout(t, PR); }
HARNESS(B_wide) { asDoubles(false); Tab t; for (int c = 0; c < 300; c++) { t.add("c" + std::to_string(c), INTEGER); t.putI(c, c * 3); t.putI(c, c < 258 ? c * 3 : c); } layout(t); }
HARNESS(B_split) { asDoubles(false); Tab t; t.add("a", INTEGER); t.add("b", DOUBLE); for (int r = 0; r < 5; r++) { t.putI(0, r == 2 ? 300 * (int64_t)v_choose("x", 2) : r); t.putD(1, r == 3 ? v_double("d") : 1.5); } layout(t, PR, 1 + v_choose("max", 5)); }

// ---- what an independent writer of the format wrote is read as it was meant --------------------------------------------
static F::Bytes n8(double d) { F::Bytes b(8); ::memcpy(b.data(), &d, 8); return b; }
static F::Bytes file(const std::vector<F::Frame>& fs, const std::vector<bool>& other) { F::Bytes o; for (size_t i = 0; i < fs.size(); i++) { F::Bytes b = F::emit(fs[i], other[i]); o.insert(o.end(), b.begin(), b.end()); } return o; }
static F::Frame one(const std::string& codec, int32_t type, double mn, double mx, int rows) {
  F::Frame f; F::Column c; c.name = "a@t"; c.type = type; c.codec = codec; c.min = n8(mn); c.max = n8(mx); c.miss = n8(integral((ColumnType)type) ? 2147483647.0 : -2147483647.0); c.hasMissing = codec.find("issing") != std::string::npos;
  f.cols.push_back(c); f.rows = rows; return f;
}
static void stored(const std::string& codec, int32_t type, bool dbl, bool other) {
  asDoubles(dbl);
  F::Frame f = one(codec, type, v_intd("min", -2000000000, 2000000000), 5, 2);
  if (!integral((ColumnType)type)) f.cols[0].min = n8(v_double("rmin"));
  size_t cs = f.cols[0].cell(); F::Bytes last;
  for (int r = 0; r < 2; r++) { F::Row w; w.start = r ? v_choose("repeat", 2) : 0; if (!w.start) { F::Bytes x(cs); if (cs) v_bytes(x.data(), cs, "cell"); if (codec == "real_constant_or_missing" || codec == "constant_or_missing") v_assume(x[0] == 0xff || x[0] == 0); w.cell.push_back(x); } f.row.push_back(w); }
  F::Bytes b = file({f}, {other});
  VHandle in(b.data(), b.size()); Reader rd(in, false); Frame g = rd.next();
  v_check((bool)g && g.rowCount() == 2 && g.columnCount() == 1 && g.offset() == eckit::Offset(0) && g.length() == eckit::Length((long long)b.size()), "extent");
  v_check(g.columnInfo()[0].name == "a@t" && g.columnInfo()[0].type == (ColumnType)type && g.columnInfo()[0].decodedSize == 8, "column-description");
  double o[2]; std::vector<StridedData> sd; sd.emplace_back(o, 2, 8, 8); Decoder d({"a"}, sd); d.decode(g);
  F::Bytes cell;
  for (int r = 0; r < 2; r++) {
    if (!f.row[r].start) cell = f.row[r].cell[0];
    double want = F::number(f.cols[0], cell);
    if (integral((ColumnType)type) && !dbl) { int64_t i; ::memcpy(&i, &o[r], 8); v_check(i == (int64_t)want, "value"); }
    else v_check(sameD(o[r], want), "value");
  }
  v_cover("done");
}
#define STORED(n, c, t) \
  HARNESS(B_read_##n##_same) { stored(c, t, false, false); } \
  HARNESS(B_read_##n##_other) { stored(c, t, true, true); }
STORED(constant, "constant", INTEGER)
STORED(int8, "int8", INTEGER)
STORED(int16, "int16", BITFIELD)
STORED(int32, "int32", INTEGER)
STORED(int8m, "int8_missing", BITFIELD)
STORED(int16m, "int16_missing", INTEGER)
STORED(constm, "constant_or_missing", INTEGER)
STORED(rconst, "constant", REAL)
STORED(rconstm, "real_constant_or_missing", DOUBLE)
STORED(short1, "short_real", REAL)
STORED(short2, "short_real2", REAL)
STORED(long1, "long_real", DOUBLE)
static void storedText(const std::string& codec, bool other) {
  F::Frame f = one(codec, STRING, 0, 0, 2); auto& c = f.cols[0]; size_t w = 8;
  for (auto& x : c.min) x = 0; const char* K = "const"; ::memcpy(c.min.data(), K, 5); c.max = c.min; c.longConstant = "a constant longer than eight"; 
  if (codec == "long_constant_string") w = 32;
  if (codec == "int8_string" || codec == "int16_string") { w = 16; std::vector<F::Str> s = {{"zero", 0, 0}, {"the first one", 7, 1}, {"", 1, 2}}; size_t k = v_choose("order", 3); for (size_t i = 0; i < 3; i++) c.strings.push_back(s[(i + k) % 3]); }
  for (int r = 0; r < 2; r++) { F::Row x; x.start = 0; F::Bytes b(c.cell(), 0); if (codec == "chars") v_bytes(b.data(), 8, "chars"); else if (b.size()) b[0] = (unsigned char)v_choose("index", 3); x.cell.push_back(b); f.row.push_back(x); }
  F::Bytes b = file({f}, {other}); VHandle in(b.data(), b.size()); Reader rd(in, false); Frame g = rd.next();
  v_check((bool)g && g.columnInfo()[0].decodedSize == w, "string-width"); if (g.columnInfo()[0].decodedSize != w) return;
  unsigned char o[64]; ::memset(o, 0x77, 64); std::vector<StridedData> sd; sd.emplace_back(o, 2, w, w); Decoder d({"a"}, sd); d.decode(g);
  for (int r = 0; r < 2; r++) v_check(F::text(c, f.row[r].cell[0], w) == F::Bytes(o + r * w, o + (r + 1) * w), "string");
  if (2 * w < 64) v_check(o[2 * w] == 0x77, "beyond"); v_cover("done");
}
HARNESS(B_read_conststr) { storedText("constant_string", v_choose("other", 2)); }
HARNESS(B_read_longconst) { storedText("long_constant_string", v_choose("other", 2)); }
HARNESS(B_read_chars) { storedText("chars", v_choose("other", 2)); }
HARNESS(B_read_str8) { storedText("int8_string", v_choose("other", 2)); }
HARNESS(B_read_str16) { storedText("int16_string", v_choose("other", 2)); }

// ---- headers are verified ------------------------------------------------------------------------------------------------
// 0: a frame, 1: end, 2: error
static int read1(const F::Bytes& b, Frame* out = nullptr) {
  VHandle in(b.data(), b.size());
  try { Reader rd(in, false); Frame f = rd.next(); if (out && f) *out = f; return f ? 0 : 1; } catch (std::exception&) { return 2; }
}
static F::Bytes small(bool other) {
  F::Frame f = one("int8", INTEGER, 5, 9, 2); f.props["k"] = "value";
  for (int r = 0; r < 2; r++) f.row.push_back(F::Row{0, {F::Bytes(1, (unsigned char)r)}});
  return file({f}, {other});
}
HARNESS(B_magic) {
  F::Bytes b = small(v_choose("other", 2)); size_t at = v_choose("at", 5); uint8_t x = v_u8("byte"); v_assume(x != b[at]); b[at] = x;
  v_check(read1(b) == 2, "wrong-magic-is-an-error"); v_cover("done");
}
HARNESS(B_magic_any) { F::Bytes b = small(false); F::Bytes o = b; v_bytes(b.data(), 5, "magic"); bool same = true; for (int i = 0; i < 5; i++) same = same && b[i] == o[i]; int r = read1(b); v_check(same ? r == 0 : r == 2, "wrong-magic-is-an-error"); v_cover("done"); }
HARNESS(B_version) {
  bool other = v_choose("other", 2); F::Bytes b = small(other);
  int32_t maj = (int32_t)v_u32("major"), min = (int32_t)v_u32("minor");
  unsigned char m[8]; ::memcpy(m, &maj, 4); ::memcpy(m + 4, &min, 4);
  for (int i = 0; i < 4; i++) { b[9 + i] = other ? m[3 - i] : m[i]; b[13 + i] = other ? m[7 - i] : m[4 + i]; }
  int r = read1(b);
  v_check(r != 1, "frame-or-error");
  if (maj > 0 || min > 5 || min < 4) v_check(r == 2, "wrong-version-is-an-error");
  if (maj == 0 && (min == 4 || min == 5)) v_check(r == 0, "supported-version-is-read");
  v_cover("done");
}
HARNESS(B_digest) {
  bool other = v_choose("other", 2); F::Bytes b = small(other); size_t at = 21 + v_choose("at", 32); uint8_t x = v_u8("byte"); v_assume(x != b[at]); b[at] = x;
  v_check(read1(b) == 2, "wrong-digest-is-an-error"); v_cover("done");
}
// any byte of the digested part changed
HARNESS(B_header_byte) {
  bool other = v_choose("other", 2); F::Bytes b = small(other); size_t n = b.size() - 57 - 2 * 3; size_t at = 57 + v_choose("at", n); uint8_t x = v_u8("byte"); v_assume(x != b[at]); b[at] = x;
  v_check(read1(b) == 2, "wrong-header-is-an-error"); v_cover("done");
}
// the length fields before it
HARNESS(B_header_lengths) {
  F::Bytes b = small(false); F::Bytes o = b; bool which = v_choose("which", 2); size_t at = which ? 17 : 53; v_bytes(&b[at], 4, "length"); bool same = true; for (int i = 0; i < 4; i++) same = same && b[at + i] == o[at + i];
  int r = read1(b); v_check(same ? r == 0 : r == 2, "wrong-length-is-an-error"); v_cover("done");
}
// recorded numbers are reported
HARNESS(B_recorded) {
  bool other = v_choose("other", 2); static const int64_t R[] = {0, 1, 257, 66000, 40000000}; int64_t rows = R[v_choose("rows", 4 + (other ? 0 : 1))];
  F::Frame f = one("constant", INTEGER, 5, 5, 0);
  F::Bytes b = F::emit(f, other); unsigned char m[8]; int64_t data = 2 * rows;  // a column without data: rows are their markers only
  ::memcpy(m, &data, 8); for (int i = 0; i < 8; i++) b[57 + i] = other ? m[7 - i] : m[i];
  ::memcpy(m, &rows, 8); for (int i = 0; i < 8; i++) b[57 + 16 + i] = other ? m[7 - i] : m[i];
  eckit::MD5 d; d.add(&b[57], (long)(b.size() - 57)); std::string s = d.digest(); ::memcpy(&b[21], s.data(), 32);
  b.resize(b.size() + (size_t)data);
  Frame g; v_check(read1(b, &g) == 0, "frame"); v_check(g && g.rowCount() == (size_t)rows && g.length() == eckit::Length((long long)b.size()), "recorded-row-count"); v_cover("done");
}
HARNESS(B_offsets) {  // three frames of different sizes and orders
  std::vector<F::Frame> fs; std::vector<bool> ot; std::vector<size_t> len;
  F::Bytes all;
  for (int k = 0; k < 3; k++) { F::Frame f = one(k == 1 ? "long_real" : "int16", k == 1 ? DOUBLE : INTEGER, 0, 0, k + (int)v_choose("rows", 2)); f.props["p"] = std::string((size_t)k * 20, 'x'); for (int r = 0; r < f.rows; r++) f.row.push_back(F::Row{0, {F::Bytes(k == 1 ? 8 : 2, (unsigned char)r)}}); F::Bytes b = F::emit(f, v_choose("other", 2)); all.insert(all.end(), b.begin(), b.end()); len.push_back(b.size()); fs.push_back(f); }
  VHandle in(all.data(), all.size()); Reader rd(in, false); size_t at = 0;
  for (int k = 0; k < 3; k++) { Frame g = rd.next(); v_check((bool)g, "frame"); if (!g) return; v_check(g.offset() == eckit::Offset((long long)at) && g.length() == eckit::Length((long long)len[k]) && g.rowCount() == (size_t)fs[k].rows, "recorded-extent"); at += len[k]; v_check(g.properties().size() == 1 && g.properties().at("p") == fs[k].props["p"], "recorded-properties"); }
  v_check(!rd.next(), "end"); v_cover("done");
}
