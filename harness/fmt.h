// The ODB-2 frame format, written down once more from the format alone: a parser, a writer for either byte order and a
// decoder of the rows, none of which uses odc. Symbolic bytes pass through; the structure has to be concrete.
#pragma once
#include "pipe.h"
#include "eckit/utils/MD5.h"
namespace F {
typedef std::vector<unsigned char> Bytes;
inline Bytes rev(const Bytes& b) { return Bytes(b.rbegin(), b.rend()); }
struct Str { std::string s; int32_t cnt, index; };
struct Column {
  std::string name; int32_t type = 0; std::vector<std::string> bn; std::vector<int32_t> bs;
  std::string codec; int32_t hasMissing = 0; Bytes min, max, miss;  // native byte order, except the raw bytes of constant_string
  std::vector<Str> strings; std::string longConstant;
  size_t cell() const {
    if (codec == "constant" || codec == "constant_string" || codec == "long_constant_string") return 0;
    if (codec == "int8" || codec == "int8_missing" || codec == "constant_or_missing" || codec == "real_constant_or_missing" || codec == "int8_string") return 1;
    if (codec == "int16" || codec == "int16_missing" || codec == "int16_string") return 2;
    if (codec == "int32" || codec == "short_real" || codec == "short_real2") return 4;
    if (codec == "long_real" || codec == "chars") return 8;
    v_fail("known-codec"); return 0;
  }
  bool table() const { return codec == "int8_string" || codec == "int16_string" || codec == "chars"; }
};
struct Row { size_t start; std::vector<Bytes> cell; };  // cells start.. in native byte order
struct Frame {
  int32_t order = 1, major = 0, minor = 5; std::string digest; int32_t headerSize = 0; int64_t dataSize = 0, reserved = 0, rows = 0;
  std::vector<Bytes> flags; std::map<std::string, std::string> props; std::vector<Column> cols; std::vector<Row> row;
  size_t length = 0; bool swapped = false;
};
struct Rd {
  const unsigned char* p; const unsigned char* e; bool sw; bool bad = false;
  Bytes raw(size_t n) { if ((size_t)(e - p) < n) { bad = true; v_fail("frame-holds-what-its-header-says"); return Bytes(n); } Bytes b(p, p + n); p += n; return b; }
  Bytes num(size_t n) { Bytes b = raw(n); return sw ? rev(b) : b; }
  int32_t i4() { Bytes b = num(4); int32_t x; ::memcpy(&x, b.data(), 4); return (int32_t)v_concretize((uint32_t)x); }
  int64_t i8() { Bytes b = num(8); int64_t x; ::memcpy(&x, b.data(), 8); return (int64_t)v_concretize((uint64_t)x); }
  std::string str() { int32_t n = i4(); if (n < 0 || n > e - p) { bad = true; v_fail("string-length"); return ""; } Bytes b = raw((size_t)n); return std::string((const char*)b.data(), b.size()); }
};
inline bool parse(const unsigned char* p, size_t len, Frame& f) {
  static const unsigned char MAGIC[5] = {0xff, 0xff, 'O', 'D', 'A'};
  if (len < 57) { v_fail("frame-length"); return false; }
  if (::memcmp(p, MAGIC, 5) != 0) { v_fail("magic"); return false; }
  Rd r{p + 5, p + len, false};
  f.order = r.i4(); f.swapped = f.order != 1; r.sw = f.swapped;
  if (f.order != 1 && f.order != 0x01000000) { v_fail("byte-order-mark"); return false; }
  f.order = 1;
  f.major = r.i4(); f.minor = r.i4(); f.digest = r.str(); f.headerSize = r.i4();
  v_check(f.major == 0 && f.minor == 5, "version");
  v_check(f.digest.size() == 32, "digest-length");
  const unsigned char* h0 = r.p;
  if (f.headerSize < 0 || f.headerSize > r.e - r.p) { v_fail("header-length"); return false; }
  { eckit::MD5 m; m.add(h0, (long)f.headerSize); std::string d = m.digest(); v_check(d == f.digest, "digest"); }
  f.dataSize = r.i8(); f.reserved = r.i8(); f.rows = r.i8();
  v_check(f.reserved == 0, "reserved-field");
  int32_t nf = r.i4(); for (int i = 0; i < nf; i++) f.flags.push_back(r.num(8));
  int32_t np = r.i4(); for (int i = 0; i < np; i++) { std::string k = r.str(); f.props[k] = r.str(); }
  v_check((int32_t)f.props.size() == np, "property-names-differ");
  int32_t nc = r.i4();
  for (int i = 0; i < nc && !r.bad; i++) {
    Column c; c.name = r.str(); c.type = r.i4();
    if (c.type == H::BITFIELD) { int32_t n = r.i4(); for (int k = 0; k < n; k++) c.bn.push_back(r.str()); n = r.i4(); for (int k = 0; k < n; k++) c.bs.push_back(r.i4()); }
    c.codec = r.str(); c.hasMissing = r.i4();
    bool raw = c.codec == "constant_string";
    c.min = raw ? r.raw(8) : r.num(8); c.max = raw ? r.raw(8) : r.num(8); c.miss = r.num(8);
    if (c.table()) { int32_t n = r.i4(); for (int k = 0; k < n; k++) { Str s; s.s = r.str(); s.cnt = r.i4(); s.index = r.i4(); c.strings.push_back(s); } }
    if (c.codec == "long_constant_string") c.longConstant = r.str();
    f.cols.push_back(c);
  }
  v_check(r.p == h0 + f.headerSize, "header-length");
  if (f.dataSize < 0 || f.dataSize > r.e - r.p) { v_fail("data-length"); return false; }
  const unsigned char* d0 = r.p; Rd d{r.p, r.p + f.dataSize, f.swapped};
  for (int64_t i = 0; i < f.rows && !d.bad; i++) {
    Bytes m = d.raw(2); Row w; w.start = v_concretize((size_t)m[0] * 256 + m[1]);
    v_check(w.start <= f.cols.size() && (i > 0 || w.start == 0), "row-marker");
    for (size_t c = w.start; c < f.cols.size(); c++) w.cell.push_back(f.cols[c].codec == "chars" ? d.raw(8) : d.num(f.cols[c].cell()));
    f.row.push_back(w);
  }
  v_check(d.p == d.e, "data-length");
  f.length = (size_t)(d0 - p) + (size_t)f.dataSize;
  return !r.bad && !d.bad;
}
struct Wr {
  Bytes b; bool sw;
  void raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
  void num(const Bytes& x) { raw(sw ? rev(x) : x); }
  void i4(int32_t x) { Bytes v(4); ::memcpy(v.data(), &x, 4); num(v); }
  void i8(int64_t x) { Bytes v(8); ::memcpy(v.data(), &x, 8); num(v); }
  void str(const std::string& s) { i4((int32_t)s.size()); b.insert(b.end(), s.begin(), s.end()); }
};
inline Bytes emit(const Frame& f, bool other) {
  Wr d{{}, other};
  for (auto& w : f.row) {
    d.b.push_back((unsigned char)(w.start / 256)); d.b.push_back((unsigned char)(w.start % 256));
    for (size_t k = 0; k < w.cell.size(); k++) if (f.cols[w.start + k].codec == "chars") d.raw(w.cell[k]); else d.num(w.cell[k]);
  }
  Wr h{{}, other};
  h.i8((int64_t)d.b.size()); h.i8(0); h.i8(f.rows);
  h.i4((int32_t)f.flags.size()); for (auto& x : f.flags) h.num(x);
  h.i4((int32_t)f.props.size()); for (auto& kv : f.props) { h.str(kv.first); h.str(kv.second); }
  h.i4((int32_t)f.cols.size());
  for (auto& c : f.cols) {
    h.str(c.name); h.i4(c.type);
    if (c.type == H::BITFIELD) { h.i4((int32_t)c.bn.size()); for (auto& x : c.bn) h.str(x); h.i4((int32_t)c.bs.size()); for (auto x : c.bs) h.i4(x); }
    h.str(c.codec); h.i4(c.hasMissing);
    if (c.codec == "constant_string") { h.raw(c.min); h.raw(c.max); } else { h.num(c.min); h.num(c.max); }
    h.num(c.miss);
    if (c.table()) { h.i4((int32_t)c.strings.size()); for (auto& s : c.strings) { h.str(s.s); h.i4(s.cnt); h.i4(s.index); } }
    if (c.codec == "long_constant_string") h.str(c.longConstant);
  }
  Wr o{{0xff, 0xff, 'O', 'D', 'A'}, other};
  o.i4(1); o.i4(f.major); o.i4(f.minor);
  eckit::MD5 m; m.add(h.b.data(), (long)h.b.size()); o.str(m.digest());
  o.i4((int32_t)h.b.size()); o.raw(h.b); o.raw(d.b);
  return o.b;
}
inline double num8(const Bytes& b) { double d; ::memcpy(&d, b.data(), 8); return d; }
// value of one stored cell; integers and reals as double, strings as bytes padded to width
inline double number(const Column& c, const Bytes& x) {
  double mn = num8(c.min), ms = num8(c.miss);
  if (c.codec == "constant") return mn;
  if (c.codec == "int8") return mn + x[0];
  if (c.codec == "constant_or_missing") return x[0] == 0xff ? ms : mn + x[0];
  if (c.codec == "real_constant_or_missing") return x[0] == 0xff ? ms : mn;
  if (c.codec == "int8_missing") return x[0] == 0xff ? ms : mn + x[0];
  if (c.codec == "int16" || c.codec == "int16_missing") { uint16_t v; ::memcpy(&v, x.data(), 2); return c.codec == "int16_missing" && v == 0xffff ? ms : mn + v; }
  if (c.codec == "int32") { int32_t v; ::memcpy(&v, x.data(), 4); return (double)v; }
  if (c.codec == "short_real" || c.codec == "short_real2") { uint32_t bits; ::memcpy(&bits, x.data(), 4); float v; ::memcpy(&v, x.data(), 4); return bits == (c.codec == "short_real" ? 0x00800000u : 0xff7fffffu) ? ms : (double)v; }
  if (c.codec == "long_real") return num8(x);
  v_fail("known-codec"); return 0;
}
inline Bytes text(const Column& c, const Bytes& x, size_t width) {
  Bytes o(width, 0);
  if (c.codec == "constant_string") { ::memcpy(o.data(), c.min.data(), std::min<size_t>(8, width)); return o; }
  if (c.codec == "chars") { ::memcpy(o.data(), x.data(), std::min<size_t>(8, width)); return o; }
  if (c.codec == "long_constant_string") { ::memcpy(o.data(), c.longConstant.data(), std::min(c.longConstant.size(), width)); return o; }
  size_t i = x[0]; if (c.codec == "int16_string") { uint16_t v; ::memcpy(&v, x.data(), 2); i = v; }
  i = v_concretize(i);
  for (auto& s : c.strings) if ((size_t)s.index == i) { ::memcpy(o.data(), s.s.data(), std::min(s.s.size(), width)); return o; }
  v_fail("string-in-the-table"); return o;
}
// every row of the frame, as an independent reader sees it, against rows [from, ..) of t
inline void cmp(const Frame& f, const H::Tab& t, size_t from) {
  v_check(f.cols.size() == t.c.size() && from + (size_t)f.rows <= t.rows, "columns-and-rows");
  if (f.cols.size() != t.c.size() || from + (size_t)f.rows > t.rows) return;
  bool dbl = odc::ODBAPISettings::instance().integersAsDoubles();
  std::vector<Bytes> last(f.cols.size());
  for (size_t r = 0; r < (size_t)f.rows; r++) {
    for (size_t c = f.row[r].start; c < f.cols.size(); c++) last[c] = f.row[r].cell[c - f.row[r].start];
    for (size_t c = 0; c < f.cols.size(); c++) {
      auto& col = f.cols[c]; auto& x = t.c[c].v[from + r];
      if (t.c[c].type == H::STRING) { Bytes s = text(col, last[c], t.c[c].width); bool end = false; bool ok = true; for (size_t k = 0; k < s.size(); k++) { end = end || x[k] == 0; ok = ok && s[k] == (end ? 0 : x[k]); } v_check(ok, "stored-string"); }
      else if (H::integral(t.c[c].type)) v_check(number(col, last[c]) == (dbl ? H::ldD(x.data()) : (double)H::ldI(x.data())), "stored-integer");
      else v_check(H::sameD(number(col, last[c]), H::ldD(x.data())), "stored-value");
    }
  }
}
}  // namespace F
