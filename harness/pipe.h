// A table of up to a few columns, its encoding through the public interface and its decoding.
#pragma once
#include "hlib.h"
#include "odc/ODBAPISettings.h"
#include "odc/api/Odb.h"
namespace H {
using namespace odc::api;

struct Col { std::string name; ColumnType type; size_t width = 8; std::vector<std::vector<unsigned char>> v; std::vector<ColumnInfo::Bit> bits; };
struct Tab {
  std::vector<Col> c; size_t rows = 0;
  Col& add(const std::string& n, ColumnType t, size_t w = 8) { c.push_back(Col{n, t, w, {}, {}}); return c.back(); }
  void put(size_t col, const void* p) { const unsigned char* b = (const unsigned char*)p; c[col].v.emplace_back(b, b + c[col].width); if (c[col].v.size() > rows) rows = c[col].v.size(); }
  void putD(size_t col, double d) { put(col, &d); }
  void putI(size_t col, int64_t i) { put(col, &i); }
};

// row-contiguous copies, as a caller of encode would hold them
struct Held { std::vector<std::vector<unsigned char>> b; std::vector<ConstStridedData> d; std::vector<ColumnInfo> ci; };
inline void hold(const Tab& t, Held& h) {
  for (auto& c : t.c) {
    h.ci.push_back(ColumnInfo{c.name, c.type, c.width, c.bits});
    h.b.emplace_back(c.width * t.rows + 1);
    for (size_t r = 0; r < t.rows; r++) ::memcpy(&h.b.back()[r * c.width], c.v[r].data(), c.width);
  }
  for (size_t i = 0; i < t.c.size(); i++) h.d.emplace_back(h.b[i].data(), t.rows, t.c[i].width, t.c[i].width);
}
inline void enc(const Tab& t, VHandle& out, const std::map<std::string, std::string>& props = {}, size_t maxRows = 10000) {
  Held h; hold(t, h);
  odc::api::encode(out, h.ci, h.d, props, maxRows);
}
inline bool sameD(double a, double b) { return a == b || (a != a && b != b); }
inline double ldD(const unsigned char* p) { double d; ::memcpy(&d, p, 8); return d; }
inline int64_t ldI(const unsigned char* p) { int64_t d; ::memcpy(&d, p, 8); return d; }
inline bool integral(ColumnType t) { return t == INTEGER || t == BITFIELD; }

// decode rows of one frame into buffers of the given widths; every cell compared with rows [from, from+n) of t
inline void cmpFrame(const Frame& f, const Tab& t, size_t from, size_t nthreads = 1) {
  size_t n = f.rowCount();
  v_check(from + n <= t.rows, "row-count");
  if (from + n > t.rows) return;
  std::vector<std::vector<unsigned char>> o; std::vector<StridedData> od; std::vector<std::string> names;
  o.reserve(t.c.size());
  for (auto& c : t.c) { size_t w = c.type == STRING ? (c.width + 7) / 8 * 8 : 8; o.emplace_back(w * n + 1, (unsigned char)0x5a); od.emplace_back(o.back().data(), n, w, w); names.push_back(c.name); }
  Decoder dec(names, od);
  dec.decode(f, nthreads);
  for (size_t i = 0; i < t.c.size(); i++) {
    auto& c = t.c[i]; size_t w = od[i].dataSize();
    for (size_t r = 0; r < n; r++) {
      const unsigned char* g = &o[i][r * w]; const unsigned char* x = c.v[from + r].data();
      if (c.type == REAL || c.type == DOUBLE) v_check(sameD(ldD(g), ldD(x)), c.type == REAL ? "real-value" : "double-value");
      else if (integral(c.type)) { if (odc::ODBAPISettings::instance().integersAsDoubles()) v_check(ldD(g) == ldD(x), "integer-value"); else v_check(ldI(g) == ldI(x), "integer-value"); }
      else {  // up to the width this frame reports for the column; the string must have ended there
        size_t fw = 0; for (auto& ci : f.columnInfo()) if (ci.name == c.name) fw = ci.decodedSize;
        v_check(fw >= 8 && fw <= w, "string-width"); if (fw > w) return;
        v_check(::memcmp(g, x, fw) == 0, "string-value");
        for (size_t k = fw; k < w; k++) { v_check(k >= c.width || x[k] == 0, "string-value"); v_check(g[k] == 0x5a, "beyond-the-width"); }
      }
    }
  }
}
// the whole stream is exactly t
inline void cmpStream(const void* p, size_t len, const Tab& t, bool aggregated = false, size_t nthreads = 1) {
  VHandle in(p, len);
  Reader rd(in, aggregated);
  size_t from = 0;
  while (Frame f = rd.next()) {
    v_check(f.columnCount() == t.c.size(), "column-count");
    cmpFrame(f, t, from, nthreads);
    from += f.rowCount();
  }
  v_check(from == t.rows, "row-count");
}
inline void roundtrip(const Tab& t) {
  VHandle out; enc(t, out);
  cmpStream(out.own.data(), out.own.size(), t);
  v_cover("done");
}
inline void asDoubles(bool d) { odc::ODBAPISettings::instance().treatIntegersAsDoubles(d); }
inline void putInt(Tab& t, size_t col, bool dbl, int64_t x) { if (dbl) t.putD(col, (double)x); else t.putI(col, x); }
}  // namespace H
