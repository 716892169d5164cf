// C10: splitting a table over several frames changes nothing but the frame count. Public interface only.
#include "pipe.h"
using namespace H;
static void split(size_t rows, size_t maxr, bool agg) {
  asDoubles(false);
  Tab t; t.add("i", INTEGER).bits = {{"x", 3, 0}, {"y", 5, 3}}; t.c[0].type = BITFIELD; t.add("d", DOUBLE); t.add("s", STRING, 16); t.add("k", INTEGER);
  for (size_t r = 0; r < rows; r++) { t.putI(0, (int64_t)(r * r)); t.putD(1, r % 3 ? 0.5 : 1.25); unsigned char b[16]; ::memset(b, 0, 16); ::memset(b, 'a' + r % 4, 3 + (r % 3) * 4); t.put(2, b); t.putI(3, 7); }
  VHandle out; enc(t, out, {{"p", "q"}, {"r", ""}}, maxr);
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, false);
  size_t from = 0, n = 0, expect = rows == 0 ? 1 : (rows + maxr - 1) / maxr;
  while (Frame f = rd.next()) {
    n++;
    v_check(f.rowCount() <= maxr, "no-frame-over-the-maximum");
    v_check(f.columnCount() == 4, "all-columns");
    auto& ci = f.columnInfo();
    for (size_t c = 0; c < 4; c++) v_check(ci[c].name == t.c[c].name && ci[c].type == t.c[c].type, "column-description");
    v_check(ci[0].bitfield.size() == 2 && ci[0].bitfield[1].name == "y" && ci[0].bitfield[1].size == 5 && ci[0].bitfield[1].offset == 3, "bitfield");
    auto& p = f.properties();
    v_check(p.count("p") && p.at("p") == "q" && p.count("r") && p.at("r") == "", "properties");
    size_t left = rows - from;
    v_check(f.rowCount() == (left < maxr ? left : maxr), "full-frames-first");
    cmpFrame(f, t, from); from += f.rowCount();
  }
  v_check(from == rows, "row-count"); v_check(n == expect, "frame-count");
  if (agg) cmpStream(out.own.data(), out.own.size(), t, true);
  v_cover("done");
}
HARNESS(B_split_small) { split(v_choose("rows", 8), v_choose("max", 8) + 1, false); }
HARNESS(B_split_agg) { static const size_t M[] = {1, 2, 3, 5}; split(1 + v_choose("rows", 7), M[v_choose("max", 4)], false); }
HARNESS(B_split_50) { static const size_t M[] = {7, 10, 25, 49, 50, 51}; split(50, M[v_choose("max", 6)], false); }
HARNESS(B_default_limit) {  // the documented default: 10000 rows a frame
  asDoubles(false);
  size_t rows = 9999 + v_choose("rows", 4); Tab t; t.add("k", INTEGER);
  std::vector<int64_t> v(rows); for (size_t r = 0; r < rows; r++) v[r] = 5; v[rows - 1] = 6;
  std::vector<ColumnInfo> ci{{"k", INTEGER, 8}}; std::vector<ConstStridedData> d; d.emplace_back(v.data(), rows, 8, 8);
  VHandle out; odc::api::encode(out, ci, d);
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  v_check((bool)f && f.rowCount() == (rows < 10000 ? rows : 10000), "first-frame"); Frame g = rd.next();
  v_check((bool)g == (rows > 10000), "second-frame"); if (g) v_check(g.rowCount() == rows - 10000, "second-frame-rows"); v_check(!rd.next(), "end");
  v_cover("done");
}
// strided input: interleaved columns
HARNESS(B_split_strided) {
  asDoubles(false);
  size_t rows = 1 + v_choose("rows", 6), maxr = 1 + v_choose("max", 4);
  std::vector<int64_t> m(rows * 3 + 1); for (size_t i = 0; i < m.size(); i++) m[i] = (int64_t)(i * 37 % 1000);
  std::vector<ColumnInfo> ci{{"a", INTEGER, 8}, {"b", INTEGER, 8}}; std::vector<ConstStridedData> d; d.emplace_back(&m[0], rows, 8, 24); d.emplace_back(&m[2], rows, 8, 24);
  VHandle out; odc::api::encode(out, ci, d, {}, maxr);
  Tab t; t.add("a", INTEGER); t.add("b", INTEGER); for (size_t r = 0; r < rows; r++) { t.putI(0, m[3 * r]); t.putI(1, m[3 * r + 2]); }
  cmpStream(out.own.data(), out.own.size(), t); v_cover("done");
}
HARNESS(B_zero_max) {  // not a usable maximum: an error, no endless loop
  asDoubles(false);
  Tab t; t.add("a", INTEGER); for (int r = 0; r < 2; r++) t.putI(0, r);
  VHandle out; bool thrown = false; try { enc(t, out, {}, 0); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "refused"); v_cover("done");
}
