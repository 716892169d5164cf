// C07: decoding writes exactly the requested cells of the caller's memory. Public interface only.
#include "pipe.h"
using namespace H;
struct Want { size_t col, elem, gap; };   // column, element size, bytes between the elements
static uint64_t pat(size_t i) { return (uint64_t)(0x40 + i % 61); }
// decode the wanted columns, each into its own region with canaries before, between and after
static void decodeWanted(const Frame& f, const Tab& t, const std::vector<Want>& w, size_t front = 16, size_t back = 24) {
  std::vector<std::vector<unsigned char>> m; std::vector<StridedData> sd; std::vector<std::string> names;
  m.reserve(w.size());
  size_t n = t.rows;
  for (auto& x : w) {
    size_t stride = x.elem + x.gap;
    m.emplace_back(front + stride * n + back);
    for (size_t i = 0; i < m.back().size(); i++) m.back()[i] = (unsigned char)pat(i);
    sd.emplace_back(m.back().data() + front, n, x.elem, stride);
    names.push_back(t.c[x.col].name);
  }
  Decoder d(names, sd);
  d.decode(f, 1);
  for (size_t k = 0; k < w.size(); k++) {
    auto& c = t.c[w[k].col]; size_t stride = w[k].elem + w[k].gap;
    for (size_t i = 0; i < m[k].size(); i++) {
      if (i < front) { v_check(m[k][i] == pat(i), "before-untouched"); continue; }
      size_t r = (i - front) / stride, o = (i - front) % stride;
      if (r >= n) v_check(m[k][i] == pat(i), "after-untouched");
      else if (o >= w[k].elem) v_check(m[k][i] == pat(i), "between-untouched");
      else if (o < c.width) v_check(m[k][i] == c.v[r][o], "value-in-its-element");
    }
  }
}
static Frame* open_(VHandle& out, Reader*& rd) { VHandle* in = new VHandle(out.own.data(), out.own.size()); rd = new Reader(*in, false); Frame* f = new Frame(rd->next()); v_check((bool)*f, "frame"); return f; }
static Tab three(int rows, int kind) {
  asDoubles(false);
  Tab t; t.add("i", INTEGER); t.add("s", STRING, 16); t.add("d", DOUBLE); t.add("b", BITFIELD);
  for (int r = 0; r < rows; r++) {
    int64_t ch = kind == 0 ? r : kind == 1 ? 0 : r / 2;
    t.putI(0, 100 + ch * 1000); unsigned char b[16]; ::memset(b, 0, 16); ::memcpy(b, ch % 2 ? "abcdefghij" : "ABCDEFGHIJKLMNOP", ch % 2 ? 10 : 16); t.put(1, b); t.putD(2, 0.5 + (kind == 2 ? r : ch)); t.putI(3, kind == 1 ? 5 : r % 3);
  }
  return t;
}
// every subset and order of two out of four columns, several element sizes and gaps
static void subsets(int rows, int kind) {
  Tab t = three(rows, kind);
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  size_t a = v_choose("first", 4), b = v_choose("second", 5);
  static const size_t EX[] = {0, 8, 16, 3}, G[] = {0, 8, 24, 5};
  size_t ex = EX[v_choose("extra", 4)], g = G[v_choose("gap", 4)];
  std::vector<Want> w{{a, t.c[a].width + ex, g}};
  if (b < 4 && b != a) w.push_back({b, t.c[b].width, g ? 0 : (size_t)40});
  decodeWanted(*f, t, w);
  v_cover("done");
}
HARNESS(B_subsets_changing) { subsets(3, 0); }
HARNESS(B_subsets_constant) { subsets(3, 1); }
HARNESS(B_subsets_some) { subsets(4, 2); }
HARNESS(B_all_orders) {
  Tab t = three(3, 2);
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  size_t p[4] = {0, 1, 2, 3};
  for (size_t i = 0; i < 3; i++) std::swap(p[i], p[i + v_choose("perm", 4 - i)]);
  std::vector<Want> w; for (size_t i = 0; i < 4; i++) w.push_back({p[i], t.c[p[i]].width, 8 * i});
  decodeWanted(*f, t, w);
  v_cover("done");
}
HARNESS(B_no_columns) {
  Tab t = three(3, 0);
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  decodeWanted(*f, t, {});
  v_cover("done");
}
// interleaved (row-major) memory: all columns in one block, odd gap
HARNESS(B_interleaved) {
  Tab t = three((int)v_choose("rows", 4) + 1, 2);
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  size_t stride = 8 + 16 + 8 + 8 + 3, n = t.rows, off[4] = {0, 8, 24, 32};
  std::vector<unsigned char> m(stride * n + 16, 0x33);
  std::vector<StridedData> sd; std::vector<std::string> nm;
  for (int c = 0; c < 4; c++) { sd.emplace_back(m.data() + off[c], n, t.c[c].width, stride); nm.push_back(t.c[c].name); }
  Decoder d(nm, sd); d.decode(*f);
  for (size_t r = 0; r < n; r++) { for (int c = 0; c < 4; c++) v_check(::memcmp(&m[r * stride + off[c]], t.c[c].v[r].data(), t.c[c].width) == 0, "value"); for (size_t i = 40; i < stride; i++) v_check(m[r * stride + i] == 0x33, "gap-untouched"); }
  for (size_t i = stride * n; i < m.size(); i++) v_check(m[i] == 0x33, "after-untouched");
  v_cover("done");
}
// elements too small or too few: an error, and nothing written outside
static void refused(size_t col, size_t elem, size_t nelem) {
  Tab t = three(3, 0);
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  std::vector<unsigned char> m(16 + elem * nelem + 16, 0x44);
  std::vector<StridedData> sd; sd.emplace_back(m.data() + 16, nelem, elem, elem);
  Decoder d({t.c[col].name}, sd);
  bool thrown = false;
  try { d.decode(*f); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "refused");
  for (size_t i = 0; i < m.size(); i++) if (i < 16 || i >= 16 + elem * nelem) v_check(m[i] == 0x44, "nothing-outside");
  v_cover("done");
}
HARNESS(B_too_small) { size_t c = v_choose("col", 4); static const size_t S[] = {1, 4, 7, 8, 12}; size_t s = S[v_choose("size", 5)]; if (s >= (c == 1 ? 16 : 8)) { v_cover("done"); return; } refused(c, s, 3); }
HARNESS(B_too_few_rows) { refused(v_choose("col", 4), 16, v_choose("rows", 3)); }
// the same column twice, an unknown column, more columns than the frame has
HARNESS(B_bad_request) {
  Tab t = three(2, 0);
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  std::vector<std::string> nm; size_t k = v_choose("kind", 4);
  if (k == 0) nm = {"i", "i"}; else if (k == 1) nm = {"i", "x"}; else if (k == 2) nm = {"i", "s", "d", "b", "i"}; else nm = {""};
  std::vector<unsigned char> m(16 * 2 * nm.size() + 8, 0x22); std::vector<StridedData> sd;
  for (size_t i = 0; i < nm.size(); i++) sd.emplace_back(m.data() + 32 * i, 2, 16, 16);
  bool thrown = false;
  try { Decoder d(nm, sd); d.decode(*f); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "refused");
  for (size_t i = 32 * nm.size(); i < m.size(); i++) v_check(m[i] == 0x22, "nothing-outside");
  v_cover("done");
}
// more rows offered than the frame has: the rest stays
HARNESS(B_more_rows) {
  Tab t = three(3, (int)v_choose("kind", 3));
  VHandle out; enc(t, out); Reader* rd; Frame* f = open_(out, rd);
  std::vector<unsigned char> m(24 * 6, 0x11); std::vector<StridedData> sd; size_t c = v_choose("col", 4); size_t w = t.c[c].width;
  sd.emplace_back(m.data(), 6, w, 24);
  Decoder d({t.c[c].name}, sd); d.decode(*f);
  for (size_t i = 0; i < m.size(); i++) { size_t r = i / 24, o = i % 24; if (r < 3 && o < w) v_check(m[i] == t.c[c].v[r][o], "value"); else v_check(m[i] == 0x11, "rest-untouched"); }
  v_cover("done");
}
