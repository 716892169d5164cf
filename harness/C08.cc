// C08: frame iteration delivers every frame once, in order, grouped as asked. Public interface only.
#include "pipe.h"
using namespace H;
struct Fr { int kind; size_t rows; long long off, len; Tab t; };
// kinds: 0 (a,b)  1 (a,b) again, b constant  2 (b,a) reordered  3 (a,c) other name  4 (a real,b) other type  5 (a) fewer  6 (a,b,c) more
//        7 (a,b,s16)  8 (a,b,s24): string widths differ
static Tab table(int kind, size_t rows, int base) {
  Tab t; asDoubles(false);
  auto A = [&](const char* n) { t.add(n, INTEGER); }; auto B = [&](const char* n, ColumnType ty = DOUBLE) { t.add(n, ty); };
  switch (kind) { case 0: case 1: A("a"); B("b"); break; case 2: B("b"); A("a"); break; case 3: A("a"); B("c"); break; case 4: B("a", REAL); B("b"); break; case 5: A("a"); break; case 6: A("a"); B("b"); B("c"); break;
    case 7: A("a"); B("b"); t.add("s", STRING, 16); break; default: A("a"); B("b"); t.add("s", STRING, 24); }
  for (size_t r = 0; r < rows; r++) for (size_t c = 0; c < t.c.size(); c++) {
    if (t.c[c].type == INTEGER) t.putI(c, base + (kind == 1 ? 0 : (int64_t)r));
    else if (t.c[c].type == STRING) { unsigned char b[24]; ::memset(b, 0, 24); ::memset(b, 'a' + (r + base) % 26, t.c[c].width); t.put(c, b); }
    else t.putD(c, base + 0.5 * r);
  }
  return t;
}
static void append(VHandle& out, std::vector<Fr>& fs, int kind, size_t rows) {
  VHandle one; Tab t = table(kind, rows, 10 * (int)fs.size()); enc(t, one, {{"k", "v" + std::to_string(fs.size())}});
  fs.push_back(Fr{kind, rows, (long long)out.own.size(), (long long)one.own.size(), t});
  out.own.insert(out.own.end(), one.own.begin(), one.own.end());
}
static int cls(int k) { return k <= 2 ? 0 : k; }
static void sameCols(const Frame& f, const Tab& t) {
  v_check(f.columnCount() == t.c.size(), "column-count");
  auto& ci = f.columnInfo();
  for (size_t i = 0; i < t.c.size(); i++) { v_check(ci[i].name == t.c[i].name, "column-name"); v_check(ci[i].type == t.c[i].type, "column-type"); v_check(f.hasColumn(t.c[i].name), "has-column"); }
}
static void single(VHandle& out, std::vector<Fr>& fs) {
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, false);
  std::vector<Frame> kept;
  for (auto& x : fs) { Frame f = rd.next(); v_check((bool)f, "every-frame"); v_check((long long)f.offset() == x.off, "offset"); v_check((long long)f.length() == x.len, "length"); v_check(f.rowCount() == x.rows, "row-count"); sameCols(f, x.t); kept.push_back(f); }
  v_check(!rd.next(), "end"); v_check(!rd.next(), "end-stays");
  for (size_t i = fs.size(); i-- > 0;) { if (fs[i].rows) cmpFrame(kept[i], fs[i].t, 0); { eckit::Buffer b = kept[i].encodedData(); v_check(b.size() == (size_t)fs[i].len && ::memcmp(b, &out.own[fs[i].off], b.size()) == 0, "encoded-data"); } }
}
static void grouped(VHandle& out, std::vector<Fr>& fs, long limit) {
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, true, limit);
  size_t i = 0;
  while (i < fs.size()) {
    size_t j = i + 1; size_t rows = fs[i].rows; long long len = fs[i].len;
    bool over = limit >= 0 && rows > (size_t)limit;
    Frame f;
    if (over) { bool thrown = false; try { f = rd.next(); } catch (std::exception&) { thrown = true; } v_check(thrown, "row-limit-error"); v_cover("done"); return; }
    while (j < fs.size() && cls(fs[j].kind) == cls(fs[i].kind) && (limit < 0 || rows + fs[j].rows <= (size_t)limit)) { rows += fs[j].rows; len += fs[j].len; j++; }
    f = rd.next();
    v_check((bool)f, "every-group");
    v_check((long long)f.offset() == fs[i].off, "group-offset"); v_check((long long)f.length() == len, "group-length"); v_check(f.rowCount() == rows, "group-rows");
    sameCols(f, fs[i].t);
    i = j;
  }
  v_check(!rd.next(), "group-end"); v_check(!rd.next(), "group-end-stays");
  v_cover("done");
}
HARNESS(B_single4) {
  VHandle out; std::vector<Fr> fs; static const size_t R[] = {1, 3, 0, 2};
  size_t n = v_choose("frames", 5); for (size_t i = 0; i < n; i++) append(out, fs, i == 0 ? 0 : (int)v_choose("kind", i == 1 ? 9 : 2), R[i]);
  single(out, fs); v_cover("done");
}
static void groups(int n, int kinds) {
  VHandle out; std::vector<Fr> fs; static const size_t R[] = {2, 1, 3, 1, 0};
  for (int i = 0; i < n; i++) append(out, fs, kinds == 9 && i == 0 ? (int)v_choose("kind0", 2) * 7 : (int)v_choose("kind", kinds), R[i]);
  static const long L[] = {-1, 2, 3, 4, 5, 6, 0, 100};
  grouped(out, fs, L[v_choose("limit", kinds == 9 ? 2 : 8)]);
}
HARNESS(B_group2_kinds) { groups(2, 9); }
HARNESS(B_group3_limits) { groups(3, 3); }
HARNESS(B_group4_limits) { groups(4, 4 - 2); }
HARNESS(B_group5_T) { groups(5, 3); }
HARNESS(B_empty_stream) { VHandle in("", 0); Reader rd(in, v_choose("aggregated", 2)); v_check(!rd.next(), "end"); v_check(!rd.next(), "end-stays"); v_cover("done"); }
HARNESS(B_one_frame_kinds) { VHandle out; std::vector<Fr> fs; append(out, fs, (int)v_choose("kind", 9), v_choose("rows", 3)); grouped(out, fs, v_choose("lim", 2) ? -1 : 2); }
// the handle's position is not where the frames start reading (shared with another user): the reader keeps its own
HARNESS(B_moved_handle) {
  VHandle out; std::vector<Fr> fs; append(out, fs, 0, 2); append(out, fs, 3, 1); append(out, fs, 0, 2);
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, v_choose("aggregated", 2));
  for (size_t i = 0; i < fs.size(); i++) { Frame f = rd.next(); in.pos = v_choose("moved", 3) * 17; v_check((bool)f && (long long)f.offset() == fs[i].off && f.rowCount() == fs[i].rows, "frame"); cmpFrame(f, fs[i].t, 0); in.pos = 5; }
  v_check(!rd.next(), "end"); v_cover("done");
}
