// C20: row-wise writing and reading agree with the column-wise interface. Public interfaces only.
#include "pipe.h"
#include "fmt.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/core/MetaData.h"
using namespace H;
struct CHandle : VHandle { using VHandle::VHandle; eckit::DataHandle* clone() const override { return new CHandle(rd, rdlen); } };
struct Miss { size_t col; double v; };
// all rows through the writer iterator
static void write(const Tab& t, VHandle& out, size_t cut, const std::vector<Miss>& ms = {}, bool byOwner = false) {
  odc::Writer<> w(out); if (byOwner) w.rowsBufferSize(cut); auto it = w.begin(); if (!byOwner) (**it).rowsBufferSize(cut);
  it->setNumberOfColumns(t.c.size());
  for (size_t i = 0; i < t.c.size(); i++) {
    if (t.c[i].bits.empty()) it->setColumn(i, t.c[i].name, t.c[i].type);
    else { eckit::sql::BitfieldDef b; for (auto& x : t.c[i].bits) { b.first.push_back(x.name); b.second.push_back(x.size); } it->setBitfieldColumn(i, t.c[i].name, t.c[i].type, b); }
    if (t.c[i].type == STRING) (**it).columns()[i]->dataSizeDoubles(t.c[i].width / 8);
  }
  for (auto& m : ms) it->missingValue(m.col, m.v);
  it->writeHeader();
  for (size_t r = 0; r < t.rows; r++) { for (size_t i = 0; i < t.c.size(); i++) ::memcpy(&(*it)[i] , t.c[i].v[r].data(), t.c[i].width); ++it; }
}
static void cell(const Col& c, const unsigned char* x, const double* g, size_t gw) {
  if (c.type == REAL || c.type == DOUBLE) v_check(sameD(*g, ldD(x)), "value");
  else if (integral(c.type)) { if (odc::ODBAPISettings::instance().integersAsDoubles()) v_check(*g == ldD(x), "value"); else v_check(ldI((const unsigned char*)g) == ldI(x), "value"); }
  else { const unsigned char* b = (const unsigned char*)g; for (size_t k = 0; k < c.width; k++) v_check((k < gw ? b[k] : 0) == x[k], "string"); }
}
// all rows from the reader iterator
static void read(const VHandle& out, const Tab& t, const std::vector<Miss>& ms = {}) {
  CHandle in(out.own.data(), out.own.size()); odc::Reader rd(in); auto it = rd.begin(); auto end = rd.end(); size_t r = 0;
  for (; it != end; ++it, ++r) {
    v_check(r < t.rows, "row-count"); if (r >= t.rows) return;
    v_check(it->columns().size() == t.c.size(), "column-count"); if (it->columns().size() != t.c.size()) return;
    for (size_t i = 0; i < t.c.size(); i++) {
      auto& col = *it->columns()[i]; v_check(col.name() == t.c[i].name && col.type() == t.c[i].type, "column-description");
      v_check(col.bitfieldDef().first.size() == t.c[i].bits.size(), "bitfields");
      cell(t.c[i], t.c[i].v[r].data(), &it->data(i), it->dataSizeDoubles(i) * 8);
      for (auto& m : ms) if (m.col == i) { v_check(sameD(col.coder().rawMissingValue(), m.v), "missing-value-kept"); double x = odc::ODBAPISettings::instance().integersAsDoubles() || !integral(t.c[i].type) ? ldD(t.c[i].v[r].data()) : (double)ldI(t.c[i].v[r].data()); v_check(it->isMissing(i) == (x == m.v), "missing-cells"); }
    }
  }
  v_check(r == t.rows, "row-count");
}
static void all(const Tab& t, size_t cut, const std::vector<Miss>& ms = {}) {
  VHandle out; write(t, out, cut, ms);
  cmpStream(out.own.data(), out.own.size(), t); cmpStream(out.own.data(), out.own.size(), t, true); read(out, t, ms);
  VHandle in(out.own.data(), out.own.size()); odc::api::Reader rd(in, false); size_t n = 0; while (Frame f = rd.next()) { n++; v_check(f.rowCount() <= cut, "rows-per-frame"); }
  v_check(n == (t.rows + cut - 1) / cut, "frame-count"); v_cover("done");
}
// whole value domains
static void one(ColumnType type, bool d, size_t rows) {
  asDoubles(d); Tab t; t.add("a@t", type); t.add("b", DOUBLE);
  for (size_t r = 0; r < rows; r++) { if (integral(type)) putInt(t, 0, d, r == 1 ? 5 : v_range("i", INT32_MIN, INT32_MAX)); else { double x = r == 1 ? 1.5 : v_double("x"); if (type == REAL) v_assume(x != x || (double)(float)x == x); t.putD(0, x); } t.putD(1, (double)r); }
  all(t, 2);
}
HARNESS(B_integer) { one(INTEGER, false, 3); }
HARNESS(B_integer_doubles) { one(INTEGER, true, 3); }
HARNESS(B_bitfield) { one(BITFIELD, false, 2); }
HARNESS(B_double) { one(DOUBLE, true, 2); }
HARNESS(B_real) { one(REAL, true, 2); }
HARNESS(B_strings) {  // empty and filled strings in every order, leading empties included
  size_t w = 8 * (1 + v_choose("width", 2)); Tab t; t.add("s@t", STRING, w); t.add("k", STRING, 8);
  static const char* S[4] = {"", "a", "abcdefgh", "abcdefghijklmno"};
  for (size_t r = 0; r < 3; r++) { unsigned char b[16] = {0}; const char* s = S[v_choose("s", w > 8 ? 4 : 3)]; ::memcpy(b, s, std::min(std::strlen(s), w)); t.put(0, b); unsigned char e[8] = {0}; if (r == 2) e[0] = 'x'; t.put(1, e); }
  all(t, 2);
}
static void cuts(size_t rows) {  // changes of each row from the one before, frames of one row or more
  Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("s", STRING, 8); asDoubles(false);
  unsigned char a[8] = {0}, b[8] = "xy";
  for (size_t r = 0; r < rows; r++) { size_t k = v_choose("change", 4); t.putI(0, k == 1 ? 2147483647 : k == 2 ? (int)r : 4); t.putD(1, k == 1 ? -2147483647. : k == 3 ? 0.5 + r : 1.25); t.put(2, k == 2 ? b : a); }
  all(t, 1 + v_choose("cut", rows));
}
HARNESS(B_cuts) { cuts(3); }
HARNESS(B_cuts_T) { cuts(4); }
HARNESS(B_missing) {  // own missing values hold for every frame
  bool d = v_choose("asDoubles", 2); asDoubles(d); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("r", REAL);
  bool dm = v_choose("d", 2);
  for (size_t r = 0; r < 3; r++) { putInt(t, 0, d, v_choose("i", 2) ? -7 : (int)r); t.putD(1, dm == (r == 1) ? 1e300 : 0.5 * r); t.putD(2, r == 1 ? -1. : 4.); }
  all(t, 1 + v_choose("cut", 2), {{0, -7}, {1, 1e300}, {2, -1}});
}
HARNESS(B_missing_number) {  // any number as missing value
  asDoubles(true); Tab t; t.add("d", DOUBLE); double m = v_double("missing"); v_assume(m == m);
  t.putD(0, 1.5); t.putD(0, m); t.putD(0, m);
  all(t, 1, {{0, m}});
}
HARNESS(B_bitfields) {
  asDoubles(false); Tab t; Col& c = t.add("b@t", BITFIELD); c.bits = {{"x", 1, 0}, {"yy", 3, 1}}; t.add("i", INTEGER);
  for (int r = 0; r < 2; r++) { t.putI(0, v_range("b", 0, 15)); t.putI(1, r); }
  all(t, 1);
}
HARNESS(B_owner) {  // frame length set on the writer
  asDoubles(false); Tab t; t.add("i", INTEGER); for (int r = 0; r < 5; r++) t.putI(0, r * 300);
  size_t cut = 1 + v_choose("cut", 6); VHandle out; write(t, out, cut, {}, true); cmpStream(out.own.data(), out.own.size(), t);
  VHandle in(out.own.data(), out.own.size()); odc::api::Reader rd(in, false); size_t n = 0; while (Frame f = rd.next()) n++;
  v_check(n == (5 + cut - 1) / cut, "frame-count"); v_cover("done");
}
HARNESS(B_from_frames) {  // frames of the column-wise interface, either byte order, different columns in each
  size_t free = v_choose("free", 3); bool other = free == 2; asDoubles(false);
  Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("s", STRING, 16); t.add("c", INTEGER);
  for (size_t r = 0; r < 3; r++) { t.putI(0, r == 2 && free == 1 ? v_range("i", INT32_MIN, INT32_MAX) : -1000000000 + (int)r); t.putD(1, r == 1 && free == 0 ? v_double("x") : r * 0.1); unsigned char b[16] = {0}; if (r) ::memcpy(b, r == 1 ? "abc" : "abcdefghijk", r == 1 ? 3 : 11); t.put(2, b); t.putI(3, 9); }
  Tab u; u.add("q", REAL); u.add("i", INTEGER); for (int r = 0; r < 2; r++) { u.putD(0, r + .5); u.putI(1, r ? 9 : 70000 * (int)v_choose("j", 2)); }
  VHandle e1, e2; size_t cut = 1 + v_choose("cut", 3); enc(t, e1, {}, cut); enc(u, e2);
  F::Bytes all;
  auto app = [&](VHandle& e) { if (!other) { all.insert(all.end(), e.own.begin(), e.own.end()); return; } VHandle in(e.own.data(), e.own.size()); odc::api::Reader rd(in, false); 
    size_t p = 0; while (p < e.own.size()) { F::Frame f; if (!F::parse(e.own.data() + p, e.own.size() - p, f)) { v_check(false, "format"); return; } F::Bytes b = F::emit(f, true); all.insert(all.end(), b.begin(), b.end()); p += f.length; } };
  app(e1); app(e2);
  CHandle in(all.data(), all.size()); odc::Reader rd(in); auto it = rd.begin(); auto end = rd.end(); size_t r = 0, sets = 0;
  for (; it != end; ++it, ++r) {
    if (r && it->isNewDataset()) { sets++; v_check(r >= 3 || r % cut == 0, "datasets"); }
    const Tab& x = r < 3 ? t : u; size_t q = r < 3 ? r : r - 3; v_check(r < 5, "row-count"); if (r >= 5) return;
    v_check(it->columns().size() == x.c.size(), "column-count"); if (it->columns().size() != x.c.size()) return;
    for (size_t i = 0; i < x.c.size(); i++) { v_check(it->columns()[i]->name() == x.c[i].name && it->columns()[i]->type() == x.c[i].type, "column-description"); cell(x.c[i], x.c[i].v[q].data(), &it->data(i), it->dataSizeDoubles(i) * 8); }
  }
  v_check(r == 5, "row-count"); v_check(sets == (3 + cut - 1) / cut, "datasets"); v_cover("done");
}
HARNESS(B_pass1) {  // from a reader straight to a writer
  asDoubles(false); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("s", STRING, 8); Col& c = t.add("b", BITFIELD); c.bits = {{"x", 1, 0}, {"yy", 3, 1}};
  for (size_t r = 0; r < 4; r++) { t.putI(0, v_choose("i", 3) * 300 + 2147483347); t.putD(1, r * .5); unsigned char b[8] = {0}; if (r & 1) b[0] = 'q'; t.put(2, b); t.putI(3, r); }
  VHandle e; enc(t, e, {}, 1 + v_choose("cut", 4));
  CHandle in(e.own.data(), e.own.size()); odc::Reader rd(in); auto it = rd.begin(); auto end = rd.end(); VHandle out;
  { odc::Writer<> w(out); auto o = w.begin(); unsigned long n = o->pass1(it, end); v_check(n == 4, "rows-copied"); }
  cmpStream(out.own.data(), out.own.size(), t); read(out, t); v_cover("done");
}
HARNESS(B_double_T) { one(DOUBLE, true, 3); }
// cells never set hold the missing value of their column
HARNESS(B_unset) {
  bool d = v_choose("asDoubles", 2); asDoubles(d); Tab t; t.add("i", INTEGER); t.add("d", DOUBLE); t.add("r", REAL); t.add("k", INTEGER);
  int64_t m = v_choose("own", 2) ? -7 : 2147483647;
  size_t unset = v_choose("unset", 8); VHandle out;
  { odc::Writer<> w(out); auto it = w.begin(); it->setNumberOfColumns(4); for (size_t i = 0; i < 4; i++) it->setColumn(i, t.c[i].name, t.c[i].type);
    if (m == -7) { it->missingValue(0, -7); it->missingValue(1, 1e300); it->missingValue(2, -1); }
    it->writeHeader();
    for (int r = 0; r < 2; r++) {
      if (unset & 1) putInt(t, 0, d, m); else { putInt(t, 0, d, r + 3); (*it)[0] = ldD(t.c[0].v[r].data()); }
      if (unset & 2) t.putD(1, m == -7 ? 1e300 : -2147483647.); else { t.putD(1, r * .5); (*it)[1] = r * .5; }
      if (unset & 4) t.putD(2, m == -7 ? -1. : -2147483647.); else { t.putD(2, 2.5); (*it)[2] = 2.5; }
      putInt(t, 3, d, r); (*it)[3] = ldD(t.c[3].v[r].data()); ++it;
    } }
  read(out, t); cmpStream(out.own.data(), out.own.size(), t); v_cover("done");
}
static void expectFrames(const VHandle& out, const std::vector<Tab>& ts) {
  VHandle in(out.own.data(), out.own.size()); odc::api::Reader rd(in, false); size_t k = 0, from = 0;
  while (Frame f = rd.next()) { while (k < ts.size() && from == ts[k].rows) { k++; from = 0; } v_check(k < ts.size(), "frames"); if (k == ts.size()) return; v_check(f.columnCount() == ts[k].c.size(), "column-count"); if (f.columnCount() != ts[k].c.size()) return; cmpFrame(f, ts[k], from); from += f.rowCount(); }
  v_check(k + 1 == ts.size() && from == ts[k].rows, "row-count");
}
static Tab shape(size_t k, int seed) {  // tables of one to four columns
  Tab t; t.add("i", INTEGER); if (k >= 1) t.add("s", STRING, k == 3 ? 16 : 8); if (k >= 2) t.add("d", DOUBLE);
  for (int r = 0; r < 3; r++) { t.putI(0, r == 1 ? seed : 1000 * seed + r); if (k >= 1) { unsigned char b[16] = {0}; ::memcpy(b, k == 3 ? "abcdefghijkl" : "xyz", k == 3 ? 12 : 3); b[0] = (unsigned char)('a' + r / 2); t.put(1, b); } if (k >= 2) t.putD(2, r * .5 + seed); }
  return t;
}
HARNESS(B_pass1_changing) {  // the columns change from frame to frame
  asDoubles(false); std::vector<Tab> ts; VHandle e; size_t last = 9;
  for (int p = 0; p < 3; p++) {
    size_t k = v_choose("shape", 4); Tab t = shape(k, p + 1); enc(t, e);
    if (k == last) { for (size_t c = 0; c < t.c.size(); c++) for (auto& v : t.c[c].v) ts.back().c[c].v.push_back(v); ts.back().rows += t.rows; } else ts.push_back(t);  // rows of like frames are written as one
    last = k;
  }
  CHandle in(e.own.data(), e.own.size()); odc::Reader rd(in); auto it = rd.begin(); auto end = rd.end(); VHandle out;
  { odc::Writer<> w(out); auto o = w.begin(); unsigned long n = o->pass1(it, end); v_check(n == 9, "rows-copied"); }
  expectFrames(out, ts); v_cover("done");
}
HARNESS(B_columns_again) {  // other columns after a flush
  asDoubles(false); std::vector<Tab> ts; size_t cut = 1 + v_choose("cut", 4); VHandle out;
  { odc::Writer<> w(out); w.rowsBufferSize(cut); auto it = w.begin();
    for (int p = 0; p < 3; p++) {
      ts.push_back(shape(v_choose("shape", 4), p + 1)); const Tab& t = ts.back();
      if (p) (**it).flush();
      it->setNumberOfColumns(t.c.size());
      for (size_t i = 0; i < t.c.size(); i++) { it->setColumn(i, t.c[i].name, t.c[i].type); if (t.c[i].type == STRING) (**it).columns()[i]->dataSizeDoubles(t.c[i].width / 8); }
      it->writeHeader();
      for (size_t r = 0; r < t.rows; r++) { for (size_t i = 0; i < t.c.size(); i++) ::memcpy(&(*it)[i], t.c[i].v[r].data(), t.c[i].width); ++it; }
    } }
  expectFrames(out, ts); v_cover("done");
}
HARNESS(B_string_grows) {  // a string column gets wider between rows
  asDoubles(false); Tab a, b; size_t w1 = 8 * (1 + v_choose("before", 2)), w2 = 8 * (1 + v_choose("after", 3)), n = 1 + v_choose("rows", 3), cut = 1 + v_choose("cut", 3); VHandle out;
  for (Tab* t : {&a, &b}) { t->add("i", INTEGER); t->add("s", STRING, t == &a ? w1 : w2); t->add("d", DOUBLE); for (size_t r = 0; r < n; r++) { t->putI(0, r * 300); unsigned char x[24]; ::memset(x, 'a' + (int)r, 24); t->put(1, x); t->putD(2, .5 * r); } }
  { odc::Writer<> w(out); w.rowsBufferSize(cut); auto it = w.begin(); it->setNumberOfColumns(3);
    for (size_t i = 0; i < 3; i++) it->setColumn(i, a.c[i].name, a.c[i].type);
    (**it).columns()[1]->dataSizeDoubles(w1 / 8); it->writeHeader();
    for (const Tab* t : {&a, &b}) { if (t == &b) it->flushAndResetColumnSizes({{"s", w2 / 8}}); for (size_t r = 0; r < n; r++) { for (size_t i = 0; i < 3; i++) ::memcpy(&(*it)[i], t->c[i].v[r].data(), t->c[i].width); ++it; } } }
  expectFrames(out, {a, b}); v_cover("done");
}
