// C15: a query sees exactly the rows, values and missing values of its tables, and its results arrive unchanged. Public interfaces only.
#include "pipe.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/SelectIterator.h"
#include "odc/Writer.h"
#include "odc/core/MetaData.h"
#include "odc/sql/ODAOutput.h"
#include "odc/sql/SQLOutputConfig.h"
#include "odc/sql/TODATable.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLStatement.h"
#include <sstream>
#ifndef V_NATIVE
extern "C" void v_text(const char* p, size_t n);
#endif
using namespace H;
struct CHandle : VHandle { using VHandle::VHandle; eckit::DataHandle* clone() const override { return new CHandle(rd, rdlen); } };
static const double MISSING_I = 2147483647, MISSING_R = -2147483647;
static bool dbl() { return odc::ODBAPISettings::instance().integersAsDoubles(); }
static bool isMissing(const Col& c, const unsigned char* x) { return integral(c.type) ? (dbl() ? ldD(x) == MISSING_I : ldI(x) == (int64_t)MISSING_I) : c.type != STRING && ldD(x) == MISSING_R; }
static void putS(Tab& t, size_t c, const std::string& s) { std::vector<unsigned char> b(t.c[c].width); ::memcpy(b.data(), s.data(), s.size()); t.put(c, b.data()); }
// one cell of a result against the cell of the table it is of
static void cell(const Col& c, const unsigned char* x, const double* g, size_t width) {
  if (c.type == REAL || c.type == DOUBLE) v_check(sameD(*g, ldD(x)), "value");
  else if (integral(c.type)) { if (dbl()) v_check(*g == ldD(x), "value"); else v_check(ldI((const unsigned char*)g) == ldI(x), "value"); }
  else { const unsigned char* b = (const unsigned char*)g; for (size_t k = 0; k < c.width || k < width; k++) v_check((k < width ? b[k] : 0) == (k < c.width ? x[k] : 0), "string"); }
}
static void described(const odc::core::Column& col, const Col& c) {
  v_check(col.name() == c.name && col.type() == c.type, "column-description"); auto& b = col.bitfieldDef(); v_check(b.first.size() == c.bits.size(), "bitfields");
  for (size_t k = 0; k < c.bits.size() && k < b.first.size(); k++) v_check(b.first[k] == c.bits[k].name && b.second[k] == c.bits[k].size, "bitfields");
}
// the rows a Select gives are those of t
static void gives(odc::Select& s, const Tab& t) {
  auto it = s.begin(); auto end = s.end(); size_t r = 0;
  for (; it != end; ++it, ++r) {
    v_check(r < t.rows, "row-count"); if (r >= t.rows) return;
    v_check(it->columns().size() == t.c.size(), "column-count"); if (it->columns().size() != t.c.size()) return;
    size_t off = 0;
    for (size_t i = 0; i < t.c.size(); i++) {
      described(*it->columns()[i], t.c[i]); size_t w = it->dataSizeDoubles(i); v_check(it->dataOffset(i) == off, "offset");
      cell(t.c[i], t.c[i].v[r].data(), it->data() + off, w * 8); off += w;
      if (t.c[i].type != STRING) v_check(it->isMissing(i) == isMissing(t.c[i], t.c[i].v[r].data()), "missing");
    }
  }
  v_check(r == t.rows, "row-count"); v_cover("done");
}
static void result(const Tab& t, const VHandle& out) {
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); size_t from = 0;
  while (Frame f = rd.next()) {
    v_check(f.columnCount() == t.c.size(), "columns"); if (f.columnCount() != t.c.size()) return;
    for (size_t i = 0; i < t.c.size(); i++) { auto& ci = f.columnInfo()[i]; v_check(ci.name == t.c[i].name && ci.type == t.c[i].type && ci.bitfield.size() == t.c[i].bits.size(), "columns"); for (size_t k = 0; k < ci.bitfield.size() && k < t.c[i].bits.size(); k++) v_check(ci.bitfield[k].name == t.c[i].bits[k].name && ci.bitfield[k].size == t.c[i].bits[k].size, "bitfields"); }
    cmpFrame(f, t, from); from += f.rowCount();
  }
  v_check(from == t.rows, "row-count");
  CHandle c(out.own.data(), out.own.size()); odc::Reader o(c); auto it = o.begin(); auto end = o.end();
  for (size_t r = 0; it != end && r < t.rows; ++it, ++r) for (size_t i = 0; i < t.c.size(); i++) if (t.c[i].type != STRING) v_check(it->isMissing(i) == isMissing(t.c[i], t.c[i].v[r].data()), "missing-in-result");
}
// sql over the tables, by each of the ways results can be had, gives t
static void query(const std::string& sql, const std::vector<unsigned char>& in, const Tab& t) {
  int way = v_choose("way", 3);
  if (way == 0) { CHandle h(in.data(), in.size()); odc::Select s(sql + ";", h); gives(s, t); return; }
  CHandle h(in.data(), in.size()); VHandle out;
  if (way == 1) { size_t n = odc::api::filter(sql + ";", h, out); v_check(n == t.rows, "rows-counted"); }
  else {
    h.openForRead(); eckit::sql::SQLSession s(std::unique_ptr<eckit::sql::SQLOutput>(new odc::sql::ODAOutput<odc::Writer<>>(new odc::Writer<>(out))), std::unique_ptr<eckit::sql::SQLOutputConfig>(new odc::sql::SQLOutputConfig), ",");
    auto& db = s.currentDatabase(); db.addImplicitTable(new odc::sql::ODATable(db, h)); eckit::sql::SQLParser::parseString(s, sql + ";"); s.statement().execute();
  }
  result(t, out); v_cover("done");
}
static Tab pick(const Tab& t, const std::vector<size_t>& cols) { Tab r; for (size_t c : cols) r.c.push_back(t.c[c]); r.rows = t.rows; return r; }
static Tab sample(int which = -1) {  // every type, missing values among them
  Tab t; t.add("i@t", INTEGER); t.add("r@t", REAL); t.add("s@t", STRING, 16); t.add("b@t", BITFIELD).bits = {{"x", 3, 0}, {"y", 28, 3}}; t.add("d@u", DOUBLE);
  for (int r = 0; r < 2; r++) { putInt(t, 0, dbl(), which == 0 && !r ? v_range("i", INT32_MIN, INT32_MAX) : r ? (int64_t)MISSING_I : 3); float f = which == 1 && !r ? v_float("f") : 1.5f; v_assume(f - f == 0); t.putD(1, f); putS(t, 2, r ? "ab" : "longer than 8"); putInt(t, 3, dbl(), 5 + r); double d = which == 2 && !r ? v_double("d") : 2.5; v_assume(d - d == 0); t.putD(4, r ? MISSING_R : d); }
  return t;
}
static std::vector<unsigned char> bytes(const VHandle& h) { return std::vector<unsigned char>(h.own.data(), h.own.data() + h.own.size()); }
static std::vector<unsigned char> stream(const Tab& t, size_t maxRows = 10000) { VHandle o; enc(t, o, {}, maxRows); return bytes(o); }
static std::vector<unsigned char> stream(const Tab& a, const Tab& b) { VHandle o; enc(a, o); enc(b, o); return bytes(o); }

HARNESS(B_values) { asDoubles(true); int k = v_choose("which", 3); Tab t = sample(k); query(k == 0 ? "select s,i" : k == 1 ? "select r@t,s" : "select s,d@u", stream(t), k == 0 ? pick(t, {2, 0}) : k == 1 ? pick(t, {1, 2}) : pick(t, {2, 4})); }
HARNESS(B_columns) {  // any columns, in any order, by their full or short names
  asDoubles(v_choose("asDoubles", 2)); Tab t = sample(); static const std::vector<size_t> C[] = {{0}, {4, 0}, {2, 3}, {1, 2, 4}, {4, 3, 2, 1, 0}}; size_t k = v_choose("columns", 6), brief = v_choose("brief", 2); if (k == 5) { query("select *", stream(t), t); return; }
  std::string sql = "select "; for (size_t i = 0; i < C[k].size(); i++) { std::string n = t.c[C[k][i]].name; sql += (i ? "," : "") + (brief ? n.substr(0, 1) : n); } query(sql, stream(t), pick(t, C[k]));
}
HARNESS(B_titles) { asDoubles(true); Tab t = sample(); Tab w = pick(t, {4, 0}); w.c[0].name = "z"; query("select d as z,i", stream(t), w); }
HARNESS(B_rows) { asDoubles(true); Tab t; t.add("d", DOUBLE); t.add("k", INTEGER); size_t n = v_choose("rows", 4) + 1; for (size_t r = 0; r < n; r++) { t.putD(0, r == 1 ? v_double("d") : (double)r); t.putD(1, (double)r); } v_assume(n < 2 || ldD(t.c[0].v[1].data()) - ldD(t.c[0].v[1].data()) == 0); query("select d,k", stream(t, v_choose("perFrame", 2) + 1), t); }
static Tab only(const Tab& t, const std::vector<size_t>& rows) { Tab r; for (auto& c : t.c) { r.c.push_back(c); r.c.back().v.clear(); for (size_t k : rows) r.c.back().v.push_back(c.v[k]); } r.rows = rows.size(); return r; }
HARNESS(B_where) {  // exactly the rows for which the condition holds, in their order
  asDoubles(true); static const char* O[] = {"=", "<>", "<", "<=", ">", ">="}; int o = v_choose("op", 6); Tab t; t.add("d", DOUBLE); t.add("k", INTEGER); std::vector<size_t> yes;
  for (size_t r = 0; r < 3; r++) { double d = r == 1 ? MISSING_R : r == 2 ? 2 : v_double("d"); v_assume(d - d == 0); t.putD(0, d); t.putD(1, (double)r); bool m = d == MISSING_R; if (!m && (o == 0 ? d == 2 : o == 1 ? d != 2 : o == 2 ? d < 2 : o == 3 ? d <= 2 : o == 4 ? d > 2 : d >= 2)) yes.push_back(r); }
  query(std::string("select k,d where d ") + O[o] + " 2", stream(t, o & 1 ? 2 : 10), pick(only(t, yes), {1, 0}));
}
HARNESS(B_where_null) {
  asDoubles(true); bool is = v_choose("is", 2); Tab t; t.add("i", INTEGER); t.add("k", INTEGER); std::vector<size_t> yes; int n = v_choose("nulls", 8);
  for (size_t r = 0; r < 3; r++) { bool m = n >> r & 1; t.putD(0, m ? MISSING_I : 4); t.putD(1, (double)r); if (m == is) yes.push_back(r); }
  query(std::string("select k,i where i is ") + (is ? "null" : "not null"), stream(t, v_choose("perFrame", 2) + 1), pick(only(t, yes), {1, 0}));
}
HARNESS(B_where_other) {  // conditions on columns that are not selected
  asDoubles(true); Tab t = sample(); int k = v_choose("k", 4); static const char* W[] = {"i is null", "d > 2", "b = 6", "b < 6 and r > 1"}; query(std::string("select s,r where ") + W[k], stream(t), pick(only(t, {k == 0 || k == 2 ? 1ul : 0ul}), {2, 1}));
}
// frames that differ: the order of the columns, columns that come and go, missing values, widths of strings
HARNESS(B_frames) {
  asDoubles(v_choose("asDoubles", 2)); Tab a, b, w; int kind = v_choose("second", 5); double d = kind == 1 || kind == 2 ? v_double("d") : 0.25; v_assume(d - d == 0); int64_t i = kind == 0 || kind == 3 ? v_range("i", INT32_MIN, INT32_MAX) : 12;
  a.add("i", INTEGER); a.add("s", STRING, 8); a.add("d", DOUBLE); for (int r = 0; r < 2; r++) { putInt(a, 0, dbl(), 10 + r); putS(a, 1, r ? "four" : "eight888"); a.putD(2, 0.5); }
  std::vector<size_t> order = kind == 0 ? std::vector<size_t>{0, 1, 2} : kind == 1 ? std::vector<size_t>{2, 1, 0} : kind == 2 ? std::vector<size_t>{1, 2, 0} : std::vector<size_t>{1, 0, 2};
  if (kind == 2) b.add("new", REAL);
  size_t base = b.c.size(), sw = kind == 3 ? 24 : 8; for (size_t c : order) { if (c == 0) b.add("i", INTEGER); else if (c == 1) b.add("s", STRING, sw); else b.add("d", DOUBLE); }
  for (int r = 0; r < 2; r++) { if (base) b.putD(0, 9.5); for (size_t k = 0; k < 3; k++) { if (order[k] == 0) putInt(b, base + k, dbl(), r ? i : (int64_t)MISSING_I); else if (order[k] == 1) putS(b, base + k, kind == 3 ? "seventeen and more" : r ? "x" : ""); else b.putD(base + k, r && kind < 4 ? d : MISSING_R); } }
  w.add("s", STRING, kind == 3 ? 24 : 8); w.add("d", DOUBLE); w.add("i", INTEGER);
  for (int r = 0; r < 4; r++) { const Tab& t = r < 2 ? a : b; auto at = [&](size_t c) -> const unsigned char* { for (auto& x : t.c) if (x.name == (c == 0 ? "i" : c == 1 ? "s" : "d")) return x.v[r % 2].data(); return nullptr; }; std::vector<unsigned char> s(w.c[0].width); ::memcpy(s.data(), at(1), r < 2 ? 8 : sw); w.put(0, s.data()); w.put(1, at(2)); w.put(2, at(0)); }
  query("select s,d,i", stream(a, b), w);
}
HARNESS(B_third_frame) {  // and back again
  asDoubles(true); Tab a, b, w; a.add("x", DOUBLE); a.add("s", STRING, 16); b.add("s", STRING, 8); b.add("n", INTEGER); b.add("x", DOUBLE); w.add("x", DOUBLE); w.add("s", STRING, 16);
  double d = v_double("d"); v_assume(d - d == 0); a.putD(0, 1); putS(a, 1, "more than eight"); a.putD(0, 2); putS(a, 1, "y"); putS(b, 0, "short"); b.putD(1, 7); b.putD(2, d); VHandle o; enc(a, o); enc(b, o); enc(a, o);
  for (int r = 0; r < 5; r++) { w.putD(0, r == 2 ? d : r == 0 || r == 3 ? 1 : 2); putS(w, 1, r == 2 ? "short" : r == 0 || r == 3 ? "more than eight" : "y"); } query("select x,s", bytes(o), w);
}
HARNESS(B_column_gone) {  // a frame without a column that is asked for: no rows are made up
  asDoubles(true); Tab a, b; a.add("x", DOUBLE); a.add("y", DOUBLE); b.add("x", DOUBLE); a.putD(0, 1); a.putD(1, 2); b.putD(0, 3); auto in = stream(a, b); bool threw = false; size_t n = 0; CHandle h(in.data(), in.size());
  try { odc::Select s("select x,y;", h); auto it = s.begin(), end = s.end(); for (; it != end; ++it) { n++; v_check(n == 1 && (*it)[0] == 1 && (*it)[1] == 2, "rows-before"); } } catch (std::exception&) { threw = true; } v_check(threw, "refused"); v_cover("done");
}
HARNESS(B_names_refused) {  // unknown, ambiguous
  asDoubles(true); static const char* Q[] = {"select q;", "select x;", "select k where x = 1;", "select k where q is null;"}; int q = v_choose("q", 4); Tab t; t.add("x@a", DOUBLE); t.add("x@b", DOUBLE); t.add("k", DOUBLE); t.putD(0, 1); t.putD(1, 2); t.putD(2, 3); auto in = stream(t); CHandle h(in.data(), in.size()); bool threw = false;
  try { odc::Select s(Q[q], h); s.begin(); } catch (std::exception&) { threw = true; } v_check(threw, "refused"); v_cover("done");
}
HARNESS(B_row_buffer) {  // rows put where the caller says, nowhere else
  asDoubles(true); Tab t = sample(); auto in = stream(t); CHandle h(in.data(), in.size()); h.openForRead(); odc::Select s("select d,s,i;", false); auto& db = s.database(); db.addImplicitTable(new odc::sql::ODATable(db, h)); std::unique_ptr<odc::SelectIterator> it(s.createSelectIterator("select d,s,i;")); v_check(it->rowDataSizeDoubles() == 4, "row-size");
  std::vector<double> out(4 * 2 + 2, 77.25); for (size_t r = 0; r < 2; r++) { it->setOutputRowBuffer(&out[1 + 4 * r], v_choose("sized", 2) ? 4 : 0); v_check(it->next(), "rows"); } v_check(!it->next(), "rows");
  v_check(out[0] == 77.25 && out[9] == 77.25, "beyond-the-row"); for (size_t r = 0; r < 2; r++) { cell(t.c[4], t.c[4].v[r].data(), &out[1 + 4 * r], 8); cell(t.c[2], t.c[2].v[r].data(), &out[2 + 4 * r], 16); cell(t.c[0], t.c[0].v[r].data(), &out[4 + 4 * r], 8); } v_cover("done");
}
HARNESS(B_row_buffer_small) { asDoubles(true); Tab t = sample(); auto in = stream(t); CHandle h(in.data(), in.size()); h.openForRead(); odc::Select s("select d,s,i;", false); auto& db = s.database(); db.addImplicitTable(new odc::sql::ODATable(db, h)); std::unique_ptr<odc::SelectIterator> it(s.createSelectIterator("select d,s,i;")); std::vector<double> out(3); bool threw = false; try { it->setOutputRowBuffer(out.data(), 3); it->next(); } catch (std::exception&) { threw = true; } v_check(threw, "refused"); v_cover("done"); }
// every combination of the rows of two tables, either gone through again and again
HARNESS(B_two_tables) {
  asDoubles(true); Tab a, b, c; a.add("x", DOUBLE); a.add("p", DOUBLE); b.add("y", DOUBLE); b.add("s", STRING, 8); b.add("q", DOUBLE); c.add("q", DOUBLE); c.add("y", DOUBLE); c.add("s", STRING, 16); double d = v_double("d"), e = v_double("e"); v_assume(d - d == 0 && e - e == 0 && e != MISSING_R && d != MISSING_R);
  size_t na = v_choose("rows", 2) + 1, nb = v_choose("frames", 2) + 1; for (size_t r = 0; r < na; r++) { a.putD(0, (double)r); a.putD(1, r ? d : 4.5); } b.putD(0, 0); putS(b, 1, "b0"); b.putD(2, e); c.putD(0, 5.5); c.putD(1, 1); putS(c, 2, "a longer text"); VHandle oa, ob; enc(a, oa); enc(b, ob); if (nb == 2) enc(c, ob);
  CHandle ha(oa.own.data(), oa.own.size()), hb(ob.own.data(), ob.own.size()); ha.openForRead(); hb.openForRead(); odc::Select s("select x,p,y,q,s;"); auto& db = s.database(); bool swap = v_choose("swap", 2); auto A = new odc::sql::ODATable(db, swap ? hb : ha); db.addImplicitTable(A); auto B = new odc::sql::ODATable(db, swap ? ha : hb); db.addImplicitTable(B);
  bool seen[2][2] = {}; size_t n = 0; auto it = s.begin(); auto end = s.end();
  for (; it != end && n < 9; ++it, ++n) { double x = (*it)[0], y = (*it)[2]; bool ok = (x == 0 || (x == 1 && na == 2)) && (y == 0 || (y == 1 && nb == 2)); v_check(ok, "row-of-both"); if (!ok) return; v_check(!seen[(int)x][(int)y], "once"); seen[(int)x][(int)y] = true; v_check(sameD((*it)[1], x == 0 ? 4.5 : d) && sameD((*it)[3], y == 0 ? e : 5.5), "values"); v_check(::strncmp((const char*)&(*it)[4], y == 0 ? "b0" : "a longer text", it->dataSizeDoubles(4) * 8) == 0, "string"); }
  v_check(n == na * nb, "combinations"); v_cover("done");
}
HARNESS(B_again) {  // a second statement on the same table
  asDoubles(true); Tab t = sample(); auto in = stream(t, v_choose("perFrame", 2) + 1); CHandle h(in.data(), in.size()); h.openForRead(); odc::Select s("select i,d;"); auto& db = s.database(); db.addImplicitTable(new odc::sql::ODATable(db, h)); size_t early = v_choose("rows", 3);
  { std::unique_ptr<odc::SelectIterator> a(s.createSelectIterator("select d;")); for (size_t r = 0; r < early + 1; r++) v_check(a->next() == (r < 2), "first"); } gives(s, pick(t, {0, 4}));
}
HARNESS(B_no_rows) {  // a table with columns and no rows
  asDoubles(true); Tab t; t.add("x", DOUBLE); t.add("s", STRING, 8); t.rows = 0; auto in = stream(t); query("select s,x", in, pick(t, {1, 0}));
}
HARNESS(B_text) {  // delimited texts as tables: once
  asDoubles(true); std::string text = "i:INTEGER,s:STRING,d:DOUBLE\n1,abc,0.5\nNULL,a longer text,1.5\n3,NULL,NULL\n"; Tab t; t.add("d", DOUBLE); t.add("s", STRING, 16); t.add("i", INTEGER); t.putD(0, 0.5); putS(t, 1, "abc"); t.putD(2, 1); t.putD(0, 1.5); putS(t, 1, "a longer text"); t.putD(2, MISSING_I); t.putD(0, MISSING_R); putS(t, 1, ""); t.putD(2, 3);
#ifdef V_NATIVE
  std::istringstream is(text);
#else
  std::istringstream is; v_text(text.data(), text.size());
#endif
  odc::Select s("select d,s,i;"); auto& db = s.database(); db.addImplicitTable(new odc::sql::ODBCSVTable(db, is, "csv", ",")); gives(s, t);
  bool threw = false; try { std::unique_ptr<odc::SelectIterator> a(s.createSelectIterator("select d;")); a->next(); } catch (std::exception&) { threw = true; } v_check(threw, "not-silently-empty");
}

HARNESS(B_filter_frame) {  // a frame, or several taken as one, filtered in place; the frame stays as it was
  asDoubles(true); Tab a, b, w, all; double d = v_double("d"); v_assume(d - d == 0 && d != MISSING_R);
  a.add("i", INTEGER); a.add("s", STRING, 8); b.add("i", INTEGER); b.add("s", STRING, 8); w.add("s", STRING, 8); w.add("j", DOUBLE); all.add("s", STRING, 8); all.add("i", INTEGER);
  a.add("d", DOUBLE); b.add("d", DOUBLE); all.add("d", DOUBLE);
  for (int r = 0; r < 4; r++) { Tab& t = r < 2 ? a : b; double i = r == 2 ? (double)MISSING_I : 5 + r, e = r == 1 ? d : r; const char* x = r < 2 ? "short" : "eight888"; t.putD(0, i); putS(t, 1, x); t.putD(2, e); putS(all, 0, x); all.putD(1, i); all.putD(2, e); if (i > 5 && r != 2) { putS(w, 0, x); w.putD(1, e); } }
  VHandle o; enc(a, o); bool two = v_choose("frames", 2); if (two) enc(b, o); VHandle in(o.own.data(), o.own.size()); Reader rd(in, true); Frame f = rd.next(); v_check(f.rowCount() == (two ? 4 : 2), "aggregated"); if (f.rowCount() != (two ? 4 : 2)) return;
  for (int k = 0; k < 2; k++) { Frame g = f.filter("select s,d as j where i > 5;"); v_check(g.rowCount() == (two ? 2 : 1) && g.columnCount() == 2, "rows"); cmpFrame(g, w, 0); cmpFrame(f, all, 0); }
  v_check(!f.filter("select s where i > 100;"), "no-rows"); v_cover("done");
}
HARNESS(B_filter_large_frame) {  // of more rows than one frame of the result is written with
  asDoubles(true); Tab t; t.add("x", DOUBLE); t.add("s", STRING, 16); size_t n = 10001; for (size_t r = 0; r < n; r++) { t.putD(0, r / 5000 * 0.5); putS(t, 1, r < 10000 ? "short" : "a longer text"); } VHandle o; enc(t, o, {}, 20000); VHandle in(o.own.data(), o.own.size()); Reader rd(in, false); Frame f = rd.next(); v_check(f.rowCount() == n, "rows");
  Frame g = f.filter("select x,s;"); v_check(g.rowCount() == n, "rows"); std::vector<double> v(n); std::vector<char> w(n * 16); std::vector<std::string> cs{"x", "s"}; std::vector<StridedData> sd; sd.emplace_back(v.data(), n, 8, 8); sd.emplace_back(w.data(), n, 16, 16); odc::api::Decoder(cs, sd).decode(g);
  v_check(v[0] == 0 && v[9999] == 0.5 && v[10000] == 1 && !::strncmp(&w[9999 * 16], "short", 16) && !::strncmp(&w[160000], "a longer text", 16), "values"); v_cover("done");
}
