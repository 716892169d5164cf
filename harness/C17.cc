// C17: splitting partitions the rows over the files their values name. Public interfaces only.
#include "pipe.h"
#include "eckit/filesystem/PathName.h"
#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
using namespace H;
struct CHandle : VHandle { using VHandle::VHandle; eckit::DataHandle* clone() const override { return new CHandle(rd, rdlen); } };
using Names = std::vector<std::string>;
static bool same(const Col& c, size_t r, const double* p, size_t w) {  // the cell of row r is p
  const unsigned char *x = c.v[r].data(), *y = (const unsigned char*)p;
  if (c.type != STRING) { if (integral(c.type) && !odc::ODBAPISettings::instance().integersAsDoubles()) return ldI(x) == ldI(y); return ::memcmp(x, y, 8) == 0 || ldD(x) == ldD(y); }
  for (size_t k = 0; k < c.width || k < w * 8; k++) if ((k < c.width ? x[k] : 0) != (k < w * 8 ? y[k] : 0)) return false;
  return true;
}
// the file holds exactly the rows of the tables that name it, in their order
static void holds(const std::string& file, const std::vector<const Tab*>& ts, const std::vector<Names>& ns) {
  odc::Reader rd{eckit::PathName(file)}; auto it = rd.begin(); auto end = rd.end(); size_t left = 0;
  for (size_t i = 0; i < ts.size(); i++) for (size_t r = 0; r < ts[i]->rows; r++) if (ns[i][r] == file) {
    bool more = it != end; v_check(more, "every-row-is-written"); if (!more) return;
    auto& md = it->columns(); v_check(md.size() == ts[i]->c.size(), "columns"); if (md.size() != ts[i]->c.size()) return;
    for (size_t c = 0; c < md.size(); c++) { v_check(md[c]->name() == ts[i]->c[c].name && md[c]->type() == ts[i]->c[c].type, "columns"); v_check(same(ts[i]->c[c], r, it->data() + it->dataOffset(c), md[c]->dataSizeDoubles()), "rows-in-order"); }
    ++it;
  }
  while (it != end) { left++; ++it; } v_check(left == 0, "no-other-rows");
}
static void outputs(const std::vector<eckit::PathName>& files, const std::vector<const Tab*>& ts, const std::vector<Names>& ns) {
  std::map<std::string, int> all; for (auto& n : ns) for (auto& f : n) all[f]++;
  v_check(files.size() == all.size(), "files-written"); for (auto& f : files) v_check(all.count(f.asString()) == 1, "files-written");
  for (auto& f : all) holds(f.first, ts, ns);
}
static void encAll(const std::vector<const Tab*>& ts, VHandle& e, size_t cut = 10000) { for (auto t : ts) { VHandle x; enc(*t, x, {}, cut); e.own.insert(e.own.end(), x.own.begin(), x.own.end()); } }
static void split(const std::string& tmpl, size_t max, const std::vector<const Tab*>& ts, const std::vector<Names>& ns, bool append = false, size_t cut = 10000) {
  VHandle e; encAll(ts, e, cut); CHandle in(e.own.data(), e.own.size()); odc::Reader rd(in); odc::DispatchingWriter w(tmpl, max, append);
  auto out = w.begin(); size_t n = 0; for (auto t : ts) n += t->rows; v_check(out->pass1(rd.begin(), rd.end()) == n, "rows-counted"); out->close();
  outputs((**out).outputFiles(), ts, ns);
}
static void put(Tab& t, size_t c, const char* s) { unsigned char b[64] = {0}; ::memcpy(b, s, ::strlen(s)); t.put(c, b); }
HARNESS(B_histories) {  // every history of four rows over three values, however few files may be open
  asDoubles(true); Tab t; t.add("s", STRING, 16); t.add("k@t", INTEGER); t.add("d", DOUBLE); Names n; size_t max = 1 + v_choose("max", 3);
  for (int r = 0; r < 4; r++) { int k = r ? (int)v_choose("k", 3) : 1; put(t, 0, r % 2 ? "a text of some" : "x"); t.putD(1, k - 1); t.putD(2, r); n.push_back("o." + std::to_string(k - 1) + ".odb"); }
  split("o.{k}.odb", max, {&t}, {n}, false, 1 + 2 * v_choose("cut", 2)); v_cover("done");
}
HARNESS(B_long_history) {  // values come back after their writer was closed, the least recently used
  asDoubles(false); static const char H[4][9] = {"01020103", "01230123", "00112200", "01201320"}; const char* h = H[v_choose("history", 4)]; Tab t; t.add("k", INTEGER); t.add("d", DOUBLE); Names n;
  for (int r = 0; r < 8; r++) { t.putI(0, h[r] - '0'); t.putD(1, r); n.push_back(std::string("o") + h[r]); }
  split("o{k}", 1 + v_choose("max", 4), {&t}, {n}, v_choose("append", 2)); v_cover("done");
}
HARNESS(B_strings) {  // the whole text names the file
  asDoubles(true); static const char* K[8] = {"ab/cd", "ab/xy", "abcdefghi", "abcdefghj", "abcdefgh", "a", " a ", "/b/"}; static const char* N[8] = {"ab__SLASH__cd", "ab__SLASH__xy", "abcdefghi", "abcdefghj", "abcdefgh", "a", "a", "__SLASH__b__SLASH__"};
  Tab t; t.add("z", STRING, 24); t.add("s", STRING, 16); t.add("d", DOUBLE); Names n; size_t max = 1 + v_choose("max", 2);
  size_t first = 0; for (int r = 0; r < 3; r++) { size_t k = r == 2 ? first : v_choose("k", 8); if (!r) first = k; put(t, 0, r ? "y" : "a text of twenty letters"); put(t, 1, K[k]); t.putD(2, r); n.push_back(std::string("f_") + N[k]); }
  split("f_{s}", max, {&t}, {n}); v_cover("done");
}
HARNESS(B_numbers) {  // values that are named alike share a file
  asDoubles(true); static const double K[8] = {1.2, 1.7, 0.0, -0.0, -1, 2147483647, -0.5, 3e5}; static const char* N[8] = {"1", "1", "0", "0", "-1", "2147483647", "0", "300000"};
  Tab t; t.add("x", v_choose("real", 2) ? REAL : DOUBLE); t.add("d", DOUBLE); Names n; size_t max = 1 + v_choose("max", 2);
  size_t first = 0; for (int r = 0; r < 3; r++) { size_t k = r == 2 ? first : v_choose("k", 8); if (!r) first = k; t.putD(0, t.c[0].type == REAL ? (float)K[k] : K[k]); if (t.c[0].type == REAL) v_assume(k != 5); t.putD(1, r); n.push_back(std::string("f") + N[k]); }
  split("f{x}", max, {&t}, {n}); v_cover("done");
}
HARNESS(B_two_columns) {  // two values name the file, around one that does not
  bool d = v_choose("asDoubles", 2); asDoubles(d); Tab t; t.add("i@t", INTEGER); t.add("z", STRING, 16); Col& c = t.add("b", BITFIELD); c.bits = {{"x", 1, 0}, {"y", 2, 1}}; t.add("s@t", STRING, 8); Names n;
  size_t first = 0; for (int r = 0; r < 3; r++) { size_t q = r == 2 ? first : v_choose("i", 8), i = q % 2, s = q / 2 % 2, b = q / 4; if (!r) first = q; putInt(t, 0, d, i * 100000); put(t, 1, r ? "hello" : "a longer text"); putInt(t, 2, d, b); put(t, 3, s ? "AB" : "B"); n.push_back(std::string("x") + (b ? "1" : "0") + (s ? "AB" : "B") + "." + (i ? "100000" : "0")); }
  split("x{b}{s@t}.{i}", 1 + 9 * v_choose("max", 2), {&t}, {n}); v_cover("done");
}
HARNESS(B_files_from_before) {  // files that were there are replaced, also by those written after a reopened one; appending keeps them
  asDoubles(false); Tab old; old.add("k", INTEGER); old.add("d", DOUBLE); for (int r = 0; r < 2; r++) { old.putI(0, 7); old.putD(1, 50 + r); }
  size_t k = v_choose("old", 3); bool append = v_choose("append", 2); std::string f = "o" + std::to_string(k); { VHandle e; enc(old, e); std::unique_ptr<eckit::DataHandle> h(eckit::PathName(f).fileHandle()); h->openForWrite(0); h->write(e.own.data(), e.own.size()); h->close(); }
  Tab t; t.add("k", INTEGER); t.add("d", DOUBLE); Names n; static const char* H[3] = {"01012", "20121", "01234"}; const char* hs = H[v_choose("history", 3)];
  for (int r = 0; r < 5; r++) { t.putI(0, hs[r] - '0'); t.putD(1, r); n.push_back(std::string("o") + hs[r]); }
  VHandle e; enc(t, e); CHandle in(e.own.data(), e.own.size()); odc::Reader rd(in); { odc::DispatchingWriter w("o{k}", 1 + v_choose("max", 2), append); auto out = w.begin(); out->pass1(rd.begin(), rd.end()); out->close(); }
  Names on(2, f), none(2, ""); for (int x = 0; x < 5; x++) { std::string g = "o" + std::to_string(x); bool any = x == (int)k && append; for (auto& m : n) any |= m == g; if (any) holds(g, {&old, &t}, {append ? on : none, n}); } v_cover("done");
}
HARNESS(B_changing_columns) {  // frames with other columns, in one input or in the next
  asDoubles(false); Tab t, u; Names n, m; bool two = v_choose("two", 2); size_t how = v_choose("how", 4), max = 1 + v_choose("max", 3);
  t.add("k", INTEGER); t.add("s", STRING, 8); t.add("d", DOUBLE); for (int r = 0; r < 3; r++) { t.putI(0, r % 2); put(t, 1, "abc"); t.putD(2, r); n.push_back("o" + std::to_string(r % 2)); }
  if (how == 0) { u.add("s", STRING, 16); u.add("k", INTEGER); u.add("d", DOUBLE); } else if (how == 1) { u.add("k", INTEGER); u.add("s", STRING, 16); u.add("d", DOUBLE); } else if (how == 2) { u.add("d", DOUBLE); u.add("k", INTEGER); } else { u.add("k", INTEGER); u.add("s", STRING, 8); u.add("d", DOUBLE); u.add("e", REAL); }
  for (int r = 0; r < 3; r++) { for (size_t c = 0; c < u.c.size(); c++) { if (u.c[c].name == "k") u.putI(c, r); else if (u.c[c].name == "s") put(u, c, u.c[c].width == 8 ? "tu" : "more than eight"); else u.putD(c, 10 + r); } m.push_back("o" + std::to_string(r)); }
  if (!two) split("o{k}", max, {&t, &u}, {n, m});
  else { VHandle e, f; enc(t, e); enc(u, f); CHandle i(e.own.data(), e.own.size()), j(f.own.data(), f.own.size()); odc::Reader a(i), b(j); odc::DispatchingWriter w("o{k}", max); auto out = w.begin(); out->pass1(a.begin(), a.end()); out->pass1(b.begin(), b.end()); out->close(); outputs((**out).outputFiles(), {&t, &u}, {n, m}); }
  v_cover("done");
}
HARNESS(B_row_by_row) {  // rows put cell by cell, a string growing on the way
  asDoubles(true); Tab t, u; Names n, m; size_t grow = v_choose("grow", 2); t.add("s", STRING, 8); t.add("k", INTEGER); t.add("d", DOUBLE); u = t; u.c[0].width = 16; odc::DispatchingWriter w("o{k}", 1 + v_choose("max", 2)); auto out = w.begin();
  out->setNumberOfColumns(3); out->setColumn(0, "s", STRING); out->setColumn(1, "k", INTEGER); out->setColumn(2, "d", DOUBLE); out->writeHeader();
  for (int r = 0; r < 3; r++) { size_t k = v_choose("k", 2); put(t, 0, "abc"); t.putD(1, k); t.putD(2, r); ::memcpy(&out->data(0), t.c[0].v[r].data(), 8); out->data(1) = k; out->data(2) = r; ++out; n.push_back("o" + std::to_string(k)); }
  if (grow) { out->flushAndResetColumnSizes({{"s", 2}}); for (int r = 0; r < 2; r++) { size_t k = v_choose("k", 2); put(u, 0, "nine or more"); u.putD(1, k); u.putD(2, 5 + r); ::memcpy(&out->data(0), u.c[0].v[r].data(), 16); out->data(1) = k; out->data(2) = 5 + r; ++out; m.push_back("o" + std::to_string(k)); } }
  out->close(); outputs((**out).outputFiles(), {&t, &u}, {n, m}); v_cover("done");
}
HARNESS(B_verified) {  // the verification leaves the files as they are
  asDoubles(false); Tab t; t.add("k", INTEGER); t.add("d", DOUBLE); Names n; for (int r = 0; r < 4; r++) { size_t k = v_choose("k", 2); t.putI(0, k); t.putD(1, r); n.push_back("o" + std::to_string(k)); }
  VHandle e; enc(t, e); CHandle i(e.own.data(), e.own.size()), j(e.own.data(), e.own.size()); odc::Reader a(i), b(j); { odc::DispatchingWriter w("o{k}", 1 + v_choose("max", 2)); auto out = w.begin(); out->pass1(a.begin(), a.end()); out->close(); auto x = b.begin(); auto y = b.end(); (**out).verify(x, y); v_check(!(x != y), "all-rows-verified"); outputs((**out).outputFiles(), {&t}, {n}); }
  for (auto& f : n) holds(f, {&t}, {n}); v_cover("done");
}
HARNESS(B_template) {  // a template without columns, with unknown ones or without its end is refused
  static const char* T[5] = {"o", "o{k", "o{x}", "o{}", "o{k}{x}"}; Tab t; t.add("k", INTEGER); asDoubles(false); t.putI(0, 1); VHandle e; enc(t, e); CHandle in(e.own.data(), e.own.size()); odc::Reader rd(in); bool thrown = false;
  try { odc::DispatchingWriter w(T[v_choose("template", 5)], 2); auto out = w.begin(); out->pass1(rd.begin(), rd.end()); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "refused"); v_cover("done");
}
