// C14: column names resolve to the intended column or to an error. Public interface only.
#include "pipe.h"
using namespace H;
static const char* NAMES[] = {"a", "a@x", "a@y", "b@x", "ab", "ab@x", "b", "A@x", "long_name_beyond_the_small_string@body"};
static const char* ASK[] = {"a", "a@x", "a@y", "b", "b@x", "ab", "ab@x", "a@", "@x", "A", "long_name_beyond_the_small_string", "long_name", "a@xx", "x"};
static long resolve(const std::vector<std::string>& cols, const std::string& ask, bool& some) {
  long hit = -1; int n = 0; some = false;
  for (size_t i = 0; i < cols.size(); i++) if (cols[i] == ask) { some = true; return (long)i; }
  for (size_t i = 0; i < cols.size(); i++) if (cols[i].substr(0, cols[i].find('@')) == ask) { n++; hit = (long)i; }
  some = n > 0;
  return n == 1 ? hit : -1;
}
static void lookup(int n, bool constant) {
  asDoubles(false);
  Tab t; std::vector<std::string> cols;
  for (int i = 0; i < n; i++) { std::string s = NAMES[v_choose("col", 9)]; for (auto& c : cols) if (c == s) { v_cover("done"); return; } cols.push_back(s); t.add(s, INTEGER); }
  for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) t.putI(i, 1000 * (i + 1) + (constant ? 0 : r));
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  std::string ask = ASK[v_choose("ask", 14)];
  bool some; long want = resolve(cols, ask, some);
  int64_t v[2] = {-5, -5}; std::vector<StridedData> sd; sd.emplace_back(v, 2, 8, 8);
  bool thrown = false;
  try { Decoder d({ask}, sd); d.decode(f); } catch (std::exception&) { thrown = true; }
  if (want < 0) { v_check(thrown, "unknown-or-ambiguous-is-an-error"); v_check(v[0] == -5 && v[1] == -5, "nothing-decoded"); }
  else { v_check(!thrown, "found"); v_check(v[0] == ldI(t.c[want].v[0].data()) && v[1] == ldI(t.c[want].v[1].data()), "the-intended-column"); }
  v_check(f.hasColumn(ask) == some, "presence");
  thrown = false; long got = -1; size_t gn = 0;
  try { odc::api::Span s = f.span({ask}, false); auto& g = s.getIntegerValues(ask); gn = g.size(); got = *g.begin(); } catch (std::exception&) { thrown = true; }
  if (want < 0) v_check(thrown, "span-unknown-or-ambiguous-is-an-error");
  else v_check(!thrown && got == 1000 * (want + 1) && gn == (constant ? 1u : 2u), "span-of-the-intended-column");
  v_cover("done");
}
HARNESS(B_two) { lookup(2, v_choose("constant", 2)); }
HARNESS(B_three) { lookup(3, false); }
HARNESS(B_three_const_T) { lookup(3, true); }
// several names at once, in any order
HARNESS(B_several) {
  asDoubles(false); Tab t; const char* C[] = {"a@x", "b@x", "ab@y", "c"}; const char* S[] = {"a", "b", "ab", "c"};
  for (int i = 0; i < 4; i++) { t.add(C[i], INTEGER); t.putI(i, 10 * i + 1); t.putI(i, 10 * i + 2); }
  VHandle out; enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next();
  size_t p[4] = {0, 1, 2, 3}; for (size_t i = 0; i < 3; i++) std::swap(p[i], p[i + v_choose("perm", 4 - i)]);
  size_t n = 1 + v_choose("n", 4), full = v_choose("full", 4);
  int64_t v[4][2]; std::vector<StridedData> sd; std::vector<std::string> nm;
  for (size_t i = 0; i < n; i++) { sd.emplace_back(v[i], 2, 8, 8); nm.push_back((full >> (i % 2)) & 1 ? C[p[i]] : S[p[i]]); }
  Decoder d(nm, sd); d.decode(f);
  for (size_t i = 0; i < n; i++) v_check(v[i][0] == (int64_t)(10 * p[i] + 1) && v[i][1] == (int64_t)(10 * p[i] + 2), "the-intended-column");
  v_cover("done");
}
// parts of an aggregated frame list their columns in different orders
HARNESS(B_reordered_parts) {
  asDoubles(false); Tab t, u; t.add("a@x", INTEGER); t.add("b@x", INTEGER); u.add("b@x", INTEGER); u.add("a@x", INTEGER);
  t.putI(0, 1); t.putI(1, 2); u.putI(0, 20); u.putI(1, 10);
  VHandle out; enc(t, out); enc(u, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, true); Frame f = rd.next();
  v_check(f.rowCount() == 2, "aggregated"); int64_t v[2]; std::vector<StridedData> sd; sd.emplace_back(v, 2, 8, 8); bool b = v_choose("b", 2), full = v_choose("full", 2);
  Decoder d({std::string(b ? "b" : "a") + (full ? "@x" : "")}, sd); d.decode(f);
  v_check(v[0] == (b ? 2 : 1) && v[1] == (b ? 20 : 10), "the-intended-column"); v_cover("done");
}
// a frame with two columns of one name cannot be decoded
HARNESS(B_duplicate) {
  asDoubles(false); Tab t; t.add("a", INTEGER); t.add("b", INTEGER); t.add("a", INTEGER); for (int i = 0; i < 3; i++) t.putI(i, i);
  VHandle out; bool thrown = false;
  try { enc(t, out); VHandle in(out.own.data(), out.own.size()); Reader rd(in, false); Frame f = rd.next(); int64_t v[1]; std::vector<StridedData> sd; sd.emplace_back(v, 1, 8, 8); Decoder d({"a"}, sd); try { d.decode(f); } catch (std::exception&) { thrown = true; }
    v_check(thrown, "duplicate-is-an-error"); thrown = false; d.decode(f); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "duplicate-stays-an-error"); v_cover("done");
}
