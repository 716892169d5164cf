// C18, contract of the comparison's loop over rows for any number of rows on either side and any changes of columns: rows are
// compared pairwise, each once, in order, after the columns wherever either side changes them; data sets of different length
// are different; the first difference ends the comparison.
//   g_at[s]  rows side s has given    g_done  pairs compared    g_cols[s]  its columns    g_seen[s]  the columns last compared
#include "hlib.h"
#include "odc/Comparator.h"
#include "odc/core/MetaData.h"
#include "odc/core/Header.h"
using namespace H;
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static int64_t g_at[2], g_n[2], g_cols[2], g_seen[2], g_fresh[2], g_done, g_unlike; static char g_cells[2][64]; static odc::core::MetaData* g_md[2];
struct Row {
  int s;
  bool isNewDataset() { return g_fresh[s]; }
  const odc::core::MetaData& columns() const { return *g_md[s]; }
  const double* data() const { return (const double*)g_cells[s]; }
};
struct Side { Row row; bool operator!=(const Side&) const { return g_at[row.s] < g_n[row.s]; } Row* operator->() { return &row; } Side& operator++() { int s = row.s; v_check(g_at[s] < g_n[s], "steps-within-the-rows"); g_at[s] = g_at[s] + 1; g_fresh[s] = v_u64("fresh") & 1; if (g_fresh[s]) g_cols[s] = (int64_t)v_u64("columns"); return *this; } };
struct Unlike {};
static void compareColumns(odc::Comparator*, const odc::core::MetaData& a, const odc::core::MetaData& b, const std::set<std::string>&, const std::set<std::string>& ex, std::vector<int>&) {
  v_check(&a == g_md[0] && &b == g_md[1], "compares-the-columns-of-both"); v_check(ex.size() == 1, "exclusions-handed-on"); g_seen[0] = g_cols[0]; g_seen[1] = g_cols[1]; if (v_u64("differ") & 1) { g_unlike = 1; throw Unlike(); }
}
static void compareRow(odc::Comparator*, int n, const double* x, const double* y, const odc::core::MetaData& a, const odc::core::MetaData& b, const std::vector<int>&) {
  v_check(n == 2 && (const char*)x == g_cells[0] && (const char*)y == g_cells[1] && &a == g_md[0] && &b == g_md[1], "compares-row-with-row");
  v_check(g_at[0] == g_done && g_at[1] == g_done, "every-pair-once-in-order"); v_check((g_seen[0] == g_cols[0]) & (g_seen[1] == g_cols[1]), "columns-compared-first"); g_done = g_done + 1; if (v_u64("differ") & 1) { g_unlike = 1; throw Unlike(); }
}
static void inv(int mode) {
  claim(mode, (g_done >= 0) & (g_at[0] == g_done) & (g_at[1] == g_done) & (g_done <= g_n[0]) & (g_done <= g_n[1]) & (g_unlike == 0) & ((uint64_t)g_done == v_iter()), "compare-invariant-rows");
  for (int s = 0; s < 2; s++) claim(mode, (g_fresh[s] != 0) | (g_seen[s] == g_cols[s]), "compare-invariant-columns");
}
HARNESS(P_compare_rows) {
  odc::core::MetaData a, b; a.setSize(2); b.setSize(2); g_md[0] = &a; g_md[1] = &b; odc::Comparator c; Side x{{0}}, y{{1}}, xe{{0}}, ye{{1}};
  for (int s = 0; s < 2; s++) { g_n[s] = v_range("rows", 0, INT64_MAX); g_at[s] = 0; g_cols[s] = 1; g_seen[s] = 0; g_fresh[s] = v_u64("fresh") & 1; v_ghost(&g_at[s], 8); v_ghost(&g_cols[s], 8); v_ghost(&g_seen[s], 8); v_ghost(&g_fresh[s], 8); }
  g_done = g_unlike = 0; v_ghost(&g_done, 8); v_ghost(&g_unlike, 8);
  v_replace("odc::Comparator::compare(odc::core::MetaData const&", (void*)compareColumns); v_replace("odc::Comparator::compare(int, double const*, double const*, odc::core::MetaData const&, odc::core::MetaData const&, std::vector", (void*)compareRow);
  v_loop("bool odc::Comparator::compare<", 0, inv, "operator++");
  int got; try { got = c.compare(x, xe, y, ye, "1", "2", {}, {"z"}) ? 0 : 3; } catch (Unlike&) { got = 1; } catch (std::exception&) { got = 2; }
  v_check(got != 3, "no-other-answer"); v_check((got == 1) == (g_unlike != 0), "a-difference-is-reported"); if (got == 1) { v_cover("unlike"); return; }
  v_check((got == 0) == (g_n[0] == g_n[1]), "different-lengths-are-reported"); v_check(got == 2 || g_done == g_n[0], "every-row-compared"); if (got == 0) v_cover("equal"); else v_cover("longer");
}
