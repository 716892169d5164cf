// C08, contract of ReaderImpl::next for any number of frames of any sizes, compatible in any way, and any row limit: each call
// takes up where the one before ended, the frames of a group follow each other, all are compatible with the first and within
// the limit, and a group ends only where the next frame cannot belong to it. The list of tables (ensureTable, getTable), their
// compatibility and the vector that collects them are entered through their contracts.
//   g_known  frames read ahead    g_from, g_last  first and last frame of the group    g_sum  rows of the group
#include "hlib.h"
#include "odc/api/Odb.h"
#include "odc/core/Header.h"
#include "odc/core/TablesReader.h"
using namespace H;
using odc::core::Table; using odc::core::MetaData;
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static int64_t g_n, g_known, g_from, g_last, g_sum, g_got; static bool g_agg; static long g_limit; static int64_t* g_rows; static unsigned char* g_like; static Table* g_first; static Table* g_any;
static const int64_t kMost = (int64_t)1 << 62;  // 2^31 frames of 2^31 rows: no group holds more
static int64_t rows(int64_t k) { int64_t r = g_rows[k]; v_assume((r >= 0) & (r <= 0x7fffffff)); return r; }
static bool like(int64_t k) { return g_like[k] & 1; }
static bool ensure(odc::core::TablesReader*, long k) { v_check(k >= 0 && k <= g_known, "reads-ahead-by-one-frame"); bool more = k < g_n; if (more && k == g_known) g_known = k + 1; return more; }
static Table& get(odc::core::TablesReader*, long k) { v_check(k >= 0 && k < g_known, "frame-was-read"); g_got = k; return *g_any; }
static Table& take(std::vector<Table>*, Table& t) {
  v_check(&t == g_any, "takes-a-frame-of-the-stream"); v_check(g_got == g_last + 1, "every-frame-once-in-order");
  if (g_from < 0) { g_from = g_got; g_sum = rows(g_got); }
  else { v_check(g_agg, "aggregates-only-when-asked"); v_check(like(g_got), "compatible-with-the-first"); g_sum = g_sum + rows(g_got); v_assume(g_sum <= kMost); v_check(g_limit < 0 || g_sum <= g_limit, "within-the-row-limit"); }
  g_last = g_got; return t;
}
static Table& front(std::vector<Table>*) { v_check(g_from >= 0, "group-not-empty"); return *g_first; }
static Table& back(std::vector<Table>*) { v_check(g_from >= 0, "group-not-empty"); g_got = g_last; return *g_any; }
static size_t size(const std::vector<Table>*) { return g_from < 0 ? 0 : (size_t)(g_last - g_from + 1); }
static bool none(const std::vector<Table>*) { return g_from < 0; }
static Table& at(std::vector<Table>* v, size_t k) { v_check(k < size(v), "group-not-empty"); if (k == 0) return *g_first; v_check(k + 1 == size(v), "first-or-last"); return back(v); }
static size_t rowCount(const Table* t) { return (size_t)rows(t == g_first ? g_from : g_got); }
static const MetaData& columns(const Table* t) { return t->metadata_; }
static bool compatible(const MetaData* a, const MetaData& b) { v_check(a == &g_first->metadata_ && &b == &g_any->metadata_, "compares-with-the-first"); v_check(g_got == g_last + 1, "compares-the-next"); return like(g_got); }
static void inv(int mode) {
  claim(mode, (g_from >= 0) & (g_from <= g_last) & (g_last < g_n) & (g_last < g_known) & (g_known <= g_n) & (g_last == g_from + (int64_t)v_iter()), "group-invariant-frames");
  claim(mode, (g_sum >= 0) & (g_sum <= kMost), "group-invariant-rows");
  claim(mode, (g_limit < 0) | (g_sum <= g_limit) | (v_iter() == 0), "group-invariant-limit");
}
static void group(odc::api::Reader& rd, int64_t at) {
  g_from = -1; g_sum = 0; g_last = at - 1; bool end = at == g_n;
  bool threw = false, some = false; try { odc::api::Frame f = rd.next(); some = (bool)f; } catch (std::exception&) { threw = true; }
  if (threw) { v_check(!end && g_last == at && g_limit >= 0 && g_sum > g_limit, "refused-only-when-one-frame-exceeds-the-limit"); v_cover("refused"); v_assume(false); }
  v_check(some == !end, "a-frame-unless-at-the-end"); if (end) { v_check(g_last == at - 1, "nothing-taken-at-the-end"); v_cover("end"); return; }
  v_check(g_from == at, "goes-on-where-the-last-group-ended"); int64_t t = g_last + 1;
  if (!g_agg) v_check(g_last == at, "one-frame"); else if (t < g_n) v_check(!like(t) || (g_limit >= 0 && g_sum + rows(t) > g_limit), "ends-only-where-it-must");
  v_cover("group");
}
static void proof(bool agg) {
  g_n = v_range("frames", 0, 0x7ffffffe); g_agg = agg; g_limit = v_range("limit", -1, INT64_MAX); g_rows = (int64_t*)v_symbuf("rows", (size_t)g_n * 8 + 8); g_like = (unsigned char*)v_symbuf("like", (size_t)g_n + 8); g_known = 0; g_got = 0;
  VHandle a, b; static odc::core::ThreadSharedDataHandle ta(a), tb(b); static Table f(ta), x(tb); g_first = &f; g_any = &x;
  for (int64_t* g : {&g_known, &g_from, &g_last, &g_sum, &g_got}) v_ghost(g, 8);
  v_replace("odc::core::TablesReader::ensureTable", (void*)ensure); v_replace("odc::core::TablesReader::getTable", (void*)get);
  v_replace("odc::core::Table& std::vector<odc::core::Table, std::allocator<odc::core::Table>>::emplace_back<", (void*)take); v_replace("std::vector<odc::core::Table, std::allocator<odc::core::Table>>::push_back", (void*)take);
  v_replace("std::vector<odc::core::Table, std::allocator<odc::core::Table>>::front", (void*)front); v_replace("std::vector<odc::core::Table, std::allocator<odc::core::Table>>::back", (void*)back);
#define V "std::vector<odc::core::Table, std::allocator<odc::core::Table>>::"
  v_replace(V "size(", (void*)size); v_replace(V "empty(", (void*)none); v_replace(V "operator[](", (void*)at); v_replace(V "at(", (void*)at);
  v_replace("odc::core::Table::rowCount", (void*)rowCount); v_replace("odc::core::Table::columns", (void*)columns); v_replace("odc::core::MetaData::compatible", (void*)compatible);
  VHandle h; odc::api::Reader rd(h, agg, g_limit);
  if (agg) v_loop("odc::api::ReaderImpl::next", 0, inv, "compatible");
  group(rd, 0); if (g_from < 0) return;
  group(rd, g_last + 1); v_cover("done");
}
HARNESS(P_next_plain) { proof(false); }
HARNESS(P_next_aggregated) { proof(true); }
