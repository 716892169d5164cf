// C17, contract of the dispatching writer's loop (pass1) for any number of rows and any changes of columns: every row of the
// source is handed to writeRow, once, in order, with the columns it comes with.
//   g_at  rows the source has given    g_put  rows handed on    g_src, g_dst  the columns of the source and of the writer
#include "hlib.h"
#include "odc/DispatchingWriter.h"
using namespace H;
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static int64_t g_at, g_put, g_rows, g_src, g_dst, g_fresh; static char g_cells[64]; static odc::core::MetaData* g_md;
struct Row {
  bool isNewDataset() { return g_fresh; }
  const odc::core::MetaData& columns() const { return *g_md; }
  const double* data() const { return (const double*)g_cells; }
};
struct Src { Row row; bool operator!=(const Src&) const { return g_at < g_rows; } Row* operator->() { return &row; } Src& operator++() { v_check(g_at < g_rows, "steps-within-the-rows"); g_at = g_at + 1; g_fresh = v_u64("fresh") & 1; if (g_fresh) g_src = (int64_t)v_u64("columns"); return *this; } };
typedef odc::WriterDispatchingIterator<odc::WriterBufferingIterator, odc::DispatchingWriter> W;
static bool alike(const odc::core::MetaData*, const odc::core::MetaData&) { return g_src == g_dst; }
static void change(W* w, const odc::core::MetaData& md) { v_check(&md == g_md, "columns-of-the-source"); if (w->columns_.size() != 2) w->columns_.setSize(2); g_dst = g_src; }
static int put(W*, const double* d, unsigned long n) { v_check((const char*)d == g_cells && n == 2, "hands-on-the-row"); v_check(g_src == g_dst, "row-dispatched-with-its-columns"); v_check(g_put == g_at, "every-row-once-in-order"); g_put = g_put + 1; return 0; }
static void inv(int mode) { claim(mode, (g_at >= 0) & (g_at <= g_rows) & (g_put == g_at) & ((uint64_t)g_at == v_iter()), "split-invariant-rows"); claim(mode, (g_fresh != 0) | (g_src == g_dst), "split-invariant-columns"); }
HARNESS(P_split_rows) {
  odc::core::MetaData md; md.setSize(2); g_md = &md; odc::DispatchingWriter w("o{k}", 3); auto it = w.begin();
  g_rows = v_range("rows", 0, INT64_MAX); g_at = g_put = 0; g_src = 1; g_dst = 0; g_fresh = v_u64("fresh") & 1;
  for (int64_t* g : {&g_at, &g_put, &g_src, &g_dst, &g_fresh}) v_ghost(g, 8);
  v_replace("odc::core::MetaData::operator==", (void*)alike);
  v_replace("odc::WriterDispatchingIterator<odc::WriterBufferingIterator, odc::DispatchingWriter>::changeColumns", (void*)change);
  v_replace("odc::WriterDispatchingIterator<odc::WriterBufferingIterator, odc::DispatchingWriter>::writeRow", (void*)put);
  v_loop("unsigned long odc::WriterDispatchingIterator<odc::WriterBufferingIterator, odc::DispatchingWriter>::pass1", 0, inv, "writeRow");
  Src src, end; (**it).pass1(src, end);
  v_check(g_put == g_rows, "every-row-dispatched"); v_cover("done");
}
