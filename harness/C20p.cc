// C20, contracts of the row-wise writer and reader for any number of rows. Codecs, their selection, the stream and the header
// are entered through their contracts (C01p: codecs; C05: header).
//  * write_rows : WriterBufferingIterator::flush and doWriteRow. g_row: rows whose marker was written; g_next: the column whose
//                 value the stream takes next; g_last: what a reader has after the bytes written. Invariant: that is row g_row - 1.
//  * read_row   : ReaderIterator::next, for any state and any marker (one row: there is no loop over rows).
#include "pipe.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/core/Header.h"
#include "odc/core/MetaData.h"
using namespace H;
struct CHandle : VHandle { using VHandle::VHandle; eckit::DataHandle* clone() const override { return new CHandle(rd, rdlen); } };
static const int MAX = 3; static int N; static size_t W[MAX], OFF[MAX], ROW; static int64_t g_row, g_next, g_nrows; static uint64_t g_last[8]; static char* g_in; static int g_headers, g_selected; static odc::WriterBufferingIterator* g_it;
static bool imp(bool a, bool b) { return !a | b; }
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static uint64_t& in(int64_t row, size_t word) { return *(uint64_t*)(g_in + (size_t)row * ROW * 8 + 8 * word); }
struct GCodec : odc::core::Codec {
  int c; GCodec(int c) : Codec("ghost", odc::api::DOUBLE), c(c) { missingValue_ = -7.0; }
  void gatherStats(const double&) override {}
  unsigned char* encode(unsigned char* p, const double& d) override {
    v_check(g_selected, "encodes-with-the-chosen-codecs"); v_check(g_next == c, "columns-encoded-in-order-once"); v_check((const char*)&d == g_in + ((size_t)(g_row - 1) * ROW + OFF[c]) * 8, "encodes-the-value-of-the-row");
    for (size_t w = 0; w < W[c]; w++) g_last[OFF[c] + w] = ((const uint64_t*)&d)[w];
    g_next = g_next + 1; return p;
  }
  void decode(double* p) override { v_check(g_next == c, "columns-decoded-in-order-once"); for (size_t w = 0; w < W[c]; w++) ((uint64_t*)p)[w] = g_last[OFF[c] + w] = v_u64("value"); g_next = g_next + 1; }
  void dataSizeDoubles(size_t) override {}
  size_t dataSizeDoubles() const override { return W[c]; }
  void skip() override {}
  void clearDataStream() override {}
  void setDataStream(odc::core::DataStream<SameByteOrder>&) override {}
  void setDataStream(odc::core::DataStream<OtherByteOrder>&) override {}
};
static int chooseCodecs(odc::codec::CodecOptimizer*, odc::core::MetaData&) { g_selected = 1; return 0; }
static void marker(odc::core::DataStream<SameByteOrder>*, const void* m, size_t n) {
  v_check(n == 2, "marker-size"); v_check(g_next == N, "row-encoded-to-its-end"); v_check(g_row < g_nrows, "no-more-rows-than-were-given");
  int64_t s = ((const unsigned char*)m)[0] * 256 + ((const unsigned char*)m)[1]; v_check(s <= N, "marker"); g_row = g_row + 1; g_next = s;
}
static std::pair<eckit::Buffer, size_t> header(size_t, size_t rows, const odc::core::Properties&, const odc::core::MetaData& md) {
  v_check(rows == (size_t)g_nrows, "header-rows"); v_check(md.size() == (size_t)N, "header-columns"); g_headers++; return std::make_pair(eckit::Buffer(8), size_t(8));
}
static bool g_own; static void alloc(eckit::Buffer* b) { b->buffer_ = new char[16]; }
static void nothing(odc::core::MetaData*) {}
static int compare(const void* a, const void* b, size_t n) {  // memcmp, as far as equality goes
  v_check(n % 8 == 0, "whole-words"); bool same = true; for (size_t w = 0; w < n / 8; w++) same = same & (((const uint64_t*)a)[w] == ((const uint64_t*)b)[w]); return same ? 0 : 1;
}
static void inv(int mode) {
  claim(mode, (g_row >= 0) & (g_row <= g_nrows) & (g_next == N) & ((uint64_t)g_row == v_iter()), "write-invariant-rows");
  for (size_t w = 0; w < ROW; w++) { claim(mode, ((uint64_t*)g_it->lastValues_)[w] == g_last[w], "write-invariant-last-values"); claim(mode, imp(g_row > 0, g_last[w] == in(g_row > 0 ? g_row - 1 : 0, w)), "write-invariant-a-reader-has-the-row"); }
}
struct Out : VHandle { int n = 0; long write(const void*, long len) override { n++; return len; } };
static void layout(int n, bool wide) { N = n; ROW = 0; for (int c = 0; c < n; c++) { W[c] = wide && c == 1 ? 2 : 1; OFF[c] = ROW; ROW += W[c]; } }
static void writeProof(int n, bool wide) {
  layout(n, wide); static const char* nm[MAX] = {"a", "b", "c"}; g_nrows = v_range("rows", 1, 0x7ffffffe);
  Out out; odc::Writer<> w(out); auto it = w.begin(); g_it = &**it; it->setNumberOfColumns((size_t)n);
  for (int c = 0; c < n; c++) { it->setColumn((size_t)c, nm[c], W[c] == 2 ? STRING : DOUBLE); g_it->columns_[(size_t)c]->coder(std::unique_ptr<odc::core::Codec>(new GCodec(c))); }
  it->writeHeader(); for (size_t k = 0; k < ROW; k++) { g_last[k] = ((uint64_t*)g_it->lastValues_)[k]; v_ghost(&g_last[k], 8); }
  g_in = (char*)v_symbuf("rows", (size_t)g_nrows * ROW * 8); g_it->rowDataSizeDoubles_ = ROW; g_it->rowByteSize_ = ROW * 8; g_it->rowsBuffer_.size_ = (size_t)(g_nrows + (int64_t)v_range("free", 0, 100000)) * ROW * 8; g_it->rowsBuffer_.buffer_ = g_in; g_it->nextRowInBuffer_ = (unsigned char*)g_in + (size_t)g_nrows * ROW * 8;
  g_row = 0; g_next = N; g_headers = g_selected = 0; v_ghost(&g_row, 8); v_ghost(&g_next, 8);
  v_replace("int odc::codec::CodecOptimizer::setOptimalCodecs", (void*)chooseCodecs);
  v_replace("odc::core::DataStream<odc::core::SameByteOrder>::writeBytes", (void*)marker);
  v_replace("odc::core::Header::serializeHeader", (void*)header);
  v_replace("eckit::Buffer::create", (void*)alloc); v_replace("memcmp", (void*)compare);
  v_replace("void odc::core::MetaData::resetCodecs", (void*)nothing);
  v_loop("odc::WriterBufferingIterator::flush(", 0, inv, "doWriteRow");
  g_it->flush();
  v_check(g_row == g_nrows && g_next == N, "every-row-written"); v_check(g_headers == 1 && out.n == 2, "header-and-data-written"); v_check((char*)g_it->nextRowInBuffer_ == g_in, "buffer-empty"); v_cover("done");
  g_it->flush(); v_check(out.n == 2 && g_row == g_nrows, "nothing-written-twice");
  g_it->rowsBuffer_.buffer_ = nullptr; g_it->rowsBuffer_.size_ = 0; g_it->nextRowInBuffer_ = nullptr;
}
HARNESS(P_write_two_columns) { writeProof(2, false); }
HARNESS(P_write_string_column) { writeProof(2, true); }
HARNESS(P_write_three_columns) { writeProof(3, true); }

static uint16_t g_marker; static int g_reads;
static void readMarker(odc::core::DataStream<SameByteOrder>*, void* p, size_t n) { v_check(n == 2, "marker-size"); ((unsigned char*)p)[0] = (unsigned char)(g_marker >> 8); ((unsigned char*)p)[1] = (unsigned char)g_marker; g_next = g_marker; g_reads++; }
HARNESS(P_read_row) {
  layout(3, true); asDoubles(true); Tab t; t.add("a", DOUBLE); t.add("s", STRING, 16); t.add("b", DOUBLE); unsigned char s[16] = "text of fifteen"; t.putD(0, 1); t.put(1, s); t.putD(2, 2);
  VHandle o; enc(t, o); CHandle h(o.own.data(), o.own.size()); odc::Reader rd(h); auto it = rd.begin(); odc::ReaderIterator& ri = **it; v_check(ri.rowDataSizeDoubles() == ROW, "row-size");
  GCodec* g[3]; for (int c = 0; c < 3; c++) { g[c] = new GCodec(c); ri.codecs_[(size_t)c] = g[c]; }
  uint64_t before[4]; for (size_t k = 0; k < ROW; k++) before[k] = ((uint64_t*)ri.lastValues_)[k] = v_u64("before");
  int64_t left = v_range("remaining", 1, INT64_MAX); ri.rowsRemainingInTable_ = (size_t)left; unsigned long long read = ri.nrows_; g_marker = v_u16("marker"); g_reads = 0;
  v_replace("odc::core::DataStream<odc::core::SameByteOrder>::readBytes", (void*)readMarker);
  bool more = ri.next();
  v_check(more && !ri.isNewDataset() && g_reads == 1, "one-row"); v_check(ri.rowsRemainingInTable_ == (size_t)left - 1 && ri.nrows_ == read + 1, "one-row-less"); v_check(g_marker > 3 || g_next == 3, "row-decoded-to-its-end");
  for (int c = 0; c < 3; c++) for (size_t w = 0; w < W[c]; w++) v_check(((uint64_t*)ri.lastValues_)[OFF[c] + w] == (c >= g_marker ? g_last[OFF[c] + w] : before[OFF[c] + w]), "row-holds-the-values");
  v_cover("done");
}

// ---- the copying loop of the writer (pass1), for any number of rows and any changes of columns -------------------------------
//   g_at  rows the source has given    g_put  rows written    g_held  rows in the buffer    g_src, g_dst  columns of either
namespace copy {
static int64_t g_at, g_put, g_held, g_rows, g_src, g_dst, g_fresh, g_started; static char g_cells[64]; static odc::core::MetaData* g_md;
struct Row {
  bool isNewDataset() { return g_fresh; }
  const odc::core::MetaData& columns() const { return *g_md; }
  const double* data() const { return (const double*)g_cells; }
};
struct Src { Row row; bool operator!=(const Src&) const { return g_at < g_rows; } Row* operator->() { return &row; } Src& operator++() { v_check(g_at < g_rows, "steps-within-the-rows"); g_at = g_at + 1; g_fresh = v_u64("fresh") & 1; if (g_fresh) g_src = (int64_t)v_u64("columns"); return *this; } };
static bool alike(const odc::core::MetaData*, const odc::core::MetaData&) { return g_src == g_dst; }
static int putRow(odc::WriterBufferingIterator*, const double* d, unsigned long n) { v_check((const char*)d == g_cells && n == 2, "writes-the-row"); v_check(g_started == 1, "header-before-rows"); v_check(g_src == g_dst, "row-written-with-its-columns"); v_check(g_put == g_at, "every-row-once-in-order"); g_put = g_put + 1; g_held = g_held + 1; return 0; }
static void flush(odc::WriterBufferingIterator*) { g_held = 0; }
static void init(odc::WriterBufferingIterator*, Src&, const Src&) { v_check(g_held == 0, "rows-written-before-the-columns-change"); g_dst = g_src; g_started = 0; }
static void begin(odc::WriterBufferingIterator*) { g_started = 1; }
static int done(odc::WriterBufferingIterator*) { v_check(g_held == 0, "everything-flushed"); return 0; }
static void copyInv(int mode) { claim(mode, (g_at >= 0) & (g_at <= g_rows) & (g_put == g_at) & ((uint64_t)g_at == v_iter()) & (g_started == 1), "copy-invariant-rows"); claim(mode, imp(!g_fresh, g_src == g_dst), "copy-invariant-columns"); }
}
HARNESS(P_copy) {
  using namespace copy; Out out; odc::Writer<> w(out); auto it = w.begin(); odc::core::MetaData md; md.setSize(2); g_md = &md;
  g_rows = v_range("rows", 0, INT64_MAX); g_at = g_put = g_held = g_started = 0; g_src = 1; g_dst = 0; g_fresh = v_u64("fresh") & 1;
  for (int64_t* g : {&g_at, &g_put, &g_held, &g_src, &g_dst, &g_fresh, &g_started}) v_ghost(g, 8);
  v_replace("odc::core::MetaData::operator==", (void*)alike); v_replace("odc::WriterBufferingIterator::writeRow", (void*)putRow); v_replace("odc::WriterBufferingIterator::flush", (void*)flush);
  v_replace("void odc::WriterBufferingIterator::pass1init", (void*)init); v_replace("odc::WriterBufferingIterator::writeHeader", (void*)begin); v_replace("odc::WriterBufferingIterator::close", (void*)done);
  v_loop("unsigned long odc::WriterBufferingIterator::pass1", 0, copyInv, "writeRow");
  Src src, end; unsigned long n = (**it).pass1(src, end);
  v_check(n == (unsigned long)g_rows && g_put == g_rows && g_held == 0, "every-row-copied"); v_cover("done");
}
// ---- writeRow: for any size and filling of the buffer, the row is added behind the others and the full buffer flushed --------
static int64_t g_flushed, g_stats;
static void flushed(odc::WriterBufferingIterator*) { g_flushed = g_flushed + 1; }
static unsigned long stats(odc::WriterBufferingIterator*, const double*, unsigned long) { v_check(!g_flushed, "statistics-before-flush"); g_stats = g_stats + 1; return 0; }
HARNESS(P_buffer_row) {
  layout(3, true); Out out; odc::Writer<> w(out); auto it = w.begin(); g_it = &**it; it->setNumberOfColumns(3); static const char* nm[MAX] = {"a", "b", "c"};
  for (int c = 0; c < 3; c++) { it->setColumn((size_t)c, nm[c], W[c] == 2 ? STRING : DOUBLE); g_it->columns_[(size_t)c]->coder(std::unique_ptr<odc::core::Codec>(new GCodec(c))); }
  it->writeHeader(); int64_t cap = v_range("capacity", 1, 0x7ffffffe), at = v_range("held", 0, 0x7ffffffe), r = v_range("row", 0, 0x7ffffffe); v_assume(at < cap && r < cap);
  g_in = (char*)v_symbuf("rows", (size_t)cap * ROW * 8); g_it->rowDataSizeDoubles_ = ROW; g_it->rowByteSize_ = ROW * 8; g_it->rowsBuffer_.size_ = (size_t)cap * ROW * 8; g_it->rowsBuffer_.buffer_ = g_in; g_it->nextRowInBuffer_ = (unsigned char*)g_in + (size_t)at * ROW * 8;
  uint64_t d[4]; for (auto& x : d) x = v_u64("cell"); size_t k = v_choose("word", 4); uint64_t before = in(r, k); g_flushed = g_stats = 0;
  v_replace("odc::WriterBufferingIterator::flush", (void*)flushed); v_replace("odc::WriterBufferingIterator::gatherStats", (void*)stats);
  g_it->writeRow((const double*)d, 3);
  v_check(in(r, k) == (r == at ? d[k] : before), "exactly-the-next-row-changes"); v_check((char*)g_it->nextRowInBuffer_ == g_in + (size_t)(at + 1) * ROW * 8, "one-row-more"); v_check(g_stats == 1, "statistics-once"); v_check(g_flushed == (at + 1 == cap), "flushed-when-full"); v_cover("done");
  g_it->rowsBuffer_.buffer_ = nullptr; g_it->rowsBuffer_.size_ = 0; g_it->nextRowInBuffer_ = nullptr;
}
