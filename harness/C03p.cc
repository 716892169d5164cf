// C03, contracts for any number of rows.
//  * fill_*   : StridedData::fill, loop invariant: for an arbitrary row r, after k steps r holds the value of the source row
//               if it lies among the k rows after it, and what it held before otherwise; nothing else is written.
#include "hlib.h"
#include "odc/api/StridedData.h"
#include "odc/api/Odb.h"
#include "odc/core/DecodeTarget.h"
#include "odc/core/Encoder.h"
#include "odc/core/Header.h"
#include "odc/core/Table.h"
#include "odc/core/ThreadSharedDataHandle.h"
using namespace H;
using odc::api::StridedData;

// ---- fill ------------------------------------------------------------------------------------------------------------
static char* g_buf; static int64_t g_src, g_fin, g_r; static size_t g_size, g_stride, g_byte; static uint64_t g_val, g_old;
static size_t at(int64_t row, size_t byte) { return (size_t)row * g_stride + byte; }
static uint64_t cell(int64_t row) { return *(uint64_t*)(g_buf + at(row, g_byte)); }
static void fillInv(int mode) {
  int64_t k = (int64_t)v_iter();
  bool upd = g_byte < g_size && g_r > g_src && g_r <= g_src + k;
  bool c = g_src + k <= g_fin, d = cell(g_r) == (upd ? g_val : g_old), e = g_byte >= g_size || cell(g_src) == g_val;
  if (mode == 1) { v_assume(c); v_assume(d); v_assume(e); }
  else { v_check(c, "fill-invariant-rows"); v_check(d, "fill-invariant-cell"); v_check(e, "fill-keeps-the-source"); }
}
static void fillProof(size_t dataSize, size_t stride, const char* fn) {
  int64_t n = v_range("rows", 1, 0x7ffffffe);
  g_size = dataSize; g_stride = stride;
  g_src = v_range("source", 0, 0x7ffffffe); g_fin = v_range("final", 0, 0x7ffffffe); g_r = v_range("row", 0, 0x7ffffffe);
  v_assume(g_src <= g_fin && g_fin < n && g_r < n);
  g_byte = 8 * v_choose("word", stride / 8);
  g_buf = (char*)v_symbuf("data", (size_t)(n - 1) * stride + dataSize);
  v_assume(g_byte < dataSize || g_r < n - 1);
  g_old = cell(g_r); g_val = g_byte < dataSize ? cell(g_src) : 0;
  v_loop(fn, dataSize == 8 ? 0 : 1, fillInv, "");
  StridedData sd(g_buf, (size_t)n, dataSize, stride);
  sd.fill((int)g_src, (int)g_fin);
  bool upd = g_byte < g_size && g_r > g_src && g_r <= g_fin;
  v_check(cell(g_r) == (upd ? g_val : g_old), "fill-writes-exactly-the-rows-after-the-source");
  v_cover("done");
}
static const char* STD_FILL = "*std::__fill_a1<unsigned long*";
static const char* OWN_FILL = "odc::api::StridedDataT<char>::fill";
HARNESS(P_fill_8_8) { fillProof(8, 8, STD_FILL); }
HARNESS(P_fill_8_24) { fillProof(8, 24, OWN_FILL); }
HARNESS(P_fill_16_16) { fillProof(16, 16, OWN_FILL); }
HARNESS(P_fill_16_24) { fillProof(16, 24, OWN_FILL); }

// ---- Table::decode, the row loop -----------------------------------------------------------------------------------------
// A table of three columns and any number of rows, each row with any marker and any values; the columns a caller asks for
// are any subset. The marker read, the codecs and StridedData::fill (proved above) are entered through their contracts.
//   g_row      rows whose marker has been read           g_cur[c]   the value column c had last in the encoded stream
//   g_last[c]  row of its last value, if asked for           g_exp[c]   the value of column c in the tracked row g_r
namespace dec {
static const int MAX = 3; static int N; static const size_t STRIDE = 16;
static int64_t g_row, g_start, g_next, g_last[MAX], g_nrows, g_nelem; static uint64_t g_cur[MAX], g_exp[MAX];
static int64_t g_r; static char* g_out[MAX]; static bool g_visit[MAX];
static uint64_t& out(int c, int64_t row) { return *(uint64_t*)(g_out[c] + (size_t)row * STRIDE); }
struct GCodec : odc::core::Codec {
  int c; GCodec(int c) : Codec("ghost", odc::api::DOUBLE), c(c) { missingValue_ = -7.0; }
  using Codec::encode;
  unsigned char* encode(unsigned char* p, const double&) override { return p; }
  void clearDataStream() override {}
  void setDataStream(odc::core::DataStream<SameByteOrder>&) override {}
  void setDataStream(odc::core::DataStream<OtherByteOrder>&) override {}
  void step() {
    v_check(g_next == c, "columns-decoded-in-order-once");
    g_next = g_next + 1; if (g_visit[c]) g_last[c] = g_row - 1;
    g_cur[c] = v_u64("value");
    if (g_row - 1 == g_r) g_exp[c] = g_cur[c];
  }
  void decode(double* p) override {
    v_check(g_visit[c], "decodes-only-what-was-asked-for");
    v_check((char*)p == g_out[c] + (size_t)(g_row - 1) * STRIDE, "decodes-into-the-row");
    step(); *(uint64_t*)p = g_cur[c];
  }
  void skip() override { step(); }
};
static bool imp(bool a, bool b) { return !a | b; }
static eckit::Buffer noData(odc::core::Table*, bool) { return eckit::Buffer(8); }
static void marker(odc::core::GeneralDataStream*, unsigned char (**m)[2], size_t* n) {
  v_check(*n == 2, "marker-size");
  v_check(g_row < g_nrows, "reads-no-more-rows-than-the-table-has");
  v_check(g_next == N, "row-decoded-to-its-end");
  uint16_t s = v_u16("marker");
  (**m)[0] = (unsigned char)(s >> 8); (**m)[1] = (unsigned char)s;
  if (g_row == g_r) for (int c = 0; c < N; c++) g_exp[c] = g_cur[c];
  g_row = g_row + 1; g_start = s; g_next = s;
  if (s > N) { v_cover("bad-marker"); }
}
static void fill(StridedData* d, int src, int fin) {
  char* p = d->get(0); int c = 0; while (c < N && !(g_visit[c] && p == g_out[c])) c++;
  v_check(c < N, "fills-a-target");
  if (c == N) return;
  v_check((src >= 0) & (src <= fin) & (fin < g_nelem), "fill-rows-lie-in-the-target");
  uint64_t v = out(c, src), w = out(c, g_r); bool in = (g_r > src) & (g_r <= fin);
  v_check(g_last[c] == src, "fills-from-the-last-value");
  v_havoc_buf(g_out[c]);
  v_assume((out(c, src) == v) & imp(in, out(c, g_r) == v) & imp(!in, out(c, g_r) == w));
}
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static void inv(int mode) {
  bool none = g_row == 0;
  claim(mode, (g_row >= 0) & (g_row <= g_nrows) & (g_start >= 0) & (g_start <= N) & (g_next == N) & ((uint64_t)g_row == v_iter()) & imp(none, g_start == 0), "decode-invariant-rows");
  for (int c = 0, prev = -1; c < N; c++) {
    if (!g_visit[c]) { claim(mode, g_last[c] == 0, "decode-invariant-not-asked-for"); continue; }
    claim(mode, (g_last[c] >= 0) & (g_last[c] <= g_row - !none) & imp(!none & (c >= g_start), g_last[c] == g_row - 1), "decode-invariant-last-value");
    if (prev >= 0) claim(mode, g_last[prev] <= g_last[c], "decode-invariant-order");
    prev = c;
    claim(mode, out(c, g_last[c]) == g_cur[c], "decode-invariant-current");
    claim(mode, imp(g_r < g_row, (imp(g_r <= g_last[c], out(c, g_r) == g_exp[c]) & imp(g_r > g_last[c], g_exp[c] == g_cur[c]))), "decode-invariant-row");
  }
}
static void proof(int ncols, int subset, bool rev) {
  N = ncols;
  g_nrows = v_range("rows", 1, 0x7ffffffe); g_nelem = v_range("capacity", 1, 0x7ffffffe);
  g_r = v_range("row", 0, 0x7ffffffe); v_assume(g_r < g_nrows);
  VHandle h; odc::core::ThreadSharedDataHandle th(h); odc::core::Table t(th);
  static const char* nm[MAX] = {"a", "b", "c"};
  t.metadata_.setSize(N); t.metadata_.rowsNumber((unsigned long long)g_nrows);
  std::vector<std::string> want; std::vector<StridedData> sd;
  for (int i = 0; i < N; i++) {
    t.metadata_[i]->name(nm[i]); t.metadata_[i]->coder(std::unique_ptr<odc::core::Codec>(new GCodec(i)));
    g_visit[i] = subset >> i & 1; g_last[i] = 0; g_cur[i] = bits(-7.0); g_exp[i] = 0;
  }
  for (int k = 0; k < N; k++) {
    int i = rev ? N - 1 - k : k;
    if (!g_visit[i]) continue;
    g_out[i] = (char*)v_symbuf("out", (size_t)g_nelem * STRIDE);
    want.push_back(nm[i]); sd.emplace_back(g_out[i], (size_t)g_nelem, 8, STRIDE);
  }
  g_row = 0; g_start = 0; g_next = N;
  for (int i = 0; i < N; i++) { v_ghost(&g_last[i], 8); v_ghost(&g_cur[i], 8); v_ghost(&g_exp[i], 8); }
  v_ghost(&g_row, 8); v_ghost(&g_start, 8); v_ghost(&g_next, 8);
  v_replace("odc::core::Table::readEncodedData", (void*)noData);
  v_replace("void odc::core::GeneralDataStream::readBytes", (void*)marker);
  v_replace("odc::api::StridedDataT<char>::fill", (void*)fill);
  v_loop("odc::core::Table::decode", 0, inv, "readBytes");
  odc::core::DecodeTarget target(want, sd);
  bool threw = false;
  try { t.decode(target); } catch (std::exception&) { threw = true; }
  if (threw) { v_check(g_nelem < g_nrows || g_start > N, "decode-fails-only-for-a-bad-marker-or-a-small-target"); v_cover("refused"); return; }
  v_check(g_nelem >= g_nrows, "target-large-enough");
  v_check(g_row == g_nrows && g_next == N, "every-row-read");
  for (int c = 0; c < N; c++) if (g_visit[c]) v_check(out(c, g_r) == g_exp[c], "row-holds-the-decoded-value");
  v_cover("done");
}
}
HARNESS(P_decode_two_columns) { dec::proof(2, 3, false); }
HARNESS(P_decode_one_of_two) { dec::proof(2, 1 << v_choose("column", 2), false); }
HARNESS(P_decode_three_columns_T) { dec::proof(3, 7, true); }
HARNESS(P_decode_two_of_three_T) { dec::proof(3, 5, true); }

// ---- encodeFrame, the loops over rows ------------------------------------------------------------------------------------
// A table of two or three columns and any number of rows with any values. The codecs, their selection (C01p), the stream and
// the header are entered through their contracts.
//   g_seen     rows the statistics were gathered from, of column g_col     g_row    rows whose marker was written
//   g_next     the column whose value the stream takes next             g_bytes  bytes written
//   g_last[c]  what a reader has for column c after the bytes written: the value of column c in row g_row - 1
namespace enc {
static const int MAX = 3; static int N; static const size_t STRIDE = 24; static size_t W[MAX];
static int64_t g_row, g_next, g_bytes, g_nrows, g_seen; static int g_col; static uint64_t g_last[MAX][2]; static char* g_in[MAX]; static int g_headers, g_selected; static bool g_over;
static uint64_t& in(int c, int64_t row, int word = 0) { return *(uint64_t*)(g_in[c] + (size_t)row * STRIDE + 8 * word); }
struct GCodec : odc::core::Codec {
  int c; GCodec(int c) : Codec("ghost", odc::api::DOUBLE), c(c) { missingValue_ = -7.0; }
  void gatherStats(const double& d) override { v_check(!g_selected, "statistics-before-the-codecs-are-chosen"); v_check(c == g_col, "statistics-of-its-column"); v_check((const char*)&d == g_in[c] + (size_t)g_seen * STRIDE, "statistics-of-every-row-in-order"); g_seen = g_seen + 1; }
  unsigned char* encode(unsigned char* p, const double& d) override {
    v_check(g_selected, "encodes-with-the-chosen-codecs"); v_check(g_next == c, "columns-encoded-in-order-once"); v_check((const char*)&d == g_in[c] + (size_t)(g_row - 1) * STRIDE, "encodes-the-value-of-the-row");
    for (size_t w = 0; w < W[c] / 8; w++) g_last[c][w] = ((const uint64_t*)&d)[w];
    g_next = g_next + 1; return p;
  }
  using Codec::decode;
  void dataSizeDoubles(size_t n) override { v_check(n == W[c] / 8, "element-size"); }
  size_t dataSizeDoubles() const override { return W[c] / 8; }
  void decode(double*) override {}
  void skip() override {}
  void clearDataStream() override {}
  void setDataStream(odc::core::DataStream<SameByteOrder>&) override {}
  void setDataStream(odc::core::DataStream<OtherByteOrder>&) override {}
};
static int g_made;
static void type(odc::core::Column* col, odc::api::ColumnType t) { col->type_ = t; col->coder(std::unique_ptr<odc::core::Codec>(new GCodec(g_made++))); }
static int select(odc::codec::CodecOptimizer*, odc::core::MetaData& md) {
  v_check(g_col == N - 1 && g_seen == g_nrows, "statistics-of-every-row"); v_check(md.size() == (size_t)N, "columns"); g_selected = 1; return 0;
}
static void marker(odc::core::DataStream<SameByteOrder>*, const void* m, size_t n) {
  v_check(n == 2, "marker-size"); v_check(g_next == N, "row-encoded-to-its-end"); v_check(g_row < g_nrows, "no-more-rows-than-given");
  int64_t s = ((const unsigned char*)m)[0] * 256 + ((const unsigned char*)m)[1]; v_check(s <= N, "marker"); v_check(g_row > 0 || s == 0, "first-row-complete"); g_row = g_row + 1; g_next = s;
}
static std::pair<eckit::Buffer, size_t> header(size_t size, size_t rows, const odc::core::Properties&, const odc::core::MetaData& md) {
  v_check(rows == (size_t)g_nrows, "header-rows"); v_check(md.size() == (size_t)N, "header-columns"); g_headers++; return std::make_pair(eckit::Buffer(8), size_t(8));
}
static void alloc(eckit::Buffer* b) { b->buffer_ = new char[16]; }
static bool imp(bool a, bool b) { return !a | b; }
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static void statsInv(int mode) {
  if (mode == 0) { v_check(g_col < 0 || g_seen == g_nrows, "statistics-of-every-row"); g_col++; v_check(g_col < N, "statistics-of-every-column-once"); g_seen = 0; }
  claim(mode, (g_seen >= 0) & (g_seen <= g_nrows) & ((uint64_t)g_seen == v_iter()), "statistics-invariant");
}
static void inv(int mode) {
  claim(mode, (g_row >= 0) & (g_row <= g_nrows) & (g_next == N) & ((uint64_t)g_row == v_iter()), "encode-invariant-rows");
  for (int c = 0; c < N; c++) for (size_t w = 0; w < W[c] / 8; w++) claim(mode, imp(g_row > 0, g_last[c][w] == in(c, g_row > 0 ? g_row - 1 : 0, w)), "encode-invariant-a-reader-has-the-row");
}
static int compare(const void* a, const void* b, size_t n) {  // memcmp, as far as equality goes
  v_check(n % 8 == 0, "whole-words"); bool same = true; for (size_t w = 0; w < n / 8; w++) same = same & (((const uint64_t*)a)[w] == ((const uint64_t*)b)[w]); return same ? 0 : 1;
}
struct Out : VHandle { int n = 0; long write(const void*, long len) override { n++; return len; } };
static void proof(int ncols, bool wide) {
  N = ncols; g_nrows = v_range("rows", 1, 0x7ffffffe); static const char* nm[MAX] = {"a", "b", "c"};
  std::vector<odc::api::ColumnInfo> ci; std::vector<odc::api::ConstStridedData> sd; std::map<std::string, std::string> props;
  for (int c = 0; c < N; c++) {
    W[c] = wide && c == 1 ? 16 : 8; g_in[c] = (char*)v_symbuf("in", (size_t)g_nrows * STRIDE); g_last[c][0] = g_last[c][1] = 0;
    odc::api::ColumnInfo i; i.name = nm[c]; i.type = W[c] == 16 ? odc::api::STRING : odc::api::DOUBLE; i.decodedSize = W[c]; ci.push_back(i); sd.emplace_back(g_in[c], (size_t)g_nrows, W[c], STRIDE);
    v_ghost(&g_last[c][0], 8); v_ghost(&g_last[c][1], 8);
  }
  g_seen = 0; g_col = -1; v_ghost(&g_seen, 8); g_row = 0; g_next = N; g_made = 0; g_headers = g_selected = 0; v_ghost(&g_row, 8); v_ghost(&g_next, 8);
  v_replace("void odc::core::Column::type<", (void*)type);
  v_replace("int odc::codec::CodecOptimizer::setOptimalCodecs", (void*)select);
  v_replace("odc::core::DataStream<odc::core::SameByteOrder>::writeBytes", (void*)marker);
  v_replace("odc::core::Header::serializeHeader", (void*)header);
  v_replace("eckit::Buffer::create", (void*)alloc); v_replace("memcmp", (void*)compare);
  v_loop("odc::core::encodeFrame", 1, statsInv, "StridedDataT<char const>::operator++");
  v_loop("odc::core::encodeFrame", 0, inv, "writeBytes");
  Out out; odc::core::encodeFrame(out, ci, sd, props);
  v_check(g_row == g_nrows && g_next == N, "every-row-written"); v_check(g_headers == 1 && out.n == 2, "header-and-data-written"); v_cover("done");
}
}
HARNESS(P_encode_two_columns) { enc::proof(2, false); }
HARNESS(P_encode_string_column) { enc::proof(2, true); }
HARNESS(P_encode_three_columns) { enc::proof(3, true); }
