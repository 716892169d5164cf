// C10, contract for any number of rows and any maximum: the loop of api::encode hands core::encodeFrame, whose contract is the
// frame of exactly the rows it is given, one slice after the other.
//   g_pos   rows handed over so far
#include "hlib.h"
#include "odc/api/Odb.h"
#include "odc/core/Encoder.h"
using namespace H;
using odc::api::ColumnInfo; using odc::api::ConstStridedData;
namespace sl {
static const int MAX = 3; static int64_t g_pos, g_frames, g_nrows, g_max; static int N; static const char* g_data[MAX]; static size_t g_stride[MAX], g_size[MAX]; static eckit::DataHandle* g_out; static const void* g_props; static const void* g_cols;
static void frame(eckit::DataHandle& out, const std::vector<ColumnInfo>& columns, const std::vector<ConstStridedData>& data, const std::map<std::string, std::string>& props) {
  v_check(&out == g_out && &props == g_props && &columns == g_cols, "frame-has-all-columns-and-properties");
  v_check(data.size() == (size_t)N, "frame-has-all-columns"); if (data.size() != (size_t)N) return;
  int64_t n = (int64_t)data[0].nelem();
  v_check((n >= 1) | ((n == 0) & (g_nrows == 0)), "frame-not-empty"); v_check(n <= g_max, "frame-within-the-maximum"); v_check((n == g_max) | (g_pos + n == g_nrows), "only-the-last-frame-is-smaller");
  v_check(g_pos + n <= g_nrows, "no-more-rows-than-there-are");
  for (int c = 0; c < N; c++) v_check(((int64_t)data[c].nelem() == n) & (data[c].get(0) == g_data[c] + (size_t)g_pos * g_stride[c]) & (data[c].stride() == g_stride[c]) & (data[c].dataSize() == g_size[c]), "frame-holds-the-rows-that-follow");
  g_pos = g_pos + n; g_frames = g_frames + 1;
}
static void inv(int mode) {
  bool a = (g_pos >= 0) & (g_pos <= g_nrows);
  if (mode == 1) v_assume(a); else v_check(a, "slices-invariant");
}
static void proof(int n, int64_t lo, int64_t hi) {
  N = n; g_nrows = v_range("rows", lo, hi); g_max = v_range("maximum", 1, INT64_MAX); g_pos = 0; g_frames = 0;
  VHandle h; g_out = &h; std::vector<ColumnInfo> ci((size_t)n); std::vector<ConstStridedData> sd; std::map<std::string, std::string> props; g_props = &props; g_cols = &ci;
  for (int c = 0; c < n; c++) { g_size[c] = c == 1 ? 16 : 8; g_stride[c] = c == 0 ? 8 : 40; g_data[c] = (const char*)v_symbuf("column", (size_t)(g_nrows + 1) * g_stride[c]); sd.emplace_back(g_data[c], (size_t)g_nrows, g_size[c], g_stride[c]); }
  v_ghost(&g_pos, 8); v_ghost(&g_frames, 8);
  v_replace("odc::core::encodeFrame", (void*)frame);
  v_loop("odc::api::encode(", 0, inv, "encodeFrame");
  odc::api::encode(h, ci, sd, props, (size_t)g_max);
  v_check(g_pos == g_nrows, "every-row-in-a-frame"); v_cover(g_nrows <= g_max ? "one-frame" : "frames");
}
}
HARNESS(P_slices_one_column) { sl::proof(1, 0, 0x7ffffffe); }
HARNESS(P_slices_three_columns) { sl::proof(3, 0, 0x7ffffffe); }
