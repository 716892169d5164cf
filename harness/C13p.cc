// C13, contract of Table::decodeSpan for any number of rows, each with any marker and any values. The marker read, the codecs
// and the insertion into the sets of values (std::set) are entered through their contracts.
//   g_row   rows whose marker was read        g_next   the column whose value the stream gives next
//   g_due   1 + the column whose value g_val has been decoded and is not yet in its set, 0 if none
//   g_miss  columns whose missing value is in their sets          g_first  the marker of the first row
// Invariant: every value decoded so far is in the set of its column, nothing else is, and the columns the first row leaves
// out have their missing value there; what a row leaves out otherwise is in the set since an earlier row.
#include "hlib.h"
#include "odc/core/Span.h"
#include "odc/core/Header.h"
#include "odc/core/Table.h"
#include "odc/core/ThreadSharedDataHandle.h"
#include "odc/ODBAPISettings.h"
using namespace H;
static const int MAX = 3; static int N; static size_t W[MAX]; static odc::api::ColumnType T[MAX]; static bool g_visit[MAX], g_dbl;
static int64_t g_row, g_next, g_nrows, g_due, g_miss, g_first; static uint64_t g_val[2];
static double asDbl(uint64_t b) { double d; ::memcpy(&d, &b, 8); return d; }
static bool settled() { double d = asDbl(g_val[0]); return (g_due == 0) | ((g_due == 2) & (T[1] == odc::api::DOUBLE) & (d != d)); }  // n.b. NaN equals nothing, and is in no set
struct GCodec : odc::core::Codec {
  int c; GCodec(int c, odc::api::ColumnType t) : Codec("ghost", t), c(c) { missingValue_ = -7.0; }
  using Codec::encode;
  unsigned char* encode(unsigned char* p, const double&) override { return p; }
  void clearDataStream() override {}
  void setDataStream(odc::core::DataStream<SameByteOrder>&) override {}
  void setDataStream(odc::core::DataStream<OtherByteOrder>&) override {}
  size_t dataSizeDoubles() const override { return W[c]; }
  void dataSizeDoubles(size_t) override {}
  double missingValue() const override {
    v_check(settled() & (g_row == 1) & (c < g_next) & g_visit[c] & !(g_miss >> c & 1), "missing-values-of-the-first-row-once");
    g_due = c + 1; g_val[0] = bits(-7.0); g_val[1] = 0; g_miss = g_miss | 1 << c; return -7.0;
  }
  void decode(double* p) override {
    v_check(g_next == c, "columns-decoded-in-order-once"); v_check(g_visit[c], "decodes-only-what-was-asked-for"); v_check(settled(), "every-value-is-added");
    for (size_t w = 0; w < W[c]; w++) ((uint64_t*)p)[w] = g_val[w] = v_u64("value");
    g_due = c + 1; g_next = g_next + 1;
  }
  void skip() override { v_check(g_next == c, "columns-decoded-in-order-once"); v_check(!g_visit[c], "skips-only-what-was-not-asked-for"); v_check(settled(), "every-value-is-added"); g_next = g_next + 1; }
};
static eckit::Buffer noData(odc::core::Table*, bool) { return eckit::Buffer(8); }
static bool imp(bool a, bool b) { return !a | b; }
static int64_t leftOut() { int64_t m = 0; for (int c = 0; c < N; c++) m |= (int64_t)(g_visit[c] & (c < g_first)) << c; return m; }
static void rowDone() { v_check(g_next == N, "row-decoded-to-its-end"); v_check(settled(), "every-value-is-added"); v_check(imp(g_row > 0, g_miss == leftOut()), "missing-values-of-the-first-row"); }
static void marker(odc::core::GeneralDataStream*, unsigned char (**m)[2], size_t* n) {
  v_check(*n == 2, "marker-size"); v_check(g_row < g_nrows, "reads-no-more-rows-than-the-table-has"); rowDone();
  uint16_t s = v_u16("marker"); (**m)[0] = (unsigned char)(s >> 8); (**m)[1] = (unsigned char)s;
  if (g_row == 0) g_first = s; g_row = g_row + 1; g_next = s;
}
static std::pair<std::set<long>::iterator, bool> insL(std::set<long>*, long* v) {
  int c = (int)g_due - 1; v_check(c >= 0 && T[c] == odc::api::INTEGER, "adds-what-was-decoded");
  v_check(*v == (g_dbl ? (long)asDbl(g_val[0]) : (long)g_val[0]), "adds-the-integer"); g_due = 0; return std::make_pair(std::set<long>::iterator(), true);
}
static std::pair<std::set<double>::iterator, bool> insD(std::set<double>*, const double* v) {
  int c = (int)g_due - 1; v_check(c >= 0 && T[c] == odc::api::DOUBLE, "adds-what-was-decoded");
  v_check(*(const uint64_t*)v == g_val[0], "adds-the-number"); g_due = 0; return std::make_pair(std::set<double>::iterator(), true);
}
static std::pair<std::set<std::string>::iterator, bool> insS(std::set<std::string>*, std::string* v) {
  int c = (int)g_due - 1; v_check(c >= 0 && T[c] == odc::api::STRING, "adds-what-was-decoded");
  const char* p = (const char*)g_val; size_t n = v->size(); bool ok = n <= W[c] * 8;
  for (size_t k = 0; k < n && k < W[c] * 8; k++) ok = ok & (p[k] != 0) & ((*v)[k] == p[k]);
  if (n < W[c] * 8) ok = ok & (p[n] == 0);
  v_check(ok, "adds-the-string"); g_due = 0; return std::make_pair(std::set<std::string>::iterator(), true);
}
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
static void inv(int mode) {
  claim(mode, (g_row >= 0) & (g_row <= g_nrows) & (g_next == N) & ((uint64_t)g_row == v_iter()), "span-invariant-rows");
  claim(mode, settled(), "span-invariant-every-value-is-in-its-set");
  claim(mode, (g_first >= 0) & (g_first <= N) & imp(g_row == 0, g_miss == 0) & imp(g_row > 0, g_miss == leftOut()), "span-invariant-missing");
}
static void proof(int ncols, int subset, size_t width, bool dbl) {
  N = ncols; odc::ODBAPISettings::instance().treatIntegersAsDoubles(g_dbl = dbl); g_nrows = v_range("rows", 1, 0x7ffffffe);
  VHandle h; odc::core::ThreadSharedDataHandle th(h); odc::core::Table t(th);
  static const char* nm[MAX] = {"a", "s", "b"}; static const odc::api::ColumnType ty[2][MAX] = {{odc::api::INTEGER, odc::api::DOUBLE, odc::api::STRING}, {odc::api::STRING, odc::api::DOUBLE, odc::api::INTEGER}};
  t.metadata_.setSize(N); t.metadata_.rowsNumber((unsigned long long)g_nrows); std::vector<std::string> want;
  for (int i = 0; i < N; i++) {
    T[i] = ty[width == 2][i]; W[i] = T[i] == odc::api::STRING ? width : 1; g_visit[i] = subset >> i & 1;
    t.metadata_[i]->name(nm[i]); t.metadata_[i]->type_ = T[i]; t.metadata_[i]->coder(std::unique_ptr<odc::core::Codec>(new GCodec(i, T[i])));
    if (g_visit[i]) want.push_back(nm[i]);
  }
  g_row = 0; g_next = N; g_due = g_miss = g_first = 0; g_val[0] = g_val[1] = 0;
  v_ghost(&g_row, 8); v_ghost(&g_next, 8); v_ghost(&g_due, 8); v_ghost(&g_miss, 8); v_ghost(&g_first, 8); v_ghost(&g_val[0], 8); v_ghost(&g_val[1], 8);
  v_replace("odc::core::Table::readEncodedData", (void*)noData);
  v_replace("void odc::core::GeneralDataStream::readBytes", (void*)marker);
  v_replace("std::set<long, std::less<long>, std::allocator<long>>::insert(", (void*)insL);
  v_replace("std::set<double, std::less<double>, std::allocator<double>>::insert(", (void*)insD);
  v_replace("std::set<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::less<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>::insert(", (void*)insS);
  v_loop("odc::core::Table::decodeSpan", 0, inv, "readBytes");
  bool threw = false;
  try { t.decodeSpan(want); } catch (std::exception&) { threw = true; }
  if (threw) { v_check(g_next > N, "fails-only-for-a-bad-marker"); v_cover("refused"); return; }
  v_check(g_row == g_nrows, "every-row-read"); rowDone(); v_cover("done");
}
HARNESS(P_span_two_columns) { proof(2, 3, 1, true); }
HARNESS(P_span_one_of_two) { proof(2, 1 << v_choose("column", 2), 1, v_choose("doubles", 2)); }
HARNESS(P_span_three_columns) { proof(3, 7, 1, false); }
HARNESS(P_span_long_strings) { proof(3, 7, 2, true); }
HARNESS(P_span_some_of_three) { proof(3, 5, 2, false); }
