// C19, contract of ThreadSharedDataHandle::read and seek for any position, length and content, wherever other readers left the
// shared handle, and however few bytes at a time it gives. The handle is entered through its contract: read gives between one
// and all of the bytes asked for from its position on, none at the end, or fails.
//   g_pos  position of the shared handle     g_tot  bytes given so far in this call     g_t  a byte of the buffer, tracked
#include "hlib.h"
#include "odc/core/ThreadSharedDataHandle.h"
using namespace H;
using odc::core::ThreadSharedDataHandle;
static int64_t g_pos, g_tot, g_len, g_start, g_want, g_t, g_end; static uint8_t* g_buf; static uint8_t* g_file; static uint8_t g_old;
static bool imp(bool a, bool b) { return !a | b; }
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
struct GHandle : eckit::DataHandle {
  eckit::Length openForRead() override { return 0; }
  void openForWrite(const eckit::Length&) override {}
  void openForAppend(const eckit::Length&) override {}
  long read(void* b, long n) override {
    v_check((n > 0) & ((uint8_t*)b == g_buf + g_tot) & (n <= g_want - g_tot), "reads-into-the-rest-of-the-buffer"); v_check(g_pos == g_start + g_tot, "reads-from-its-own-position");
    int64_t k = v_range("given", -1, 0x7fffffff); v_assume(k <= n); v_assume(imp(k >= 0, k <= (g_pos < g_len ? g_len - g_pos : 0)) & imp(k == 0, g_pos >= g_len));
    if (k <= 0) { g_end = 1 + (k < 0); return k; }
    uint8_t was = g_buf[g_t]; bool in = (g_t >= g_tot) & (g_t < g_tot + k); v_havoc_buf(g_buf); v_assume(g_buf[g_t] == (in ? g_file[g_start + g_t] : was));
    g_pos = g_pos + k; g_tot = g_tot + k; return k;
  }
  long write(const void*, long) override { v_check(false, "does-not-write"); return 0; }
  void close() override {}
  void flush() override {}
  void rewind() override { g_pos = 0; }
  eckit::Length size() override { return g_len; }
  eckit::Length estimate() override { return g_len; }
  eckit::Offset position() override { return g_pos; }
  eckit::Offset seek(const eckit::Offset& o) override { g_pos = (long long)o; return o; }
  bool canSeek() const override { return true; }
  void skip(const eckit::Length&) override {}
  void print(std::ostream&) const override {}
};
static void inv(int mode) {
  claim(mode, (g_tot >= 0) & (g_tot <= g_want) & (g_pos == g_start + g_tot), "read-invariant-position"); claim(mode, imp(g_tot > 0, g_start + g_tot <= g_len), "read-invariant-data");
  claim(mode, g_buf[g_t] == (g_t < g_tot ? g_file[g_start + g_t] : g_old), "read-invariant-byte");
}
HARNESS(P_read) {
  g_len = v_range("length", 0, 0x7fffffff); g_start = v_range("at", 0, 0x7fffffff); g_want = v_range("want", 0, 0x7ffffffe); g_t = v_range("byte", 0, 0x7ffffffe); v_assume(g_t <= g_want);
  g_buf = (uint8_t*)v_symbuf("buffer", (size_t)g_want + 1); g_file = (uint8_t*)v_symbuf("file", (size_t)0x1fffffffe); g_old = g_buf[g_t]; g_tot = 0; g_end = 0;
  GHandle h; g_pos = v_range("left-by-others", 0, 0x7fffffff); ThreadSharedDataHandle a(h), b(a); int64_t other = (long long)b.position(); v_check(other == g_pos, "copy-is-where-the-original-is");
  v_check((long long)a.seek(g_start) == g_start && (long long)b.position() == other, "seek-moves-this-reader-only"); g_pos = v_range("left-by-others", 0, 0x7fffffff);
  v_ghost(&g_pos, 8); v_ghost(&g_tot, 8);
  v_loop("odc::core::ThreadSharedDataHandle::read(", 0, inv, "");
  long k = a.read(g_buf, (long)g_want);
  v_check(g_end == 2 && g_tot == 0 ? k < 0 : k == g_tot, "count"); v_check((long long)a.position() == g_start + g_tot && (long long)b.position() == other, "position-advances"); v_check(imp(g_end == 0, g_tot == g_want) & imp((g_end == 1) & (g_tot > 0), g_start + g_tot == g_len), "all-there-is");
  v_check(g_buf[g_t] == (g_t < g_tot ? g_file[g_start + g_t] : g_old), "bytes-at-own-position-and-nothing-else"); v_cover(g_end == 2 ? "failed" : g_end ? "end" : "done");
}
