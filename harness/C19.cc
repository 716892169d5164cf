// C19: frames of one stream can be read concurrently without mixing their data.
#include <thread>
#include "odc/core/ThreadSharedDataHandle.h"
#include "odc/core/TablesReader.h"
#include "pipe.h"
using namespace H;
using odc::core::ThreadSharedDataHandle;
// lets other tasks run inside its operations and notices when two of them are inside at once
struct YHandle : VHandle {
  int in = 0; bool opened = false, closed = false; int opens = 0, closes = 0; static int alive; using VHandle::VHandle;
  YHandle() { alive++; }
  ~YHandle() { alive--; }
  struct In { YHandle& h; void check(int d) { v_norace(1); h.in += d; bool one = h.in == 1; v_norace(-1); v_check(one, "handle-used-by-one-at-a-time"); } In(YHandle& x) : h(x) { check(1); v_yield(); check(0); } ~In() { v_norace(1); --h.in; v_norace(-1); } };
  eckit::Length openForRead() override { In g(*this); opens++; return VHandle::openForRead(); }
  void close() override { In g(*this); closes++; }
  long read(void* b, long n) override { In g(*this); return VHandle::read(b, n); }
  eckit::Offset position() override { In g(*this); return VHandle::position(); }
  eckit::Offset seek(const eckit::Offset& o) override { In g(*this); return VHandle::seek(o); }
  eckit::Length estimate() override { In g(*this); return VHandle::estimate(); }
  std::string name() const override { In g(const_cast<YHandle&>(*this)); return "Y"; }
};
int YHandle::alive = 0;
static unsigned char data[64];
static void fillData() { for (int i = 0; i < 64; i++) data[i] = (unsigned char)(i * 5 + 1); }
static void readAt(ThreadSharedDataHandle& h, size_t pos, size_t n) {
  unsigned char b[16]; ::memset(b, 0, 16);
  v_check((long long)h.position() == (long long)pos, "own-position");
  long k = h.read(b, (long)n);
  size_t want = pos >= 64 ? 0 : (64 - pos < n ? 64 - pos : n);
  v_check(k == (long)want, "read-count");
  for (size_t i = 0; i < want; i++) v_check(b[i] == data[pos + i], "bytes-at-own-position");
  v_check((long long)h.position() == (long long)(pos + want), "position-advances");
}
// any interleaving of operations of three readers (two copies and an original), in one task
static void interleaved(int ops) {
  fillData(); YHandle y; y.rd = data; y.rdlen = 64; y.pos = v_choose("start", 2) * 3;
  ThreadSharedDataHandle a(y); size_t pa = y.pos;
  ThreadSharedDataHandle b(a); ThreadSharedDataHandle c(a); c = b;
  ThreadSharedDataHandle* h[3] = {&a, &b, &c}; size_t p[3] = {pa, pa, pa};
  for (int i = 0; i < ops; i++) {
    size_t w = v_choose("who", 3);
    switch (v_choose("op", 3)) {
      case 0: { size_t n = i % 2 ? 7 : 16; readAt(*h[w], p[w], n); p[w] += p[w] + n > 64 ? 64 - p[w] : n; break; }
      case 1: { size_t to = 10 + 22 * w + i; v_check((long long)h[w]->seek((long long)to) == (long long)to, "seek-position"); p[w] = to; break; }
      default: { size_t o = (w + 1) % 3; *h[w] = *h[o]; p[w] = p[o]; }
    }
    for (int k = 0; k < 3; k++) v_check((long long)h[k]->position() == (long long)p[k], "positions-of-the-others");
  }
  for (int k = 0; k < 3; k++) readAt(*h[k], p[k], 5);
  v_cover("done");
}
HARNESS(B_interleaved3) { interleaved(3); }
HARNESS(B_interleaved4_T) { interleaved(4); }
// symbolic positions and lengths
HARNESS(B_free_positions) {
  fillData(); YHandle y; y.rd = data; y.rdlen = 64;
  ThreadSharedDataHandle a(y), b(a);
  size_t pa = (size_t)v_range("pa", 40, 60), pb = v_choose("pb", 3) * 25;
  a.seek((long long)pa); b.seek((long long)pb);
  unsigned char x[4], z[4];
  v_check(a.read(x, 4) == 4 && b.read(z, 4) == 4, "count");
  size_t k = 3;
  v_check(x[k] == data[pa + k] && z[k] == data[pb + k], "bytes-at-own-position");
  v_check(a.read(x, 4) <= 4 && (long long)b.position() == (long long)(pb + 4), "position");
  v_cover("done");
}
// two and three tasks at once, each its own copy
static void tasks(int n, int reads) {
  fillData(); YHandle y; y.rd = data; y.rdlen = 64;
  ThreadSharedDataHandle a(y);
  std::vector<std::thread> t;
  for (int i = 0; i < n; i++) t.emplace_back([h = ThreadSharedDataHandle(a), i, reads]() mutable {
    size_t p = (size_t)(i * 20);
    h.seek((long long)p);
    for (int k = 0; k < reads; k++) { readAt(h, p, 6); p += 6; }
    if (i) { v_check((long long)h.estimate() == 64, "estimate"); h.title(); }
  });
  readAt(a, 0, 9);
  for (auto& x : t) x.join();
  readAt(a, 9, 3);
  v_check((int)y.in == 0, "handle-free-at-the-end");
  v_cover("done");
}
HARNESS(B_tasks2) { v_sched_limit(3); tasks(2, 2); }
HARNESS(B_tasks3) { v_sched_limit(2); tasks(3, 1); }
// frames of one reader decoded in tasks while the reader moves on
static void framesInTasks() {
  asDoubles(false);
  Tab t[3]; YHandle y; VHandle out;
  for (int k = 0; k < 3; k++) { t[k].add("i", INTEGER); t[k].add(std::string(1, 'p' + k), INTEGER); for (int r = 0; r < 2; r++) { t[k].putI(0, 100 * k + r); t[k].putI(1, 7 * k); } VHandle o; enc(t[k], o); out.own.insert(out.own.end(), o.own.begin(), o.own.end()); }
  y.rd = out.own.data(); y.rdlen = out.own.size();
  Reader rd(y, false);
  std::vector<Frame> f; f.push_back(rd.next()); f.push_back(rd.next());
  std::thread a([&] { cmpFrame(f[0], t[0], 0); }), b([&] { cmpFrame(f[1], t[1], 0); });
  Frame g = rd.next(); cmpFrame(g, t[2], 0);
  a.join(); b.join();
  v_check(!rd.next(), "end"); v_cover("done");
}
HARNESS(B_frames_in_tasks) { v_sched_limit(1); framesInTasks(); }
HARNESS(B_frames_in_tasks_T) { v_sched_limit(2); framesInTasks(); }
// an owned handle is opened once, closed and deleted when the last reader of it goes
HARNESS(B_ownership) {
  fillData(); auto* y = new YHandle(); y->rd = data; y->rdlen = 64;
  {
    ThreadSharedDataHandle a(y); v_check(y->opens == 1, "opened-once");
    { ThreadSharedDataHandle b(a); b.seek(9); ThreadSharedDataHandle c(std::move(b)); readAt(c, 9, 4); readAt(a, 0, 4); }
    v_check(YHandle::alive == 1 && y->closes == 0, "alive-while-used"); readAt(a, 4, 4);
    ThreadSharedDataHandle d(a); { ThreadSharedDataHandle e(a); e = std::move(d); readAt(e, 8, 4); }
    readAt(a, 8, 2);
  }
  v_check(YHandle::alive == 0, "deleted-at-the-end"); v_cover("done");
}
// two iterators of one list of tables, in tasks: each table is read once, both see all
static void tablesReader() {
  asDoubles(false);
  VHandle out; for (int k = 0; k < 2; k++) { Tab t; t.add("i", INTEGER); for (int r = 0; r <= k; r++) t.putI(0, 100 * k + r); enc(t, out); }
  YHandle y; y.rd = out.own.data(); y.rdlen = out.own.size();
  odc::core::TablesReader tr(y);
  auto walk = [&] { size_t n = 0, rows = 0; for (auto it = tr.begin(); it != tr.end(); ++it) { n++; rows += it->rowCount(); } v_check(n == 2 && rows == 3, "all-tables"); };
  std::thread a(walk), b(walk); walk(); a.join(); b.join();
  v_cover("done");
}
HARNESS(B_tables_reader) { v_sched_limit(1); tablesReader(); }
HARNESS(B_tables_reader_T) { v_sched_limit(2); tablesReader(); }
