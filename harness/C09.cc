// C09: an aggregated frame decodes to the concatenation of its parts on any threads. Public interface only.
#include "pipe.h"
using namespace H;
// a handle that lets other tasks run inside its operations and notices when two are inside at once
struct YHandle : VHandle {
  int in = 0; using VHandle::VHandle;
  struct In { YHandle& h; void check(int d) { v_norace(1); h.in += d; bool one = h.in == 1; v_norace(-1); v_check(one, "handle-used-by-one-at-a-time"); } In(YHandle& x) : h(x) { check(1); v_yield(); check(0); } ~In() { v_norace(1); --h.in; v_norace(-1); } };
  long read(void* b, long n) override { In g(*this); return VHandle::read(b, n); }
  eckit::Offset position() override { In g(*this); return VHandle::position(); }
  eckit::Offset seek(const eckit::Offset& o) override { In g(*this); return VHandle::seek(o); }
  eckit::Length estimate() override { In g(*this); return VHandle::estimate(); }
};
struct Part { Tab t; };
// part p: rows of (i, d, s); kind of content and column order vary with k
static Tab part(size_t k, size_t rows, int base) {
  Tab t; asDoubles(false);
  bool swap_ = k & 4;
  if (swap_) { t.add("d", DOUBLE); t.add("i", INTEGER); } else { t.add("i", INTEGER); t.add("d", DOUBLE); }
  t.add("s", STRING, 8);
  for (size_t r = 0; r < rows; r++) {
    size_t ci = swap_ ? 1 : 0, cd = swap_ ? 0 : 1;
    t.putI(ci, (k & 1) ? base : base + (int64_t)r * ((k & 3) == 2 ? 100000 : 1)); t.putD(cd, (k & 2) ? 0.5 : base + 0.1 * r);
    unsigned char b[8] = {(unsigned char)('a' + (k & 1 ? 0 : r) + base % 7), 'z', 0}; t.put(2, b);
  }
  return t;
}
static void agg(const std::vector<Tab>& ps, size_t nthreads, bool yielding, int subset = 7) {
  VHandle out; Tab all; all.add("i", INTEGER); all.add("d", DOUBLE); all.add("s", STRING, 8);
  for (auto& t : ps) { VHandle o; enc(t, o); out.own.insert(out.own.end(), o.own.begin(), o.own.end());
    for (size_t r = 0; r < t.rows; r++) for (int c = 0; c < 3; c++) for (size_t k = 0; k < 3; k++) if (t.c[k].name == all.c[c].name) all.put(c, t.c[k].v[r].data()); }
  YHandle yin; yin.rd = out.own.data(); yin.rdlen = out.own.size();
  VHandle vin(out.own.data(), out.own.size());
  Reader rd(yielding ? (eckit::DataHandle&)yin : (eckit::DataHandle&)vin, true);
  Frame f = rd.next();
  v_check((bool)f && f.rowCount() == all.rows, "one-logical-frame");
  Tab want; for (int c = 0; c < 3; c++) if (subset >> c & 1) want.c.push_back(all.c[c]); want.rows = all.rows;
  cmpFrame(f, want, 0, nthreads);
  v_check(!rd.next(), "end");
  v_cover("done");
}
HARNESS(B_parts2) { v_sched_limit(1); size_t a = v_choose("a", 8), b = v_choose("b", 8); agg({part(a, 2, 3), part(b, 3, 50)}, 1 + v_choose("threads", 2), false); }
HARNESS(B_parts3) { v_sched_limit(1); size_t a = v_choose("a", 8), b = v_choose("b", 3), c = v_choose("c", 5); agg({part(a, 1, 3), part(b, 3, 50), part(c, 2, 90)}, 1, false); }
HARNESS(B_parts3_subset) { v_sched_limit(1); size_t a = v_choose("a", 8), b = v_choose("b", 2); agg({part(a, 1, 3), part(b * 5, 2, 50), part(0, 2, 90)}, 2, false, 1 + (int)v_choose("subset", 7)); }
HARNESS(B_parts_empty) { v_sched_limit(1); size_t z = v_choose("empty", 3); agg({part(0, z == 0 ? 0 : 2, 3), part(4, z == 1 ? 0 : 2, 50), part(1, z == 2 ? 0 : 2, 90)}, 1 + v_choose("threads", 3), false); }
HARNESS(B_threads2) { v_sched_limit(3); agg({part(0, 2, 3), part(5, 1, 50)}, 2, true); }
HARNESS(B_threads2_parts3) { v_sched_limit(3); agg({part(0, 1, 3), part(4, 1, 50), part(1, 2, 90)}, 2, false); }
HARNESS(B_threads3) { v_sched_limit(2); agg({part(0, 1, 3), part(4, 1, 50), part(1, 2, 90)}, 3, false); }
HARNESS(B_threads5) { v_sched_limit(0); agg({part(0, 1, 3), part(4, 1, 50)}, 5, false); }
HARNESS(B_threads3_yield) { v_sched_limit(1); agg({part(0, 1, 3), part(4, 1, 50), part(1, 2, 90)}, 3, true); }
HARNESS(B_threads5_T) { v_sched_limit(1); agg({part(0, 1, 3), part(4, 1, 50)}, 5, false); }
HARNESS(B_threads3_yield_T) { v_sched_limit(2); agg({part(0, 1, 3), part(4, 1, 50), part(1, 2, 90)}, 3, true); }
// zero threads: an error, or the same rows; never undecoded memory
HARNESS(B_zero_threads) {
  VHandle out; for (int k = 0; k < 2; k++) { VHandle o; enc(part(0, 2, 3), o); out.own.insert(out.own.end(), o.own.begin(), o.own.end()); }
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, true); Frame f = rd.next(); size_t n = f.rowCount();
  std::vector<int64_t> v(n, -77); std::vector<StridedData> sd; sd.emplace_back(v.data(), n, 8, 8);
  Decoder d({"i"}, sd); bool thrown = false;
  try { d.decode(f, 0); } catch (std::exception&) { thrown = true; }
  if (!thrown) for (size_t r = 0; r < n; r++) v_check(v[r] == 3 + (int64_t)(r % 2), "rows");
  v_cover("done");
}
// a part that cannot be decoded: the error reaches the caller
HARNESS(B_error_in_part) { v_sched_limit(1);
  
  VHandle out; for (int k = 0; k < 3; k++) { VHandle o; enc(part(0, 2, 3 * k), o); out.own.insert(out.own.end(), o.own.begin(), o.own.end()); }
  VHandle in(out.own.data(), out.own.size()); Reader rd(in, true); Frame f = rd.next(); size_t n = f.rowCount();
  // the marker of the first row of the chosen part is beyond the columns: decoding that part is an error
  size_t flen = out.own.size() / 3, k = v_choose("part", 3);
  std::vector<unsigned char> bad(out.own);
  { VHandle one(out.own.data(), flen); Reader r1(one, false); Frame g = r1.next(); v_check((size_t)(long long)g.length() == flen, "same-length"); }
  in.rd = bad.data();
  size_t dataLen = 0; { int64_t x; ::memcpy(&x, &bad[5 + 4 + 4 + 4 + 4 + 32 + 4], 8); dataLen = (size_t)x; }
  bad[k * flen + flen - dataLen] = 0x7f;
  std::vector<int64_t> v(n, -77); std::vector<StridedData> sd; sd.emplace_back(v.data(), n, 8, 8);
  Decoder d({"i"}, sd); bool thrown = false;
  try { d.decode(f, 1 + v_choose("threads", 3)); } catch (std::exception&) { thrown = true; }
  v_check(thrown, "error-reported"); v_cover("done");
}
