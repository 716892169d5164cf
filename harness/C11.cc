// C11: the C interface reports every failure as an error code. Public interface only.
#include <stdexcept>
#include <sys/mman.h>
#include <unistd.h>
#include "capi.h"
using namespace H;
static int calls, code, ctxv; static void* ctx;
static void handler(void* c, int e) { calls++; code = e; ctx = c; }
static bool installed;
static void install() { installed = v_choose("handler", 2); if (installed) ok(odc_set_failure_handler(handler, &ctxv)); }
static void fails(int rc, const char* what = "failure-is-a-non-zero-code") {
  v_check(rc != ODC_SUCCESS && rc != ODC_ITERATION_COMPLETE, what);
  if (rc == ODC_SUCCESS || rc == ODC_ITERATION_COMPLETE) v_stop();
  const char* s = odc_error_string(rc); v_check(s && *s, "failure-has-a-description");
  if (installed) { v_check(calls >= 1, "failure-handler-is-called"); v_check(code == rc && ctx == &ctxv, "failure-handler-gets-code-and-context"); }
  calls = 0;
}
static void okc(int rc) { ok(rc); v_check(calls == 0, "no-failure-handler-on-success"); }
// a reader of two frames of three rows, and everything made from it
struct W { Tab t; std::vector<unsigned char> b; Rd1 x; odc_decoder_t* d = nullptr; odc_encoder_t* e = nullptr; };
static int64_t VAL[3] = {7, 8, 9};
static void str(Tab& t, size_t c, const char* s) { std::vector<unsigned char> b(t.c[c].width, 0); ::memcpy(b.data(), s, std::min(::strlen(s), b.size())); t.put(c, b.data()); }
static void table(Tab& t) {
  t.add("i@t", INTEGER); t.add("b@t", BITFIELD).bits = {{"x", 1, 0}, {"y", 3, 1}}; t.add("s@t", STRING, 16);
  for (int r = 0; r < 3; r++) { t.putI(0, 1000 * r); t.putI(1, r); str(t, 2, r == 1 ? "a string" : "some longer one"); }
}
static void world(W& w, int frames = 2) {
  asDoubles(false); table(w.t); VHandle out; for (int i = 0; i < frames; i++) enc(w.t, out, {{"key", "value"}}); w.b = out.own;
  w.x = openBuf(w.b, w.b.size()); ok(odc_next_frame(w.x.f));
  ok(odc_new_decoder(&w.d)); ok(odc_decoder_add_column(w.d, "i@t")); ok(odc_decoder_add_column(w.d, "s")); ok(odc_decoder_set_row_count(w.d, 3));
  ok(odc_new_encoder(&w.e)); ok(odc_encoder_add_column(w.e, "i", ODC_INTEGER)); ok(odc_encoder_add_column(w.e, "b", ODC_BITFIELD)); ok(odc_encoder_set_row_count(w.e, 3));
  ok(odc_encoder_column_set_data_array(w.e, 0, 8, 8, VAL)); ok(odc_encoder_column_set_data_array(w.e, 1, 8, 8, VAL)); ok(odc_encoder_column_add_bitfield(w.e, 1, "x", 5));
}
static void stillWorks(W& w) {  // a failed call leaves the others as they were
  calls = 0; long n = 0; okc(odc_frame_row_count(w.x.f, &n)); v_check(n == 3, "later-calls-work"); okc(odc_decode(w.d, w.x.f, &n)); v_check(n == 3, "later-calls-work");
  std::vector<unsigned char> o(2000); okc(odc_encode_to_buffer(w.e, o.data(), 2000, &n)); v_check(n > 0, "later-calls-work");
  ok(odc_free_decoder(w.d)); ok(odc_free_encoder(w.e)); closeBuf(w.x);
}
static int64_t outside(const char* nm, int64_t n, int64_t lo = INT32_MIN, int64_t hi = INT32_MAX) { int64_t i = v_range(nm, lo, hi); v_assume(i < 0 || i >= n); return i; }
HARNESS(B_null) {
  W w; world(w); install();
  long l; int i; double dbl; const char* s; const char* s2; const void* p; bool c; odc_frame_t* f = nullptr; unsigned char o[8];
  auto wr = [](void*, const void*, long n) -> long { return n; };
  switch (v_choose("call", 40)) {
    case 0: fails(odc_close(nullptr)); break;
    case 1: fails(odc_new_frame(&f, nullptr)); break;
    case 2: fails(odc_free_frame(nullptr)); break;
    case 3: fails(odc_next_frame(nullptr)); break;
    case 4: fails(odc_next_frame_aggregated(nullptr, -1)); break;
    case 5: fails(odc_copy_frame(nullptr, &f)); break;
    case 6: fails(odc_frame_row_count(nullptr, &l)); break;
    case 7: fails(odc_frame_column_count(nullptr, &i)); break;
    case 8: fails(odc_frame_column_attributes(nullptr, 0, &s, &i, nullptr, nullptr)); break;
    case 9: fails(odc_frame_bitfield_attributes(nullptr, 0, 0, &s, &i, nullptr)); break;
    case 10: fails(odc_frame_properties_count(nullptr, &i)); break;
    case 11: fails(odc_frame_property_idx(nullptr, 0, &s, &s2)); break;
    case 12: fails(odc_frame_property(nullptr, "key", &s)); break;
    case 13: fails(odc_decoder_defaults_from_frame(nullptr, w.x.f)); break;
    case 14: fails(odc_decoder_defaults_from_frame(w.d, nullptr)); break;
    case 15: fails(odc_decoder_set_column_major(nullptr, true)); break;
    case 16: fails(odc_decoder_set_row_count(nullptr, 1)); break;
    case 17: fails(odc_decoder_row_count(nullptr, &l)); break;
    case 18: fails(odc_decoder_set_data_array(nullptr, o, 8, 1, false)); break;
    case 19: fails(odc_decoder_data_array(nullptr, &p, &l, nullptr, &c)); break;
    case 20: fails(odc_decoder_add_column(nullptr, "i")); break;
    case 21: fails(odc_decoder_column_count(nullptr, &i)); break;
    case 22: fails(odc_decoder_column_set_data_size(nullptr, 0, 8)); break;
    case 23: fails(odc_decoder_column_set_data_array(nullptr, 0, 8, 8, o)); break;
    case 24: fails(odc_decoder_column_data_array(nullptr, 0, &i, &i, &p)); break;
    case 25: fails(odc_decode(nullptr, w.x.f, &l)); break;
    case 26: fails(odc_decode(w.d, nullptr, &l)); break;
    case 27: fails(odc_decode_threaded(nullptr, w.x.f, &l, 2)); break;
    case 28: fails(odc_decode_threaded(w.d, nullptr, &l, 2)); break;
    case 29: fails(odc_encoder_add_property(nullptr, "a", "b")); break;
    case 30: fails(odc_encoder_set_row_count(nullptr, 1)); break;
    case 31: fails(odc_encoder_set_rows_per_frame(nullptr, 1)); break;
    case 32: fails(odc_encoder_set_data_array(nullptr, o, 8, 1, 0)); break;
    case 33: fails(odc_encoder_add_column(nullptr, "a", ODC_INTEGER)); break;
    case 34: fails(odc_encoder_column_set_data_size(nullptr, 0, 8)); break;
    case 35: fails(odc_encoder_column_set_data_array(nullptr, 0, 8, 8, o)); break;
    case 36: fails(odc_encoder_column_add_bitfield(nullptr, 0, "x", 1)); break;
    case 37: fails(odc_encode_to_stream(nullptr, nullptr, wr, &l)); break;
    case 38: fails(odc_encode_to_file_descriptor(nullptr, 1, &l)); break;
    default: fails(odc_encode_to_buffer(nullptr, o, 8, &l)); break;
  }
  (void)dbl; stillWorks(w); v_cover("done");
}
// an index or a size outside its range, whichever it is
HARNESS(B_range) {
  W w; world(w); install();
  int i; const char* s; const char* s2; const void* p; unsigned char o[64];
  switch (v_choose("call", 27)) {
    case 0: fails(odc_frame_column_attributes(w.x.f, (int)outside("col", 3), &s, &i, nullptr, nullptr)); break;
    case 1: fails(odc_frame_bitfield_attributes(w.x.f, (int)outside("col", 3), 0, &s, &i, nullptr)); break;
    case 2: fails(odc_frame_bitfield_attributes(w.x.f, 1, (int)outside("field", 2), &s, &i, nullptr)); break;
    case 3: fails(odc_frame_bitfield_attributes(w.x.f, 0, 0, &s, &i, nullptr)); break;
    case 4: fails(odc_frame_property_idx(w.x.f, (int)outside("idx", 2), &s, &s2)); break;
    case 5: fails(odc_decoder_set_row_count(w.d, v_range("n", INT64_MIN, -1))); break;
    case 6: fails(odc_decoder_set_data_array(w.d, o, v_range("n", INT64_MIN, 0), 3, false)); break;
    case 7: fails(odc_decoder_set_data_array(w.d, o, 24, v_range("n", INT64_MIN, 0), false)); break;
    case 8: fails(odc_decoder_set_data_array(w.d, nullptr, 24, 3, false)); break;
    case 9: fails(odc_decoder_column_set_data_size(w.d, (int)outside("col", 2), 8)); break;
    case 10: fails(odc_decoder_column_set_data_size(w.d, 0, (int)v_range("n", INT32_MIN, -1))); break;
    case 11: fails(odc_decoder_column_set_data_array(w.d, (int)outside("col", 2), 8, 8, o)); break;
    case 12: fails(odc_decoder_column_set_data_array(w.d, 0, (int)v_range("n", INT32_MIN, -1), 8, o)); break;
    case 13: fails(odc_decoder_column_set_data_array(w.d, 0, 8, (int)v_range("n", INT32_MIN, -1), o)); break;
    case 14: fails(odc_decoder_column_data_array(w.d, (int)outside("col", 2), &i, &i, &p)); break;
    case 15: fails(odc_encoder_set_row_count(w.e, v_range("n", INT64_MIN, -1))); break;
    case 16: fails(odc_encoder_set_rows_per_frame(w.e, v_range("n", INT64_MIN, 0))); break;
    case 17: fails(odc_encoder_set_data_array(w.e, o, v_range("n", INT64_MIN, -1), 1, 0)); break;
    case 18: fails(odc_encoder_set_data_array(w.e, o, 8, v_range("n", INT64_MIN, -1), 0)); break;
    case 19: fails(odc_encoder_set_data_array(w.e, o, 8, 1, (int)v_range("n", INT32_MIN, -1))); break;
    case 20: fails(odc_encoder_column_set_data_size(w.e, (int)outside("col", 2), 8)); break;
    case 21: fails(odc_encoder_column_set_data_size(w.e, 0, (int)v_range("n", INT32_MIN, -1))); break;
    case 22: fails(odc_encoder_column_set_data_array(w.e, (int)outside("col", 2), 8, 8, o)); break;
    case 23: fails(odc_encoder_column_set_data_array(w.e, 0, 8, (int)v_range("n", INT32_MIN, -1), o)); break;
    case 24: fails(odc_encoder_column_add_bitfield(w.e, (int)outside("col", 2), "x", 1)); break;
    case 25: { int n = (int)v_range("n", INT32_MIN, INT32_MAX); v_assume(n < 0 || n > 27); fails(odc_encoder_column_add_bitfield(w.e, 1, "z", n)); break; }
    default: fails(odc_decode_threaded(w.d, w.x.f, nullptr, (int)v_range("n", INT32_MIN, 0))); break;
  }
  stillWorks(w); v_cover("done");
}
// requests that do not fit together are found when decoding or encoding
HARNESS(B_inconsistent) {
  W w; world(w); install(); std::vector<unsigned char> o(2000); long n = 0; odc_decoder_t* d = nullptr; odc_encoder_t* e = nullptr; ok(odc_new_decoder(&d)); ok(odc_new_encoder(&e));
  switch (v_choose("call", 24)) {
    case 0: ok(odc_decoder_add_column(d, "nothing")); ok(odc_decoder_set_row_count(d, 3)); fails(odc_decode(d, w.x.f, &n)); break;
    case 1: ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_add_column(d, "i@t")); ok(odc_decoder_set_row_count(d, 3)); fails(odc_decode(d, w.x.f, &n)); break;
    case 2: ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_set_row_count(d, v_range("rows", 0, 2))); fails(odc_decode(d, w.x.f, &n)); break;
    case 3: ok(odc_decoder_add_column(d, "s")); ok(odc_decoder_set_row_count(d, 3)); ok(odc_decoder_column_set_data_size(d, 0, 8)); fails(odc_decode(d, w.x.f, &n)); break;
    case 4: ok(odc_decoder_add_column(d, "s")); ok(odc_decoder_set_data_array(d, o.data(), 8, 3, v_choose("columnMajor", 2))); fails(odc_decode(d, w.x.f, &n)); break;
    case 5: ok(odc_decoder_add_column(d, "s")); ok(odc_decoder_set_data_array(d, o.data(), 16, 2, v_choose("columnMajor", 2))); fails(odc_decode(d, w.x.f, &n)); break;
    case 6: ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_set_data_array(d, o.data(), 16, 2, false)); ok(odc_decoder_set_row_count(d, 3)); fails(odc_decode(d, w.x.f, &n)); break;
    case 7: for (int k = 0; k < 4; k++) ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_set_row_count(d, 3)); fails(odc_decode(d, w.x.f, &n)); break;
    case 8: ok(odc_decoder_add_column(d, "s")); ok(odc_decoder_set_row_count(d, 3)); ok(odc_decoder_column_set_data_array(d, 0, 8 * (int)v_choose("size", 2), 8, o.data())); fails(odc_decode(d, w.x.f, &n)); break;
    case 9: ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_set_row_count(d, 3)); ok(odc_decoder_column_set_data_array(d, 0, 1 + (int)v_choose("size", 7), 8, o.data())); fails(odc_decode(d, w.x.f, &n)); break;
    case 10: fails(odc_decoder_add_column(d, nullptr)); break;
    case 11: { const void* p; fails(odc_decoder_data_array(d, &p, nullptr, nullptr, nullptr)); break; }
    case 12: fails(odc_encode_to_buffer(e, o.data(), 2000, &n)); break;                                                         // neither columns nor rows
    case 13: ok(odc_encoder_set_row_count(e, 3)); fails(odc_encode_to_buffer(e, o.data(), 2000, &n)); break;                      // no columns
    case 14: ok(odc_encoder_add_column(e, "i", ODC_INTEGER)); ok(odc_encoder_column_set_data_array(e, 0, 8, 8, VAL)); fails(odc_encode_to_buffer(e, o.data(), 2000, &n)); break;  // no rows
    case 15: ok(odc_encoder_add_column(e, "i", ODC_INTEGER)); ok(odc_encoder_set_row_count(e, 3)); fails(odc_encode_to_buffer(e, o.data(), 2000, &n)); break;                   // no data
    case 16: ok(odc_encoder_add_column(e, "i", ODC_INTEGER)); ok(odc_encoder_set_data_array(e, VAL, 8, 3, 0)); ok(odc_encoder_set_row_count(e, v_range("rows", 4, INT64_MAX))); fails(odc_encode_to_buffer(e, o.data(), 2000, &n)); break;
    case 17: ok(odc_encoder_add_column(e, "i", ODC_INTEGER)); ok(odc_encoder_add_column(e, "j", ODC_INTEGER)); ok(odc_encoder_set_data_array(e, VAL, 8, 3, 8 * (int)v_choose("columnMajor", 2))); fails(odc_encode_to_buffer(e, o.data(), 2000, &n)); break;
    case 18: fails(odc_encoder_set_data_array(e, VAL, 8, 3, 1 + (int)v_choose("columnMajorWidth", 7))); break;
    case 19: ok(odc_encoder_add_column(e, "i", ODC_INTEGER)); fails(odc_encoder_column_set_data_size(e, 0, 1 + (int)v_choose("size", 7))); break;
    case 20: ok(odc_encoder_add_column(e, "i", ODC_INTEGER)); fails(odc_encoder_column_set_data_array(e, 0, 8, 1 + (int)v_choose("stride", 7), VAL)); break;
    case 21: fails(odc_encode_to_buffer(w.e, o.data(), v_range("length", INT64_MIN, -1), &n)); break;
    case 22: fails(odc_encode_to_buffer(w.e, o.data(), (long)v_choose("length", 25) * 8, &n)); break;                            // too short for the frame
    default: { odc_reader_t* r = nullptr; fails(odc_open_buffer(&r, o.data(), v_range("length", INT64_MIN, -1))); break; }
  }
  ok(odc_free_decoder(d)); ok(odc_free_encoder(e)); stillWorks(w); v_cover("done");
}
HARNESS(B_arguments) {
  install(); double dbl; long l; (void)dbl; (void)l; const char* s;
  switch (v_choose("call", 5)) {
    case 0: { int t = (int)v_range("type", INT32_MIN, INT32_MAX); v_assume(t < 0 || t > 5); fails(odc_column_type_name(t, &s)); break; }
    case 1: { int m = (int)v_range("mode", INT32_MIN, INT32_MAX); v_assume(m != ODC_INTEGERS_AS_DOUBLES && m != ODC_INTEGERS_AS_LONGS); fails(odc_integer_behaviour(m)); break; }
    case 2: fails(odc_missing_integer(nullptr)); break;
    case 3: fails(odc_missing_double(nullptr)); break;
    default: { odc_reader_t* r = nullptr; fails(odc_open_file_descriptor(&r, v_choose("fd", 2) ? -1 : 1000)); break; }
  }
  v_cover("done");
}
// a type no column has: encoding it fails, it never ends the process
HARNESS(B_column_type) {
  asDoubles(false); install(); odc_encoder_t* e = nullptr; ok(odc_new_encoder(&e)); static const int T[] = {-1, 0, 6, 7, 100}; int rc = odc_encoder_add_column(e, "i", T[v_choose("type", 5)]);
  if (rc == ODC_SUCCESS) { ok(odc_encoder_column_set_data_array(e, 0, 8, 8, VAL)); ok(odc_encoder_set_row_count(e, 3)); std::vector<unsigned char> o(2000); long n = -1; rc = odc_encode_to_buffer(e, o.data(), 2000, &n); }
  fails(rc); ok(odc_free_encoder(e)); v_cover("done");
}
// streams: what the callbacks do
struct In { const std::vector<unsigned char>* b; size_t pos, step, bad; int how; };
static long rdcb(void* c, void* p, long n) {
  In* s = (In*)c; size_t k = std::min(std::min((size_t)n, s->step), s->b->size() - s->pos);
  if (s->how && s->pos + k > s->bad) { if (s->pos < s->bad) k = s->bad - s->pos; else { if (s->how == 1) return -1; if (s->how == 2) throw std::runtime_error("read"); if (s->how == 3) throw 7; return 0; } }
  if (k) ::memcpy(p, &(*s->b)[s->pos], k); s->pos += k; return (long)k;
}
HARNESS(B_stream_read) {
  W w; world(w); install(); size_t one = w.b.size() / 2; static const size_t STEP[] = {100000, 40, 3, 1};
  In s{&w.b, 0, STEP[v_choose("step", 4)], 0, 0}; odc_reader_t* r = nullptr; okc(odc_open_stream(&r, &s, rdcb)); odc_frame_t* f = nullptr; okc(odc_new_frame(&f, r));
  bool dec = v_choose("decode", 2);
  for (int k = 0; k < 2; k++) { okc(odc_next_frame(f)); long n = 0; okc(odc_frame_row_count(f, &n)); v_check(n == 3, "rows"); if (dec) { int64_t v[3]; odc_decoder_t* d; okc(odc_new_decoder(&d)); okc(odc_decoder_add_column(d, "i")); okc(odc_decoder_column_set_data_array(d, 0, 8, 8, v)); okc(odc_decoder_set_row_count(d, 3)); okc(odc_decode(d, f, &n)); v_check(n == 3 && v[0] == 0 && v[1] == 1000 && v[2] == 2000, "same-values-as-from-memory"); okc(odc_free_decoder(d)); } }
  v_check(odc_next_frame(f) == ODC_ITERATION_COMPLETE, "the-end-is-not-an-error"); v_check(calls == 0, "no-failure-handler-on-success"); (void)one;
  okc(odc_free_frame(f)); okc(odc_close(r)); v_cover("done");
}
HARNESS(B_stream_read_fails) {
  W w; world(w); install(); size_t one = w.b.size() / 2;
  const size_t AT[] = {0, 3, 5, 30, 57, 100, one - 10, one - 1, one, one + 3, one + 60, 2 * one - 1};
  In s{&w.b, 0, v_choose("step", 2) ? 7u : 100000u, AT[v_choose("at", 12)], 1 + (int)v_choose("how", 4)}; odc_reader_t* r = nullptr; ok(odc_open_stream(&r, &s, rdcb)); odc_frame_t* f = nullptr; ok(odc_new_frame(&f, r));
  int rc = 0, k = 0;
  for (;; k++) {
    rc = odc_next_frame(f); if (rc) break;
    int64_t v[3]; odc_decoder_t* d; ok(odc_new_decoder(&d)); ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_column_set_data_array(d, 0, 8, 8, v)); ok(odc_decoder_set_row_count(d, 3)); rc = odc_decode(d, f, nullptr); ok(odc_free_decoder(d)); if (rc) break;
  }
  v_check(k == (s.bad >= one ? 1 : 0), "frames-before-the-failure");
  if (s.how == 4 && s.bad % one == 0) v_check(rc == ODC_ITERATION_COMPLETE, "the-end-is-not-an-error");  // the stream just ends between frames
  else { fails(rc); if (s.how == 3) v_check(rc == ODC_ERROR_UNKNOWN_EXCEPTION || rc == ODC_ERROR_GENERAL_EXCEPTION, "failure-is-a-non-zero-code"); }
  ok(odc_free_frame(f)); ok(odc_close(r)); stillWorks(w); v_cover("done");
}
struct Out { std::vector<unsigned char> b; int call, at, how; };
static long wrcb(void* c, const void* p, long n) {
  Out* s = (Out*)c; if (s->how && s->call++ == s->at) { if (s->how == 1) return -1; if (s->how == 2) throw std::runtime_error("write"); if (s->how == 3) throw 7; if (s->how == 4) return 0; return n - 1; }
  size_t o = s->b.size(); s->b.resize(o + (size_t)n); if (n) ::memcpy(&s->b[o], p, (size_t)n); return n;
}
HARNESS(B_stream_write) {
  W w; world(w); install(); Out s{{}, 0, (int)v_choose("at", 4), (int)v_choose("how", 6)}; ok(odc_encoder_set_rows_per_frame(w.e, 2)); long n = -1; bool count = v_choose("count", 2);
  int rc = odc_encode_to_stream(w.e, &s, wrcb, count ? &n : nullptr);
  if (s.how == 0) { okc(rc); std::vector<unsigned char> o(2000); long m = -1; okc(odc_encode_to_buffer(w.e, o.data(), 2000, &m)); if (count) v_check(n == (long)s.b.size(), "bytes-encoded"); v_check(m == (long)s.b.size() && ::memcmp(o.data(), s.b.data(), (size_t)m) == 0, "stream-and-buffer-agree"); }
  else fails(rc);
  stillWorks(w); v_cover("done");
}
// file descriptors
HARNESS(B_descriptor) {
  W w; world(w); install(); int fd = memfd_create("v", 0); v_check(fd >= 0, "scratch"); long n = -1, m = -1; std::vector<unsigned char> o(2000);
  okc(odc_encode_to_file_descriptor(w.e, fd, &n)); okc(odc_encode_to_buffer(w.e, o.data(), 2000, &m)); v_check(n == m, "bytes-encoded");
  n = -1; okc(odc_encode_to_file_descriptor(w.e, fd, v_choose("count", 2) ? &n : nullptr)); v_check(n == m || n == -1, "bytes-encoded");
  v_check(lseek(fd, 0, SEEK_END) == 2 * m, "encoded-twice");
  odc_reader_t* r = nullptr; okc(odc_open_file_descriptor(&r, fd)); close(fd);
  odc_frame_t* f = nullptr; okc(odc_new_frame(&f, r)); int k = 0, rc;
  while ((rc = odc_next_frame(f)) == ODC_SUCCESS) { k++; int64_t v[3]; odc_decoder_t* d; okc(odc_new_decoder(&d)); okc(odc_decoder_add_column(d, "i")); okc(odc_decoder_column_set_data_array(d, 0, 8, 8, v)); okc(odc_decoder_set_row_count(d, 3)); okc(odc_decode(d, f, &n)); v_check(n == 3 && v[0] == 7 && v[1] == 8 && v[2] == 9, "same-values-as-from-memory"); okc(odc_free_decoder(d)); }
  v_check(rc == ODC_ITERATION_COMPLETE && k == 2, "the-end-is-not-an-error");
  okc(odc_free_frame(f)); okc(odc_close(r)); stillWorks(w); v_cover("done");
}
HARNESS(B_descriptor_fails) {
  W w; world(w); install(); long n;
  fails(odc_encode_to_file_descriptor(w.e, v_choose("fd", 2) ? -1 : 1000, v_choose("count", 2) ? &n : nullptr));
  stillWorks(w); v_cover("done");
}
// damaged input
HARNESS(B_damaged) {
  W w; world(w); install(); size_t one = w.b.size() / 2; std::vector<unsigned char> b(w.b);
  int64_t v[3]; odc_decoder_t* d; ok(odc_new_decoder(&d)); ok(odc_decoder_add_column(d, "i")); ok(odc_decoder_column_set_data_array(d, 0, 8, 8, v)); ok(odc_decoder_set_row_count(d, 3));
  size_t cut = b.size(); bool second = v_choose("second", 2); size_t o = second ? one : 0;
  switch (v_choose("what", 6)) {
    case 0: b[o + v_choose("at", 5)] ^= 0x40; break;           // magic
    case 1: b[o + 9 + 4 * v_choose("version", 2) + 3] = 1; break;  // version
    case 2: b[o + 25] ^= 1; break;                             // digest
    case 3: b[o + 90] ^= 1; break;                             // header
    case 4: cut = o + 1 + v_choose("cut", 6) * 40; break;      // cut in the header
    default: cut = o + one - 1 - v_choose("cut", 3); break;    // cut in the data
  }
  Rd1 x = openBuf(b, cut); bool agg = v_choose("aggregated", 2); int rc = 0, k = 0;
  for (;; k++) { rc = agg ? odc_next_frame_aggregated(x.f, 3) : odc_next_frame(x.f); if (rc) break; rc = odc_decode(d, x.f, nullptr); if (rc) break; }
  fails(rc); v_check(k <= (second ? 1 : 0), "frames-before-the-failure");
  ok(odc_free_decoder(d)); closeBuf(x); stillWorks(w); v_cover("done");
}
// success: the same as the C++ interface
static void same(odc_frame_t* f, const Frame& g) {
  long n = -1; int c = -1; okc(odc_frame_row_count(f, &n)); okc(odc_frame_column_count(f, &c)); v_check(n == (long)g.rowCount() && c == (int)g.columnCount(), "counts");
  for (int i = 0; i < c; i++) {
    const char* nm = nullptr; int t = -1, es = -1, nb = -1; okc(odc_frame_column_attributes(f, i, &nm, &t, &es, &nb)); auto& ci = g.columnInfo()[(size_t)i];
    v_check(ci.name == nm && t == (int)ci.type && es == (int)ci.decodedSize && nb == (int)ci.bitfield.size(), "column");
    okc(odc_frame_column_attributes(f, i, nullptr, nullptr, nullptr, nullptr));
    for (int k = 0; k < nb; k++) { int o = -1, s = -1; okc(odc_frame_bitfield_attributes(f, i, k, &nm, &o, &s)); auto& b = ci.bitfield[(size_t)k]; v_check(b.name == nm && o == b.offset && s == b.size, "bitfield"); okc(odc_frame_bitfield_attributes(f, i, k, nullptr, nullptr, nullptr)); }
  }
  int np = -1; okc(odc_frame_properties_count(f, &np)); v_check(np == (int)g.properties().size(), "properties");
  int k = 0; for (auto& kv : g.properties()) { const char *a = nullptr, *b = nullptr; okc(odc_frame_property_idx(f, k++, &a, &b)); v_check(a && b && kv.first == a && kv.second == b, "property"); okc(odc_frame_property(f, kv.first.c_str(), &b)); v_check(b && kv.second == b, "property"); }
  const char* none = "x"; okc(odc_frame_property(f, "absent", &none)); v_check(none == nullptr, "absent-property");
}
HARNESS(B_same_as_cpp) {
  W w; world(w, 1); install(); VHandle in(w.b.data(), w.b.size()); Reader rd(in, false); Frame g = rd.next();
  odc_frame_t* f = w.x.f; odc_frame_t* cp = nullptr; if (v_choose("copy", 2)) { okc(odc_copy_frame(f, &cp)); f = cp; }
  long n = -1; same(f, g);
  int64_t v[3]; odc_decoder_t* d; okc(odc_new_decoder(&d)); okc(odc_decoder_add_column(d, "b")); okc(odc_decoder_column_set_data_array(d, 0, 8, 8, v)); okc(odc_decoder_set_row_count(d, 3)); okc(odc_decode_threaded(d, f, &n, 1 + (int)v_choose("threads", 2))); v_check(n == 3 && v[0] == 0 && v[1] == 1 && v[2] == 2, "same-values");
  okc(odc_free_decoder(d)); if (cp) okc(odc_free_frame(cp));
  for (int q = 0; q < 2; q++) v_check(odc_next_frame(w.x.f) == ODC_ITERATION_COMPLETE, "the-end-is-not-an-error");
  v_check(calls == 0, "no-failure-handler-on-success"); v_check(*odc_error_string(ODC_ITERATION_COMPLETE) && *odc_error_string(ODC_SUCCESS), "codes-have-descriptions");
  v_cover("done");
}
HARNESS(B_every_frame) {  // one frame object for frames of other columns, bits and properties
  W w; world(w, 1); install(); VHandle o; const std::map<std::string, std::string> P[3] = {{{"k", "1"}, {"z", "last"}}, {}, {{"a", "first"}, {"k", "22"}, {"y", ""}}}; int a = v_choose("first", 3), b = v_choose("second", 3);
  for (int k : {a, b}) { Tab t; if (k == 1) { t.add("n@t", INTEGER); t.add("bits", BITFIELD).bits = {{"x", 1, 0}, {"y", 3, 1}}; t.putI(0, 4); t.putI(1, 5); } else { Col& c = t.add("f@u", BITFIELD); c.bits = {{"p", 2, 0}}; t.add("s", STRING, 16); for (int r = 0; r <= k; r++) { t.putI(0, r); unsigned char q[16] = {'a'}; t.put(1, q); } } enc(t, o, P[k]); }
  VHandle in(o.own.data(), o.own.size()); Reader rd(in, false); Rd1 x = openBuf(o.own, o.own.size()); bool idx = v_choose("look", 2);
  for (int k = 0; k < 2; k++) { Frame g = rd.next(); okc(odc_next_frame(x.f)); if (k || idx) same(x.f, g); }
  v_check(odc_next_frame(x.f) == ODC_ITERATION_COMPLETE, "end"); closeBuf(x); v_cover("done");
}
