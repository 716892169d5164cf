// C06: damaged or truncated data never causes memory errors or hangs. Public interfaces only. Memory safety of every access
// and termination are obligations the verifier adds by itself; here the inputs are made.
#include "capi.h"
#include "fmt.h"
using namespace H;
static F::Bytes n8(double d) { F::Bytes b(8); ::memcpy(b.data(), &d, 8); return b; }
// a handle that does not know how much data follows, as on a stream
struct Unknown : VHandle { using VHandle::VHandle; eckit::Length estimate() override { return 0; } };
static std::unique_ptr<VHandle> handle(const F::Bytes& b, size_t n, bool known) { return std::unique_ptr<VHandle>(known ? new VHandle(b.data(), n) : new Unknown(b.data(), n)); }
static size_t widthOf(const ColumnInfo& ci) { return ci.decodedSize; }
// every cell of the frame into guarded memory; false: an error was reported
static bool decodeAll(const Frame& f, size_t maxRows, size_t nthreads = 1, bool half = false) {
  size_t n = f.rowCount(); if (n > maxRows) return true;  // a caller that has no room does not decode
  std::vector<std::vector<unsigned char>> m; std::vector<StridedData> sd; std::vector<std::string> names; std::vector<size_t> wd; m.reserve(f.columnCount());
  size_t i = 0;
  for (auto& ci : f.columnInfo()) {
    if (half && i++ % 2) continue;
    size_t w = v_concretize(widthOf(ci)); if (w > 64) w = 64;  // then it has to be refused
    m.emplace_back(w * n + 16, (unsigned char)0x5a); wd.push_back(w); sd.emplace_back(m.back().data() + 8, n, w, w); names.push_back(ci.name);
  }
  try { Decoder d(names, sd); d.decode(f, nthreads); } catch (std::exception&) { return false; }
  for (auto& b : m) for (size_t k = 0; k < 8; k++) v_check(b[k] == 0x5a && b[b.size() - 1 - k] == 0x5a, "beyond-the-elements");
  return true;
}
struct Seen { size_t frames = 0, rows = 0; bool error = false; };
static Seen readAll(const F::Bytes& b, size_t n, bool agg, bool known, size_t maxRows = 16) {
  Seen s; auto in = handle(b, n, known);
  try {
    Reader rd(*in, agg);
    while (Frame f = rd.next()) { if (!decodeAll(f, maxRows)) { s.error = true; return s; } s.frames++; s.rows += f.rowCount(); v_check(s.frames <= n, "terminates"); }
  } catch (std::exception&) { s.error = true; }
  return s;
}
static F::Frame one(const std::string& codec, int32_t type, int rows) {
  F::Frame f; F::Column c; c.name = "a@t"; c.type = type; c.codec = codec; c.min = n8(3); c.max = n8(5); c.miss = n8(integral((ColumnType)type) ? 2147483647.0 : -2147483647.0);
  if (type == STRING) { for (auto& x : c.min) x = 'k'; c.max = c.min; c.longConstant = "a constant longer than eight"; if (codec != "chars") c.strings = {{"zero", 1, 0}, {"the second one", 7, 1}, {"", 1, 2}}; }
  c.hasMissing = codec.find("issing") != std::string::npos; f.cols.push_back(c); f.rows = rows;
  F::Column k = c; k.name = "k"; k.type = INTEGER; k.codec = "int8"; k.strings.clear(); k.min = n8(0); f.cols.push_back(k); return f;
}
static void fill(F::Frame& f) { for (int r = 0; r < f.rows; r++) { F::Row w; w.start = r == 1 ? 1 : 0; for (size_t c = w.start; c < f.cols.size(); c++) w.cell.push_back(F::Bytes(f.cols[c].cell(), (unsigned char)(f.cols[c].table() ? (f.cols[c].cell() == 1 ? r % 2 : 0) : r))); f.row.push_back(w); } }
static void redigest(F::Bytes& b, size_t dataSize) { size_t n = b.size() - 57 - dataSize; eckit::MD5 m; m.add(&b[57], (long)n); std::string s = m.digest(); ::memcpy(&b[21], s.data(), 32); }
struct Form { const char* codec; int32_t type; };
static const Form FORMS[] = {{"constant", INTEGER}, {"int8", INTEGER}, {"int16", BITFIELD}, {"int32", INTEGER}, {"int8_missing", BITFIELD}, {"int16_missing", INTEGER}, {"constant_or_missing", INTEGER}, {"real_constant_or_missing", REAL}, {"short_real", REAL}, {"short_real2", REAL}, {"long_real", DOUBLE}, {"constant_string", STRING}, {"long_constant_string", STRING}, {"chars", STRING}, {"int8_string", STRING}, {"int16_string", STRING}};

// ---- a stream cut off anywhere -------------------------------------------------------------------------------------------
static void cut(size_t k, bool agg, bool known) {
  asDoubles(false); F::Frame f = one(FORMS[k].codec, FORMS[k].type, 3), g = one(FORMS[k].codec, FORMS[k].type, 2); fill(f); fill(g); g.props["p"] = "v";
  bool other = v_choose("other", 2); F::Bytes a = F::emit(f, other), b = F::emit(g, !other); size_t la = a.size(); a.insert(a.end(), b.begin(), b.end());
  size_t n = v_choose("cut", a.size() + 1);
  Seen s = readAll(a, n, agg, known);
  if (n == 0) v_check(!s.error && s.frames == 0, "empty-stream");
  else if (n == la) v_check(!s.error && s.rows == 3, "whole-frames");
  else if (n == a.size()) v_check(!s.error && s.rows == 5, "whole-frames");
  else v_check(s.error, "a-cut-off-frame-is-an-error");
  v_cover("done");
}
HARNESS(B_cut_known) { cut(5, false, true); }
HARNESS(B_cut_unknown) { cut(2, false, false); }
HARNESS(B_cut_aggregated) { cut(3, true, false); }
HARNESS(B_cut_strings) { cut(14, v_choose("aggregated", 2), true); }
HARNESS(B_cut_constants_T) { cut(0, false, false); }
HARNESS(B_cut_chars_T) { cut(13, false, false); }
// the same through the other ways to use a frame
HARNESS(B_cut_other_uses) {
  asDoubles(false); F::Frame f = one("int16", INTEGER, 3); fill(f); F::Bytes a = F::emit(f, false); size_t dl = 0; for (auto& w : f.row) dl += 2 + (w.start ? 0 : 2) + 1;
  size_t n = a.size() - 1 - v_choose("missing", dl); bool err = false; Unknown in(a.data(), n); size_t use = v_choose("use", 4);
  try { Reader rd(in, false); Frame g = rd.next(); v_check((bool)g, "frame"); 
    if (use == 0) (void)g.span({"k"}, false); else if (use == 1) { Frame c(g); err = !decodeAll(c, 16); } else if (use == 2) (void)g.encodedData(); else err = !decodeAll(g, 16, 3);
  } catch (std::exception&) { err = true; }
  v_check(err, "a-cut-off-frame-is-an-error"); v_cover("done");
}
// ---- any bytes in the row data -------------------------------------------------------------------------------------------
static void rowdata(size_t k, int rows, size_t bytes, bool other) {
  asDoubles(v_choose("asDoubles", 2)); F::Frame f = one(FORMS[k].codec, FORMS[k].type, rows);
  F::Bytes b = F::emit(f, other); int64_t ds = (int64_t)bytes; unsigned char m[8]; ::memcpy(m, &ds, 8); for (int i = 0; i < 8; i++) b[57 + i] = other ? m[7 - i] : m[i];
  redigest(b, 0); size_t h = b.size(); b.resize(h + bytes); if (bytes) v_bytes(&b[h], bytes, "data");
  VHandle in(b.data(), b.size()); Frame g;
  try { Reader rd(in, false); g = rd.next(); } catch (std::exception&) { v_fail("opens"); return; }
  size_t use = v_choose("use", 3);
  if (use == 0) (void)decodeAll(g, 16); else if (use == 1) (void)decodeAll(g, 16, 1, true); else { try { (void)g.span({"a@t", "k"}, false); } catch (std::exception&) { v_cover("refused"); } }
  v_cover("done");
}
#define RD(n, i) HARNESS(B_rowdata_##n) { rowdata(i, 2, FORMS[i].type == STRING && i != 13 ? 5 : 8, i % 2); }
RD(constant, 0) RD(int8, 1) RD(int16, 2) RD(int32, 3) RD(int8m, 4) RD(int16m, 5) RD(constm, 6) RD(rconstm, 7) RD(short1, 8) RD(short2, 9) RD(conststr, 11) RD(longconst, 12) RD(str8, 14) RD(str16, 15)
HARNESS(B_rowdata_long) { rowdata(10, 2, 12, false); }
HARNESS(B_rowdata_chars) { rowdata(13, 2, 12, false); }
// ---- any byte of a header that passes its digest -------------------------------------------------------------------------
static void headerByte(size_t k, bool other, bool known, size_t lo, size_t hi) {
  asDoubles(false); F::Frame f = one(FORMS[k].codec, FORMS[k].type, 2); fill(f); f.flags.push_back(n8(1)); f.props["p"] = "v"; f.cols[1].type = BITFIELD; f.cols[1].bn = {"x", "y"}; f.cols[1].bs = {3, 4};
  F::Bytes b = F::emit(f, other); size_t dl = 0; for (auto& w : f.row) { dl += 2; for (auto& c : w.cell) dl += c.size(); }
  size_t n = b.size() - 57 - dl; if (hi > n) hi = n; if (lo >= hi) return;
  size_t at = 57 + lo + v_choose("at", hi - lo); b[at] = v_u8("byte"); redigest(b, dl);
  (void)readAll(b, b.size(), false, known); v_cover("done");
}
HARNESS(B_header_sizes) { headerByte(1, v_choose("other", 2), v_choose("known", 2), 0, 24); }
HARNESS(B_header_int8_1) { headerByte(1, false, true, 24, 90); }
HARNESS(B_header_int8_3) { headerByte(1, false, true, 160, 4096); }
HARNESS(B_header_str8_3) { headerByte(14, true, true, 160, 4096); }
HARNESS(B_header_int8_2_T) { headerByte(1, false, false, 90, 160); }
HARNESS(B_header_str8_1_T) { headerByte(14, true, true, 24, 90); }
HARNESS(B_header_str8_2_T) { headerByte(14, true, false, 90, 160); }
#define HB(n, i, o) HARNESS(B_header_##n##_1_T) { headerByte(i, o, true, 24, 90); } HARNESS(B_header_##n##_2_T) { headerByte(i, o, false, 90, 160); } HARNESS(B_header_##n##_3_T) { headerByte(i, o, true, 160, 4096); }
HB(longconst, 12, false) HB(chars, 13, true) HB(short1, 8, true)
// ---- any value of the three sizes in front of it, through both interfaces ------------------------------------------------
static F::Bytes sized(int which, bool other, F::Frame& f) {
  F::Bytes b = F::emit(f, other); size_t dl = 0; for (auto& w : f.row) { dl += 2; for (auto& c : w.cell) dl += c.size(); }
  size_t at = 57 + (which == 0 ? 0 : 16); v_bytes(&b[at], 8, "size"); redigest(b, dl); return b;
}
HARNESS(B_sizes) {
  asDoubles(false); F::Frame f = one("int8", INTEGER, 2); fill(f); F::Bytes b = sized((int)v_choose("which", 2), v_choose("other", 2), f);
  (void)readAll(b, b.size(), v_choose("aggregated", 2), v_choose("known", 2)); v_cover("done");
}
HARNESS(B_sizes_c) {
  asDoubles(false); F::Frame f = one(v_choose("string", 2) ? "long_constant_string" : "int8", v_choose("string", 2) ? STRING : INTEGER, 2); fill(f); F::Bytes b = sized((int)v_choose("which", 2), false, f);
  odc_reader_t* r = nullptr; odc_frame_t* g = nullptr; bool agg = v_choose("aggregated", 2);
  if (odc_open_buffer(&r, b.data(), (long)b.size()) != ODC_SUCCESS) { v_cover("refused"); return; }
  if (odc_new_frame(&g, r) == ODC_SUCCESS && (agg ? odc_next_frame_aggregated(g, 1000) : odc_next_frame(g)) == ODC_SUCCESS) {
    odc_decoder_t* d = nullptr; ok(odc_new_decoder(&d)); bool cm = v_choose("columnMajor", 2); long n = 0;
    if (odc_decoder_defaults_from_frame(d, g) == ODC_SUCCESS && odc_decoder_set_column_major(d, cm) == ODC_SUCCESS && odc_decode(d, g, &n) == ODC_SUCCESS) v_cover("decoded");
    odc_free_decoder(d);
    const void* p = nullptr; long sz = 0; (void)p; (void)sz; odc_free_frame(g);
  }
  odc_close(r); v_cover("done");
}
