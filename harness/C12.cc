// C12: memory layouts of the C interface. Public interface only.
#include "capi.h"
using namespace H;
static void str(Tab& t, size_t c, const char* s) { std::vector<unsigned char> b(t.c[c].width, 0); ::memcpy(b.data(), s, std::min(::strlen(s), b.size())); t.put(c, b.data()); }
static const size_t N = 3;
// columns of different types and widths; every cell differs, with symbolic set one cell of each numeric column is
static bool symbolic = false;
static uint64_t pick(const char* w, uint64_t n) { return symbolic ? n - 1 : v_choose(w, n); }  // fixed layouts for symbolic values
static void fill(Tab& t, size_t wide) {
  asDoubles(false);
  t.add("i@t", INTEGER); t.add("s@t", STRING, wide); t.add("d@t", DOUBLE); t.add("z@t", STRING, 16);
  for (size_t r = 0; r < N; r++) {
    t.putI(0, symbolic && r == 1 ? v_range("i", 0, 70000) : (int64_t)(100 + r));
    std::string s = std::string("s") + char('0' + r) + "bcdefghijklmnopqrstuvwxyz"; s.resize(wide); str(t, 1, s.c_str());
    t.putD(2, symbolic && r == 2 ? v_double("d") : 0.1 * (r + 1));
    std::string z = std::string("z") + char('0' + r) + "BCDEFGHIJKLMN"; str(t, 3, z.c_str());
  }
}
static void same(const Tab& t, size_t col, size_t r, const unsigned char* g, size_t n) {
  auto& c = t.c[col]; auto& x = c.v[r];
  if (c.type == DOUBLE || c.type == REAL) { v_check(sameD(ldD(g), ldD(x.data())), "cell-at-its-address"); return; }
  v_check(::memcmp(g, x.data(), std::min(n, c.width)) == 0, "cell-at-its-address");
}
static void perm(size_t* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = 0; i + 1 < n; i++) std::swap(p[i], p[i + v_choose("perm", n - i)]); }
static void encodeArray(size_t rowsPerFrame);
// decode columns p[0..n) into one array of the library or of the caller
static void decodeArray(bool external, size_t n, bool setSizes) {
  Tab t; fill(t, 8 + 8 * pick("wide", 3)); VHandle out; enc(t, out);
  Rd1 x = openBuf(out.own, out.own.size()); ok(odc_next_frame(x.f));
  size_t p[4]; if (symbolic) for (size_t i = 0; i < 4; i++) p[i] = 3 - i; else perm(p, 4);
  bool cm = v_choose("columnMajor", 2);
  Lay l; l.cm = cm; for (size_t k = 0; k < n; k++) l.size.push_back(t.c[p[k]].width);
  odc_decoder_t* d = nullptr; ok(odc_new_decoder(&d));
  if (n == 4 && p[0] == 0 && p[1] == 1 && p[2] == 2 && p[3] == 3 && v_choose("defaults", 2)) ok(odc_decoder_defaults_from_frame(d, x.f));
  else for (size_t k = 0; k < n; k++) { std::string nm = t.c[p[k]].name; if (k == 1) nm = nm.substr(0, 1); ok(odc_decoder_add_column(d, nm.c_str())); }
  if (setSizes) for (size_t k = 0; k < n; k++) { if (t.c[p[k]].type == STRING) l.size[k] += 8; ok(odc_decoder_column_set_data_size(d, (int)k, (int)l.size[k])); }
  size_t need = 0; for (auto s : l.size) need += s;
  std::vector<unsigned char> a;
  if (external) {
    l.W = need + 8 * pick("spareWidth", 2); l.Hh = N + 2 * pick("spareHeight", 2);
    a.assign(l.W * l.Hh + 16, 0x5a);
    ok(odc_decoder_set_data_array(d, a.data() + 8, (long)l.W, (long)l.Hh, cm));
    if (pick("fewerRowsAsked", 2)) ok(odc_decoder_set_row_count(d, (long)N));  // the array stays as high as it is
  } else {
    l.W = need; l.Hh = N;
    l.Hh = N + pick("spareHeight", 2); ok(odc_decoder_set_row_count(d, (long)l.Hh));
    ok(odc_decoder_set_column_major(d, cm));
  }
  long rows = -1; ok(odc_decode(d, x.f, &rows)); v_check(rows == (long)N, "rows-decoded");
  const void* data = nullptr; long w = 0, h = 0; bool c2 = !cm; ok(odc_decoder_data_array(d, &data, &w, &h, &c2));
  v_check(w == (long)l.W && h == (long)l.Hh && c2 == cm, "array-as-reported");
  if (external) v_check(data == a.data() + 8, "the-callers-array");
  const unsigned char* b = (const unsigned char*)data;
  std::vector<bool> mine(external ? a.size() : 0, false);
  for (size_t k = 0; k < n; k++) {
    for (size_t r = 0; r < N; r++) {
      std::vector<unsigned char> g(l.size[k]); for (size_t q = 0; q < g.size(); q++) { size_t o = l.at(r, k, q); g[q] = b[o]; if (external) mine[8 + o] = true; }
      same(t, p[k], r, g.data(), g.size());
    }
    int es = 0, st = 0; const void* cd = nullptr; ok(odc_decoder_column_data_array(d, (int)k, &es, &st, &cd));
    v_check(es == (int)l.size[k] && cd == b + l.at(0, k, 0), "column-array-as-reported");
    if (!cm) v_check(st == (int)l.W, "column-stride-as-reported");
  }
  if (external) { bool clean = true; for (size_t i = 0; i < a.size(); i++) if (!mine[i]) clean = clean && a[i] == 0x5a; v_check(clean, "nothing-else-is-touched"); }
  ok(odc_free_decoder(d)); closeBuf(x); v_cover("done");
}
HARNESS(B_decode_values) { symbolic = true; decodeArray(true, 4, false); }
HARNESS(B_encode_values) { symbolic = true; encodeArray(0); }
HARNESS(B_decode_external) { decodeArray(true, 4, false); }
HARNESS(B_decode_external_sizes) { decodeArray(true, 3, true); }
HARNESS(B_decode_owned) { decodeArray(false, 4, false); }
HARNESS(B_decode_owned_sizes) { decodeArray(false, 2, true); }
// every column into an array of its own, or some of them into the common array
HARNESS(B_decode_custom) {
  Tab t; fill(t, 16); VHandle out; enc(t, out);
  Rd1 x = openBuf(out.own, out.own.size()); ok(odc_next_frame(x.f));
  size_t custom = v_choose("custom", 16), cm = v_choose("columnMajor", 2), gap = 8 * v_choose("gap", 3), deflt = v_choose("default", 2);
  odc_decoder_t* d = nullptr; ok(odc_new_decoder(&d)); ok(odc_decoder_defaults_from_frame(d, x.f)); ok(odc_decoder_set_column_major(d, cm));
  std::vector<unsigned char> a[4]; Lay l; l.cm = cm; l.Hh = N; size_t idx[4], k = 0, st[4];
  for (size_t c = 0; c < 4; c++) {
    if (!((custom >> c) & 1)) { idx[c] = k++; l.size.push_back(t.c[c].width); l.W += t.c[c].width; continue; }
    bool dense = deflt && gap == 0; st[c] = t.c[c].width + gap; a[c].assign(N * st[c] + 16, 0x5a);
    ok(odc_decoder_column_set_data_array(d, (int)c, dense && t.c[c].width == 8 ? 0 : (int)t.c[c].width, dense ? 0 : (int)st[c], a[c].data() + 8));
  }
  ok(odc_decode(d, x.f, nullptr));
  const void* data = nullptr; if (custom != 15) ok(odc_decoder_data_array(d, &data, nullptr, nullptr, nullptr));
  for (size_t c = 0; c < 4; c++) {
    for (size_t r = 0; r < N; r++) {
      if ((custom >> c) & 1) same(t, c, r, a[c].data() + 8 + r * st[c], t.c[c].width);
      else { unsigned char g[16]; for (size_t q = 0; q < t.c[c].width; q++) g[q] = ((const unsigned char*)data)[l.at(r, idx[c], q)]; same(t, c, r, g, t.c[c].width); }
    }
    bool clean = true;
    if ((custom >> c) & 1) for (size_t i = 0; i < a[c].size(); i++) { bool in = i >= 8 && (i - 8) / st[c] < N && (i - 8) % st[c] < t.c[c].width; if (!in) clean = clean && a[c][i] == 0x5a; }
    v_check(clean, "nothing-else-is-touched");
  }
  ok(odc_free_decoder(d)); closeBuf(x); v_cover("done");
}
// encode from one array
static void encodeArray(size_t rowsPerFrame) {
  Tab t; size_t cmw = 8 * v_choose("columnMajorWidth", 3);
  fill(t, cmw == 16 ? 32 : 24);
  if (cmw == 16) { Tab u; u.c.push_back(t.c[1]); u.c.push_back(t.c[3]); u.rows = N; t = u; }  // 8 byte columns do not fit there
  Lay l; l.cm = cmw != 0; l.sub = cmw; for (auto& c : t.c) { l.size.push_back(c.width); l.W += c.width; }
  l.W += 8 * pick("spareWidth", 2); l.Hh = N + 2 * pick("spareHeight", 2);
  std::vector<unsigned char> a(l.W * l.Hh, 0xa5);
  for (size_t c = 0; c < t.c.size(); c++) for (size_t r = 0; r < N; r++) for (size_t q = 0; q < t.c[c].width; q++) a[l.at(r, c, q)] = t.c[c].v[r][q];
  odc_encoder_t* e = nullptr;
  bool late = pick("columnsAfterArray", 2);
  if (late) { ok(odc_new_encoder(&e)); ok(odc_encoder_set_data_array(e, a.data(), (long)l.W, (long)l.Hh, (int)cmw)); for (size_t i = 0; i < t.c.size(); i++) { ok(odc_encoder_add_column(e, t.c[i].name.c_str(), t.c[i].type)); ok(odc_encoder_column_set_data_size(e, (int)i, (int)t.c[i].width)); } }
  else e = encoder(t);
  if (l.Hh != N || pick("setRows", 2)) ok(odc_encoder_set_row_count(e, (long)N));
  if (!late) ok(odc_encoder_set_data_array(e, a.data(), (long)l.W, (long)l.Hh, (int)cmw));
  if (rowsPerFrame) ok(odc_encoder_set_rows_per_frame(e, (long)rowsPerFrame));
  std::vector<unsigned char> o(4000); long len = -1; ok(odc_encode_to_buffer(e, o.data(), (long)o.size(), &len));
  v_check(len > 0 && len <= (long)o.size(), "encoded-size"); if (len <= 0 || len > (long)o.size()) return;
  cmpStream(o.data(), (size_t)len, t);
  // once more from another array
  std::vector<unsigned char> a2(a); for (size_t r = 0; r < N; r++) { size_t last = t.c.size() - 1; a2[l.at(r, last, 3)] = (unsigned char)('0' + r); t.c[last].v[r][3] = (unsigned char)('0' + r); }
  ok(odc_encoder_set_data_array(e, a2.data(), (long)l.W, (long)l.Hh, (int)cmw)); long len2 = -1; ok(odc_encode_to_buffer(e, o.data(), (long)o.size(), &len2));
  if (len2 > 0 && len2 <= (long)o.size()) cmpStream(o.data(), (size_t)len2, t);
  ok(odc_free_encoder(e)); v_cover("done");
}
HARNESS(B_encode_array) { encodeArray(0); }
HARNESS(B_encode_array_split) { encodeArray(1 + v_choose("rowsPerFrame", 2)); }
HARNESS(B_encode_custom) {
  Tab t; fill(t, 24); size_t gap = v_choose("gap", 4), dense = gap == 0 ? v_choose("default", 2) : 0;
  std::vector<unsigned char> a[4]; odc_encoder_t* e = encoder(t); ok(odc_encoder_set_row_count(e, (long)N));
  for (size_t c = 0; c < 4; c++) {
    size_t st = t.c[c].width + 8 * ((gap + c) % 3 ? gap : 0); a[c].assign(N * st, 0xa5);
    for (size_t r = 0; r < N; r++) ::memcpy(&a[c][r * st], t.c[c].v[r].data(), t.c[c].width);
    ok(odc_encoder_column_set_data_array(e, (int)c, dense && t.c[c].width == 8 ? 0 : (int)t.c[c].width, dense ? 0 : (int)st, a[c].data()));
  }
  ok(odc_encoder_set_rows_per_frame(e, 1 + (long)v_choose("rowsPerFrame", 3)));
  std::vector<unsigned char> o(4000); long len = -1; ok(odc_encode_to_buffer(e, o.data(), (long)o.size(), &len));
  if (len > 0 && len <= (long)o.size()) cmpStream(o.data(), (size_t)len, t); else v_fail("encoded-size");
  ok(odc_free_encoder(e)); v_cover("done");
}
// one decoder used again: another frame, another layout, another array
HARNESS(B_decoder_again) {
  asDoubles(false); Tab t; t.add("a", INTEGER); t.add("s", STRING, 16); t.add("b", INTEGER); Tab u = t;
  for (int r = 0; r < 3; r++) { t.putI(0, 10 + r); str(t, 1, r ? "first string" : "a longer string"); t.putI(2, v_range("t", 0, 9)); }
  for (int r = 0; r < 2; r++) { u.putI(0, 20 + r); str(u, 1, r ? "second string" : "other string"); u.putI(2, v_range("u", 0, 9)); }
  VHandle out; enc(t, out); enc(u, out);
  Rd1 x = openBuf(out.own, out.own.size()); ok(odc_next_frame(x.f));
  odc_decoder_t* d = nullptr; ok(odc_new_decoder(&d)); ok(odc_decoder_defaults_from_frame(d, x.f));
  bool cm = v_choose("columnMajor", 2); ok(odc_decoder_set_column_major(d, cm));
  std::vector<unsigned char> a1(32 * 3 + 8, 0x5a), a2(48 * 4 + 8, 0x5a);
  Lay l; l.size = {8, 16, 8}; l.W = 32; l.Hh = 3; l.cm = cm;
  bool external = v_choose("external", 2);
  if (external) ok(odc_decoder_set_data_array(d, a1.data(), 32, 3, cm));
  auto look = [&](const Tab& w) {
    const void* data = nullptr; ok(odc_decoder_data_array(d, &data, nullptr, nullptr, nullptr));
    for (size_t c = 0; c < 3; c++) for (size_t r = 0; r < w.rows; r++) { unsigned char g[16]; for (size_t q = 0; q < l.size[c]; q++) g[q] = ((const unsigned char*)data)[l.at(r, c, q)]; same(w, c, r, g, l.size[c]); }
  };
  long rows = 0; ok(odc_decode(d, x.f, &rows)); v_check(rows == 3, "rows-decoded"); look(t);
  ok(odc_next_frame(x.f));
  switch (v_choose("change", 5)) {
    case 4: if (l.Hh == 3) { ok(odc_decoder_set_row_count(d, 2)); if (!external) l.Hh = 2; } break;
    case 0: break;                                                          // the same array again, one row less
    case 1: l.cm = !cm; ok(odc_decoder_set_column_major(d, l.cm)); break;
    case 2: l.W = 48; l.Hh = 4; l.cm = !cm; ok(odc_decoder_set_data_array(d, a2.data(), 48, 4, l.cm)); break;
    default: l.W = 48; l.Hh = 4; ok(odc_decoder_set_data_array(d, a2.data(), 48, 4, cm)); l.size[1] = 24; ok(odc_decoder_column_set_data_size(d, 1, 24)); break;
  }
  ok(odc_decode(d, x.f, &rows)); v_check(rows == 2, "rows-decoded"); if (l.size[1] == 16) look(u);
  else { const void* data = nullptr; ok(odc_decoder_data_array(d, &data, nullptr, nullptr, nullptr)); for (size_t r = 0; r < 2; r++) { unsigned char g[24]; for (size_t q = 0; q < 16; q++) g[q] = ((const unsigned char*)data)[l.at(r, 1, q)]; same(u, 1, r, g, 16); for (size_t q = 0; q < 8; q++) g[q] = ((const unsigned char*)data)[l.at(r, 2, q)]; same(u, 2, r, g, 8); } }
  ok(odc_free_decoder(d)); closeBuf(x); v_cover("done");
}
