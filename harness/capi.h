// The C interface: memory layouts as its documentation gives them, written independently of odc.cc.
#pragma once
#include "pipe.h"
#include "odc/api/odc.h"
namespace H {
inline void ok(int rc, const char* what = "call-succeeds") { v_check(rc == ODC_SUCCESS, what); if (rc != ODC_SUCCESS) v_stop(); }
// address of byte b of the cell of (row, column k): columns of the given sizes in a matrix W bytes wide and Hh rows high
struct Lay {
  bool cm = false; size_t W = 0, Hh = 0, sub = 8; std::vector<size_t> size;
  size_t at(size_t row, size_t k, size_t b) const {
    size_t off = 0; for (size_t j = 0; j < k; j++) off += size[j];
    return cm ? off * Hh + (b / sub) * sub * Hh + row * sub + b % sub : row * W + off + b;
  }
};
// encoder with the columns of t and their sizes
inline odc_encoder_t* encoder(const Tab& t) {
  odc_encoder_t* e = nullptr; ok(odc_new_encoder(&e));
  for (size_t i = 0; i < t.c.size(); i++) {
    ok(odc_encoder_add_column(e, t.c[i].name.c_str(), t.c[i].type));
    if (t.c[i].width != 8) ok(odc_encoder_column_set_data_size(e, (int)i, (int)t.c[i].width));
    for (auto& b : t.c[i].bits) ok(odc_encoder_column_add_bitfield(e, (int)i, b.name.c_str(), b.size));
  }
  return e;
}
struct Rd1 { odc_reader_t* r = nullptr; odc_frame_t* f = nullptr; };
inline Rd1 openBuf(const std::vector<unsigned char>& b, size_t len) { Rd1 x; ok(odc_open_buffer(&x.r, b.data(), (long)len)); ok(odc_new_frame(&x.f, x.r)); return x; }
inline void closeBuf(Rd1& x) { ok(odc_free_frame(x.f)); ok(odc_close(x.r)); }
}  // namespace H
