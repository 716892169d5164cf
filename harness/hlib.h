// Shared harness helpers: work both under odcv and in the native replay build.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "odc/MDI.h"
#include "odc/api/ColumnType.h"
#include "odc/codec/CodecOptimizer.h"
#include "odc/core/Codec.h"
#include "odc/core/CodecFactory.h"
#include "odc/core/DataStream.h"
#include "odc/core/MetaData.h"
#include "v.h"

namespace H {
using odc::api::ColumnType;
using odc::core::OtherByteOrder;
using odc::core::SameByteOrder;

inline uint64_t bits(double d) { uint64_t b; ::memcpy(&b, &d, 8); return b; }
inline double asd(int64_t i) { double d; ::memcpy(&d, &i, 8); return d; }

// a memory data handle of our own: same behaviour under the verifier and natively
struct VHandle : eckit::DataHandle {
  std::vector<unsigned char> own; const unsigned char* rd = nullptr; size_t rdlen = 0, pos = 0; size_t chunk = 0;
  VHandle() {}
  VHandle(const void* p, size_t n) : rd((const unsigned char*)p), rdlen(n) {}
  eckit::Length openForRead() override { pos = 0; return (long long)rdlen; }
  void openForWrite(const eckit::Length&) override { own.clear(); pos = 0; }
  void openForAppend(const eckit::Length&) override {}
  long read(void* b, long n) override { size_t k = pos < rdlen ? rdlen - pos : 0; if ((size_t)n < k) k = (size_t)n; if (k) ::memcpy(b, rd + pos, k); pos += k; return (long)k; }
  long write(const void* b, long n) override { size_t o = own.size(); own.resize(o + (size_t)n); if (n) ::memcpy(&own[o], b, (size_t)n); pos += (size_t)n; return n; }
  void close() override {}
  void flush() override {}
  void rewind() override { pos = 0; }
  eckit::Length size() override { return (long long)rdlen; }
  eckit::Length estimate() override { return (long long)rdlen; }
  eckit::Offset position() override { return (long long)pos; }
  eckit::Offset seek(const eckit::Offset& o) override { pos = (size_t)(long long)o; return (long long)pos; }
  bool canSeek() const override { return true; }
  void skip(const eckit::Length& l) override { pos += (size_t)(long long)l; }
  void print(std::ostream&) const override {}
};
}  // namespace H
