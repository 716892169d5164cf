// C06, contracts of what reads data that may be damaged: for a stream of any length with any bytes, read from any place in it,
// every read either reports an error or gives what lies within the stream, moves on by exactly that, and touches no other memory.
#include "hlib.h"
#include "odc/ODBAPISettings.h"
#include "odc/codec/Constant.h"
#include "odc/codec/IntegerMissing.h"
#include "odc/codec/Real.h"
#include "odc/codec/String.h"
#include "odc/core/Table.h"
#include "odc/core/Header.h"
#include "odc/core/DecodeTarget.h"
#include "odc/core/TablesReader.h"
using namespace H;
using odc::core::DataStream; using odc::core::Codec; using odc::api::StridedData;
static const uint64_t GUARD = 0x5a5a5a5a5a5a5a5aULL;
static void claim(int mode, bool ok, const char* name) { if (mode == 1) v_assume(ok); else v_check(ok, name); }
// a stream of n bytes, read up to `at`
struct Any { char* p; int64_t n, at; Any(int64_t most = 0x7fffffff) { n = v_range("length", 0, most); at = v_range("at", 0, most); v_assume(at <= n); p = (char*)v_symbuf("stream", (size_t)n); } int64_t left() const { return n - at; } };
template <typename BO> struct S : DataStream<BO> { const Any& a; S(const Any& a) : DataStream<BO>((const void*)a.p, (size_t)a.n), a(a) { this->set(a.p + a.at); } };

// ---- the reads of a stream -------------------------------------------------------------------------------------------------
template <typename BO> static void bytes() {
  Any a; S<BO> s(a); int64_t want = v_range("bytes", 0, 0x7fffffff), cap = v_range("capacity", 0, 0x7fffffff), k = v_range("byte", 0, 0x7fffffff); v_assume((want <= cap) & (k < cap)); char* to = (char*)v_symbuf("to", (size_t)cap); char old = to[k]; bool threw = false;
  try { s.readBytes(to, (size_t)want); } catch (std::exception&) { threw = true; }
  v_check(threw == (want > a.left()), "error-exactly-when-it-is-not-there"); v_check((int64_t)(long long)s.position() == a.at + (threw ? 0 : want), "moves-on-by-what-it-read");
  if (!threw && k < want) v_check(to[k] == a.p[a.at + k], "gives-the-bytes"); else v_check(to[k] == old, "nothing-else-changes");
  if (threw) v_cover("refused"); v_cover("done");
}
template <typename BO> static void count() {
  Any a; S<BO> s(a); bool threw = false; size_t c = 0; try { c = s.readCount(); } catch (std::exception&) { threw = true; }
  if (threw) { v_cover("refused"); return; }
  v_check(a.left() >= 4 && (int64_t)c <= a.left() - 4, "never-more-than-the-bytes-that-follow"); v_check((int64_t)(long long)s.position() == a.at + 4, "moves-on-by-what-it-read"); v_cover("done");
}
template <typename BO, typename T> static void value() {
  Any a; S<BO> s(a); struct { uint64_t g0; T v; char pad[16]; } x; ::memset(&x, 0x5a, sizeof x); bool threw = false; try { s.read(x.v); } catch (std::exception&) { threw = true; }
  v_check(threw == (a.left() < (int64_t)sizeof(T)), "error-exactly-when-it-is-not-there"); v_check((int64_t)(long long)s.position() == a.at + (threw ? 0 : (int64_t)sizeof(T)), "moves-on-by-what-it-read"); v_check(x.g0 == GUARD, "nothing-else-changes"); for (char c : x.pad) v_check(c == 0x5a, "nothing-else-changes");
  if (threw) v_cover("refused"); else v_cover("done");
}
HARNESS(P_stream_bytes) { if (v_choose("other", 2)) bytes<OtherByteOrder>(); else bytes<SameByteOrder>(); }
HARNESS(P_stream_count) { if (v_choose("other", 2)) count<OtherByteOrder>(); else count<SameByteOrder>(); }
HARNESS(P_stream_value) { switch (v_choose("which", 4)) { case 0: value<SameByteOrder, int32_t>(); break; case 1: value<OtherByteOrder, int32_t>(); break; case 2: value<SameByteOrder, double>(); break; default: value<OtherByteOrder, double>(); } }

// lists of numbers: any number of them; g_cur  position in the stream
namespace lists {
static char** g_cur; static char* g_p; static int64_t g_at, g_n, g_left, g_size; static char* g_items;
template <typename T> static void resize(std::vector<T>* v, size_t n) { v_check((int64_t)n >= 0 && (int64_t)n <= g_left - 4, "no-more-elements-than-bytes-that-follow"); g_n = (int64_t)n; g_items = (char*)v_symbuf("elements", n * sizeof(T)); v->_M_impl._M_start = (T*)g_items; v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = (T*)(g_items + n * sizeof(T)); }
static void inv(int mode) { int64_t k = (int64_t)v_iter(); claim(mode, (k <= g_n) & (*g_cur == g_p + g_at + 4 + k * g_size), "list-invariant-stream"); claim(mode, 4 + k * g_size <= g_left, "list-invariant-within"); }
template <typename BO, typename T> static void proof() {
  Any a; S<BO> s(a); g_p = a.p; g_at = a.at; g_left = a.left(); g_size = sizeof(T); g_n = 0; g_cur = &s.current_; v_ghost(g_cur, 8);
  v_replace("std::vector<int, std::allocator<int>>::resize", (void*)resize<int>); v_replace("std::vector<double, std::allocator<double>>::resize", (void*)resize<double>);
  v_loop(std::is_same<BO, SameByteOrder>::value ? "void odc::core::DataStream<odc::core::SameByteOrder>::read<" : "void odc::core::DataStream<odc::core::OtherByteOrder>::read<", 0, inv, "read<");
  std::vector<T> v; bool threw = false; try { s.read(v); } catch (std::exception&) { threw = true; }
  size_t n = v.size(); v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr;
  v_check(*g_cur >= a.p + a.at && *g_cur <= a.p + a.n, "stays-within-the-stream"); if (threw) { v_cover("refused"); return; }
  v_check((int64_t)n == g_n && *g_cur - a.p == a.at + 4 + g_n * g_size, "moves-on-by-what-it-read"); v_cover("done");
}
}
HARNESS(P_stream_ints) { if (v_choose("other", 2)) lists::proof<OtherByteOrder, int>(); else lists::proof<SameByteOrder, int>(); }
HARNESS(P_stream_doubles) { if (v_choose("other", 2)) lists::proof<OtherByteOrder, double>(); else lists::proof<SameByteOrder, double>(); }

// ---- every codec: any parameters in its header, any data ---------------------------------------------------------------------
template <typename BO> static void cell(const char* name, odc::api::ColumnType type, size_t width, size_t header, size_t most) {
  odc::ODBAPISettings::instance().treatIntegersAsDoubles(v_choose("asDoubles", 2)); auto c = odc::core::CodecFactory::instance().build<BO>(name, type);
  { unsigned char h[64]; v_bytes(h, header, "header"); DataStream<BO> hs((const void*)h, header); try { c->load(hs); } catch (std::exception&) { v_cover("header refused"); return; } v_check((size_t)(long long)hs.position() <= header, "header-within-the-stream"); }
  if (width != 1) c->dataSizeDoubles(width); v_check(c->dataSizeDoubles() == width, "width");
  Any a; uint64_t out[8]; for (auto& x : out) x = GUARD; bool threw = false;
  S<BO> s(a); c->setDataStream(s); try { c->decode((double*)&out[2]); } catch (std::exception&) { threw = true; }
  for (size_t k = 0; k < 8; k++) if (k < 2 || k >= 2 + width) v_check(out[k] == GUARD, "nothing-but-the-cell-changes");
  int64_t used = (int64_t)(long long)s.position() - a.at; v_check(used >= 0 && used <= a.left() && used <= (int64_t)most, "stays-within-the-stream");
  if (!threw) { S<BO> t(a); c->setDataStream(t); bool st = false; try { c->skip(); } catch (std::exception&) { st = true; } v_check(!st && (int64_t)(long long)t.position() == a.at + used, "skipping-moves-on-as-decoding"); v_cover("done"); }
  else { v_check(a.left() < (int64_t)most, "enough-data-is-no-error"); v_cover("refused"); }
}
#define CELL(n, cn, ty, w, h, most) HARNESS(P_cell_##n) { cell<SameByteOrder>(cn, odc::api::ty, w, h, most); } HARNESS(P_cell_##n##_other) { cell<OtherByteOrder>(cn, odc::api::ty, w, h, most); }
CELL(constant, "constant", INTEGER, 1, 28, 0)
CELL(real_constant, "constant", REAL, 1, 28, 0)
CELL(constant_or_missing, "constant_or_missing", INTEGER, 1, 28, 1)
CELL(real_constant_or_missing, "real_constant_or_missing", REAL, 1, 28, 1)
CELL(int8, "int8", INTEGER, 1, 28, 1)
CELL(int16, "int16", INTEGER, 1, 28, 2)
CELL(int32, "int32", BITFIELD, 1, 28, 4)
CELL(int8_missing, "int8_missing", INTEGER, 1, 28, 1)
CELL(int16_missing, "int16_missing", BITFIELD, 1, 28, 2)
CELL(short_real, "short_real", REAL, 1, 28, 4)
CELL(short_real2, "short_real2", REAL, 1, 28, 4)
CELL(long_real, "long_real", DOUBLE, 1, 28, 8)
CELL(constant_string, "constant_string", STRING, 1, 32, 0)
CELL(chars, "chars", STRING, 1, 32, 8)
CELL(chars_wide, "chars", STRING, 3, 32, 24)

// ---- codecs that keep a table of strings: any number of strings of any lengths, any data ---------------------------------------
// The table (a vector) and the read of a string are entered through their contracts.
//   g_size  entries of the table    g_k  any entry    g_len  length of the string it was given last, -1 if none
namespace table {
static int64_t g_size, g_k, g_len, g_end, g_got; static std::string* g_entry; static char** g_cur; static Codec* g_codec;
template <typename BO> struct Ds : DataStream<BO> { using DataStream<BO>::DataStream; };
static void resize(std::vector<std::string>*, size_t n) { v_check((int64_t)n >= 0 && (int64_t)n <= g_end, "no-more-entries-than-the-stream-has-bytes"); g_size = (int64_t)n; }
static size_t size(const std::vector<std::string>*) { return (size_t)g_size; }
static std::string& at(std::vector<std::string>*, size_t k) { v_check((int64_t)k >= 0 && (int64_t)k < g_size, "entry-of-the-table"); if ((int64_t)k == g_k) g_len = g_got; return *g_entry; }
static const std::string& atConst(const std::vector<std::string>*, size_t k) { v_check((int64_t)k >= 0 && (int64_t)k < g_size, "entry-of-the-table"); return *g_entry; }
static std::string& atChecked(std::vector<std::string>* v, size_t k) { if ((int64_t)k < 0 || (int64_t)k >= g_size) throw std::out_of_range("vector"); return at(v, k); }
static std::string& keep(std::string* s, const std::string&) { v_check(s == g_entry, "kept-in-the-table"); return *s; }
static char* g_base;
template <typename BO> static void readString(DataStream<BO>* s, std::string& to) {
  size_t n = s->readCount(); s->advance(n); to._M_string_length = n; g_got = (int64_t)n;
}
static size_t width(int64_t len) { return len <= 0 ? 1 : (size_t)((len + 7) >> 3); }
template <typename C> static void inv(int mode) {
  C* c = static_cast<C*>(g_codec); int64_t at = *g_cur - g_base;
  claim(mode, (at >= 32) & (at <= g_end) & ((int64_t)v_iter() <= g_size) & (at >= 32 + 12 * (int64_t)v_iter()), "table-invariant-stream");
  claim(mode, (c->decodedSizeDoubles_ >= 1) & (g_len >= -1) & (g_len <= g_end) & (c->decodedSizeDoubles_ >= width(g_len)) & (c->decodedSizeDoubles_ <= width(g_end)), "table-invariant-width");
}
static void vectors() {
#define STR "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
#define VEC "std::vector<" STR ", std::allocator<" STR ">>::"
  v_replace(VEC "resize(unsigned long)", (void*)resize); v_replace(VEC "size() const", (void*)size); v_replace(VEC "operator[](unsigned long) const", (void*)atConst); v_replace(VEC "operator[](unsigned long)", (void*)at); v_replace(VEC "at(unsigned long)", (void*)atChecked);
  v_replace(STR "::operator=(" STR " const&)", (void*)keep);
}
static void gone(std::string*) {}
template <typename BO, template <typename> class C> static void load() {
  C<BO> c(odc::api::STRING); static std::string e; g_entry = &e; g_codec = &c; g_end = v_range("length", 0, 0x7fffffff); char* p = (char*)v_symbuf("stream", (size_t)g_end); g_base = p; Ds<BO> s((const void*)p, (size_t)g_end); g_cur = &s.current_;
  g_size = 0; g_k = v_range("entry", 0, 0x7fffffff); g_len = -1; g_got = 0; v_ghost(&g_len, 8); v_ghost(&g_got, 8); v_ghost(g_cur, 8); v_ghost(&c.decodedSizeDoubles_, 8);
  vectors(); v_replace(STR "::~basic_string()", (void*)gone); v_replace(std::is_same<BO, SameByteOrder>::value ? "odc::core::DataStream<odc::core::SameByteOrder>::read(" STR "&)" : "odc::core::DataStream<odc::core::OtherByteOrder>::read(" STR "&)", (void*)readString<BO>);
  v_loop("odc::codec::IntStringCodecBase<", 0, inv<C<BO>>, "read(" STR "&)");
  bool threw = false; try { static_cast<Codec&>(c).load(s); } catch (std::exception&) { threw = true; }
  if (threw) { v_cover("refused"); return; }
  v_check(*g_cur - g_base <= g_end, "header-within-the-stream"); v_check(c.decodedSizeDoubles_ >= width(g_len), "every-string-fits-its-cell"); v_cover("done");
}
template <typename BO, template <typename> class C> static void cell(size_t w, int64_t sz) {
  C<BO> c(odc::api::STRING); static std::string e(48, 's'); for (auto& x : e) x = (char)v_u8("char"); g_entry = &e; static const size_t LEN[] = {0, 1, 7, 8, 9, 16, 23, 24, 25, 40, 41}; size_t len = LEN[v_choose("characters", 11)]; e._M_string_length = len; e[len] = 0;
  g_size = v_range("strings", 0, 0x7fffffff); g_k = -1; c.decodedSizeDoubles_ = w; c.intCodec_.min((double)v_range("min", INT32_MIN, INT32_MAX)); vectors();
  Any a; uint64_t out[12]; for (auto& x : out) x = GUARD; S<BO> s(a); Codec& k = c; k.setDataStream(s); bool threw = false; try { k.decode((double*)&out[2]); } catch (std::exception&) { threw = true; }
  for (size_t i = 0; i < 12; i++) if (i < 2 || i >= 2 + w) v_check(out[i] == GUARD, "nothing-but-the-cell-changes");
  int64_t used = (int64_t)(long long)s.position() - a.at; v_check(used == (a.left() < sz ? 0 : sz), "moves-on-by-what-it-read");
  if (threw) { v_cover("refused"); return; }
  char* o = (char*)&out[2]; for (size_t i = 0; i < w * 8; i++) v_check(o[i] == (i < len ? e.data()[i] : 0), "gives-a-string-of-the-table");
  S<BO> t(a); k.setDataStream(t); k.skip(); v_check((int64_t)(long long)t.position() == a.at + sz, "skipping-moves-on-as-decoding"); v_cover("done");
}
}
HARNESS(P_strings_load8) { if (v_choose("other", 2)) table::load<OtherByteOrder, odc::codec::CodecInt8String>(); else table::load<SameByteOrder, odc::codec::CodecInt8String>(); }
HARNESS(P_strings_load16) { if (v_choose("other", 2)) table::load<OtherByteOrder, odc::codec::CodecInt16String>(); else table::load<SameByteOrder, odc::codec::CodecInt16String>(); }
HARNESS(P_strings_cell8) { table::cell<SameByteOrder, odc::codec::CodecInt8String>(1 + v_choose("width", 5), 1); }
HARNESS(P_strings_cell16) { table::cell<SameByteOrder, odc::codec::CodecInt16String>(1 + v_choose("width", 3), 2); }
HARNESS(P_strings_cell16_other) { table::cell<OtherByteOrder, odc::codec::CodecInt16String>(1 + v_choose("width", 3), 2); }

// ---- the row loop of Table::decode: any markers, any errors of the codecs and of the stream, targets of any size ------------------
// The reads and the codecs (above) and StridedData::fill (C03) are entered through their contracts.
//   g_row  rows begun    g_last[c]  row of the last value of column c
namespace rows {
static const int N = 3; static const size_t STRIDE = 16; static int64_t g_row, g_nrows, g_nelem, g_start, g_last[N]; static char* g_out[N]; static bool g_visit[N]; static bool g_bad;
struct Damaged : std::exception {};
static void damaged() { if (v_u64("damaged") & 1) { g_bad = true; throw Damaged(); } }
struct GCodec : Codec {
  int c; GCodec(int c) : Codec("ghost", odc::api::DOUBLE), c(c) {}
  using Codec::encode;
  unsigned char* encode(unsigned char* p, const double&) override { return p; }
  void clearDataStream() override {}
  void setDataStream(DataStream<SameByteOrder>&) override {}
  void setDataStream(DataStream<OtherByteOrder>&) override {}
  void decode(double* p) override { damaged(); v_check(g_visit[c], "decodes-only-what-was-asked-for"); *(uint64_t*)p = v_u64("value"); g_last[c] = g_row - 1; }
  void skip() override { damaged(); }
};
static eckit::Buffer noData(odc::core::Table*, bool) { return eckit::Buffer(8); }
static void marker(odc::core::GeneralDataStream*, unsigned char (**m)[2], size_t* n) {
  damaged(); v_check(*n == 2 && g_row < g_nrows, "reads-no-more-rows-than-the-table-has"); uint16_t s = v_u16("marker"); (**m)[0] = (unsigned char)(s >> 8); (**m)[1] = (unsigned char)s; g_row = g_row + 1; g_start = s;
}
static void fill(StridedData* d, int src, int fin) { char* p = d->get(0); int c = 0; while (c < N && !(g_visit[c] && p == g_out[c])) c++; v_check(c < N, "fills-a-target"); v_check((src >= 0) & (src <= fin) & (fin < g_nelem), "fill-rows-lie-in-the-target"); if (c < N) v_havoc_buf(g_out[c]); }
static void inv(int mode) {
  claim(mode, (g_row >= 0) & (g_row <= g_nrows) & ((uint64_t)g_row == v_iter()) & (g_start >= 0) & (g_start <= N) & ((g_row != 0) | (g_start == 0)), "decode-invariant-rows");
  for (int c = 0; c < N; c++) claim(mode, (g_last[c] >= 0) & ((g_last[c] < g_row) | ((g_row == 0) & (g_last[c] == 0))) & (g_visit[c] | (g_last[c] == 0)), "decode-invariant-last-value");
}
static void proof(int subset) {
  g_nrows = v_range("rows", 1, 0x7ffffffe); g_nelem = v_range("capacity", 0, 0x7ffffffe); VHandle h; odc::core::ThreadSharedDataHandle th(h); odc::core::Table t(th); static const char* nm[N] = {"a", "b", "c"}; t.metadata_.setSize(N); t.metadata_.rowsNumber((unsigned long long)g_nrows);
  std::vector<std::string> want; std::vector<StridedData> sd; g_row = g_start = 0; g_bad = false; v_ghost(&g_row, 8); v_ghost(&g_start, 8);
  for (int i = 0; i < N; i++) {
    t.metadata_[i]->name(nm[i]); t.metadata_[i]->coder(std::unique_ptr<Codec>(new GCodec(i))); g_visit[i] = subset >> i & 1; g_last[i] = 0; v_ghost(&g_last[i], 8);
    if (g_visit[i]) { g_out[i] = (char*)v_symbuf("out", (size_t)g_nelem * STRIDE); want.push_back(nm[i]); sd.emplace_back(g_out[i], (size_t)g_nelem, 8, STRIDE); }
  }
  v_replace("odc::core::Table::readEncodedData", (void*)noData); v_replace("void odc::core::GeneralDataStream::readBytes", (void*)marker); v_replace("odc::api::StridedDataT<char>::fill", (void*)fill); v_loop("odc::core::Table::decode", 0, inv, "readBytes");
  odc::core::DecodeTarget target(want, sd); bool threw = false; try { t.decode(target); } catch (std::exception&) { threw = true; }
  if (threw) { v_cover(g_bad ? "damaged" : "refused"); return; }
  v_check(!g_bad && g_row == g_nrows, "every-error-is-reported"); v_cover("done");
}
}
HARNESS(P_rows_all) { rows::proof(7); }
HARNESS(P_rows_none) { rows::proof(0); }
HARNESS(P_rows_second) { rows::proof(2); }
HARNESS(P_rows_outer) { rows::proof(5); }

// ---- frames: a file of any length with any bytes, whether or not its handle tells the length ------------------------------------
//   g_pos  position in the file    g_len  its length    g_sym  the buffer of the data read (its bytes are arbitrary)
namespace frames {
static int64_t g_pos, g_len, g_header, g_data, g_from, g_tables, g_next; static bool g_known; static char* g_sym; static odc::core::Table* g_table;
struct GHandle : eckit::DataHandle {
  eckit::Length openForRead() override { return 0; }
  void openForWrite(const eckit::Length&) override {}
  void openForAppend(const eckit::Length&) override {}
  long read(void* b, long n) override {
    v_check(n >= 0, "reads-forward"); if (n == 0) return 0;
    v_check(g_pos <= g_len, "reads-within-the-file"); int64_t left = g_len - g_pos, k = v_range("given", -1, INT64_MAX); v_assume((k == -1) | ((k <= n) & (k <= left) & ((k == n) | (k == left)))); if (k < 0) return k;
    if ((char*)b == g_sym) v_check((size_t)n <= v_objsize(b), "buffer-holds-it"); else v_bytes(b, v_concretize((uint64_t)n), "read");
    g_pos = g_pos + k; return k;
  }
  long write(const void*, long) override { v_check(false, "does-not-write"); return 0; }
  void close() override {}
  void flush() override {}
  void rewind() override { g_pos = 0; }
  eckit::Length size() override { return g_known ? g_len : 0; }
  eckit::Length estimate() override { return g_known ? g_len : 0; }
  eckit::Offset position() override { return g_pos; }
  eckit::Offset seek(const eckit::Offset& o) override { long long to = o; g_pos = to < g_len ? to : g_len; return g_pos; }
  bool canSeek() const override { return true; }
  void skip(const eckit::Length&) override {}
  void print(std::ostream&) const override {}
};
static void file() { g_len = v_range("length", 0, INT64_MAX / 2); g_pos = v_range("at", 0, INT64_MAX / 2); v_assume(g_pos <= g_len); g_known = v_choose("known", 2); g_from = g_pos; g_sym = nullptr; }
struct Damaged : std::exception {};
static void damaged() { if (v_u64("damaged") & 1) throw Damaged(); }
template <typename BO> static void part(DataStream<BO>* s) { damaged(); size_t left = (size_t)(s->end_ - s->current_), n = (size_t)v_range("part", 0, 0x7fffffff); v_assume(n <= left); s->current_ += n; }
template <typename BO> static void readDigest(DataStream<BO>* s, std::string&) { damaged(); s->advance(36); }  // of another length: the size that follows, arbitrary anyway, lies elsewhere or is not there
template <typename BO> static void readFlags(DataStream<BO>* s, std::vector<double>&) { part<BO>(s); }
template <typename BO> static void readProps(DataStream<BO>* s, std::map<std::string, std::string>&) { part<BO>(s); }
template <typename BO> static void readColumns(odc::core::MetaData*, DataStream<BO>& s) { part<BO>(&s); }
static bool differs(const std::string&, const std::string&) { return v_u64("digest") & 1; }
static void symBuffer(eckit::Buffer* b, size_t n) { v_check((int64_t)n >= 0 && n < ((size_t)1 << 62), "a-possible-size"); g_sym = (char*)v_symbuf("buffer", n); b->buffer_ = g_sym; b->size_ = n; }
static void noBuffer(eckit::Buffer*) {}
static void md5add(eckit::MD5*, const void* p, long n) { v_check(p == g_sym && n >= 0 && (size_t)n <= v_objsize(p), "digest-of-the-header"); }
static std::string md5digest(const eckit::MD5*) { return "d"; }
template <typename BO> static void replaceReads(const char* bo) {
  static std::string a, b, c, d, e; std::string ds = std::string("odc::core::DataStream<odc::core::") + bo + ">";
  a = ds + "::read(" STR "&)"; b = "void " + ds + "::read<double>(std::vector<double"; c = "void " + ds + "::read<" STR ", " STR ">(std::map<"; d = std::string("void odc::core::MetaData::load<odc::core::") + bo + ">";
  v_replace(a.c_str(), (void*)readDigest<BO>); v_replace(b.c_str(), (void*)readFlags<BO>); v_replace(c.c_str(), (void*)readProps<BO>); v_replace(d.c_str(), (void*)readColumns<BO>);
}
static void header() {
  file(); g_known = false; GHandle h; odc::core::MetaData md; odc::core::Properties pr; odc::core::Header hdr(md, pr);
  replaceReads<SameByteOrder>("SameByteOrder"); replaceReads<OtherByteOrder>("OtherByteOrder"); v_replace("bool std::operator!=<char, std::char_traits<char>, std::allocator<char>>(" STR " const&, " STR " const&)", (void*)differs);
  v_replace("eckit::Buffer::Buffer(unsigned long)", (void*)symBuffer); v_replace("eckit::Buffer::~Buffer", (void*)noBuffer); v_replace("eckit::MD5::add", (void*)md5add); v_replace("eckit::MD5::digest", (void*)md5digest);
  bool threw = false; try { hdr.loadAfterMagic(h); } catch (std::exception&) { threw = true; }
  v_check(g_pos >= g_from && g_pos <= g_len, "stays-within-the-file"); if (threw) { v_cover("refused"); return; }
  v_check(hdr.dataSize() <= (size_t)INT64_MAX && hdr.rowsNumber() <= hdr.dataSize() / 2, "sizes-agree"); v_check(md.rowsNumber() == hdr.rowsNumber() && md.dataSize() == hdr.dataSize(), "columns-have-the-sizes"); v_check(g_pos - g_from >= 52, "reads-the-header"); v_cover("done");
}
static bool magic(eckit::DataHandle& h) { damaged(); if (v_u64("end") & 1) { g_header = -1; return false; } v_assume(g_len - g_pos >= 5); g_pos = g_pos + 5; return true; }
static void afterMagic(odc::core::Header* h, eckit::DataHandle&) { damaged(); int64_t n = v_range("header", 52, INT64_MAX / 2); v_assume(n <= g_len - g_pos); g_pos = g_pos + n; g_header = n; g_data = v_range("data", 0, INT64_MAX); h->dataSize_ = (size_t)g_data; }
static void frame() {
  file(); GHandle h; odc::core::ThreadSharedDataHandle th(h); g_header = g_data = 0; th.seek(g_from);
  v_replace("odc::core::Header::readMagic", (void*)magic); v_replace("odc::core::Header::loadAfterMagic", (void*)afterMagic); v_replace("odc::core::ThreadSharedDataHandle::position", (void*)+[](odc::core::ThreadSharedDataHandle*) { return eckit::Offset(g_pos); });
  bool threw = false; std::unique_ptr<odc::core::Table> t; try { t = odc::core::Table::readTable(th); } catch (std::exception&) { threw = true; }
  if (threw) { v_cover("refused"); return; } if (!t) { v_check(g_header == -1, "ends-only-at-the-end"); v_cover("end"); return; }
  int64_t next = (long long)t->nextPosition(); v_check((long long)t->startPosition() == g_from && next == g_from + 5 + g_header + g_data, "frame-position"); v_check(next > g_from, "every-frame-moves-on"); v_check(!g_known || next <= g_len || g_len == 0, "frame-within-the-file"); v_cover("done");
}
// the data of a frame
static void data(bool whole) {
  file(); GHandle h; odc::core::ThreadSharedDataHandle th(h); odc::core::Table t(th); int64_t start = v_range("start", 0, INT64_MAX / 4), head = v_range("header", 57, 0x7fffffff), size = v_range("data", 0, INT64_MAX / 4);
  t.startPosition_ = start; t.dataPosition_ = start + head; t.dataSize_ = (size_t)size; t.nextPosition_ = start + head + size; int64_t want = whole ? head + size : size, at = whole ? start : start + head;
  v_replace("eckit::Buffer::Buffer(unsigned long)", (void*)symBuffer); v_replace("eckit::Buffer::~Buffer", (void*)noBuffer);
  v_replace("odc::core::ThreadSharedDataHandle::seek", (void*)+[](odc::core::ThreadSharedDataHandle*, const eckit::Offset& o) { g_pos = (long long)o; return o; });
  v_replace("odc::core::ThreadSharedDataHandle::read", (void*)+[](odc::core::ThreadSharedDataHandle*, void* b, long n) -> long { v_check((char*)b == g_sym && n >= 0 && (size_t)n <= v_objsize(b), "buffer-holds-it"); int64_t left = g_pos < g_len ? g_len - g_pos : 0; if (v_u64("fails") & 1) return -1; return n < left ? n : left; });
  bool threw = false; size_t got = 0; try { eckit::Buffer b = t.readEncodedData(whole); got = b.size(); } catch (std::exception&) { threw = true; }
  if (threw) { v_cover("refused"); return; }
  v_check(at + want <= g_len || want == 0, "data-that-is-not-there-is-an-error"); v_check((int64_t)got == want && g_pos == at, "gives-the-data"); v_cover("done");
}
}
// ---- the list of frames: any number read so far ----------------------------------------------------------------------------------
namespace frames {
static std::unique_ptr<odc::core::Table> g_back; typedef std::vector<std::unique_ptr<odc::core::Table>> List;
static size_t count(const List*) { return (size_t)g_tables; }
static bool none(const List*) { return g_tables == 0; }
static std::unique_ptr<odc::core::Table>& last(List*) { v_check(g_tables > 0, "list-not-empty"); return g_back; }
static std::unique_ptr<odc::core::Table>& add(List*, std::unique_ptr<odc::core::Table>&& t) { v_check((bool)t, "adds-a-frame"); g_tables = g_tables + 1; return t; }
static std::unique_ptr<odc::core::Table> readTable(odc::core::ThreadSharedDataHandle& h) { v_check(g_pos == g_next, "reads-behind-the-last-frame"); damaged(); g_header = 1; if (v_u64("end") & 1) return nullptr; g_header = 2; return std::unique_ptr<odc::core::Table>(new odc::core::Table(h)); }
static void list() {
  g_len = v_range("length", 0, INT64_MAX / 2); g_pos = 0; g_known = v_choose("known", 2); VHandle h; odc::core::TablesReader r(h); odc::core::ThreadSharedDataHandle th(h); g_back.reset(new odc::core::Table(th)); g_tables = v_range("frames", 0, INT64_MAX / 2); int64_t had = g_tables;
  g_next = v_range("next", 0, INT64_MAX / 2); v_assume((g_tables > 0) | (g_next == 0)); g_back->nextPosition_ = g_next; g_header = 0; int64_t idx = v_range("index", -2, INT64_MAX / 2);
#define LIST "std::vector<std::unique_ptr<odc::core::Table, std::default_delete<odc::core::Table>>, std::allocator<std::unique_ptr<odc::core::Table, std::default_delete<odc::core::Table>>>>::"
#define UPTR "std::unique_ptr<odc::core::Table, std::default_delete<odc::core::Table>>& "
  v_replace(LIST "size(", (void*)count); v_replace(LIST "empty(", (void*)none); v_replace(LIST "back(", (void*)last); v_replace(LIST "push_back(", (void*)add); v_replace(UPTR LIST "emplace_back<", (void*)add);
  v_replace("odc::core::ThreadSharedDataHandle::seek", (void*)+[](odc::core::ThreadSharedDataHandle*, const eckit::Offset& o) { long long to = o; g_pos = to < g_len ? to : g_len; return eckit::Offset(g_pos); });
  v_replace("odc::core::ThreadSharedDataHandle::estimate", (void*)+[](odc::core::ThreadSharedDataHandle*) { return eckit::Length(g_known ? g_len : 0); });
  v_replace("odc::core::Table::readTable", (void*)readTable);
  bool threw = false, got = false; try { got = r.ensureTable(idx); } catch (std::exception&) { threw = true; }
  if (threw) { v_check(g_tables == had, "nothing-added"); v_check(idx < 0 || idx >= had, "frames-read-are-there"); v_cover("refused"); return; }
  v_check(idx >= 0 && idx <= had, "reads-ahead-by-one"); if (idx < had) { v_check(got && g_header == 0 && g_tables == had, "frames-read-are-there"); v_cover("had"); return; }
  v_check(g_next <= g_len, "a-frame-cut-off-is-an-error"); v_check(got == (g_header == 2) && g_tables == had + got, "one-more-frame-unless-at-the-end"); v_cover(got ? "done" : "end");
}
}
HARNESS(P_tables) { frames::list(); }
HARNESS(P_frame_header) { frames::header(); }
HARNESS(P_frame) { frames::frame(); }
HARNESS(P_frame_data) { frames::data(false); }
HARNESS(P_frame_whole) { frames::data(true); }

// ---- the list of columns: any number of them -----------------------------------------------------------------------------------
namespace columns {
using frames::damaged; static char** g_cur; static char* g_p; static int64_t g_at, g_n, g_left, g_i, g_loaded; static odc::core::Column* g_slot; typedef std::vector<odc::core::Column*> List;
static void resize(List*, size_t n, odc::core::Column* const& c) { v_check((int64_t)n >= 0 && (int64_t)n <= g_left - 4 && !c, "no-more-columns-than-bytes-that-follow"); g_n = (int64_t)n; g_i = -1; }
static size_t size(const List*) { return (size_t)g_n; }
static void clear(List*) { g_n = 0; }
static odc::core::Column*& at(List*, size_t k) { v_check((int64_t)k >= 0 && (int64_t)k < g_n, "column-of-the-list"); if ((int64_t)k != g_i) { g_i = (int64_t)k; g_slot = nullptr; } return g_slot; }
template <typename BO> static void load(odc::core::Column* c, DataStream<BO>& s) { v_check(c == g_slot && c && g_i == g_loaded, "every-column-once-in-order"); damaged(); int64_t left = s.end_ - s.current_, n = v_range("part", 1, 0x7fffffff); v_assume(n <= left); s.current_ += n; g_loaded = g_loaded + 1; }
static void inv(int mode) { int64_t k = (int64_t)v_iter(), at = *g_cur - g_p; claim(mode, (k <= g_n) & (g_loaded == k) & (g_i == k - 1), "columns-invariant"); claim(mode, (at >= g_at + 4 + k) & (at <= g_at + g_left), "columns-invariant-within"); }
template <typename BO> static void proof() {
  Any a; S<BO> s(a); g_p = a.p; g_at = a.at; g_left = a.left(); g_n = g_loaded = 0; g_i = -1; g_cur = &s.current_; for (int64_t* g : {&g_i, &g_loaded}) v_ghost(g, 8); v_ghost(g_cur, 8);
  bool other = std::is_same<BO, OtherByteOrder>::value; odc::core::MetaData md;
#define COLS "std::vector<odc::core::Column*, std::allocator<odc::core::Column*>>::"
  v_replace(COLS "resize(", (void*)resize); v_replace(COLS "size(", (void*)size); v_replace(COLS "clear(", (void*)clear); v_replace(COLS "at(", (void*)at); v_replace(COLS "operator[](", (void*)at);
  v_replace(other ? "void odc::core::Column::load<odc::core::OtherByteOrder>" : "void odc::core::Column::load<odc::core::SameByteOrder>", (void*)load<BO>);
  v_loop("void odc::core::MetaData::load<", 0, inv, "Column::load");
  bool threw = false; try { md.load(s); } catch (std::exception&) { threw = true; }
  int64_t n = g_n; g_n = 0; v_check(*g_cur >= a.p + a.at && *g_cur <= a.p + a.n, "stays-within-the-stream"); if (threw) { v_cover("refused"); return; }
  v_check(g_loaded == n, "every-column-loaded"); v_cover("done");
}
}
HARNESS(P_columns) { if (v_choose("other", 2)) columns::proof<OtherByteOrder>(); else columns::proof<SameByteOrder>(); }
