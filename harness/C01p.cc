// C01, contracts on the functions of the numeric path.
//  * stat_*   : gatherStats, the loop body of the statistics pass: an arbitrary codec state that satisfies the
//               invariant Inv(w) for an arbitrary earlier value w satisfies Inv(w) and Inv(v) after gatherStats(v).
//               By induction over the rows Inv(w) holds for every value w of the column when the pass ends.
//  * sel_*    : CodecOptimizer::setOptimalCodecs, then encode, then decode: for every state that satisfies Inv(w), the
//               codec it selects returns w. With stat_* this is the round trip of every cell of a column of any length.
//  * rt_*     : every codec by itself, both byte orders, both integer representations, the precondition of its encode.
#include "hlib.h"
#include "odc/ODBAPISettings.h"
#include "odc/codec/Constant.h"
#include "odc/codec/IntegerMissing.h"
#include "odc/codec/Real.h"
using namespace H;
using namespace odc::core;
using odc::codec::CodecLongReal;
static const int64_t MISS = 2147483647;
static bool isnan_(double d) { return d != d; }

// ---- one codec -----------------------------------------------------------------------------------------------------
struct StripInner { };
template <typename BO> static void rt(Codec& c, double in, size_t expect) {
  unsigned char buf[32]; ::memset(buf, 0xee, sizeof buf);
  unsigned char* e = c.encode(buf, in);
  v_check(e >= buf && (size_t)(e - buf) == expect, "encoded-size");
  for (int i = (int)expect; i < 32; i++) v_check(buf[i] == 0xee, "encode-stays-in-its-bytes");
  DataStream<BO> ds((const void*)buf, (size_t)(e - buf));
  c.setDataStream(ds);
  double out[2] = {7.0, 9.0};
  c.decode(out);
  v_check(out[1] == 9.0, "decode-writes-one-value");
  v_check(ds.position() == eckit::Offset((long long)expect), "decode-consumes-what-encode-wrote");
  bool same = bits(out[0]) == bits(in) || out[0] == in || (isnan_(out[0]) && isnan_(in));
  v_check(same, "roundtrip");
  DataStream<BO> ds2((const void*)buf, (size_t)(e - buf));
  c.setDataStream(ds2); c.skip();
  v_check(ds2.position() == eckit::Offset((long long)expect), "skip-consumes-the-same");
  v_cover("done");
}
template <typename BO> static void intrt(const char* cn, int64_t span, bool dbl, size_t sz, bool missing) {
  odc::ODBAPISettings::instance().treatIntegersAsDoubles(dbl);
  auto c = CodecFactory::instance().build<BO>(cn, odc::api::INTEGER);
  int64_t mn = v_range("min", INT32_MIN, INT32_MAX), v = v_range("val", INT32_MIN, INT32_MAX);
  bool m = missing && v == MISS;
  if (!m) v_assume(v >= mn && v - mn <= span);
  c->min((double)mn); c->max((double)mn); c->hasMissing(missing);
  rt<BO>(*c, dbl ? (double)v : asd(v), sz);
}
#define INTRT(n, cn, span, sz, miss) \
  HARNESS(P_rt_##n##_sd) { intrt<SameByteOrder>(cn, span, true, sz, miss); } \
  HARNESS(P_rt_##n##_od) { intrt<OtherByteOrder>(cn, span, true, sz, miss); } \
  HARNESS(P_rt_##n##_sl) { intrt<SameByteOrder>(cn, span, false, sz, miss); } \
  HARNESS(P_rt_##n##_ol) { intrt<OtherByteOrder>(cn, span, false, sz, miss); }
INTRT(constant, "constant", 0, 0, false)
INTRT(int8, "int8", 255, 1, false)
INTRT(int16, "int16", 65535, 2, false)
INTRT(int32, "int32", 1LL << 40, 4, true)
INTRT(int8m, "int8_missing", 254, 1, true)
INTRT(int16m, "int16_missing", 65534, 2, true)
INTRT(constm, "constant_or_missing", 0, 1, true)
template <typename BO> static void realrt(const char* cn, size_t sz) {
  auto c = CodecFactory::instance().build<BO>(cn, odc::api::REAL);
  std::string n(cn);
  double v;
  if (n == "long_real") v = v_double("val");
  else if (n == "constant") { v = v_double("val"); v_assume(!isnan_(v)); c->min(v); c->max(v); }
  else if (n == "real_constant_or_missing") { v = v_double("val"); double k = v_double("min"); v_assume(!isnan_(k) && (v == k || v == c->missingValue())); c->min(k); c->max(k); c->hasMissing(true); }
  else { v = (double)v_float("val"); uint32_t mi = n == "short_real" ? odc::codec::minFloatAsInt : odc::codec::real2MissingAsInt; float mf; ::memcpy(&mf, &mi, 4); v_assume(v != (double)mf); if (v_bool("missing")) v = c->missingValue(); }
  rt<BO>(*c, v, sz);
}
#define REALRT(n, cn, sz) \
  HARNESS(P_rt_##n##_s) { realrt<SameByteOrder>(cn, sz); } \
  HARNESS(P_rt_##n##_o) { realrt<OtherByteOrder>(cn, sz); }
REALRT(long_real, "long_real", 8)
REALRT(short_real, "short_real", 4)
REALRT(short_real2, "short_real2", 4)
REALRT(rconst, "constant", 0)
REALRT(rconstm, "real_constant_or_missing", 1)

// ---- statistics: invariant -------------------------------------------------------------------------------------------
struct St { bool hm; double mn, mx; bool nan, f1, f2; };
static double fmin_() { float f; uint32_t i = 0x00800000; ::memcpy(&f, &i, 4); return f; }
static double flow_() { float f; uint32_t i = 0xff7fffff; ::memcpy(&f, &i, 4); return f; }
// integers: min/max are the exact extremes seen so far, or both the missing value when none was
static bool invBaseI(const St& s) { return (s.mn == (double)MISS) == (s.mx == (double)MISS) && s.mn <= s.mx; }
static bool invI(const St& s, double w) { return invBaseI(s) && (w == (double)MISS ? s.hm : (s.mn != (double)MISS && s.mn <= w && w <= s.mx)); }
static bool invBaseR(const St& s, double miss) { return (s.mn == miss) == (s.mx == miss) && (isnan_(s.mn) == isnan_(s.mx)) && (isnan_(s.mn) || s.mn <= s.mx); }
static bool invR(const St& s, double miss, double w) {
  if (!invBaseR(s, miss)) return false;
  if (w == miss) return s.hm;
  if (isnan_(w)) return s.nan;
  if (w == fmin_() && !s.f1) return false;
  if (w == flow_() && !s.f2) return false;
  return isnan_(s.mn) || (s.mn != miss && s.mn <= w && w <= s.mx);
}
static void setSt(Codec& c, const St& s) { c.hasMissing_ = s.hm; c.min_ = s.mn; c.max_ = s.mx; }
static void setStR(Codec& c, const St& s) {
  setSt(c, s); auto& l = dynamic_cast<CodecLongReal<SameByteOrder>&>(c);
  l.hasShortRealInternalMissing_ = s.f1; l.hasShortReal2InternalMissing_ = s.f2; l.hasNaN_ = s.nan;
}
static St getSt(Codec& c) { return St{c.hasMissing_ != 0, c.min_, c.max_, false, false, false}; }
static St getStR(Codec& c) {
  St s = getSt(c); auto& l = dynamic_cast<CodecLongReal<SameByteOrder>&>(c);
  s.f1 = l.hasShortRealInternalMissing_; s.f2 = l.hasShortReal2InternalMissing_; s.nan = l.hasNaN_; return s;
}
static Column* column(MetaData& md, ColumnType t) {
  md.setSize(1); md[0]->name("a"); md[0]->type<SameByteOrder>(t); return md[0];
}
static St anyI() { St s{}; s.hm = v_bool("hasMissing"); s.mn = v_intd("min", INT32_MIN, INT32_MAX); s.mx = v_intd("max", INT32_MIN, INT32_MAX); return s; }
static St anyR() { St s{}; s.hm = v_bool("hasMissing"); s.mn = v_double("min"); s.mx = v_double("max"); s.nan = v_bool("nan"); s.f1 = v_bool("f1"); s.f2 = v_bool("f2"); return s; }
static void statI(ColumnType t, bool dbl) {
  odc::ODBAPISettings::instance().treatIntegersAsDoubles(dbl);
  MetaData md; Column* col = column(md, t); Codec& c = col->coder();
  bool first = v_bool("first");
  int64_t wi = v_range("w", INT32_MIN, INT32_MAX), vi = v_range("v", INT32_MIN, INT32_MAX);
  double w = (double)wi;
  if (!first) { St s = anyI(); v_assume(invI(s, w)); setSt(c, s); }
  c.gatherStats(dbl ? (double)vi : asd(vi));
  St s = getSt(c);
  v_check(invI(s, (double)vi), "stats-cover-the-new-value");
  if (!first) v_check(invI(s, w), "stats-keep-covering-earlier-values");
  v_cover("done");
}
HARNESS(P_stat_int_long) { statI(odc::api::INTEGER, false); }
HARNESS(P_stat_int_dbl) { statI(odc::api::INTEGER, true); }
HARNESS(P_stat_bits_long) { statI(odc::api::BITFIELD, false); }
HARNESS(P_stat_bits_dbl) { statI(odc::api::BITFIELD, true); }
static void statR(ColumnType t) {
  MetaData md; Column* col = column(md, t); Codec& c = col->coder();
  double miss = c.missingValue();
  bool first = v_bool("first");
  double w = v_double("w"), v = v_double("v");
  if (!first) { St s = anyR(); v_assume(invR(s, miss, w)); setStR(c, s); }
  c.gatherStats(v);
  St s = getStR(c);
  v_check(invR(s, miss, v), "stats-cover-the-new-value");
  if (!first) v_check(invR(s, miss, w), "stats-keep-covering-earlier-values");
  v_cover("done");
}
HARNESS(P_stat_real) { statR(odc::api::REAL); }
HARNESS(P_stat_double) { statR(odc::api::DOUBLE); }

// ---- the selected codec returns every value the statistics cover ------------------------------------------------------
static void finish(MetaData& md, double in) {
  odc::codec::CodecOptimizer().setOptimalCodecs<SameByteOrder>(md);
  Codec& c = md[0]->coder();
  unsigned char buf[32];
  unsigned char* e = c.encode(buf, in);
  v_check(e - buf <= 8, "encoded-size");
  DataStream<SameByteOrder> ds((const void*)buf, (size_t)(e - buf));
  c.setDataStream(ds);
  double out; c.decode(&out);
  v_check(bits(out) == bits(in) || out == in || (isnan_(out) && isnan_(in)), "selected-codec-roundtrip");
  v_cover("done");
}
static void selI(ColumnType t, bool dbl) {
  odc::ODBAPISettings::instance().treatIntegersAsDoubles(dbl);
  MetaData md; Column* col = column(md, t);
  St s = anyI(); int64_t w = v_range("w", INT32_MIN, INT32_MAX);
  v_assume(invI(s, (double)w)); setSt(col->coder(), s);
  finish(md, dbl ? (double)w : asd(w));
}
HARNESS(P_sel_int_long) { selI(odc::api::INTEGER, false); }
HARNESS(P_sel_int_dbl) { selI(odc::api::INTEGER, true); }
HARNESS(P_sel_bits_long) { selI(odc::api::BITFIELD, false); }
HARNESS(P_sel_bits_dbl) { selI(odc::api::BITFIELD, true); }
static void selR(ColumnType t) {
  MetaData md; Column* col = column(md, t);
  double miss = col->coder().missingValue();
  St s = anyR(); double w = t == odc::api::REAL ? (double)v_float("w") : v_double("w");
  v_assume(invR(s, miss, w));
  if (t == odc::api::REAL) v_assume(!(s.f1 && s.f2));  // both reserved values in one column: refused (see the property)
  setStR(col->coder(), s);
  finish(md, w);
}
HARNESS(P_sel_real) { selR(odc::api::REAL); }
HARNESS(P_sel_double) { selR(odc::api::DOUBLE); }
