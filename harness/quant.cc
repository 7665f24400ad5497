// C20: the documented quantization scheme end to end, with the functions of
// doc/quantization_example.cc and the library's fixed-point pipeline, judged
// in double precision.
#define main example_main
#include "doc/quantization_example.cc"
#undef main
#include "vh.h"
#include <sstream>
using vh::Rng;
typedef gemmlowp::MapOrder MO;
static const MO RM = MO::RowMajor, CM = MO::ColMajor;
static double dclamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static double unit(Rng& r) { return (r.next() >> 11) * (1.0 / 9007199254740992.0); }
// ---- quantization parameters of one range
static void judge_params(float mn, float mx, const QuantizationParams& q) {
  double lo = std::min(mn, 0.f), hi = std::max(mx, 0.f), sc = (hi - lo) / 255;
  if (!(q.scale > 0) || std::abs(q.scale - sc) > sc * 1e-5) { vh::viol("scale-wrong", "range [%g,%g] scale %g want %g", mn, mx, q.scale, sc); return; }
  double z = dclamp(-lo / sc, 0, 255);
  if (std::abs(q.zero_point - z) > 0.5 + 1e-3) vh::viol("zero-point-wrong", "range [%g,%g] zero point %d, exact %g", mn, mx, q.zero_point, z);
  // the codes must span the range up to half a step at either end
  if (q.scale * (0.0 - q.zero_point) > lo + 0.502 * sc || q.scale * (255.0 - q.zero_point) < hi - 0.502 * sc) vh::viol("range-not-covered", "range [%g,%g] scale %g zero point %d", mn, mx, q.scale, q.zero_point);
  vh::stat_add("ranges", 1);
}
static void judge_values(const QuantizationParams& q, const std::vector<float>& v, const std::vector<uint8_t>& c, float mn, float mx) {
  std::vector<float> back(v.size()); Dequantize(q, c, &back);
  for (size_t i = 0; i < v.size(); i++) {
    double e = dclamp(q.zero_point + (double)v[i] / q.scale, 0, 255);
    if (std::abs(c[i] - e) > 0.5 + 1e-4) vh::viol("code-wrong", "value %g (scale %g zero point %d) got code %d, exact %g", v[i], q.scale, q.zero_point, c[i], e);
    if (v[i] == 0 && (c[i] != q.zero_point || back[i] != 0)) vh::viol("zero-not-exact", "code %d back %g zero point %d", c[i], back[i], q.zero_point);
    double d = (double)q.scale * ((int)c[i] - (int)q.zero_point);
    if (std::abs(back[i] - d) > std::abs(d) * 1e-6) vh::viol("dequantize-wrong", "code %d (scale %g zero point %d) got %g want %g", c[i], q.scale, q.zero_point, back[i], d);
    if (v[i] >= mn && v[i] <= mx && std::abs(back[i] - (double)v[i]) > 1.01 * q.scale) vh::viol("round-trip", "value %g came back as %g, step %g", v[i], back[i], q.scale);
  }
  vh::stat_add("values", v.size());
}
static bool multiplier(float m, int32_t* q, int* s) {
  QuantizeMultiplierSmallerThanOne(m, q, s);
  bool ok = *q >= (1 << 30) && *s >= 0 && std::abs(std::ldexp((double)*q, -31 - *s) - m) <= std::ldexp(1.0, -31 - *s);
  if (!ok) vh::viol("multiplier-wrong", "real %.9g gives multiplier %d shift %d", m, *q, *s);
  vh::stat_add("multipliers", 1);
  return ok;
}
static float random_multiplier(Rng& r) {
  switch (r.range(0, 5)) {
    case 0: return std::nextafter(1.f, 0.f);
    case 1: { float f = std::ldexp(1.f, -(int)r.range(1, 40)); return r.chance(1, 3) ? f : r.chance(1, 2) ? std::nextafter(f, 0.f) : std::nextafter(f, 1.f); }
    case 2: { union { uint32_t u; float f; } x; x.u = (uint32_t)r.range(1, 0x3f7fffff); return x.f; }
    case 3: return std::numeric_limits<float>::denorm_min() * (float)r.range(1, 1000);
    default: { float f = (float)(unit(r) * 0.999 + 1e-7); return f < 1.f ? f : 0.5f; }
  }
}
static void gen(Rng& r, std::vector<float>* v, double mag) {
  int mode = (int)r.range(0, 7);
  double c = (unit(r) * 2 - 1) * mag;
  for (auto& x : *v) switch (mode) {
    case 0: x = (float)((unit(r) * 2 - 1) * mag); break;
    case 1: x = (float)(unit(r) * mag); break;
    case 2: x = (float)(-unit(r) * mag); break;
    case 3: x = r.chance(2, 3) ? 0.f : (float)((unit(r) * 2 - 1) * mag); break;
    case 4: x = (float)(c ? c : mag); break;
    case 5: x = (float)((unit(r) * 2 - 1) * mag * (r.chance(1, 20) ? 50 : 1)); break;
    case 6: x = (float)(mag * 3 + unit(r) * mag); break;
    default: x = (float)(r.chance(1, 2) ? mag : -mag / 3); break;
  }
}
template <MO LO, MO RO, MO OO> static void problem(Rng& r, gemmlowp::GemmContext* ctx, int m, int k, int n) {
  MatrixWithStorage<float, LO> fl(m, k); MatrixWithStorage<float, RO> fr(k, n); MatrixWithStorage<float, OO> fo(m, n);
  gen(r, &fl.Storage(), std::pow(10.0, (double)r.range(-6, 3))); gen(r, &fr.Storage(), std::pow(10.0, (double)r.range(-6, 3)));
  std::vector<double> real((size_t)m * n), absr((size_t)m * n);
  auto L = fl.ConstMap(); auto R = fr.ConstMap(); auto O = fo.Map();
  FloatMatrixMultiplication(L, R, &O);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    double s = 0, a = 0; for (int d = 0; d < k; d++) { double p = (double)L(i, d) * R(d, j); s += p; a += std::abs(p); }
    real[(size_t)i * n + j] = s; absr[(size_t)i * n + j] = a;
    if (std::abs(O(i, j) - s) > a * (k + 4) * 1.2e-7 + 1e-37) vh::viol("float-product-wrong", "(%d,%d) got %g want %g", i, j, O(i, j), s);
  }
  float mm[3][2]; FindMinMax(fl.Map(), &mm[0][0], &mm[0][1]); FindMinMax(fr.Map(), &mm[1][0], &mm[1][1]); FindMinMax(fo.Map(), &mm[2][0], &mm[2][1]);
  const std::vector<float>* st[3] = {&fl.Storage(), &fr.Storage(), &fo.Storage()};
  for (int t = 0; t < 3; t++) { float a = *std::min_element(st[t]->begin(), st[t]->end()), b = *std::max_element(st[t]->begin(), st[t]->end()); if (a != mm[t][0] || b != mm[t][1]) vh::viol("min-max-wrong", "got [%g,%g] want [%g,%g]", mm[t][0], mm[t][1], a, b); if (a == 0 && b == 0) { vh::stat_add("degenerate", 1); return; } }
  float omn = mm[2][0], omx = mm[2][1];
  int rm = (int)r.range(0, 3);    // the result range may be exact, too wide or too narrow
  if (rm == 1) { double f = std::pow(10.0, unit(r) * 5); omn *= f; omx *= f * 1.7; } else if (rm >= 2) { double f = std::pow(10.0, -unit(r) * 2.6); omn *= f; omx *= f * 0.8; }
  QuantizationParams ql = ChooseQuantizationParams(mm[0][0], mm[0][1]), qr = ChooseQuantizationParams(mm[1][0], mm[1][1]), qo = ChooseQuantizationParams(omn, omx);
  judge_params(mm[0][0], mm[0][1], ql); judge_params(mm[1][0], mm[1][1], qr); judge_params(omn, omx, qo);
  MatrixWithStorage<uint8_t, LO> ul(m, k); MatrixWithStorage<uint8_t, RO> ur(k, n); MatrixWithStorage<uint8_t, OO> uo(m, n);
  Quantize(ql, fl.Storage(), &ul.Storage()); Quantize(qr, fr.Storage(), &ur.Storage());
  judge_values(ql, fl.Storage(), ul.Storage(), mm[0][0], mm[0][1]); judge_values(qr, fr.Storage(), ur.Storage(), mm[1][0], mm[1][1]);
  const float M = ql.scale * qr.scale / qo.scale;
  if (!(M > 0 && M < 1)) { vh::stat_add("multiplier_out_of_scope", 1); return; }
  int32_t qm; int sh; if (!multiplier(M, &qm, &sh)) return;
  if (sh > 30) { vh::stat_add("multiplier_out_of_scope", 1); return; }
  int form = (int)r.range(0, 3);
  std::vector<int32_t> bias(form == 2 ? n : m); for (auto& b : bias) b = form ? (int32_t)r.range(-200000, 200000) : 0;
  gemmlowp::OutputStageQuantizeDownInt32ByFixedPoint down; down.result_offset_after_shift = qo.zero_point; down.result_fixedpoint_multiplier = qm; down.result_shift = sh;
  gemmlowp::OutputStageSaturatingCastToUint8 cast;
  int cl = 0, ch = 255; if (form == 3) { cl = qo.zero_point; ch = (int)r.range(cl, 255); }   // a Relu-like activation
  gemmlowp::OutputStageClamp clamp; clamp.min = cl; clamp.max = ch;
  auto UL = ul.ConstMap(); auto UR = ur.ConstMap(); auto UO = uo.Map(); const int lo = -ql.zero_point, ro = -qr.zero_point;
  typedef gemmlowp::VectorMap<const int32_t, gemmlowp::VectorShape::Col> CV; typedef gemmlowp::VectorMap<const int32_t, gemmlowp::VectorShape::Row> RV;
  gemmlowp::OutputStageBiasAddition<CV> bc; bc.bias_vector = CV(bias.data(), (int)bias.size()); gemmlowp::OutputStageBiasAddition<RV> br; br.bias_vector = RV(bias.data(), (int)bias.size());
  typedef gemmlowp::DefaultL8R8BitDepthParams B;
  if (form == 0) gemmlowp::GemmWithOutputPipeline<uint8_t, uint8_t, B>(ctx, UL, UR, &UO, lo, ro, std::make_tuple(down, cast));
  else if (form == 1) gemmlowp::GemmWithOutputPipeline<uint8_t, uint8_t, B>(ctx, UL, UR, &UO, lo, ro, std::make_tuple(bc, down, cast));
  else if (form == 2) gemmlowp::GemmWithOutputPipeline<uint8_t, uint8_t, B>(ctx, UL, UR, &UO, lo, ro, std::make_tuple(br, down, cast));
  else gemmlowp::GemmWithOutputPipeline<uint8_t, uint8_t, B>(ctx, UL, UR, &UO, lo, ro, std::make_tuple(bc, down, clamp, cast));
  std::vector<float> back(uo.Storage().size()); Dequantize(qo, uo.Storage(), &back); gemmlowp::MatrixMap<const float, OO> BK(back.data(), m, n);
  const double tol = 0.5 + (sh ? std::ldexp(0.5, -sh) : 0) + 0.002;   // the two roundings of the pipeline, and float noise
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int64_t acc = bias[form == 2 ? j : i]; double bsum = acc, el = 0;
    for (int d = 0; d < k; d++) { int a = UL(i, d) + lo, b = UR(d, j) + ro; acc += a * b; el += std::abs((double)L(i, d)) * qr.scale + std::abs((double)R(d, j)) * ql.scale + (double)ql.scale * qr.scale; }
    double want = dclamp(qo.zero_point + (double)M * acc, cl, ch);
    if (std::abs(UO(i, j) - want) > tol + std::abs((double)M * acc) * 1e-6) vh::viol("quantized-result", "form %d (%d,%d): accumulator %lld times %.9g plus zero point %d is %.4f, got %d", form, i, j, (long long)acc, M, qo.zero_point, want, UO(i, j));
    if (form != 3) {   // the end-to-end error bound of the scheme
      double exact = real[(size_t)i * n + j] + bsum * ql.scale * qr.scale, lim = qo.scale * (1.02 + 1e-6 * std::abs((double)M * acc)) + el * 1.02 + absr[(size_t)i * n + j] * 1e-5;
      double c = dclamp(exact, qo.scale * (0.0 - qo.zero_point), qo.scale * (255.0 - qo.zero_point));
      if (std::abs(BK(i, j) - c) > lim) vh::viol("real-error", "form %d (%d,%d): real product %g, quantized arithmetic %g, bound %g", form, i, j, exact, BK(i, j), lim);
    }
  }
  vh::stat_add("entries", (long long)m * n); vh::stat_add("products", 1); vh::distinct("shifts", sh); vh::distinct("cases", vh::mix(m * 4096 + n, vh::mix(k, qm)));
  vh::sample("m=%d k=%d n=%d scales %g %g %g zero points %d %d %d multiplier %g -> %d shift %d form %d first code %d", m, k, n, ql.scale, qr.scale, qo.scale, ql.zero_point, qr.zero_point, qo.zero_point, M, qm, sh, form, UO(0, 0));
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); gemmlowp::GemmContext* ctx = new gemmlowp::GemmContext; const int th[] = {1, 1, 2, 3, 4, 0};
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed, i));
    vh::set_case("params i=%ld", i);
    for (int t = 0; t < 20; t++) {
      float x = (float)((unit(r) * 2 - 1) * std::pow(10.0, (double)r.range(-20, 20))), y = (float)((unit(r) * 2 - 1) * std::pow(10.0, (double)r.range(-20, 20))); if (r.chance(1, 3)) y = x; if (r.chance(1, 4)) x = 0; if (r.chance(1, 3)) y = -x * (float)unit(r); if (r.chance(1, 5)) { int p = (int)r.range(0, 254); x = -(float)p; y = 255.f - p; if (r.chance(1, 2)) { x -= 0.5f; y -= 0.5f; } } if (x > y) std::swap(x, y); if (x == 0 && y == 0) y = 1;
      QuantizationParams q = ChooseQuantizationParams(x, y); judge_params(x, y, q);
      std::vector<float> v; v.push_back(0); v.push_back(x); v.push_back(y); for (int s = 0; s < 30; s++) { double w = x + (y - (double)x) * unit(r); if (s % 5 == 0) w = q.scale * ((double)r.range(-3, 258) - q.zero_point + (r.chance(1, 2) ? 0.499 : 0)); v.push_back((float)w); }
      std::vector<uint8_t> c(v.size()); Quantize(q, v, &c); judge_values(q, v, c, x, y);
      int32_t qm; int sh; multiplier(random_multiplier(r), &qm, &sh);
    }
    int m = (int)r.range(1, r.chance(1, 8) ? 150 : 40), n = (int)r.range(1, r.chance(1, 8) ? 150 : 40), k = (int)r.range(1, r.chance(1, 8) ? 900 : 60); if ((long)m * n * k > a.num("mac", 400000)) k = 1 + k % 20;
    vh::set_case("i=%ld m=%d k=%d n=%d", i, m, k, n);
    if (r.chance(1, 10)) { delete ctx; ctx = new gemmlowp::GemmContext; } ctx->set_max_num_threads(r.pick(th));
    switch (i % 4) { case 0: problem<RM, CM, CM>(r, ctx, m, k, n); break; case 1: problem<CM, CM, CM>(r, ctx, m, k, n); break; case 2: problem<RM, RM, RM>(r, ctx, m, k, n); break; default: problem<CM, RM, RM>(r, ctx, m, k, n); }
  }
  delete ctx;
  return vh::done();
}
