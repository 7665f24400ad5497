// C14: ARM meta streams and transforms.
#include "vh.h"
#include <algorithm>
#include <cmath>
#include "meta/multi_thread_transform.h"
#include "meta/streams.h"
#include "meta/transform_kernels.h"
using vh::Rng;
namespace mt = gemmlowp::meta;
// ---- streams ----
template <int L, int R, typename S> static void stream(Rng& r, long i, bool row) {
  int c8 = R == 0 ? (int)r.range(1, 12) : (int)r.range(0, 12); if (r.chance(1, 6)) c8 = (int)r.range(1, 255); int count = c8 * 8 + R;
  int stride = (row ? count : L) + (r.chance(1, 2) ? 0 : (int)r.range(1, 40));
  S ps; memset((void*)&ps, 0, sizeof ps); ps.count = count; ps.stride = stride; ps.multiplicative_sum_offset = (int)r.range(-300, 300); ps.additive_sum_offset = (int)r.range(-1000000, 1000000);
  typedef mt::Stream<uint8_t, L, 8, R, S> St;
  size_t ext = row ? (size_t)(L - 1) * stride + count : (size_t)(count - 1) * stride + L, ps_bytes = St::PackedStride(ps);
  vh::set_case("i=%ld %s lanes %d count %d stride %d mul %d add %d", i, row ? "row" : "column", L, count, stride, ps.multiplicative_sum_offset, ps.additive_sum_offset);
  vh::GuardBuf in, out; in.alloc(ext, r.chance(2, 3)); out.alloc(ps_bytes, r.chance(2, 3));
  uint8_t* I = (uint8_t*)in.p; int dm = (int)r.range(0, 3); for (size_t q = 0; q < ext; q++) I[q] = dm == 0 ? 255 : dm == 1 ? (uint8_t)(r.chance(1, 2) ? 255 : 0) : (uint8_t)r.next();
  std::vector<uint8_t> I0(I, I + ext); memset(out.p, 0xEE, ps_bytes);
  St::Pack(I, ps, (uint8_t*)out.p);
  const uint8_t* O = (const uint8_t*)out.p; int chunks = (count + 7) / 8; long bad = 0; char b[160] = "";
  for (int c = 0; c < chunks; c++) for (int l = 0; l < L; l++) for (int e = 0; e < 8; e++) {
    int d = c * 8 + e; uint8_t w = d < count ? I0[row ? (size_t)l * stride + d : (size_t)d * stride + l] : 0, g = O[(c * L + l) * 8 + e];
    if (g != w) { if (!bad) snprintf(b, sizeof b, "lane %d element %d got %d want %d", l, d, g, w); bad++; }
  }
  for (int l = 0; l < L; l++) {
    uint32_t s = 0; for (int d = 0; d < count; d++) s += I0[row ? (size_t)l * stride + d : (size_t)d * stride + l];
    int32_t w = (int32_t)(s * (uint32_t)ps.multiplicative_sum_offset + (uint32_t)ps.additive_sum_offset), g; memcpy(&g, O + (size_t)chunks * L * 8 + 4 * l, 4);
    if (g != w) { if (!bad) snprintf(b, sizeof b, "sum of lane %d got %d want %d", l, g, w); bad++; }
  }
  if (bad) vh::viol("stream-wrong", "%ld wrong values, %s", bad, b);
  if (!in.check() || memcmp(I, &I0[0], ext)) vh::viol("stream-input-modified", ""); if (!out.check()) vh::viol("stream-wrote-outside", "");
  vh::stat_add("packs", 1); vh::stat_add("packed_elements", (long long)count * L); vh::distinct("packs", vh::mix(vh::mix(L * 8 + R, row), count * 4096 + stride));
}
template <int L, int R> static void lanes2(Rng& r, long i, int R0) { if (R0 == R) { stream<L, R, mt::RowMajorWithSum>(r, i, true); stream<L, R, mt::ColumnMajorWithSum>(r, i, false); } }
template <int L> static void lanes1(Rng& r, long i, int L0, int R0) {
  if (L0 != L) return;
  lanes2<L, 0>(r, i, R0); lanes2<L, 1>(r, i, R0); lanes2<L, 2>(r, i, R0); lanes2<L, 3>(r, i, R0); lanes2<L, 4>(r, i, R0); lanes2<L, 5>(r, i, R0); lanes2<L, 6>(r, i, R0); lanes2<L, 7>(r, i, R0);
}
// ---- transforms ----
typedef mt::SimpleContext<gemmlowp::WorkersPool> Ctx;
static int len(Rng& r) { return r.chance(1, 8) ? (int)r.range(1000, 9000) : r.chance(1, 3) ? (int)r.range(1, 16) : (int)r.range(1, 130); }
static int biglen(Rng& r) { return (int)r.range(18000, 60000); }
static double frand(Rng& r, double a) { return (double)(float)(((double)(int32_t)r.u32() / 2147483648.0) * a); }
// Both truncation and rounding to nearest are accepted, but one of the two has to explain everything a transform does.
struct Mode { long trunc_bad, near_bad, n; char tb[200], nb[200]; };
static Mode gM[3];
static void judge(int which, double x, double tol, double lo, double hi, long long got, const char* what, int idx) {
  double t0 = std::trunc(x - tol), t1 = std::trunc(x + tol), n0 = x - 0.5 - tol, n1 = x + 0.5 + tol;
  t0 = std::min(std::max(t0, lo), hi); t1 = std::min(std::max(t1, lo), hi); n0 = std::min(std::max(n0, lo), hi); n1 = std::min(std::max(n1, lo), hi);
  Mode& m = gM[which]; m.n++;
  if ((double)got < t0 || (double)got > t1) if (!m.trunc_bad++) snprintf(m.tb, sizeof m.tb, "index %d got %lld exact %.9g (%.120s)", idx, got, x, vh::st().cur);
  if ((double)got < n0 || (double)got > n1) if (!m.near_bad++) snprintf(m.nb, sizeof m.nb, "index %d got %lld exact %.9g (%.120s)", idx, got, x, vh::st().cur);
  double d0 = std::min(t0, std::floor(n0)), d1 = std::max(t1, std::ceil(n1));
  if ((double)got < d0 - (which == 2 ? tol : 0) || (double)got > d1 + (which == 2 ? tol : 0)) vh::viol("transform-wrong", "%s: index %d got %lld, exact value %.9g", what, idx, got, x);
}
static double clampd(double v, double a, double b) { return v < a ? a : v > b ? b : v; }
template <typename PP> static void go(Rng& r, PP& p, gemmlowp::WorkersPool* pool, int th) {
  if (th < 0) mt::Transform1D<PP, 16>(p); else { Ctx c(th, pool); mt::MultiThreadTransform1D<Ctx, PP, 16>(&c, p); }
}
static void xform(Rng& r, long i, gemmlowp::WorkersPool* pool, long* off0, long* off1) {
  int kind = (int)r.range(0, 4); int th = kind == 4 || r.chance(1, 2) ? -1 : (int)r.range(0, 6); int n = th >= 0 && r.chance(1, 3) ? biglen(r) : len(r);
  vh::GuardBuf in, out, bias; bool end = r.chance(2, 3); static const char* nm[] = {"Requantize", "Quantize", "Dequantize", "MinMax", "BiasAdd"};
  int rows = kind == 4 ? (int)r.range(1, 6) : 1; if (kind == 4 && n > 3000) n %= 3000; if (n < 1) n = 1;
  vh::set_case("i=%ld %s count %d rows %d threads %d", i, nm[kind], n, rows, th);
  double R1 = std::ldexp(1.0 + r.range(0, 99) / 50.0, (int)r.range(-3, 10)), R2 = r.chance(1, 2) ? R1 : std::ldexp(1.0 + r.range(0, 99) / 50.0, (int)r.range(-3, 10));
  if (kind == 0) {
    in.alloc(4 * (size_t)n, end); out.alloc(n, end); int32_t* I = (int32_t*)in.p; uint8_t* O = (uint8_t*)out.p; int sh = (int)r.range(0, 20);
    for (int q = 0; q < n; q++) I[q] = (int32_t)r.u32() >> (r.chance(1, 2) ? 0 : sh);
    mt::Transform1DParams<int32_t, uint8_t, mt::Requantize> p; memset((void*)&p, 0, sizeof p); p.input = I; p.output = O; mt::Requantize& k = p.kernel; k.count = n;
    k.input_range_min = (float)-R1; k.input_range_scale = (float)(2 * R1 / 4294967295.0); k.input_range_offset = -2147483648.0f; k.output_range_min = (float)-R2; k.one_over_output_range_scale = (float)(255.0 / (2 * R2)); k.output_range_offset = 0;
    if (r.chance(1, 4)) { k.input_range_min = (float)frand(r, R1); k.output_range_min = (float)frand(r, R2); k.input_range_offset = (float)frand(r, 2147483648.0); }
    if (r.chance(1, 4)) k.output_range_offset = (float)r.range(-60, 60);
    std::vector<int32_t> I0(I, I + n); memset(O, 0x5b, n); go(r, p, pool, th);
    long zero = 0, bad = 0; std::vector<double> X(n), T(n);
    for (int q = 0; q < n; q++) {
      double y = ((double)(float)I0[q] - k.input_range_offset) * k.input_range_scale, x = (y + k.input_range_min - k.output_range_min) * k.one_over_output_range_scale;
      double M = ((std::abs((double)I0[q]) + std::abs((double)k.input_range_offset)) * k.input_range_scale + std::abs(k.input_range_min) + std::abs(k.output_range_min)) * k.one_over_output_range_scale + std::abs(k.output_range_offset);
      X[q] = x; T[q] = M * std::ldexp(1, -20) + 1e-6; double w = clampd(x + k.output_range_offset, 0, 255), w0 = clampd(x, 0, 255);
      if (std::abs(O[q] - w) > 1 + T[q]) bad++; if (std::abs(O[q] - w0) <= 1 + T[q]) zero++;
    }
    if (k.output_range_offset != 0 && zero == n) { if (bad && !(*off0)++) vh::viol("requantize-ignores-output-range-offset", "offset %g, results are those of offset 0", k.output_range_offset); }
    else for (int q = 0; q < n; q++) judge(0, X[q] + k.output_range_offset, T[q], 0, 255, O[q], "Requantize", q);
    if (memcmp(I, &I0[0], 4 * n)) vh::viol("transform-input-modified", "");
  } else if (kind == 1) {
    in.alloc(4 * (size_t)n, end); out.alloc(n, end); float* I = (float*)in.p; uint8_t* O = (uint8_t*)out.p; for (int q = 0; q < n; q++) I[q] = (float)frand(r, R1 * 1.2);
    mt::Transform1DParams<float, uint8_t, mt::Quantize> p; memset((void*)&p, 0, sizeof p); p.input = I; p.output = O; mt::Quantize& k = p.kernel; k.count = n; k.range_min = (float)-R1; k.range_scale = (float)(255.0 / (2 * R1)); k.range_offset = r.chance(1, 2) ? 0 : (float)r.range(-50, 50);
    memset(O, 0x5b, n); go(r, p, pool, th);
    for (int q = 0; q < n; q++) { double x = ((double)I[q] - k.range_min) * k.range_scale + k.range_offset, M = (std::abs(I[q]) + std::abs(k.range_min)) * k.range_scale + std::abs(k.range_offset); judge(1, x, M * std::ldexp(1, -20) + 1e-6, 0, 255, O[q], "Quantize", q); }
  } else if (kind == 2) {
    in.alloc(n, end); out.alloc(4 * (size_t)n, end); uint8_t* I = (uint8_t*)in.p; float* O = (float*)out.p; for (int q = 0; q < n; q++) I[q] = (uint8_t)r.next();
    mt::Transform1DParams<uint8_t, float, mt::Dequantize> p; memset((void*)&p, 0, sizeof p); p.input = I; p.output = O; mt::Dequantize& k = p.kernel; k.count = n; k.range_min = (float)-R1; k.range_scale = (float)(2 * R1 / 255.0); k.range_offset = r.chance(1, 2) ? 0 : (float)r.range(-128, 128);
    for (int q = 0; q < n; q++) O[q] = 777.f; go(r, p, pool, th);
    for (int q = 0; q < n; q++) { double x = ((double)I[q] - k.range_offset) * k.range_scale + k.range_min, M = (I[q] + std::abs(k.range_offset)) * k.range_scale + std::abs(k.range_min); if (!(std::abs(O[q] - x) <= M * std::ldexp(1, -20))) vh::viol("transform-wrong", "Dequantize: index %d got %.9g, exact value %.9g", q, O[q], x); }
  } else if (kind == 3) {
    in.alloc(n, end); out.alloc(n, end); uint8_t* I = (uint8_t*)in.p; uint8_t* O = (uint8_t*)out.p; for (int q = 0; q < n; q++) I[q] = (uint8_t)r.next();
    mt::Transform1DParams<uint8_t, uint8_t, mt::MinMax<uint8_t> > p; memset((void*)&p, 0, sizeof p); p.input = I; p.output = O; p.kernel.count = n; int a = (int)r.range(0, 255), b = (int)r.range(0, 255); if (a > b) std::swap(a, b); p.kernel.min = a; p.kernel.max = b;
    memset(O, 0x5b, n); go(r, p, pool, th);
    for (int q = 0; q < n; q++) { int w = I[q] < a ? a : I[q] > b ? b : I[q]; if (O[q] != w) vh::viol("transform-wrong", "MinMax: index %d got %d want %d", q, O[q], w); }
  } else {
    in.alloc((size_t)n * rows, end); out.alloc(4 * (size_t)n * rows, end); bias.alloc(n, end); uint8_t* I = (uint8_t*)in.p; uint8_t* B = (uint8_t*)bias.p; int32_t* O = (int32_t*)out.p;
    for (int q = 0; q < n * rows; q++) I[q] = (uint8_t)r.next(); for (int q = 0; q < n; q++) B[q] = (uint8_t)r.next(); for (int q = 0; q < n * rows; q++) O[q] = 777;
    mt::Transform1DParams<uint8_t, int32_t, mt::BiasAdd<uint8_t> > p; memset((void*)&p, 0, sizeof p); p.input = I; p.output = O; mt::BiasAdd<uint8_t>& k = p.kernel; k.count = n; k.rows = rows; k.bias = B;
    k.input_range_min = (float)-R1; k.bias_range_min = (float)-R2; k.output_range_min = (float)(-1.25 * (R1 + R2)); bool offs = r.chance(1, 6); k.input_range_offset = offs ? (float)r.range(0, 9) : 0; k.bias_range_offset = offs ? (float)r.range(0, 9) : 0; k.input_range_scale = (float)(2 * R1 / 255); k.bias_range_scale = (float)(2 * R2 / 255);
    k.one_over_output_range_scale = (float)(4294967295.0 / (2.5 * (R1 + R2))); k.output_range_offset = -2147483648.0f;
    if (r.chance(1, 2)) { k.one_over_output_range_scale = (float)(std::ldexp(1.0, (int)r.range(2, 16)) / (R1 + R2)); k.output_range_offset = (float)r.range(-300, 300); }
    go(r, p, pool, -1);
    std::vector<double> X(n * rows), T(n * rows); long bad = 0, zero = 0;
    for (int q = 0; q < n * rows; q++) {
      double s0 = (double)I[q] * k.input_range_scale + k.input_range_min + (double)B[q % n] * k.bias_range_scale + k.bias_range_min - k.output_range_min, d = k.input_range_offset * k.input_range_scale + k.bias_range_offset * k.bias_range_scale;
      double x = (s0 - d) * k.one_over_output_range_scale + k.output_range_offset, x0 = s0 * k.one_over_output_range_scale + k.output_range_offset;
      double M = ((I[q] + std::abs(k.input_range_offset)) * k.input_range_scale + std::abs(k.input_range_min) + (B[q % n] + std::abs(k.bias_range_offset)) * k.bias_range_scale + std::abs(k.bias_range_min) + std::abs(k.output_range_min)) * k.one_over_output_range_scale + std::abs(k.output_range_offset);
      X[q] = x; T[q] = M * std::ldexp(1, -20) + 1e-6; const double lo = -2147483648.0, hi = 2147483647.0;
      if (std::abs(O[q] - clampd(x, lo, hi)) > 1 + T[q]) bad++; if (std::abs(O[q] - clampd(x0, lo, hi)) <= 1 + T[q]) zero++;
    }
    if (offs && zero == n * rows) { if (bad && !(*off1)++) vh::viol("biasadd-ignores-input-and-bias-range-offsets", "offsets %g and %g, results are those of offsets 0", k.input_range_offset, k.bias_range_offset); }
    else for (int q = 0; q < n * rows; q++) judge(2, X[q], T[q], -2147483648.0, 2147483647.0, O[q], "BiasAdd", q);
    if (!bias.check()) vh::viol("transform-wrote-outside", "");
  }
  if (!in.check() || !out.check()) vh::viol("transform-wrote-outside", "");
  vh::stat_add("transforms", 1); vh::stat_add("transformed_elements", (long long)n * rows); vh::distinct("transforms", vh::mix(kind * 64 + th + 1, n * 8 + rows));
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); gemmlowp::WorkersPool pool; long off0 = 0, off1 = 0;
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 9, i)); int L = (int)(i % 8) + 1, R = (int)(i / 8 % 8);
    lanes1<1>(r, i, L, R); lanes1<2>(r, i, L, R); lanes1<3>(r, i, L, R); lanes1<4>(r, i, L, R); lanes1<5>(r, i, L, R); lanes1<6>(r, i, L, R); lanes1<7>(r, i, L, R); lanes1<8>(r, i, L, R);
    if (i % 97 == 5) vh::sample("%s", vh::st().cur);
    xform(r, i, &pool, &off0, &off1);
    if (i % 97 == 9) vh::sample("%s", vh::st().cur);
  }
  static const char* nm[] = {"Requantize", "Quantize", "BiasAdd"};
  for (int q = 0; q < 3; q++) if (gM[q].trunc_bad && gM[q].near_bad) vh::viol("transform-rounding", "%s neither truncates nor rounds to nearest throughout: %ld of %ld not truncated, e.g. %s; %ld not nearest, e.g. %s", nm[q], gM[q].trunc_bad, gM[q].n, gM[q].tb, gM[q].near_bad, gM[q].nb);
  return vh::done();
}
