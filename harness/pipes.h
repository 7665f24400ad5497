// A fixed set of output pipelines with non-overflowing random parameters.
#ifndef PIPES_H_
#define PIPES_H_
#include "gemm_call.h"
#include <tuple>
namespace gc {
using namespace gemmlowp;
typedef VectorMap<const std::int32_t, VectorShape::Col> PVC;
typedef VectorMap<const std::int32_t, VectorShape::Row> PVR;
static const int kPipes = 7;
inline const char* pipe_name(int id) {
  static const char* n[] = {"raw", "quantize-down+u8", "quantize-down-pc+u8", "bias-row+fixedpoint+clamp+u8", "bias-col+scale+i16", "bias-row+tanh", "fixedpoint+i32"};
  return n[id];
}
// 0 int32, 1 uint8, 2 int16
inline int pipe_type(int id) { return id == 0 || id >= 5 ? 0 : id == 4 ? 2 : 1; }

struct PipeParams {
  vh::GuardBuf g[4]; int32_t* col; int32_t* col2; int32_t* row; int32_t* row2; int m, n;
  int32_t off, mult, shift, fpm, fshift, amp, zero, cmin, cmax; int expo;
  std::vector<int32_t> snap;
  // accumulators are below vmax in magnitude
  void gen(Rng& r, int m_, int n_, double vmax, int gmode) {
    m = m_; n = n_; int32_t** p[] = {&col, &col2, &row, &row2};
    for (int i = 0; i < 4; i++) { int len = i < 2 ? m : n; g[i].alloc(4 * (size_t)len, gmode != 2); *p[i] = (int32_t*)g[i].p; }
    int bits = 0; while (std::ldexp(1.0, bits) < vmax + 600) bits++;
    int mb = 30 - bits; if (mb > 8) mb = 8; if (mb < 0) mb = 0;
    mult = (int32_t)r.range(1, 1 << mb); shift = bits + mb - 7 - (int)r.range(0, 3); if (shift < 0) shift = 0; if (shift > 31) shift = 31;
    off = (int32_t)r.range(-300, 300); fpm = (int32_t)r.range(1 << 30, 2147483647ll); fshift = bits - 7 - (int)r.range(0, 3); if (fshift < 0) fshift = 0; if (fshift > 31) fshift = 31;
    expo = -(int)r.range(0, bits); if (bits < 24 && r.chance(1, 4)) expo = (int)r.range(0, 30 - bits);
    amp = (int32_t)(1 + (r.next() & 0xffff)); zero = (int32_t)r.range(-500, 500); cmin = (int32_t)r.range(0, 100); cmax = (int32_t)r.range(cmin, 255);
    for (int i = 0; i < m; i++) { col[i] = (int32_t)r.range(-300, 300); col2[i] = (int32_t)r.range(1, 1 << mb); }
    for (int i = 0; i < n; i++) { row[i] = (int32_t)r.range(-300, 300); row2[i] = (int32_t)r.range(1, 1 << mb); }
    take(&snap);
  }
  void take(std::vector<int32_t>* v) const { v->clear(); v->insert(v->end(), col, col + m); v->insert(v->end(), col2, col2 + m); v->insert(v->end(), row, row + n); v->insert(v->end(), row2, row2 + n); }
  bool unchanged() const { std::vector<int32_t> v; take(&v); return v == snap; }
};
struct AnyOut {
  Mat<int32_t> a; Mat<uint8_t> b; Mat<int16_t> c; int t;
  void init(int type, const Case& k, int gmode, int fill) {
    t = type;
    if (t == 0) a.init(k.m, k.n, k.orm, k.opad, k.omis, gmode, (int32_t)(fill * 0x01010101u));
    else if (t == 1) b.init(k.m, k.n, k.orm, k.opad, k.omis, gmode, (uint8_t)fill);
    else c.init(k.m, k.n, k.orm, k.opad, k.omis, gmode, (int16_t)(fill * 0x0101));
  }
  int32_t get(int i, int j) const { return t == 0 ? a.at(i, j) : t == 1 ? b.at(i, j) : c.at(i, j); }
  void values(std::vector<int32_t>* v) const {
    int r = t == 0 ? a.rows : t == 1 ? b.rows : c.rows, n = t == 0 ? a.cols : t == 1 ? b.cols : c.cols;
    v->resize((size_t)r * n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) (*v)[(size_t)i * n + j] = get(i, j);
  }
  bool padding_intact() const { return t == 0 ? a.padding_intact() : t == 1 ? b.padding_intact() : c.padding_intact(); }
};
// Pipelines other than the raw one exist for row-major lhs and column-major rhs.
inline void fix_for_pipe(Case* c, int id) { if (id) { c->lrm = 1; c->rrm = 0; } }
template <typename Ctx, typename In>
void run_pipe(int id, Ctx* ctx, const Problem<In>& p, const PipeParams& q, AnyOut* o) {
  OutputStageSaturatingCastToUint8 u8; OutputStageSaturatingCastToInt16 i16;
  OutputStageQuantizeDownInt32ByFixedPoint fp; fp.result_fixedpoint_multiplier = q.fpm; fp.result_shift = q.fshift; fp.result_offset_after_shift = q.off;
  switch (id) {
    case 0: callN<Bdp>(ctx, p, &o->a, std::make_tuple()); break;
    case 1: { OutputStageQuantizeDownInt32ToUint8Scale s; s.result_offset = q.off; s.result_mult_int = q.mult; s.result_shift = q.shift; call2<Bdp>(ctx, p, &o->b, std::make_tuple(s, u8)); break; }
#ifndef FEW_PIPES
    case 2:
      if (q.off & 1) { OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col> s; s.result_offset = PVC(q.col, q.m); s.result_mult_int = PVC(q.col2, q.m); s.result_shift = q.shift; call2<Bdp>(ctx, p, &o->b, std::make_tuple(s, u8)); }
      else { OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row> s; s.result_offset = PVR(q.row, q.n); s.result_mult_int = PVR(q.row2, q.n); s.result_shift = q.shift; call2<Bdp>(ctx, p, &o->b, std::make_tuple(s, u8)); }
      break;
#endif
    case 3: { OutputStageBiasAddition<PVR> s; s.bias_vector = PVR(q.row, q.n); OutputStageClamp cl; cl.min = q.cmin; cl.max = q.cmax; call2<Bdp>(ctx, p, &o->b, std::make_tuple(s, fp, cl, u8)); break; }
#ifndef FEW_PIPES
    case 4: { OutputStageBiasAddition<PVC> s; s.bias_vector = PVC(q.col, q.m); OutputStageScaleInt32ByFixedPointAndExponent x; x.result_fixedpoint_multiplier = q.fpm; x.result_exponent = q.expo; x.result_offset_after_shift = q.off; call2<Bdp>(ctx, p, &o->c, std::make_tuple(s, x, i16)); break; }
    case 5: { OutputStageBiasAddition<PVR> s; s.bias_vector = PVR(q.row, q.n); OutputStageTanh t; t.real_zero_as_int32 = q.zero; t.real_amplitude_as_int32 = q.amp; call2<Bdp>(ctx, p, &o->a, std::make_tuple(s, t)); break; }
    default: call2<Bdp>(ctx, p, &o->a, std::make_tuple(fp)); break;
#endif
  }
}
inline int pick_pipe(Rng& r) {
#ifdef FEW_PIPES
  static const int few[] = {0, 1, 3}; return r.pick(few);
#else
  return r.chance(1, 3) ? 0 : (int)r.range(0, kPipes - 1);
#endif
}
// bound on |accumulator| for the problem
inline double acc_bound(const Case& c) {
  double l = std::max(std::abs(c.lmin + c.lo), std::abs(c.lmax + c.lo)) + c.ospread, r = std::max(std::abs(c.rmin + c.ro), std::abs(c.rmax + c.ro)) + c.ospread;
  double v = l * r * c.k; return v > 2147483000.0 ? 2147483000.0 : v;
}
}  // namespace gc
#endif
