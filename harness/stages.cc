// C02: output pipelines against an independent evaluation of each stage.
// GROUP selects a set of pipelines.
#define BD 0
#define ONLY_OFF01
#include "gemm_call.h"
#include <tuple>
using namespace gc;
using namespace gemmlowp;
typedef OutputStageQuantizeDownInt32ToUint8Scale QD;
template <VectorShape S> using QDPC = OutputStageQuantizeDownInt32ToUint8ScalePC<S>;
typedef OutputStageQuantizeDownInt32ByFixedPoint FP;
typedef OutputStageScaleInt32ByFixedPointAndExponent SX;
template <VectorShape S> using SXPC = OutputStageScaleInt32ByFixedPointAndExponentPC<S>;
typedef OutputStageSaturatingCastToUint8 SU8;
typedef OutputStageSaturatingCastToInt8 SI8;
typedef OutputStageSaturatingCastToInt16 SI16;
typedef OutputStageTruncatingCastToUint8 TU8;
typedef OutputStageClamp CL;
typedef OutputStageTanh TH;
typedef VectorMap<const std::int32_t, VectorShape::Col> VC;
typedef VectorMap<const std::int32_t, VectorShape::Row> VR;
typedef OutputStageBiasAddition<VC> BC;
typedef OutputStageBiasAddition<VR> BR;

// ---- independent scalar semantics -----------------------------------------
typedef long long ll;
static bool fits(ll v) { return v >= -2147483648ll && v <= 2147483647ll; }
static ll rdpot(ll x, int e) {  // nearest, ties away from zero
  if (e == 0) return x;
  ll h = 1ll << (e - 1), a = x < 0 ? -x : x;
  ll q = (a + h) >> e;
  return x < 0 ? -q : q;
}
static ll floordiv(ll a, int sh) { return a >> sh; }
static ll srdhm(ll a, ll b) {  // nearest of a*b/2^31, ties upwards, saturating
  if (a == -2147483648ll && b == -2147483648ll) return 2147483647ll;
  return floordiv(a * b + (1ll << 30), 31);
}
struct Val { ll lo, hi; bool ok; int ties; };
static Val fix(Val v) { if (v.lo > v.hi) std::swap(v.lo, v.hi); if (!fits(v.lo) || !fits(v.hi)) v.ok = false; return v; }
static ll raw(const VC& v, int i) { return v.data()[i]; }
static ll raw(const VR& v, int i) { return v.data()[i]; }
static int at(const VC&, int i, int) { return i; }
static int at(const VR&, int, int j) { return j; }
template <typename F> static Val both(Val v, F f) {
  ll a, b; v.ok = v.ok && f(v.lo, &a) && f(v.hi, &b); if (!v.ok) { v.lo = v.hi = 0; return v; }
  v.lo = a; v.hi = b; return fix(v);
}
static Val ev_qd(Val v, ll off, ll mult, int sh) {
  return both(v, [&](ll x, ll* y) { ll s = x + off; if (!fits(s) || !fits(s * mult)) return false; *y = rdpot(s * mult, sh); return true; });
}
static Val ev_sx(Val v, ll m, int e, ll off) {
  int l = e > 0 ? e : 0, r = e < 0 ? -e : 0;
  return both(v, [&](ll x, ll* y) { ll s = l > 31 ? (x ? 1ll << 40 : 0) : x * (1ll << l); if (!fits(s)) return false; *y = rdpot(srdhm(s, m), r) + off; return fits(*y); });
}
static Val ev(const QD& s, Val v, int, int) { return ev_qd(v, s.result_offset, s.result_mult_int, s.result_shift); }
template <VectorShape S> static Val ev(const QDPC<S>& s, Val v, int i, int j) {
  int p = at(s.result_offset, i, j);
  return ev_qd(v, raw(s.result_offset, p), raw(s.result_mult_int, p), s.result_shift);
}
static Val ev(const FP& s, Val v, int, int) { return ev_sx(v, s.result_fixedpoint_multiplier, -s.result_shift, s.result_offset_after_shift); }
static Val ev(const SX& s, Val v, int, int) { return ev_sx(v, s.result_fixedpoint_multiplier, s.result_exponent, s.result_offset_after_shift); }
template <VectorShape S> static Val ev(const SXPC<S>& s, Val v, int i, int j) {
  int p = at(s.result_exponent, i, j);
  return ev_sx(v, raw(s.result_fixedpoint_multiplier, p), (int)raw(s.result_exponent, p), s.result_offset_after_shift);
}
static Val cl(Val v, ll a, ll b) { return both(v, [&](ll x, ll* y) { *y = x < a ? a : x > b ? b : x; return true; }); }
static Val ev(const SU8&, Val v, int, int) { return cl(v, 0, 255); }
static Val ev(const SI8&, Val v, int, int) { return cl(v, -128, 127); }
static Val ev(const SI16&, Val v, int, int) { return cl(v, -32768, 32767); }
static Val ev(const TU8&, Val v, int, int) { if (v.lo < 0 || v.hi > 255) v.ok = false; return v; }
static Val ev(const CL& s, Val v, int, int) { return cl(v, s.min, s.max); }
template <typename V> static Val ev(const OutputStageBiasAddition<V>& s, Val v, int i, int j) {
  ll b = raw(s.bias_vector, at(s.bias_vector, i, j));
  return both(v, [&](ll x, ll* y) { *y = x + b; return fits(*y); });
}
static Val ev(const TH& s, Val v, int, int) {
  ll z = s.real_zero_as_int32, a = s.real_amplitude_as_int32;
  if (!v.ok) return v;
  if (!fits(v.lo - z) || !fits(v.hi - z)) { v.ok = false; return v; }
  double tol = 2.5 + a * 4e-6;  // one unit of input resolution, one of output truncation, the tanh approximation
  double l = z + a * std::tanh((double)(v.lo - z) / a), h = z + a * std::tanh((double)(v.hi - z) / a);
  v.lo = std::max(z - a, (ll)std::floor(l - tol)); v.hi = std::min(z + a, (ll)std::ceil(h + tol));
  return v;
}
template <int I, typename Tup, bool End> struct Ev { static Val run(const Tup& t, Val v, int i, int j) {
  return Ev<I + 1, Tup, I + 1 == (int)std::tuple_size<Tup>::value>::run(t, ev(std::get<I>(t), v, i, j), i, j); } };
template <int I, typename Tup> struct Ev<I, Tup, true> { static Val run(const Tup&, Val v, int, int) { return v; } };

// ---- parameters -----------------------------------------------------------
struct Vecs { std::vector<int32_t> a, b; };
struct Gen {
  Rng* r; ll vmax; int m, n; std::vector<Vecs*> keep;
  ~Gen() { for (auto* k : keep) delete k; }
  Vecs* vecs(int len) { Vecs* v = new Vecs; v->a.resize(len + 3); v->b.resize(len + 3); keep.push_back(v); return v; }
  ll wide() {  // a value with a magnitude spread over all bit lengths
    int bits = (int)r->range(0, 31); ll v = (ll)(r->next() & ((1ull << bits) - 1)); return r->chance(1, 2) ? v : -v;
  }
  int32_t mult_for(ll range) {
    ll lim = range > 0 ? 2147483647ll / range : 2147483647ll; if (lim > 2147483647ll) lim = 2147483647ll;
    if (lim < 1) lim = 1;
    int b = 0; while ((1ll << (b + 1)) <= lim) b++;
    ll mx = 1ll << r->range(0, b); ll v = r->range(0, mx); if (r->chance(1, 4)) v = lim;
    if (!v && r->chance(3, 4)) v = 1;
    return (int32_t)(r->chance(1, 5) ? -v : v);
  }
  int32_t off() { ll v = wide(); return (int32_t)(r->chance(1, 2) ? v % (vmax + 2) : v / 2); }
  int shift() { return r->chance(1, 12) ? 31 : (int)r->range(0, 31); }
  // shift such that results land in a small range, to make values diverse after casts
  int shift_for(ll mag) { int b = 0; while ((1ll << b) < mag && b < 40) b++; int s = b - (int)r->range(4, 14); s = s < 0 ? 0 : s > 31 ? 31 : s; return r->chance(1, 3) ? shift() : s; }
  int32_t fpm() {
    switch (r->range(0, 7)) { case 0: return (int32_t)0x80000000; case 1: return 0x7fffffff; case 2: return 1 << 30; case 3: return (int32_t)wide();
      case 4: return (int32_t)-(ll)r->range(1 << 30, 2147483647ll); default: return (int32_t)r->range(1 << 30, 2147483647ll); }
  }
  void gen(QD* s) { s->result_offset = off(); s->result_mult_int = mult_for(vmax + std::abs((ll)s->result_offset)); s->result_shift = shift_for((vmax + 1) * std::abs((ll)s->result_mult_int)); post(255); }
  template <VectorShape S> void gen(QDPC<S>* s) {
    int len = S == VectorShape::Col ? m : n; Vecs* v = vecs(len); ll mm = 1;
    for (int i = 0; i < len + 3; i++) { v->a[i] = off(); v->b[i] = mult_for(vmax + std::abs((ll)v->a[i])); mm = std::max(mm, std::abs((ll)v->b[i])); }
    s->result_offset = VectorMap<const int32_t, S>(v->a.data(), len); s->result_mult_int = VectorMap<const int32_t, S>(v->b.data(), len);
    s->result_shift = shift_for((vmax + 1) * mm); post(255);
  }
  void gen(FP* s) { s->result_fixedpoint_multiplier = fpm(); s->result_shift = shift_for(vmax); s->result_offset_after_shift = (int32_t)(r->chance(3, 4) ? r->range(-300, 300) : wide() / 2); post(1000); }
  int expo() { int l = 0; while ((vmax << (l + 1)) < 2147483647ll && l < 30) l++; return r->chance(1, 2) ? (int)r->range(0, l) : -shift_for(vmax); }
  void gen(SX* s) { s->result_fixedpoint_multiplier = fpm(); s->result_exponent = expo(); s->result_offset_after_shift = (int32_t)(r->chance(3, 4) ? r->range(-300, 300) : wide() / 2); post(1 << 24); }
  template <VectorShape S> void gen(SXPC<S>* s) {
    int len = S == VectorShape::Col ? m : n; Vecs* v = vecs(len);
    for (int i = 0; i < len + 3; i++) { v->a[i] = fpm(); v->b[i] = expo(); }
    s->result_fixedpoint_multiplier = VectorMap<const int32_t, S>(v->a.data(), len); s->result_exponent = VectorMap<const int32_t, S>(v->b.data(), len);
    s->result_offset_after_shift = (int32_t)r->range(-300, 300); post(1 << 24);
  }
  void gen(SU8*) {} void gen(SI8*) {} void gen(SI16*) {} void gen(TU8*) {}
  void gen(CL* s) { ll a = r->chance(1, 2) ? r->range(0, 255) : wide() % (vmax + 1), b = r->chance(1, 2) ? r->range(0, 255) : wide() % (vmax + 1); if (a > b) std::swap(a, b);
    if (clamp255) { a = r->range(0, 255); b = r->range(a, 255); } s->min = (int32_t)a; s->max = (int32_t)b; }
  template <typename V> void gen(OutputStageBiasAddition<V>* s) {
    int len = V::kShape == VectorShape::Col ? m : n; Vecs* v = vecs(len); int style = (int)r->range(0, 2);
    ll room = 2147483647ll - vmax; if (room < 0) room = 0;
    for (int i = 0; i < len + 3; i++) { ll w = style == 0 ? r->range(-500, 500) : wide(); if (style == 2) w = wide() * 2 + 1; w = room ? w % room : 0; v->a[i] = (int32_t)w; }
    s->bias_vector = V(v->a.data(), len);
    if (style) vmax = 2147483647ll; else vmax += 500;
  }
  void gen(TH* s) { int b = (int)r->range(0, 27); ll a = 1 + (ll)(r->next() & ((1ull << b) - 1)); if (a > (1 << 27)) a = 1 << 27; s->real_amplitude_as_int32 = (int32_t)a;
    ll lim = 2147483647ll - 8 * a - 4; ll z = r->chance(1, 3) ? 0 : r->chance(1, 2) ? r->range(-300, 300) : wide() / 4; if (z > lim) z = lim; if (z < -lim) z = -lim; s->real_zero_as_int32 = (int32_t)z; vmax = a + std::abs(z); }
  void post(ll v) { vmax = v * 8; }
  bool clamp255; Gen() : clamp255(false) {}
};
template <int I, typename Tup, bool End> struct GenAll { static void run(Gen* g, Tup* t) { g->gen(&std::get<I>(*t)); GenAll<I + 1, Tup, I + 1 == (int)std::tuple_size<Tup>::value>::run(g, t); } };
template <int I, typename Tup> struct GenAll<I, Tup, true> { static void run(Gen*, Tup*) {} };

static GemmContext* g_ctx; static bool g_safe = false;
static int g_count = 0, g_want = 0; static long g_i; static Rng* g_r; static Case g_c;
template <typename Out, typename Tup> void pipe(const char* name, bool clamp255 = false) {
  int me = g_count++;
  if (me != g_want) return;
  Rng& r = *g_r; Case c = g_c;
  vh::set_case("i=%ld pipeline=%s %s", g_i, name, c.str().c_str());
  Problem<InT> p; p.fill(c, 0); p.oracle();
  ll vmax = 1; for (int32_t v : p.acc) vmax = std::max(vmax, std::abs((ll)v));
  Gen g; g.r = &r; g.vmax = vmax; g.m = c.m; g.n = c.n; g.clamp255 = clamp255;
  Tup* t = new Tup; GenAll<0, Tup, false>::run(&g, t);
  Mat<Out> out; out.init(c.m, c.n, c.orm, c.opad, c.omis, 0, (Out)0x5b);
  apply_ctx(g_ctx, c);
  if (g_safe) {  // sanitizer runs: only products on which no documented expression overflows
    for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) {
      Val v = {p.acc[(size_t)x * c.n + y], p.acc[(size_t)x * c.n + y], true, 0}; v = Ev<0, Tup, false>::run(*t, v, x, y);
      if (!v.ok) { vh::stat_add("products_skipped_overflowing_expression", 1); delete t; return; }
    }
  }
  call2<Bdp>(g_ctx, p, &out, *t);
  long bad = 0, cmp = 0, inner = 0; ll first = 0; uint64_t hv = 0; bool many = false;
  for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) {
    ll a = p.acc[(size_t)x * c.n + y]; Val v = {a, a, true, 0};
    v = Ev<0, Tup, false>::run(*t, v, x, y);
    if (!v.ok) continue;
    cmp++;
    ll got = (ll)out.at(x, y);
    if (cmp == 1) first = got; else if (got != first) many = true;
    if (got < v.lo || got > v.hi) { if (!bad) vh::viol((std::string("stage-wrong:") + name).c_str(), "entry (%d,%d) acc=%lld got %lld want [%lld,%lld]", x, y, a, got, v.lo, v.hi); bad++; }
  }
  if (!out.padding_intact()) vh::viol("wrote-outside", "pipeline %s", name);
  vh::stat_add("pipelines_run", 1); vh::stat_add("entries_compared", cmp);
  vh::stat_add("entries_skipped_overflowing_expression", (ll)c.m * c.n - cmp);
  if (many) vh::stat_add("runs_with_varied_outputs", 1);
  vh::stat_add((std::string("entries:") + name).c_str(), cmp);
  if (cmp) vh::distinct("cases", vh::mix(vh::mix(c.m * 4096 + c.n, c.k * 64 + c.orm), me * 8 + GROUP));
  vh::distinct("position_classes", ((c.m % 8) * 8 + c.n % 8) * 4 + c.orm * 2 + (c.m < c.n));
  if (g_i % 61 == 5) vh::sample("%s %s acc[0]=%d out[0]=%lld", name, c.str().c_str(), p.acc[0], (ll)out.at(0, 0));
  delete t;
}
#define T(...) std::tuple<__VA_ARGS__>
static const VectorShape Col = VectorShape::Col, Row = VectorShape::Row;
static void all() {
#if GROUP == 0
  pipe<uint8_t, T(QD, SU8)>("quantize-down+u8");
  pipe<int32_t, T(QD)>("quantize-down");
  pipe<uint8_t, T(QDPC<Col>, SU8)>("quantize-down-pc-col+u8");
  pipe<uint8_t, T(QDPC<Row>, SU8)>("quantize-down-pc-row+u8");
  pipe<int32_t, T(QDPC<Col>)>("quantize-down-pc-col");
  pipe<int32_t, T(QDPC<Row>)>("quantize-down-pc-row");
  pipe<int16_t, T(QD, SI16)>("quantize-down+i16");
#elif GROUP == 1
  pipe<int32_t, T(FP)>("fixedpoint");
  pipe<uint8_t, T(FP, SU8)>("fixedpoint+u8");
  pipe<int16_t, T(FP, SI16)>("fixedpoint+i16");
  pipe<uint8_t, T(SU8)>("u8");
  pipe<int16_t, T(SI16)>("i16");
#ifndef IS_SSE
  pipe<int8_t, T(FP, SI8)>("fixedpoint+i8");
  pipe<int8_t, T(SI8)>("i8");
#endif
#elif GROUP == 2
  pipe<int32_t, T(SX)>("scale-exponent");
  pipe<uint8_t, T(SX, SU8)>("scale-exponent+u8");
  pipe<int16_t, T(SX, SI16)>("scale-exponent+i16");
#ifndef IS_SSE
  pipe<int32_t, T(SXPC<Col>)>("scale-exponent-pc-col");
  pipe<int32_t, T(SXPC<Row>)>("scale-exponent-pc-row");
  pipe<uint8_t, T(SXPC<Col>, SU8)>("scale-exponent-pc-col+u8");
  pipe<int16_t, T(SXPC<Row>, SI16)>("scale-exponent-pc-row+i16");
#endif
#elif GROUP == 3
  pipe<int32_t, T(BC)>("bias-col");
  pipe<int32_t, T(BR)>("bias-row");
  pipe<uint8_t, T(BC, QD, SU8)>("bias-col+quantize-down+u8");
  pipe<uint8_t, T(BR, FP, CL, SU8)>("bias-row+fixedpoint+clamp+u8");
  pipe<uint8_t, T(BR, SU8)>("bias-row+u8");
  pipe<int16_t, T(BC, SI16)>("bias-col+i16");
  pipe<int16_t, T(BR, BC, FP, SI16)>("bias-row+bias-col+fixedpoint+i16");
#elif GROUP == 4
  pipe<int32_t, T(CL)>("clamp");
  pipe<int32_t, T(TH)>("tanh");
  pipe<int32_t, T(BC, TH)>("bias-col+tanh");
  pipe<uint8_t, T(BR, FP, TH, CL, SU8)>("bias-row+fixedpoint+tanh+clamp+u8");
  pipe<int32_t, T(BC, CL, FP, BR, SX, CL)>("six-stages");
#ifndef NO_TRUNC
  pipe<uint8_t, T(CL, TU8)>("clamp+truncating-u8", true);
  pipe<uint8_t, T(BR, FP, CL, TU8)>("bias+fixedpoint+clamp+truncating-u8", true);
#endif
#endif
}

int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  g_ctx = new GemmContext; g_safe = a.num("safe", 0) != 0;
  g_want = -1; all(); int np = g_count;
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 7919 + GROUP, i));
    Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c);
    switch (i % 5) {
      case 0: { long q = i / 5 / np + (long)(a.seed * 977 % 1000); c.m = 1 + (int)(q % 19); c.n = 1 + (int)((q / 19) % 19); c.k = (int)r.range(1, 20); break; }
      case 1: c.m = (int)r.range(1, 60); c.n = (int)r.range(1, 60); c.k = (int)r.range(1, 40); break;
      case 2: c.m = (int)r.range(1, 40); c.n = (int)r.range(1, 40); c.k = 1; break;
      case 3: gen_shape(r, &c, a.num("mac", 400000)); break;
      default: c.m = (int)r.range(1, 140); c.n = (int)r.range(1, 140); c.k = (int)r.range(1, 30); break;
    }
    gen_layout(r, &c); c.lrm = 1; c.rrm = 0;
    gen_offsets(r, &c, 2);
    if (c.k <= 2 && r.chance(2, 3)) {  // accumulators across the whole 32-bit range
      c.offmode = 1; c.lo = (int)r.range(-20000, 20000); c.ro = (int)r.range(-2000, 2000); c.ospread = (int)r.range(100, 9000);
    }
    gen_ctx(r, &c, true);
    c.dmode = (int)r.range(0, 9); c.dseed = r.next();
    if (r.chance(1, 4)) {  // accumulators close to the cast ranges
      c.offmode = 0; c.lo = (int)r.range(-130, -126); c.ro = (int)r.range(-130, -126); c.dmode = r.chance(1, 2) ? 7 : 0;
      if (r.chance(1, 2)) c.k = (int)r.range(1, 4);
    }
    if (r.chance(1, 6)) { delete g_ctx; g_ctx = new GemmContext; }
    g_r = &r; g_c = c; g_i = i; g_count = 0; g_want = (int)((i / 5) % np);
    all();
  }
  delete g_ctx;
  return vh::done();
}
