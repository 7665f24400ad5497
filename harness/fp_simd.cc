// C11: every lane of a vector fixed-point operation equals the scalar operation.
#include "vh.h"
#include <cmath>
#include <limits>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
typedef int64_t ll;
template <typename V> struct LS;
template <typename V, typename S, int N> struct LSb { typedef S Sc; enum { n = N };
  static V load(const S* p) { V v; memcpy((void*)&v, p, sizeof(V)); return v; } static void store(S* p, V v) { memcpy(p, (void*)&v, sizeof(V)); } };
#if defined(GEMMLOWP_NEON)
template <> struct LS<int32x4_t> : LSb<int32x4_t, int32_t, 4> {};
template <> struct LS<int16x8_t> : LSb<int16x8_t, int16_t, 8> {};
#elif defined(GEMMLOWP_WASMSIMD)
template <> struct LS<v128_t> : LSb<v128_t, int32_t, 4> {};
template <> struct LS<int16x8_v128_t> : LSb<int16x8_v128_t, int16_t, 8> {};
#elif defined(GEMMLOWP_MSA)
template <> struct LS<v4i32> : LSb<v4i32, int32_t, 4> {};
template <> struct LS<v8i16> : LSb<v8i16, int16_t, 8> {};
#else
template <> struct LS<__m128i> : LSb<__m128i, int32_t, 4> {};
template <> struct LS<int16x8_m128i> : LSb<int16x8_m128i, int16_t, 8> {};
#if defined(GEMMLOWP_AVX2)
template <> struct LS<__m256i> : LSb<__m256i, int32_t, 8> {};
template <> struct LS<int16x16_m256i> : LSb<int16x16_m256i, int16_t, 16> {};
#endif
#endif
static int32_t edge32(vh::Rng& r) {
  switch (r.range(0, 6)) {
    case 0: return (int32_t)r.u32();
    case 1: { int b = (int)r.range(0, 31); return (int32_t)((1u << b) + (uint32_t)r.range(-3, 3)); }
    case 2: { int b = (int)r.range(0, 31); return (int32_t)(0u - (1u << b) + (uint32_t)r.range(-3, 3)); }
    case 3: { int b = (int)r.range(0, 31); uint32_t v = r.u32() & (b == 31 ? 0x7fffffffu : ((1u << b) - 1)); return (int32_t)(r.chance(1, 2) ? v : 0u - v); }
    case 4: { static const int32_t s[] = {0, 1, -1, 2, -2, 3, -3, INT32_MAX, INT32_MIN, INT32_MIN, INT32_MIN + 1, INT32_MAX - 1, 1 << 30, -(1 << 30), (1 << 30) + 1, (1 << 30) - 1, -(1 << 30) - 1, 65536, 32768, -32768, 32767, (int32_t)0x80008000, 0x7fff7fff}; return r.pick(s); }
    case 5: return (int32_t)r.range(-20, 20);
    default: { int b = (int)r.range(1, 30); uint32_t v = r.u32() & ~((1u << b) - 1); if (r.chance(1, 2)) v |= 1u << (b - 1); return (int32_t)v; }
  }
}
template <typename T> static T edge(vh::Rng& r) { int32_t v = edge32(r); return sizeof(T) == 2 ? (T)(r.chance(1, 2) ? v : v >> 16) : (T)v; }
template <typename T> static bool fitsT(ll v) { return v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max(); }
static const char* g_tn; static long long g_ev;
struct Cat { char s[96]; Cat(const char* a, const char* b) { size_t n = strlen(a), m = strlen(b); if (m > 95 - n) m = 95 - n; memcpy(s, a, n); memcpy(s + n, b, m); s[n + m] = 0; } };

template <typename V> struct Tst {
  typedef typename LS<V>::Sc T; enum { N = LS<V>::n };
  T a[N], b[N], m[N], o[N]; vh::Rng r;
  Tst(uint64_t seed) : r(seed) {}
  V la() { return LS<V>::load(a); } V lb() { return LS<V>::load(b); } V lm() { return LS<V>::load(m); }
  void cmp(const char* op, V v, const T* want, const bool* use = 0, int extra = 0) {
    LS<V>::store(o, v); g_ev += N;
    for (int i = 0; i < N; i++) if ((!use || use[i]) && o[i] != want[i]) {
      vh::viol(Cat("simd-lane:", op).s, "%s lane %d a=%lld b=%lld p=%d got %lld want %lld", g_tn, i, (long long)a[i], (long long)b[i], extra, (long long)o[i], (long long)want[i]); return; }
  }
#define LOOP(expr) for (int i = 0; i < N; i++) { w[i] = (T)(expr); }
  void basic() {
    int style = (int)r.range(0, 5);
    for (int i = 0; i < N; i++) { a[i] = edge<T>(r); b[i] = r.chance(1, 5) ? a[i] : edge<T>(r); m[i] = r.chance(1, 2) ? (T)-1 : (T)0; }
    if (style == 1) for (int i = 0; i < N; i++) m[i] = -1;
    if (style == 2) for (int i = 0; i < N; i++) m[i] = 0;
    if (style == 3) { for (int i = 0; i < N; i++) m[i] = -1; m[r.range(0, N - 1)] = 0; }
    if (style == 4) { for (int i = 0; i < N; i++) m[i] = 0; m[r.range(0, N - 1)] = -1; }
    if (style == 5) { for (int i = 0; i < N; i++) b[i] = a[i]; if (r.chance(1, 2)) b[r.range(0, N - 1)] = edge<T>(r); }
    T w[N]; bool u[N];
    LOOP(a[i] & b[i]); cmp("BitAnd", BitAnd(la(), lb()), w); LOOP(a[i] | b[i]); cmp("BitOr", BitOr(la(), lb()), w);
    LOOP(a[i] ^ b[i]); cmp("BitXor", BitXor(la(), lb()), w); LOOP(~a[i]); cmp("BitNot", BitNot(la()), w);
    for (int i = 0; i < N; i++) u[i] = fitsT<T>((ll)a[i] + b[i]); LOOP((ll)a[i] + b[i]); cmp("Add", Add(la(), lb()), w, u);
    for (int i = 0; i < N; i++) u[i] = fitsT<T>((ll)a[i] - b[i]); LOOP((ll)a[i] - b[i]); cmp("Sub", Sub(la(), lb()), w, u);
    for (int i = 0; i < N; i++) u[i] = fitsT<T>((ll)a[i] * b[i]); LOOP((ll)a[i] * b[i]); cmp("Mul", Mul(la(), lb()), w, u);
    for (int i = 0; i < N; i++) u[i] = fitsT<T>(-(ll)a[i]); LOOP(-(ll)a[i]); cmp("Neg", Neg(la()), w, u);
    LOOP(MaskIfEqual<T>(a[i], b[i])); cmp("MaskIfEqual", MaskIfEqual(la(), lb()), w); LOOP(MaskIfNotEqual<T>(a[i], b[i])); cmp("MaskIfNotEqual", MaskIfNotEqual(la(), lb()), w);
    LOOP(MaskIfGreaterThan<T>(a[i], b[i])); cmp("MaskIfGreaterThan", MaskIfGreaterThan(la(), lb()), w); LOOP(MaskIfLessThan<T>(a[i], b[i])); cmp("MaskIfLessThan", MaskIfLessThan(la(), lb()), w);
    LOOP(MaskIfGreaterThanOrEqual<T>(a[i], b[i])); cmp("MaskIfGreaterThanOrEqual", MaskIfGreaterThanOrEqual(la(), lb()), w); LOOP(MaskIfLessThanOrEqual<T>(a[i], b[i])); cmp("MaskIfLessThanOrEqual", MaskIfLessThanOrEqual(la(), lb()), w);
    LOOP(MaskIfZero<T>(a[i])); cmp("MaskIfZero", MaskIfZero(la()), w); LOOP(MaskIfNonZero<T>(a[i])); cmp("MaskIfNonZero", MaskIfNonZero(la()), w);
    LOOP(SelectUsingMask<T>(m[i], a[i], b[i])); cmp("SelectUsingMask", SelectUsingMask(lm(), la(), lb()), w);
    LOOP(RoundingHalfSum<T>(a[i], b[i])); cmp("RoundingHalfSum", RoundingHalfSum(la(), lb()), w);
    LOOP(SaturatingRoundingDoublingHighMul<T>(a[i], b[i])); cmp("SaturatingRoundingDoublingHighMul", SaturatingRoundingDoublingHighMul(la(), lb()), w);
    for (int i = 0; i < N; i++) u[i] = sizeof(T) == 2 || fitsT<T>((ll)a[i] + b[i]); LOOP(u[i] ? AddSaturatingIf16Bit<T>(a[i], b[i]) : 0); cmp("AddSaturatingIf16Bit", AddSaturatingIf16Bit(la(), lb()), w, u);
    LOOP(a[0]); cmp("Dup", Dup<V>(a[0]), w);
    bool all = true, any = false, eq = true; for (int i = 0; i < N; i++) { all = all && m[i]; any = any || m[i]; eq = eq && a[i] == b[i]; }
    if (All(lm()) != all) vh::viol("simd-lane:All", "%s got %d want %d (mask style %d)", g_tn, All(lm()), all, style);
    if (Any(lm()) != any) vh::viol("simd-lane:Any", "%s got %d want %d (mask style %d)", g_tn, Any(lm()), any, style);
    typedef FixedPoint<V, 2> F; F x = F::FromRaw(la()), y = F::FromRaw(lb());
    if ((x == y) != eq) vh::viol("simd-lane:operator==", "%s got %d want %d", g_tn, x == y, eq);
    if ((x != y) != !eq) vh::viol("simd-lane:operator!=", "%s got %d want %d", g_tn, x != y, !eq);
    LOOP(SaturatingRoundingDoublingHighMul<T>(a[i], b[i])); cmp("operator*", (x * y).raw(), w);
    g_ev += 4;
    int top = 8 * sizeof(T) - 1; int e = (int)r.range(0, top);
    LOOP(RoundingDivideByPOT<T>(a[i], e)); cmp("RoundingDivideByPOT", RoundingDivideByPOT(la(), e), w, 0, e);
    LOOP(ShiftRight<T>(a[i], e)); cmp("ShiftRight", ShiftRight(la(), e), w, 0, e);
    for (int i = 0; i < N; i++) u[i] = fitsT<T>((ll)a[i] * (1ll << e)); LOOP(ShiftLeft<T>(a[i], e)); cmp("ShiftLeft", ShiftLeft(la(), e), w, u, e);
#if defined(GEMMLOWP_NEON)
    T ex[N]; for (int i = 0; i < N; i++) ex[i] = (T)r.range(0, top);
    LOOP(RoundingDivideByPOT<T>(a[i], (int)ex[i])); cmp("RoundingDivideByPOT-vector-exponent", RoundingDivideByPOT(la(), LS<V>::load(ex)), w);
    for (int i = 0; i < N; i++) u[i] = fitsT<T>((ll)a[i] * (1ll << ex[i])); LOOP(ShiftLeft<T>(a[i], (int)ex[i])); cmp("ShiftLeft-vector", ShiftLeft(la(), LS<V>::load(ex)), w, u);
#endif
    vh::distinct("cases", vh::mix(vh::mix(a[0], b[1]), vh::mix(a[N - 1], b[N - 1]) + N));
  }
  template <int E, int End> struct Pot { static void run(Tst* t) {
    T w[N]; for (int i = 0; i < N; i++) { t->a[i] = edge<T>(t->r); w[i] = SaturatingRoundingMultiplyByPOT<E>(t->a[i]); }
    t->cmp("SaturatingRoundingMultiplyByPOT", SaturatingRoundingMultiplyByPOT<E>(t->la()), w, 0, E);
    Pot<E - 1, End>::run(t); } };
  template <int End> struct Pot<End, End> { static void run(Tst*) {} };
  template <int I> void fn() {
    T w[N]; typedef FixedPoint<T, I> FS; typedef FixedPoint<V, I> FV;
    T sv[N];
    for (int i = 0; i < N; i++) { sv[i] = r.chance(1, 3) ? edge<T>(r) : (T)(r.u32() >> r.range(0, 8)); if (r.chance(1, 10)) sv[i] = 0; a[i] = sv[i] > 0 ? (T)-sv[i] : sv[i]; }
    LOOP(exp_on_negative_values(FS::FromRaw(a[i])).raw()); cmp("exp_on_negative_values", exp_on_negative_values(FV::FromRaw(la())).raw(), w, 0, I);
    for (int i = 0; i < N; i++) a[i] = sv[i];
    LOOP(tanh(FS::FromRaw(a[i])).raw()); cmp("tanh", tanh(FV::FromRaw(la())).raw(), w, 0, I);
    LOOP(logistic(FS::FromRaw(a[i])).raw()); cmp("logistic", logistic(FV::FromRaw(la())).raw(), w, 0, I);
    for (int i = 0; i < N; i++) a[i] = sv[i] < 0 ? (T)~sv[i] : sv[i];
    typedef FixedPoint<T, 0> S0; typedef FixedPoint<V, 0> V0;
    LOOP(one_over_one_plus_x_for_x_in_0_1(S0::FromRaw(a[i])).raw()); cmp("one_over_one_plus_x", one_over_one_plus_x_for_x_in_0_1(V0::FromRaw(la())).raw(), w);
    LOOP(one_minus_x_over_one_plus_x_for_x_in_0_1(S0::FromRaw(a[i])).raw()); cmp("one_minus_x_over_one_plus_x", one_minus_x_over_one_plus_x_for_x_in_0_1(V0::FromRaw(la())).raw(), w);
    for (int i = 0; i < N; i++) { a[i] = (T)(a[i] >> 2); a[i] = (T)(-a[i] - 1); }
    LOOP(exp_on_interval_between_negative_one_quarter_and_0_excl(S0::FromRaw(a[i])).raw()); cmp("exp_on_interval", exp_on_interval_between_negative_one_quarter_and_0_excl(V0::FromRaw(la())).raw(), w);
  }
  template <int S, int D> void resc() {
    T w[N]; for (int i = 0; i < N; i++) { a[i] = edge<T>(r); w[i] = Rescale<D>(FixedPoint<T, S>::FromRaw(a[i])).raw(); }
    cmp("Rescale", Rescale<D>(FixedPoint<V, S>::FromRaw(la())).raw(), w, 0, S * 100 + D);
  }
  // all values of b for a slice of a
  void pairs(long an) {
    T w[N];
    for (long q = 0; q < an; q++) {
      T av = q < 6 ? (T)(q == 0 ? -32768 : q == 1 ? 32767 : q == 2 ? -1 : q == 3 ? 0 : q == 4 ? -32767 : 16384) : (T)r.u32();
      for (int i = 0; i < N; i++) a[i] = av;
      for (int base = -32768; base < 32768; base += N) {
        for (int i = 0; i < N; i++) b[i] = (T)(base + i);
        LOOP(RoundingHalfSum<T>(a[i], b[i])); cmp("RoundingHalfSum", RoundingHalfSum(la(), lb()), w);
        LOOP(SaturatingRoundingDoublingHighMul<T>(a[i], b[i])); cmp("SaturatingRoundingDoublingHighMul", SaturatingRoundingDoublingHighMul(la(), lb()), w);
      }
    }
  }
};
template <typename V> static void run32(const char* tn, uint64_t seed, long n) {
  g_tn = tn; Tst<V> t(seed); int lanes = FixedPointRawTypeTraits<V>::kLanes;
  if (lanes != Tst<V>::N) vh::viol("simd-lane:kLanes", "%s declares %d lanes, holds %d", tn, lanes, (int)Tst<V>::N);
  for (long i = 0; i < n; i++) { vh::set_case("%s i=%ld", tn, i); t.basic(); if (i % 4 == 0) { typename Tst<V>::template Pot<31, -32> p; p.run(&t); }
    switch (i % 9) { case 0: t.template fn<0>(); break; case 1: t.template fn<1>(); break; case 2: t.template fn<2>(); break; case 3: t.template fn<3>(); break; case 4: t.template fn<4>(); break; case 5: t.template fn<5>(); break; case 6: t.template fn<7>(); break; case 7: t.template fn<12>(); break; default: t.template fn<20>(); }
    t.template resc<0, 5>(); t.template resc<5, 0>(); t.template resc<3, 31>(); t.template resc<20, 3>(); t.template resc<2, 1>(); }
  vh::stat_add(Cat("vectors:", tn).s, n);
}
template <typename V> static void run16(const char* tn, uint64_t seed, long n, long an) {
  g_tn = tn; Tst<V> t(seed);
  int lanes = FixedPointRawTypeTraits<V>::kLanes;
  if (lanes != Tst<V>::N) vh::viol("simd-lane:kLanes", "%s declares %d lanes, holds %d", tn, lanes, (int)Tst<V>::N);
  for (long i = 0; i < n; i++) { vh::set_case("%s i=%ld", tn, i); t.basic(); if (i % 4 == 0) { typename Tst<V>::template Pot<15, -16> p; p.run(&t); }
    switch (i % 7) { case 0: t.template fn<0>(); break; case 1: t.template fn<1>(); break; case 2: t.template fn<2>(); break; case 3: t.template fn<3>(); break; case 4: t.template fn<4>(); break; case 5: t.template fn<5>(); break; default: t.template fn<7>(); }
    t.template resc<0, 5>(); t.template resc<5, 0>(); t.template resc<3, 15>(); t.template resc<10, 3>(); t.template resc<2, 1>(); }
  t.pairs(an);
  vh::stat_add(Cat("vectors:", tn).s, n);
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  long n = a.cases, an = a.num("pairs", 100);
#if defined(GEMMLOWP_NEON)
  run32<int32x4_t>("int32x4_t", a.seed * 3, n); run16<int16x8_t>("int16x8_t", a.seed * 3 + 1, n, an);
#elif defined(GEMMLOWP_WASMSIMD)
  run32<v128_t>("v128_t", a.seed * 3, n); run16<int16x8_v128_t>("int16x8_v128_t", a.seed * 3 + 1, n, an);
#elif defined(GEMMLOWP_MSA)
  run32<v4i32>("v4i32", a.seed * 3, n); run16<v8i16>("v8i16", a.seed * 3 + 1, n, an);
#else
  run32<__m128i>("__m128i", a.seed * 3, n); run16<int16x8_m128i>("int16x8_m128i", a.seed * 3 + 1, n, an);
#if defined(GEMMLOWP_AVX2)
  run32<__m256i>("__m256i", a.seed * 3, n); run16<int16x16_m256i>("int16x16_m256i", a.seed * 3 + 1, n, an);
#endif
#endif
  vh::stat_add("evaluations", g_ev);
  vh::sample("last vector type %s, %lld lane comparisons", g_tn, g_ev);
  return vh::done();
}
