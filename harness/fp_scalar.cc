// C10: scalar fixed-point primitives against independent wide arithmetic.
#include "vh.h"
#include <cmath>
#include <limits>
#include <thread>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
typedef int64_t ll;
template <typename T> static ll lim_min() { return std::numeric_limits<T>::min(); }
template <typename T> static ll lim_max() { return std::numeric_limits<T>::max(); }
template <typename T> static ll sat(ll v) { return v < lim_min<T>() ? lim_min<T>() : v > lim_max<T>() ? lim_max<T>() : v; }
// reference semantics
static ll ref_halfsum(ll a, ll b) { ll s = a + b; ll q = s / 2, r = s % 2; if (r > 0) q++; return q; }  // ties upwards
template <typename T> static ll ref_srdhm(ll a, ll b) {
  int n = 8 * sizeof(T) - 1; ll p = a * b; ll d = 1ll << n;
  ll q = p / d, r = p % d; if (r < 0) { r += d; q--; }
  if (r * 2 >= d) q++;
  return sat<T>(q);
}
static ll ref_rdpot(ll x, int e) {  // nearest, ties away from zero
  ll d = 1ll << e, a = x < 0 ? -x : x, q = a / d, r = a % d; if (r * 2 >= d) q++; if (e == 0) q = a; return x < 0 ? -q : q;
}
static ll floordiv(ll x, int e) { ll d = 1ll << e; ll q = x / d; if (x % d < 0) q--; return q; }
static volatile int g_stop;
static long long n_eval(long long add) { static std::map<int, int> z; vh::stat_add("evaluations", add); return add; }
#define BADN(op, fmt, ...) vh::viol("fixedpoint-scalar:" op, fmt, __VA_ARGS__)

// exhaustive 16-bit pairs over a slice of the first operand
static void pairs16(int lo, int hi, bool full, uint64_t seed) {
  vh::Rng r(seed);
  long long n = 0;
  for (int a = lo; a < hi && !g_stop; a++) {
    unsigned bad = 0;
    int step = full ? 1 : 1 + (int)(r.next() % 37);
    int start = full ? -32768 : -32768 + (int)(r.next() % 37);
    for (int b = start; b <= 32767; b += step) {
      int16_t A = (int16_t)a, B = (int16_t)b;
      int s = a + b;
      int hs = (s + 65536 + 1) / 2 - 32768;  // ties upwards
      int p = a * b; int sr = (int)(((long long)p + (1ll << 40) + (1 << 14)) >> 15) - (1 << 25); if (sr > 32767) sr = 32767;
      int sa = s > 32767 ? 32767 : s < -32768 ? -32768 : s;
      bad |= (RoundingHalfSum<int16_t>(A, B) != hs) | (SaturatingRoundingDoublingHighMul<int16_t>(A, B) != sr) | (SaturatingAdd<int16_t>(A, B) != sa);
      n += 3;
    }
    if (bad) for (int b = start; b <= 32767; b += step) {
      int16_t A = (int16_t)a, B = (int16_t)b;
      if (RoundingHalfSum<int16_t>(A, B) != ref_halfsum(a, b)) { BADN("RoundingHalfSum16", "a=%d b=%d got %d want %lld", a, b, RoundingHalfSum<int16_t>(A, B), (long long)ref_halfsum(a, b)); break; }
      if (SaturatingRoundingDoublingHighMul<int16_t>(A, B) != ref_srdhm<int16_t>(a, b)) { BADN("SRDHM16", "a=%d b=%d got %d want %lld", a, b, SaturatingRoundingDoublingHighMul<int16_t>(A, B), (long long)ref_srdhm<int16_t>(a, b)); break; }
      if (SaturatingAdd<int16_t>(A, B) != sat<int16_t>(a + b)) { BADN("SaturatingAdd16", "a=%d b=%d got %d", a, b, SaturatingAdd<int16_t>(A, B)); break; }
    }
  }
  vh::stat_add("evaluations", n); vh::stat_add("pairs16_ops", n);
  vh::distinct("cases", vh::mix(lo, hi));
}

static int32_t edge32(vh::Rng& r) {
  switch (r.range(0, 5)) {
    case 0: return (int32_t)r.u32();
    case 1: { int b = (int)r.range(0, 31); return (int32_t)((1u << b) + (uint32_t)r.range(-3, 3)); }
    case 2: { int b = (int)r.range(0, 31); return (int32_t)(0u - (1u << b) + (uint32_t)r.range(-3, 3)); }
    case 3: { int b = (int)r.range(0, 31); uint32_t v = r.u32() & (b == 31 ? 0x7fffffffu : ((1u << b) - 1)); return (int32_t)(r.chance(1, 2) ? v : 0u - v); }
    case 4: { static const int32_t s[] = {0, 1, -1, 2, -2, 3, -3, INT32_MAX, INT32_MIN, INT32_MIN + 1, INT32_MAX - 1, 1 << 30, -(1 << 30), (1 << 30) + 1, (1 << 30) - 1, -(1 << 30) - 1, 46341, 46340, -46341, 65536, 32768, -32768, 32767}; return r.pick(s); }
    default: { int b = (int)r.range(1, 30); uint32_t v = r.u32() & ~((1u << b) - 1); if (r.chance(1, 2)) v |= 1u << (b - 1); return (int32_t)v; }
  }
}
template <typename T> static T edge(vh::Rng& r) { int32_t v = edge32(r); return sizeof(T) == 2 ? (T)(r.chance(1, 2) ? v : v >> 16) : (T)v; }

template <typename T> static void binary(vh::Rng& r, long n, const char* tn) {
  const bool w = sizeof(T) == 4;
  for (long i = 0; i < n; i++) {
    T a = edge<T>(r), b = r.chance(1, 8) ? a : edge<T>(r), m = r.chance(1, 2) ? (T)-1 : (T)0;
    ll A = a, B = b;
#define EQ(op, got, want) do { ll g_ = (ll)(got), w_ = (ll)(want); if (g_ != w_) vh::viol("fixedpoint-scalar:" op, "%s a=%lld b=%lld got %lld want %lld", tn, (long long)A, (long long)B, (long long)g_, (long long)w_); } while (0)
    EQ("RoundingHalfSum", RoundingHalfSum<T>(a, b), ref_halfsum(A, B));
    EQ("SRDHM", SaturatingRoundingDoublingHighMul<T>(a, b), ref_srdhm<T>(A, B));
    if (A + B == sat<T>(A + B)) { EQ("Add", Add<T>(a, b), A + B); EQ("AddSaturatingIf16Bit", AddSaturatingIf16Bit<T>(a, b), A + B); }
    else if (!w) EQ("AddSaturatingIf16Bit", AddSaturatingIf16Bit<T>(a, b), sat<T>(A + B));
    if (A - B == sat<T>(A - B)) EQ("Sub", Sub<T>(a, b), A - B);
    if (A * B == sat<T>(A * B)) EQ("Mul", Mul<T>(a, b), A * B);
    if (A != lim_min<T>()) EQ("Neg", Neg<T>(a), -A);
    EQ("BitAnd", BitAnd<T>(a, b), (T)(a & b)); EQ("BitOr", BitOr<T>(a, b), (T)(a | b)); EQ("BitXor", BitXor<T>(a, b), (T)(a ^ b)); EQ("BitNot", BitNot<T>(a), -A - 1);
    EQ("MaskIfEqual", MaskIfEqual<T>(a, b), A == B ? -1 : 0); EQ("MaskIfNotEqual", MaskIfNotEqual<T>(a, b), A != B ? -1 : 0);
    EQ("MaskIfGreaterThan", MaskIfGreaterThan<T>(a, b), A > B ? -1 : 0); EQ("MaskIfGreaterThanOrEqual", MaskIfGreaterThanOrEqual<T>(a, b), A >= B ? -1 : 0);
    EQ("MaskIfLessThan", MaskIfLessThan<T>(a, b), A < B ? -1 : 0); EQ("MaskIfLessThanOrEqual", MaskIfLessThanOrEqual<T>(a, b), A <= B ? -1 : 0);
    EQ("MaskIfZero", MaskIfZero<T>(a), A == 0 ? -1 : 0); EQ("MaskIfNonZero", MaskIfNonZero<T>(a), A != 0 ? -1 : 0);
    EQ("SelectUsingMask", SelectUsingMask<T>(m, a, b), m ? A : B);
    EQ("All", All<T>(m), m != 0); EQ("Any", Any<T>(m), m != 0); EQ("Dup", Dup<T>(a), A);
    // the class wrappers
    typedef FixedPoint<T, 0> F0; typedef FixedPoint<T, 3> F3; typedef FixedPoint<T, 5> F5;
    F3 x = F3::FromRaw(a), y = F3::FromRaw(b); F5 z = F5::FromRaw(b);
    FixedPoint<T, 8> xz = x * z; EQ("operator*", xz.raw(), ref_srdhm<T>(A, B));
    EQ("ExactMulByPot", ExactMulByPot<2>(x).raw(), A); EQ("ExactMulByPot", ExactMulByPot<-3>(x).raw(), A);
    if (A + B == sat<T>(A + B)) EQ("operator+", (x + y).raw(), A + B);
    if (A - B == sat<T>(A - B)) EQ("operator-", (x - y).raw(), A - B);
    if (A != lim_min<T>()) EQ("unary-", (-x).raw(), -A);
    EQ("operator&", (x & y).raw(), (T)(a & b)); EQ("operator|", (x | y).raw(), (T)(a | b)); EQ("operator^", (x ^ y).raw(), (T)(a ^ b)); EQ("operator~", (~x).raw(), -A - 1);
    EQ("operator==", x == y, A == B); EQ("operator!=", x != y, A != B);
    EQ("MaskIfLessThan(FixedPoint)", MaskIfLessThan(x, y), A < B ? -1 : 0); EQ("SelectUsingMask(FixedPoint)", SelectUsingMask(m, x, y).raw(), m ? A : B);
    EQ("RoundingHalfSum(FixedPoint)", RoundingHalfSum(x, y).raw(), ref_halfsum(A, B));
    (void)sizeof(F0);
    vh::distinct("cases", vh::mix((uint64_t)A * 7 + sizeof(T), (uint64_t)B));
  }
  n_eval(n * 36);
}
template <typename T> static void unary_pot(vh::Rng& r, long n, const char* tn) {
  const int top = 8 * sizeof(T) - 1;
  for (long i = 0; i < n; i++) {
    T a = sizeof(T) == 2 ? (T)(i & 0xffff) : edge<T>(r); ll A = a, B = 0;
    for (int e = 0; e <= top; e++) {
      B = e;
      EQ("RoundingDivideByPOT", (RoundingDivideByPOT<T>(a, e)), ref_rdpot(A, e));
      EQ("ShiftRight", (ShiftRight<T>(a, e)), floordiv(A, e));
      ll s = A * (1ll << e); if (s == sat<T>(s)) EQ("ShiftLeft", (ShiftLeft<T>(a, e)), s);
    }
  }
  n_eval(n * 3 * (top + 1));
}
template <typename T, int E> struct Pot { static void run(vh::Rng& r, long n, const char* tn) {
  for (long i = 0; i < n; i++) {
    T a = sizeof(T) == 2 ? (T)(i & 0xffff) : edge<T>(r); ll A = a, B = E;
    ll want = E >= 0 ? (ll)sat<T>((ll)sat<T>(A) * (1ll << (E < 0 ? 0 : E > 31 ? 31 : E))) : ref_rdpot(A, -E);
    EQ("SaturatingRoundingMultiplyByPOT", (SaturatingRoundingMultiplyByPOT<E>(a)), want);
  }
  n_eval(n);
  Pot<T, E - 1>::run(r, n, tn);
} };
template <typename T> struct Pot<T, -1 * (int)(8 * sizeof(int16_t))> { static void run(vh::Rng&, long, const char*) {} };
template <typename T, int S, int D> struct Resc { static void run(vh::Rng& r, long n, const char* tn) {
  for (long i = 0; i < n; i++) {
    T a = sizeof(T) == 2 ? (T)((i * 7 + 13) & 0xffff) : edge<T>(r); ll A = a, B = S * 100 + D;
    ll want = S >= D ? sat<T>(A * (1ll << (S >= D ? S - D : 0))) : ref_rdpot(A, D - S);
    EQ("Rescale", (Rescale<D>(FixedPoint<T, S>::FromRaw(a)).raw()), want);
  }
  n_eval(n);
  Resc<T, S, D - 1>::run(r, n, tn);
} };
template <typename T, int S> struct Resc<T, S, -1> { static void run(vh::Rng&, long, const char*) {} };
template <typename T, int S> struct RescS { static void run(vh::Rng& r, long n, const char* tn) { Resc<T, S, 8 * sizeof(T) - 1>::run(r, n, tn); RescS<T, S - 1>::run(r, n, tn); } };
template <typename T> struct RescS<T, -1> { static void run(vh::Rng&, long, const char*) {} };
template <typename T, int I> struct Conv { static void run(vh::Rng& r, long n, const char* tn) {
  typedef FixedPoint<T, I> F; const int f = 8 * sizeof(T) - 1 - I; ll B = I;
  for (long i = 0; i < n; i++) {
    T a = sizeof(T) == 2 ? (T)(i * 11 & 0xffff) : edge<T>(r); ll A = a;
    double d = ToDouble(F::FromRaw(a));
    if (d != std::ldexp((double)A, -f)) vh::viol("fixedpoint-scalar:ToDouble", "%s bits=%d raw=%lld got %.17g", tn, I, (long long)A, d);
    EQ("FromDouble(ToDouble)", F::FromDouble(d).raw(), A);
    // values between representable ones, ties and out-of-range values
    double fr = (double)r.range(0, 1000) / 1000.0; if (r.chance(1, 4)) fr = r.chance(1, 4) ? std::nextafter(0.5, 0.0) : 0.5;
    double x = std::ldexp((double)A + fr, -f); if (r.chance(1, 6)) x *= 3;
    if (r.chance(1, 8)) { x = std::ldexp(1.0 + fr, (int)r.range(-60, 1023)); if (r.chance(1, 20)) x = HUGE_VAL; if (r.chance(1, 2)) x = -x; if (r.chance(1, 9)) x = std::ldexp(x, -f - 1100); }  // far out of range, tiny or denormal
    double raw = std::ldexp(x, f); double fl = std::floor(std::fabs(raw)); double rr = std::fabs(raw) - fl >= 0.5 ? fl + 1 : fl; if (raw < 0) rr = -rr;
    ll want = rr <= (double)lim_min<T>() ? lim_min<T>() : rr >= (double)lim_max<T>() ? lim_max<T>() : (ll)rr;
    EQ("FromDouble", F::FromDouble(x).raw(), want);
    EQ("FromScalarRaw", F::FromScalarRaw(a).raw(), A);
  }
  ll A = 0;
  EQ("Zero", F::Zero().raw(), 0); EQ("One", F::One().raw(), I == 0 ? lim_max<T>() : (1ll << f));
  EQ("kFractionalBits", (int)F::kFractionalBits, f);
  n_eval(n * 3);
  Conv<T, I - 1>::run(r, n, tn);
} };
template <typename T> struct Conv<T, -1> { static void run(vh::Rng&, long, const char*) {} };
template <typename T, int I, int E> static void cpot(const char* tn) { ll A = I, B = E; EQ("ConstantPOT", (FixedPoint<T, I>::template ConstantPOT<E>().raw()), 1ll << (8 * sizeof(T) - 1 - I + E)); n_eval(1); }

int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  long n = a.cases; int th = (int)a.num("threads", 1); bool full = a.num("full", 0);
  vh::Rng r(a.seed * 77);
  vh::set_case("seed=%llu", (unsigned long long)a.seed);
  if (a.num("pairs", 1)) {
    std::vector<std::thread> ts;
    for (int t = 0; t < th; t++) ts.push_back(std::thread(pairs16, -32768 + (int)(65536ll * t / th), -32768 + (int)(65536ll * (t + 1) / th), full, a.seed * 99 + t));
    for (auto& t : ts) t.join();
  }
  for (int x = -128; x < 128; x++) for (int y = -128; y < 128; y++) if (SaturatingAdd<int8_t>((int8_t)x, (int8_t)y) != sat<int8_t>(x + y)) { BADN("SaturatingAdd8", "a=%d b=%d", x, y); break; }
  n_eval(65536);
  binary<int32_t>(r, n, "int32"); binary<int16_t>(r, n, "int16");
  unary_pot<int32_t>(r, n / 4, "int32"); unary_pot<int16_t>(r, 65536, "int16");
  Pot<int16_t, 15>::run(r, 65536, "int16");
  Pot<int32_t, 31>::run(r, n / 16, "int32");
  { vh::Rng q(a.seed * 5 + 3); const char* tn = "int32";
#define P1(E) for (long i = 0; i < n / 16; i++) { int32_t v = edge<int32_t>(q); ll A = v, B = -E; EQ("SaturatingRoundingMultiplyByPOT", (SaturatingRoundingMultiplyByPOT<-E>(v)), ref_rdpot(A, E)); }
    P1(16) P1(17) P1(18) P1(19) P1(20) P1(21) P1(22) P1(23) P1(24) P1(25) P1(26) P1(27) P1(28) P1(29) P1(30) P1(31) n_eval(n); }
  RescS<int16_t, 15>::run(r, 4000, "int16"); RescS<int32_t, 31>::run(r, 1500, "int32");
  Conv<int16_t, 15>::run(r, 20000, "int16"); Conv<int32_t, 31>::run(r, n / 16, "int32");
  cpot<int32_t, 0, -1>("int32"); cpot<int32_t, 0, -31>("int32"); cpot<int32_t, 5, 4>("int32"); cpot<int32_t, 5, -26>("int32"); cpot<int32_t, 29, 0>("int32"); cpot<int32_t, 3, -3>("int32");
  cpot<int16_t, 0, -1>("int16"); cpot<int16_t, 0, -15>("int16"); cpot<int16_t, 5, 4>("int16"); cpot<int16_t, 5, -10>("int16"); cpot<int16_t, 3, -3>("int16");
  vh::sample("RoundingHalfSum<int32>(-1,0)=%d SRDHM<int32>(min,min)=%d RoundingDivideByPOT<int32>(-3,1)=%d", RoundingHalfSum<int32_t>(-1, 0), SaturatingRoundingDoublingHighMul<int32_t>(INT32_MIN, INT32_MIN), RoundingDivideByPOT<int32_t>(-3, 1));
  return vh::done();
}
