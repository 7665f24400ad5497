// C12: fixed-point transcendental functions against double precision.
#include "vh.h"
#include <cmath>
#include <limits>
#include <thread>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
typedef int64_t ll;
// Accuracy in units of the last place of a 0-integer-bit result.
template <typename T> struct Tol;
template <> struct Tol<int32_t> { enum { expi = 500, exp = 500, om = 14, tanh = 310, oo = 8, logi = 155 }; static const char* n() { return "int32"; } };
template <> struct Tol<int16_t> { enum { expi = 2, exp = 2, om = 12, tanh = 12, oo = 6, logi = 7 }; static const char* n() { return "int16"; } };
static long long g_maxerr[16]; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
template <typename T> static double unit() { return std::ldexp(1.0, 8 * sizeof(T) - 1); }
template <typename T> static ll q0(double x) { double v = std::round(x * unit<T>()); double mx = unit<T>() - 1; return v > mx ? (ll)mx : v < -unit<T>() ? (ll)-unit<T>() : (ll)v; }
// The exponential's error is a few units of the last place plus a relative error, and what is built on it inherits that: e is the
// exponential involved, a and b the two parts, cap the bound over the whole range. 16-bit results only have the former.
template <typename T> static ll tol_at(ll cap, double e, double a, double b) { if (sizeof(T) == 2) return cap; double t = a + b * e; return t < (double)cap ? (ll)t : cap; }
struct Acc { long long n; long long me[6]; Acc() : n(0) { memset(me, 0, sizeof me); } };
static bool chk(Acc& c, int fi, const char* fn, const char* tn, int bits, ll x, ll got, ll want, ll tol, ll lo, ll hi) {
  ll e = got > want ? got - want : want - got; c.n++; if (e > c.me[fi]) c.me[fi] = e;
  if (e > tol) { vh::viol((std::string("accuracy:") + fn).c_str(), "%s integer bits %d raw input %lld got %lld want %lld +-%lld", tn, bits, (long long)x, (long long)got, (long long)want, (long long)tol); return false; }
  if (got < lo || got > hi) { vh::viol((std::string("range:") + fn).c_str(), "%s integer bits %d raw input %lld got %lld outside [%lld,%lld]", tn, bits, (long long)x, (long long)got, (long long)lo, (long long)hi); return false; }
  return true;
}
template <typename T, int I> static void one(Acc& c, T x, bool with_exp = true) {
  typedef FixedPoint<T, I> F; const char* tn = Tol<T>::n(); double d = std::ldexp((double)x, -(int)F::kFractionalBits); ll mx = (ll)unit<T>() - 1;
  T nx = x > 0 ? (T)-x : x; double nd = x > 0 ? -d : d;
  chk(c, 0, "exp", tn, I, nx, exp_on_negative_values(F::FromRaw(nx)).raw(), q0<T>(std::exp(nd)), tol_at<T>(Tol<T>::exp, std::exp(nd), 6, 700), 0, mx);
  T t = tanh(F::FromRaw(x)).raw();
  chk(c, 1, "tanh", tn, I, x, t, q0<T>(std::tanh(d)), tol_at<T>(Tol<T>::tanh, std::exp(2 * nd), 30, 1000), x > 0 ? -Tol<T>::tanh : -mx - 1, x < 0 ? (ll)Tol<T>::tanh : mx);
  if (x == 0 && t != 0) vh::viol("range:tanh", "%s tanh(0)=%lld", tn, (ll)t);
  chk(c, 2, "logistic", tn, I, x, logistic(F::FromRaw(x)).raw(), q0<T>(1 / (1 + std::exp(-d))), tol_at<T>(Tol<T>::logi, std::exp(nd), 16, 500), 0, mx);
}
template <typename T> static void zero_one(Acc& c, T x) {
  typedef FixedPoint<T, 0> F; const char* tn = Tol<T>::n(); ll mx = (ll)unit<T>() - 1; if (x < 0) x = (T)~x; double d = x / unit<T>();
  chk(c, 3, "one_over_one_plus_x", tn, 0, x, one_over_one_plus_x_for_x_in_0_1(F::FromRaw(x)).raw(), q0<T>(1 / (1 + d)), Tol<T>::oo, 0, mx);
  chk(c, 4, "one_minus_x_over_one_plus_x", tn, 0, x, one_minus_x_over_one_plus_x_for_x_in_0_1(F::FromRaw(x)).raw(), q0<T>((1 - d) / (1 + d)), Tol<T>::om, -Tol<T>::om, mx);
  T q = (T)(-(x >> 2) - 1); double e = q / unit<T>();
  chk(c, 5, "exp_on_interval", tn, 0, q, exp_on_interval_between_negative_one_quarter_and_0_excl(F::FromRaw(q)).raw(), q0<T>(std::exp(e)), Tol<T>::expi, 0, mx);
}
static int32_t pickx(vh::Rng& r, long i) {
  switch (i % 5) { case 0: return (int32_t)r.u32(); case 1: { int b = (int)r.range(0, 31); uint32_t v = (r.u32() & 0x7fffffff) >> b; return (int32_t)(r.chance(1, 2) ? v : 0u - v); }
    case 2: { int b = (int)r.range(0, 31); return (int32_t)((1u << b) + (uint32_t)r.range(-9, 9)); } case 3: { int b = (int)r.range(0, 31); return (int32_t)(0u - (1u << b) + (uint32_t)r.range(-9, 9)); }
    default: { int b = (int)r.range(1, 30); uint32_t v = r.u32() & ~((1u << b) - 1); return (int32_t)(v + (uint32_t)r.range(-2, 2)); } }
}
template <typename T, int I> struct All_ { static void run(Acc& c, uint64_t seed, long n) {
  vh::Rng r(seed * 64 + I);
  if (sizeof(T) == 2) for (int x = -32768; x < 32768; x++) one<T, I>(c, (T)x);
  else for (long i = 0; i < n; i++) { T x = (T)(i == 0 ? INT32_MIN : i == 1 ? INT32_MAX : i == 2 ? 0 : i == 3 ? 1 : i == 4 ? -1 : i == 5 ? INT32_MIN + 1 : pickx(r, i)); one<T, I>(c, x); if (i % 64 == 0) vh::distinct("cases", vh::mix(I, (uint64_t)x)); }
  if (sizeof(T) == 2) vh::stat_add("formats_exhausted_16bit", 1);
  All_<T, I - 1>::run(c, seed, n); } };
template <typename T> struct All_<T, -1> { static void run(Acc&, uint64_t, long) {} };
template <int I> static void exhaust(int t, int th) {
  Acc c; ll lo = INT32_MIN + (1ll << 32) * t / th, hi = INT32_MIN + (1ll << 32) * (t + 1) / th;
  for (ll x = lo; x < hi; x++) one<int32_t, I>(c, (int32_t)x);
  vh::stat_add("evaluations", c.n);
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); Acc c; Acc d;
  vh::set_case("seed=%llu", (unsigned long long)a.seed);
  long part = a.num("part", -1);
  if (a.num("exhaust", 0)) {
    std::vector<std::thread> ts; int th = 8;
    for (int t = 0; t < th; t++) { switch (a.num("exhaust", 0)) { case 1: ts.push_back(std::thread(exhaust<0>, t, th)); break; case 2: ts.push_back(std::thread(exhaust<3>, t, th)); break; case 3: ts.push_back(std::thread(exhaust<5>, t, th)); break; default: ts.push_back(std::thread(exhaust<12>, t, th)); } }
    for (auto& t : ts) t.join();
    vh::stat_add("formats_exhausted_32bit", 1); vh::distinct("cases", a.num("exhaust", 0));
    return vh::done();
  }
  for (int x = 0; x < 32768; x++) zero_one<int16_t>(c, (int16_t)x);
  All_<int16_t, 12>::run(c, a.seed, 0);
  vh::Rng r(a.seed);
  for (long i = 0; i < a.cases; i++) zero_one<int32_t>(d, pickx(r, i));
  zero_one<int32_t>(d, 0); zero_one<int32_t>(d, INT32_MAX);
  All_<int32_t, 28>::run(d, a.seed, a.cases);
  for (int q = 0; q < 6; q++) { static const char* nm[] = {"exp", "tanh", "logistic", "one_over", "one_minus_over", "exp_interval"}; vh::sample("largest error of %s: int16 %lld, int32 %lld units of the last place", nm[q], c.me[q], d.me[q]); printf("STAT maxerr_%s_int16 %lld\nSTAT maxerr_%s_int32 %lld\n", nm[q], c.me[q], nm[q], d.me[q]); }
  vh::stat_add("evaluations", c.n + d.n);
  vh::distinct("cases", 1);
  return vh::done();
}
