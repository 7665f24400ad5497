// C13: ARM meta GEMM.  OUT 0 = quantized 8 bit, 1 = float, 2 = int32.  API 0 = legacy functions, 1 = executors.
#include "gemm_case.h"
#if API == 0
#include "meta/legacy_multi_thread_gemm.h"
#else
#include "meta/multi_thread_gemm.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/streams.h"
#endif
#include <atomic>
#include <memory>
#ifndef GEMMLOWP_NEON
#error needs NEON
#endif
using vh::Rng;
namespace mt = gemmlowp::meta;
#if OUT == 0
typedef uint8_t OutT;
#elif OUT == 1
typedef float OutT;
#else
typedef int32_t OutT;
#endif
struct P {
  int m, n, k, ls, rs, os; bool rcol; int lo, ro, so, mul, sh; float sc; int threads, kind;
  vh::GuardBuf l, r, o, s; std::vector<int32_t> acc; std::vector<OutT> want; std::vector<uint8_t> l0, r0;
  const uint8_t* lp() { return (const uint8_t*)l.p; }
  const uint8_t* rp() { return (const uint8_t*)r.p; }
  OutT* op() { return (OutT*)o.p; }
  uint8_t* sp() { return (uint8_t*)s.p; }
};
static void dims(Rng& r, P& p, long mac, bool vec) {
  for (int t = 0; t < 100; t++) {
    int c = (int)r.range(0, 7);
    static const int ks[] = {1, 7, 8, 9, 15, 16, 63, 64, 65, 1535, 1536, 1537, 1663, 1664, 1665, 2040, 2047, 2048};
    p.k = c < 3 ? (int)r.range(1, 40) : c == 3 ? r.pick(ks) : c == 4 ? (int)r.range(1, 2048) : (int)r.range(1, 300);
    p.m = vec ? 1 : (int)r.range(1, r.chance(1, 3) ? 120 : 20); p.n = (int)r.range(1, r.chance(1, 3) ? 150 : 20);
    if (r.chance(1, 12)) p.n = (int)r.range(200, 3000);
    if (!vec && r.chance(1, 12)) p.m = (int)r.range(200, 2000);
    if (!vec && r.chance(1, 10)) p.m = 1;
    if (!vec && r.chance(1, 10)) p.n = 1;
    if ((long)p.m * p.n * p.k <= mac) return;
  }
  p.m = vec ? 1 : 3; p.n = 5; p.k = 9;
}
static void data(Rng& r, P& p, bool strided_in, bool strided_out) {
  p.ls = p.k + (strided_in && r.chance(1, 2) ? (int)r.range(1, 20) : 0);
  p.rs = (p.rcol ? p.n : p.k) + (strided_in && r.chance(1, 2) ? (int)r.range(1, 20) : 0);
  p.os = p.n + (strided_out && r.chance(1, 2) ? (int)r.range(1, 20) : 0);
  static const int offs[] = {0, -1, -127, -128, -255, 1, 127, 255};
  p.lo = r.chance(1, 2) ? r.pick(offs) : (int)r.range(-256, 256); p.ro = r.chance(1, 2) ? r.pick(offs) : (int)r.range(-256, 256);
  bool end = r.chance(2, 3);
  size_t le = (size_t)(p.m - 1) * p.ls + p.k, re = p.rcol ? (size_t)(p.k - 1) * p.rs + p.n : (size_t)(p.n - 1) * p.rs + p.k, oe = (size_t)(p.m - 1) * p.os + p.n;
  p.l.alloc(le, end, 0); p.r.alloc(re, end, 0); p.o.alloc(oe * sizeof(OutT), end, 0);
  int dm = (int)r.range(0, 9), dm2 = r.chance(1, 2) ? dm : (int)r.range(0, 9);
  for (size_t i = 0; i < le; i++) ((uint8_t*)p.l.p)[i] = (uint8_t)gc::gen_val(r, dm, 0, 255, (int)(i / p.ls), (int)(i % p.ls));
  for (size_t i = 0; i < re; i++) ((uint8_t*)p.r.p)[i] = (uint8_t)gc::gen_val(r, dm2, 0, 255, (int)(i / p.rs), (int)(i % p.rs));
  p.l0.assign(p.lp(), p.lp() + le); p.r0.assign(p.rp(), p.rp() + re);
  p.acc.resize((size_t)p.m * p.n); long long vmax = 1;
  std::vector<int32_t> R((size_t)p.n * p.k);
  for (int j = 0; j < p.n; j++) for (int d = 0; d < p.k; d++) R[(size_t)j * p.k + d] = (int32_t)p.r0[p.rcol ? (size_t)d * p.rs + j : (size_t)j * p.rs + d] + p.ro;
  std::vector<int32_t> L(p.k);
  for (int i = 0; i < p.m; i++) {
    for (int d = 0; d < p.k; d++) L[d] = (int32_t)p.l0[(size_t)i * p.ls + d] + p.lo;
    for (int j = 0; j < p.n; j++) { int32_t s = 0; const int32_t* q = &R[(size_t)j * p.k]; for (int d = 0; d < p.k; d++) s += L[d] * q[d]; p.acc[(size_t)i * p.n + j] = s; vmax = std::max(vmax, std::abs((long long)s)); }
  }
  p.so = (int)r.range(-500, 500); if (r.chance(1, 2)) p.so = (int)r.range(-(vmax / 2 + 1), vmax / 2 + 1);
  long long lim = ((1ll << 30) - 1) / (vmax + std::abs((long long)p.so) + 1); if (lim < 1) { lim = 1; p.so = 0; } if (lim > 4000) lim = 4000;
  p.mul = (int)r.range(1, lim); if (r.chance(1, 12)) p.mul = -p.mul;
  int b = 0; while ((1ll << b) < (vmax + std::abs(p.so)) * std::abs(p.mul)) b++;
  p.sh = b - 7 + (int)r.range(-3, 3); if (r.chance(1, 10)) p.sh = (int)r.range(0, 30);
#if API == 0
  if (p.sh < 0) p.sh = 0;
#else
  if (p.sh < 1) p.sh = 1;
#endif
  if (p.sh > 30) p.sh = 30;
  p.sc = (float)std::ldexp((double)r.range(1, 4000), -(int)r.range(0, 24)); if (r.chance(1, 6)) p.sc = -p.sc;
  p.want.resize(p.acc.size());
  for (size_t i = 0; i < p.acc.size(); i++) {
#if OUT == 0
    long long v = ((long long)p.acc[i] + p.so) * p.mul; v = p.sh ? (v + (1ll << (p.sh - 1))) >> p.sh : v; p.want[i] = v < 0 ? 0 : v > 255 ? 255 : (uint8_t)v;
#elif OUT == 1
    p.want[i] = (float)p.acc[i] * p.sc;
#else
    p.want[i] = p.acc[i];
#endif
  }
}
static OutT fillv() {
#if OUT == 1
  return 777.25f;
#else
  return (OutT)0x5b;
#endif
}
static void reset(P& p) { size_t oe = p.o.bytes / sizeof(OutT); for (size_t i = 0; i < oe; i++) p.op()[i] = fillv(); memset(p.s.p, 0xEE, p.s.bytes); }
static void verify(P& p, const char* what) {
  long bad = 0; char b[160] = "";
  for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) {
    OutT g = p.op()[(size_t)i * p.os + j], w = p.want[(size_t)i * p.n + j];
    if (memcmp(&g, &w, sizeof g)) { if (!bad) snprintf(b, sizeof b, "(%d,%d) acc %d got %.9g want %.9g", i, j, p.acc[(size_t)i * p.n + j], (double)g, (double)w); bad++; }
  }
  if (bad) vh::viol("meta-wrong", "%s: %ld of %d entries wrong, %s", what, bad, p.m * p.n, b);
  OutT f = fillv(); bool pad = p.o.check();
  for (int i = 0; i + 1 < p.m && pad; i++) for (int j = p.n; j < p.os; j++) if (memcmp(&p.op()[(size_t)i * p.os + j], &f, sizeof f)) pad = false;
  if (!pad) vh::viol("wrote-outside-result", "%s", what);
  if (memcmp(p.lp(), &p.l0[0], p.l0.size()) || memcmp(p.rp(), &p.r0[0], p.r0.size()) || !p.l.check() || !p.r.check()) vh::viol("operand-modified", "%s", what);
  if (!p.s.check()) vh::viol("scratch-overflow", "%s", what);
  vh::stat_add("products", 1); vh::stat_add("entries_checked", (long long)p.m * p.n);
  vh::distinct("cases", vh::mix(vh::mix(p.m * 4096 + p.n, p.k), p.kind * 64 + p.threads));
}
static const int kTh[] = {1, 2, 3, 4, 5, 8, 0};
#if API == 0
#if OUT == 0
#define ARGS p.lo, p.ro, p.so, p.mul, p.sh, p.op()
#define FN(x) mt::x##_q8
#define FNS(x) mt::x##_q8_strided
#define SCR(x) mt::x##_q8_scratch
#elif OUT == 1
#define ARGS p.lo, p.ro, p.sc, p.op()
#define FN(x) mt::x##_f
#define FNS(x) mt::x##_f_strided
#define SCR(x) mt::x##_f_scratch
#else
#define ARGS p.lo, p.ro, p.op()
#define FN(x) mt::x##_i32
#define FNS(x) mt::x##_i32_strided
#define SCR(x) mt::x##_i32_scratch
#endif
static void one(Rng& r, long mac, gemmlowp::WorkersPool* pool, long i, long huge) {
  P p; p.kind = (int)r.range(0, 3); p.rcol = false; if (huge) p.kind = 0;
  dims(r, p, mac, p.kind == 1 || p.kind == 3);
  if (huge) {  // the right-hand side has to be processed in pieces
    p.k = r.chance(1, 2) ? (int)r.range(3, 20) : (int)r.range(1, 40); int opt = 4 * (262144 / (p.k * 4)); p.n = (int)r.range(opt, 3 * opt); if (r.chance(2, 3)) p.n = 2 * opt - (int)r.range(0, 3) - 1; if (p.n > 150000) p.n = 150000 - (int)r.range(0, 9); p.m = (int)r.range(2, 5);
  }
  data(r, p, false, p.kind == 2);
  int th[2] = {1, r.pick(kTh)};
  for (int q = 0; q < (p.kind >= 2 ? 1 : 2); q++) {
    p.threads = th[q];
    vh::set_case("i=%ld kind=%d m=%d n=%d k=%d offsets %d %d sum %d mul %d shift %d threads %d stride %d", i, p.kind, p.m, p.n, p.k, p.lo, p.ro, p.so, p.mul, p.sh, p.threads, p.os);
    size_t sb = p.kind == 0 ? SCR(gemm)(p.m, p.n, p.k, p.threads) : p.kind == 1 ? SCR(gemv)(p.m, p.n, p.k, p.threads) : p.kind == 2 ? 64 * 1024 + (size_t)(p.n + 8) * (p.k + 64) + 4 * p.k : 256 * 1024;
    sb = (sb + 63) / 64 * 64; p.s.alloc(sb, true); reset(p);
    if (p.kind == 0) FN(multi_thread_gemm)(pool, p.threads, p.sp(), p.lp(), p.rp(), p.m, p.n, p.k, ARGS);
    else if (p.kind == 1) FN(multi_thread_gemv)(pool, p.threads, p.sp(), p.lp(), p.rp(), p.n, p.k, ARGS);
    else if (p.kind == 2) FNS(gemm)(p.sp(), p.lp(), p.rp(), p.m, p.n, p.k, ARGS, p.os);
    else FN(gemv)(p.sp(), p.lp(), p.rp(), p.n, p.k, ARGS);
    static const char* nm[] = {"multi_thread_gemm", "multi_thread_gemv", "gemm_strided", "gemv"};
    verify(p, nm[p.kind]);
  }
}
#else
#if OUT == 0
typedef mt::QuantizedStaticPreprocessed Kern;
#elif OUT == 1
typedef mt::QuantizedStaticPreprocessedAsFloat Kern;
#else
typedef mt::QuantizedStaticPreprocessedAsInt32 Kern;
#endif
typedef mt::GemmParams<uint8_t, OutT, mt::RowMajorWithSum, mt::RowMajorWithSum, Kern, mt::RowMajor> PR;
typedef mt::GemmParams<uint8_t, OutT, mt::RowMajorWithSum, mt::ColumnMajorWithSum, Kern, mt::RowMajor> PC;
typedef mt::SimpleContext<gemmlowp::WorkersPool> Ctx;
template <typename PP> static void setup(P& p, PP* q) {
  q->m = p.m; q->n = p.n; q->k = p.k; q->lhs = p.lp(); q->rhs = p.rp(); q->result = p.op();
  q->left_stream.count = q->right_stream.count = p.k; q->left_stream.stride = p.ls; q->right_stream.stride = p.rs;
  q->left_stream.multiplicative_sum_offset = p.ro; q->right_stream.multiplicative_sum_offset = p.lo;
  q->left_stream.additive_sum_offset = p.k * p.lo * p.ro; q->right_stream.additive_sum_offset = 0;
  q->fused_kernel.kernel.count = p.k; q->fused_kernel.output_stream.stride = p.os * (int)sizeof(OutT); q->fused_kernel.output_stream.count = p.k;
#if OUT == 0
  q->left_stream.additive_sum_offset += p.so; q->fused_kernel.kernel.multiplicative_offset = p.mul; q->fused_kernel.kernel.rounding_offset = 1 << (p.sh - 1); q->fused_kernel.kernel.shift = -p.sh;
#elif OUT == 1
  q->fused_kernel.kernel.scale = p.sc;
#endif
}
template <typename E, typename PP, int M, int N> static void run(Rng& r, P& p, gemmlowp::WorkersPool* pool, long i, const char* name) {
  PP q; int th[2] = {0, r.pick(kTh)};
  for (int z = 0; z < 2; z++) {
    p.threads = th[z]; setup(p, &q); int nt = z == 0 ? 1 : mt::ResolveMaxThreads(p.threads);
    vh::set_case("i=%ld %s kernel %dx%d m=%d n=%d k=%d strides %d %d %d offsets %d %d sum %d mul %d shift %d threads %d", i, name, M, N, p.m, p.n, p.k, p.ls, p.rs, p.os, p.lo, p.ro, p.so, p.mul, p.sh, z ? p.threads : -1);
    size_t sb = (size_t)nt * E::template EstimateScratchSize<PP>(q, M, N, 8); p.s.alloc((sb + 63) / 64 * 64, true); reset(p); q.scratch = p.sp();
    if (z == 0) mt::Gemm<E, PP, M, N, 8>(q); else { Ctx c(p.threads, pool); mt::MultiThreadGemm<Ctx, E, PP, M, N, 8>(&c, q); }
    verify(p, name);
  }
}
static void one(Rng& r, long mac, gemmlowp::WorkersPool* pool, long i, long huge) {
  typedef mt::GemmExecutorPackRHS ER; typedef mt::GemmExecutorPackLHS EL;
  typedef mt::GemmExecutorPackRHSCacheFriendly<16 * 1024> ERC; typedef mt::GemmExecutorPackLHSCacheFriendly<16 * 1024> ELC;
  P p; p.kind = (int)r.range(0, 9); p.rcol = p.kind == 1 || p.kind == 3 || p.kind == 5 || p.kind == 7 || p.kind == 9;
  dims(r, p, mac, false); if (p.kind >= 2 && p.kind <= 5) p.k = std::min(p.k, 1200);  // three rows plus four columns have to fit the small cache
  if (p.kind >= 2 && p.kind <= 5 && r.chance(1, 2)) { p.k = (int)r.range(100, 1200); int* d = p.kind <= 3 ? &p.n : &p.m; int* e = p.kind <= 3 ? &p.m : &p.n; *d = (int)r.range(20, 400); *e = (int)r.range(1, 4); }
  data(r, p, true, true);
  switch (p.kind) {
    case 0: run<ER, PR, 2, 4>(r, p, pool, i, "PackRHS row"); break;
    case 1: run<ER, PC, 2, 4>(r, p, pool, i, "PackRHS column"); break;
    case 2: run<ERC, PR, 2, 4>(r, p, pool, i, "PackRHSCacheFriendly row"); break;
    case 3: run<ERC, PC, 2, 4>(r, p, pool, i, "PackRHSCacheFriendly column"); break;
    case 4: run<ELC, PR, 2, 4>(r, p, pool, i, "PackLHSCacheFriendly row"); break;
    case 5: run<ELC, PC, 2, 4>(r, p, pool, i, "PackLHSCacheFriendly column"); break;
    case 6: run<ER, PR, 3, 3>(r, p, pool, i, "PackRHS row"); break;
    case 7: run<EL, PC, 3, 3>(r, p, pool, i, "PackLHS column"); break;
    case 8: run<EL, PR, 1, 8>(r, p, pool, i, "PackLHS row"); break;
    case 9: run<ER, PC, 1, 8>(r, p, pool, i, "PackRHS column"); break;
  }
}
#endif
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 200000), huge = a.num("huge", 0);
  gemmlowp::WorkersPool pool;
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 7 + OUT, i)); one(r, mac, &pool, i, i < huge);
    if (i % 50 == 7) vh::sample("%s", vh::st().cur);
  }
  return vh::done();
}
