// C01: products whose matrices span more than 2^31 elements (sparse mappings
// with huge strides) and products with hundreds of millions of rows.
#define BD 0
#define ONLY_OFF01
#include "gemm_call.h"
#include <memory>
using namespace gc;
static void* sparse(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return p;
}
// m x n x k product with few nonzero entries, one per `step` of the depth, on one context; every entry of the result compared
static void huge(const char* what, long m, long n, long k, long step, int threads, float rf) {
  size_t ll = (size_t)m * k + 64, rl = (size_t)n * k + 64, ol = (size_t)m * n + 64;
  InT* l = (InT*)sparse(ll); InT* r = (InT*)sparse(rl); uint8_t* o = (uint8_t*)sparse(ol); long cnt = (k + step - 1) / step;
  for (long i = 0; i < m; i++) for (long d = 0; d < k; d += step) l[(size_t)i * k + d] = (InT)(i * 7 + (i >> 13) + 1);
  for (long j = 0; j < n; j++) for (long d = 0; d < k; d += step) r[(size_t)j * k + d] = (InT)(j % 3 + 1);
  gemmlowp::GemmContext ctx; ctx.set_max_num_threads(threads); if (rf > 0) ctx.set_l2_rhs_factor(rf);
  vh::set_case("%s: %ld x %ld x %ld, %d threads, rhs factor %g", what, m, k, n, threads, rf);
  gemmlowp::OutputStageQuantizeDownInt32ToUint8Scale q; q.result_offset = 5; q.result_mult_int = 3; q.result_shift = 5; gemmlowp::OutputStageSaturatingCastToUint8 u8;
  { MatrixMap<const InT, MapOrder::RowMajor> L(l, m, k, k); MatrixMap<const InT, MapOrder::ColMajor> R(r, k, n, k); MatrixMap<uint8_t, MapOrder::ColMajor> O(o, m, n, m);
    gemmlowp::GemmWithOutputPipeline<InT, uint8_t, Bdp>(&ctx, L, R, &O, 0, 0, std::make_tuple(q, u8)); }
  vh::tick(); size_t bad = 0; long fi = 0, fj = 0;
  for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) { int acc = (int)((InT)(i * 7 + (i >> 13) + 1)) * (int)(j % 3 + 1) * (int)cnt; int t = (acc + 5) * 3; int w = t >= 0 ? (t + 16) >> 5 : -((-t + 16) >> 5); w = w < 0 ? 0 : w > 255 ? 255 : w; if (o[(size_t)j * m + i] != w) { if (!bad) fi = i, fj = j; bad++; } }
  if (bad) vh::viol("gemm-wrong", "%zu of %ld x %ld entries wrong, first (%ld,%ld) got %d", bad, m, n, fi, fj, o[(size_t)fj * m + fi]);
  vh::stat_add("gemms", 1); vh::stat_add("gemms_with_packed_blocks_of_more_than_2G_elements", 1); vh::distinct("cases", vh::mix(m, n * 977 + k));
  munmap(l, ll); munmap(r, rl); munmap(o, ol);
}
template <typename T> struct Sparse { T* d; size_t len; Sparse() : d(0), len(0) {} ~Sparse() { if (d) munmap(d, len); }
  void put(Mat<T>* m, int r, int c, bool rm, int stride) { m->rows = r; m->cols = c; m->rm = rm; m->stride = stride; len = (m->extent() + 64) * sizeof(T); d = (T*)sparse(len); m->data = d; } };
int main(int argc, char** argv) {
  vh::Args a(argc, argv);
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 17, i));
    Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c);
    c.m = (int)r.range(17, 90); c.n = (int)r.range(17, 90); c.k = (int)r.range(17, 90);
    gen_layout(r, &c); c.threads = r.chance(1, 3) ? 4 : 1; c.rf = -1; gen_offsets(r, &c, 2); c.ospread = 0; c.dmode = (int)r.range(0, 9); c.dseed = r.next();
    Problem<InT> small; small.fill(c, 0); small.oracle();
    Problem<InT> p; p.c = c; p.plo = small.plo; p.pro = small.pro; Sparse<InT> sl, sr; Sparse<int32_t> so; Mat<int32_t> out;
    int which = (int)(i % 3); int bc = (int)r.range(0, 3); int big = bc == 0 ? (int)r.range(1 << 26, 1 << 27) : bc == 1 ? (int)r.range(1 << 27, 1 << 29) : bc == 2 ? (int)r.range(1 << 29, 1 << 30) : (int)r.range(1 << 30, 0x7fffffff);
    sl.put(&p.lhs, c.m, c.k, c.lrm, which == 0 ? big : small.lhs.stride); sr.put(&p.rhs, c.k, c.n, c.rrm, which == 1 ? big : small.rhs.stride); so.put(&out, c.m, c.n, c.orm, which == 2 ? big : (c.orm ? c.n : c.m) + c.opad);
    for (int x = 0; x < c.m; x++) for (int d = 0; d < c.k; d++) p.lhs.at(x, d) = small.lhs.at(x, d);
    for (int d = 0; d < c.k; d++) for (int y = 0; y < c.n; y++) p.rhs.at(d, y) = small.rhs.at(d, y);
    vh::set_case("i=%ld huge stride %d of %s %s", i, big, which == 0 ? "lhs" : which == 1 ? "rhs" : "result", c.str().c_str());
    gemmlowp::GemmContext ctx; apply_ctx(&ctx, c);
    callN<Bdp>(&ctx, p, &out, std::make_tuple());
    for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++)
      if (out.at(x, y) != small.acc[(size_t)x * c.n + y]) { vh::viol("gemm-wrong", "entry (%d,%d) got %d want %d", x, y, out.at(x, y), small.acc[(size_t)x * c.n + y]); x = c.m; break; }
    vh::stat_add("gemms", 1); vh::stat_add("gemms_spanning_more_than_2G_elements", 1); vh::distinct("cases", vh::mix(c.m * 4096 + c.n, c.k * 8 + which));
  }
  long rows = a.num("rows", 0);
  if (rows) for (int tr = 0; tr < 2; tr++) {  // tr: a row vector result, i.e. the transposed path
    int n = (int)rows; InT* v = (InT*)sparse((size_t)n + 64); int8_t dummy = 0; (void)dummy; uint8_t* o = (uint8_t*)sparse((size_t)n + 64);
    for (long x = 0; x < n; x++) v[x] = (InT)(x * 7 + (x >> 13));
    InT s = 3; gemmlowp::GemmContext ctx; ctx.set_max_num_threads(8);
    vh::set_case("%s of %d entries, 8 threads", tr ? "1 x n result" : "n x 1 result", n);
    gemmlowp::OutputStageQuantizeDownInt32ToUint8Scale q; q.result_offset = 5; q.result_mult_int = 3; q.result_shift = 3; gemmlowp::OutputStageSaturatingCastToUint8 u8;
    if (!tr) { MatrixMap<const InT, MapOrder::RowMajor> l(v, n, 1, 1); MatrixMap<const InT, MapOrder::ColMajor> rr(&s, 1, 1, 1); MatrixMap<uint8_t, MapOrder::ColMajor> out(o, n, 1, n); gemmlowp::GemmWithOutputPipeline<InT, uint8_t, Bdp>(&ctx, l, rr, &out, -7, 1, std::make_tuple(q, u8)); }
    else { MatrixMap<const InT, MapOrder::RowMajor> l(&s, 1, 1, 1); MatrixMap<const InT, MapOrder::ColMajor> rr(v, 1, n, 1); MatrixMap<uint8_t, MapOrder::RowMajor> out(o, 1, n, n); gemmlowp::GemmWithOutputPipeline<InT, uint8_t, Bdp>(&ctx, l, rr, &out, 1, -7, std::make_tuple(q, u8)); }
    long bad = 0, first = -1;
    for (long x = 0; x < n; x++) { int acc = ((int)v[x] - 7) * 4; int t = (acc + 5) * 3; int w = t >= 0 ? (t + 4) >> 3 : -((-t + 4) >> 3); w = w < 0 ? 0 : w > 255 ? 255 : w; if (o[x] != w) { if (!bad) first = x; bad++; } }
    if (bad) vh::viol("gemm-wrong", "%ld of %d entries wrong, first %ld got %d", bad, n, first, o[first]);
    vh::stat_add("gemms", 1); vh::stat_add("gemms_with_hundreds_of_millions_of_rows", 1); vh::distinct("cases", 99 + tr);
    munmap(v, (size_t)n + 64); munmap(o, (size_t)n + 64);
  }
  long hg = a.num("huge", 0); const long G2 = 1L << 31;
  if (hg & 1) huge("packed lhs, wide", G2 / gemmlowp::kRegisterSize + 5000003, 1, 1, 1, 1, -1);
  if (hg & 2) huge("packed lhs, deep", 70001, 1, 32003, 800, 1, 1.f);
  if (hg & 4) huge("packed result", 46399, 46389, 1, 1, 1, 1.f);
  if (hg & 8) huge("deep operands", 1, 1, 540000001, 30000007, 1, .75f);
  return vh::done();
}
