// C16: products through kernels of arbitrary formats.  The kernel used here is
// our own: it reads the packed operands strictly by the layout documented in
// internal/kernel.h, with the signedness its format declares, and monitors how
// it is called.  FMTS lists X(kind, lhs width, depth, lhs order, lhs cells,
// rhs width, rhs order, rhs cells, storage orders).
#include "wrap.h"
#include "gemm_case.h"
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include <memory>
using namespace gc;
using gemmlowp::CellOrder; using gemmlowp::MapOrder; using gemmlowp::MatrixMap;
static const CellOrder D = CellOrder::DepthMajor, W = CellOrder::WidthMajor, G = CellOrder::Diagonal;
enum Kind { U, S, I };
template <Kind K, typename C, int N> struct Side { typedef gemmlowp::KernelSideFormat<C, N> T; };
template <typename C, int N> struct Side<S, C, N> { typedef gemmlowp::KernelSideFormatInt8<C, N> T; };
template <typename C, int N> struct Side<I, C, N> { typedef gemmlowp::KernelSideFormatInt8Inputs<C, N> T; };
struct Events { std::atomic<long> runs, first, cont, bad_depth, bad_align, bad_first; Events() : runs(0), first(0), cont(0), bad_depth(0), bad_align(0), bad_first(0) {} };
static Events ev;
// documented position of (w, d) inside one cell of a side
static int cell_pos(CellOrder o, int width, int depth, int w, int d) {
  if (o == CellOrder::DepthMajor) return d * width + w;
  if (o == CellOrder::WidthMajor) return w * depth + d;
  return ((width + w - d) * width + d) % (width * width);
}
template <typename F> struct OurKernel : gemmlowp::KernelBase {
  typedef typename F::Lhs::Scalar LS; typedef typename F::Rhs::Scalar RS;
  const char* Name() const override { return "ours"; }
  void Run(std::int32_t* dst, std::size_t rs, std::size_t cs, const std::uint8_t* lhs, const std::uint8_t* rhs, std::size_t start, std::size_t run) const override {
    const int w1 = F::Lhs::Cell::kWidth, w2 = F::Rhs::Cell::kWidth, dep = F::kDepth, c1 = F::Lhs::kCells, c2 = F::Rhs::kCells; const int rows = w1 * c1, cols = w2 * c2;
    ev.runs++; if (start) ev.cont++; else ev.first++; if (run == 0 || run % dep) ev.bad_depth++;
    std::vector<int64_t> acc(rows * cols, 0); std::vector<int> L(rows), R(cols); static thread_local std::vector<int> p1, p2;
    for (size_t t = 0; t < run / dep; t++)
      for (int d = 0; d < dep; d++) {
        for (int r = 0; r < rows; r++) L[r] = (LS)lhs[(t * c1 + r / w1) * w1 * dep + cell_pos(F::Lhs::Cell::kOrder, w1, dep, r % w1, d)];
        for (int c = 0; c < cols; c++) R[c] = (RS)rhs[(t * c2 + c / w2) * w2 * dep + cell_pos(F::Rhs::Cell::kOrder, w2, dep, c % w2, d)];
        for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) acc[r * cols + c] += L[r] * R[c];
      }
    for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) { int32_t* q = dst + r * rs + c * cs; *q = (int32_t)((uint32_t)acc[r * cols + c] + (start ? (uint32_t)*q : 0u)); }
  }
};
template <typename F, typename In, int ORD, typename K> static void call(gemmlowp::GemmContext* ctx, const K& kernel, const Problem<In>& p, Mat<int32_t>* out) {
  const MapOrder LO = (ORD & 4) ? MapOrder::RowMajor : MapOrder::ColMajor, RO = (ORD & 2) ? MapOrder::RowMajor : MapOrder::ColMajor, OO = (ORD & 1) ? MapOrder::RowMajor : MapOrder::ColMajor;
  MatrixMap<const In, LO> l(p.lhs.data, p.lhs.rows, p.lhs.cols, p.lhs.stride); MatrixMap<const In, RO> r(p.rhs.data, p.rhs.rows, p.rhs.cols, p.rhs.stride); MatrixMap<int32_t, OO> o(out->data, out->rows, out->cols, out->stride);
  typedef gemmlowp::VectorMap<const std::int32_t, gemmlowp::VectorShape::Col> CV; typedef gemmlowp::VectorMap<const std::int32_t, gemmlowp::VectorShape::Row> RV;
  gemmlowp::MultiThreadGemm<F, In, int32_t, gemmlowp::L8R8WithLhsNonzeroBitDepthParams>(ctx, kernel, l, r, &o, CV(p.plo, p.c.m), RV(p.pro, p.c.n), std::make_tuple());
}
template <Kind K> struct InOf { typedef uint8_t T; };
template <> struct InOf<I> { typedef int8_t T; };
static int near(Rng& r, int unit, int cap) { int v = unit * (int)r.range(1, 6) + (int)r.range(-2, 2); if (r.chance(1, 3)) v = (int)r.range(1, 40); return v < 1 ? 1 : v > cap ? (int)r.range(1, cap) : v; }
// The library's own kernels, by the operand ranges that select them
template <typename B> struct Shipped { typedef gemmlowp::DefaultKernel<B> Kernel; typedef typename Kernel::Format F; };
typedef gemmlowp::OperandRange<0, 131> R131; typedef gemmlowp::OperandRange<0, 31> R31; typedef gemmlowp::OperandRange<0, 127> R127;
typedef gemmlowp::DefaultL8R8BitDepthParams BD0; typedef gemmlowp::L8R8WithLhsNonzeroBitDepthParams BD1; typedef gemmlowp::SignedL8R8WithLhsNonzeroBitDepthParams BD2; typedef gemmlowp::BitDepthParams<R131, R31> BD3; typedef gemmlowp::BitDepthParams<R127, gemmlowp::Uint8Range> BD4;
// Second kernel of a format: the reference kernel where it is defined, or a shipped one with its operand ranges
template <typename F, Kind K> struct RefOther { typedef gemmlowp::ReferenceKernel<F> Kernel; static const char* name() { return "reference"; } static const bool all = false, none = K != U; static const int lmin = K == I ? -128 : 0, lmax = K == I ? 127 : 255, rmin = lmin, rmax = lmax; };
template <typename F, typename B> struct ShippedOther { typedef typename Shipped<B>::Kernel Kernel; static const char* name() { return "shipped"; } static const bool all = true, none = false; static const int lmin = B::LhsRange::kMinValue, lmax = B::LhsRange::kMaxValue, rmin = B::RhsRange::kMinValue, rmax = B::RhsRange::kMaxValue; };
template <typename F, typename In, int ORD, typename Other> static void test_kernels(const vh::Args& a, long mac, const char* name, uint64_t fh);
template <Kind K, int LW, int DEP, CellOrder LO, int LC, int RW, CellOrder RO, int RC, int ORD>
static void test_format(const vh::Args& a, long mac, const char* name) {
  typedef gemmlowp::CellFormat<LW, DEP, LO> LCell; typedef gemmlowp::CellFormat<RW, DEP, RO> RCell;
  typedef gemmlowp::KernelFormat<typename Side<K, LCell, LC>::T, typename Side<K, RCell, RC>::T> F; typedef typename InOf<K>::T In;
  uint64_t fh = LW; fh = fh * 31 + DEP; fh = fh * 31 + (int)LO; fh = fh * 31 + LC; fh = fh * 31 + RW; fh = fh * 31 + (int)RO; fh = fh * 31 + RC; fh = fh * 31 + K; vh::distinct("formats", fh);
  test_kernels<F, In, ORD, RefOther<F, K> >(a, mac, name, fh);
}
template <typename B, int ORD> static void test_shipped(const vh::Args& a, long mac, const char* name) {
  typedef typename std::conditional<(B::LhsRange::kMinValue < 0), int8_t, uint8_t>::type In; typedef typename Shipped<B>::F F;
  vh::distinct("shipped", vh::mix(B::LhsRange::kMaxValue + B::LhsRange::kMinValue, ORD)); test_kernels<F, In, ORD, ShippedOther<F, B> >(a, mac, name, vh::mix(B::LhsRange::kMaxValue, B::LhsRange::kMinValue + 1000));
}
template <typename F, typename In, int ORD, typename Other> static void test_kernels(const vh::Args& a, long mac, const char* name, uint64_t fh) {
  const int LW = F::Lhs::Cell::kWidth, LC = F::Lhs::kCells, RW = F::Rhs::Cell::kWidth, RC = F::Rhs::kCells, DEP = F::kDepth;
  OurKernel<F> ours; typename Other::Kernel other; std::unique_ptr<gemmlowp::GemmContext> ctx(new gemmlowp::GemmContext);
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 7919 + fh, i)); Case c; memset((void*)&c, 0, sizeof c);
    c.lmin = Other::lmin; c.rmin = Other::rmin; c.lmax = Other::lmax; c.rmax = Other::rmax;
    for (int t = 0; t < 100; t++) {
      if (r.chance(1, 5)) gen_shape(r, &c, mac); else { c.m = near(r, LW * LC, 400); c.n = near(r, RW * RC, 400); c.k = r.chance(1, 3) ? near(r, DEP, 400) : near(r, 16, 1000); if (r.chance(1, 10)) { c.m = (int)r.range(60, 200); c.n = (int)r.range(20, 60); c.k = (int)r.range(30, 120); } }
      if (c.n > c.m) std::swap(c.n, c.m);
      if ((long)c.m * c.n * c.k <= mac) break;
    }
    gen_layout(r, &c); c.lrm = (ORD & 4) != 0; c.rrm = (ORD & 2) != 0; c.orm = ORD & 1; gen_offsets(r, &c, 1); c.offmode = 1; if (r.chance(1, 2) && c.k * 600.0 * 600.0 < 2e9) c.ospread = 60;
    if (a.kv.count("st") ) c.threads = 1; gen_ctx(r, &c, true); c.dmode = (int)r.range(0, 9); c.dseed = r.next();
    if ((long)c.m * c.n * c.k > mac) continue;
    bool use_other = Other::all || (!Other::none && r.chance(1, 4));
    vh::set_case("%s orders %d kernel %s i=%ld %s", name, ORD, use_other ? Other::name() : "ours", i, c.str().c_str());
    Problem<In> p; int gm = r.chance(1, 4) ? (int)r.range(1, 2) : 0; p.fill(c, gm); p.oracle(); Mat<int32_t> out; out.init(c.m, c.n, c.orm, c.opad, c.omis, gm, 0x51515151);
    if (r.chance(1, 5)) ctx.reset(new gemmlowp::GemmContext); apply_ctx(ctx.get(), c);
    wrap::poison_live(r.next());
    if (use_other) call<F, In, ORD>(ctx.get(), other, p, &out); else call<F, In, ORD>(ctx.get(), ours, p, &out);
    long bad = 0; int bi = 0, bj = 0; for (int x = 0; x < c.m; x++) for (int y = 0; y < c.n; y++) if (out.at(x, y) != p.acc[(size_t)x * c.n + y]) { if (!bad) { bi = x; bj = y; } bad++; }
    if (bad) vh::viol("product-wrong", "%ld of %d entries, first (%d,%d) got %d want %d", bad, c.m * c.n, bi, bj, out.at(bi, bj), p.acc[(size_t)bi * c.n + bj]);
    if (!out.padding_intact()) vh::viol("wrote-outside-result", "");
    vh::stat_add("products", 1); vh::stat_add("entries", (long long)c.m * c.n); vh::distinct("cases", vh::mix(fh, vh::mix(c.m * 4096 + c.n, c.k * 64 + c.threads)));
  }
  vh::sample("%s: last %s", name, vh::st().cur);
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 40000); wrap::reg().fill = a.seed * 5 + 1;
#define X(k, lw, d, lo, lc, rw, ro, rc, ord) test_format<k, lw, d, lo, lc, rw, ro, rc, ord>(a, mac, #k " lhs " #lc "x(" #lw "," #d "," #lo ") rhs " #rc "x(" #rw "," #d "," #ro ")");
#define Y(b, ord) test_shipped<b, ord>(a, mac, "shipped kernel for " #b);
  FMTS
  vh::stat_add("kernel_runs", ev.runs); vh::stat_add("kernel_runs_continuing", ev.cont);
  if (ev.bad_depth) vh::viol("kernel-called-outside-contract", "%ld calls with a run depth that is zero or not a multiple of the cell depth", (long)ev.bad_depth);
  return vh::done();
}
