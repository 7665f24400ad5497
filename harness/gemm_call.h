// Calls the public GEMM entry points for every storage-order combination and
// offset form, chosen at run time.
#ifndef GEMM_CALL_H_
#define GEMM_CALL_H_
#include "gemm_case.h"
#include "public/gemmlowp.h"

namespace gc {
using gemmlowp::MapOrder;
using gemmlowp::MatrixMap;
using gemmlowp::VectorMap;
using gemmlowp::VectorDup;
using gemmlowp::VectorShape;
typedef VectorMap<const std::int32_t, VectorShape::Col> ColV;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowV;
typedef VectorDup<const std::int32_t, VectorShape::Col> ColD;
typedef VectorDup<const std::int32_t, VectorShape::Row> RowD;

template <typename BDP, MapOrder LO, MapOrder RO, MapOrder OO, typename In, typename Out, typename Pipe, typename Ctx>
void call3(Ctx* ctx, const Problem<In>& p, Mat<Out>* out, const Pipe& pipe) {
  MatrixMap<const In, LO> l(p.lhs.data, p.lhs.rows, p.lhs.cols, p.lhs.stride);
  MatrixMap<const In, RO> r(p.rhs.data, p.rhs.rows, p.rhs.cols, p.rhs.stride);
  MatrixMap<Out, OO> o(out->data, out->rows, out->cols, out->stride);
  switch (p.c.offmode) {
    case 0:
      gemmlowp::GemmWithOutputPipeline<In, Out, BDP>(ctx, l, r, &o, p.c.lo, p.c.ro, pipe);
      break;
#ifndef NO_PC_OFFSETS
    case 1:
      gemmlowp::GemmWithOutputPipelinePC<In, Out, BDP>(ctx, l, r, &o, ColV(p.plo, p.c.m), RowV(p.pro, p.c.n), pipe);
      break;
#ifndef ONLY_OFF01
    case 2:
      gemmlowp::GemmWithOutputPipelinePC<In, Out, BDP>(ctx, l, r, &o, ColV(p.plo, p.c.m), RowD(p.c.ro, p.c.n), pipe);
      break;
    default:
      gemmlowp::GemmWithOutputPipelinePC<In, Out, BDP>(ctx, l, r, &o, ColD(p.c.lo, p.c.m), RowV(p.pro, p.c.n), pipe);
      break;
#endif
#endif
#if defined(NO_PC_OFFSETS) || defined(ONLY_OFF01)
    default: abort();
#endif
  }
}

// all eight storage orders
template <typename BDP, typename In, typename Out, typename Pipe, typename Ctx>
void call8(Ctx* ctx, const Problem<In>& p, Mat<Out>* out, const Pipe& pipe) {
  const MapOrder R = MapOrder::RowMajor, C = MapOrder::ColMajor;
  switch (p.c.lrm * 4 + p.c.rrm * 2 + p.c.orm) {
    case 0: call3<BDP, C, C, C>(ctx, p, out, pipe); break;
    case 1: call3<BDP, C, C, R>(ctx, p, out, pipe); break;
    case 2: call3<BDP, C, R, C>(ctx, p, out, pipe); break;
    case 3: call3<BDP, C, R, R>(ctx, p, out, pipe); break;
    case 4: call3<BDP, R, C, C>(ctx, p, out, pipe); break;
    case 5: call3<BDP, R, C, R>(ctx, p, out, pipe); break;
    case 6: call3<BDP, R, R, C>(ctx, p, out, pipe); break;
    case 7: call3<BDP, R, R, R>(ctx, p, out, pipe); break;
  }
}
// lhs row-major, rhs column-major only; both result orders
template <typename BDP, typename In, typename Out, typename Pipe, typename Ctx>
void call2(Ctx* ctx, const Problem<In>& p, Mat<Out>* out, const Pipe& pipe) {
  const MapOrder R = MapOrder::RowMajor, C = MapOrder::ColMajor;
  if (p.c.orm) call3<BDP, R, C, R>(ctx, p, out, pipe);
  else call3<BDP, R, C, C>(ctx, p, out, pipe);
}

// Bit depth selections.  BD: 0 default, 1 lhs nonzero, 2 signed lhs nonzero (NEON), 3 products under 4096
#if BD == 0
typedef gemmlowp::DefaultL8R8BitDepthParams Bdp; typedef std::uint8_t InT;
static const int kLmin = 0, kLmax = 255, kRmin = 0, kRmax = 255;
#elif BD == 1
typedef gemmlowp::L8R8WithLhsNonzeroBitDepthParams Bdp; typedef std::uint8_t InT;
static const int kLmin = 1, kLmax = 255, kRmin = 0, kRmax = 255;
#elif BD == 2
typedef gemmlowp::SignedL8R8WithLhsNonzeroBitDepthParams Bdp; typedef std::int8_t InT;
static const int kLmin = -127, kLmax = 127, kRmin = -128, kRmax = 127;
#elif BD == 3
typedef gemmlowp::BitDepthParams<gemmlowp::OperandRange<0, 131>, gemmlowp::OperandRange<0, 31> > Bdp; typedef std::uint8_t InT;
static const int kLmin = 0, kLmax = 131, kRmin = 0, kRmax = 31;
#elif BD == 4
typedef gemmlowp::BitDepthParams<gemmlowp::OperandRange<0, 127>, gemmlowp::OperandRange<0, 255> > Bdp; typedef std::uint8_t InT;
static const int kLmin = 0, kLmax = 127, kRmin = 0, kRmax = 255;
#elif BD == 5
typedef gemmlowp::BitDepthParams<gemmlowp::OperandRange<0, 63>, gemmlowp::OperandRange<0, 63> > Bdp; typedef std::uint8_t InT;
static const int kLmin = 0, kLmax = 63, kRmin = 0, kRmax = 63;
#endif
inline void set_ranges(Case* c) { c->lmin = kLmin; c->lmax = kLmax; c->rmin = kRmin; c->rmax = kRmax; }
// int8 inputs are only implemented for row-major lhs / column-major rhs
inline void fix_orders(Case* c) { if (BD == 2) { c->lrm = 1; c->rrm = 0; } }
template <typename BDP, typename In, typename Out, typename Pipe, typename Ctx>
void callN(Ctx* ctx, const Problem<In>& p, Mat<Out>* out, const Pipe& pipe) {
#if BD == 2
  call2<BDP>(ctx, p, out, pipe);
#else
  call8<BDP>(ctx, p, out, pipe);
#endif
}
}  // namespace gc
#endif
