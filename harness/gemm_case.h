// Random GEMM problems, an independent oracle for the int32 accumulators and
// for the output stages, and buffers with checkable padding.
#ifndef GEMM_CASE_H_
#define GEMM_CASE_H_
#include "vh.h"
#include <algorithm>
#include <cmath>

namespace gc {
using vh::Rng;

struct Case {
  int m, n, k;
  int lrm, rrm, orm;        // 1 = row major
  int lpad, rpad, opad;     // stride padding in elements
  int lmis, rmis, omis;     // pointer misalignment in elements
  int lmin, lmax, rmin, rmax;  // operand ranges
  int dmode;
  int offmode;              // 0 both scalar, 1 both vectors, 2 lhs vector, 3 rhs vector
  int lo, ro;               // scalar offsets / centre of vector offsets
  int ospread;              // spread of vector offsets
  int threads, l1, l2; float rf;
  uint64_t dseed;
  std::string str() const {
    char b[512];
    snprintf(b, sizeof b,
             "m=%d n=%d k=%d lhs=%s+%d rhs=%s+%d res=%s+%d align=%d/%d/%d data=%d off(mode=%d lhs=%d rhs=%d spread=%d) "
             "threads=%d l1=%d l2=%d rhsf=%.2f dseed=%llu",
             m, n, k, lrm ? "R" : "C", lpad, rrm ? "R" : "C", rpad, orm ? "R" : "C", opad, lmis, rmis,
             omis, dmode, offmode, lo, ro, ospread, threads, l1, l2, rf, (unsigned long long)dseed);
    return b;
  }
};

inline int dim_edge(Rng& r, int maxv) {
  static const int base[] = {4, 8, 12, 16, 24, 32, 36, 48, 64, 72, 96, 128, 192, 256};
  int v = r.pick(base) + (int)r.range(-3, 3);
  if (v < 1) v = 1;
  return v > maxv ? (int)r.range(1, maxv) : v;
}

// Shape classes; `mac` bounds m*n*k.
inline void gen_shape(Rng& r, Case* c, long mac) {
  for (int tries = 0; tries < 200; tries++) {
    int cls = (int)r.range(0, 11);
    switch (cls) {
      case 0: case 1:  // tiny, all residues
        c->m = (int)r.range(1, 26); c->n = (int)r.range(1, 26); c->k = (int)r.range(1, 40); break;
      case 2: case 3:
        c->m = dim_edge(r, 300); c->n = dim_edge(r, 300); c->k = dim_edge(r, 300); break;
      case 4:  // matrix*vector
        c->m = dim_edge(r, 300); c->n = (int)r.range(1, 3); c->k = (int)r.range(1, 400); break;
      case 5:  // vector*matrix
        c->m = (int)r.range(1, 3); c->n = dim_edge(r, 300); c->k = (int)r.range(1, 400); break;
      case 6:  // depth heavy
        c->m = (int)r.range(1, 30); c->n = (int)r.range(1, 30); c->k = (int)r.range(500, 9000); break;
      case 7:  // depth 1..3
        c->m = dim_edge(r, 300); c->n = dim_edge(r, 300); c->k = (int)r.range(1, 3); break;
      case 8:  // long thin
        c->m = (int)r.range(300, 3000); c->n = (int)r.range(1, 12); c->k = (int)r.range(1, 60); break;
      case 9:
        c->m = (int)r.range(1, 12); c->n = (int)r.range(300, 3000); c->k = (int)r.range(1, 60); break;
      case 10:  // medium square-ish, enough work to be split between threads
        c->m = (int)r.range(33, 260); c->n = (int)r.range(17, 200); c->k = (int)r.range(16, 300); break;
      default:
        c->m = (int)r.range(1, 80); c->n = (int)r.range(1, 80); c->k = (int)r.range(1, 80); break;
    }
    if ((long)c->m * c->n * c->k <= mac) return;
  }
  c->m = (int)r.range(1, 16); c->n = (int)r.range(1, 16); c->k = (int)r.range(1, 16);
}

inline void gen_ctx(Rng& r, Case* c, bool mt) {
  static const int th[] = {1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 0};
  c->threads = (mt && r.chance(1, 2)) ? r.pick(th) : 1;
#ifdef VH_MINI
  c->threads = 1;  // no threads on these targets
#endif
  c->l1 = 0; c->l2 = 0; c->rf = -1;
  if (r.chance(1, 2)) {
    static const int l1s[] = {1, 64, 300, 1000, 2048, 5000, 16384, 32768, 100000};
    static const int l2s[] = {1, 512, 3000, 8192, 20000, 65536, 262144, 4194304};
    static const float rfs[] = {1.0f, 0.75f, 0.5f, 0.25f, 0.9f, 0.05f};
    c->l1 = r.pick(l1s); c->l2 = r.pick(l2s); c->rf = r.pick(rfs);
  }
}

inline void gen_layout(Rng& r, Case* c) {
  c->lrm = r.chance(1, 2); c->rrm = r.chance(1, 2); c->orm = r.chance(1, 2);
  c->lpad = r.chance(1, 2) ? 0 : (int)r.range(1, 40);
  c->rpad = r.chance(1, 2) ? 0 : (int)r.range(1, 40);
  c->opad = r.chance(1, 2) ? 0 : (int)r.range(1, 40);
  c->lmis = r.chance(1, 2) ? 0 : (int)r.range(0, 63);
  c->rmis = r.chance(1, 2) ? 0 : (int)r.range(0, 63);
  c->omis = r.chance(1, 2) ? 0 : (int)r.range(0, 15);
}

// Offsets such that every partial term of the expanded product fits in int32.
inline void gen_offsets(Rng& r, Case* c, int modes) {
  c->offmode = modes > 1 ? (int)r.range(0, modes - 1) : 0;
  double cap = 2147483000.0 / (double)c->k;  // |l+lo|*|r+ro| < cap with margin for recentering
  static const int typ[] = {0, 0, -128, -255, -1, 1, 127, 128, 255, -127, -64, 12, -73};
  for (int t = 0; t < 50; t++) {
    c->lo = r.pick(typ); c->ro = r.pick(typ); c->ospread = c->offmode ? (int)r.range(0, 90) : 0;
    if (r.chance(1, 4)) {
      double s = std::sqrt(cap) - 700;
      if (s > 10) { long S = (long)(s > 40000 ? 40000 : s); c->lo = (int)r.range(-S, S); c->ro = (int)r.range(-S, S); }
    }
    double a = 256.0 + 130 + std::abs(c->lo) + c->ospread, b = 256.0 + 130 + std::abs(c->ro) + c->ospread;
    if (a * b < cap) return;
  }
  c->lo = c->ro = 0; c->ospread = 0;
}

inline int gen_val(Rng& r, int mode, int lo, int hi, int i, int j) {
  switch (mode) {
    case 0: return (int)r.range(lo, hi);
    case 1: return hi;
    case 2: return lo;
    case 3: return r.chance(1, 2) ? lo : hi;
    case 4: return ((i + j) & 1) ? hi : lo;
    case 5: return r.chance(1, 20) ? hi : lo;
    case 6: { int v = lo + (i * 7 + j * 13) % (hi - lo + 1); return v; }
    case 7: { int mid = lo < 0 ? 0 : (lo + hi + 1) / 2; int v = mid + (int)r.range(-2, 2); return v < lo ? lo : v > hi ? hi : v; }
    default: return (int)r.range(lo, hi);
  }
}

// A matrix in memory: element buffer with padding filled by a known pattern.
template <typename T>
struct Mat {
  int rows, cols, stride; bool rm; int mis;
  std::vector<T> store; T* data; T fill;
  vh::GuardBuf guard; bool guarded;
  std::vector<T> snapshot;
  Mat() : data(0), guarded(false) {}
  size_t extent() const {
    if (rows == 0 || cols == 0) return 0;
    return rm ? (size_t)(rows - 1) * stride + cols : (size_t)(cols - 1) * stride + rows;
  }
  // gmode 0 heap; 1 guard page right after the last element; 2 guard page right before the first
  void init(int r, int c, bool rowmajor, int pad, int misalign, int gmode, T f) {
    rows = r; cols = c; rm = rowmajor; stride = (rm ? cols : rows) + pad; fill = f;
    size_t ext = extent();
    guarded = gmode != 0;
    if (guarded) {
      guard.alloc(ext * sizeof(T), gmode == 1, 0);
      data = (T*)guard.p;
    } else {
      store.assign(ext + misalign + 64, f);
      data = &store[0] + misalign + 16;
    }
    mis = misalign;
    for (size_t i = 0; i < ext; i++) data[i] = f;
  }
  T& at(int r, int c) { return data[rm ? (size_t)r * stride + c : (size_t)c * stride + r]; }
  const T& at(int r, int c) const { return data[rm ? (size_t)r * stride + c : (size_t)c * stride + r]; }
  void snap() { snapshot.assign(data, data + extent()); }
  bool unchanged() const {
    return extent() == 0 || memcmp(&snapshot[0], data, extent() * sizeof(T)) == 0;
  }
  // true when everything except the rows x cols entries still holds `fill`
  bool padding_intact() const {
    int in = rm ? cols : rows, out = extent() == 0 ? 0 : rm ? rows : cols;
    for (int o = 0; o + 1 < out; o++)
      for (int p = in; p < stride; p++)
        if (memcmp(&data[(size_t)o * stride + p], &fill, sizeof(T))) return false;
    if (guarded) return guard.check();
    const T* b = &store[0]; const T* e = b + store.size(); size_t ext = extent();
    for (const T* q = b; q < data; q++) if (memcmp(q, &fill, sizeof(T))) return false;
    for (const T* q = data + ext; q < e; q++) if (memcmp(q, &fill, sizeof(T))) return false;
    return true;
  }
};

template <typename In>
struct Problem {
  Case c;
  Mat<In> lhs, rhs;
  std::vector<int32_t> lov, rov;
  vh::GuardBuf glo, gro;
  const int32_t *plo, *pro;
  std::vector<int32_t> acc;  // oracle, row major m x n
  int32_t loff(int i) const { return c.offmode == 1 || c.offmode == 2 ? lov[i] : c.lo; }
  int32_t roff(int j) const { return c.offmode == 1 || c.offmode == 3 ? rov[j] : c.ro; }
  void fill(const Case& cc, int gmode) {
    c = cc;
    Rng r(c.dseed);
    lhs.init(c.m, c.k, c.lrm, c.lpad, c.lmis, gmode, (In)0xA5);
    rhs.init(c.k, c.n, c.rrm, c.rpad, c.rmis, gmode, (In)0x5A);
    int dm2 = r.chance(1, 2) ? c.dmode : (int)r.range(0, 7);
    for (int i = 0; i < c.m; i++) for (int d = 0; d < c.k; d++)
      lhs.at(i, d) = (In)gen_val(r, c.dmode, c.lmin, c.lmax, i, d);
    for (int d = 0; d < c.k; d++) for (int j = 0; j < c.n; j++)
      rhs.at(d, j) = (In)gen_val(r, dm2, c.rmin, c.rmax, d, j);
    lov.resize(c.m); rov.resize(c.n);
    for (int i = 0; i < c.m; i++) lov[i] = c.lo + (c.ospread ? (int)r.range(-c.ospread, c.ospread) : 0);
    for (int j = 0; j < c.n; j++) rov[j] = c.ro + (c.ospread ? (int)r.range(-c.ospread, c.ospread) : 0);
    plo = lov.data(); pro = rov.data();
    if (gmode) {
      glo.alloc(4 * (size_t)c.m, gmode == 1); if (c.m) memcpy(glo.p, lov.data(), 4 * (size_t)c.m); plo = (int32_t*)glo.p;
      gro.alloc(4 * (size_t)c.n, gmode == 1); if (c.n) memcpy(gro.p, rov.data(), 4 * (size_t)c.n); pro = (int32_t*)gro.p;
    }
  }
#if defined(__GNUC__) && !defined(__clang__) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  __attribute__((optimize("O3")))
#endif
  static uint32_t dot(const int32_t* a, const int32_t* b, int k) {
    uint32_t s = 0;
    for (int d = 0; d < k; d++) s += (uint32_t)a[d] * (uint32_t)b[d];
    return s;
  }
  void oracle() {
    std::vector<int32_t> L((size_t)c.m * c.k + 1), R((size_t)c.n * c.k + 1);
    for (int i = 0; i < c.m; i++) for (int d = 0; d < c.k; d++) L[(size_t)i * c.k + d] = (int32_t)lhs.at(i, d) + loff(i);
    for (int j = 0; j < c.n; j++) for (int d = 0; d < c.k; d++) R[(size_t)j * c.k + d] = (int32_t)rhs.at(d, j) + roff(j);
    acc.resize((size_t)c.m * c.n);
    for (int i = 0; i < c.m; i++) for (int j = 0; j < c.n; j++)
      acc[(size_t)i * c.n + j] = (int32_t)dot(&L[(size_t)i * c.k], &R[(size_t)j * c.k], c.k);
  }
};

template <typename Ctx>
void apply_ctx(Ctx* ctx, const Case& c) {
  ctx->set_max_num_threads(c.threads);
  if (c.l1) { ctx->set_l1_bytes_to_use(c.l1); ctx->set_l2_bytes_to_use(c.l2); ctx->set_l2_rhs_factor(c.rf); }
}
}  // namespace gc
#endif
