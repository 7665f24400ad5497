// Included by vh.h and vh_mini.h.
#ifndef VH_GUARD_H_
#define VH_GUARD_H_
namespace vh {
// ---- guarded buffer ------------------------------------------------------
// `bytes` of payload between two inaccessible pages; placed flush against the
// trailing guard page (end=true) or the leading one (end=false).  Slack is
// filled with a canary and verified by check().
struct GuardBuf {
  char* base; size_t total; size_t pg; char* p; size_t bytes; char* lo; char* hi;
  static const unsigned char kCan = 0xC7;
  GuardBuf() : base(0), total(0), p(0), bytes(0) {}
  void alloc(size_t n, bool end, size_t misalign = 0) {
    release();
    pg = 4096;
    size_t span = ((n + misalign + pg - 1) / pg) * pg;
    if (!span) span = pg;
    total = span + 2 * pg;
    base = (char*)mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + span, pg, PROT_NONE);
    lo = base + pg; hi = lo + span;
    bytes = n;
    p = end ? hi - n - misalign : lo + misalign;
    memset(lo, kCan, p - lo);
    memset(p + n, kCan, hi - (p + n));
  }
  bool check() const {
    for (char* q = lo; q < p; q++) if ((unsigned char)*q != kCan) return false;
    for (char* q = p + bytes; q < hi; q++) if ((unsigned char)*q != kCan) return false;
    return true;
  }
  void release() { if (base) munmap(base, total); base = 0; }
  ~GuardBuf() { release(); }
 private:
  GuardBuf(const GuardBuf&); GuardBuf& operator=(const GuardBuf&);
};

}  // namespace vh
#endif
