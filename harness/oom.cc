// C19: scratch allocation failing at every point of a history of products, in
// a child process each.  A child that met the failure must end by abort() (or
// a non-zero exit) after printing a diagnostic; it must not crash on a memory
// access, hang, or finish.  A child that did not meet it must finish with the
// exact results.
#define WRAP_ALLOC
#include "wrap.h"
#define ONLY_OFF01
#include "pipes.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <sys/wait.h>
#include <poll.h>
#include <fcntl.h>
#include <memory>
using namespace gc;
struct Item { Problem<InT> p; PipeParams q; AnyOut o; };
struct Out { int status; bool hang; std::string err; long allocs, failed, wrong, done; };
struct Shared { volatile long allocs, failed, wrong, done; };
static Shared* sh;
static void child(std::vector<std::unique_ptr<Item> >& items, const std::vector<int>& seq, int first_failing, long at, bool once, int style) {
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}; for (int s : sigs) signal(s, SIG_DFL);
  std::vector<std::unique_ptr<GemmContext> > ctx; ctx.emplace_back(new GemmContext); ctx.emplace_back(new GemmContext);
  namespace e8 = gemmlowp::eight_bit_int_gemm;
  for (size_t q = 0; q < seq.size(); q++) {
    if ((int)q == first_failing) { wrap::lock(); wrap::reg().fail_at = at < 0 ? -1 : wrap::reg().allocs + at; wrap::reg().fail_once = once; sh->allocs = -wrap::reg().allocs; wrap::unlock(); }
    Item& it = *items[seq[q]];
    if (style == 1) {
      int m = it.p.c.m, n = it.p.c.n, k = it.p.c.k; std::vector<uint8_t> a((size_t)m * k, 3), b((size_t)n * k, 5), o((size_t)m * n, 0);
      e8::SetMaxNumThreads(it.p.c.threads); e8::EightBitIntGemm(false, false, false, m, n, k, a.data(), -1, m, b.data(), -2, k, o.data(), 0, 1, 0, m, e8::BitDepthSetting::A8B8);
      int want = std::min(255, k * 6); for (auto v : o) if (v != want) sh->wrong = sh->wrong + 1;
    } else {
      GemmContext* c = ctx[q % (style == 2 ? 2 : 1)].get(); apply_ctx(c, it.p.c); run_pipe(0, c, it.p, it.q, &it.o);
      std::vector<int32_t> got; it.o.values(&got); if (got != it.p.acc) sh->wrong = sh->wrong + 1;
    }
    sh->done = sh->done + 1;
    wrap::lock(); sh->failed = wrap::reg().failed; wrap::unlock();
  }
  wrap::lock(); sh->allocs = sh->allocs + wrap::reg().allocs; sh->failed = wrap::reg().failed; wrap::unlock();
  _exit(0);
}
static Out run(std::vector<std::unique_ptr<Item> >& items, const std::vector<int>& seq, int ff, long at, bool once, int style) {
  int pf[2]; if (pipe(pf)) { perror("pipe"); exit(3); }
  memset((void*)sh, 0, sizeof *sh); fflush(stdout);
  pid_t p = fork();
  if (p == 0) { dup2(pf[1], 2); close(pf[0]); close(pf[1]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); child(items, seq, ff, at, once, style); _exit(99); }
  close(pf[1]); Out o; o.hang = false; char buf[4096]; double waited = 0;
  for (;;) { struct pollfd f = {pf[0], POLLIN, 0}; int r = poll(&f, 1, 1000); if (r > 0) { ssize_t n = read(pf[0], buf, sizeof buf); if (n <= 0) break; if (o.err.size() < 65536) o.err.append(buf, n); } else { waited += 1; if (waited >= 60) { o.hang = true; kill(p, SIGKILL); break; } } }
  waitpid(p, &o.status, 0); close(pf[0]); o.allocs = sh->allocs; o.failed = sh->failed; o.wrong = sh->wrong; o.done = sh->done; return o;
}
int main(int argc, char** argv) {
  vh::Args a(argc, argv); long mac = a.num("mac", 900000);
  sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (long i = 0; i < a.cases; i++) {
    if (a.only >= 0 && i != a.only) continue;
    Rng r(vh::mix(a.seed * 86243, i)); int ni = (int)r.range(1, 3); std::vector<std::unique_ptr<Item> > items;
    for (int j = 0; j < ni; j++) {
      items.emplace_back(new Item); Item& it = *items.back(); Case c; memset((void*)&c, 0, sizeof c); set_ranges(&c);
      if (r.chance(2, 3)) { do { c.m = (int)r.range(33, 300); c.n = (int)r.range(4, 200); c.k = (int)r.range(8, 200); } while ((long)c.m * c.n * c.k > mac || (long)c.m * c.n * c.k < 131072); } else gen_shape(r, &c, mac);
      gen_layout(r, &c); fix_orders(&c); fix_for_pipe(&c, 0); gen_offsets(r, &c, 2); gen_ctx(r, &c, true); c.threads = r.chance(1, 4) ? 1 : (int)r.range(2, 6); c.dmode = 0; c.dseed = r.next();
      it.p.fill(c, 0); it.p.oracle(); it.q.gen(r, c.m, c.n, acc_bound(c), 1); it.o.init(pipe_type(0), c, 0, 1);
    }
    std::vector<int> seq; int ns = (int)r.range(1, 4); for (int q = 0; q < ns; q++) seq.push_back((int)r.range(0, ni - 1)); int ff = (int)r.range(0, ns - 1), style = (int)r.range(0, 2);
    vh::set_case("i=%ld style %d, %d products, failures from product %d on, first %s", i, style, ns, ff, items[seq[ff]]->p.c.str().c_str());
    Out dry = run(items, seq, ff, -1, false, style);
    if (dry.hang || dry.status != 0 || dry.wrong) { vh::viol("normal-run-failed", "status %x wrong %ld hang %d %s", dry.status, dry.wrong, dry.hang, dry.err.substr(0, 200).c_str()); continue; }
    vh::stat_add("normal_runs", 1); long total = dry.allocs;
    for (long at = 0; at <= total; at++) for (int once = 0; once < 2; once++) {
      if (at == total && once) continue;
      Out o = run(items, seq, ff, at, once != 0, style); const char* mode = once ? "one failure" : "failing from then on";
      if (o.hang) { vh::viol("hang-after-allocation-failure", "allocation %ld of %ld (%s)", at, total, mode); continue; }
      bool stopped = WIFSIGNALED(o.status) || WEXITSTATUS(o.status) != 0;
      if (at == total) { if (stopped || o.wrong || o.failed) vh::viol("normal-run-failed", "status %x wrong %ld", o.status, o.wrong); vh::stat_add("normal_runs", 1); continue; }
      vh::stat_add("injected_failures", 1); if (o.done >= ff) vh::distinct("failure_points", vh::mix(vh::mix(a.seed, i), at * 2 + once));
      if (!stopped) { if (!once || o.wrong) vh::viol("continued-after-allocation-failure", "allocation %ld of %ld (%s), %ld failures, %ld wrong results", at, total, mode, o.failed, o.wrong); continue; }
      if (WIFSIGNALED(o.status) && WTERMSIG(o.status) != SIGABRT) vh::viol("crash-after-allocation-failure", "signal %d, allocation %ld of %ld (%s) %s", WTERMSIG(o.status), at, total, mode, o.err.substr(0, 300).c_str());
      else if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 66) vh::viol("sanitizer-report-after-allocation-failure", "allocation %ld of %ld (%s) %s", at, total, mode, o.err.substr(0, 600).c_str());
      else if (o.err.empty()) vh::viol("no-diagnostic", "allocation %ld of %ld (%s), status %x", at, total, mode, o.status);
      else if (o.err.find("AddressSanitizer") != std::string::npos) vh::viol("sanitizer-report-after-allocation-failure", "%s", o.err.substr(0, 600).c_str());
      else vh::stat_add("clean_stops", 1);
      if (o.wrong) vh::viol("wrong-result-before-stopping", "%ld", o.wrong);
      if (i % 17 == 1 && at == total / 2 && !once) vh::sample("allocation %ld of %ld fails: \"%s\", %s", at, total, o.err.substr(0, o.err.find('\n')).c_str(), vh::st().cur);
    }
    vh::distinct("cases", vh::mix(i, style));
  }
  return vh::done();
}
