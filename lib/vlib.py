"""Build/run/verdict machinery shared by every check."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 8

GCC = ["g++", "-std=c++11", "-w"]
CONFIGS = {
    "x86_default": dict(cc=["g++"], flags=[], run=[]),
    "x86_sse4": dict(cc=["g++"], flags=["-msse4.1"], run=[]),
    "x86_avx2": dict(cc=["g++"], flags=["-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], run=[]),
    "aarch64": dict(cc=["aarch64-linux-gnu-g++"], flags=[],
                    run=["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]),
    "aarch64_dotprod": dict(cc=["aarch64-linux-gnu-g++"],
                            flags=["-march=armv8.2-a+dotprod", "-DGEMMLOWP_DOTPROD_KERNEL"],
                            run=["qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"]),
    "armhf": dict(cc=["arm-linux-gnueabihf-g++"], flags=["-mfpu=neon"],
                  run=["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]),
}
# Targets with a compiler and a machine to run on but no C library here: headers are borrowed from the cross compilers,
# mini_rt.cc stands in for the runtime.
_A32, _A64 = "/usr/arm-linux-gnueabihf/include", "/usr/aarch64-linux-gnu/include"
_MINI = ["-DVH_MINI", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-math-errno",
         "-nostdlib", "-nostdlibinc", "-isystem", os.path.join(HARN, "mini_inc")]
_I32 = ["-D__ARM_PCS_VFP", "-isystem", _A32 + "/c++/13", "-isystem", _A32 + "/c++/13/arm-linux-gnueabihf", "-isystem", _A32]
_I64 = ["-isystem", _A64 + "/c++/13", "-isystem", _A64 + "/c++/13/aarch64-linux-gnu", "-isystem", _A64]
_MIPS = ["-mmsa", "-fno-pic", "-mno-abicalls", "-mno-gpopt", "-G0", "-static", "-fuse-ld=lld"]
_RT = [os.path.join(HARN, f) for f in ("mini_rt.cc", "mini_rt_cxx.cc")]
CONFIGS["wasm"] = dict(cc=["clang++", "--target=wasm32"], flags=["-msimd128"] + _MINI + _I32, src=_RT,
                       libs=["-Wl,--no-entry", "-Wl,-z,stack-size=1048576"], run=["node", os.path.join(HARN, "wasm_run.js")])
CONFIGS["msa32"] = dict(cc=["clang++", "--target=mipsel-linux-gnu"], flags=["-march=mips32r5", "-mfp64", "-mnan=2008"] + _MIPS + _MINI + _I32,
                        src=_RT, libs=[], run=["qemu-mipsel", "-cpu", "P5600"])
CONFIGS["msa64"] = dict(cc=["clang++", "--target=mips64el-linux-gnuabi64"], flags=["-march=mips64r6"] + _MIPS + _MINI + _I64,
                        src=_RT, libs=[], run=["qemu-mips64el", "-cpu", "I6400"])
MINI = [c for c in ("wasm", "msa32", "msa64") if shutil.which("clang++") and shutil.which(CONFIGS[c]["run"][0])]
MSA = [c for c in MINI if c != "wasm"]
X86 = ["x86_default", "x86_sse4", "x86_avx2"]
ARM = ["aarch64", "armhf"]
ALL = X86 + ARM
ALL6 = ALL + ["aarch64_dotprod"]

SAN = {
    "": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "asan_nofp": ["-fsanitize=address", "-fomit-frame-pointer"],
    "ubtrap": ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "halt_on_error=1:exit_code=66",
    "LSAN_OPTIONS": "exitcode=66",
}


WRAP_ALLOC = ["-Wl," + ",".join("--wrap=" + f for f in ("posix_memalign", "memalign", "aligned_alloc", "free"))]
WRAP_SCHED = ["-Wl," + ",".join("--wrap=" + f for f in (
    "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_broadcast", "pthread_cond_signal",
    "pthread_create", "pthread_join"))]


class CheckError(Exception):
    pass


class Job:
    """One harness executable in one configuration."""
    def __init__(self, name, src, config, defs=(), san="", opt="-O2", args=None, timeout=200, cc=None,
                 extra_src=(), link=(), runner=None, env=None, cores=1, repeat=1, flags=(), known_exit=None,
                 expect=None, std="c++11"):
        self.name, self.src, self.config = name, src, config
        self.defs, self.san, self.opt = list(defs), san, opt
        self.args = args or {}
        self.timeout, self.cc = timeout, cc
        self.extra_src, self.link, self.runner = list(extra_src), list(link), runner
        self.env, self.cores, self.repeat, self.flags = env or {}, cores, repeat, list(flags)
        self.expect, self.std = expect, std

    def build_key(self):
        return json.dumps([self.src, self.config, self.defs, self.san, self.opt, self.cc, self.extra_src, self.link,
                           self.flags, self.std])

    def label(self):
        return "%s/%s%s" % (self.name, self.config, "+" + self.san if self.san else "")


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viols = []      # (key, text, job label, command)
        self.stats = {}
        self.dist = {}
        self.samples = []
        self.per_job = {}
        self.notes = []
        self.lock = threading.Lock()

    def viol(self, key, text, label, cmd):
        with self.lock:
            self.viols.append((key, text, label, cmd))


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.res = Result(prop, self.tier, self.seed)
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="%s-" % prop, dir=base)
        self.res_slots = threading.Semaphore(NCPU)
        self.slot_lock = threading.Lock()
        self.keep = bool(os.environ.get("VERIF_KEEP"))
        self.known = load_known()
        self.stop = None                                    # set when a violation makes the rest of a quick run pointless
        self.deadline = self.t0 + (100000 if self.thorough else 800)
        self.nrun = 0
        self.skipped, self.errors = [], []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- building -------------------------------------------------------
    def _build_one(self, job, out):
        c = CONFIGS[job.config]
        cc = job.cc or c["cc"]
        cmd = list(cc) + ["-std=" + job.std, job.opt, "-w"] + c["flags"] + SAN[job.san] + \
            ["-I" + REPO, "-I" + HARN] + job.defs + job.flags + \
            [os.path.join(HARN, job.src)] + [s.replace("$REPO", REPO) for s in job.extra_src] + \
            c.get("src", []) + ["-o", out] + c.get("libs", ["-lpthread"]) + job.link
        if job.san or job.runner:
            cmd.insert(len(cc), "-g")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            err = "\n".join([l for l in p.stdout.splitlines() if "error" in l][:6]) or p.stdout[-1500:]
            raise CheckError("build failed: %s\n  %s\n%s" % (job.label(), " ".join(cmd), err))
        return out

    def build(self, jobs):
        keys = {}
        for j in jobs:
            keys.setdefault(j.build_key(), []).append(j)
        outs = {}
        t = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {}
            for i, (k, js) in enumerate(keys.items()):
                out = os.path.join(self.work, "h%d_%s_%s" % (i, js[0].name, js[0].config))
                futs[k] = ex.submit(self._build_one, js[0], out)
            for k, f in futs.items():
                outs[k] = f.result()
        for j in jobs:
            j.exe = outs[j.build_key()]
        self.res.notes.append("built %d executables in %.1fs" % (len(keys), time.time() - t))

    # ---- running --------------------------------------------------------
    def _cmd(self, job):
        run = CONFIGS[job.config]["run"] if job.runner is None else job.runner
        args = ["%s=%s" % (k, v) for k, v in job.args.items()]
        return list(run) + [job.exe] + args

    def _run_once(self, job, timeout):
        """Returns (exit status, stdout, stderr, why): why is None, "hang" (no progress: harnesses print a tick every few
        seconds while they advance), "slow" (progress, but out of time) or "stopped" (a violation was found elsewhere)."""
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(job.env)
        cmd = self._cmd(job)
        with self.res.lock:
            self.nrun += 1
            base = os.path.join(self.work, "run%d" % self.nrun)
        quiet = 1500 if self.thorough else 150
        why = None
        with open(base + ".out", "wb") as fo, open(base + ".err", "wb") as fe:
            try:
                p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, cwd=self.work, start_new_session=True)
            except OSError as e:
                raise CheckError("cannot run %s: %s" % (cmd, e))
            t = last = time.time()
            size = -1
            while True:
                try:
                    p.wait(0.3)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                n = os.path.getsize(base + ".out")
                if n != size:
                    size, last = n, now
                if now - last > quiet:
                    why = "hang"
                elif now - t > timeout or now > self.deadline:
                    why = "slow"
                elif self.stop and now > self.stop + 15:
                    why = "stopped"
                if why:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        with open(base + ".out", "rb") as f:
            out = f.read().decode("utf8", "replace")
        with open(base + ".err", "rb") as f:
            err = f.read(4 << 20).decode("utf8", "replace")
        for x in (".out", ".err"):
            os.unlink(base + x)
        return p.returncode, out, err, why

    def _report_key(self, err):
        """A stable key for a sanitizer report."""
        m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([\w\- ]+?)(?: \(| on | in |$|:)", err, re.M)
        if m:
            return "%s:%s" % (m.group(1), re.sub(r"[^\w]+", "-", m.group(2).strip()))
        m = re.search(r"runtime error: ([^\n]*)", err)
        if m:
            return "UBSan:" + re.sub(r"[^A-Za-z]+", "-", m.group(1))[:60]
        return None

    def _exec(self, job):
        take = min(job.cores, NCPU)
        with self.slot_lock:
            for _ in range(take):
                self.res_slots.acquire()
        try:
            if self.stop or time.time() > self.deadline or not job.exe:
                self.skipped.append(job.label())
                return {}
            rc, out, err, why = self._run_once(job, job.timeout)
            if why == "hang" and not self.stop:
                rc, out, err, why = self._run_once(job, job.timeout)
        finally:
            for _ in range(take):
                self.res_slots.release()
        label = job.label()
        cmdline = " ".join(self._cmd(job))
        got_viol = False
        stats, dist = {}, {}
        done = False
        for line in out.splitlines():
            if line.startswith("VIOL "):
                parts = line[5:].split(" ", 1)
                self.res.viol(parts[0], parts[1] if len(parts) > 1 else "", label, cmdline)
                got_viol = True
            elif line.startswith("STAT "):
                f = line.split()
                stats[f[1]] = stats.get(f[1], 0) + int(f[2])
            elif line.startswith("DIST "):
                f = line.split()
                dist[f[1]] = dist.get(f[1], 0) + int(f[2])
            elif line.startswith("SAMPLE "):
                with self.res.lock:
                    self.res.samples.append("[%s] %s" % (label, line[7:]))
            elif line == "DONE":
                done = True
        k = self._report_key(err) if (job.san or job.expect == "report") else None
        if job.runner and "valgrind" in job.runner[0] and rc == 66:
            k = "valgrind:" + (re.search(r"==\d+== (Invalid \w+ of size|Conditional jump|Use of uninit|Syscall param)", err) or
                               [None, "error"])[1].replace(" ", "-")
        if k:
            last = [l for l in err.splitlines() if "#" in l or "ERROR" in l or "runtime error" in l or "WARNING" in l or "by 0x" in l or "at 0x" in l]
            self.res.viol(k, " / ".join(x.strip() for x in last[:14]), label, cmdline)
            got_viol = True
        elif why == "hang":
            self.res.viol("hang", "no progress, twice (last output: %s)" % out[-300:], label, cmdline)
            got_viol = True
        elif why:
            self.skipped.append("%s (%s)" % (label, why))
        elif not got_viol and (rc != 0 or not done):
            if rc < 0 or rc >= 128 or rc in (66, 134, 139):
                self.res.viol("crash", "exit %d: %s" % (rc, (err or out)[-600:].replace("\n", " / ")), label, cmdline)
            else:
                raise CheckError("%s ended with %d, no verdict: %s" % (label, rc, (err or out)[-800:]))
        if got_viol:
            self._maybe_stop()
        with self.res.lock:
            for n, v in stats.items():
                self.res.stats[n] = max(self.res.stats.get(n, 0), v) if n.startswith("max") else self.res.stats.get(n, 0) + v
            for n, v in dist.items():
                self.res.dist[n] = self.res.dist.get(n, 0) + v
            pj = self.res.per_job.setdefault(label, {})
            for n, v in list(stats.items()) + [("distinct_" + a, b) for a, b in dist.items()]:
                pj[n] = pj.get(n, 0) + v
        return stats

    def _new_viols(self):
        """Violations that are not listed as known findings, and the listed ones that were met."""
        new, hit = [], {}
        for key, text, label, cmd in list(self.res.viols):
            full = "%s %s @%s" % (key, text, label)
            for kf in self.known:
                if kf.get("status") == "known" and kf["property"] == self.prop and re.search(kf["match"], full):
                    hit.setdefault(kf["id"], kf)
                    break
            else:
                new.append((key, text, label, cmd))
        return new, hit

    def _maybe_stop(self):
        if not self.stop and not self.thorough and self._new_viols()[0]:
            self.stop = time.time()

    def run(self, jobs):
        t = time.time()
        with cf.ThreadPoolExecutor(NCPU * 2) as ex:
            futs = [ex.submit(self._exec, j) for j in jobs for _ in range(j.repeat)]
            for f in futs:
                f.result()
        self.res.notes.append("ran %d processes in %.1fs" % (sum(j.repeat for j in jobs), time.time() - t))

    def go(self, jobs):
        """Builds and runs, each executable running as soon as it is built."""
        t = time.time()
        keys = {}
        for j in jobs:
            keys.setdefault(j.build_key(), []).append(j)
        built = []

        def build(i, js):
            if self.stop or time.time() > self.deadline:
                self.skipped += [j.label() for j in js]
                for j in js:
                    j.exe = None
                return
            for _ in range(1):
                self.res_slots.acquire()
            try:
                out = self._build_one(js[0], os.path.join(self.work, "h%d_%s_%s" % (i, js[0].name, js[0].config)))
            finally:
                self.res_slots.release()
            built.append(time.time() - t)
            for j in js:
                j.exe = out

        # A configuration that does not build or run is reported and left out; the verdict rests on the others.
        with cf.ThreadPoolExecutor(NCPU) as bx, cf.ThreadPoolExecutor(64) as rx:
            bf = {bx.submit(build, i, js): js for i, js in enumerate(keys.values())}
            rf = []
            for f in cf.as_completed(bf):
                try:
                    f.result()
                except CheckError as e:
                    self.errors.append(str(e))
                    continue
                for j in bf[f]:
                    for _ in range(j.repeat):
                        rf.append(rx.submit(self._exec, j))
            for f in rf:
                try:
                    f.result()
                except CheckError as e:
                    self.errors.append(str(e))
        for e in self.errors:
            print("ERROR: " + e)
        if not built:
            raise CheckError("nothing could be built")
        self.res.notes.append("built %d executables (last after %.1fs), ran %d processes, %.1fs in all" %
                              (len(keys), max(built), sum(j.repeat for j in jobs), time.time() - t))

    # ---- verdict --------------------------------------------------------
    def finish(self, eval_stat, dist_class, rule, extra=None, min_eval=1, exhaustive=False):
        r = self.res
        new, hit = self._new_viols()
        if self.skipped:
            r.notes.append("not finished: " + ", ".join(self.skipped))
        for e in self.errors:
            r.notes.append("error: " + e)
        stats = eval_stat if isinstance(eval_stat, (list, tuple)) else [eval_stat]
        evals = sum(r.stats.get(s, 0) for s in stats)
        dcls = dist_class if isinstance(dist_class, (list, tuple)) else [dist_class]
        dn = sum(r.dist.get(s, 0) for s in dcls)
        cov = {"evaluations": int(evals), "distinct_nontrivial": int(dn), "rule": rule,
               "samples": r.samples[:12] or ["(none)"], "observed": r.stats, "distinct": r.dist,
               "per_configuration": r.per_job, "notes": r.notes}
        if exhaustive:
            cov["exhaustive"] = True
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kf in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
        print("%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs violations=%d" %
              (self.prop, self.tier, self.seed, evals, dn, time.time() - self.t0, len(new)))
        for n in sorted(r.stats):
            print("  observed %-38s %d" % (n, r.stats[n]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.txt")
            with open(rp, "w") as f:
                f.write("property %s seed %d tier %s\nreplay: VERIF_SEED=%d python3 check.py %s %s\n" %
                        (self.prop, self.seed, self.tier, self.seed, self.prop, self.tier))
                for key, text, label, cmd in new:
                    f.write("\n[%s] %s\n  %s\n  command: %s\n" % (key, label, text, cmd))
            for key, text, label, cmd in new[:8]:
                print("  %s %s: %s" % (key, label, text[:500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            self.cleanup()
            return 1
        self.cleanup()
        if evals < min_eval or dn < 1:
            print("ERROR: the monitors observed too little (%d evaluations, %d distinct)" % (evals, dn))
            return 2
        return 0

    def cleanup(self):
        if not self.keep:
            shutil.rmtree(self.work, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def scale(check, quick, thorough):
    return thorough if check.thorough else quick
