"""Common machinery: build the tree under test into a scratch directory, run the real
compiler / the compiled programs, collect observations, decide, write evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, random, traceback, signal
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WCPL_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
LIBMODS = ["crt", "crt.args", "crt.argv", "crt.void", "ctype", "dirent", "errno", "fcntl", "fenv",
           "math", "stat", "stdio", "stdlib", "string", "time", "unistd"]
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}


class Inconclusive(Exception):
    """The harness could not decide (tool failure, nothing observed)."""


class Failure:
    """One observed violation. key identifies it for the known-findings file."""
    def __init__(self, key, detail, files=None):
        self.key, self.detail, self.files = key, detail, files or {}


def clean_env(extra=None):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": "/tmp"}
    if extra:
        env.update(extra)
    return env


class Proc:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def sh(cmd, cwd=None, env=None, stdin=b"", timeout=120):
    """Run a native command; a timeout is re-tried once and then reported as such.  The compiler
    itself (which a bug may send into endless allocation) gets a memory limit."""
    if os.path.basename(cmd[0]).startswith("wcpl"):
        if env and "ASAN_OPTIONS" in env:
            for k in ("ASAN_OPTIONS", "MSAN_OPTIONS"):
                env[k] = (env[k] + ":" if env.get(k) else "") + "hard_rss_limit_mb=5000"
        else:
            cmd = ["prlimit", "--as=3000000000", "--"] + list(cmd)
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, cwd=cwd, env=clean_env(env), input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            return Proc(p.returncode, p.stdout, p.stderr)
        except subprocess.TimeoutExpired as e:
            if attempt:
                return Proc(None, e.stdout or b"", e.stderr or b"", True)
    raise AssertionError


class Tree:
    """A build of /repo's working tree inside a scratch directory."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.dir = os.path.join(scratch, "tree")
        os.makedirs(self.dir, exist_ok=True)
        self.inc = os.path.join(REPO, "lib/include") + "/"
        self.lib = os.path.join(self.dir, "lib") + "/"
        self.exe = os.path.join(self.dir, "wcpl")
        self.san = os.path.join(self.dir, "wcpl_san")

    def _compile(self, out, flags):
        srcs = [os.path.join(REPO, f) for f in ("c.c", "l.c", "p.c", "w.c")]
        objs, ps = [], []
        for s in srcs:
            o = out + "." + os.path.basename(s) + ".o"
            objs.append(o)
            ps.append(subprocess.Popen(["gcc", "-w", "-I", REPO] + flags + ["-c", s, "-o", o],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise Inconclusive("cannot build wcpl: " + o.decode("latin1")[-2000:])
        r = sh(["gcc"] + flags + ["-o", out] + objs + ["-lm"])
        if r.rc:
            raise Inconclusive("cannot link wcpl: " + r.err.decode("latin1")[-2000:])
        for o in objs:
            os.unlink(o)

    def build(self, san=False, lib=True):
        self._compile(self.exe, ["-g", "-O1"])
        if san:
            self._compile(self.san, ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                     "-fno-sanitize=alignment", "-fno-sanitize-recover=all"])
        if lib:
            self.build_lib(self.exe, self.lib)
        return self

    def build_lib(self, exe, outdir, opts=(), env=None):
        os.makedirs(outdir, exist_ok=True)
        src = os.path.join(REPO, "lib/src")
        mods = sorted(f[:-2] for f in os.listdir(src) if f.endswith(".c"))
        for m in mods:
            r = sh([exe, "-q"] + list(opts) + ["-c", "-I", "../include/", "-o", os.path.join(outdir, m + ".wo"), m + ".c"],
                   cwd=src, env=env)
            if r.rc:
                raise Failed(Failure("lib-build:" + m, "library source %s.c does not compile: %s" %
                                     (m, (r.err or b"").decode("latin1")[-1500:])))
        return mods


class Failed(Exception):
    def __init__(self, failure):
        super().__init__(failure.detail)
        self.failure = failure


# ---------------------------------------------------------------- running wasm

_eng = {}


def engine():
    if "e" not in _eng:
        import wasmtime
        cfg = wasmtime.Config()
        cfg.consume_fuel = True
        cfg.cranelift_opt_level = "none"
        cfg.max_wasm_stack = 1 << 20
        _eng["e"] = wasmtime.Engine(cfg)
    return _eng["e"]


class Run:
    """Outcome of one execution: code (exit code or None), trap (text or None), out, err (bytes)."""
    def __init__(self, code, trap, out, err, invalid=None):
        self.code, self.trap, self.out, self.err, self.invalid = code, trap, out, err, invalid

    def brief(self):
        return {"code": self.code, "trap": self.trap, "invalid": self.invalid,
                "out": self.out[:2000].decode("latin1"), "err": self.err[:500].decode("latin1")}


def run_wasm(path_or_bytes, argv=("prog",), env=(), stdin=b"", preopen=None, fuel=2_000_000_000, tmp=None,
             export="_start", memlimit=None, mapdir="."):
    import wasmtime as w
    e = engine()
    data = path_or_bytes
    if not isinstance(data, (bytes, bytearray, w.Module)):
        with open(data, "rb") as f:
            data = f.read()
    try:
        m = data if isinstance(data, w.Module) else w.Module(e, data)
    except w.WasmtimeError as x:
        return Run(None, None, b"", b"", invalid=str(x)[:1500])
    tmpd = tempfile.mkdtemp(prefix="rw", dir=tmp)
    try:
        so, se, si = (os.path.join(tmpd, n) for n in ("o", "e", "i"))
        with open(si, "wb") as f:
            f.write(stdin)
        store = w.Store(e)
        store.set_fuel(fuel)
        if memlimit:
            store.set_limits(memory_size=memlimit)
        wc = w.WasiConfig()
        wc.argv = list(argv)
        wc.env = list(env)
        wc.stdout_file, wc.stderr_file, wc.stdin_file = so, se, si
        if isinstance(preopen, list):
            for a, b in preopen:
                wc.preopen_dir(a, b)
        elif preopen:
            wc.preopen_dir(preopen, mapdir)
        store.set_wasi(wc)
        l = w.Linker(e)
        l.define_wasi()
        code, trap, inv = 0, None, None
        try:
            inst = l.instantiate(store, m)
        except (w.WasmtimeError, w.Trap) as x:
            return Run(None, None, b"", b"", invalid="instantiate: " + str(x)[:1500])
        try:
            inst.exports(store)[export](store)
        except w.ExitTrap as x:
            code = x.code
        except w.Trap as x:
            code, trap = None, x.message.strip().splitlines()[-1]
            low = str(x)
            if "fuel" in low:
                trap = "fuel exhausted"
        except w.WasmtimeError as x:
            code, trap = None, str(x)[:300]
            if "fuel" in trap:
                trap = "fuel exhausted"
        del inst, store
        with open(so, "rb") as f:
            o = f.read()
        with open(se, "rb") as f:
            er = f.read()
        return Run(code, trap, o, er)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


# ---------------------------------------------------------------- the check driver

class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.tree = Tree(scratch)
        self.quick = tier != "thorough"
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.failures = []
        self._distinct = set()
        self.level = "exploration"
        self.known = load_known().get(prop, {})

    def n(self, quick, thorough):
        k = quick if self.quick else thorough
        s = os.environ.get("VERIF_SCALE")
        return max(1, int(k * float(s))) if s else k

    def rng(self, *key):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, "/".join(map(str, key))))

    # merging of per-job results
    def absorb(self, res):
        """res: dict with evals, keys (hashable identities of nontrivial cases), failures, samples, counts"""
        self.cov["evaluations"] += res.get("evals", 0)
        self._distinct.update(res.get("keys", ()))
        for s in res.get("samples", ()):
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(s)
        for k, v in res.get("counts", {}).items():
            self.cov[k] = self.cov.get(k, 0) + v
        for k, v in res.get("sets", {}).items():
            self._sets = getattr(self, "_sets", {})
            self._sets.setdefault(k, set()).update(v)
        self.failures.extend(res.get("failures", ()))

    def pmap(self, fn, jobs, chunk=1, stop_on_fail=True):
        """Run fn(job) in worker processes; fn returns a result dict."""
        if NPROC <= 1:
            for j in jobs:
                self.absorb(fn(j))
                if stop_on_fail and self.failures:
                    break
            return
        if "e" in _eng:
            raise RuntimeError("wasmtime used before a fork")
        global _cur
        _cur = (fn, list(jobs))             # inherited by the forked workers
        with mp.get_context("fork").Pool(NPROC) as pool:
            for r in pool.imap_unordered(_guarded, range(len(_cur[1])), chunk):
                if "error" in r:
                    pool.terminate()
                    raise Inconclusive(r["error"])
                self.absorb(r)
                if stop_on_fail and len([f for f in self.failures if f.key not in self.known]) >= 3:
                    pool.terminate()
                    break


_cur = None


def _guarded(i):
    fn, jobs = _cur
    job = jobs[i]
    try:
        return fn(job)
    except Failed as f:
        return {"evals": 1, "failures": [f.failure]}
    except BaseException:
        return {"error": "job %r: %s" % (str(job)[:200], traceback.format_exc()[-3000:])}


def load_known():
    """known_findings.txt lines:
    finding: property=Cxx key=<key> <what fails>
    fixed: property=Cxx <commit> <what failed>"""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line[len("finding: "):].split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                known.setdefault(prop, {})[key] = parts[2] if len(parts) > 2 else key
    return known


def main(prop, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="wcplv_%s_" % prop)
    ctx = Ctx(prop, tier, seed, base)
    code = 2
    try:
        try:
            fn(ctx)
        except Failed as f:
            ctx.failures.append(f.failure)
        known = ctx.known
        for k, d in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, d))
        real = [f for f in ctx.failures if f.key not in known]
        ctx.cov["distinct_nontrivial"] = len(ctx._distinct) or ctx.cov["distinct_nontrivial"]
        for k, v in getattr(ctx, "_sets", {}).items():
            ctx.cov[k] = len(v)
        if not real and ctx.cov["evaluations"] == 0:
            raise Inconclusive("the run observed nothing")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": ctx.level, "coverage": ctx.cov,
              "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(real)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if real:
            rp = os.path.join(VERIF, "evidence", "replay", prop)
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            for i, f in enumerate(real[:3]):
                d = os.path.join(rp, str(i))
                os.makedirs(d)
                with open(os.path.join(d, "what.txt"), "w") as o:
                    o.write("property %s tier %s seed %d\nkey %s\n\n%s\n" % (prop, tier, seed, f.key, f.detail))
                for n, data in f.files.items():
                    with open(os.path.join(d, n.replace("/", "_")), "wb") as o:
                        o.write(data if isinstance(data, (bytes, bytearray)) else str(data).encode())
                print("-- %s: %s" % (f.key, f.detail[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rp, "0")))
            code = 1
        else:
            print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" %
                  (prop, ctx.cov["evaluations"], ctx.cov["distinct_nontrivial"], time.time() - t0))
            code = 0
    except Inconclusive as x:
        print("INCONCLUSIVE property=%s %s" % (prop, x))
        code = 2
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(base, ignore_errors=True)
        sys.stdout.flush()
    sys.exit(code)
