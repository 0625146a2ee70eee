"""C12: the compiler compiled by itself behaves as the native compiler."""
import glob, os, re, shutil, tempfile
from .core import REPO, Failure, Inconclusive, run_wasm, sh, engine
from . import gens, gen_call, gen_seq, gen_peep, gen_mod, gen_lit, gen_pp
from .robust import mutate, CTOK, CDICT, WTOK, WDICT, too_big

FUEL = 60_000_000_000
_mod = {}


def module(path):
    """the self-compiled compiler, compiled once per process"""
    if path not in _mod:
        import wasmtime
        with open(path, "rb") as f:
            _mod[path] = wasmtime.Module(engine(), f.read())
    return _mod[path]


def norm(e):
    """messages without what may legitimately vary: texts of system errors, and which of several equal case labels comes first"""
    e = re.sub(rb"(error (?:reading|writing|opening)[^:\n]*: ?)[^\n]*", rb"\1", e)
    if re.search(rb": duplicate [^\n]*case", e):
        return re.search(rb"duplicate [^\n]*", e).group(0)
    return e


NOTE = re.compile(rb"\(; [^;]*;\)")


def c12(ctx):
    ctx.tree.build(lib=True)
    T = ctx.tree
    levels = ["0", "1", "2", "3"]
    selfs = {}
    for o in levels:
        p = os.path.join(ctx.scratch, "self%s.wasm" % o)
        x = sh([T.exe, "-q", "-O", o, "-s", "4000000", "-L", T.lib, "-I", T.inc, "-o", p, "c.c", "l.c", "p.c", "w.c"], cwd=REPO, timeout=120)
        if x.rc or not os.path.exists(p):
            f = Failure("selfcompile", "the compiler does not compile itself at -O %s: exit status %s\n%s" % (o, x.rc, x.err.decode("latin1")[:1500]))
            ctx.failures.append(f)
            return
        selfs[o] = p
    seeds = []
    for f in sorted(glob.glob(REPO + "/tests/*.c") + glob.glob(REPO + "/lib/src/*.c") + glob.glob(REPO + "/examples/*.c")):
        with open(f, encoding="latin1") as h:
            seeds.append((os.path.relpath(f, REPO), h.read()))
    wos = []
    for f in sorted(glob.glob(T.lib + "/**/*.wo", recursive=True)):
        with open(f, encoding="latin1") as h:
            wos.append((os.path.basename(f), h.read()))
    GENS = [gens.gen_expr_program, gens.gen_assign_program, gens.gen_flow_program, gens.gen_data_program, gen_call.gen_call_program,
            gen_seq.gen_seq_program, gen_peep.gen_peep_program, gen_lit.gen_lit_program, gen_pp.gen_pp_program]

    def both(d, cmd, outs, level):
        """run the native and the self-compiled compiler on the same files; (problem or None, native exit status)"""
        got = []
        for who in ("native", "self"):
            for o in outs:
                if os.path.exists(os.path.join(d, o)):
                    os.unlink(os.path.join(d, o))
            if who == "native":
                for l, t in (("lib", T.lib), ("inc", T.inc)):
                    os.symlink(t.rstrip("/"), os.path.join(d, l))
                x = sh([T.exe] + cmd, cwd=d, timeout=120)
                for l in ("lib", "inc"):
                    os.unlink(os.path.join(d, l))
                if x.timeout or x.rc not in (0, 1, 2):
                    return "unjudged", x.rc
                rc, out, err = x.rc, x.out, x.err
            else:
                x = run_wasm(module(selfs[level]), argv=[T.exe] + cmd, preopen=[(d, "."), (T.lib, "lib"), (T.inc, "inc")], fuel=FUEL, tmp=ctx.scratch)
                if x.trap or x.invalid:
                    return "the self-compiled compiler (-O %s) %s; the native one exits with status %d" % (level, "traps: " + x.trap if x.trap else x.invalid, got[0][0]), got[0][0]
                rc, out, err = x.code, x.out, x.err
            files = {}
            for o in outs:
                p = os.path.join(d, o)
                files[o] = open(p, "rb").read() if os.path.exists(p) else None
            got.append((rc, out, err, files))
        (a, b) = got
        if a[0] != b[0]:
            return "exit status %s, of the self-compiled compiler (-O %s) %s\n%s\n--\n%s" % (a[0], level, b[0], a[2].decode("latin1")[:600], b[2].decode("latin1")[:600]), a[0]
        for o in outs:
            if o.endswith(("t", "o")):          # numbers in comments are printed by the library's %g
                for x in (a, b):
                    x[3][o] = x[3][o] and NOTE.sub(b"(;;)", x[3][o])
            if a[3][o] != b[3][o]:
                return "output %s of the self-compiled compiler (-O %s) differs: %s" % (o, level, firstdiff(a[3][o], b[3][o])), a[0]
        if norm(a[2]) != norm(b[2]):
            return "messages of the self-compiled compiler (-O %s) differ:\n%s\n--\n%s" % (level, a[2].decode("latin1")[:800], b[2].decode("latin1")[:800]), a[0]
        if a[1] != b[1]:
            return "standard output of the self-compiled compiler (-O %s) differs:\n%s\n--\n%s" % (level, a[1].decode("latin1")[:800], b[1].decode("latin1")[:800]), a[0]
        return None, a[0]

    def firstdiff(a, b):
        if a is None or b is None:
            return "written by one of them only"
        n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return "%d and %d bytes, at byte %d: %r and %r" % (len(a), len(b), n, a[max(0, n - 40):n + 40], b[max(0, n - 40):n + 40])

    def gensrc(r):
        g = r.choice(GENS)
        x = g(r)
        x = x[0] if isinstance(x, tuple) else x
        return g.__name__, x.encode().decode("latin1")

    def dated(t):
        return "__DATE__" in t or "__TIME__" in t or "\0" in t

    def job(j):
        kind, i = j
        r = ctx.rng(kind, i)
        d = tempfile.mkdtemp(prefix="j", dir=ctx.scratch)
        res = {"evals": 0, "keys": [], "failures": [], "counts": {}, "sets": {}, "samples": []}
        level = levels[i % 4]

        def put(n, t):
            with open(os.path.join(d, n), "w", encoding="latin1", newline="") as f:
                f.write(t)

        def judge(cmd, outs, key, files):
            p, rc = both(d, cmd, outs, level)
            res["evals"] += 1
            if p == "unjudged":
                res["counts"]["unjudged"] = res["counts"].get("unjudged", 0) + 1
                return True
            k = "accepted" if rc == 0 else "rejected"
            res["counts"][k] = res["counts"].get(k, 0) + 1
            if p:
                f = Failure("self-" + key, "%s\nwcpl %s" % (p, " ".join(cmd)))
                for n, t in files.items():
                    f.files[n] = t.encode("latin1")
                res["failures"].append(f)
                return False
            return True
        lib = ["-L", "lib/", "-I", "inc/"]
        try:
            if kind == "self":
                # the second generation equals the first
                for f in glob.glob(REPO + "/*.[ch]"):
                    shutil.copy(f, d)
                o = levels[i // 4 % 4]
                cmd = ["-q", "-O", o, "-s", "4000000"] + lib + ["-o", "x.wasm", "c.c", "l.c", "p.c", "w.c"]
                judge(cmd, ["x.wasm"], "itself", {})
                res["keys"].append(("self", level, o))
            elif kind == "repo":
                name, t = seeds[i // 4]
                main = re.search(r"\bint\s+main\s*\(", t)
                for f in glob.glob(os.path.join(REPO, os.path.dirname(name), "*.[ch]")):
                    shutil.copy(f, d)
                if dated(t):
                    return res
                out = r.choice(["x.wasm", "x.wat"]) if main and r.random() < .8 else "x.wo"
                cmd = ["-q", "-O", r.choice("0123")] + (["-c"] if out == "x.wo" else []) + lib + ["-o", out, os.path.basename(name)]
                judge(cmd, [out], "repo", {name: t})
                res["keys"].append((name, level, out))
                res["samples"].append({"input": name, "command": " ".join(cmd), "level": level})
                res["sets"]["programs"] = [name]
            elif kind == "mod":
                files, order, _ = gen_mod.gen_modules(r)
                order = [n + ".c" for n in order]
                for n, t in files.items():
                    put(n, t)
                out = r.choice(["x.wasm", "x.wat"])
                wo = []
                for n in order:
                    if r.random() < .4:
                        if not judge(["-q", "-c", "-O", r.choice("0123")] + lib + ["-I", "./", "-o", n[:-2] + ".wo", n], [n[:-2] + ".wo"], "object", files):
                            return res
                        if os.path.exists(os.path.join(d, n[:-2] + ".wo")):
                            n = n[:-2] + ".wo"
                    wo.append(n)
                judge(["-q", "-O", r.choice("0123")] + lib + ["-I", "./", "-o", out] + wo, [out], "modules", files)
                res["keys"].append((hash(str(sorted(files.items()))), level))
            else:
                for k in range(12):
                    m = r.choice([0, 0, 1, 1, 2, 4])
                    if kind == "gen":
                        name, base = r.choice(seeds) if r.random() < .15 else gensrc(r)
                        t = mutate(r, base, m, CTOK, CDICT) if m else base
                        if too_big(t) or dated(t):
                            continue
                        out = r.choice(["x.wasm", "x.wo", "x.wat"])
                        put("t.c", t)
                        cmd = (["-q"] if r.random() < .8 else []) + ["-O", r.choice("0123")] + (["-c"] if out == "x.wo" else []) + lib + ["-o", out, "t.c"]
                        files = {"t.c": t}
                    elif kind == "wo":
                        name, base = r.choice(wos)
                        t = mutate(r, base, m, WTOK, WDICT) if m else base
                        out = r.choice(["x.wasm", "x.wat"])
                        put("t.wo", t)
                        put("m.c", "#include <stdio.h>\nint main(void) { printf(\"%d\", 1); return 0; }\n")
                        cmd = ["-q", "-O", r.choice("0123")] + lib + ["-o", out, "m.c", "t.wo"]
                        files = {"t.wo": t}
                    if not judge(cmd, [out], name if m == 0 else "mutant", files):
                        return res
                    res["keys"].append((hash(t), level, out))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    jobs = [("self", i) for i in range(ctx.n(4, 16))] + [("repo", i) for i in range(4 * len(seeds)) if not ctx.quick or i % 4 == ctx.seed % 4]
    jobs += [("gen", i) for i in range(ctx.n(60, 1500))] + [("wo", i) for i in range(ctx.n(8, 200))]
    jobs += [("mod", i) for i in range(ctx.n(24, 400))]
    ctx.pmap(job, jobs)
    ctx.cov["rule"] = "a distinct input with the optimisation level of the self-compiled compiler and the kind of output"
    ctx.assumptions.append("the native compiler's behaviour is judged by the other checks; inputs holding __DATE__ or __TIME__ are not compared")


CHECKS = {"C12": c12}
