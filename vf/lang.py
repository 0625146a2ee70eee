"""Language-semantics checks: random programs, the real compiler, the reference stream."""
import hashlib, os, re, shutil, tempfile
from .core import Inconclusive, Failure, Failed, run_wasm
from .cgen import diff_run, wcpl_compile, ref_compile, Obs, INTS
from . import gens, gen_call, gen_const, gen_pp, gen_seq, gen_peep, gen_lit, gen_big

RULE = ("random programs in the dialect; each is compiled by the tree's wcpl and by the reference (clang -O0 --target=wasm32 with "
        "UBSan minimal handlers), both modules run, and every observation the program emits (id:value) is compared; an observation "
        "made after undefined behaviour is dropped. evaluations = compared observations; distinct_nontrivial = distinct programs with "
        "at least 20 compared observations")


BIG = set(gen_big.KINDS) | {"big"}


def diff_job(ctx, gen, tag, i, opts=(), obj=None):
    """One program: returns an absorb()-able result."""
    rng = ctx.rng(tag, i)
    stats = {}
    x = gen(rng, stats)
    text = x[0] if isinstance(x, tuple) else x
    try:
        r = diff_run(ctx.tree, ctx.scratch, text, opts=opts, tag=tag, obj=obj)
    except Inconclusive as e:
        if "reference compiler rejected" in str(e):
            return {"counts": {"reference_rejected": 1, "programs": 1}}
        raise
    h = hashlib.sha1(text.encode()).hexdigest()[:16]
    res = {"evals": r["evals"], "keys": [h] if r["evals"] >= (1 if tag in BIG else 20) else [],
           "counts": {"programs": 1, "observations_dropped_after_ub": r.get("ub", 0)},
           "sets": {"constructs": set(stats)}}
    if i < 2:
        res["samples"] = [{"generator": tag, "program_tail": text[-700:], "observations": r["evals"]}]
    if r["failure"]:
        res["failures"] = [r["failure"]]
    return res


def run_gens(ctx, plan):
    """plan: list of (tag, gen(rng, stats), quick count, thorough count[, opts])"""
    ctx.cov["rule"] = RULE
    ctx.assumptions += ["clang 18 -O0 for wasm32 is a correct reference for defined ILP32 C",
                        "wasmtime executes modules as the WebAssembly specification says"]
    jobs = []
    for e in plan:
        tag, gen, q, t = e[:4]
        opts = e[4] if len(e) > 4 else ()
        objs = e[5] if len(e) > 5 else (None,)
        jobs += [(tag, gen, i, opts, objs[i % len(objs)]) for i in range(ctx.n(q, t))]
    import random
    random.Random(1).shuffle(jobs)

    def job(j):
        tag, gen, i, opts, obj = j
        o = opts(ctx.rng("opts", tag, i)) if callable(opts) else opts
        return diff_job(ctx, gen, tag, i, o, obj)
    ctx.pmap(job, jobs, chunk=2)
    if ctx.cov.get("reference_rejected", 0) > 0.05 * max(1, ctx.cov.get("programs", 0)):
        raise Inconclusive("the reference compiler rejected %d of %d generated programs" % (ctx.cov["reference_rejected"], ctx.cov["programs"]))


def c01(ctx):
    ctx.tree.build()
    run_gens(ctx, [("expr", lambda r, s: gens.gen_expr_program(r, stats=s), 800, 20000),
                   ("assign", lambda r, s: gens.gen_assign_program(r, stats=s), 300, 8000),
                   ("peep", lambda r, s: gen_peep.gen_peep_program(r, stats=s), 200, 6000)])


def c02(ctx):
    ctx.tree.build()
    run_gens(ctx, [("flow", lambda r, s: gens.gen_flow_program(r, stats=s), 700, 16000),
                   ("seq", lambda r, s: gen_seq.gen_seq_program(r, stats=s), 350, 8000)])


def c03(ctx):
    ctx.tree.build()
    run_gens(ctx, [("data", lambda r, s: gens.gen_data_program(r, stats=s), 700, 16000),
                   ("litaddr", lambda r, s: gen_lit.gen_litaddr_program(r, stats=s), 100, 2000)])


def c04(ctx):
    ctx.tree.build()
    run_gens(ctx, [("fexpr", lambda r, s: gens.gen_expr_program(r, floats=True, stats=s), 700, 16000),
                   ("fassign", lambda r, s: gens.gen_assign_program(r, floats=True, stats=s), 250, 6000)])


def c05(ctx):
    ctx.tree.build()
    run_gens(ctx, [("call", lambda r, s: gen_call.gen_call_program(r, stats=s), 700, 16000)])


def c06(ctx):
    """the same program at every optimisation level"""
    ctx.tree.build()
    ctx.cov["rule"] = ("random programs from every generator, compiled by the tree's wcpl at -O0 -O1 -O2 -O3 -O9; evaluations = observations of one level "
                       "compared with -O3's; distinct_nontrivial = distinct programs whose -O0 and -O3 modules differ (something was optimised)")
    ctx.assumptions.append("programs whose first difference follows undefined behaviour (as the reference detects it) are not judged")
    G = [("expr", lambda r, s: gens.gen_expr_program(r, stats=s)), ("assign", lambda r, s: gens.gen_assign_program(r, stats=s)),
         ("flow", lambda r, s: gens.gen_flow_program(r, stats=s)), ("data", lambda r, s: gens.gen_data_program(r, stats=s)),
         ("fexpr", lambda r, s: gens.gen_expr_program(r, floats=True, stats=s)), ("call", lambda r, s: gen_call.gen_call_program(r, stats=s)), ("pp", lambda r, s: gen_pp.gen_pp_program(r, stats=s)),
         ("seq", lambda r, s: gen_seq.gen_seq_program(r, stats=s)), ("peep", lambda r, s: gen_peep.gen_peep_program(r, stats=s))]

    def job(j):
        gi, i = j
        tag, gen = G[gi]
        stats = {}
        x = gen(ctx.rng(tag, i), stats)
        text = x[0] if isinstance(x, tuple) else x
        d = tempfile.mkdtemp(prefix="o", dir=ctx.scratch)
        try:
            with open(d + "/t.c", "w") as f:
                f.write(text)
            out, mods = {}, {}
            for lv in ("0", "1", "2", "3", "9"):
                r = wcpl_compile(ctx.tree, d, ["t.c"], "o%s.wasm" % lv, ("-O", lv))
                if r.timeout or r.rc != 0:
                    return {"failures": [Failure("reject:O" + lv, "wcpl -O %s: rc=%s %s" % (lv, r.rc, r.err[:600]), {"t.c": text})]}
                w = run_wasm(d + "/o%s.wasm" % lv, tmp=d)
                if w.invalid:
                    return {"failures": [Failure("invalid:O" + lv, "module at -O %s does not validate: %s" % (lv, w.invalid), {"t.c": text})]}
                out[lv] = (w.out, w.code, bool(w.trap))
                mods[lv] = open(d + "/o%s.wasm" % lv, "rb").read()
            n = out["3"][0].count(b"\n")
            for lv in ("0", "1", "2", "9"):
                if out[lv] != out["3"]:
                    r0 = diff_run(ctx.tree, d, text, ("-O", lv), "O" + lv)
                    r3 = diff_run(ctx.tree, d, text, ("-O", "3"), "O3", refout=r0["refout"])
                    f = r0["failure"] or r3["failure"]
                    if f:
                        f.detail = "-O %s and -O 3 give different programs; " % lv + f.detail
                        return {"evals": n, "failures": [f]}
            return {"evals": 4 * n, "keys": [hashlib.sha1(text.encode()).hexdigest()[:16]] if mods["0"] != mods["3"] else [],
                    "counts": {"programs": 1, "bytes_removed_by_O3": len(mods["0"]) - len(mods["3"])}, "sets": {"constructs": set(stats)},
                    "samples": [{"generator": tag, "sizes": {k: len(v) for k, v in mods.items()}}] if i < 1 else []}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    jobs = [(g, i) for g in range(len(G)) for i in range(ctx.n(60, 2000))]
    ctx.pmap(job, jobs)


def c07(ctx):
    ctx.tree.build()
    ctx.cov["rule"] = ("random constant expressions used as global, array and struct initializers, local displays, enum values, array sizes, case labels, "
                       "static assertions, macros and plain code; the expected values come from a reference execution in which every operand is a run-time "
                       "variable (with UBSan, expressions with undefined behaviour dropped). evaluations = observations and assertions compared; "
                       "distinct_nontrivial = distinct expressions placed in a constant context")

    def job(i):
        rng = ctx.rng("const", i)
        stats = {}
        defs, ex = gen_const.make_exprs(rng, i % 3 == 0, 60, stats)
        d = tempfile.mkdtemp(prefix="k", dir=ctx.scratch)
        try:
            with open(d + "/r.c", "w") as f:
                f.write(gen_const.run_text(defs, ex))
            ref_compile(d, "r.c", "r.wasm")
            rr = run_wasm(d + "/r.wasm", tmp=d, export="refmain_")
            vals = {int(k, 16): v.decode() for k, v, ub in Obs(rr.out).items if not ub}
            if len(vals) < 10:
                raise Inconclusive("reference stream too short: %s" % rr.brief())
            text, exp = gen_const.const_text(rng, defs, ex, vals, stats)
            with open(d + "/t.c", "w") as f:
                f.write(text)
            files = {"t.c": text, "r.c": open(d + "/r.c").read()}
            r = wcpl_compile(ctx.tree, d, ["t.c"], "t.wasm")
            if r.rc != 0:
                return {"failures": [Failure("constreject", "wcpl rejects or crashes on valid constants: rc=%s %s" % (r.rc, r.err[:900].decode("latin1")), files)]}
            w = run_wasm(d + "/t.wasm", tmp=d)
            got = Obs(w.out).items
            n = 0
            for j, (k, v) in enumerate(exp):
                if j >= len(got) or (int(got[j][0], 16), got[j][1].decode()) != (k, v):
                    return {"evals": n, "failures": [Failure("constdiff", "expression %d `%s`: compile-time value %s, run-time value %s (%s)" % (
                        k, ex[k].s, got[j][1].decode() if j < len(got) else "(none)", v, w.trap or w.invalid or ""), files)]}
                n += 1
            # a false assertion is diagnosed
            c = [k for k in vals if ex[k].t in INTS and gen_const.is_const(ex[k], defs)]
            for k in rng.sample(c, min(2, len(c))):
                ft = gen_const.false_assert_text(rng, defs, ex[k], vals[k])
                with open(d + "/f.c", "w") as f:
                    f.write(ft)
                r = wcpl_compile(ctx.tree, d, ["f.c"], "f.wasm")
                n += 1
                if r.rc == 0 or b"assert" not in r.err:
                    return {"evals": n, "failures": [Failure("falseassert", "a false static assertion is accepted (or not diagnosed): rc=%s %s" % (r.rc, r.err[:300]), {"f.c": ft})]}
            return {"evals": n, "keys": [hashlib.sha1((ex[k].s + str([defs[int(z)] for z in re.findall(r"K(\d+)", ex[k].s)])).encode()).hexdigest()[:12] for k in vals],
                    "counts": {"programs": 1, "dropped_undefined": len(ex) - len(vals)}, "sets": {"constructs": set(stats)},
                    "samples": [{"expr": ex[k].s, "value": vals[k]} for k in list(vals)[:1]] if i < 3 else []}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(job, range(ctx.n(400, 10000)))


def c08(ctx):
    ctx.tree.build()
    run_gens(ctx, [("pp", lambda r, s: gen_pp.gen_pp_program(r, stats=s), 1000, 20000)])


def many_modules(ctx, i):
    """a program of many modules whose result the harness computes itself"""
    r = ctx.rng("many", i)
    n = r.choice([2, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 150])
    nf, ng = r.randint(1, 4), r.randint(1, 5)
    M = 0xffffffff
    d = tempfile.mkdtemp(prefix="mm", dir=ctx.scratch)
    try:
        g = [[r.randint(0, 99) for _ in range(ng)] for _ in range(n)]
        dep = [[r.randrange(k) for _ in range(r.randint(1, 4))] if k else [] for k in range(n)]
        mul = [r.randint(1, 9) for _ in range(n)]
        files = {}
        val = []
        for k in range(n):
            files["m%d.h" % k] = "#pragma once\nextern unsigned g%d[%d];\nextern const char *s%d;\n%s\n" % (
                k, ng, k, "\n".join("extern unsigned f%d_%d(unsigned x);" % (k, j) for j in range(nf)))
            seen = sorted(set(dep[k]))
            c = ["#include \"m%d.h\"" % x for x in [k] + seen]
            c.append("unsigned g%d[%d] = { %s };\nconst char *s%d = \"%s\";\nstatic unsigned t[3] = { %d, 2, 3 };\nstatic unsigned h(unsigned x) { t[1] = t[1] + 1; return x * %d + t[0]; }" % (
                k, ng, ", ".join("%du" % x for x in g[k]), k, "same" if k % 3 == 0 else "s%d" % k, k, mul[k]))
            for j in range(nf):
                e = "h(x) + g%d[%d]" % (k, j % ng)
                for x in dep[k]:
                    e += " + g%d[%d] * %du + (unsigned)s%d[1]" % (x, (j + 1) % ng, j + 1, x)
                if j == 0 and dep[k]:
                    e += " + (x & 1u ? f%d_0(x >> 1) : 0u)" % dep[k][0]
                c.append("unsigned f%d_%d(unsigned x) { return %s; }" % (k, j, e))
            files["m%d.c" % k] = "\n".join(c) + "\n"

        def f(k, j, x):
            s = lambda q: ord("a") if q % 3 == 0 else ord(str(q)[0])
            v = x * mul[k] + k + g[k][j % ng]
            for q in dep[k]:
                v += g[q][(j + 1) % ng] * (j + 1) + s(q)
            if j == 0 and dep[k] and x & 1:
                v += f(dep[k][0], 0, x >> 1)
            return v & M
        ask = [(k, j, r.choice([0, 1, 5, 255, 1023, r.getrandbits(16)])) for k in range(n) for j in range(nf)]
        files["mainm.c"] = "#include <stdio.h>\n" + "".join("#include \"m%d.h\"\n" % k for k in range(n)) + "int main(void) {\n" + "".join(
            "  printf(\"%%u\\n\", f%d_%d(%du));\n" % a for a in ask) + "  return 0;\n}\n"
        for k, v in files.items():
            with open(d + "/" + k, "w") as h:
                h.write(v)
        srcs = ["m%d.c" % k for k in range(n)] + ["mainm.c"]
        r.shuffle(srcs)
        if r.random() < .5:
            for q in range(len(srcs)):
                if r.random() < .6:
                    o = srcs[q][:-2] + r.choice([".wo", ".o"])
                    x = wcpl_compile(ctx.tree, d, [srcs[q]], o, ("-c",), lib=False)
                    if x.rc or x.timeout:
                        return {"failures": [Failure("many-reject", "wcpl -c %s: %s" % (srcs[q], x.err[:400]), files)]}
                    srcs[q] = o
        x = wcpl_compile(ctx.tree, d, srcs, "t.wasm")
        if x.rc or x.timeout:
            return {"failures": [Failure("many-reject", "linking %d modules: rc=%s %s" % (n, x.rc, x.err[:400]), files)]}
        w = run_wasm(d + "/t.wasm", tmp=d)
        want = "".join("%d\n" % f(*a) for a in ask).encode()
        if w.invalid or w.trap or w.code or w.out != want:
            a, b = w.out.split(b"\n"), want.split(b"\n")
            z = next((q for q in range(min(len(a), len(b))) if a[q] != b[q]), min(len(a), len(b)))
            return {"failures": [Failure("many-diff", "%d modules: invalid=%s trap=%s code=%s; call f%s: got %s expected %s" % (
                n, w.invalid, w.trap, w.code, ask[z:z + 1], a[z:z + 1], b[z:z + 1]), files)]}
        return {"evals": len(ask), "keys": ["many%d" % i], "counts": {"programs": 1, "modules_linked": n + 1}, "sets": {"constructs": {"many modules"}}}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c31(ctx):
    ctx.tree.build()
    opt = lambda r: r.choice([(), (), ("-O", "0"), ("-O", "1"), ("-O", "2")])
    run_gens(ctx, [("big", lambda r, s: gen_big.gen_big_program(r, stats=s), 700, 12000, opt, (None, None, ".wo", ".o", ".wat"))] +
             [(k, lambda r, s, k=k: gen_big.gen_big_program(r, stats=s, only=[k]), 12, 200) for k in gen_big.KINDS])
    ctx.pmap(lambda i: many_modules(ctx, i), list(range(ctx.n(60, 1000))), chunk=2)
    ctx.cov["rule"] = ctx.cov["rule"].replace("at least 20 compared observations", "at least one compared observation")


CHECKS = {"C31": c31, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}
