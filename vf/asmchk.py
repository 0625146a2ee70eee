"""C29: a function written with the asm form does what the instructions written in it do. Functions that mix C expressions and
statements with asm (casts of asm, asm applied to arguments, nested asm, registers, loads and stores with offset and alignment,
globals, calls, macro parameters as immediates, shadowed names) are generated together with a WebAssembly text module of our
own that has the same instructions in the same order; both run and every result, variable, byte of memory and global is compared."""
import os, shutil, tempfile
import struct
from .core import Failure, run_wasm, engine
from .cgen import wcpl_compile
from .drv import HEAD
from .gen_asm import gen_asm, BASE, NMEM

NAMES = ["t", "unit", "a1", "asmcode"]


def reference(wat, calls, kinds, uses_ptr):
    import wasmtime as w
    e = engine()
    st = w.Store(e)
    st.set_fuel(100_000_000)
    inst = w.Instance(st, w.Module(e, wat), [])
    ex = inst.exports(st)

    def show(k, v):
        if k == "i":
            return "%x " % (v & 0xffffffff)
        if k == "l":
            return "%x " % (v & 0xffffffffffffffff)
        if v != v:
            return "n "
        return "%x " % (struct.unpack("<I", struct.pack("<f", v))[0] if k == "f" else struct.unpack("<Q", struct.pack("<d", v))[0])
    out = []
    for fn, args in calls:
        r = ex[fn](st, *(list(args) + ([BASE] if uses_ptr[fn] else [])))
        if not isinstance(r, (list, tuple)):
            r = [r]
        ks = kinds[fn]
        assert len(ks) == len(r)
        s = [show(k, v) for k, v in zip(ks, r)]
        out.append("".join(s[1:] + s[:1]))
    m = ex["m"]
    s = bytes(m.read(st, BASE, BASE + NMEM)).hex() + " "
    for g, k in zip(("g0", "g1", "g2", "g3"), "ildf"):
        s += show(k, ex[g].value(st))
    out.append(s)
    return out


def c29(ctx):
    tree = ctx.tree
    tree.build()
    ctx.cov["rule"] = ("generated functions mixing C with asm forms are compiled (all -O levels; to WASM, WAT, and through object files) and called, and every result, every named "
                       "variable, the bytes of an array and four globals are compared with the same instructions assembled by the runtime from a text module of our own; "
                       "a key is an instruction, form or output mode that was executed")

    def job(i):
        r = ctx.rng("asm", i)
        cnt = {}
        name = r.choice(NAMES)
        text, wat, calls, kinds, up = gen_asm(r, cnt, HEAD, name)
        res = {"evals": 0, "failures": [], "keys": set(), "counts": cnt}
        if i == 0:
            res["samples"] = [{"program": text[len(HEAD):][:3000]}]
        want = reference(wat, calls, kinds, up)
        d = tempfile.mkdtemp(prefix="as", dir=ctx.scratch)
        try:
            src = name + ".c"
            with open(os.path.join(d, src), "w") as f:
                f.write(text)
            files = {src: text, "ref.wat": wat}
            opts = ["-O%d" % r.randrange(4)]
            mode = r.choice(["wasm", "wasm", "wo", "wat"])
            if mode == "wo":
                q = wcpl_compile(tree, d, ["-c", src], name + ".wo", opts)
                if q.rc == 0:
                    q = wcpl_compile(tree, d, [name + ".wo"], "o.wasm", opts)
            else:
                q = wcpl_compile(tree, d, [src], "o." + mode, opts)
            if q.rc:
                res["failures"].append(Failure("rejected", "a well-formed program is not compiled (%s, %s): %s" % (opts, mode, q.err[-700:].decode("latin1")), files))
                return res
            p = os.path.join(d, "o.wat" if mode == "wat" else "o.wasm")
            x = run_wasm(p, tmp=d)
            if x.invalid or x.trap or x.code != 0:
                res["failures"].append(Failure("run", "%s, %s: %s" % (opts, mode, (x.invalid or x.trap or "exit code %s" % x.code)), files))
                return res
            got = x.out.decode("latin1").split("\n")
            if got and got[-1] == "":
                got.pop()
            res["evals"] = sum(len(kinds[c[0]]) for c in calls) + NMEM + 4
            for k, (a, b) in enumerate(zip(got + ["(nothing)"] * len(want), want)):
                if a != b:
                    what = "call %d: %s%r" % (k, calls[k][0], tuple(calls[k][1])) if k < len(calls) else "the final memory and globals"
                    res["failures"].append(Failure("value", "%s, %s: %s gives\n  %s\nits instructions give\n  %s" % (opts, mode, what, a, b), files))
                    return res
            if len(got) != len(want):
                res["failures"].append(Failure("value", "more output than calls", files))
            res["keys"] = {mode + opts[0]} | set(cnt)
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(job, range(ctx.n(600, 12000)))


CHECKS = {"C29": c29}
