"""Checks on the compiler/linker as a tool: its outputs, separate compilation, the run-time environment it sets up."""
import hashlib, os, random, re, shutil, tempfile, glob
from .core import Inconclusive, Failure, Failed, run_wasm, sh, REPO
from .cgen import wcpl_compile, diff_run, CLANG, Obs
from . import gens, gen_call, gen_pp, gen_seq, gen_peep, gen_mod, gen_lit
from .wasmdec import decode, diff, const_i32, Bad


def w2w(text):
    import wasmtime
    return bytes(wasmtime.wat2wasm(text))


GENS = [("expr", lambda r, s: gens.gen_expr_program(r, stats=s)), ("fexpr", lambda r, s: gens.gen_expr_program(r, floats=True, stats=s)),
        ("assign", lambda r, s: gens.gen_assign_program(r, floats=True, stats=s)), ("flow", lambda r, s: gens.gen_flow_program(r, stats=s)),
        ("data", lambda r, s: gens.gen_data_program(r, stats=s)), ("call", lambda r, s: gen_call.gen_call_program(r, stats=s)),
        ("pp", lambda r, s: gen_pp.gen_pp_program(r, stats=s)), ("seq", lambda r, s: gen_seq.gen_seq_program(r, stats=s)),
        ("peep", lambda r, s: gen_peep.gen_peep_program(r, stats=s)), ("lit", lambda r, s: gen_lit.gen_lit_program(r, stats=s))]


def text_of(x):
    return x[0] if isinstance(x, tuple) else x


def write_files(d, files):
    for k, v in files.items():
        with open(os.path.join(d, k), "w", newline="") as f:
            f.write(v)


def repo_programs():
    """self-contained programs that come with the repository"""
    return sorted(glob.glob(REPO + "/examples/*.c") + glob.glob(REPO + "/tests/*.c"))


# ---------------------------------------------------------------- C09

def layout_problem(m, wat, s_opt, a_opt, main_args):
    """m: decoded module, wat: its text. Returns a description of what is wrong or None."""
    g = dict(re.findall(r"\(global \$(\S+) .*\(i32\.const (-?\d+)\)\)", wat))
    sp = int(g.get("crt:sp$", -1))
    pages = m.mems[0][0] if len(m.mems) == 1 else None
    if pages is None:
        return "expected one memory, found %r" % (m.mems,)
    segs = []
    for off, data in m.datas:
        o = const_i32(off) if off else None
        if o is None:
            return "data segment without a constant offset"
        segs.append((o, len(data)))
    segs.sort()
    end = 0
    for o, n in segs:
        if o < end:
            return "data segments overlap at %d" % o
        if o == 0 and n:
            return "data placed at address 0 (NULL)"
        end = o + n
    if sp == -1:
        return None if "$crt:sp$" not in wat else "initial stack pointer not constant"
    if sp % 16:
        return "initial stack pointer %d is not 16-aligned" % sp
    if sp - s_opt < end:
        return "stack of %d bytes below %d overlaps data ending at %d" % (s_opt, sp, end)
    if sp - s_opt - end >= 16 + 65536:
        return "stack far larger than asked: sp %d, data end %d, -s %d" % (sp, end, s_opt)
    if "crt:stack_base" in g and int(g["crt:stack_base"]) != sp:
        return "stack_base %s differs from the initial stack pointer %d" % (g["crt:stack_base"], sp)
    if "crt:heap_base" in g:
        hb = int(g["crt:heap_base"])
        if hb < sp + (a_opt if main_args else 0) or hb % 16:
            return "heap_base %d does not lie %d bytes above the stack base %d" % (hb, a_opt, sp)
        if pages * 65536 < hb:
            return "memory of %d pages ends below heap_base %d" % (pages, hb)
    if pages * 65536 < sp:
        return "memory of %d pages ends below the stack base %d" % (pages, sp)
    return None


def module_problem(m, wasi_known):
    if set(m.exports) != {"memory", "_start"}:
        return "exports are %s" % sorted(m.exports)
    if m.exports["memory"][0] != 2 or m.exports["_start"][0] != 0:
        return "export kinds %r" % m.exports
    nimp = len(m.imports)
    t = m.funcs[m.exports["_start"][1] - nimp]
    if t != ((), ()):
        return "_start has type %r" % (t,)
    for im in m.imports:
        if im[0] != "wasi_snapshot_preview1" or im[2] != "func":
            return "import %r" % (im,)
    if len(set(im[:2] for im in m.imports)) != nimp:
        return "duplicate imports"
    # dead code: everything defined is reachable from _start (the linker keeps only what is referenced)
    elems = set(x for _, fs in m.elems for x in fs)
    seen, todo = set(), [m.exports["_start"][1]] + list(elems)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f >= nimp:
            for ins in m.codes[f - nimp][1]:
                if ins[0] == 0x10:
                    todo.append(ins[1])
    dead = [f for f in range(nimp + len(m.funcs)) if f not in seen]
    if dead:
        return "functions %s are in the module but unreachable from _start" % dead[:5]
    return None


def layout_job(ctx, i):
    """one object linked many times with -s/-a aimed so that the ends of data, stack, argument space fall around page boundaries"""
    rng = ctx.rng("layout", i)
    d = tempfile.mkdtemp(prefix="y", dir=ctx.scratch)
    try:
        n = rng.choice([0, 1, rng.randint(1, 200), rng.randint(60000, 70000), 65536 - rng.randint(0, 2000), rng.randint(1, 200000)])
        text = "%sint main(%s) { return %s; }\n" % (
            "static char pad[%d] = { %s };\nint at(int k) { return pad[k]; }\n" % (n, ", ".join("1" for _ in range(rng.randint(1, min(n, 3))))) if n else "",
            "int argc, char **argv" if i % 4 else "void", "at(0) - 1" if n else "0")
        write_files(d, {"t.c": text})
        r = wcpl_compile(ctx.tree, d, ["t.c"], "t.wo", ("-c",))
        if r.rc:
            return {"failures": [Failure("reject", "rc=%s %s" % (r.rc, r.err[:600].decode("latin1")), {"t.c": text})]}
        a = rng.choice([4096, 4097, 512, 513, rng.randint(512, 65536), 65536, 0])
        s, done, dist = rng.randint(1024, 200000), 0, set()
        for k in range(ctx.n(20, 60)):
            for o in ("t.wasm", "t.wat"):
                r = wcpl_compile(ctx.tree, d, ["t.wo"], o, ("-s", str(s), "-a", str(a)))
                if r.rc:
                    return {"failures": [Failure("reject", "-s %d -a %d: rc=%s %s" % (s, a, r.rc, r.err[:600].decode("latin1")), {"t.c": text})]}
            b, wat = open(d + "/t.wasm", "rb").read(), open(d + "/t.wat", encoding="latin1").read()
            m = decode(b)
            x = layout_problem(m, wat, s, a, "$crt:stack_base" in wat)
            if x:
                return {"failures": [Failure("layout", "-s %d -a %d: %s" % (s, a, x), {"t.c": text, "t.wat": wat})]}
            g = dict(re.findall(r"\(global \$(\S+) .*\(i32\.const (-?\d+)\)\)", wat))
            done += 1
            dist.add("%s.%s" % (m.mems[0][0], s))
            if rng.random() < .1:
                a = rng.choice([4096, 4097, 513, rng.randint(512, 65536)])
                continue
            # aim: either end near the next (or one after) page boundary
            e = int(g.get(rng.choice(["crt:heap_base", "crt:sp$"]), g.get("crt:sp$", 0)))
            s = s + (-e) % 65536 + rng.randint(-40, 40)
            if s > 400000:
                s = s % 65536 + 65536
            s = max(s, 1024)
        return {"evals": done, "keys": sorted(dist), "counts": {"aimed_links": done}}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c09(ctx):
    ctx.tree.build()
    ctx.cov["rule"] = ("each program is compiled to .wasm and to .wat with the same random -O/-s/-a; the .wat is assembled by an independent assembler "
                       "(wasmtime's), both binaries are decoded by an independent decoder and compared item by item (imports, tables, globals, exports, elements, data, "
                       "locals, every instruction and immediate), validated, and the memory layout, exports, imports and reachability are checked. evaluations = instructions "
                       "compared; distinct_nontrivial = distinct modules. Objects are also linked with -s/-a aimed so that the ends of the regions fall within 40 bytes of page boundaries (aimed_links)")
    progs = [("repo", p) for p in repo_programs()] * (1 if ctx.quick else 6)
    jobs = [("gen", g, i) for g in range(len(GENS)) for i in range(ctx.n(120, 3000))] + [("mod", 0, i) for i in range(ctx.n(150, 3000))] + [("repo", p, k) for k, (_, p) in enumerate(progs)] + \
           [("simd", 0, i) for i in range(ctx.n(20, 200))] + [("layout", 0, i) for i in range(ctx.n(64, 800))]
    random.Random(2).shuffle(jobs)

    def job(j):
        kind, g, i = j
        if kind == "layout":
            return layout_job(ctx, i)
        rng = ctx.rng("c09", kind, g, i)
        stats = {}
        d = tempfile.mkdtemp(prefix="w", dir=ctx.scratch)
        try:
            if kind == "gen":
                files, srcs = {"t.c": text_of(GENS[g][1](rng, stats))}, ["t.c"]
            elif kind == "mod":
                files, names, mainm = gen_mod.gen_modules(rng, stats)
                srcs = [n + ".c" for n in names]
                rng.shuffle(srcs)
            elif kind == "simd":
                files, srcs = {"t.c": simd_program(rng, stats)}, ["t.c"]
            else:
                files, srcs = {}, [g]
            write_files(d, files)
            lv, s, a = rng.choice(["0", "1", "3", "3", "3"]), rng.choice([131072, 131072, 1024, 1040, 4097, 65536, 1000000, 16777216, rng.randint(1024, 300000)]), rng.choice([4096, 4096, 0, 512, 513, 65536, rng.randint(512, 65536)])
            opts = ("-O", lv, "-s", str(s), "-a", str(a))
            for o in ("t.wasm", "t.wat"):
                r = wcpl_compile(ctx.tree, d, srcs, o, opts)
                if r.timeout or r.rc != 0:
                    return {"failures": [Failure("reject", "wcpl %s: rc=%s %s" % (o, r.rc, r.err[:800].decode("latin1")), files)]}
            b = open(d + "/t.wasm", "rb").read()
            wat = open(d + "/t.wat", encoding="latin1").read()
            files = dict(files, **{"t.wasm": b, "t.wat": wat})
            what = " ".join(opts) + " " + " ".join(srcs)
            try:
                mb = decode(b)
            except Bad as e:
                return {"failures": [Failure("malformed", "%s: the binary is malformed: %s" % (what, e), files)]}
            import wasmtime
            try:
                wasmtime.Module.validate(_engine(), b)
            except wasmtime.WasmtimeError as e:
                return {"failures": [Failure("invalid", "%s: the binary does not validate: %s" % (what, str(e)[:600]), files)]}
            try:
                tb = w2w(wat)
            except wasmtime.WasmtimeError as e:
                return {"failures": [Failure("watsyntax", "%s: the text is not valid WAT: %s" % (what, str(e)[:600]), files)]}
            mt = decode(tb)
            x = diff(mb, mt)
            if x:
                return {"failures": [Failure("watdiff", "%s: binary / text differ: %s" % (what, x), files)]}
            x = module_problem(mb, None) or layout_problem(mb, wat, s, a, "$crt:stack_base" in wat)
            if x:
                return {"failures": [Failure("layout", "%s: %s" % (what, x), files)]}
            n = sum(len(c[1]) for c in mb.codes)
            ops = set((i[0], i[1]) if i[0] in (0xfc, 0xfd) else i[0] for c in mb.codes for i in c[1])
            return {"evals": n, "keys": [hashlib.sha1(b).hexdigest()[:16]], "counts": {"modules": 1, "data_bytes": sum(len(x[1]) for x in mb.datas)}, "sets": {"opcodes_seen": ops, "constructs": set(stats)},
                    "samples": [{"srcs": srcs, "opts": opts, "instructions": n, "functions": len(mb.codes)}] if i < 1 else []}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(job, jobs, chunk=2)


_e = []


def _engine():
    if not _e:
        import wasmtime
        _e.append(wasmtime.Engine())
    return _e[0]


def simd_program(r, stats):
    from . import gen_simd
    return text_of(gen_simd.gen_simd_program(r, stats))


# ---------------------------------------------------------------- C10

def ref_modules(d, files, names, mainm):
    s0 = files[mainm + ".c"]
    with open(os.path.join(d, "refmain.c"), "w") as f:
        f.write(re.sub(r"int main\(int argc[^{]*{", "int main(void) {", s0))
    r = sh(CLANG + ["-Dmain=refmain_", "-o", "ref.wasm"] + [("refmain" if n == mainm else n) + ".c" for n in names], cwd=d)
    if r.rc:
        raise Inconclusive("reference rejects a generated module program: " + r.err.decode("latin1")[:1500])
    rr = run_wasm(os.path.join(d, "ref.wasm"), tmp=d, export="refmain_")
    if rr.trap or rr.invalid:
        raise Inconclusive("reference run failed: %s" % rr.brief())
    return rr


def obs_diff(ref, got):
    """first comparable difference between two observation streams"""
    a, b = Obs(ref).items, Obs(got).items
    for i, (k, v, ub) in enumerate(a):
        if ub:
            return None, i
        if i >= len(b):
            return "output stops after %d of %d observations" % (len(b), len(a)), i
        if (b[i][0], b[i][1]) != (k, v):
            return "observation %d: expected %s:%s, got %s:%s" % (i, k.decode(), v.decode(), b[i][0].decode(), b[i][1].decode()), i
    if len(b) > len(a):
        return "%d extra observations" % (len(b) - len(a)), len(a)
    return None, len(a)


_TOK = re.compile(r'\(;.*?;\)|[ \t\r\n]+|;;[^\n]*|"(?:[^"\\]|\\.)*"|[()]|[^\s()";]+|.', re.S)
_ESC = {"t": 9, "n": 10, "r": 13, "\\": 92, "'": 39, '"': 34}


def _respell_string(t, rng):
    """another spelling of a string token of the WebAssembly text format with the same bytes"""
    b, i, t = [], 0, t[1:-1]
    while i < len(t):
        if t[i] != "\\":
            b.append(ord(t[i]))
            i += 1
        elif t[i + 1] in _ESC and not re.match(r"[0-9a-fA-F]{2}", t[i + 1:i + 3]):
            b.append(_ESC[t[i + 1]])
            i += 2
        else:
            b.append(int(t[i + 1:i + 3], 16))
            i += 3
    names = {v: k for k, v in _ESC.items()}
    o, i, raw = [], 0, rng.random() < .6
    while i < len(b):
        c = b[i]
        n = 0
        if c >= 0x80:
            for k in (2, 3, 4):
                try:
                    u = bytes(b[i:i + k]).decode("utf-8")
                    if len(u) == 1:
                        n = k
                        break
                except UnicodeDecodeError:
                    pass
        r = rng.random()
        if n and r < .7:
            if r < .35:
                o.append("".join(map(chr, b[i:i + n])))
            else:
                o.append(_uesc(ord(u), rng))
            i += n
            continue
        if raw and 32 <= c < 127 and c not in (34, 92) and r < .7:
            o.append(chr(c))
        elif c in names and r < .5:
            o.append("\\" + names[c])
        elif c < 128 and r < .8:
            o.append(_uesc(c, rng))
        else:
            o.append(("\\%02x" if rng.random() < .5 else "\\%02X") % c)
        i += 1
    return '"' + "".join(o) + '"'


def _uesc(u, rng):
    h = ("%x" if rng.random() < .5 else "%X") % u
    return "\\u{" + h.zfill(rng.choice([1, 1, 1, 4, 6, 8, 20])) + "}"


def respell(text, rng):
    """an object module written differently: white space, comments, string escapes and numbers"""
    o = []
    ws = [" ", "  ", "\n", "\t", "\r\n", " ;; a comment ) \" (\n", " ;;\n", "(;;)", " (; block (; nested ;) \n ;; ) \" ;) ", "\n\n  ", " (;;;) "]
    for t in _TOK.findall(text):
        if t.isspace():
            o.append(t if rng.random() < .6 else rng.choice(ws))
        elif t[0] == '"':
            o.append(_respell_string(t, rng) if len(t) < 400 or rng.random() < .3 else t)
        elif re.fullmatch(r"-?(0|[1-9][0-9]*)", t) and rng.random() < .5:
            v = int(t)
            h = ("0x%x" if rng.random() < .5 else "0x%X") % abs(v)
            o.append(("-" if v < 0 or t[0] == "-" else rng.choice(["", "", "+"])) + rng.choice([h, "0x" + h[2:].zfill(12) if abs(v) < 1 << 32 else h, str(abs(v))]))
        elif t[:2] == "(;":
            o.append(rng.choice(["", " ", t]))
        elif t in "()" and rng.random() < .1:
            o.append(rng.choice(ws) + t + (rng.choice(ws) if t == ")" else ""))
        else:
            o.append(t)
    return "".join(o)


def c10(ctx):
    ctx.tree.build()
    ctx.cov["rule"] = ("random programs of 3-6 modules (headers, same-named statics, cross-module addresses, function pointers, struct returns, varargs) built in several ways: "
                       "all sources in one command, every module separately to .wo/.o/.wat and linked in a random order, mixed, and each build repeated from another directory; "
                       "evaluations = observations compared with the reference linker's program plus byte comparisons of repeated builds; distinct_nontrivial = distinct programs")

    def job(i):
        rng = ctx.rng("mod", i)
        stats = {}
        files, names, mainm = gen_mod.gen_modules(rng, stats)
        d = tempfile.mkdtemp(prefix="m", dir=ctx.scratch)
        d2 = tempfile.mkdtemp(prefix="another_place_", dir=ctx.scratch)
        try:
            write_files(d, files)
            write_files(d2, files)
            ref = ref_modules(d, files, names, mainm).out
            n = 0

            def build(dd, srcs, out, opts=()):
                r = wcpl_compile(ctx.tree, dd, srcs, out, opts)
                if r.timeout or r.rc:
                    raise Failed(Failure("reject", "wcpl %s -o %s %s: rc=%s %s" % (" ".join(opts), out, " ".join(srcs), r.rc, r.err[:800].decode("latin1")), files))
                return open(os.path.join(dd, out), "rb").read()

            def judge(out, how):
                w = run_wasm(os.path.join(d, out), tmp=d)
                if w.invalid:
                    raise Failed(Failure("invalid", "%s: module invalid: %s" % (how, w.invalid), files))
                x, k = obs_diff(ref, w.out)
                if x or (w.trap or w.code != 0):
                    raise Failed(Failure("moddiff", "%s: %s (trap=%s code=%s)" % (how, x, w.trap, w.code), files))
                return k
            srcs = [m + ".c" for m in names]
            rng.shuffle(srcs)
            a = build(d, srcs, "a.wasm")
            n += judge("a.wasm", "sources together: " + " ".join(srcs))
            if build(d2, srcs, "a.wasm") != a or build(d, srcs, "a2.wasm") != a:
                raise Failed(Failure("nondeterministic", "the same command gives different modules (or they depend on the directory)", files))
            # separately
            objs = {}
            for m in names:
                e = rng.choice([".wo", ".wo", ".o", ".wat"])
                x = build(d, [m + ".c"], m + e, ("-c",))
                if build(d2, [m + ".c"], m + e, ("-c",)) != x:
                    raise Failed(Failure("nondeterministic", "object module %s differs between two identical compilations" % m, files))
                objs[m] = m + e
                n += 1
            m = rng.choice(names)
            r = sh([ctx.tree.exe, "-q", "-c", "-I", ctx.tree.inc, m + ".c"], cwd=d)
            if r.rc or r.out != open(os.path.join(d, objs[m]), "rb").read():
                raise Failed(Failure("stdout", "-c to standard output differs from -o for module %s (rc=%s)" % (m, r.rc), files))
            order = list(names)
            rng.shuffle(order)
            b = build(d, [objs[m] for m in order], "b.wasm")
            n += judge("b.wasm", "objects: " + " ".join(objs[m] for m in order))
            rng.shuffle(order)
            mix = [objs[m] if rng.random() < .5 else m + ".c" for m in order]
            build(d, mix, "c.wasm")
            n += judge("c.wasm", "mixed: " + " ".join(mix))
            # same order, sources or objects: same program text
            c = build(d, [s[:-2] + os.path.splitext(objs[s[:-2]])[1] for s in srcs], "e.wasm")
            n += judge("e.wasm", "objects in source order")
            mods = [decode(x) for x in (a, b, c)]
            sizes = set((len(x.codes), tuple(sorted(len(y[1]) for y in x.codes)), sum(len(y[1]) for y in x.datas) // 64) for x in mods)
            if len(set(s[:2] for s in sizes)) != 1:
                raise Failed(Failure("content", "the linked module's functions depend on how the program was compiled: %s" % [(s[0], sum(s[1])) for s in sizes], files))
            return {"evals": n + 6, "keys": [hashlib.sha1(a).hexdigest()[:16]], "counts": {"programs": 1, "modules": len(names), "links": 4}, "sets": {"constructs": set(stats)},
                    "samples": [{"modules": names, "orders": [srcs, mix]}] if i < 2 else []}
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d2, ignore_errors=True)

    # every kind of program: directly, and through an object file of either spelling
    G = GENS + [("simd", simd_program)]

    def single(j):
        g, i = j
        rng = ctx.rng("one", g, i)
        name, fn = G[g]
        text = fn(rng, {})
        files = {"t.c": text_of(text)}
        d = tempfile.mkdtemp(prefix="o", dir=ctx.scratch)
        try:
            write_files(d, files)
            lv = rng.choice(["0", "1", "3", "3"])
            o = "t" + rng.choice([".wo", ".o", ".wat"])
            for srcs, out, opts in ((["t.c"], "a.wasm", ("-O", lv)), (["t.c"], o, ("-c", "-O", lv)), ([o], "b.wasm", ())):
                q = wcpl_compile(ctx.tree, d, srcs, out, opts)
                if q.timeout or q.rc:
                    return {"failures": [Failure("reject", "wcpl %s -o %s %s: rc=%s %s" % (" ".join(opts), out, " ".join(srcs), q.rc, q.err[:600].decode("latin1")), files)]}
            a, b = run_wasm(d + "/a.wasm", tmp=d), run_wasm(d + "/b.wasm", tmp=d)
            if b.invalid and not a.invalid:
                return {"failures": [Failure("invalid", "linked from %s: module invalid: %s" % (o, b.invalid), files)]}
            # the same object in another spelling of the text format links to the same bytes
            t = respell(open(d + "/" + o, encoding="latin1", newline="").read(), rng)
            with open(d + "/r.wo", "w", encoding="latin1", newline="") as f:
                f.write(t)
            q = wcpl_compile(ctx.tree, d, ["r.wo"], "r.wasm")
            files["r.wo"] = t
            if q.timeout or q.rc:
                return {"failures": [Failure("respell-reject", "the object module %s in another spelling of the text format (comments, white space, escapes, hexadecimal numbers) is rejected: rc=%s %s" % (o, q.rc, q.err[:400].decode("latin1")), files)]}
            if open(d + "/r.wasm", "rb").read() != open(d + "/b.wasm", "rb").read():
                return {"failures": [Failure("respell", "the object module %s in another spelling of the text format (comments, white space, escapes, hexadecimal numbers) links to different bytes" % o, files)]}
            if (a.out, a.code, bool(a.trap)) != (b.out, b.code, bool(b.trap)):
                k = next((k for k, (x, y) in enumerate(zip(a.out.split(b"\n"), b.out.split(b"\n"))) if x != y), -1)
                return {"failures": [Failure("objdiff", "%s program compiled at -O %s: linked from %s its output differs (line %d: %r instead of %r; %s instead of %s)" %
                                             (name, lv, o, k, b.out.split(b"\n")[k][:100], a.out.split(b"\n")[k][:100], (b.code, b.trap), (a.code, a.trap)), files)]}
            return {"evals": a.out.count(b"\n") + 2, "counts": {"single": 1, "respelled": 1}}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    js = [(g, i) for g in range(len(G)) for i in range(ctx.n(40 if G[g][0] != "simd" else 60, 800))]
    random.Random(5).shuffle(js)
    ctx.pmap(single, js)
    ctx.pmap(job, range(ctx.n(250, 6000)))


# ---------------------------------------------------------------- C15

def c15(ctx):
    ctx.tree.build()
    ctx.cov["rule"] = ("random literals (decimal, hexadecimal and octal integers with every suffix; decimal and hexadecimal floating constants over the whole range incl. "
                       "subnormals; characters and strings with every escape) in code, scalar, array and string initializers; compared with the reference compiler's values and, "
                       "through an object module, with the directly linked program. evaluations = values compared; distinct_nontrivial = distinct programs")

    def job(i):
        rng = ctx.rng("lit", i)
        stats = {}
        text = gen_lit.gen_lit_program(rng, stats)
        r = diff_run(ctx.tree, ctx.scratch, text, tag="lit")
        if r["failure"]:
            return {"evals": r["evals"], "failures": [r["failure"]]}
        n = r["evals"]
        d = tempfile.mkdtemp(prefix="l", dir=ctx.scratch)
        try:
            write_files(d, {"t.c": text})
            for srcs, out, o in ((["t.c"], "t.wo", ("-c",)), (["t.wo"], "t.wasm", ())):
                q = wcpl_compile(ctx.tree, d, srcs, out, o)
                if q.rc:
                    return {"evals": n, "failures": [Failure("wo", "rc=%s %s" % (q.rc, q.err[:600].decode("latin1")), {"t.c": text})]}
            w = run_wasm(d + "/t.wasm", tmp=d)
            x, k = obs_diff(r["refout"][0], w.out)
            if x:
                return {"evals": n, "failures": [Failure("wodiff", "through an object module: %s" % x, {"t.c": text, "t.wo": open(d + "/t.wo").read()})]}
            return {"evals": n + k, "keys": [hashlib.sha1(text.encode()).hexdigest()[:16]], "counts": {"programs": 1}, "sets": {"constructs": set(stats)},
                    "samples": [{"program_tail": text[-400:]}] if i < 2 else []}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(job, range(ctx.n(600, 15000)), chunk=2)


# ---------------------------------------------------------------- C26

SHUF = """#include <stdio.h>
#include <wasm_simd128.h>
int main(void) { v128_t a = wasm_i32x4_const(1, 2, 3, 4), b = wasm_i32x4_const(5, 6, 7, 8), c = wasm_i32x4_shuffle(a, b, %s);
  printf("%%d %%d %%d %%d\\n", wasm_i32x4_extract_lane(c, 0), wasm_i32x4_extract_lane(c, 1), wasm_i32x4_extract_lane(c, 2), wasm_i32x4_extract_lane(c, 3)); return 0; }
"""


def c26(ctx):
    from .lang import run_gens
    from . import gen_simd
    ctx.tree.build()
    run_gens(ctx, [("simd", lambda r, s: gen_simd.gen_simd_program(r, stats=s), 700, 16000)])
    ctx.cov["rule"] += "; every intrinsic of wasm.h and wasm_simd128.h is used with its documented prototype, the reference being clang's own <wasm_simd128.h> and plain C"
    # lanes of the second operand of a shuffle
    for k in range(4):
        r = ctx.rng("shuf", k)
        ix = [r.randint(0, 7) for _ in range(4)]
        if k == 0:
            ix = [0, 4, 3, 7]
        d = tempfile.mkdtemp(prefix="s", dir=ctx.scratch)
        write_files(d, {"t.c": SHUF % ", ".join(map(str, ix))})
        q = wcpl_compile(ctx.tree, d, ["t.c"], "t.wasm")
        w = run_wasm(d + "/t.wasm", tmp=d) if q.rc == 0 else None
        exp = " ".join(str(i + 1) for i in ix)
        got = w.out.decode("latin1").strip() if w else "rc %s" % q.rc
        ctx.cov["evaluations"] += 1
        if got != exp:
            ok = got == " ".join(str(i % 4 + 1) for i in ix)
            ctx.failures.append(Failure("shuffle-second-operand" if ok else "shuffle", "wasm_i32x4_shuffle(a, b, %s): expected %s, got %s" % (ix, exp, got), {"t.c": SHUF % ", ".join(map(str, ix))}))


CHECKS = {"C09": c09, "C10": c10, "C15": c15, "C26": c26}
