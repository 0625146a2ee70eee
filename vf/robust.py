"""C13: the compiler and linker on every kind of input, under AddressSanitizer and UndefinedBehaviorSanitizer."""
import glob, os, random, re, shutil, tempfile
from .comp import respell
from .core import Failure, Inconclusive, REPO, sh
from . import gens, gen_call, gen_pp, gen_seq, gen_peep, gen_lit, gen_simd, gen_big
from .gen_asm import gen_asm

SANENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0",
          "MSAN_OPTIONS": "allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1"}

def gen_asm_program(r):
    return gen_asm(r, {}, "static void oc_(int c) { return; } static void ou_(unsigned long long v) { return; } static void oi_(int v) { return; } static void od_(double d) { return; } "
                   "static void ob_(const void *p, int n) { return; } static void nl_(void) { return; } static void flush_(void) { return; }")[0]


GENS = [gen_asm_program, gen_asm_program, gens.gen_expr_program, gens.gen_assign_program, gens.gen_flow_program, gens.gen_data_program, gen_call.gen_call_program,
        gen_pp.gen_pp_program, gen_seq.gen_seq_program, gen_peep.gen_peep_program, gen_lit.gen_lit_program, gen_simd.gen_simd_program]

CTOK = re.compile(r'[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d+\.?\d*(?:[eE][+-]?\d+)?\w*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\''
                  r'|//[^\n]*|/\*.*?\*/|<<=|>>=|\.\.\.|->|\+\+|--|&&|\|\||[-+*/%&|^<>=!]=|<<|>>|##|\s+|.', re.S)
WTOK = re.compile(r'\$?[A-Za-z_][\w.:$]*|"(?:\\.|[^"\\\n])*"|-?\d+|\s+|.', re.S)
CDICT = ("int char short long unsigned signed float double void struct union enum typedef static extern const volatile register auto if "
         "else while for do switch case default break continue return goto sizeof alignof alignas offsetof generic static_assert asm size_t bool NULL "
         "true false va_list va_arg va_start simd v128_t inline restrict _Noreturn #define #undef #if #ifdef #endif #else #pragma #include "
         "#error #line # ## ( ) [ ] { } ; , . -> ... + - * / % & | ^ ~ ! = == != < > <= >= << >> && || ? : ++ -- += -= *= /= <<= 0 1 -1 "
         "2147483647 2147483648 4294967295u 9223372036854775807LL 0x8000000000000000ULL 18446744073709551615ULL 0.0 1e308 1e-320 "
         "1.0f 0x1p-1074 'a' '\\0' '\\377' \"\" \"abc\" \"a\\0b\" L'x' L\"w\" main argc __LINE__ __FILE__ x y f a b p").split(" ")
WDICT = ("( ) module import export func param result local global mut i32 i64 f32 f64 v128 data type table elem memory start if "
         "then else block loop br br_if br_table return call call_indirect drop select offset align end i32.const i64.const "
         "f32.const f64.const v128.const i8x16 i32.add i32.load i32.store8 local.get local.set global.get ref.func ref.data data.put_ref var const "
         "size=8 align=4 align=16 0 -1 1 4294967296 99999999999999999999 nan inf 0x1.0000000000000p+3 0x1.8p-99999999999 \"\" \"\\00\\ff\" "
         "\"\\zz\" $a:b $x offset=4 align=8 ;; (; ;)").split(" ")
WDICT += ["(; a (; b\n" + "x" * 3000 + "\n ;) c ;)", "(; " + "y" * 200 + "\n (;\n\n ;) (;;;) ;;) ", "(;" * 50 + ";)" * 50, "\n;;" + "z" * 5000 + "\n"]
WDICT += ['"\\u{%s41}"' % ("0" * k) for k in (5, 27, 28, 29, 30, 31, 32, 33, 60, 200)] + ["$" + "n" * 300 + ":y", "$a:" + "m" * 1000, '"' + "q" * 5000 + '"', "1" * 400, "0x" + "f" * 400,
          "i32.const " + "9" * 40, "f64.const 0x1." + "a" * 40 + "p+1", "align=" + "8" * 40, "\t" * 200]
CDICT += ["n" * 300, '"' + "s" * 5000 + '"', "/* " + "c\n" * 200 + "*/", "//" + "d" * 5000 + "\n", "0x" + "f" * 400, "1" * 400, "1." + "3" * 400, "1e" + "9" * 40, '"\\x' + "0" * 60 + '41"',
          "'\\x" + "0" * 60 + "41'", '"\\u20ac\\U0001F600"', "L'\\x10ffff'", '"\xc3\xa9\xf0\x9f\x98\x80\xff"', "(" * 200, "{" * 200, "-" * 301, "!" * 300, "\t" * 200]
ESCS = ["\\u{%s41}", "\\u{%s41}", "\\u{%s20ac}", "\\u{%sffffffff}", "\\x%s41", "\\u%s41", "\\%s", "\\n%s", "\xc3%s", "\xf0\x9f\x98\x80%s", "\\U%s0001F600"]
NUMS = ["0", "1", "255", "256", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775808", "1e400", "0x", "1e",
        "08", "1.5.2", "99999999999999999999", "0xffffffffffffffffff", "1e-400", "0x1p99999", "1u", "1llu", "'ab'", "''"]


def mutate(r, s, k, tokre, words):
    toks = tokre.findall(s)
    for _ in range(k):
        if not toks:
            break
        z = r.random()
        i = r.randrange(len(toks))
        j = min(len(toks), i + r.choice([1, 1, 1, 2, 3, 5, 20]))
        if z < .18:
            del toks[i:j]
        elif z < .28:
            toks[i:i] = toks[i:j]
        elif z < .36:
            q = r.randrange(len(toks))
            toks[i], toks[q] = toks[q], toks[i]
        elif z < .41:
            c = [q for q, t in enumerate(toks) if t[0] == '"' and len(t) > 1]
            if c:
                q = r.choice(c)
                p = r.randint(1, len(toks[q]) - 1)
                toks[q] = toks[q][:p] + r.choice(ESCS) % ("0" * r.choice([0, 1, 7, 27, 28, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64, 250])) + toks[q][p:]
        elif z < .56:
            toks[i] = r.choice(words)
        elif z < .70:
            toks[i:i] = [" ", r.choice(words), " "]
        elif z < .80:
            c = [q for q, t in enumerate(toks) if re.match(r'[$A-Za-z_]', t)]
            if c:
                toks[r.choice(c)] = toks[r.choice(c)]
        elif z < .88:
            q = r.randrange(len(toks))
            toks[i:i] = toks[q:q + r.choice([1, 3, 10, 40])]
        elif z < .92:
            c = [q for q, t in enumerate(toks) if t[0].isdigit()]
            if c:
                toks[r.choice(c)] = r.choice(NUMS)
        elif z < .955:
            t = toks[i]
            q = r.randrange(len(t) + 1)
            toks[i] = t[:q] + chr(r.choice([0, 1, 10, 34, 39, 92, 127, 128, 255, r.randrange(256)])) + t[q + r.choice([0, 1]):]
        elif z < .975:
            toks = toks[:i]
        else:
            toks[i:i] = [r.choice("([{*-!~&")] * r.choice([10, 100])
    return "".join(toks)


def signature(e):
    """a stable short name for a sanitizer report or an abort message"""
    m = re.search(r"(\w+\.[ch]):\d+:\d+: runtime error: ([^\n]*)", e)
    if m:
        fn = re.search(r"#0 0x\w+ in (\w+)", e)
        return "ub:%s:%s:%s" % (m.group(1), fn.group(1) if fn else "", re.sub(r"[^a-z]+", "-", re.sub(r"-?\d+", "", m.group(2).lower()))[:50])
    m = re.search(r"(\w+\.c):\d+: (\w+): Assertion", e)
    if m:
        return "assert:%s:%s" % (m.group(1), m.group(2))
    m = re.search(r"(?:Address|Memory)Sanitizer:? ([\w-]+)", e)
    if m:
        fs = [f for f in re.findall(r"#\d+ 0x\w+ in (\w+)", e) if not f.startswith("_")]
        return "asan:%s:%s" % (m.group(1), "-".join(fs[:2]))
    return "crash"


def judge(ctx, d, cmd, out, check_valid, exe):
    """Run the instrumented compiler; returns (rc, problem or None) with problem = (key, text)."""
    x = sh([exe] + cmd, cwd=d, timeout=100, env=dict(SANENV))
    e = (x.err or b"").decode("latin1")
    if x.timeout or "hard rss limit" in e:
        y = sh(["bash", "-c", "ulimit -v 3000000; exec \"$0\" \"$@\"", ctx.tree.exe] + cmd, cwd=d, timeout=60)
        if not y.timeout:
            return "slow", None
        return "timeout", ("hang", "the compiler does not terminate (60 s)")
    if "Sanitizer" in e or "runtime error:" in e or x.rc not in (0, 1, 2):
        return x.rc, (signature(e), "exit status %s: %s" % (x.rc, e[:3000]))
    if x.rc:
        if not e.strip():
            return x.rc, ("silent", "exit status %d without any message" % x.rc)
        return x.rc, None
    if not os.path.exists(os.path.join(d, out)):
        return 0, ("no-output", "exit status 0 but no output file " + out)
    if check_valid and out.endswith(".wasm"):
        import wasmtime
        from .core import engine
        with open(os.path.join(d, out), "rb") as f:
            b = f.read()
        try:
            wasmtime.Module(engine(), b)
        except wasmtime.WasmtimeError as w:
            return 0, ("invalid-module", "accepted, but the module is not valid: " + str(w)[:600])
    return 0, None


HUGE = re.compile(r"\d{7,}|0x[0-9a-fA-F]{6,}|1e\d|\de")


def too_big(t):
    """an array whose size may be enormous: resource use, not robustness"""
    return any(HUGE.search(m) for m in re.findall(r"\[([^\]\n]{0,80})", t)) or re.search(r"#define\s+\w+\s+\(?\d{7,}", t) is not None


OPTS = [[], ["-O", "0"], ["-O", "1"], ["-O", "2"], ["-O", "3"], ["-s", "4096"], ["-a", "0"], ["-a", "100"]]


def c13(ctx):
    ctx.tree.build(san=True)
    msan = os.path.join(ctx.scratch, "wcpl_msan")
    m = sh(["clang", "-w", "-g", "-O1", "-fsanitize=memory", "-fno-omit-frame-pointer", "-I", REPO, "-o", msan] +
           [os.path.join(REPO, f) for f in ("c.c", "l.c", "p.c", "w.c")] + ["-lm"])
    if m.rc:
        raise Inconclusive("cannot build with MemorySanitizer: " + m.err.decode("latin1")[-1000:])
    seeds = []
    for f in sorted(glob.glob(REPO + "/tests/*.c") + glob.glob(REPO + "/lib/src/*.c") + glob.glob(REPO + "/examples/*.c")):
        with open(f, encoding="latin1") as h:
            seeds.append((os.path.relpath(f, REPO), h.read()))
    wos = []
    for f in sorted(glob.glob(ctx.tree.lib + "/**/*.wo", recursive=True)):
        with open(f, encoding="latin1") as h:
            wos.append((os.path.basename(f), h.read()))
    tree = ctx.tree

    def mk(name, prob, files, cmd):
        f = Failure(prob[0], "%s\nwcpl %s\n%s" % (name, " ".join(cmd), prob[1]))
        for k, v in files.items():
            f.files[k] = v
        return f

    def gensrc(r):
        if r.random() < .3:
            n, t = r.choice(seeds)
            return n, t
        g = r.choice(GENS)
        x = g(r)
        x = x[0] if isinstance(x, tuple) else x
        return g.__name__, x.encode().decode("latin1")

    def job(j):
        kind, i = j
        r = ctx.rng(kind, i)
        d = tempfile.mkdtemp(prefix="j", dir=ctx.scratch)
        res = {"evals": 0, "keys": [], "failures": [], "counts": {}, "samples": []}
        try:
            for k in range({"plain": 1, "big": 2}.get(kind, 20)):
                base = None
                exe = msan if r.random() < .35 else tree.san
                if kind == "plain":
                    name, t = seeds[i // 4]
                    opts = ["-O", str(i % 4)]
                    main = re.search(r"\bint\s+main\s*\(", t)
                    out = "t.wasm" if main else "t.wo"
                    cmd = ["-q"] + opts + ([] if main else ["-c"]) + ["-L", tree.lib, "-I", tree.inc, "-o", out, os.path.join(REPO, name)]
                    cwd = os.path.dirname(os.path.join(REPO, name))
                    cmd[cmd.index(out)] = os.path.join(d, out)
                    valid, files = True, {}
                    x = judge(ctx, cwd, cmd, os.path.join(d, out), True, exe)
                elif kind == "big":            # large programs, which have to be accepted
                    name, t = "gen_big_program", gen_big.gen_big_program(r)
                    out = "t.wasm" if k == 0 else "t.wo"
                    cmd = ["-q"] + r.choice(OPTS[:5]) + (["-c"] if out == "t.wo" else []) + ["-L", tree.lib, "-I", tree.inc, "-o", out, "t.c"]
                    files = {"t.c": t.encode("latin1")}
                    valid = True
                elif kind == "c":
                    name, base = gensrc(r)
                    m = r.choice([0, 1, 1, 1, 2, 3, 8])
                    t = mutate(r, base, m, CTOK, CDICT)
                    if too_big(t) and not too_big(base):
                        continue
                    out = r.choice(["t.wasm", "t.wasm", "t.wo", "t.wat"])
                    cmd = ["-q"] + r.choice(OPTS) + (["-c"] if out == "t.wo" else []) + ["-L", tree.lib, "-I", tree.inc, "-o", out, "t.c"]
                    files = {"t.c": t.encode("latin1")}
                    valid = m == 0 or not ("asm" in t or "simd" in t or "wasm_" in t)
                else:
                    name, base = r.choice(wos)
                    if r.random() < .3:
                        base = respell(base, r)
                    t = mutate(r, base, r.choice([1, 1, 1, 2, 3]), WTOK, WDICT)
                    out = r.choice(["t.wasm", "t.wat"])
                    files = {"t.wo": t.encode("latin1"),
                             "m.c": b"#include <stdio.h>\nint main(void) { printf(\"%d\", 1); return 0; }\n"}
                    if re.search(r"size=\d{7,}", t) and not re.search(r"size=\d{7,}", base):
                        continue
                    cmd = ["-q", "-L", tree.lib, "-I", tree.inc, "-o", out, "t.wo", "m.c"]
                    valid = False
                if kind != "plain":
                    for n_, b in files.items():
                        with open(os.path.join(d, n_), "wb") as f:
                            f.write(b)
                    if os.path.exists(os.path.join(d, out)):
                        os.unlink(os.path.join(d, out))
                    x = judge(ctx, d, cmd, out, valid, exe)
                rc, prob = x
                res["evals"] += 1
                res["counts"]["exit_%s" % rc] = res["counts"].get("exit_%s" % rc, 0) + 1
                res["counts"]["msan_runs"] = res["counts"].get("msan_runs", 0) + (exe == msan)
                res["counts"]["runs_" + kind] = res["counts"].get("runs_" + kind, 0) + 1
                if prob is None and kind in ("plain", "big") and rc not in (0, "slow"):
                    prob = ("rejected", "a program that " + ("comes with the repository" if kind == "plain" else "is large") + " is rejected (exit status %s)" % rc)
                if prob:
                    res["failures"].append(mk(name, prob, files, cmd))
                    return res
                res["keys"].append((kind, name, hash(t) if kind != "plain" else i))
                if k == 0 and i < 2 and kind == "c":
                    res["samples"].append({"kind": kind, "seed program": name, "exit": rc})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def cmdline(ctx):
        """malformed command lines and files"""
        d = tempfile.mkdtemp(prefix="cl", dir=ctx.scratch)
        for n_, b in {"ok.c": b"int main(void) { return 0; }\n", "empty.c": b"", "nl.c": b"\n", "nul.c": b"\0\0\0", "noeol.c": b"int main(void) { return 0; }",
                      "bom.c": b"\xef\xbb\xbfint main(void) { return 0; }\n", "bs.c": b"int main(void) { return 0; }\\", "cm.c": b"int main(void) { return 0; } /*",
                      "str.c": b"char *s = \"abc", "chr.c": b"int c = '", "inc.c": b"#include", "inc2.c": b"#include <", "inc3.c": b"#include \"nofile\"\n",
                      "inc4.c": b"#include \"inc4\"\nint main(void) { return 0; }\n", "def.c": b"#define", "def2.c": b"#define f(a,", "empty.wo": b"", "par.wo": b"(((((((",
                      "bin.wo": bytes(range(256)), "bin.c": bytes(range(256)), "m.wo": b"(module $m)", "mm.wat": b"(module $m) (module $m)",
                      "long.c": b"int " + b"x" * 70000 + b";\nint main(void) { return 0; }\n",
                      "lstr.c": b"char *s = \"" + b"a" * 300000 + b"\";\nint main(void) { return 0; }\n",
                      "manyl.c": b"\n" * 100000 + b"int main(void) { return 0; }\n", "mid.c": b"int main(void) { return (" + b"1+" * 3000 + b"1); }\n",
                      "cmnt.c": b"/*" + b"*" * 100000 + b"/ int main(void) { return 0; }\n", "crlf.c": b"int main(void)\r\n{\r\n  return 0;\r\n}\r\n"}.items():
            with open(os.path.join(d, n_), "wb") as f:
                f.write(b)
        os.mkdir(os.path.join(d, "dir.c"))
        L = ["-L", ctx.tree.lib, "-I", ctx.tree.inc]
        files = sorted(os.listdir(d))
        cmds = [["-q"] + L + ["-o", "o.wasm", f] for f in files] + [["-q", "-c"] + L + ["-o", "o.wo", f] for f in files]
        cmds += [["-q"] + L + ["-o", "o.wasm", "ok.c", "m.wo"], ["-q"] + L + ["-o", "o.wasm", "ok.c", "ok.c"], ["-q"] + L + ["-o", "o.wasm", "m.wo", "m.wo", "ok.c"],
                 ["-q"] + L + ["-o"], ["-q"] + L + ["-s"], ["-q", "-L"], ["-q", "-I"], ["-q", "-O"], ["-q", "-zzz"], ["-q"] + L + ["-o", "o.wasm"],
                 ["-q"] + L + ["-o", "nodir/o.wasm", "ok.c"], ["-q"] + L + ["-o", ".", "ok.c"], ["-q"] + L + ["-o", "o.wasm", "nofile.c"],
                 ["-q"] + L + ["-s", "0", "-o", "o.wasm", "ok.c"], ["-q"] + L + ["-s", "abc", "-o", "o.wasm", "ok.c"], ["-q"] + L + ["-a", "-1", "-o", "o.wasm", "ok.c"],
                 ["-q", "-O", "9"] + L + ["-o", "o.wasm", "ok.c"], ["-q", "-O", "x"] + L + ["-o", "o.wasm", "ok.c"], ["-q", "-L", "nolib/"] + ["-o", "o.wasm", "ok.c"],
                 ["-q", "-c"] + L + ["ok.c"], ["-q"] + L + ["ok.c"], ["-q"] + L + ["-o", "o.txt", "ok.c"], ["-q"] + L + ["-o", "o.wasm", "/dev/null"], []]
        for c in cmds:
            if "o.wasm" in c:
                try:
                    os.unlink(os.path.join(d, "o.wasm"))
                except OSError:
                    pass
            x = sh([ctx.tree.san] + c, cwd=d, timeout=100, env=dict(SANENV))
            e = (x.err or b"").decode("latin1")
            ctx.cov["evaluations"] += 1
            ctx._distinct.add(("cmd", " ".join(c)))
            if x.timeout:
                ctx.failures.append(mk("command line", ("hang", "does not terminate"), {}, c))
            elif "Sanitizer" in e or "runtime error:" in e or x.rc not in (0, 1, 2):
                ctx.failures.append(mk("command line", (signature(e), "exit %s: %s" % (x.rc, e[:2000])), {}, c))
            elif x.rc and not e.strip():
                ctx.failures.append(mk("command line", ("silent", "exit %s without a message" % x.rc), {}, c))

    cmdline(ctx)
    jobs = [("plain", i) for i in range(len(seeds) * 4)] + [x for i in range(ctx.n(80, 4000)) for x in (("c", i), ("wo", i))] + [("big", i) for i in range(ctx.n(100, 2000))]
    if ctx.quick:
        rr = ctx.rng("pick")
        pl = [j for j in jobs if j[0] == "plain"]
        rr.shuffle(pl)
        jobs = [j for j in jobs if j[0] != "plain"] + pl[:50]
    ctx.pmap(job, jobs)
    ctx.cov["rule"] = "a run of the instrumented compiler or linker on a distinct input"
    ctx.assumptions.append("inputs nest at most a few hundred levels deep and declare no array of millions of elements; inline asm text is not validated")


CHECKS = {"C13": c13}
