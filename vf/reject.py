"""C14: invalid programs are rejected with a located diagnostic and leave no output; failures to write are reported."""
import os, random, re, shutil, tempfile
from .core import Failure, Inconclusive, sh
from . import gens, gen_call, gen_seq, gen_peep
from .rejtab import STMT, RET, FLAT, TOP, HDR, LOOSE
from .robust import mutate, CTOK, CDICT, too_big

FRAME = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
%(pad0)s
struct st { int a; double d; char *s; struct st *next; int arr[3]; };
struct pt { int x; int y; };
union un { int i; float f; };
enum { E0, E1, E2 };
#define MAC0 7
#define MAC2(x, y) ((x) + (y))
static int gi = 3;
static double gd = 1.5;
static char *gs = "gs";
static struct st gst;
static int garr[5];
static int f0(void) { return gi; }
static int f1(int x) { return x + 1; }
static int f2(int x, double y) { return x + (int)y; }
static void fv(int x) { gi = x; }
static int fva(int n, ...) { return n; }
static char *fs(char *s) { return s; }
static struct st *fp(struct st *p) { return p; }
static double pow_(double x, double y) { return x * y; }
%(top1)s
%(ret)s fun(int li, double ld, char *ls)
{
  long long ll = 5; float lf = 2; unsigned lu = 7; int la[4]; struct st lst; union un lun;
  int *pi = &la[0]; unsigned char *pb = NULL; void *pv = NULL; struct st *lp = &gst;
  char **ps = NULL; int (*pf)(int) = NULL;
%(body)s
  %(last)s
}
%(top2)s
int main(void) { fun(1, 2, gs); return 0; }
'''
LAST = {"int": "return li;", "void": "return;", "char *": "return ls;", "double": "return ld;", "struct st *": "return lp;"}
BLOCKS = ["if (li > %d) {\nX\n}", "if (li == %d) {\n ll++;\n} else {\nX\n}", "{\nX\n}", "{ int z%d = 1;\n z%d++;\nX\n}"]
LOOPS = ["for (int i%d = 0; i%d < 2; ++i%d) {\nX\n}", "while (li-- > %d) {\nX\n}", "do {\nX\n} while (lu < %d);",
         "switch (li) {\n case %d: {\nX\n } break;\n default: { ll = 2; }\n}", "for (;;) {\nX\n break;\n}",
         "switch (li + 1) {\n case %d: { ll = 1; }\n default: {\nX\n }\n}"]
FILL = ["li += f1(%d);", "ld = pow_(ld, %d);", "gi = gi * %d;", "la[1] = %d;", "lst.a = %d;", "gs = ls;", "if (li) ll -= %d; else ll = 1;", "fv(%d);",
        "lp->a ^= %d;", "ls = \"s%d\";", "/* %d */", "// %d", "lu = lu \\\n << %d;", "for (lu = 0; lu < %d; ++lu) gd += 1;"]
PADS = ["", "/* one\n two\n three */", "#if 0\n nonsense ' \" here\n#endif", "\n\n\n",
        "#define PAD%d(x) \\\n ((x) + \\\n 1)", "/**/ /* \xc3\xa9\xe2\x82\xac */", "#ifdef __WCPL__\n#else\n bad bad\n#endif"]
DIAG = re.compile(r"^([\w./-]+\.[ch]):(\d+)", re.M)


def inst(r, s, n):
    return s.replace("$N", str(n)).replace("$C", str(r.choice([1, 7, 42, 1000, 65535]))).replace("$P", str(r.randrange(1, 1000))).replace("$$", "$")


def num(r, s):
    return s.replace("%d", str(r.randrange(100)))


def nest(r, s, depth, flat):
    for _ in range(depth):
        w = num(r, r.choice(BLOCKS if flat else BLOCKS + LOOPS))
        s = w.replace("X", "\n".join([num(r, r.choice(FILL)) for _ in range(r.randrange(3))] + [s] + [num(r, r.choice(FILL)) for _ in range(r.randrange(2))]))
    return s


def program(seed, kind, entry, ret, bad):
    """the program with the violation (bad) or with its twin; and the line of the violation"""
    r = random.Random(seed)
    n = r.randrange(10, 1000)
    key, b, g = entry
    sb, sg = inst(random.Random(seed), b, n), inst(random.Random(seed), g, n)
    depth, side = r.choice([0, 0, 1, 1, 2, 3]), r.random() < .5
    f = {"pad0": "\n".join(num(r, p) for p in r.sample(PADS, r.randrange(3))), "ret": ret, "top1": "", "top2": "", "last": LAST[ret]}
    mark = "@@@@"
    if kind == "top":
        f["top1" if side else "top2"] = mark
        f["body"] = "  " + num(r, r.choice(FILL))
    else:
        f["body"] = nest(r, mark, depth, kind == "flat")
        if kind == "ret" and depth == 0:
            f["last"] = ""
    t = FRAME % f
    line = t[:t.index(mark)].count("\n") + 1
    s = sb if bad else sg
    return t.replace(mark, s), line + (len(s) - len(s.lstrip("\n"))), line + s.count("\n"), s


STRICT = re.compile(r"use of undeclared identifier|call to undeclared function|no member named|member reference|too (few|many) arguments to function call"
                    r"|expected '[;)\]}]'|expected expression|extraneous closing brace|invalid operands to binary expression|invalid argument type .* to unary"
                    r"|indirection requires pointer operand|subscripted value is not|array subscript is not an integer|called object type"
                    r"|incompatible (pointer|integer)|from incompatible type|of incompatible type|incompatible result type|duplicate case value"
                    r"|redefinition of enumerator|duplicate member|conflicting types|statement not in (loop|switch)|use of undeclared label"
                    r"|statement requires expression of integer type|should return a value|missing terminating|unterminated")


def c14(ctx):
    ctx.tree.build(lib=True)
    T = ctx.tree
    entries = [("stmt", e, "int") for e in STMT] + [("flat", e, "int") for e in FLAT] + [("top", e, "int") for e in TOP]
    entries += [("ret", e, t) for t, l in RET.items() for e in l]

    def comp(d, cmd, **kw):
        return sh([T.exe, "-q"] + cmd, cwd=d, timeout=60, **kw)

    def fail(key, text, files):
        f = Failure(key, text)
        f.files.update(files)
        return f

    def must_fail(x, d, out, old, key, what, files, res):
        """exit 1 or 2 with a message, and the output as it was"""
        e = (x.err or b"").decode("utf-8", "replace")
        p = None
        if x.timeout or x.rc not in (0, 1, 2):
            p = "exit status %s" % x.rc
        elif x.rc == 0:
            p = "accepted (exit status 0)"
        elif not e.strip():
            p = "exit status %d without a message" % x.rc
        elif out:
            q = os.path.join(d, out)
            have = open(q, "rb").read() if os.path.exists(q) else None
            if have != old:
                p = "rejected, but the output file was %s" % ("removed" if have is None else "written")
        if p:
            res["failures"].append(fail(key, "%s: %s\n%s" % (p, what, e[:1000]), files))
            return None
        return e

    def table(j):
        i, k = j
        kind, entry, ret = entries[i]
        seed = "%s/%d/%d/%d" % (ctx.prop, ctx.seed, i, k)
        r = random.Random(seed + "x")
        if kind == "stmt" and r.random() < .5:
            ret = r.choice(list(LAST))
        res = {"evals": 0, "keys": [], "failures": [], "counts": {}, "sets": {"rules": [entry[0]], "violations": [entry[1]]}, "samples": []}
        d = tempfile.mkdtemp(prefix="j", dir=ctx.scratch)
        try:
            wasm = r.random() < .4
            out = "o.wasm" if wasm else "o.wo"
            cmd = ["-O", str(r.randrange(4))] + ([] if wasm else ["-c"]) + ["-L", T.lib, "-I", T.inc, "-o", out, "t.c"]
            for bad in (True, False):
                t, l0, l1, s = program(seed, kind, entry, ret, bad)
                with open(os.path.join(d, "t.c"), "w") as f:
                    f.write(t)
                files = {"t.c": t}
                what = "rule %s, line %d: %s\nwcpl %s" % (entry[0], l0, s.strip(), " ".join(cmd))
                old = None
                if bad and r.random() < .3:
                    old = b"previous output"
                    with open(os.path.join(d, out), "wb") as f:
                        f.write(old)
                x = comp(d, cmd)
                res["evals"] += 1
                if bad:
                    e = must_fail(x, d, out, old, "accepted-" + entry[0], what, files, res)
                    if e is None:
                        return res
                    if entry[1] not in LOOSE:
                        at = [int(m.group(2)) for m in DIAG.finditer(e) if m.group(1) == "t.c"]
                        if not any(l0 <= a <= l1 + 4 for a in at):
                            res["failures"].append(fail("location-" + entry[0], "the diagnostic does not point to the violation: %s\n%s" % (what, e[:1000]), files))
                            return res
                        res["counts"]["located"] = res["counts"].get("located", 0) + 1
                    res["counts"]["rejected"] = res["counts"].get("rejected", 0) + 1
                    res["keys"].append(t)
                    if k == 0 and i % 40 == 0:
                        res["samples"].append({"violation": s.strip(), "diagnostic": e.split("\n")[0]})
                else:
                    if x.rc != 0 or not os.path.exists(os.path.join(d, out)):
                        res["failures"].append(fail("twin-" + entry[0], "valid program rejected (exit status %s): %s\n%s" % (x.rc, what, (x.err or b"").decode("utf-8", "replace")[:1000]), files))
                        return res
                    res["counts"]["twins_accepted"] = res["counts"].get("twins_accepted", 0) + 1
                    if wasm:
                        bad_ = valid_(os.path.join(d, out))
                        if bad_:
                            res["failures"].append(fail("twin-invalid", bad_ + "\n" + what, files))
                            return res
                if os.path.exists(os.path.join(d, out)):
                    os.unlink(os.path.join(d, out))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def valid_(p):
        import wasmtime
        from .core import engine
        with open(p, "rb") as f:
            b = f.read()
        try:
            wasmtime.Module(engine(), b)
        except wasmtime.WasmtimeError as w:
            return "accepted, but the module is not valid: " + str(w)[:500]
        return None

    # ---- link-time rules
    TY = {"int": "i", "unsigned": "i", "long": "i", "char *": "i", "struct q *": "i", "short": "i", "bool": "i", "long long": "l", "unsigned long long": "l",
          "float": "f", "double": "d"}
    ARG = {"i": "1", "l": "2LL", "f": "1.5f", "d": "2.5"}

    def value(t):
        return "NULL" if "*" in t else ARG[TY[t]] if TY[t] != "i" else "1"

    def link(i):
        r = ctx.rng("link", i)
        res = {"evals": 0, "keys": [], "failures": [], "counts": {}, "samples": []}
        d = tempfile.mkdtemp(prefix="l", dir=ctx.scratch)

        def put(files):
            for n_, s_ in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, n_)) or d, exist_ok=True)
                with open(os.path.join(d, n_), "w") as f:
                    f.write(s_)

        def attempt(files, args, ok, key, what):
            put(files)
            if r.random() < .5:          # through object files
                a2 = []
                for a in args:
                    if a.endswith(".c"):
                        o = a[:-2] + ".wo"
                        if not os.path.exists(os.path.join(d, o)):
                            c = comp(d, ["-c", "-O", str(r.randrange(4)), "-L", T.lib, "-I", T.inc, "-o", o, a])
                            res["evals"] += 1
                            if c.rc:
                                res["failures"].append(fail("link-object", "module %s of a link test rejected: %s" % (a, c.err.decode("latin1")[:600]), files))
                                return
                        a2.append(o)
                    else:
                        a2.append(a)
                args = a2
            old = None
            if not ok and r.random() < .3:
                old = b"previous output"
                with open(d + "/o.wasm", "wb") as f:
                    f.write(old)
            x = comp(d, ["-L", T.lib, "-I", T.inc, "-o", "o.wasm"] + args)
            res["evals"] += 1
            res["keys"].append((what, repr(sorted(files.items())), tuple(args)))
            if ok:
                p = None
                if x.rc != 0 or not os.path.exists(d + "/o.wasm"):
                    p = "valid program not linked (exit status %s): %s" % (x.rc, x.err.decode("latin1")[:600])
                else:
                    p = valid_(d + "/o.wasm")
                if p:
                    res["failures"].append(fail("link-twin-" + key, p + "\n" + what, files))
                res["counts"]["linked"] = res["counts"].get("linked", 0) + 1
            else:
                if must_fail(x, d, "o.wasm", old, "link-" + key, what, files, res) is not None:
                    res["counts"]["link_rejected"] = res["counts"].get("link_rejected", 0) + 1

        def fresh():
            shutil.rmtree(d)
            os.mkdir(d)

        try:
            n = r.randrange(1000)
            hd = "#pragma once\n#include <stdbool.h>\nstruct q { int x; };\n"
            # function signatures
            for _ in range(4):
                ts = list(TY)
                ret1 = r.choice(ts + ["void"])
                par1 = [r.choice(ts) for _ in range(r.randrange(4))]
                va1 = bool(par1) and r.random() < .2
                ret2, par2, va2 = ret1, list(par1), va1
                z = r.random()
                if z < .3:
                    pass
                elif z < .5:
                    ret2 = r.choice(ts + ["void"])
                elif z < .65 and par2:
                    par2[r.randrange(len(par2))] = r.choice(ts)
                elif z < .75:
                    par2.insert(r.randrange(len(par2) + 1), r.choice(ts))
                elif z < .85 and par2:
                    del par2[r.randrange(len(par2))]
                    va2 = va2 and bool(par2)
                elif z < .92:
                    par2 = par2[::-1]
                elif par2:
                    va2 = not va2
                sig = lambda rt, ps, va: ("v" if rt == "void" else TY[rt]) + ":" + "".join(TY[p] for p in ps) + ("i" if va else "")
                ok = sig(ret1, par1, va1) == sig(ret2, par2, va2)
                pl = lambda ps, va: (", ".join("%s p%d" % (t, k) for k, t in enumerate(ps)) or "void") + (", ..." if va else "")
                small = ("short", "bool")
                fresh()
                files = {"m.h": hd + "extern %s foo%d(%s);\n" % (ret1, n, pl(par1, va1)),
                         "m.c": "#include <stddef.h>\n#include <stdbool.h>\nstruct q { int x; };\n%s foo%d(%s) { return%s; }\n" % (ret2, n, pl(par2, va2), "" if ret2 == "void" else " " + value(ret2)),
                         "u.c": "#include <stddef.h>\n#include \"m.h\"\nint main(void) { foo%d(%s); return 0; }\n" % (n, ", ".join(value(t) for t in par1))}
                args = ["u.c", "m.c"]
                r.shuffle(args)
                attempt(files, args, ok, "signature", "declared as %s(%s), defined as %s(%s)" % (ret1, pl(par1, va1), ret2, pl(par2, va2)))
                if res["failures"]:
                    return res
            # variables
            for _ in range(3):
                t1, t2 = r.choice(list(TY)), r.choice(list(TY))
                if r.random() < .3:
                    t2 = t1
                fresh()
                files = {"m.h": hd + "extern %s foo%d;\n" % (t1, n),
                         "m.c": "#include <stddef.h>\n#include <stdbool.h>\nstruct q { int x; };\n%s foo%d = %s;\n" % (t2, n, value(t2)),
                         "u.c": "#include <stddef.h>\n#include \"m.h\"\nint main(void) { %s x = foo%d; foo%d = x; return 0; }\n" % (t1, n, n)}
                attempt(files, ["u.c", "m.c"], TY[t1] == TY[t2], "variable", "declared as %s, defined as %s" % (t1, t2))
                if res["failures"]:
                    return res
            # kinds of symbols
            decl = {"function": "extern int foo%d(int x);", "variable": "extern int foo%d;", "array": "extern int foo%d[3];", "struct": "extern struct q foo%d;"}
            use = {"function": "foo%d(1)", "variable": "foo%d", "array": "foo%d[1]", "struct": "foo%d.x"}
            defn = {"function": "int foo%d(int x) { return x; }", "variable": "int foo%d = 3;", "array": "int foo%d[3] = {1, 2, 3};", "struct": "struct q { int x; }; struct q foo%d = {3};",
                    "nothing": "int bar = 1;", "other": "int foo_%d(int x) { return x; }"}
            for _ in range(3):
                a, b = r.choice(list(decl)), r.choice(list(defn))
                if r.random() < .25:
                    b = a
                st = b in decl and r.random() < .3
                fresh()
                df = defn[b] % n if b != "nothing" else defn[b]
                if st:
                    df = re.sub(r"\bint foo|struct q foo", lambda m: "static " + m.group(0), df, count=1)
                files = {"m.h": hd + decl[a] % n + "\n", "m.c": df + "\n" + ("int keep(void) { return 1; }\n"),
                         "u.c": "#include \"m.h\"\nint main(void) { return %s; }\n" % (use[a] % n)}
                same = a == b or (a in ("array", "struct") and b in ("array", "struct"))
                attempt(files, ["u.c", "m.c"], same and not st, "static" if st else "kind", "declared as %s, defined as %s%s" % (a, "static " if st else "", b))
                if res["failures"]:
                    return res
            # main and modules
            fresh()
            m = "int main(void) { return 0; }\n"
            f = "int foo(int x) { return x; }\n"
            cases = [({"a.c": f}, ["a.c"], False, "no-main"), ({"a.c": m, "b.c": m}, ["a.c", "b.c"], False, "two-mains"),
                     ({"a.c": m, "b.c": f}, ["a.c", "b.c", "b.c"], False, "module-twice"), ({"a.c": m, "b.c": f}, ["b.c", "a.c"], True, "plain"),
                     ({"a.c": "int main;\n"}, ["a.c"], False, "main-variable"), ({"a.c": m}, ["a.c", "nosuch.wo"], False, "no-object"),
                     ({"a.c": m, "x/b.c": f, "y/b.c": f}, ["a.c", "x/b.c", "y/b.c"], False, "same-module-name"),
                     ({"m.h": "extern int foo(int x);\n", "a.c": "#include \"m.h\"\nint main(void) { return foo(1); }\n"}, ["a.c"], False, "no-module")]
            for mm in ("void main(void) { }", "int main(int argc) { return 0; }", "int main(int argc, char **argv, char **envp) { return 0; }", "long long main(void) { return 0; }",
                       "double main(int argc, char **argv) { return 0; }", "int main(char **argv, int argc) { return 0; }", "int main(int argc, int *argv) { return 0; }",
                       "int main(double argc, char **argv) { return 0; }", "int main(int argc, ...) { return 0; }"):
                cases.append(({"a.c": mm + "\n"}, ["a.c"], False, "main-signature"))
            for mm in ("int main(int argc, char **argv) { return 0; }", "int main() { return 0; }", "int main(int argc, char *argv[]) { return 0; }"):
                cases.append(({"a.c": mm + "\n"}, ["a.c"], True, "main-signature"))
            for fl, args, ok, key in r.sample(cases, 6):
                fresh()
                if key == "main-signature" and not ok:          # rejected when compiled: no object
                    put(fl)
                    x = comp(d, ["-L", T.lib, "-o", "o.wasm"] + args)
                    res["evals"] += 1
                    must_fail(x, d, "o.wasm", None, "main-signature", fl["a.c"], fl, res)
                elif key in ("main-signature", "main-variable", "no-object"):
                    put(fl)
                    x = comp(d, ["-L", T.lib, "-o", "o.wasm"] + args)
                    res["evals"] += 1
                    if ok and (x.rc or valid_(d + "/o.wasm")):
                        res["failures"].append(fail("main-signature", "rejected: " + fl["a.c"] + x.err.decode("latin1")[:300], fl))
                    elif not ok:
                        must_fail(x, d, "o.wasm", None, "link-" + key, key, fl, res)
                else:
                    attempt(fl, args, ok, key, key)
                if res["failures"]:
                    return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    # ---- headers
    def header(i):
        r = ctx.rng("hdr", i)
        key, b, g = HDR[i % len(HDR)]
        res = {"evals": 0, "keys": [], "failures": [], "counts": {}, "samples": []}
        d = tempfile.mkdtemp(prefix="h", dir=ctx.scratch)
        try:
            os.mkdir(d + "/inc")
            pad = "\n".join(num(r, p) for p in r.sample([p for p in PADS if "static" not in p], r.randrange(4)))
            via = r.random() < .5
            for bad in (True, False):
                s = inst(r, b if bad else g, i)
                h = pad + "\nextern int before;\n" + s + "\nextern int after;\n"
                line = h[:h.index(s)].count("\n") + 1
                fl = {"inc/h.h": h, "inc/g.h": "#include \"h.h\"\n", "t.c": "\n#include \"%s.h\"\nint main(void) { return 0; }\n" % ("g" if via else "h")}
                for n_, q in fl.items():
                    with open(os.path.join(d, n_), "w") as f:
                        f.write(q)
                x = comp(d, ["-c", "-I", "inc/", "-o", "o.wo", "t.c"])
                res["evals"] += 1
                what = "header, line %d: %s" % (line, s)
                if bad:
                    e = must_fail(x, d, "o.wo", None, "header-" + key, what, fl, res)
                    if e is not None and s not in LOOSE and not any(m.group(1).endswith("h.h") and line <= int(m.group(2)) <= line + s.count("\n") + 2 for m in DIAG.finditer(e)):
                        res["failures"].append(fail("location-header-" + key, "the diagnostic does not point to the violation: %s\n%s" % (what, e[:600]), fl))
                    res["keys"].append((key, h))
                elif x.rc or not os.path.exists(d + "/o.wo"):
                    res["failures"].append(fail("twin-header-" + key, "valid header rejected: %s\n%s" % (what, x.err.decode("latin1")[:600]), fl))
                if res["failures"]:
                    return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    # ---- mutants of valid programs which clang takes for invalid
    GENS = [gens.gen_expr_program, gens.gen_assign_program, gens.gen_flow_program, gens.gen_data_program, gen_call.gen_call_program,
            gen_seq.gen_seq_program, gen_peep.gen_peep_program]

    def mutants(i):
        r = ctx.rng("mut", i)
        x = r.choice(GENS)(r)
        x = x[0] if isinstance(x, tuple) else x
        q = x.index("#endif", x.index("#else")) + 7
        res = {"evals": 0, "keys": [], "failures": [], "counts": {"mutants_rejected": 0, "mutants_valid": 0, "mutants_unjudged": 0}, "samples": []}
        d = tempfile.mkdtemp(prefix="m", dir=ctx.scratch)
        try:
            for k in range(40):
                t = x[:q] + mutate(r, x[q:], 1, CTOK, CDICT)
                if t == x or too_big(t) or "\0" in t:
                    continue
                with open(d + "/t.c", "w", encoding="latin1") as f:
                    f.write(t)
                a = comp(d, ["-c", "-L", T.lib, "-I", T.inc, "-o", "t.wo", "t.c"])
                res["evals"] += 1
                res["keys"].append(hash(t))
                if a.timeout or a.rc != 0:
                    res["counts"]["mutants_rejected"] += 1
                    if a.rc in (1, 2) and not (a.err or b"").strip():
                        res["failures"].append(fail("silent", "rejected without a message", {"t.c": t.encode("latin1")}))
                        return res
                    continue
                b = sh(["clang", "--target=wasm32", "-std=gnu11", "-ffreestanding", "-w", "-fsyntax-only", "-ferror-limit=1", "t.c",
                        "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration", "-Werror=return-type"], cwd=d, timeout=60)
                e = b.err.decode("latin1")
                m = re.search(r"t\.c:(\d+):(\d+): (?:fatal )?error: ([^\n]*)", e)
                if b.rc == 0:
                    res["counts"]["mutants_valid"] += 1
                    continue
                line = t.split("\n")[int(m.group(1)) - 1] if m and int(m.group(1)) <= t.count("\n") + 1 else ""
                if not m or not STRICT.search(m.group(3)) or "'v128_t'" in m.group(3) or "va_" in line or "#" in line or "asm" in line or "__" in line:
                    res["counts"]["mutants_unjudged"] += 1
                    continue
                res["failures"].append(fail("mutant-accepted", "accepted, although %s\nline %s: %s" % (m.group(3), m.group(1), line.strip()[:300]), {"t.c": t.encode("latin1")}))
                return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    # ---- inputs that cannot be read, outputs that cannot be written
    def files_():
        d = tempfile.mkdtemp(prefix="f", dir=ctx.scratch)
        res = {"evals": 0, "keys": [], "failures": [], "counts": {"io_failures": 0}}
        with open(d + "/m.c", "w") as f:
            f.write("int main(void) { return 0; }\n")
        with open(d + "/big.c", "w") as f:
            f.write("".join("int f%d(int x) { return x * %d; }\n" % (i, i) for i in range(2000)) + "int main(void) { return 0; }\n")
        with open(d + "/bigdata.c", "w") as f:
            f.write("int a[4000] = {" + ",".join("%d" % (i * 77777 % 65537) for i in range(4000)) + "};\nint main(void) { return a[3]; }\n")
        os.mkdir(d + "/dir.c")
        os.mkdir(d + "/dir.wo")
        os.mkdir(d + "/out.wasm")
        for s in ("full.wasm", "full.wat", "full.wo"):
            os.symlink("/dev/full", d + "/" + s)
        L = ["-L", T.lib, "-I", T.inc]
        good = [["-o", "g.wasm", "m.c"], ["-c", "-o", "g.wo", "m.c"], ["-o", "g.wat", "m.c"]]
        bad = [["-o", "full.wasm", s] for s in ("m.c", "big.c", "bigdata.c")] + [["-o", "full.wat", s] for s in ("m.c", "big.c")]
        bad += [["-c", "-o", "full.wo", s] for s in ("m.c", "big.c", "bigdata.c")] + [["-o", "nodir/x.wasm", "m.c"], ["-c", "-o", "nodir/x.wo", "m.c"],
                ["-o", "out.wasm", "m.c"], ["-c", "-o", ".", "m.c"], ["-o", "x.wasm", "nosuch.c"], ["-c", "-o", "x.wo", "nosuch.c"], ["-o", "x.wasm", "m.c", "nosuch.wo"],
                ["-c", "-o", "x.wo", "dir.c"], ["-o", "x.wasm", "dir.c"], ["-o", "x.wasm", "m.c", "dir.wo"]]
        for c in good:
            x = comp(d, L + c)
            res["evals"] += 1
            if x.rc or not os.path.getsize(d + "/" + c[c.index("-o") + 1]):
                res["failures"].append(fail("io-good", "%s: exit status %s %s" % (" ".join(c), x.rc, x.err[:300]), {}))
        for c in bad:
            x = comp(d, L + c)
            res["evals"] += 1
            res["keys"].append(tuple(c))
            res["counts"]["io_failures"] += 1
            must_fail(x, d, None, None, "io-failure", "wcpl " + " ".join(c), {}, res)
            if os.path.exists(d + "/x.wasm") or os.path.exists(d + "/x.wo"):
                res["failures"].append(fail("io-output", "output created by wcpl " + " ".join(c), {}))
        for redir in ("> /dev/full", ">&-"):
            for src in ("m.c", "big.c"):
                for c in ([], ["-c"]):
                    x = sh(["bash", "-c", "exec \"$0\" \"$@\" " + redir, T.exe, "-q"] + c + L + [src], cwd=d, timeout=60)
                    res["evals"] += 1
                    res["keys"].append((redir, src, tuple(c)))
                    res["counts"]["io_failures"] += 1
                    must_fail(x, d, None, None, "io-failure", "wcpl %s %s %s" % (" ".join(c), src, redir), {}, res)
        shutil.rmtree(d)
        return res

    ctx.absorb(files_())
    jobs = [("t", (i, k)) for k in range(ctx.n(6, 60)) for i in range(len(entries))]
    jobs += [("l", i) for i in range(ctx.n(400, 4000))] + [("h", i) for i in range(ctx.n(12, 60) * len(HDR))] + [("m", i) for i in range(ctx.n(200, 4000))]
    fn = {"t": table, "l": link, "h": header, "m": mutants}
    ctx.pmap(lambda j: fn[j[0]](j[1]), jobs)
    ctx.cov["rule"] = "a distinct invalid program, set of modules, header or file situation shown to the compiler"
    ctx.assumptions.append("rules documented as not enforced (const, restrict) and extensions of the dialect are not judged; mutants are judged only where clang reports an error of a listed kind")


CHECKS = {"C14": c14}
