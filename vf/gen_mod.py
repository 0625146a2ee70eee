"""C10: programs made of several modules: headers, public and static names, cross-module data references,
function pointers, struct returns, varargs, calls in a DAG. Returns {filename: text}, module names, main module."""
from .cgen import *

OBS_H = r'''#pragma once
#ifndef __WCPL__
#define bool _Bool
#define true 1
#define false 0
#define NULL ((void*)0)
typedef unsigned long size_t;
#define va_list __builtin_va_list
#define va_start(a,b) __builtin_va_start(a,b)
#define va_arg(a,t) __builtin_va_arg(a,t)
#define va_end(a) __builtin_va_end(a)
#define dbits(x) (((union { unsigned long long u; double d; }){ x }).d)
#define fbits(x) (((union { unsigned u; float f; }){ x }).f)
#define lofd(x) (((union { double d; unsigned long long u; }){ x }).u)
#define uoff(x) (((union { float f; unsigned u; }){ x }).u)
#else
#include <stdbool.h>
#include <stdarg.h>
#include <stddef.h>
#define dbits(u) ((double(*)(unsigned long long))asm(f64.reinterpret_i64)(u))
#define fbits(u) ((float(*)(unsigned))asm(f32.reinterpret_i32)(u))
#define lofd(d) ((unsigned long long(*)(double))asm(i64.reinterpret_f64)(d))
#define uoff(f) ((unsigned(*)(float))asm(i32.reinterpret_f32)(f))
#endif
extern void emit(int id, unsigned long long v);
extern void emitd(int id, double d);
extern void emitf(int id, float f);
extern void emits(int id, const char *s);
extern void put_(void);
'''


def obs_c():
    t = PRELUDE.replace("static void put_(", "void put_(").replace("static void emit", "void emit").replace("#define main refmain_\n", "")
    # the header already gives the reference these
    t = re.sub(r"#define (bool|true|false|NULL) [^\n]*\n", "", t)
    t = t.replace("typedef unsigned long size_t;\n", "")
    t = re.sub(r"#define va_(list|start|arg|end)[^\n]*\n", "", t)
    return '#include "obs.h"\n' + t + "\nvoid emits(int id, const char *s) { int i; for (i = 0; s[i] != 0; ++i) emit(id, (unsigned long long)(int)s[i]); }\n"


def gen_modules(rng, stats=None):
    r = rng
    st = stats if stats is not None else {}

    def note(k):
        st[k] = st.get(k, 0) + 1
    n = r.randint(2, 5)
    pool = ["alpha", "beta", "gamma", "delta", "zed", "a1", "util_x", "Mod2", "q"]
    r.shuffle(pool)
    names = pool[:n]
    main = names[0]                    # calls go from lower to higher index; data references anywhere
    files = {"obs.h": OBS_H, "obs.c": obs_c()}
    ETYPES = [SC, UC, SS, US, SI, UI, SL, UL, SLL, ULL, F, D, BOOL, CHAR]

    def v(t):
        if t in (F, D):
            return lit(r, t, r.choice([0.0, -0.0, 1.5, -2.25, 100.125, 1e10, 0.1, 1e-30]))
        if t == BOOL:
            return r.choice(["true", "false"])
        return lit(r, t)
    mods = []
    for i, m in enumerate(names):
        M = {"name": m, "sc": [], "arr": [], "fn": [], "str": [], "sfn": [], "fpt": [], "ptr": []}
        for k in range(r.randint(1, 4)):
            M["sc"].append(("%s_g%d" % (m, k), r.choice(ETYPES)))
        for k in range(r.randint(1, 3)):
            M["arr"].append(("%s_a%d" % (m, k), r.choice(ETYPES), r.randint(2, 6)))
        for k in range(r.randint(1, 3)):
            M["fn"].append(("%s_f%d" % (m, k), r.choice([SI, SLL, D, UI]), [r.choice([SI, SLL, D, UI, SC, US]) for _ in range(r.randint(0, 3))]))
        if r.random() < .7:
            M["sfn"].append("%s_mk" % m)
        if r.random() < .7:
            M["str"].append("%s_names" % m)
        mods.append(M)
    # shared types
    files["types.h"] = ("#pragma once\n#include \"obs.h\"\ntypedef struct shp { int w; char t; long long k; short v[3]; } shp_t;\n"
                        "typedef struct nd { int v; struct nd *p[2]; int *q; shp_t *s; const char *t; } nd_t;\n"
                        "enum color { RED, GREEN = %d, BLUE };\n#define TWICE(x) ((x) * 2)\n#define NMOD %d\ntypedef int (*unop)(int);\n" % (r.randint(2, 9), n))
    for i, m in enumerate(names):
        M = mods[i]
        H = ["#pragma once", '#include "types.h"']
        if r.random() < .4 and i + 1 < n:
            H.append('#include "%s.h"' % names[i + 1])
        for nm, t in M["sc"]:
            H.append("extern %s %s;" % (TN[t], nm))
        for nm, t, k in M["arr"]:
            H.append("extern %s %s[%d];" % (TN[t], nm, k))
        for nm, rt, ps in M["fn"]:
            H.append("extern %s %s(%s);" % (TN[rt], nm, ", ".join("%s%s" % (TN[p], " x%d" % j if r.random() < .5 else "") for j, p in enumerate(ps)) or "void"))
        for nm in M["sfn"]:
            H.append("extern shp_t %s(int w, char t);" % nm)
        for nm in M["str"]:
            H.append("extern const char *%s[3];" % nm)
        H.append("extern shp_t %s_s;" % m)
        H.append("extern nd_t %s_n0; extern nd_t %s_n1; extern nd_t %s_na[2]; extern int %s_ia[2];" % (m, m, m, m))
        H.append("extern int %s_op(int x); extern unop %s_tab0; extern unop %s_tab1; extern int %s_sum(int n, ...);" % (m, m, m, m))
        H.append("extern int %s_touch(shp_t *p);" % m)
        H.append("extern void %s_dump(void);" % m)
        files[m + ".h"] = "\n".join(H) + "\n"
    ob = [0]

    def emit_x(s, t):
        ob[0] += 1
        return emit_stmt(str(ob[0]), X(s, t))
    for i, m in enumerate(names):
        M = mods[i]
        C = ["/* %s */" % m, '#include "types.h"']
        inc = list(names)
        r.shuffle(inc)
        for x in inc:
            C.append('#include "%s.h"' % x)
        # statics with the same names everywhere
        C.append("static int cnt = %d; static char tag[4] = \"%s\"; static int tbl[3] = { %d, %d, %d };" % (r.randint(0, 99), m[:3].ljust(3, "_"), r.randint(0, 9), r.randint(0, 9), i))
        C.append("static int helper(int x) { cnt = (cnt + x) & 0xffff; return cnt * %d + tbl[x & 1]; }" % r.randint(1, 9))
        for nm, t in M["sc"]:
            C.append("%s %s%s;" % (TN[t], nm, " = " + v(t) if r.random() < .8 else ""))
        for nm, t, k in M["arr"]:
            q = r.random()
            C.append("%s %s[%d]%s;" % (TN[t], nm, k, " = { %s }" % ", ".join(v(t) for _ in range(r.randint(1, k))) if q < .8 else ""))
        for nm in M["str"]:
            C.append("const char *%s[3] = { \"%s\", \"shared\", \"%s\" };" % (nm, "".join(r.choice("abc\\n x") for _ in range(r.randint(0, 6))).replace("\\", "").replace("\n", ""), m))
        C.append("shp_t %s_s = { %d, %d, %s, { %d, 2, 3 } };" % (m, r.randint(-9, 99), r.randint(0, 127), v(SLL), r.randint(-5, 5)))
        # cross-module addresses in initializers
        for k in range(r.randint(0, 3)):
            O = r.choice(mods)
            nm, t, cnt = r.choice(O["arr"])
            C.append("static %s *ptr%d = &%s[0];" % (TN[t], k, nm))
            M["ptr"].append(("ptr%d" % k, t, cnt))
            note("xaddr" if O is not M else "addr")
        # data holding the addresses of other data: any order, cycles, across modules
        def node(own):
            x = r.choice(names)
            return r.choice(["NULL", "&%s_n0" % x, "&%s_n1" % x, "&%s_na[0]" % x, own])

        def ninit(own):
            return "{ %d, { %s, %s }, %s, %s, %s }" % (r.randint(-99, 99), node(own), node(own), r.choice(["NULL", "&%s_ia[0]" % r.choice(names)]),
                                                      r.choice(["NULL", "&%s_s" % r.choice(names)]), r.choice(["NULL", '"nd"', '"%s"' % m]))
        nodes = ["nd_t %s_n0 = %s;" % (m, ninit("&%s_n0" % m)), "nd_t %s_n1 = %s;" % (m, ninit("&%s_n0" % m)),
                 "nd_t %s_na[2] = { %s, %s };" % (m, ninit("&%s_na[0]" % m), ninit("&%s_n1" % m)), "int %s_ia[2] = { %d, %d };" % (m, r.randint(0, 99), i)]
        r.shuffle(nodes)
        C += nodes
        C.append("static nd_t loc = %s;" % ninit("&loc"))
        C.append("static int nwalk(nd_t *p, int path) { int k, a = 0; for (k = 0; k < 6 && p != NULL; ++k) { a = a * 7 + (p->v & 0xff); if (p->q != NULL) a += *p->q; "
                 "if (p->s != NULL) a ^= p->s->w & 0xff; if (p->t != NULL) a += (int)p->t[0]; a &= 0xffffff; p = p->p[(path >> k) & 1]; } return a; }")
        note("graph")
        O1, O2 = r.choice(names), r.choice(names)
        C.append("static shp_t *sp = &%s_s;" % O1)
        C.append("unop %s_tab0 = &%s_op; unop %s_tab1 = &%s_op;" % (m, O2, m, m))
        C.append("static unop myop = &%s_op;" % r.choice(names))
        C.append("int %s_op(int x) { return ((x & 0xffffff) ^ %d) + %d; }" % (m, r.randint(0, 255), r.randint(0, 9)))
        C.append("int %s_sum(int n, ...) { va_list ap; int s = %d; va_start(ap, n); while (n-- > 0) s += va_arg(ap, int); va_end(ap); return s; }" % (m, i))
        C.append("int %s_touch(shp_t *p) { p->w = (p->w & 0xffffff) + %d; p->k = (p->k & 0xffffffffffffLL) + 1LL; p->v[1] = (short)(p->v[1] + (short)%d); return p->w & 1023; }" % (m, r.randint(1, 9), i + 1))

        def atom(t, ps):
            c = []
            for nm, tt in [(a, b) for X_ in mods for (a, b) in X_["sc"]]:
                c.append((nm, tt))
            for X_ in mods:
                for nm, tt, k in X_["arr"]:
                    c.append(("%s[%d]" % (nm, r.randint(0, k - 1)), tt))
            for j, p in enumerate(ps):
                c += [("x%d" % j, p)] * 3
            for nm, tt, k in M["ptr"]:
                c.append(("%s[%d]" % (nm, r.randint(0, k - 1)), tt))
            nm, tt = r.choice(c)
            if tt == t:
                return nm
            if tt in (F, D) and t not in (F, D):
                return "(%s)(%s > 1.0)" % (TN[t], nm) if tt == D else "(%s)(%s > 1.0f)" % (TN[t], nm)
            return "((%s)%s)" % (TN[t], nm)

        def arg(t, ps):
            return atom(t, ps)

        def callx(ps):
            """a call into this or a later module"""
            O = mods[r.randint(min(i + 1, n - 1), n - 1)] if i + 1 < n else None
            k = r.random()
            if O is None or k < .2:
                return "helper(%d)" % r.randint(0, 5), SI
            note("xcall")
            if k < .6:
                nm, rt, pp = r.choice(O["fn"])
                return "%s(%s)" % (nm, ", ".join(arg(p, ps) for p in pp)), rt
            if k < .7:
                c = r.randint(0, 4)
                return "%s_sum(%d%s)" % (O["name"], c, "".join(", (%s & 0xffff)" % arg(SI, ps) for _ in range(c))), SI
            if k < .8:
                return "(*%s_tab%d)(%s)" % (r.choice(names), r.randint(0, 1), arg(SI, ps)), SI
            if k < .9:
                return "(*myop)(%s)" % arg(SI, ps), SI
            return "%s_touch(%s)" % (r.choice(names), r.choice(["sp", "&%s_s" % r.choice(names)])), SI
        for nm in M["sfn"]:
            C.append("shp_t %s(int w, char t) { shp_t z; z = %s_s; z.w = (w & 0xffff) + cnt; z.t = t; z.v[2] = (short)NMOD; cnt = cnt + 1; return z; }" % (nm, r.choice(names)))
        for nm, rt, ps in M["fn"]:
            B = []
            B.append("  unsigned long long acc = %dULL;" % r.randint(0, 1000))
            for _ in range(r.randint(1, 4)):
                q = r.random()
                if q < .45:
                    s, t = callx(ps)
                    if t == D:
                        B.append("  if (%s > 0.5) acc = acc * 3ULL + 1ULL; else acc = acc + 7ULL;" % s)
                    else:
                        B.append("  acc = acc * 31ULL + (unsigned long long)%s;" % s)
                elif q < .8:
                    t = r.choice(INTS[1:])
                    B.append("  acc = acc ^ (unsigned long long)%s;" % atom(t, ps))
                else:
                    O = r.choice(mods)
                    g, t = r.choice(O["sc"])
                    e = atom(t if t not in (F, D) else SI, ps)
                    B.append("  %s = (%s)%s;" % (g, TN[t], e))
                    note("xset")
            B.append("  cnt = cnt + 1;")
            ret = {SI: "(int)(acc & 0x7fffffULL)", SLL: "(long long)(acc & 0xffffffffffULL)", UI: "(unsigned)acc", D: "(double)(unsigned)(acc & 0xffffffULL)"}[rt]
            C.append("%s %s(%s) {\n%s\n  return %s;\n}" % (TN[rt], nm, ", ".join("%s x%d" % (TN[p], j) for j, p in enumerate(ps)) or "void", "\n".join(B), ret))
        D_ = ["void %s_dump(void) {\n  int i;" % m, "  " + emit_x("cnt", SI), "  " + emit_x("helper(1)", SI), "  emits(%d, &tag[0]);" % (900 + i)]
        for nm, t in M["sc"]:
            D_.append("  " + emit_x(nm, t))
        for nm, t, k in M["arr"]:
            D_.append("  for (i = 0; i < %d; ++i) %s" % (k, emit_x("%s[i]" % nm, t)))
        for nm, t, k in M["ptr"]:
            D_.append("  for (i = 0; i < %d; ++i) %s" % (k, emit_x("%s[i]" % nm, t)))
        for nm in M["str"]:
            D_.append("  for (i = 0; i < 3; ++i) emits(%d, %s[i]);" % (950 + i, nm))
        D_.append("  %s %s %s %s" % (emit_x("sp->w", SI), emit_x("sp->k", SLL), emit_x("%s_s.v[0]" % m, SS), emit_x("%s_s.t" % m, CHAR)))
        D_.append("  %s %s" % (emit_x("(*%s_tab0)(5)" % m, SI), emit_x("(int)(sp == &%s_s)" % r.choice(names), SI)))
        for x in r.sample(names, r.randint(1, n)) + ["loc"]:
            a = "loc" if x == "loc" else r.choice(["%s_n0", "%s_n1", "%s_na[1]"]) % x
            D_.append("  for (i = 0; i < 8; ++i) %s" % emit_x("nwalk(&%s, i)" % a, SI))
            y = r.choice(names)
            D_.append("  %s %s" % (emit_x("(int)(%s.p[0] == &%s_n0)" % (a, y), SI), emit_x("(int)(%s.p[1] == &%s_na[0])" % (a, y), SI)))
        # constants given by their bits: any number, infinity or NaN
        for _ in range(r.randint(0, 3)):
            ob[0] += 1
            if r.random() < .5:
                b = r.choice([r.getrandbits(64), 0x7ff0 << 48 | r.getrandbits(52), 0xfff0 << 48 | r.choice([1, (1 << 52) - 1, 1 << 51, 1 << 51 | 1, 0]), 1, 1 << 63])
                D_.append("  { double nd; nd = dbits(%dULL); emit(%d, lofd(nd)); }" % (b, ob[0]))
            else:
                b = r.choice([r.getrandbits(32), 0x7f800000 | r.getrandbits(23), 0xff800000 | r.choice([1, (1 << 23) - 1, 1 << 22, 1 << 22 | 1, 0]), 1, 1 << 31])
                D_.append("  { float nf; nf = fbits(%du); emit(%d, (unsigned long long)uoff(nf)); }" % (b, ob[0]))
            note("bits")
        D_.append("  %s" % emit_x("TWICE(cnt & 255) + GREEN + BLUE", SI))
        D_.append("}")
        C += D_
        if i == 0:
            B = ["int main(%s) {" % r.choice(["void", "int argc, char **argv", "int argc, char *argv[]"]), "  int k; shp_t z;"]
            B.append("  for (k = 0; k < %d; ++k) {" % r.randint(1, 3))
            for _ in range(r.randint(3, 9)):
                s, t = callx([])
                B.append("    " + emit_x(s, t))
            for O in mods:
                for nm in O["sfn"]:
                    B.append("    z = %s(k, 'x'); %s %s" % (nm, emit_x("z.w", SI), emit_x("z.v[2]", SS)))
            B += ["    %s_dump();" % x for x in r.sample(names, n)]
            B.append("  }\n  put_(); return 0;\n}")
            C.append("\n".join(B))
        files[m + ".c"] = "\n".join(C) + "\n"
    return files, names + ["obs"], main
