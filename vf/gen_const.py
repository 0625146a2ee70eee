"""C07: the same expression evaluated by the compiler (constants) and at run time (variables)."""
import re
from .cgen import *


def make_exprs(rng, floats, n, stats):
    atoms, defs, k = [], [], 0
    for t in INTS * 3 + ([F, D] * 4 if floats else []):
        atoms.append(X("K%d" % k, t))
        defs.append((t, lit(rng, t)))
        k += 1
    ex = []
    for _ in range(n):
        g = ExprGen(rng, atoms, floats=floats, consts=False, stats=stats, constonly=True)
        ex.append(g.expr(rng.choice([1, 2, 2, 3, 4])))
    return defs, ex


def run_text(defs, ex):
    """everything through run-time variables: the reference"""
    o = [PRELUDE]
    for i, (t, l) in enumerate(defs):
        o.append("static %s V%d;" % (TN[t], i))
    o.append("static void init_(void) { %s }" % " ".join("V%d = %s;" % (i, l) for i, (t, l) in enumerate(defs)))
    m = []
    for i, x in enumerate(ex):
        o.append("static void e%d(void) { %s }" % (i, emit_stmt(str(i), X(re.sub(r"\bK(\d+)\b", r"V\1", x.s), x.t))))
        m.append("ub_reset_(); e%d();" % i)
    o.append("int main(void) { init_(); %s put_(); return 0; }" % "\n".join(m))
    return "\n".join(o) + "\n"


def ival(hexs, t):
    v = int(hexs, 16)
    b = BITS[t]
    v &= (1 << b) - 1
    if SIGNED[t] and v >> (b - 1):
        v -= 1 << b
    return v


def const_text(rng, defs, ex, vals, stats, bad=None):
    """vals: {i: hex}. Returns (text, expected stream of (id, hex))."""
    o = [PRELUDE]
    for i, (t, l) in enumerate(defs):
        if rng.random() < .5 or t not in (SI,):
            o.append("#define K%d (%s)" % (i, l))
        else:
            o.append("enum { K%d = %s };" % (i, l))
    exp, m = [], []
    for i, x in enumerate(ex):
        if i not in vals:
            continue
        t, v = x.t, vals[i]
        isint = t in INTS
        # not constant expressions for wcpl (diagnosed): && and ||, floating division that may be by zero
        nc = not is_const(x, defs)
        k = rng.choice(["fun", "sizeof", "fun", "mac"] if nc else ["fun", "glob", "glob2", "arr", "assert", "loc", "sizeof", "castg"] + (["enum", "size", "case", "assert2", "mac"] if isint and t not in (SLL, ULL) else []))
        stats["const-" + k] = stats.get("const-" + k, 0) + 1
        lv = None
        if isint:
            pv = ival(v, t)
            lv = lit(rng, t, pv)
        if k == "fun":
            m.append(emit_stmt(str(i), x))
        elif k == "mac":
            o.append("#define M%d %s" % (i, x.s))
            m.append(emit_stmt(str(i), X("M%d" % i, t)))
        elif k == "glob":
            o.append("static %s g%d = %s;" % (TN[t], i, x.s))
            m.append(emit_stmt(str(i), X("g%d" % i, t)))
        elif k == "castg":
            o.append("%s g%d = (%s)%s;" % (TN[t], i, TN[t], x.s))
            m.append(emit_stmt(str(i), X("g%d" % i, t)))
        elif k == "glob2":
            o.append("static struct { char c; %s v; } s%d = { 'x', %s };" % (TN[t], i, x.s))
            m.append(emit_stmt(str(i), X("s%d.v" % i, t)))
        elif k == "arr":
            o.append("static %s a%d[3] = { %s, %s };" % (TN[t], i, x.s, x.s))
            m.append(emit_stmt(str(i), X("a%d[1]" % i, t)))
        elif k == "loc":
            m.append("{ %s l[2] = { %s, %s }; %s }" % (TN[t], x.s, x.s, emit_stmt(str(i), X("l[1]", t))))
        elif k == "sizeof":
            m.append("emit(%d, (unsigned long long)sizeof(%s));" % (i, x.s))
            exp.append((i, "%x" % (BITS[t] // 8)))
            continue
        elif k == "assert":
            if isint:
                o.append("static_assert(%s == %s);" % (x.s, lv))
            m.append(emit_stmt(str(i), x))
        elif k == "assert2":
            if isint:
                o.append("static_assert((%s) - (%s) == 0, \"differs\");" % (x.s, lv))
            m.append(emit_stmt(str(i), x))
        elif k == "enum":
            if t in (UI, UL) and pv > 2 ** 31 - 1:
                m.append(emit_stmt(str(i), x))
            else:
                o.append("enum { e%da = %s, e%db };" % (i, x.s, i))
                m.append("emit(%d, (unsigned long long)(%s)e%da);" % (i, TN[t], i))
                if pv < 2 ** 31 - 1:
                    m.append("emit(%d, (unsigned long long)(long long)e%db);" % (i, i))
                    exp.append((i, v))
                    exp.append((i, "%x" % ((pv + 1) & (2 ** 64 - 1))))
                    continue
        elif k == "size":
            o.append("static char z%d[((%s) & 31) + 2];" % (i, x.s))
            m.append("emit(%d, (unsigned long long)sizeof(z%d));" % (i, i))
            exp.append((i, "%x" % ((pv & 31) + 2)))
            continue
        elif k == "case":
            if t in (UI, UL) and pv > 2 ** 31 - 1:
                m.append(emit_stmt(str(i), x))
            else:
                o.append("static int c%d_(int x) { switch (x) { case %s: return 1; default: return 0; } return 2; }" % (i, x.s))
                m.append("emit(%d, (unsigned long long)c%d_(%s));" % (i, i, lit(rng, SI, pv)))
                exp.append((i, "1"))
                m.append("emit(%d, (unsigned long long)c%d_(%s));" % (i, i, lit(rng, SI, pv ^ (1 << rng.randint(0, 30)))))
                exp.append((i, "0"))
                continue
        exp.append((i, v))
    o.append("int main(void) { %s put_(); return 0; }" % "\n".join(m))
    return "\n".join(o) + "\n", exp


def is_const(x, defs):
    return not ("&&" in x.s or "||" in x.s or ("/" in x.s and any(defs[int(z)][0] in (F, D) for z in re.findall(r"K(\d+)", x.s))))


def false_assert_text(rng, defs, x, v):
    o = ["#define K%d (%s)" % (i, l) for i, (t, l) in enumerate(defs)]
    pv = ival(v, x.t)
    return "#include <stdbool.h>\n" + "\n".join(o) + "\nstatic_assert(%s != %s);\nint main(void) { return 0; }\n" % (x.s, lit(rng, x.t, pv))
