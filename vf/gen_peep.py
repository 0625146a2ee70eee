"""Dense short statements over memory and register objects of every type: every load width next to every
conversion, constant operands (0, 1, powers of two, masks), constant addresses and offsets, dropped values and
store-then-load pairs. What a local rewriting of the emitted instructions would get wrong shows here."""
from .cgen import *

MT = [BOOL, SC, UC, SS, US, SI, UI, SL, UL, SLL, ULL, F, D, CHAR]
PAT = {8: [0, 1, 0x7f, 0x80, 0xff, 0x81, 0x5a], 16: [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x80ff, 0xff80],
       32: [0, 1, 0x80, 0xff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff8000, 0xffffff80, 0x12345678],
       64: [0, 1, 0xff, 0x8000, 0x80000000, 0xffffffff, 0x100000000, 0x8000000000000000, 0xffffffffffffffff, 0xffffffff80000000, 0x123456789abcdef0]}


def val(r, t):
    if t in (F, D):
        return lit(r, t, r.choice([0.0, 1.0, 2.5, 100.0, 3.75, 65000.5]))
    if t == BOOL:
        return r.choice(["true", "false"])
    v = r.choice(PAT[BITS[t]])
    if SIGNED[t] and v >> (BITS[t] - 1):
        v -= 1 << BITS[t]
    return lit(r, t, v)


class P(ExprGen):
    pass


def gen_peep_program(rng, stats=None):
    r = rng
    st = stats if stats is not None else {}

    def note(k):
        st[k] = st.get(k, 0) + 1
    L = [PRELUDE]
    fields = []
    L.append("struct S { " + " ".join("%s f%d;" % (TN[t], t) for t in r.sample(MT, len(MT))) + " };")
    L.append("static struct S gs; static struct S ga[3];")
    for t in MT:
        L.append("static %s a%d[4] = { %s };" % (TN[t], t, ", ".join(val(r, t) for _ in range(4))))
        L.append("static %s g%d = %s;" % (TN[t], t, val(r, t)))
        for q in range(3):
            L.append("static unsigned w%d_%d;" % (t, q))
    WK = [r.choice([65536, 100000, 1 << 20, 0x7fffffff, 0xfffffff0]), r.choice([4, 65536, 0x80000000])]
    # functions that give every type back (returns convert)
    for t in MT:
        L.append("static %s id%d(%s x) { return x; }" % (TN[t], t, TN[t]))

    eg = ExprGen(r, [], stats=st)

    def mem(t=None):
        """an object in memory (or register) of type t"""
        if t is None:
            t = r.choice(MT)
        k = r.randint(0, 10)
        if k == 10:             # an address computed in unsigned arithmetic, which wraps around
            q = r.randint(0, 2)
            note("wrap%d" % q)
            return X("(*(%s *)(size_t)(w%d_%d %s))" % (TN[t], t, q, ["+ %uu" % WK[0], "- %uu" % WK[1], "+ 8u"][q]), t)
        s = ["a%d[%d]" % (t, r.randint(0, 3)), "a%d[i & 3]" % t, "*p%d" % t, "p%d[%d]" % (t, r.randint(0, 2)), "p%d[1+1]" % t,
             "gs.f%d" % t, "ps->f%d" % t, "ga[%d].f%d" % (r.randint(0, 2), t), "g%d" % t, "l%d" % t][k]
        note("obj%d.%d" % (k, t))
        return X(s, t)

    def cast(x, t):
        if x.t in (F, D) and t not in (F, D):
            return X("((%s)%s)" % (TN[t], eg.inrange(x, t)), t)
        note("cast%d.%d" % (x.t, t))
        return X("((%s)%s)" % (TN[t], x.s), t)

    def chain(safe=False):
        x = mem()
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            k = r.random() * (.75 if safe else 1)
            if k < .6:
                x = cast(x, r.choice(MT))
            elif k < .75 and x.t not in (F, D):
                op = r.choice("&|^")
                c = lit(r, r.choice([SI, UI, SLL, ULL]), r.choice([0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff]))
                t = SI
                t = common(x.t, litt(c))
                x = X("(%s %s %s)" % (x.s, op, c), t)
            elif k < .85 and x.t not in (F, D):
                t = promote(x.t)
                x = X("(%s %s %d)" % (x.s, r.choice(["<<", ">>", ">>"]), r.choice([0, 1, 7, 8, 15, 16, 24, BITS[t] - 1])), t)
            elif k < .95:
                op = r.choice("+-*")
                c = str(r.choice([0, 1, 0, 2, 4]))
                x = X("(%s %s %s)" % ((x.s, op, c) if r.random() < .6 else (c, op, x.s)), common(x.t, SI))
            else:
                x = X("id%d(%s)" % (r_t(x), x.s), r_t(x))
        return x

    def r_t(x):
        return x.t

    def litt(c):
        if c.endswith("ULL"):
            return ULL
        if c.endswith("LL"):
            return SLL
        return UI if c[-1] in "uU" else SI

    def cmpe():
        a = chain()
        k = r.random()
        if k < .3:
            b = X(str(r.choice([0, 0, 1, 255, 128, 32768, 65535])), SI)
        else:
            b = chain()
        s = "(%s %s %s)" % (a.s, r.choice(["<", "<=", ">", ">=", "==", "!="]), b.s)
        for _ in range(r.choice([0, 0, 1, 2])):
            s = "(!%s)" % s
        return s
    n = [0]

    def ob(x):
        n[0] += 1
        return emit_stmt(str(n[0]), x)

    def stmt():
        k = r.randint(0, 13)
        if k <= 3:
            return ob(chain())
        if k == 4:                      # store then load
            d = mem()
            x = chain(True)
            x = cast(x, d.t) if d.t != BOOL or r.random() < .5 or x.t in (F, D) else x
            if not assignable(d.t, x.t, mem=True):
                x = cast(x, d.t)
            note("storeload")
            return "%s = %s; %s" % (d.s, x.s, ob(d))
        if k == 5:                      # op=
            d = mem()
            if d.t in (F, D, BOOL):
                return ob(d)
            note("op=")
            op = r.choice(["+=", "-=", "*=", "&=", "|=", "^="] if BITS[d.t] < 32 or not SIGNED[d.t] else ["&=", "|=", "^="])
            c = r.choice(["0", "1", "2", "127", "255"])
            return "%s %s %s; %s" % (d.s, op, c, ob(d))
        if k == 6:
            d = mem()
            if d.t in (BOOL,):
                return ob(d)
            note("++")
            s = r.choice(["++%s", "%s++", "--%s", "%s--"]) % (d.s if d.s[0] != "*" else "(%s)" % d.s)
            if SIGNED[d.t] and BITS[d.t] >= 32:
                s = "if (%s > -1000 && %s < 1000) %s" % (d.s, d.s, s)
            return "%s; %s" % (s, ob(d))
        if k == 7:                      # dropped values
            note("drop")
            return "%s; %s" % (r.choice(["(void)%s", "%s"]) % chain().s, ob(mem()))
        if k == 8:
            note("cond")
            return "if (%s) %s else %s" % (cmpe(), ob(chain()), ob(chain()))
        if k == 9:
            return ob(X(cmpe(), SI))
        if k == 10:                     # register set, read back, chained
            a, b = r.choice(MT), r.choice(MT)
            x = chain(True)
            x = cast(x, a)
            y = "l%d" % a
            note("setget")
            s = "l%d = %s; " % (a, x.s)
            xb = cast(X(y, a), b)
            s += "l%d = %s; " % (b, xb.s)
            return s + ob(X("l%d" % b, b)) + " " + ob(X(y, a))
        if k == 11:
            a = r.choice(MT)
            x = cast(chain(True), a)
            note("assignval")
            return ob(X("(int)((l%d = %s) == %s)" % (a, x.s, x.s), SI)) if a != BOOL else ob(x)
        if k == 12:
            c = X("(%s ? %s : %s)" % (cmpe(), "%s", "%s"), SI)
            a, b = chain(), chain()
            note("?:")
            return ob(X(c.s % (a.s, b.s), common(a.t, b.t)))
        # address arithmetic with constants
        t = r.choice(MT)
        note("addr")
        return r.choice([
            "p%d = &a%d[%d]; %s" % (t, t, r.randint(0, 1), ob(X("*p%d" % t, t))),
            "p%d = &a%d[0]; p%d = p%d + %d; %s p%d = p%d - 1;" % (t, t, t, t, 1, ob(X("p%d[-1]" % t, t)), t, t),
            ob(X("*(p%d + %d)" % (t, r.randint(0, 2)), t)),
            ob(X("(&a%d[%d])[%d]" % (t, r.randint(1, 2), r.randint(-1, 1)), t)),
            "ps = &ga[%d]; %s" % (r.randint(0, 2), ob(X("ps->f%d" % t, t))),
            ob(X("(ps - %s)->f%d" % ("0", t), t)),
        ])
    for fn in range(r.randint(3, 6)):
        L.append("static void t%d(int i) {" % fn)
        for t in MT:
            L.append("  %s l%d = %s; %s *p%d = &a%d[%d];" % (TN[t], t, val(r, t), TN[t], t, t, r.randint(0, 1)))
        L.append("  struct S *ps = &ga[1];")
        for _ in range(r.randint(30, 60)):
            L.append("  ub_mark_(); " + stmt() + " ub_back_();")
        for t in MT:
            L.append("  " + ob(X("l%d" % t, t)) + " " + ob(X("*p%d" % t, t)))
        L.append("}")
    L.append("int main(void) { int i;")
    for t in MT:
        L.append("  gs.f%d = a%d[0]; ga[0].f%d = a%d[1]; ga[1].f%d = a%d[2]; ga[2].f%d = a%d[3];" % ((t, t) * 4))
        L.append("  " + " ".join("w%d_%d = (unsigned)(size_t)&a%d[0] %s;" % (t, q, t, ["- %uu" % WK[0], "+ %uu" % WK[1], "- 8u"][q]) for q in range(3)))
    nf = fn + 1
    L.append("  for (i = 0; i < 4; ++i) { ub_reset_(); " + " ".join("t%d(i);" % k for k in range(nf)) + " } put_(); return 0; }")
    return "\n".join(L) + "\n"
