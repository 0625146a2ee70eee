"""C02: order of evaluation. Expressions whose side effects are sequenced (by && || ?: , and calls) over
locals, globals, memory and parameters; operands of unsequenced operators touch disjoint objects."""
from .cgen import *

VARS = [("l0", SI), ("l1", SC), ("l2", SLL), ("l3", UC), ("p0", SI), ("p1", SS), ("g0", SI), ("g1", SLL), ("g2", UC), ("m[0]", SI), ("m[1]", SI),
        ("s->a", SI), ("s->c", SC), ("s->q", SLL), ("b0", BOOL), ("d0", D), ("*ip", SI), ("u0", UI), ("#tr", None)]


class Seq:
    def __init__(self, rng, stats):
        self.r, self.st, self.n = rng, stats, 0

    def note(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def split(self, vs):
        a, b = [], []
        for v in vs:
            self.r.choice((a, b)).append(v)
        return a, b

    def atom(self, vs):
        r = self.r
        vs = [x for x in vs if x[1] is not None]
        if vs and r.random() < .8:
            v, t = r.choice(vs)
            if t == SI and r.random() < .7:
                return v
            return "(int)%s" % v if t != D else "(int)(%s)" % v
        return str(r.randint(0, 5))

    def cond(self, d, vs):
        """anything usable as a condition"""
        r = self.r
        k = r.random()
        real = [x for x in vs if x[1] is not None]
        if k < .25 and real:
            v, t = r.choice(real)
            if t in (D, BOOL):
                return v if t == BOOL else "(%s > 1.0)" % v
            return v
        if k < .5:
            return "(%s)" % self.bin2(d, vs, r.choice(["<", ">", "==", "!=", "<=", ">="]))
        if k < .6:
            return "!%s" % self.e(d - 1, vs)
        return self.e(d - 1, vs)

    def bin2(self, d, vs, op):
        a, b = self.split(vs)
        return "%s %s %s" % (self.e(d - 1, a), op, self.e(d - 1, b))

    def e(self, d, vs):
        """an int-valued primary/parenthesized expression touching only vs"""
        r = self.r
        if d <= 0:
            return self.atom(vs)
        k = r.randint(0, 14)
        if k == 14 and ("#tr", None) in vs:
            self.note("(void, value)")
            return "(%s, %s)" % (self.void(d - 1, vs), self.e(d - 1, vs))
        if k <= 1:
            self.note("?:")
            return "(%s ? %s : %s)" % (self.cond(d, vs), self.e(d - r.randint(1, 3), vs), self.e(d - r.randint(1, 3), vs))
        if k == 2:
            self.note("&&")
            return "(%s && %s)" % (self.cond(d, vs), self.cond(d, vs))
        if k == 3:
            self.note("||")
            return "(%s || %s)" % (self.cond(d, vs), self.cond(d, vs))
        if k == 4:
            self.note(",")
            return "(%s, %s)" % (self.e(d - 1, vs), self.e(d - 1, vs))
        if k == 5:
            return "(%s)" % self.bin2(d, vs, r.choice(["+", "-", "&", "|", "^", "<", "=="]))
        real = [x for x in vs if x[1] is not None]
        if k <= 9 and real:
            v, t = r.choice(real)
            rest = [x for x in vs if x[0] != v]
            op = r.choice(["=", "=", "=", "+=", "-=", "^=", "|=", "pre", "post"])
            if t == BOOL:
                op = "="
            self.note("asn" + op)
            if op in ("pre", "post"):
                o = r.choice(["++", "--"])
                x = o + v if op == "pre" else ("(*ip)" + o if v == "*ip" else v + o)
                return "((int)(%s) & 63)" % x
            val = "(%s & 63)" % self.e(d - 1, rest)
            if t == D:
                op = op if op in ("=", "+=", "-=") else "="
                return "(int)(%s %s (double)%s)" % (v, op, val)
            if op == "=" or t not in (SI, SLL, UI):
                return "(int)(%s = (%s)%s)" % (v, TN[t], val)
            return "((int)(%s %s %s) & 63)" % (v, op, val)
        if k == 10 and ("#tr", None) in vs:
            self.n += 1
            self.note("call")
            return "tr(%d, %s)" % (self.n, self.e(d - 1, vs))
        if k == 11 and any(v == "g0" for v, t in vs):
            self.note("call-global")
            return "setg(%s)" % self.e(d - 1, [x for x in vs if x[0] != "g0"])
        if k == 12 and sum(v in ("m[0]", "m[1]") for v, t in vs) == 2:
            self.note("index")
            o = [x for x in vs if x[0] not in ("m[0]", "m[1]", "*ip")]
            a, b = self.split(o)
            if r.random() < .5:
                return "m[%s & 1]" % self.e(d - 1, o)
            return "(m[%s & 1] = (%s & 63))" % (self.e(d - 1, a), self.e(d - 1, b))
        return self.atom(vs)

    def void(self, d, vs):
        """an expression of type void"""
        r = self.r
        k = r.randint(0, 7) if d > 0 else r.randint(0, 2)
        self.note("void%d" % k)
        self.n += 1
        tr = ("#tr", None) in vs
        if k <= 1 and tr:
            return "vtr(%d, %s)" % (self.n, self.e(d - 1, vs))
        if k <= 2:
            real = [x for x in vs if x[1] is not None]
            return "(void)%s" % (r.choice(real)[0] if real and r.random() < .3 else "(%s)" % self.e(d - 1, vs))
        if k == 3:
            return "(void)(%s)" % self.void(d - 1, vs)
        if k <= 5:
            x = "(%s ? %s : %s)" % (self.cond(d, vs), self.void(d - 1, vs), self.void(d - 1, vs))
            return x if k == 4 else "(void)" + x
        x = "(%s, %s)" % (r.choice([self.e, self.void])(d - 1, vs), self.void(d - 1, vs))
        return x if k == 6 else "(void)" + x


def gen_seq_program(rng, stats=None):
    stats = stats if stats is not None else {}
    out = [PRELUDE, "struct st { char c; int a; long long q; };",
           "static int g0; static long long g1; static unsigned char g2; static int gm[2]; static struct st gs; static int gi;",
           "static int tr(int id, int v) { emit(id, (unsigned long long)v); return v; }",
           "static void vtr(int id, int v) { emit(id + 500, (unsigned long long)v); return; }",
           "static int setg(int v) { int o = g0; g0 = (v & 63) + 1; return o; }"]
    main = []
    for n in range(8):
        s = Seq(rng, stats)
        regs = rng.random() < .5
        body = ["int l0 = %d; signed char l1 = %d; long long l2 = %dLL; unsigned char l3 = %d; bool b0 = %d; double d0 = %d.5; unsigned u0 = %du;" % tuple(
            rng.randint(0, 1) if i == 4 else rng.randint(0, 9) for i in range(7)),
            "int am[2]; struct st as; int ai; int *m; struct st *s; int *ip;",
            "am[0] = 3; am[1] = 4; as.c = 1; as.a = 2; as.q = 5LL; ai = 6; gm[0] = 1; gm[1] = 2; gs.c = 7; gs.a = 8; gs.q = 9LL; gi = 1;"]
        body.append("m = &%s[0]; s = &%s; ip = &%s;" % (("am", "as", "ai") if rng.random() < .5 else ("gm", "gs", "ai")))
        if not regs:   # force some locals into memory
            body.append("{ int *x0; x0 = &l0; *x0 += 0; } { long long *x2; x2 = &l2; *x2 += 0LL; } { double *x3; x3 = &d0; *x3 += 0.0; }")
        for _ in range(6):
            k = rng.random()
            x = s.e(rng.randint(2, 6), VARS)
            if rng.random() < .25:
                y = s.void(rng.randint(1, 4), VARS)
                k = rng.randint(0, 6)
                body.append(["%s;", "if (l0 & 1) %s; else (void)0;", "{ int k_; for ((void)(k_ = 0); k_ < 2; (void)++k_) %s; }", "{ int k_; for (k_ = 0; k_ < 2; %s, ++k_) tr(150, k_); }",
                             "{ int k_ = 0; do { %s; } while (++k_ < 2); }", "{ int k_ = 0; for (%s; k_ < 2; ++k_) tr(151, k_); }", "{ int k_ = 0; while (%s, k_ < 2) ++k_; }"][k] % y)
            elif k < .5:
                body.append("tr(%d, %s);" % (100 + n, x))
            elif k < .6:
                body.append("if (%s) tr(%d, 1); else tr(%d, 2);" % (s.cond(4, VARS), 110 + n, 110 + n))
            elif k < .7:
                body.append("{ int k_ = 0; while (k_++ < 3 && %s) tr(%d, k_); }" % (s.cond(4, VARS), 120 + n))
            elif k < .8:
                body.append("{ int k_; for (k_ = 0; k_ < 3; %s, ++k_) tr(%d, k_); }" % (s.e(3, VARS), 130 + n))
            elif k < .9:
                body.append("switch (%s) { case 0: tr(%d, 0); break; case 1: tr(%d, 1); default: tr(%d, 2); break; }" % (x, 140 + n, 140 + n, 140 + n))
            else:
                body.append("%s;" % x if x.startswith("(") or x.startswith("tr") else "tr(0, %s);" % x)
            body.append("dump(%s);" % ", ".join("(long long)%s" % v if t != D else "(long long)(%s)" % v for v, t in VARS[:-1]))
        out.append("static int f%d(int p0, short p1) {\n  %s\n  return %s;\n}" % (n, "\n  ".join(body), s.e(3, VARS)))
        main += ["ub_reset_(); emit(%d, (unsigned long long)f%d(%d, %d));" % (900 + n, n, rng.randint(0, 9), rng.randint(0, 9)) for _ in range(2)]
    out.insert(6, "static void dump(%s) { long long h = 0; %s emit(99, (unsigned long long)h); }" % (
        ", ".join("long long v%d" % i for i in range(len(VARS) - 1)), " ".join("h = (h ^ v%d) * 31LL & 0xffffffffffLL;" % i for i in range(len(VARS) - 1))))
    out.append("int main(void) { %s put_(); return 0; }" % "\n  ".join(main))
    return "\n".join(out) + "\n", stats
