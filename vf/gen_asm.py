"""C29: functions written with inline assembly, and the same instructions as a WebAssembly text module of our own.
gen(rng) -> (C text, WAT text, calls [(function, arguments)], result kinds per function)."""
import struct

CT = {"i": ["int", "unsigned", "long", "unsigned long"], "l": ["long long", "unsigned long long"], "f": ["float"], "d": ["double"]}
WT = {"i": "i32", "l": "i64", "f": "f32", "d": "f64"}
OPS = {}     # result type -> [(name, operand types, float policy)]


def op(name, ins, out, pol=""):
    OPS.setdefault(out, []).append((name, ins, pol))


for t in "il":
    w = WT[t]
    for n in "add sub mul and or xor shl shr_s shr_u rotl rotr".split():
        op("%s.%s" % (w, n), t + t, t)
    for n in "clz ctz popcnt extend8_s extend16_s".split():
        op("%s.%s" % (w, n), t, t)
    op(w + ".eqz", t, "i")
    for n in "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split():
        op("%s.%s" % (w, n), t + t, "i")
    for n in ("div_u", "rem_u", "rem_s"):
        op("%s.%s" % (w, n), t + t, t, "odd")
    op(w + ".div_s", t + t, t, "oddpos")
    for s in "fd":
        for g in "su":
            op("%s.trunc_sat_%s_%s" % (w, WT[s], g), s, t)
            op("%s.trunc_%s_%s" % (w, WT[s], g), s, t, "range" + g)
op("i64.extend32_s", "l", "l")
op("i64.extend_i32_s", "i", "l")
op("i64.extend_i32_u", "i", "l")
op("i32.wrap_i64", "l", "i")
op("i32.reinterpret_f32", "f", "i", "safe")
op("i64.reinterpret_f64", "d", "l", "safe")
for t in "fd":
    w = WT[t]
    for n in "add sub mul div".split():
        op("%s.%s" % (w, n), t + t, t, "nan")
    for n in "min max".split():
        op("%s.%s" % (w, n), t + t, t)
    op(w + ".copysign", t + t, t, "safe")
    op(w + ".sqrt", t, t, "nan")
    for n in "abs neg ceil floor trunc nearest".split():
        op("%s.%s" % (w, n), t, t)
    for n in "eq ne lt gt le ge".split():
        op("%s.%s" % (w, n), t + t, "i")
    for s in "il":
        for g in "su":
            op("%s.convert_%s_%s" % (w, WT[s], g), s, t)
op("f64.promote_f32", "f", "d")
op("f32.demote_f64", "d", "f")
op("f32.reinterpret_i32", "i", "f", "nan")
op("f64.reinterpret_i64", "l", "d", "nan")
LOAD = {"i": [("load", 4), ("load8_s", 1), ("load8_u", 1), ("load16_s", 2), ("load16_u", 2)],
        "l": [("load", 8), ("load8_s", 1), ("load8_u", 1), ("load16_s", 2), ("load16_u", 2), ("load32_s", 4), ("load32_u", 4)],
        "f": [("load", 4)], "d": [("load", 8)]}
STORE = {"i": [("store", 4), ("store8", 1), ("store16", 2)], "l": [("store", 8), ("store8", 1), ("store16", 2), ("store32", 4)], "f": [("store", 4)], "d": [("store", 8)]}
NMEM = 96
BASE = 1024
HELP = [("h0", "ii", "i", "static int h0(int a, int b) { return a * 3 - b; }", "local.get 0 i32.const 3 i32.mul local.get 1 i32.sub"),
        ("h1", "l", "l", "static long long h1(long long a) { g1 = g1 ^ a; return a + g1; }", "global.get $g1 local.get 0 i64.xor global.set $g1 local.get 0 global.get $g1 i64.add"),
        ("h2", "di", "d", "static double h2(double a, int b) { return a + (double)b; }", "local.get 0 local.get 1 f64.convert_i32_s f64.add"),
        ("h3", "f", "i", "static int h3(float a) { return a < 0.5f; }", "local.get 0 f32.const 0.5 f32.lt")]


def s32(v):
    v &= 2 ** 32 - 1
    return v - 2 ** 32 if v >> 31 else v


def s64(v):
    v &= 2 ** 64 - 1
    return v - 2 ** 64 if v >> 63 else v


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return 1.5


def intval(r, w):
    m = 2 ** w
    v = r.choice([0, 1, 2, 5, 31, 32, 63, 127, 128, 255, 256, 32767, 32768, 65535, m - 1, m // 2, m // 2 - 1, r.randrange(m), r.randrange(m), r.randrange(2 ** r.randint(1, w))])
    return s32(v) if w == 32 else s64(v)


def fltval(r, t):
    v = r.choice([0.0, -0.0, 0.5, 1.0, -1.0, 1.5, -2.5, 3.0, 2147483648.0, 4294967295.0, 9.2e18, -1e10, 1e-40, 1e30, r.uniform(-100, 100), r.uniform(-1, 1), r.randint(-9, 9) + .5,
                  r.randint(-2 ** 40, 2 ** 40) * 1.0])
    return f32(v) if t == "f" else v


class Gen:
    def __init__(self, rng, cnt):
        self.r, self.cnt, self.n, self.macros, self.mod = rng, cnt, 0, [], "t"

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # every generator below returns (list of C instruction texts, list of WAT texts)
    def const(self, t):
        r = self.r
        if t in "il":
            w = 32 if t == "i" else 64
            v = intval(r, w)
            return ["%s.const %s" % (WT[t], self.ilit(v, t))], ["%s.const %d" % (WT[t], v)]
        v = fltval(r, t)
        return ["%s.const %s" % (WT[t], self.flit(v, t))], ["%s.const %s" % (WT[t], float(v).hex())]

    def ilit(self, v, t, arg=False):
        r = self.r
        s = "LL" if t == "l" else ""
        if v == (-2 ** 31 if t == "i" else -2 ** 63):
            x = "(%d%s - 1%s)" % (v + 1, s, s)
        elif v < 0:
            x = "(%d%s)" % (v, s)
        else:
            k = r.randint(0, 5)
            x = [str(v) + s, hex(v) + s, str(v) + s, "(%d%s)" % (v, s), "(%d%s + %d%s)" % (v // 2, s, v - v // 2, s), "(%d%s * 1%s)" % (v, s, s)][k]
        return x

    def flit(self, v, t):
        x = repr(abs(float(v)))
        if "." not in x and "e" not in x:
            x += ".0"
        elif "." not in x:
            x = x.replace("e", ".0e")
        if t == "f":
            x += "f"
        return "(-%s)" % x if struct.pack("<d", v)[7] & 128 else x

    def addr(self, d, width):
        """an address in mem with room for width bytes at offset up to NMEM-32-8"""
        r = self.r
        if self.ptr and r.random() < .6:
            c, w = ["local.get " + self.ptr], ["local.get $" + self.ptr]
        else:
            c, w = ["ref.data %s:mem" % self.mod], ["i32.const %d" % BASE]
        if r.random() < .7:
            a, b = self.gen("i", d - 1)
            c += a + ["i32.const 31", "i32.and", "i32.add"]
            w += b + ["i32.const 31", "i32.and", "i32.add"]
        o = r.choice([0, 0, 1, 4, 8, r.randint(0, NMEM - 32 - 8)])
        al = r.choice([x for x in (1, 2, 4, 8) if x <= width])
        mc = mw = ""
        if o or r.random() < .3:
            mc += " offset=%s" % r.choice([str(o), "%#x" % o, "(%d + %d)" % (o // 2, o - o // 2)])
            mw += " offset=%d" % o
        if al > 1 or r.random() < .3:
            mc += " align=%d" % al
        mw += " align=%d" % al
        return c, w, mc, mw

    def var(self, t, safe=False):
        v = [x for x in self.scope.values() if x[1] == t]
        return None if safe and t in "fd" or not v else self.r.choice(v)

    def gen(self, t, d, safe=False):
        r = self.r
        if d <= 0 or r.random() < .12:
            v = self.var(t, safe)
            if v and r.random() < .75:
                return ["local.get " + v[0]], ["local.get $" + v[2]]
            if r.random() < .3 and not safe:
                g = {"i": "g0", "l": "g1", "d": "g2", "f": "g3"}[t]
                self.note("global.get")
                return ["global.get %s:%s" % (self.mod, g)], ["global.get $" + g]
            return self.const(t)
        k = r.random()
        if k < .08 and not (safe and t in "fd"):
            n, w = r.choice(LOAD[t])
            c, x, mc, mw = self.addr(d, w)
            self.note(WT[t] + "." + n)
            return c + ["%s.%s%s" % (WT[t], n, mc)], x + ["%s.%s%s" % (WT[t], n, mw)]
        if k < .13:
            a, b = self.gen(t, d - 1, safe), self.gen(t, d - 1, safe)
            c = self.gen("i", d - 1)
            self.note("select")
            return a[0] + b[0] + c[0] + ["select"], a[1] + b[1] + c[1] + ["select"]
        if k < .17:
            u = r.choice("ilfd")
            a, b = self.gen(t, d - 1, safe), self.gen(u, d - 2)
            self.note("drop")
            return a[0] + b[0] + ["drop"], a[1] + b[1] + ["drop"]
        if k < .23 and self.eff:
            v = self.var(t)
            if v:
                a = self.gen(t, d - 1, safe)
                self.note("local.tee")
                return a[0] + ["local.tee " + v[0]], a[1] + ["local.tee $" + v[2]]
        if k < .28 and self.eff:
            # a register of the asm form's own
            u = r.choice("ilfd")
            x = self.uid("rg")
            a = self.gen(u, d - 2)
            self.locals.append((x, u))
            b = self.gen(t, d - 1, safe)
            self.note("register")
            c, w = a[0] + ["local.set " + x] + b[0], a[1] + ["local.set $" + x] + b[1]
            if u == t and not safe:
                c += ["local.get " + x, "drop"] if r.random() < .5 else ["local.get " + x, "i32.const 1", "select"]
                w += ["local.get $" + x, "drop"] if c[-1] == "drop" else ["local.get $" + x, "i32.const 1", "select"]
            self.regs.append("register %s %s" % (WT[u], x))
            return c, w
        if k < .33 and self.eff:
            h = r.choice([h for h in HELP if h[2] == t] or [None])
            if h and not safe:
                a = [self.gen(u, d - 1) for u in h[1]]
                self.note("call")
                return sum((x[0] for x in a), []) + ["call %s:%s" % (self.mod, h[0])], sum((x[1] for x in a), []) + ["call $" + h[0]]
        if k < .39:
            c, w = self.cast(t, d - 1, safe)
            self.note("nested asm")
            return [c], w
        o, ins, pol = r.choice(OPS[t])
        if safe and pol == "nan":
            return self.gen(t, d - 1, safe)
        sf = safe or pol == "safe"
        if pol[:5] == "range":
            f = ins
            a = self.gen("i", d - 1)
            k = r.choice([0.25, 0.5, 0.4375])
            x = ["%s.convert_i32_%s" % (WT[f], pol[5]), "%s.const %r%s" % (WT[f], k, "f" * (f == "f")), "%s.mul" % WT[f], o]
            y = list(x)
            y[1] = "%s.const %r" % (WT[f], k)
            self.note(o)
            return a[0] + x, a[1] + y
        c, w = [], []
        for i, u in enumerate(ins):
            a = self.gen(u, d - 1, sf)
            c += a[0]
            w += a[1]
        if pol[:3] == "odd":
            m = [] if pol == "odd" else ["%s.const %d" % (WT[t], 2 ** (31 if t == "i" else 63) - 1), WT[t] + ".and"]
            mc = [x if not x.endswith(str(2 ** 63 - 1)) else x + "LL" for x in m]
            c += mc + ["%s.const 1" % WT[t], WT[t] + ".or"]
            w += m + ["%s.const 1" % WT[t], WT[t] + ".or"]
        self.note(o)
        if r.random() < .03:
            c.append("nop")
            w.append("nop")
        return c + [o], w + [o]

    def note(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1

    def form(self, c):
        """the text of asm(...): registers first, random layout"""
        r = self.r
        s = r.choice([", ", ", ", ",", ",\n    ", " ,  "])
        return "asm(%s)" % s.join(c)

    def with_regs(self, f):
        old, self.regs = self.regs, []
        c, w = f()
        c = self.regs + c
        self.regs = old
        return c, w

    def cast(self, t, d, safe=False):
        """a C cast expression of asm, as (text, wat)"""
        c, w = self.with_regs(lambda: self.gen(t, d, safe))
        return "(%s)%s" % (self.r.choice(CT[t]), self.form(c)), w

    def cexpr(self, t, ct, d):
        """a C expression of C type ct (class t)"""
        r = self.r
        k = r.random()
        v = [x for x in self.scope.values() if x[1] == t and x[3] == ct]
        if (k < .25 or d <= 0) and v:
            x = r.choice(v)
            return x[0], ["local.get $" + x[2]]
        if k < .5:
            c, w = self.with_regs(lambda: self.gen(t, d))
            return "(%s)%s" % (ct, self.form(c)), w
        if k < .6 and d > 0:
            # a condition, test first: the arms may be anything
            c, w = self.test(d - 1)
            x, y = self.cexpr(t, ct, d - 1), self.cexpr(t, ct, d - 1)
            self.note("?:")
            return "(%s ? %s : %s)" % (c, x[0], y[0]), w + ["(if (result %s) (then" % WT[t]] + x[1] + [") (else"] + y[1] + ["))"]
        if k < .66 and ct == "int" and d > 0:
            return self.test(d)
        if k < .72 and d > 0:
            eff, self.eff = self.eff, False
            x, y = self.cexpr(t, ct, d - 1), self.cexpr(t, ct, d - 1)
            self.eff = eff
            o, n = r.choice([("+", "add"), ("-", "sub"), ("*", "mul")] + ([("&", "and"), ("|", "or"), ("^", "xor")] if t in "il" else []))
            self.note("infix")
            return "(%s %s %s)" % (x[0], o, y[0]), x[1] + y[1] + ["%s.%s" % (WT[t], n)]
        if k < .77 and v and self.eff and d > 0:
            x, y = self.cexpr(t, ct, d - 1), r.choice(v)
            self.note("assignment expression")
            return "(%s = %s)" % (y[0], x[0]), x[1] + ["local.tee $" + y[2]]
        if k < .82 and self.eff and d > 0:
            g = r.choice([("i", "g0"), ("l", "g1"), ("d", "g2"), ("f", "g3")])
            c, w = self.with_regs(lambda: self.gen(g[0], d - 1))
            x = self.cexpr(t, ct, d - 1)
            self.note("comma")
            return "((void)%s, %s)" % (self.form(c + ["global.set %s:%s" % (self.mod, g[1])]), x[0]), w + ["global.set $" + g[1]] + x[1]
        return self.app(t, ct, d)

    def test(self, d):
        """an int 0/1 expression"""
        r = self.r
        k = r.random()
        if k < .4 and d > 0:
            x, y = self.test(d - 1), self.test(d - 1)
            self.note("&&")
            if r.random() < .5:
                return "(%s && %s)" % (x[0], y[0]), x[1] + ["(if (result i32) (then"] + y[1] + [") (else i32.const 0))"]
            return "(%s || %s)" % (x[0], y[0]), x[1] + ["(if (result i32) (then i32.const 1) (else"] + y[1] + ["))"]
        if k < .55 and d > 0:
            x = self.test(d - 1)
            return "!%s" % x[0], x[1] + ["i32.eqz"]
        t = r.choice("ilfd")
        ct = r.choice(CT[t])
        x = self.cexpr(t, ct, d - 1)
        n = "%s.const 0" % WT[t]
        if r.random() < .5:
            return "!%s" % x[0] if 0 else "(%s == %s)" % (x[0], {"i": "(%s)0" % ct, "l": "(%s)0" % ct, "f": "0.0f", "d": "0.0"}[t]), x[1] + [n, WT[t] + ".eq"]
        return "(%s != %s)" % (x[0], {"i": "(%s)0" % ct, "l": "(%s)0" % ct, "f": "0.0f", "d": "0.0"}[t]), x[1] + [n, WT[t] + ".ne"]

    def app(self, t, ct, d):
        """asm applied to arguments"""
        r = self.r
        o, ins, pol = r.choice([x for x in OPS[t] if x[2] in ("", "nan")])
        k = r.randint(0 if r.random() < .1 else 1, len(ins))
        eff, self.eff = self.eff, self.eff and k <= 1
        args, types, w = [], [], []
        for u in ins[:k]:
            cu = r.choice(CT[u])
            a, b = self.cexpr(u, cu, d - 1)
            if cu != "double" and r.random() < .3:
                a = "(%s)" % a
            args.append(a)
            types.append(cu)
            w += b
        self.eff = eff

        def rest():
            c, x = [], []
            for u in ins[k:]:
                a = self.gen(u, d - 1)
                c += a[0]
                x += a[1]
            c.append(o)
            x.append(o)
            return c, x
        self.note("applied")
        self.note(o)
        macro = r.random() < .3 and len(ins) == 2 and k == 1
        if macro:
            u = ins[1]
            m = self.uid("M")
            if u in "il":
                v = intval(r, 32 if u == "i" else 64)
                lit = self.ilit(v, u)
                if lit[0] != "(" or r.random() < .5:
                    lit = lit if lit[0] != "(" else lit[1:-1]
                wl = "%d" % v
            else:
                v = fltval(r, u)
                lit = self.flit(v, u)
                wl = float(v).hex()
            nest = r.random()
            if nest < .4:
                b = "asm(%s.const c, %s)" % (WT[u], o)
            elif nest < .7:
                b = "asm((%s)asm(%s.const c), %s)" % (CT[u][0], WT[u], o)
            else:
                b = "asm(i32.const %d, drop, (%s)asm(nop, (%s)asm(%s.const c), nop), %s)" % (r.randrange(9), CT[u][-1], CT[u][0], WT[u], o)
            self.macros.append("#define %s(a, c) ((%s(*)(%s))%s(a))" % (m, ct, types[0], b))
            self.note("macro")
            return "%s(%s, %s)" % (m, args[0], lit), w + ["%s.const %s" % (WT[u], wl), o]
        c, x = self.with_regs(rest)
        return "(%s(*)(%s))%s(%s)" % (ct, ", ".join(types), self.form(c), ", ".join(args)), w + x

    def stmt(self, d):
        """(C text, WAT list)"""
        r = self.r
        k = r.randint(0, 10)
        if k <= 3:
            v = r.choice([x for x in self.scope.values()])
            e, w = self.cexpr(v[1], v[3], d)
            return "%s = %s;" % (v[0], e), w + ["local.set $" + v[2]]
        if k == 4:
            v = r.choice([x for x in self.scope.values()])
            c, w = self.with_regs(lambda: self.gen(v[1], d))
            self.note("void asm")
            return "(void)%s;" % self.form(c + ["local.set " + v[0]]), w + ["local.set $" + v[2]]
        if k <= 6:
            t = r.choice("iilfd")
            n, wd = r.choice(STORE[t])

            def f():
                c, x, mc, mw = self.addr(d, wd)
                a = self.gen(t, d - 1, True)
                self.note(WT[t] + "." + n)
                return c + a[0] + ["%s.%s%s" % (WT[t], n, mc)], x + a[1] + ["%s.%s%s" % (WT[t], n, mw)]
            c, w = self.with_regs(f)
            return "(void)%s;" % self.form(c), w
        if k == 7:
            g = r.choice([("i", "g0"), ("l", "g1"), ("d", "g2"), ("f", "g3")])
            c, w = self.with_regs(lambda: self.gen(g[0], d))
            self.note("global.set")
            return "(void)%s;" % self.form(c + ["global.set %s:%s" % (self.mod, g[1])]), w + ["global.set $" + g[1]]
        if k == 8 and d > 1:
            e, w = self.test(d) if r.random() < .6 else self.cexpr("i", "int", d)
            a, b = self.block(d - 1), self.block(d - 1)
            self.note("if")
            return "if (%s) %s else %s" % (e, a[0], b[0]), w + ["(if (then"] + a[1] + [") (else"] + b[1] + ["))"]
        if k == 9 and d > 1:
            i = self.uid("i")
            self.locals.append((i, "i"))
            self.cvars.append("int %s;" % i)
            n = r.randint(1, 3)
            a = self.block(d - 1)
            self.note("for")
            return "for (%s = 0; %s < %d; ++%s) %s" % (i, i, n, i, a[0]), ["i32.const 0 local.set $%s (loop $%s" % (i, i)] + a[1] + [
                "local.get $%s i32.const 1 i32.add local.tee $%s i32.const %d i32.lt_s br_if $%s)" % (i, i, n, i)]
        if k == 10:
            z = r.randint(0, 20)
            self.note("memory.fill")
            def f():
                c, x, _, _ = self.addr(1, 1)
                if r.random() < .5:
                    v = self.gen("i", d - 1)
                    e = ["i32.const %d" % z, "memory.fill"]
                else:
                    v = self.addr(1, 1)
                    e = ["i32.const %d" % z, "memory.copy"]
                return c + v[0] + e, x + v[1] + e
            c, w = self.with_regs(f)
            return "(void)%s;" % self.form(c), w
        return "if ((int)asm(i32.const 0)) (void)asm(unreachable);", []

    def block(self, d):
        r = self.r
        old = dict(self.scope)
        c, w, new = [], [], []
        if r.random() < .5 and len(old) > 1:   # shadow a name, with another type
            for _ in range(r.randint(1, 2)):
                v = r.choice([x for x in old.values()])
                t = r.choice("ilfd")
                ct = r.choice(CT[t])
                if v[0] in new:
                    continue
                new.append(v[0])
                sv = self.scope.pop(v[0])     # its own initializer must not name it
                e, b = self.cexpr(t, ct, d)
                self.scope[v[0]] = sv
                n = self.uid("s")
                self.pend = (v[0], t, n, ct)
                self.locals.append((n, t))
                c.append("%s %s = %s;" % (ct, v[0], e))
                w += b + ["local.set $" + n]
                self.scope[v[0]] = self.pend
            self.note("shadow")
        for _ in range(r.randint(1, 3)):
            a = self.stmt(d)
            c.append(a[0])
            w += a[1]
        self.scope = old
        return "{ %s }" % "\n    ".join(c), w

    def function(self, name):
        r = self.r
        ps = [r.choice("iilfd") for _ in range(r.randint(1, 5))]
        self.locals, self.cvars, self.scope, self.regs, self.eff = [], [], {}, [], True
        self.ptr = "mp" if r.random() < .7 else None
        params = []
        for i, t in enumerate(ps):
            ct = r.choice(CT[t])
            params.append((t, ct))
            self.scope["p%d" % i] = ("p%d" % i, t, "p%d" % i, ct)
        body, w = [], []
        for i in range(r.randint(1, 4)):
            t = r.choice("ilfd")
            ct = r.choice(CT[t])
            n = "x%d" % i
            if r.random() < .5:
                e, b = self.cexpr(t, ct, 2)
                body.append("%s %s = %s;" % (ct, n, e))
            else:
                body.append("%s %s = (%s)0;" % (ct, n, ct))
                b = ["%s.const 0" % WT[t]]
            self.locals.append((n, t))
            self.scope[n] = (n, t, n, ct)
            w += b + ["local.set $" + n]
        top = dict(self.scope)
        st = []
        for _ in range(r.randint(2, 5)):
            a = self.stmt(r.randint(2, 4))
            st.append(a[0])
            w += a[1]
        t = r.choice("ilfd")
        ct = r.choice(CT[t])
        e, b = self.cexpr(t, ct, 3)
        obs = list(top.values())
        show = " ".join({"i": "ou_((unsigned long long)(unsigned)%s);", "l": "ou_((unsigned long long)%s);", "f": "of_(%s);", "d": "od_(%s);"}[v[1]] % v[0] for v in obs)
        # the result is computed first, then the variables are shown
        c = "static %s %s(%s%s) {\n  %s\n  %s\n  %s res_;\n  %s\n  res_ = %s; %s\n  return res_;\n}" % (
            ct, name, ", ".join("%s p%d" % (x[1], i) for i, x in enumerate(params)), ", unsigned char *mp" if self.ptr else "", " ".join(self.cvars), "\n  ".join(body), ct, "\n  ".join(st), e, show)
        decl = " ".join("(param $p%d %s)" % (i, WT[x[0]]) for i, x in enumerate(params)) + (" (param $mp i32)" if self.ptr else "")
        kinds = [t] + [v[1] for v in obs]
        wat = "(func $%s (export \"%s\") %s (result %s)\n %s\n %s\n %s)" % (
            name, name, decl, " ".join(WT[k] for k in kinds), " ".join("(local $%s %s)" % (n, WT[u]) for n, u in self.locals), "\n ".join(w + b), " ".join("local.get $" + v[2] for v in obs))
        return c, wat, params, kinds


def gen_asm(rng, cnt, head, mod="t"):
    g = Gen(rng, cnt)
    g.mod = mod
    iv = [intval(rng, 32), intval(rng, 64), 0.75, 1.5]
    mem = [rng.randrange(256) for _ in range(NMEM)]
    glob = "static int g0 = %d; static long long g1 = %s; static double g2 = %r; static float g3 = %rf;\nstatic unsigned char mem[%d] = { %s };" % (
        iv[0] if iv[0] > -2 ** 31 else 0, "%dLL" % iv[1] if iv[1] > -2 ** 63 else "0LL", iv[2], iv[3], NMEM, ", ".join(map(str, mem)))
    if iv[0] == -2 ** 31:
        iv[0] = 0
    if iv[1] == -2 ** 63:
        iv[1] = 0
    C, W_, M, calls, kinds = [], [], [], [], {}
    sig = {}
    for k in range(rng.randint(3, 7)):
        n = "f%d" % k
        c, w, ps, ks = g.function(n)
        C.append(c)
        W_.append(w)
        sig[n] = ps, g.ptr is not None
        kinds[n] = ks
    for n in sorted(sig):
        for _ in range(3):
            calls.append((n, [intval(rng, 32) if t == "i" else intval(rng, 64) if t == "l" else fltval(rng, t) for t, _ in sig[n][0]]))
    rng.shuffle(calls)
    for n, a in calls:
        ts = [t for t, _ in sig[n][0]]
        x = []
        for (t, ct), v in zip(sig[n][0], a):
            x.append("(%s)%s" % (ct, g.ilit(v, t) if t in "il" else g.flit(v, t)))
        if sig[n][1]:
            x.append("&mem[0]")
        e = "%s(%s)" % (n, ", ".join(x))
        t = kinds[n][0]
        M.append({"i": "ou_((unsigned long long)(unsigned)%s);", "l": "ou_((unsigned long long)%s);", "f": "of_(%s);", "d": "od_(%s);"}[t] % e + " nl_();")
    of = "static void of_(float f) { union { unsigned u; float f; } x; x.f = f; if (f != f) { oc_(110); oc_(32); } else ou_((unsigned long long)x.u); return; }"
    text = "\n".join([head, of, glob] + [h[3] for h in HELP] + g.macros + C + [
        "int main(void) { %s\n  ob_(&mem[0], %d); oi_(g0); ou_((unsigned long long)g1); od_(g2); of_(g3); nl_(); flush_(); return 0; }" % ("\n  ".join(M), NMEM)]) + "\n"
    wat = "(module (memory (export \"m\") 1) (data (i32.const %d) \"%s\")\n" % (BASE, "".join("\\%02x" % b for b in mem))
    wat += "(global $g0 (export \"g0\") (mut i32) (i32.const %d)) (global $g1 (export \"g1\") (mut i64) (i64.const %d)) (global $g2 (export \"g2\") (mut f64) (f64.const %r)) (global $g3 (export \"g3\") (mut f32) (f32.const %r))\n" % tuple(iv)
    for n, ins, out, _, b in HELP:
        wat += "(func $%s %s (result %s) %s)\n" % (n, " ".join("(param %s)" % WT[t] for t in ins), WT[out], b)
    return text, wat + "\n".join(W_) + ")\n", calls, kinds, {n: s[1] for n, s in sig.items()}
