"""Program generators, one per family of language behaviour."""
from .cgen import *


def cvt_ok(dst, src):
    return assignable(dst, src)


def gen_expr_program(rng, floats=False, nfun=10, depth=4, stats=None):
    """Functions whose value is a random expression over parameters, globals, array elements,
    struct fields and pointees of every arithmetic type; called with boundary arguments."""
    T = INTS + ([F, D] if floats else [])
    out = [PRELUDE]
    stats = stats if stats is not None else {}
    gl = []
    out.append("struct rec { %s };" % " ".join("%s m%d;" % (TN[t], t) for t in rng.sample(ARITH, len(ARITH))))
    out.append("static struct rec gs; static struct rec ga[4];")
    for t in T:
        out.append("static %s g%d = %s; static %s h%d[8];" % (TN[t], t, lit(rng, t), TN[t], t))
        gl.append(X("g%d" % t, t))
        gl.append(X("h%d[%d]" % (t, rng.randint(0, 7)), t))
        gl.append(X("gs.m%d" % t, t))
        gl.append(X("ga[%d].m%d" % (rng.randint(0, 3), t), t))
    main = []
    for t in T:
        main.append("  for (i = 0; i < 8; ++i) h%d[i] = (%s)(i * 7 - 20);" % (t, TN[t]))
        main.append("  gs.m%d = %s;" % (t, lit(rng, t)))
        for k in range(4):
            main.append("  ga[%d].m%d = %s;" % (k, t, lit(rng, t)))
    eid = 0
    for n in range(nfun):
        ps = [rng.choice(T) for _ in range(rng.randint(1, 4))]
        atoms = [X("p%d" % i, t) for i, t in enumerate(ps)] * 3 + rng.sample(gl, 6)
        # array indexed by a parameter, and a pointer to a struct
        i = rng.randrange(len(ps))
        if ps[i] in INTS:
            t = rng.choice(T)
            atoms.append(X("h%d[(int)(p%d & 7)]" % (t, i), t))
        t = rng.choice(T)
        atoms.append(X("q->m%d" % t, t))
        atoms.append(X("(*z)", rng.choice(T)))
        zt = atoms[-1].t
        eg = ExprGen(rng, atoms, floats=floats, stats=stats)
        body = []
        rt = rng.choice(T)
        e = eg.expr(depth)
        while e.t in (F, D) and not floats:
            e = eg.expr(depth)
        # return conversion: implicit where the dialect allows it
        if e.t in (F, D) and rt not in (F, D):
            rt = e.t
        if passable(rt, e.t) and rng.random() < 0.6:
            ret = e.s
            stats["ret-implicit"] = stats.get("ret-implicit", 0) + 1
        else:
            ret = "(%s)%s" % (TN[rt], e.s)
        out.append("static %s f%d(%s, struct rec *q, %s *z) { return %s; }" %
                   (TN[rt], n, ", ".join("%s p%d" % (TN[t], i) for i, t in enumerate(ps)), TN[zt], ret))
        for c in range(6):
            args = ", ".join(lit(rng, t) for t in ps)
            main.append("  " + emit_stmt(str(eid), X("f%d(%s, &ga[%d], &h%d[%d])" % (n, args, rng.randint(0, 3), zt, rng.randint(0, 7)), rt)))
            main.append("  ub_reset_();")
            eid += 1
    out.append("int main(void) { int i; ub_reset_();\n" + "\n".join(main) + "\n  put_(); return 0; }")
    return "\n".join(out) + "\n", stats


def gen_assign_program(rng, floats=False, stats=None, ncase=24):
    """Compound assignments, ++/--, chained assignments through every kind of lvalue, with the
    value of the assignment expression observed as well as the object afterwards."""
    stats = stats if stats is not None else {}
    T = INTS + ([F, D] if floats else [])
    asn = lambda dst, src: assignable(dst, src, kind not in ('loc', 'par', 'glob'))
    out = [PRELUDE]
    out.append("struct rec { %s };" % " ".join("%s m%d;" % (TN[t], t) for t in rng.sample(ARITH, len(ARITH))))
    out.append("static struct rec gs; static struct rec ga[4];")
    for t in ARITH:
        out.append("static %s g%d; static %s h%d[8];" % (TN[t], t, TN[t], t))
    main = []
    for n in range(ncase):
        t = rng.choice(T)
        st = rng.choice(T)
        kind = rng.choice(["loc", "glob", "arr", "fld", "ptr", "pfld", "par", "elemfld", "ptridx"])
        lv = {"loc": "v", "glob": "g%d" % t, "arr": "h%d[ix()]" % t, "fld": "gs.m%d" % t, "ptr": "*pp", "par": "pv",
              "pfld": "ps->m%d" % t, "elemfld": "ga[ix() & 3].m%d" % t, "ptridx": "pp[ix() - 2]"}[kind]
        rd = {"arr": "h%d[2]" % t, "elemfld": "ga[2].m%d" % t, "ptridx": "pp[0]"}.get(kind, lv)
        stats["lv-" + kind] = stats.get("lv-" + kind, 0) + 1
        body = ["%s v = %s; struct rec *ps = &ga[1]; %s *pp = &h%d[3]; %s o; int k;" % (TN[t], lit(rng, t), TN[t], t, TN[t])]
        body.append("nix = 0; %s = %s;" % (rd, lit(rng, t)))
        op = rng.choice(["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "++", "--", "p++", "p--"])
        if t in (F, D) and op in ("%=", "<<=", ">>=", "&=", "|=", "^="):
            op = "+="
        if op in ("++", "--", "p++", "p--"):
            if t == BOOL:
                t2 = "++"
                op = rng.choice(["=", "|="])
        stats["asg" + op] = stats.get("asg" + op, 0) + 1
        if op in ("++", "--"):
            e = "%s%s" % (op, lv if kind != "ptr" else "*pp")
        elif op in ("p++", "p--"):
            e = "%s%s" % ("(%s)" % lv, op[1:])
        else:
            # right side: a parameter of type st
            okset = [s for s in T if asn(t, s) and (op == '=' or asn(t, common(t, s)))]
            if op in ("<<=", ">>=", "&=", "|=", "^=", "%="):
                okset = [s for s in okset if s in INTS]
            st = rng.choice(okset)
            rhs = "b"
            if op in ("<<=", ">>="):
                rhs = "(b & %d)" % (BITS[promote(t)] - 1)
                if not asn(t, common(st, SI)):
                    rhs = "(%s)%s" % (TN[t], rhs)
            elif op in ("/=", "%="):
                if st in INTS:
                    rhs = "((b & 62) | 1)"
                    if not asn(t, common(st, SI)):
                        rhs = "(%s)%s" % (TN[t], rhs)
                else:
                    rhs = "b"
            e = "%s %s %s" % (lv, op, rhs)
        if st in (F, D) and t in INTS and t != BOOL and op != "=":
            body.append("%s = 7;" % rd)      # keep the floating result representable
        body.append("o = (%s)(%s);" % (TN[t], e))
        body.append(emit_stmt(str(n), X("o", t)))
        body.append(emit_stmt(str(n), X(rd, t)))
        body.append("emit(%d, (unsigned long long)nix);" % n)
        if rng.random() < 0.4:
            # chain: widening assignment chain
            t2 = rng.choice([x for x in T if assignable(x, t)])
            body.append("%s = %s; g%d = %s = %s;" % ("v", lit(rng, t, rng.choice([0.0, 1.5, 100.25, 3.0]) if t in (F, D) and t2 in INTS else None), t2, rd, "v"))
            body.append(emit_stmt(str(n), X("g%d" % t2, t2)))
        out.append("static int nix; static int ix%d_;" % n if n == 0 else "")
        if n == 0:
            out.append("static int ix(void) { nix = nix + 1; return 2; }")
        out.append("static void c%d(%s b, %s pv) { %s }" % (n, TN[st], TN[t], "\n  ".join(body)))
        for c in range(3):
            bl = lit(rng, st)
            if st in (F, D) and t in INTS:
                bl = lit(rng, st, rng.choice([0.5, 1.0, 2.25, 1.999, 3.75]))
            main.append("  c%d(%s, %s); ub_reset_();" % (n, bl, lit(rng, t)))
    out.append("int main(void) { ub_reset_();\n" + "\n".join(main) + "\n  put_(); return 0; }")
    return "\n".join(out) + "\n", stats


class Flow:
    """Random structured code that leaves a trace of every step it takes."""
    def __init__(self, rng, stats, fid):
        self.r, self.st, self.fid = rng, stats, fid
        self.tid = 0
        self.nv = 5
        self.nl = 0
        self.fresh = 0
        self.vars = ["v%d" % i for i in range(self.nv)] + ["a", "b"]

    def note(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def id(self):
        self.tid += 1
        return self.fid * 1000 + self.tid

    def ex(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .3:
            return r.choice(self.vars) if r.random() < .75 else str(r.randint(0, 12))
        k = r.random()
        if k < .45:
            return "(%s %s %s)" % (self.ex(d - 1), r.choice(["+", "-", "^", "&", "|", "*"]), self.ex(d - 1))
        if k < .6:
            return "(%s %s %s)" % (self.ex(d - 1), r.choice(["<", "<=", "==", "!=", ">", ">="]), self.ex(d - 1))
        if k < .72:
            self.note("tr")
            return "tr(%d, %s)" % (self.id(), self.ex(d - 1))
        if k < .84:
            self.note("sc")
            return "(%s %s %s)" % (self.cond(d - 1), r.choice(["&&", "||"]), self.cond(d - 1))
        if k < .92:
            self.note("?:")
            return "(%s ? %s : %s)" % (self.cond(d - 1), self.ex(d - 1), self.ex(d - 1))
        if k < .96:
            self.note("asgval")
            v = r.choice(self.vars)
            return "((%s = (%s) & 127))" % (v, self.ex(d - 1)) if self.pure else "(%s & 31)" % v
        self.note("comma")
        return "(tr(%d, 1), %s)" % (self.id(), self.ex(d - 1))
    pure = False

    def cond(self, d=2):
        r = self.r
        k = r.random()
        if k < .4:
            return "(%s %s %s)" % (self.ex(d - 1), r.choice(["<", "<=", "==", "!=", ">", ">="]), self.ex(d - 1))
        if k < .6:
            return "!%s" % self.paren(self.ex(d - 1))
        if k < .8:
            return "(%s & %d)" % (self.ex(d - 1), r.choice([1, 2, 3, 4]))
        return "(%s %s %s)" % (self.ex(d - 1), r.choice(["&&", "||"]), self.ex(d - 1))

    def paren(self, s):
        return "(%s)" % s

    def block(self, d, ctx, n=None, ind="  ", lab=False):
        """ctx: dict(loop=bool, sw=bool, labels=[label names that may be targets])"""
        r = self.r
        n = n if n is not None else r.randint(1, 4)
        lbls = list(ctx["labels"])
        pre = post = ""
        decl = ""
        if lab and r.random() < .25 and d > 0:
            # a counter for backward jumps belongs to the enclosing level
            self.nl += 1
            l = "L%d" % self.nl
            if r.random() < .5:
                post = ind + l + ":;\n"
                lbls.append((l, None))
                self.note("lab-end")
            else:
                pre = ind + l + ":\n"
                lbls.append((l, "k%d" % self.nl))
                self.back.append("k%d" % self.nl)
                self.note("lab-start")
        c = dict(ctx, labels=lbls)
        body = "".join(self.stmt(d, c, ind) for _ in range(n))
        if not body:
            body = ind + ";\n"
        return pre + body + post

    def inner(self, d, ctx, ind):
        return "{\n" + self.block(d - 1, ctx, None, ind + "  ", True) + ind + "}"

    def stmt(self, d, ctx, ind):
        r = self.r
        k = r.random()
        self.budget -= 1
        if d <= 0 or k < .24 or self.budget < 0:
            v = r.choice(self.vars)
            self.note("asg")
            return ind + "%s = (%s) & 127; emit(%d, (unsigned long long)%s);\n" % (v, self.ex(2), self.id(), v)
        if k < .36:
            self.note("if")
            s = ind + "if (%s) %s" % (self.cond(), self.inner(d, ctx, ind))
            if r.random() < .3:
                self.note("elseif")
                s += " else if (%s) %s" % (self.cond(), self.inner(d, ctx, ind))
            if r.random() < .6:
                self.note("else")
                s += " else %s" % self.inner(d, ctx, ind)
            return s + "\n"
        if k < .41:
            self.note("if-nobrace")
            c = self.jump(ctx) or "emit(%d, 1ULL);" % self.id()
            s = ind + "if (%s) %s" % (self.cond(), c)
            if r.random() < .4:
                s += " else %s" % (self.jump(ctx) or "emit(%d, 2ULL);" % self.id())
            return s + "\n"
        if k < .67:
            lc = dict(ctx, loop=True, sw=False)
            self.fresh += 1
            c = "c%d" % self.fresh
            n = r.randint(1, 6)
            kind = r.choice(["for", "for", "fordecl", "while", "do", "forever", "fornone"])
            self.note(kind)
            if kind == "for":
                self.loc.append(c)
                up = r.random() < .6
                ini, tst, inc = ("%s = 0" % c, "%s < %d" % (c, n), r.choice(["++%s", "%s++", "%s += 1", "%s = %s + 1"]).replace("%s", c)) if up else \
                    ("%s = %d" % (c, n), "%s > 0" % c, r.choice(["--%s", "%s--", "%s -= 2"]).replace("%s", c))
                if r.random() < .4:
                    tst = "%s && %s" % (tst, self.cond())
                if r.random() < .3:
                    inc = "tr(%d, %s), %s" % (self.id(), c, inc)
                return ind + "for (%s; %s; %s) %s\n" % (ini, tst, inc, self.inner(d, lc, ind))
            if kind == "fordecl":
                return ind + "for (int %s = 0; %s < %d; ++%s) %s\n" % (c, c, n, c, self.inner(d, lc, ind))
            self.loc.append(c)
            if kind == "while":
                return ind + "%s = 0; while (%s++ < %d && %s) %s\n" % (c, c, n, self.cond(), self.inner(d, lc, ind))
            if kind == "do":
                return ind + "%s = 0; do %s while (++%s < %d && %s);\n" % (c, self.inner(d, lc, ind), c, n, self.cond())
            if kind == "forever":
                b = self.inner(d, lc, ind)
                return ind + "%s = 0; while (true) { if (++%s > %d) break;\n%s}\n" % (c, c, n, b)
            b = self.inner(d, lc, ind)
            return ind + "%s = 0; for (;;) { if (%s++ >= %d) break;\n%s}\n" % (c, c, n, b)
        if k < .84:
            return ind + self.switch(d, ctx, ind) + "\n"
        if k < .9:
            j = self.jump(ctx)
            if j:
                return ind + "if (%s) { emit(%d, 7ULL); %s }\n" % (self.cond(), self.id(), j)
        if k < .95:
            self.note("block")
            v = r.choice(self.vars)
            nv = "s%d" % r.randint(0, 2)
            b = self.block(d - 1, dict(ctx), None, ind + "  ")
            return ind + "{ int %s = %s & 15; emit(%d, (unsigned long long)%s);\n%s%s  %s = (%s + %s) & 127; }\n" % (nv, v, self.id(), nv, b, ind, v, v, nv)
        if k < .975:
            self.note("exprstmt")
            return ind + "(void)tr(%d, %s);\n" % (self.id(), self.ex(2)) if False else ind + "tr(%d, %s);\n" % (self.id(), self.ex(2))
        self.note("shadow")
        v = r.choice(self.vars[:self.nv])
        return ind + "{ int %s = %d; emit(%d, (unsigned long long)%s); %s = %s; emit(%d, (unsigned long long)%s); }\n" % (
            v, r.randint(0, 9), self.id(), v, v, "(a + 3) & 63", self.id(), v)

    def jump(self, ctx):
        r = self.r
        c = ["return (%s) & 255;" % self.ex(1)] if r.random() < .25 else []
        if ctx["loop"]:
            c += ["continue;", "break;"]
        elif ctx["sw"]:
            c += ["break;"]
        if ctx["labels"] and r.random() < .8:
            l, k = r.choice(ctx["labels"])
            if k is None:
                c += ["goto %s;" % l]
            else:
                c += ["if (%s++ < 2) goto %s;" % (k, l)]
        if not c:
            return None
        j = r.choice(c)
        self.note(j.split()[0].rstrip(";") if not j.startswith("if") else "goto-back")
        return j

    def switch(self, d, ctx, ind):
        r = self.r
        self.note("switch")
        kind = r.choice(["dense", "dense", "sparse", "huge", "neg", "one", "mixed"])
        self.note("sw-" + kind)
        if kind == "dense":
            b = r.choice([0, 0, 1, 3, 10])
            vals = [b + i for i in range(r.randint(2, 9))]
        elif kind == "sparse":
            vals = r.sample(range(0, 128, 7), r.randint(2, 6))
        elif kind == "huge":
            vals = r.sample([0, 1, 5, 2147483647, -2147483647, 1000000, -1000000, 65536, 127, 3], r.randint(2, 6))
        elif kind == "neg":
            vals = list(range(-4, r.randint(-1, 5)))
        elif kind == "one":
            vals = [r.randint(0, 5)]
        else:
            vals = list(range(0, 4)) + r.sample(range(20, 100), 3)
        r.shuffle(vals) if r.random() < .5 else None
        sel = {"dense": "(%s & 15)", "sparse": "((%s & 127) / 7 * 7)", "huge": "pick(%s)", "neg": "((%s & 15) - 6)", "one": "(%s & 7)",
               "mixed": "(%s & 127)"}[kind] % self.ex(1)
        if r.random() < .2:
            sel = "(%s)%s" % (r.choice(["char", "unsigned char", "short", "signed char"]), sel) if kind != "huge" else sel
        items = [("case %s:" % self.cval(v)) for v in vals]
        if r.random() < .75:
            items.insert(r.choice([0, len(items), len(items), r.randint(0, len(items))]), "default:")
            self.note("sw-default")
        out = "switch (%s) {\n" % sel
        sc = dict(ctx, sw=True)
        # break in a switch nested in a loop leaves the switch; continue still refers to the loop
        for it in items:
            out += ind + "  " + it
            k = r.random()
            if k < .25:
                self.note("sw-shared")
                out += "\n"
                continue
            sc2 = dict(sc, loop=False)
            body = self.block(d - 1 if d < 3 else 1, dict(sc2, loop=False, labels=[]), r.randint(1, 2), ind + "    ")
            out += " {\n" + body + ind + "  }"
            k = r.random()
            if k < .55:
                out += " break;"
            elif k < .65 and ctx["loop"]:
                out += " continue;"
                self.note("sw-continue")
            elif k < .72:
                out += " return %s & 255;" % self.ex(1)
            else:
                self.note("sw-fall")
            out += "\n"
        # the last group needs at least one statement
        out += ind + "  ;\n" if out.rstrip().endswith(":") else ""
        return out + ind + "}"

    def cval(self, v):
        r = self.r
        if v >= 32 and v < 127 and r.random() < .5 and chr(v) not in "'\\":
            return "'%s'" % chr(v)
        if r.random() < .15:
            return "(%d + %d)" % (v - 1, 1) if v > -2147483647 else str(v)
        if 0 <= v < 100 and r.random() < .1:
            return "K%d" % v if v in (0, 1, 2, 3, 4, 5) else str(v)
        return str(v)

    def func(self, name, d):
        self.loc, self.back, self.budget = [], [], 40
        body = self.block(d, {"loop": False, "sw": False, "labels": []}, self.r.randint(3, 6))
        s = "static int %s(int a, int b) {\n" % name
        s += "  int %s;\n" % ", ".join("v%d = %d" % (i, i * 3) for i in range(self.nv))
        for c in self.loc + self.back:
            s += "  int %s = 0;\n" % c
        s += body
        s += "  emit(%d, (unsigned long long)(%s));\n" % (self.id(), " + ".join("v%d * %d" % (i, 3 ** i) for i in range(self.nv)))
        s += "  return (a + b + v0) & 255;\n}\n"
        return s


def gen_flow_program(rng, stats=None, nfun=4, depth=4):
    stats = stats if stats is not None else {}
    out = [PRELUDE]
    out.append("enum { K0, K1, K2, K3, K4, K5 };")
    out.append("static int tr(int id, int v) { emit(id, (unsigned long long)v); return v; }")
    out.append("static int pick(int x) { switch (x & 15) { case 0: return 0; case 1: return 1; case 2: return 5; case 3: return 2147483647; "
               "case 4: return -2147483647; case 5: return 1000000; case 6: return -1000000; case 7: return 65536; case 8: return 127; "
               "case 9: return 3; case 10: return (-2147483647-1); default: return x; } return 0; }")
    main = []
    for n in range(nfun):
        f = Flow(rng, stats, n + 1)
        out.append(f.func("f%d" % n, depth))
        for c in range(4):
            main.append("  ub_reset_(); emit(%d, (unsigned long long)f%d(%d, %d));" % (9000 + n, n, rng.randint(0, 127), rng.choice([0, 1, 5, 100, rng.randint(0, 127)])))
    out.append("int main(void) {\n" + "\n".join(main) + "\n  put_(); return 0; }")
    return "\n".join(out) + "\n", stats


# ------------------------------------------------------------------ data layout and aggregates

class DT:
    """A random data type: k in s(calar) a(rray) r(ecord: struct/union) p(ointer to scalar/record)"""
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def decl(self, name):
        if self.k == "s":
            return "%s %s" % (TN[self.t], name)
        if self.k == "e":
            return "enum col %s" % name
        if self.k == "a":
            return self.e.decl("%s[%d]" % (name, self.n))
        if self.k == "r":
            return "%s %s" % (self.spec, name)
        return self.e.decl("(*%s)" % name if self.e.k == "a" else "*" + name)


class Data:
    def __init__(self, rng, stats):
        self.r, self.st = rng, stats
        self.recs = []
        self.out = []
        self.nn = 0

    def note(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def fresh(self, p):
        self.nn += 1
        return "%s%d" % (p, self.nn)

    def type(self, d, arr=True):
        r = self.r
        k = r.random()
        if d > 0 and arr and k < .25:
            return DT("a", e=self.type(d - 1, r.random() < .4), n=r.choice([1, 2, 3, 3, 4, 5]))
        if d > 0 and k < .5 and self.recs:
            return r.choice(self.recs)
        if k < .56:
            return DT("e")
        return DT("s", t=r.choice(ARITH))

    def rec(self):
        r = self.r
        un = r.random() < .22
        name = self.fresh("R")
        fields = []
        for i in range(r.randint(1, 6)):
            fields.append(("f%d" % i, self.type(2)))
        kw = "union" if un else "struct"
        td = r.random() < .3
        body = "%s %s { %s }" % (kw, name, " ".join(t.decl(f) + ";" for f, t in fields))
        if td:
            self.out.append("typedef %s T%s;" % (body, name))
        else:
            self.out.append(body + ";")
        t = DT("r", spec=("T" + name) if td else kw + " " + name, un=un, fields=fields, name=name)
        self.recs.append(t)
        self.note(kw)
        return t

    def leaves(self, t, path, un=None):
        """(path, scalar) for each leaf; in a union only its first member (or the one un picks)"""
        if t.k == "s":
            return [(path, t.t)]
        if t.k == "e":
            return [(path, "e")]
        if t.k == "a":
            return [x for i in range(t.n) for x in self.leaves(t.e, "%s[%d]" % (path, i), un)]
        if t.k == "r":
            fs = t.fields[:1] if t.un else t.fields
            return [x for f, ft in fs for x in self.leaves(ft, path + "." + f, un)]
        return []

    def size_leaves(self, t):
        return len(self.leaves(t, "x"))

    def clit(self, t):
        """a constant initializer for t that keeps its value"""
        r = self.r
        if t == "e":
            return r.choice(["RED", "GREEN", "BLUE", "NEGV"])
        if t in (F, D):
            return lit(r, t)
        v = rand_int(r, t)
        if t in (SI, SL) and v == -2147483648 or t == SLL and v == -2 ** 63:
            v += 1
        if t in (BOOL,):
            return str(v)
        if t in (UI, UL):
            return "%du" % v
        if t == ULL:
            return "%dULL" % v
        if t == SLL:
            return "%dLL" % v
        if t == CHAR and 32 <= v < 127 and chr(v) not in "'\\":
            return "'%s'" % chr(v)
        return str(v)

    def init(self, t, full=False):
        r = self.r
        if t.k in "se":
            return self.clit(t.t if t.k == "s" else "e")
        if t.k == "a":
            if t.e.k == "s" and t.e.t == CHAR and r.random() < .6:
                self.note("init-str")
                n = r.randint(0, t.n)
                s = "".join(r.choice(["a", "Z", "0", " ", "\\n", "\\000", "\\177", "\\377", "\\\"", "\\\\", "?"]) for _ in range(n))
                return '"%s"' % s
            n = t.n if full or r.random() < .7 else r.randint(1, t.n)
            if n < t.n:
                self.note("init-partial")
            return "{ %s }" % ", ".join(self.init(t.e, full) for _ in range(n))
        fs = t.fields[:1] if t.un else t.fields
        return "{ %s }" % ", ".join(self.init(ft, full) for f, ft in fs)

    def emit(self, eid, path, t):
        if t == "e":
            return "emit(%d, (unsigned long long)%s);" % (eid, path)
        return emit_stmt(str(eid), X(path, t))

    def setv(self, path, t):
        r = self.r
        if t == "e":
            return "%s = %s;" % (path, r.choice(["RED", "BLUE", "GREEN"]))
        return "%s = (%s)%s;" % (path, TN[t], lit(r, t))

    def dyn(self, path):
        """replace constant subscripts by computed ones"""
        return re.sub(r"\[(\d)\]", lambda m: "[ix + %s]" % m.group(1) if self.r.random() < .4 else m.group(0), path)


def gen_data_program(rng, stats=None):
    stats = stats if stats is not None else {}
    d = Data(rng, stats)
    r = rng
    d.out.append(PRELUDE)
    d.out.append("enum col { RED, GREEN = 5, BLUE, NEGV = -7 };")
    d.out.append("static void dump(int id, unsigned char *p, int n) { int i; unsigned long long h = 0ULL; for (i = 0; i < n; ++i) { "
                 "h = (h << 8) | (unsigned long long)p[i]; if ((i & 7) == 7) { emit(id, h); h = 0ULL; } } emit(id, h); }")
    for _ in range(r.randint(3, 6)):
        d.rec()
        while d.size_leaves(d.recs[-1]) > 60:
            d.recs.pop()
            d.rec()
    main = []
    eid = 0
    # layout
    for t in d.recs:
        eid += 1
        main.append("  emit(%d, (unsigned long long)sizeof(%s)); emit(%d, (unsigned long long)alignof(%s));" % (eid, t.spec, eid, t.spec))
        for f, ft in t.fields:
            main.append("  emit(%d, (unsigned long long)offsetof(%s, %s));" % (eid, t.spec, f))
        stats["layout"] = stats.get("layout", 0) + 1 + len(t.fields)
    # globals
    gl = []
    for i in range(r.randint(3, 6)):
        t = r.choice(d.recs) if r.random() < .6 else DT("a", e=d.type(2, r.random() < .5), n=r.randint(1, 5))
        if d.size_leaves(t) > 120:
            continue
        n = d.fresh("g")
        ini = r.random() < .75
        d.out.append("%s%s%s;" % (r.choice(["static ", ""]), t.decl(n), " = " + d.init(t) if ini else ""))
        gl.append((n, t))
        eid += 1
        for p, s in d.leaves(t, n):
            main.append("  " + d.emit(eid, p, s))
        main.append("  dump(%d, (unsigned char *)&%s, (int)sizeof(%s));" % (eid, n, n))
        stats["global"] = stats.get("global", 0) + 1
    # pointer tables into globals
    arrs = [(n, t) for n, t in gl if t.k == "a" and t.e.k == "s"]
    sg = []
    for n, t in gl:
        if t.k == "r":
            pn = d.fresh("gp")
            d.out.append("static %s *%s = &%s;" % (t.spec, pn, n))
            sg.append((pn, n, t))
            stats["ptr-init"] = stats.get("ptr-init", 0) + 1
    # data holding addresses of data, used in any order
    hk = []
    tgt = [("&" + n, t.spec + " *", n, t) for n, t in gl if t.k == "r"] + [("&%s[0]" % n, TN[t.e.t] + " *", n, t) for n, t in arrs]
    for a, pt, n, t in tgt:
        if r.random() < .5:
            continue
        h = d.fresh("H")
        un = r.random() < .2
        d.out.append("struct %s { char c; %sp; struct %s *next; %s s; short z; };" % (h, pt, h, "union { const char *a; int b; }" if un else "const char *"))
        vs = []
        for _ in range(r.randint(1, 4)):
            v, arr = d.fresh("h"), r.random() < .4
            nx = [("&" + v) if not arr else "&%s[0]" % v] + vs + ["NULL"]

            def one():
                q = r.choice(['"%s"' % v, '"%s"' % v, '"same"', "NULL"])
                return "{ %d, %s, %s, %s, %d }" % (r.randint(0, 99), r.choice([a, a, "NULL"]), r.choice(nx), "{ %s }" % q if un else q, r.randint(-99, 99))
            d.out.append("%sstruct %s %s%s = %s;" % (r.choice(["static ", ""]), h, v, "[2]" if arr else "", "{ %s, %s }" % (one(), one()) if arr else one()))
            vs.append(nx[0])
        sa = "p->s.a" if un else "p->s"
        d.out.append("static void walk%s(struct %s *p, int id) { int k; for (k = 0; k < 5 && p != NULL; ++k) { emit(id, (unsigned long long)p->c); emit(id, (unsigned long long)p->z); "
                     "emit(id, (unsigned long long)(p->p == %s)); emit(id, (unsigned long long)(p->p == NULL)); if (%s != NULL) emit(id, (unsigned long long)(int)(*%s)); p = p->next; } }" % (h, h, a, sa, sa))
        hk += [(h, v) for v in vs]
        stats["addr-in-data"] = stats.get("addr-in-data", 0) + len(vs)
    r.shuffle(hk)
    hkcalls = []
    for h, v in hk:
        eid += 1
        hkcalls.append("  walk%s(%s, %d);" % (h, v, eid))
    cut = r.randint(0, len(hkcalls))
    main[0:0] = hkcalls[:cut]
    main += hkcalls[cut:]
    d.out.append('static char *names[] = { "alpha", "be" "ta", "", "g\\tm\\x41" "\\101", NULL };')
    main.append("  { int i, j; for (i = 0; names[i] != NULL; ++i) for (j = 0; ; ++j) { emit(%d, (unsigned long long)names[i][j]); if (names[i][j] == 0) break; } "
                "emit(%d, (unsigned long long)sizeof(names)); }" % (eid + 1, eid + 1))
    eid += 2
    fdefs = []
    # record-valued functions and record copying
    for t in d.recs:
        if d.size_leaves(t) > 40:
            continue
        ls = d.leaves(t, "x")
        fn = d.fresh("mk")
        fdefs.append("static %s %s(int ix) { %s; %s return x; }" % (
            t.spec, fn, t.decl("x") + (" = " + d.init(t) if not t.un or True else ""),
            " ".join(d.setv(d.dyn(p), s) for p, s in r.sample(ls, min(3, len(ls))))))
        b = d.fresh("tst")
        eid += 1
        body = ["int ix = 0; %s; %s; %s; %s;" % (t.decl("a") + " = " + d.init(t), t.decl("b"), t.decl("v[3]"), DT("p", e=t).decl("p"))]
        p0, s0 = r.choice(ls)
        body.append("a = %s(ix); b = a; %s" % (fn, d.setv(p0.replace("x", "a", 1), s0)))
        emitl = lambda base: [d.emit(eid, base + p[1:], s) for p, s in ls]
        body += emitl("a") + emitl("b")
        body.append("v[0] = b; v[ix + 1] = a; v[2] = v[ix]; p = &v[1]; *p = v[2]; %s" % d.setv("p->" + p0[2:] if p0.startswith("x.") else p0, s0))
        body += emitl("v[1]") + emitl("v[2]")
        body.append("p = &v[0]; p[2] = a; ++p; p++; emit(%d, (unsigned long long)(p - &v[0])); b = *p;" % eid)
        body += emitl("b")
        body.append("p = p - 2; *p = %s(ix); b = *p;" % fn)
        body += emitl("(*p)") + emitl("p[0]")
        # field addresses
        fs = [f for f in t.fields if f[1].k == "s"]
        if fs:
            f, ft = r.choice(fs)
            body.append("{ %s *fp; fp = &p->%s; %s emit(%d, (unsigned long long)((char *)fp - (char *)p)); %s }" % (
                TN[ft.t], f, d.setv("*fp", ft.t), eid, d.emit(eid, "v[0]." + f, ft.t)))
            stats["fieldaddr"] = stats.get("fieldaddr", 0) + 1
        gs = [n for n, gt in gl if gt is t]
        if gs:
            body.append("%s = v[0]; a = %s;" % (gs[0], gs[0]))
            body += emitl("a")
        fdefs.append("static void %s(void) { %s }" % (b, "\n  ".join(body)))
        main.append("  %s();" % b)
        stats["reccopy"] = stats.get("reccopy", 0) + 1
    # arrays and pointer arithmetic
    for k in range(4):
        t = r.choice(ARITH)
        n1, n2 = r.randint(2, 5), r.randint(2, 6)
        eid += 1
        tn = TN[t]
        b = d.fresh("arr")
        g = d.fresh("m")
        d.out.append("static %s %s[%d][%d];" % (tn, g, n1, n2))
        loc = r.random() < .5
        m = "lm" if loc else g
        body = ["int i, j, ix = 1; %s *p; %s *q; %s w[%d]; %s" % (tn, tn, tn, n1 * n2, "%s lm[%d][%d];" % (tn, n1, n2) if loc else "")]
        body.append("for (i = 0; i < %d; ++i) for (j = 0; j < %d; ++j) { %s[i][j] = (%s)(i * %d + j * 3 - 4); w[i * %d + j] = %s[i][j]; }" % (
            n1, n2, m, tn, r.randint(1, 40), n2, m))
        body.append("for (i = 0; i < %d; ++i) { p = &%s[i][0]; q = p + %d; while (p < q) { %s ++p; } emit(%d, (unsigned long long)(q - &%s[0][0])); }" % (
            n1, m, n2, d.emit(eid, "*p", t), eid, m))
        body.append("p = &w[0]; q = &w[%d];" % (n1 * n2 - 1))
        for _ in range(8):
            op = r.randint(0, 9)
            idx = r.randint(0, n1 * n2 - 1)
            T_idx = r.choice(["(char)", "(unsigned char)", "(short)", "(unsigned)", "(long)", "", ""])
            c = [lambda: "p = &w[%s%d];" % (T_idx, idx),
                 lambda: d.emit(eid, "*(&w[0] + %s%d)" % (T_idx, idx), t),
                 lambda: "emit(%d, (unsigned long long)(p - q)); emit(%d, (unsigned long long)(p < q)); emit(%d, (unsigned long long)(p == q));" % (eid, eid, eid),
                 lambda: "p = &w[0]; p += ix; *p++ = (%s)%d; p[-1] = (%s)(p[-1] + p[0]);" % (tn, idx, tn),
                 lambda: "q = &w[%d]; q -= 1; %s --q; q--; q = q + 2;" % (n1 * n2 - 1, d.emit(eid, "*q", t)) if n1 * n2 > 3 else ";",
                 lambda: "{ %s x; x = *p; *p = *q; *q = x; }" % tn,
                 lambda: "{ %s *(*pp); %s *pv[2]; pv[0] = p; pv[1] = q; pp = &pv[0]; %s *pp[1] = **pp; }" % (tn, tn, d.emit(eid, "**(pp + 1)", t)),
                 lambda: "{ unsigned char *c; c = (unsigned char *)p; for (i = 0; i < (int)sizeof(%s); ++i) emit(%d, (unsigned long long)c[i]); }" % (tn, eid),
                 lambda: "{ void *v; v = (void *)q; p = (%s *)v; emit(%d, (unsigned long long)(p == q)); }" % (tn, eid),
                 lambda: "emit(%d, (unsigned long long)(((unsigned long)q - (unsigned long)&w[0]) / (unsigned long)sizeof(%s)));" % (eid, tn)][op]
            stats["ptrop%d" % op] = stats.get("ptrop%d" % op, 0) + 1
            body.append(c())
            if op == 3:
                body.append("p = &w[%d];" % r.randint(0, n1 * n2 - 1))
        body.append("for (i = 0; i < %d; ++i) { %s }" % (n1 * n2, d.emit(eid, "w[i]", t)))
        fdefs.append("static void %s(void) { %s }" % (b, "\n  ".join(body)))
        main.append("  %s();" % b)
    # linked structure
    eid += 1
    d.out.append("struct node { %s val; struct node *next; struct { short h; struct node *up; } aux; };" % TN[SI])
    fdefs.append("""static void linked(void) { struct node n[6]; struct node *p; int i;
  for (i = 0; i < 6; ++i) { n[i].val = i * i; n[i].aux.h = (short)(i - 3); if (i < 5) n[i].next = &n[(i * 5 + 1) %% 6]; else n[i].next = NULL; n[i].aux.up = &n[5 - i]; }
  for (p = &n[0], i = 0; p != NULL && i < 12; p = p->next, ++i) { emit(%d, (unsigned long long)p->val); emit(%d, (unsigned long long)p->aux.up->aux.h);
    p->aux.up->val += p->val; } }""" % (eid, eid))
    main.append("  linked();")
    return "\n".join(d.out + fdefs) + "\nint main(void) { ub_reset_();\n" + "\n".join(main) + "\n  put_(); return 0; }\n", stats
