"""C05: calls, parameters, returns, varargs, function pointers, recursion, alloca, stack discipline."""
from .cgen import *

VCODES = {"i": SI, "u": UI, "l": SL, "m": UL, "L": SLL, "M": ULL, "d": D}


class Fn:
    def __init__(self, name, rt, ps):
        self.name, self.rt, self.ps = name, rt, ps


class CallGen:
    def __init__(self, rng, stats):
        self.r, self.st = rng, stats
        self.out, self.fns, self.n = [], [], 0
        self.eid = 0

    def note(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def arg(self, t, atoms, fns, calls, d=2):
        """An argument expression acceptable for a parameter of type t. calls: [remaining]"""
        r = self.r
        c = [x for x in ARITH if passable(t, x) and not (t in INTS and x in (F, D))]
        src = r.choice(c) if r.random() < .7 else t
        cand = [a for a in atoms if a.t == src]
        fc = [f for f in fns if f.rt == src]
        k = r.random()
        if fc and calls[0] > 0 and d > 0 and k < .35:
            calls[0] -= 1
            self.note("nested-call")
            f = min(fc, key=lambda f: f.cost)
            self.spent += f.cost
            return self.call(f, atoms, fns, calls, d - 1)
        if cand and k < .8:
            return r.choice(cand).s
        if src == SI and k < .9:
            return "(%s - %s)" % (lit(r, SC), lit(r, SS))
        return lit(r, src)

    def call(self, f, atoms, fns, calls, d=2):
        return "%s(%s)" % (f.name, ", ".join(self.arg(t, atoms, fns, calls, d) for t in f.ps))

    def emit(self, x, t):
        return emit_stmt(str(self.eid), X(x, t))

    def conv(self, rt, atoms):
        """expression acceptable in `return` of a function returning rt, with a defined value"""
        r = self.r
        c = [a for a in atoms if passable(rt, a.t) and not (rt in INTS and a.t in (F, D))]
        k = r.random()
        if c and k < .5:
            return r.choice(c).s
        if rt in (BOOL, SC, UC, SS, US, CHAR, SI) and k < .75:
            c = [a for a in atoms if a.t in (BOOL, SC, UC, SS, US, CHAR)]
            if len(c) > 1:
                self.note("ret-narrow")
                return "%s %s %s" % (r.choice(c).s, r.choice(["+", "-", "*", "^"]), r.choice(c).s)
        return "(%s)%s" % (TN[rt], r.choice([a for a in atoms if a.t not in (F, D)] or [X(lit(r, SI), SI)]).s)

    def scalar_fn(self):
        r = self.r
        self.eid += 1
        np = r.choice([0, 1, 2, 3, 4, 6, 9, 13])
        ps = [r.choice(ARITH) for _ in range(np)]
        rt = r.choice(ARITH)
        rec = r.random() < .3
        name = self.fresh("f")
        atoms = [X("p%d" % i, t) for i, t in enumerate(ps)] + self.gl
        decl = ", ".join("%s p%d" % (TN[t], i) for i, t in enumerate(ps)) or ("void" if not rec else "")
        if rec:
            decl = "int n_" + (", " + decl if ps else "")
            self.note("recursive")
        sz = r.choice([0, 0, 1, 3, 8, 33, 100])
        body = []
        if sz:
            body.append("unsigned char la[%d]; int i; for (i = 0; i < %d; ++i) la[i] = (unsigned char)(i * %d + %s);" % (
                sz, sz, r.randint(1, 250), "n_" if rec else "3"))
        body += [self.emit("p%d" % i, t) for i, t in enumerate(ps)]
        if r.random() < .4 and ps:
            i = r.randrange(len(ps))
            if ps[i] in (F, D):
                body.append("p%d = p%d * 2;" % (i, i))
            elif ps[i] == BOOL:
                body.append("p%d = !p%d;" % (i, i))
            else:
                body.append("p%d = (%s)%s;" % (i, TN[ps[i]], lit(r, ps[i])))
            self.note("param-modified")
        if rec:
            sw = list(range(len(ps)))
            aa = []
            for i, t in enumerate(ps):
                c = [j for j in range(len(ps)) if ps[j] == t]
                aa.append("p%d" % r.choice(c))
            body.append("if (n_ > 0) { %s x_ = %s(n_ - 1%s); %s }" % (TN[rt], name, "".join(", " + a for a in aa), self.emit("x_", rt)))
        cost = 1
        if self.fns and r.random() < .5:
            before = self.spent
            body.append(self.emit(*self.callexpr(atoms, 12 if rec else 60)))
            cost += self.spent - before
        if sz:
            body.append("{ unsigned h = 7u; for (i = 0; i < %d; ++i) h = h * 31u + la[i]; emit(%d, (unsigned long long)h); }" % (sz, self.eid))
        if r.random() < .3:
            c = [a for a in atoms if a.t not in (F, D)]
            if c:
                body.append("{ int k; for (k = 0; k < 3; ++k) { %s if (%s != 0) { return %s; } } }" % (
                    "short t_[5]; t_[k] = (short)k; emit(%d, (unsigned long long)t_[k]);" % self.eid, r.choice(c).s, self.conv(rt, atoms)))
                self.note("early-return")
        body.append("return %s;" % self.conv(rt, atoms))
        self.out.append("static %s %s(%s) { %s }" % (TN[rt], name, decl, "\n  ".join(body)))
        f = Fn(name, rt, ps)
        f.cost = cost
        if rec:
            w = self.fresh("fr")
            self.out.append("static %s %s(%s) { return %s(%d%s); }" % (
                TN[rt], w, ", ".join("%s p%d" % (TN[t], i) for i, t in enumerate(ps)) or "void", name, (dep := r.choice([1, 3, 40])),
                "".join(", p%d" % i for i in range(len(ps)))))
            f = Fn(w, rt, ps)
            f.cost = cost * (dep + 1)
        self.fns.append(f)

    spent = 0

    def callexpr(self, atoms, maxcost=1000):
        f = self.r.choice([f for f in self.fns if f.cost <= maxcost] or self.fns[:1])
        self.spent += f.cost
        return self.call(f, atoms, self.fns, [1]), f.rt

    def struct_part(self):
        r = self.r
        self.eid += 1
        e = self.eid
        fl = [(("m%d" % i), r.choice(ARITH)) for i in range(r.randint(2, 6))]
        sn = self.fresh("S")
        arr = r.randint(1, 9)
        self.out.append("struct %s { %s %s arr[%d]; };" % (sn, " ".join("%s %s;" % (TN[t], n) for n, t in fl), TN[r.choice([SC, SS, SI, D])], arr))
        un = r.random() < .3
        self.out.append("struct o%s { char pad; struct %s in[2]; short tail; };" % (sn, sn))
        self.out.append("static struct %s g%s; static struct %s ga%s[3]; static struct o%s go%s;" % (sn, sn, sn, sn, sn, sn))
        mk, mk2, mkr, sw = (self.fresh(x) for x in ("mk", "mkk", "mkr", "msw"))
        ps = ", ".join("%s a%d" % (TN[t], i) for i, (n, t) in enumerate(fl))
        self.out.append("static struct %s %s(%s) { struct %s x; int i; %s for (i = 0; i < %d; ++i) x.arr[i] = (char)(i + 1); return x; }" % (
            sn, mk, ps, sn, " ".join("x.%s = a%d;" % (n, i) for i, (n, t) in enumerate(fl)), arr))
        self.out.append("static struct %s %s(%s) { %s return %s(%s); }" % (
            sn, mk2, ps, "emit(%d, 1ULL);" % e, mk, ", ".join("a%d" % i for i in range(len(fl)))))
        # returns a struct computed from the global that is about to be overwritten
        rot = {}
        for t in set(t for _, t in fl):
            ns = [n for n, tt in fl if tt == t]
            for a, b in zip(ns, ns[1:] + ns[:1]):
                rot[a] = b
        self.out.append("static struct %s %s(void) { struct %s x; x = g%s; %s return x; }" % (
            sn, sw, sn, sn, " ".join("x.%s = g%s.%s;" % (a, sn, b) for a, b in rot.items())))
        n0, t0 = fl[0]
        self.out.append("static struct %s %s(int n) { struct %s x; if (n <= 0) return %s(%s); x = %s(n - 1); x.arr[0] = (char)(x.arr[0] + 1); x.%s = %s; return x; }" % (
            sn, mkr, sn, mk, ", ".join(lit(r, t) for _, t in fl), mkr, n0, lit(r, t0)))
        show = self.fresh("show")
        self.out.append("static void %s(struct %s *p) { int i; %s for (i = 0; i < %d; ++i) %s }" % (
            show, sn, " ".join(emit_stmt(str(e), X("p->" + n, t)) for n, t in fl), arr, "emit(%d, (unsigned long long)(int)p->arr[i]);" % e))
        args = lambda: ", ".join(lit(r, t) for _, t in fl)
        body = ["struct %s a; struct %s b = %s(%s); struct %s v[4]; struct o%s o; struct %s *p; int i; int guard = 77;" % (sn, sn, r.choice([mk, mk2]), args(), sn, sn, sn)]
        body.append("%s(&b);" % show)
        fpt = self.fresh("fpt")
        self.out.append("typedef struct %s (*%s)(%s);" % (sn, fpt, ps))
        opts = [
            lambda: "a = %s(%s); %s(&a);" % (r.choice([mk, mk2]), args(), show),
            lambda: "i = %d; v[i] = %s(%s); %s(&v[%d]);" % (1, mk, args(), show, 1),
            lambda: "p = &v[2]; *p = %s(%d); v[3] = *p; %s(&v[3]);" % (mkr, r.randint(0, 6), show),
            lambda: "g%s = b; g%s = %s(); %s(&g%s);" % (sn, sn, sw, show, sn),
            lambda: "o.pad = 'x'; o.tail = 1234; o.in[1] = %s(%s); %s(&o.in[1]); emit(%d, (unsigned long long)o.pad); emit(%d, (unsigned long long)o.tail);" % (mk2, args(), show, e, e),
            lambda: "ga%s[1] = %s(2); ga%s[0] = ga%s[1]; %s(&ga%s[0]);" % (sn, mkr, sn, sn, show, sn),
            lambda: "for (i = 0; i < 3; ++i) { ga%s[i] = %s(i); go%s.in[i & 1] = ga%s[i]; } %s(&go%s.in[0]); %s(&go%s.in[1]);" % (sn, mkr, sn, sn, show, sn, show, sn),
            lambda: "{ %s fp; fp = &%s; a = (*fp)(%s); %s(&a); }" % (fpt, r.choice([mk, mk2]), args(), show),
            lambda: "%s(%s);" % (mk2, args()) if False else "b = a = %s(%s); %s(&b);" % (mk, args(), show),
        ]
        for _ in range(6):
            k = r.randrange(len(opts))
            if k == 8:
                k = 0
            self.note("struct%d" % k)
            body.append(opts[k]())
        body.append("emit(%d, (unsigned long long)guard);" % e)
        fn = self.fresh("sf")
        self.out.append("static void %s(void) { %s }" % (fn, "\n  ".join(body)))
        self.main.append("%s();" % fn)

    def vararg_part(self):
        r = self.r
        self.eid += 1
        e = self.eid
        cases = " ".join("case '%s': %s break;" % (c, emit_stmt(str(e), X("va_arg(ap, %s)" % TN[t], t))) for c, t in VCODES.items())
        vf, vw, vd = self.fresh("vf"), self.fresh("vw"), self.fresh("vd")
        pc = "case 's': { char *s; s = va_arg(ap, char *); while (*s) { emit(%d, (unsigned long long)*s); ++s; } } break;" % e
        self.out.append("static int %s(char *f, va_list ap) { int n = 0; while (*f) { switch (*f) { %s %s } ++f; ++n; } return n; }" % (vf, cases, pc))
        fx = [r.choice(ARITH) for _ in range(r.randint(0, 3))]
        self.out.append("static int %s(%schar *f, ...) { va_list ap; int n; %s va_start(ap, f); n = %s(f, ap); va_end(ap); return n; }" % (
            vw, "".join("%s x%d, " % (TN[t], i) for i, t in enumerate(fx)),
            " ".join(emit_stmt(str(e), X("x%d" % i, t)) for i, t in enumerate(fx)), vf))
        dup = "{ va_list aq; va_copy(aq, ap); n = %s(f, aq); va_end(aq); }" % vf
        cases2 = cases
        self.out.append("static int %s(char *f, ...) { va_list ap; int n = 0; char *g; va_start(ap, f); %s for (g = f; *g; ++g) { switch (*g) { %s %s } } va_end(ap); return n * 2; }" % (
            vd, dup, cases2, pc))
        vfp = self.fresh("vfp")
        self.out.append("typedef int (*%s)(char *, ...);" % vfp)
        strs = ['"ab"', '""', '"q\\n"']
        body = ["%s fp; int i; unsigned long base = probe();" % vfp]
        loc = []
        for t in ARITH:
            n = "w%d" % t
            loc.append(X(n, t))
            body.append("%s %s = %s;" % (TN[t], n, lit(r, t)))

        def va_call(depth):
            fmt, args = "", []
            call1 = [1]
            for _ in range(r.choice([0, 1, 2, 3, 5, 9, 16])):
                k = r.random()
                if k < .1:
                    fmt += "s"
                    args.append(r.choice(strs))
                    continue
                if k < .22 and depth and call1[0]:
                    call1[0] = 0
                    self.note("va-nested")
                    fmt += "i"
                    args.append(va_call(depth - 1))
                    continue
                a = r.choice(loc) if k < .7 else None
                t = a.t if a else r.choice(ARITH)
                pt = D if t in (F, D) else promote(t)
                fmt += [c for c, tt in VCODES.items() if tt == pt][0]
                args.append(a.s if a else lit(r, t))
            w = r.choice([vw, vd, "(*fp)"])
            self.note("va-" + ("indirect" if w == "(*fp)" else "direct"))
            pre = "".join(self.arg(t, loc, [], [0]) + ", " for t in fx) if w == vw else ""
            return '%s(%s"%s"%s)' % (w, pre, fmt, "".join(", " + a for a in args))
        body.append("fp = &%s;" % vd)
        for _ in range(5):
            body.append("emit(%d, (unsigned long long)%s);" % (e, va_call(2)))
        body.append("for (i = 0; i < 400; ++i) %s(\"\");" % vd)
        body.append("emit(%d, (unsigned long long)(probe() == base));" % e)
        body += [emit_stmt(str(e), x) for x in loc]
        fn = self.fresh("vm")
        self.out.append("static void %s(void) { %s }" % (fn, "\n  ".join(body)))
        self.main.append("%s();" % fn)

    def count_part(self):
        """the argument count and the argument slots as the called function sees them"""
        r = self.r
        self.eid += 1
        e = self.eid
        cnt, fn, fw = self.fresh("VN"), self.fresh("vn"), self.fresh("vq")
        how = r.choice(["((int)va_count())", "((int)countof(...))", "((int)(...)[-1].va_size)", "((int)...[-1].va_size)"])
        self.note("va-count")
        M = {"i": ("va_int", "int"), "u": ("va_uint", "unsigned"), "L": ("va_llong", "long long"), "M": ("va_ullong", "unsigned long long"),
             "d": ("va_double", "double"), "s": ("va_voidptr", "char *")}
        self.out.append("#ifdef __WCPL__\n#define %s(n) (%s)" % (cnt, how))
        for c, (m, t) in M.items():
            self.out.append("#define %s_%s(ap, i) ((%s)...[i].%s)" % (cnt, c, t, m))
        self.out.append("#else\n#define %s(n) (n)" % cnt)
        for c, (m, t) in M.items():
            self.out.append("#define %s_%s(ap, i) (va_arg(ap, %s))" % (cnt, c, t))
        self.out.append("#endif")
        fx = [r.choice(ARITH) for _ in range(r.randint(0, 2))]
        TT = {"i": SI, "u": UI, "L": SLL, "M": ULL, "d": D}
        cases = " ".join("case '%s': { %s x; x = %s_%s(ap, i); %s } break;" % (c, t, cnt, c, emit_stmt(str(e), X("x", TT[c])) if c in TT else
                         "while (*x) { emit(%d, (unsigned long long)*x); ++x; }" % e) for c, (m, t) in M.items())
        self.out.append("static int %s(%schar *f, int n, ...) { va_list ap; int i; va_start(ap, n); emit(%d, (unsigned long long)%s(n)); for (i = 0; i < %s(n); ++i) { switch (f[i]) { %s } } va_end(ap); emit(%d, (unsigned long long)%s(n)); return n; }" % (
            fn, "".join("%s x%d, " % (TN[t], i) for i, t in enumerate(fx)), e, cnt, cnt, cases, e, cnt))

        def call(d):
            fmt, args = "", []
            nest = d > 0
            for _ in range(r.choice([0, 0, 1, 2, 3, 4, 7, 12])):
                k = r.random()
                if k < .15:
                    fmt += "s"
                    args.append('"%s"' % r.choice(["ab", "", "xyz"]))
                elif k < .35 and nest:
                    nest = False
                    fmt += "i"
                    args.append(call(d - 1))
                else:
                    c = r.choice(list(TT))
                    fmt += c
                    args.append(lit(r, TT[c]))
            return '%s(%s"%s", %d%s)' % (fn, "".join(lit(r, t) + ", " for t in fx), fmt, len(args), "".join(", " + a for a in args))
        self.out.append("static void %s(void) { int i; %s for (i = 0; i < 3; ++i) { emit(%d, (unsigned long long)%s); } }" % (
            fw, " ".join("emit(%d, (unsigned long long)%s);" % (e, call(2)) for _ in range(4)), e, call(1)))
        self.main.append("%s();" % fw)

    def fptr_part(self):
        r = self.r
        self.eid += 1
        e = self.eid
        ps = [r.choice(ARITH) for _ in range(r.randint(0, 5))]
        rt = r.choice(ARITH)
        ty = self.fresh("fty")
        n = r.randint(2, 5)
        decl = ", ".join("%s p%d" % (TN[t], i) for i, t in enumerate(ps)) or "void"
        names = []
        atoms = [X("p%d" % i, t) for i, t in enumerate(ps)] + self.gl
        for k in range(n):
            nm = self.fresh("q")
            names.append(nm)
            self.out.append("static %s %s(%s) { emit(%d, %dULL); %s return %s; }" % (
                TN[rt], nm, decl, e, k, " ".join(emit_stmt(str(e), X("p%d" % i, t)) for i, t in enumerate(ps)), self.conv(rt, atoms)))
        self.out.append("typedef %s (*%s)(%s);" % (TN[rt], ty, ", ".join(TN[t] for t in ps) or "void"))
        tab, rec = self.fresh("tab"), self.fresh("rec")
        self.out.append("static %s %s[%d]; struct t%s { char c; %s f; int k; }; static struct t%s %s[%d];" % (ty, tab, n + 1, rec, ty, rec, rec, n))
        pick, app = self.fresh("pick"), self.fresh("app")
        self.out.append("static %s %s(int i) { return %s[i]; }" % (ty, pick, tab))
        self.out.append("static %s %s(%s f%s) { return (*f)(%s); }" % (TN[rt], app, ty, "".join(", %s p%d" % (TN[t], i) for i, t in enumerate(ps)),
                                                                    ", ".join("p%d" % i for i in range(len(ps)))))
        args = lambda: ", ".join(self.arg(t, self.gl, [], [0]) for t in ps)
        body = ["int i; %s f; %s *pf; void (*vf)(void); %s" % (ty, ty, " ".join("%s[%d] = &%s; %s[%d].f = &%s; %s[%d].k = %d;" % (tab, k, nm, rec, k, nm, rec, k, k) for k, nm in enumerate(names)))]
        body.append("%s[%d] = NULL;" % (tab, n))
        k = r.randrange(n)
        body.append("for (i = 0; %s[i] != NULL; ++i) { %s }" % (tab, emit_stmt(str(e), X("(*%s[i])(%s)" % (tab, args()), rt))))
        body.append("i = %d; %s" % (k, emit_stmt(str(e), X("(*%s[i].f)(%s)" % (rec, args()), rt))))
        body.append(emit_stmt(str(e), X("(*%s(%d))(%s)" % (pick, r.randrange(n), args()), rt)))
        a = args()
        body.append(emit_stmt(str(e), X("%s(%s%s)" % (app, r.choice(["&%s" % names[k], "%s[%d]" % (tab, k), "%s(%d)" % (pick, k)]), ", " + a if a else ""), rt)))
        body.append("f = i > %d ? &%s : &%s; %s" % (n // 2, names[0], names[-1], emit_stmt(str(e), X("(*f)(%s)" % args(), rt))))
        body.append("pf = &%s[0]; ++pf; %s" % (tab, emit_stmt(str(e), X("(**pf)(%s)" % args(), rt))))
        body.append("vf = (void (*)(void))f; f = (%s)vf; %s" % (ty, emit_stmt(str(e), X("(*f)(%s)" % args(), rt))))
        body.append("for (i = 0; i < %d; ++i) { emit(%d, (unsigned long long)(%s[i] == &%s)); emit(%d, (unsigned long long)(%s(i) != %s[%d].f)); }" % (
            n, e, tab, r.choice(names), e, pick, rec, k))
        fn = self.fresh("fm")
        self.out.append("static void %s(void) { %s }" % (fn, "\n  ".join(body)))
        self.main.append("%s();" % fn)
        self.note("fptr")

    def alloca_part(self):
        r = self.r
        self.eid += 1
        e = self.eid
        fn, fr = self.fresh("al"), self.fresh("alr")
        n = r.randint(2, 7)
        ex = r.choice(["(size_t)(i * %d + %d)", "(size_t)(%d + i %% %d)"]) % (r.randint(1, 40), r.randint(1, 9))
        t = r.choice([SC, SS, SI, SLL, D])
        self.out.append("""static int %(fn)s(int n) { char *v[8]; int sz[8]; int i, j; unsigned h = 1u; char loc[%(l)d]; char *q; %(ty)s *tp;
  for (i = 0; i < %(l)d; ++i) loc[i] = (char)(i ^ 5);
  for (i = 0; i < n; ++i) { sz[i] = (int)%(ex)s; v[i] = (char *)alloca(%(ex)s); emit(%(e)d, (unsigned long long)((unsigned long)v[i] & 7UL)); for (j = 0; j < sz[i]; ++j) v[i][j] = (char)(i * 16 + j); }
  if (n > 2) { q = (char *)alloca((size_t)(n * 3)); for (j = 0; j < n * 3; ++j) q[j] = 'z'; }
  tp = (%(ty)s *)alloca(sizeof(%(ty)s) * 3); tp[0] = (%(ty)s)1; tp[2] = (%(ty)s)3; tp[1] = tp[2];
  %(call)s
  for (i = 0; i < n; ++i) for (j = 0; j < sz[i]; ++j) h = h * 33u + (unsigned)(unsigned char)v[i][j];
  for (i = 0; i < %(l)d; ++i) h = h * 33u + (unsigned)(unsigned char)loc[i];
  emit(%(e)d, (unsigned long long)h); emit(%(e)d, (unsigned long long)(int)tp[1]);
  if (n == %(k)d) { return -1; }
  return (int)(h & 1023u); }""" % dict(fn=fn, l=r.randint(1, 50), ex=ex, e=e, ty=TN[t], k=r.randint(0, 7),
                                       call="if (n > 1) emit(%d, (unsigned long long)%s(n - 2));" % (e, fn) if r.random() < .5 else ""))
        self.out.append("static void %s(void) { unsigned long b = probe(); int i, s = 0; for (i = 0; i < %d; ++i) s += %s(i %% 8); emit(%d, (unsigned long long)s); emit(%d, (unsigned long long)(probe() == b)); }" % (
            fr, r.choice([8, 30]), fn, e, e))
        self.main.append("%s();" % fr)
        self.note("alloca")

    def stack_part(self):
        """frames are given back on every exit path, locals of active frames never overlap"""
        r = self.r
        self.eid += 1
        e = self.eid
        a, b, c = self.fresh("sa"), self.fresh("sb"), self.fresh("sc")
        n = r.randint(10, 900)
        self.out.append("""static int %(a)s(int k) { int big[%(n)d]; int i; for (i = 0; i < %(n)d; ++i) big[i] = i * k;
  if (k %% 5 == 0) return big[%(m)d]; for (i = 0; i < %(n)d; ++i) { struct { int z; int a[3]; } t; t.z = big[i]; t.a[2] = t.z; if (t.a[2] > k * 3) { return t.z; } if (k %% 7 == 3) { goto out; } }
  out: return -k; }
static int %(b)s(int d, int *up) { int me[%(w)d]; int i, s = 0; for (i = 0; i < %(w)d; ++i) me[i] = d * 100 + i;
  if (d > 0) { s = %(b)s(d - 1, &me[0]); }
  if (up != NULL) { up[0] += d; s += up[%(w1)d]; }
  for (i = 1; i < %(w)d; ++i) if (me[i] != d * 100 + i) return -999; return s + me[0]; }
static void %(c)s(void) { unsigned long p = probe(); int i, s = 0; for (i = 0; i < %(it)d; ++i) { s = s * 3 + %(a)s(i); } emit(%(e)d, (unsigned long long)s);
  emit(%(e)d, (unsigned long long)%(b)s(%(dd)d, NULL)); emit(%(e)d, (unsigned long long)(probe() == p)); }""" % dict(
            a=a, b=b, c=c, n=n, m=r.randrange(n), w=(w := r.randint(2, 12)), w1=w - 1, it=r.choice([20, 60]) if n > 100 else 500, e=e, dd=r.choice([1, 10, 200])))
        self.out[-1] = self.out[-1].replace("{ goto out; } }\n  out: return -k; }", "{ break; } }\n  return -k; }")
        self.main.append("%s();" % c)
        self.note("stack")

    def exit_part(self):
        """every shape of function gives its stack back on every way out: with and without a frame, alloca, variable arguments,
        for every kind of result, returning from inside nested statements or running off the end"""
        r = self.r
        self.eid += 1
        e = self.eid
        st = self.fresh("exs")
        snk = self.fresh("exk")
        self.out.append("struct %s { int a, b; double c; };\nstatic unsigned %s;" % (st, snk))
        self.out.append("static int %sv(int n, ...) { int r; va_list ap; va_start(ap, n); r = n > 0 ? va_arg(ap, int) : 3; va_end(ap); return r; }" % snk)
        use = self.fresh("exu")
        self.out.append("static void %s(char *p, int n) { int i; for (i = 0; i < n; ++i) p[i] = (char)(i + n); for (i = 0; i < n; ++i) %s = %s * 3u + (unsigned)(unsigned char)p[i]; }" % (use, snk, snk))
        calls = []
        for _ in range(r.randint(4, 9)):
            fn = self.fresh("ex")
            ret = r.choice(["void", "void", "void", "int", "signed char", "double", "long long", "bool", "char *", "struct " + st])
            val = {"int": "(int)(%s & 255u)", "signed char": "(signed char)%s", "double": "(double)%s", "long long": "(long long)%s", "bool": "%s > 77u", "char *": None, "struct " + st: None}.get(ret)
            frame, al, va = r.random() < .4, r.random() < .6, r.random() < .3
            decl = []
            if ret.startswith("struct"):
                decl.append("%s res;" % ret)
            if frame:
                decl.append(r.choice(["char buf[%d];" % r.randint(1, 60), "struct %s loc;" % st, "int arr[%d];" % r.randint(1, 9)]))
            decl.append("int i; char *p = NULL;")
            def rv():
                if ret == "void": return "return;"
                if ret == "char *": return "return NULL;"
                if val is None: return "{ res.a = n; res.b = k; res.c = (double)(n + k); return res; }"
                return "return %s;" % (val % snk)
            def touch():
                o = []
                if frame: o.append({"c": "buf[0] = 'x'; %s(&buf[0], 1);" % use, "s": "loc.a = n; %s += (unsigned)loc.a;" % snk, "i": "arr[0] = k; %s ^= (unsigned)arr[0];" % snk}[decl[-2][0]])
                if al: o.append(r.choice(["p = (char *)alloca((size_t)(n %% 13 + %d)); %s(p, n %% 13 + 1);" % (r.randint(1, 40), use), "%s((char *)alloca(%d), %d);" % (use, (z := r.randint(1, 70)), z)]))
                if va: o.append("%s += (unsigned)%sv(%s);" % (snk, snk, r.choice(["0", "1, n", "2, k, 2.5", "3, n, 7LL, p"])))
                o.append("%s += (unsigned)k;" % snk)
                r.shuffle(o)
                return " ".join(o)
            body = []
            for _ in range(r.randint(0, 3)):
                c = r.randrange(5)
                k = r.randint(0, 5)
                if c == 0: body.append("if (k == %d) { %s %s }" % (k, touch(), rv()))
                elif c == 1: body.append("for (i = 0; i < n; ++i) { %s if (i == k) %s }" % (touch() if r.random() < .5 else "", rv()))
                elif c == 2: body.append("switch (k) { case %d: %s %s case %d: %s break; default: %s }" % (k, touch(), rv(), k + 1, touch(), touch()))
                elif c == 3: body.append("i = 0; do { if (++i > 3) break; if (i == %d) { { %s } %s } } while (k > %d);" % (r.randint(1, 6), touch(), rv(), k))
                else: body.append("if (n > %d) { %s } else if (k > %d) %s" % (r.randint(0, 6), touch(), k, rv()))
            r.shuffle(body)
            if r.random() < .7:
                body.insert(r.randint(0, len(body)), touch())
            if not body:
                body.append(touch())
            tail = rv() if ret != "void" or r.random() < .3 else ""
            if ret != "void" and tail[0] == "{":
                tail = tail[2:-2]
            self.out.append("static %s %s(int n, int k) { %s\n  %s\n  %s }" % (ret, fn, " ".join(decl), "\n  ".join(body), tail))
            u = {"void": "%s", "struct " + st: "tmp = %s; s = s * 31u + (unsigned)tmp.a; s += (unsigned)tmp.c;", "char *": "s += (unsigned)(%s == NULL);"}.get(ret, "s = s * 31u + (unsigned)(%s);" if ret != "double" else "s = s * 31u + (unsigned)(long long)%s;")
            c = u % ("%s(n, k)" % fn)
            calls.append("%s emit(%d, (unsigned long long)(probe() - b));" % (c if c.endswith(";") else c + ";", e))
        r.shuffle(calls)
        run = self.fresh("exr")
        self.out.append("static void %s(void) { unsigned long b = probe(); unsigned s = 0u; int n, k; struct %s tmp; tmp.a = 0; tmp.c = 0.0;\n  for (n = 0; n < 7; ++n) for (k = 0; k < 6; ++k) {\n    %s }\n  emit(%d, (unsigned long long)s); emit(%d, (unsigned long long)%s); }" % (
            run, st, "\n    ".join(calls), e, e, snk))
        self.main.append("%s();" % run)
        self.note("exits")

    def program(self):
        r = self.r
        self.main = []
        self.gl = [X("gv%d" % t, t) for t in ARITH]
        self.out.append(PRELUDE)
        self.out.append("#ifdef __WCPL__\n#include <stdlib.h>\n#endif")
        for t in ARITH:
            self.out.append("static %s gv%d;" % (TN[t], t))
        self.out.append("static unsigned long probe(void) { int a[4]; a[0] = 1; return (unsigned long)&a[0]; }")
        for _ in range(r.randint(3, 8)):
            self.scalar_fn()
        for k in range(8):
            self.eid += 1
            x, t = self.callexpr(self.gl)
            self.main.append(emit_stmt(str(self.eid), X(x, t)))
        for part, p in ((self.struct_part, .8), (self.vararg_part, .8), (self.count_part, .6), (self.fptr_part, .8), (self.alloca_part, .6), (self.stack_part, .6), (self.exit_part, .7)):
            if r.random() < p:
                part()
        init = " ".join("gv%d = %s;" % (t, lit(r, t)) for t in ARITH)
        self.main.append("emit(9999, (unsigned long long)(probe() == b0_));")
        return "\n".join(self.out) + "\nint main(void) { unsigned long b0_ = probe(); ub_reset_(); %s\n  %s\n  put_(); return 0; }\n" % (init, "\n  ".join(self.main))


def gen_call_program(rng, stats=None):
    stats = stats if stats is not None else {}
    return CallGen(rng, stats).program(), stats
