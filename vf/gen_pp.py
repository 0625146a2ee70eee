"""C08: tokens, literals, strings, comments, conditional blocks, macros, generic selection, declarators, scoping."""
import re
from .cgen import *
from .cgen import ExprGen

JUNK = ["garbage ' \" here", "#include <nowhere.h>", "/* a ' comment */ @ $ `", "int x = ;", "#define FOO", "// \" unterminated",
        "else if ( { ) }", "#pragma whatever", "'x"]


class PP:
    def __init__(self, rng, stats):
        self.r, self.st, self.out, self.n, self.main = rng, stats, [], 0, []

    def note(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- layout noise: comments and spacing anywhere between tokens
    def ws(self):
        r = self.r
        return r.choice([" ", " ", " ", "  ", "\t", "\n", " /* c */ ", " /**/ ", " /* * / ** */ ", " // \" ' \n", "\r\n", " /*\n*/ ", "\f", " \\\n "])

    def noisy(self, toks):
        return "".join(self.ws() + t for t in toks)

    # ---- literals
    def litpart(self):
        r = self.r
        for _ in range(r.randint(6, 16)):
            k = r.randint(0, 7)
            self.note("lit%d" % k)
            e = self.fresh("")
            if k == 0:
                v = r.choice([0, 1, 7, 8, 9, 10, 255, 2 ** 31 - 1, r.randint(0, 2 ** 31 - 1)])
                s = r.choice(["%d" % v, "0x%x" % v, "0X%X" % v, "0%o" % v, "%dL" % v, "%dl" % v])
                self.main.append("emit(%s, (unsigned long long)%s);" % (e, s))
            elif k == 1:
                v = r.choice([0, 1, 2 ** 31, 2 ** 32 - 1, r.randint(0, 2 ** 32 - 1)])
                s = r.choice(["%d", "0x%x", "0%o"]) % v + r.choice(["u", "U", "ul", "UL", "lu", "uL"])
                self.main.append("emit(%s, (unsigned long long)%s); emit(%s, (unsigned long long)(%s > 0u - 1u));" % (e, s, e, s))
            elif k == 2:
                v = r.choice([0, 2 ** 31, 2 ** 32, 2 ** 63 - 1, r.randint(0, 2 ** 63 - 1), 1])
                s = r.choice(["%d", "0x%x", "0%o"]) % v + r.choice(["ll", "LL"])
                self.main.append("emit(%s, (unsigned long long)%s); emit(%s, (unsigned long long)sizeof(%s));" % (e, s, e, s))
            elif k == 3:
                v = r.choice([2 ** 63, 2 ** 64 - 1, r.randint(0, 2 ** 64 - 1), 3])
                s = r.choice(["%d", "0x%x", "0%o"]) % v + r.choice(["ull", "ULL", "LLU", "llu", "uLL"])
                self.main.append("emit(%s, (unsigned long long)%s);" % (e, s))
            elif k == 4:
                s = self.dbl()
                self.main.append("emitd(%s, %s); emitf(%s, (float)%s);" % (e, s, e, s))
            elif k == 5:
                s = r.choice(["1.5f", "0.1f", "3e5f", ".5F", "1.f", "123.25e-3F", "0x1.8p3f", "16777217.0f"])
                self.main.append("emitf(%s, %s); emit(%s, (unsigned long long)sizeof(%s));" % (e, s, e, s))
            elif k == 6:
                c = r.choice(["'a'", "' '", "'\\n'", "'\\t'", "'\\v'", "'\\f'", "'\\a'", "'\\b'", "'\\r'", "'\\\\'", "'\\''", "'\\\"'", "'\"'", "'\\?'",
                              "'\\0'", "'\\7'", "'\\12'", "'\\177'", "'\\377'", "'\\200'", "'\\x41'", "'\\xfF'", "'\\x7'", "'/'", "'?'",
                              "L'a'", "L'\\x7f'", "L'\\u00e9'", "L'\\377'"])
                self.main.append("emit(%s, (unsigned long long)(long long)%s);" % (e, c))
            else:
                self.strlit(e)

    def dbl(self):
        r = self.r
        m = r.choice(["0", "1", "12", "123456789", "5", "17976931348623157"[:r.randint(1, 17)], str(r.randint(0, 10 ** 17))])
        k = r.randint(0, 5)
        s = [lambda: m + ".", lambda: m + "." + str(r.randint(0, 10 ** 9)), lambda: "." + str(r.randint(0, 10 ** 12)),
             lambda: "%s.%de%s%d" % (m[:6], r.randint(0, 10 ** 9), r.choice(["", "+", "-"]), r.randint(0, 250)),
             lambda: "%dE%d" % (r.randint(0, 10 ** 15), r.randint(-290, 290)),
             lambda: "0x%x.%xp%d" % (r.randint(1, 2 ** 20), r.randint(0, 2 ** 20), r.randint(-300, 300))][k]()
        return s

    def strlit(self, e):
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            b = "".join(r.choice(["a", "Z", " ", "0", "9", "f", "%", "?", "'", "/*", "//", "\\n", "\\t", "\\\\", "\\\"", "\\'", "\\0", "\\0" "12", "\\12", "\\1", "\\377",
                                  "\\x41\" \"", "\\xff\" \"", "\u00e9", "\u20ac", "\U0001F600", "\\u00e9", "\\a", "\\b", "\\v", "\\f", "\\r", "\\?", "{", "}", "#"])
                        for _ in range(r.randint(0, 12)))
            parts.append('"%s"' % b)
        wide = r.random() < .25
        if wide:
            parts = ['L' + p.replace('" "', '" L"') for p in parts]
        s = r.choice([" ", "\n", " /* x */ "]).join(parts)
        self.note("str-wide" if wide else "str")
        g = self.fresh("s")
        t = "int" if wide else "char"
        if r.random() < .5:
            self.out.append("static %s %s[] = %s;" % (t, g, s))
            self.main.append("{ int i; for (i = 0; i < (int)(sizeof(%s) / sizeof(%s)); ++i) emit(%s, (unsigned long long)(long long)%s[i]); }" % (g, t, e, g))
        else:
            # number of units comes from a sibling array so that embedded zeros are seen
            self.out.append("static %s %s[] = %s;" % (t, g, s))
            self.main.append("{ int i; %s *p = (%s *)%s; for (i = 0; i < (int)(sizeof(%s) / sizeof(%s)); ++i) emit(%s, (unsigned long long)(long long)p[i]); }" % (t, t, s, g, t, e))

    # ---- macros
    def macros(self):
        r = self.r
        glob = [X("gv%d" % t, t) for t in ARITH]
        atoms = list(glob)
        funs = []       # (name, param types)
        for _ in range(r.randint(3, 7)):
            k = r.randint(0, 5)
            n = self.fresh("M")
            if k == 0:
                g = ExprGen(r, atoms, floats=True, stats=self.st)
                x = g.expr(2)
                self.out.append("#define %s %s" % (n, "(%s)" % x.s))
                atoms.append(X(n, x.t))
                self.note("mac-obj")
            elif k in (1, 2):
                ps = [r.choice(ARITH) for _ in range(r.randint(0, 4))]
                g = ExprGen(r, [X("(p%d)" % i, t) for i, t in enumerate(ps)] * 3 + atoms, floats=True, stats=self.st)
                x = g.expr(3)
                self.out.append("#define %s(%s) (%s)" % (n, r.choice([", ", ","]).join("p%d" % i for i in range(len(ps))), x.s))
                funs.append((n, ps, x.t))
                self.note("mac-fun%d" % len(ps))
            elif k == 3:
                self.out.append("#define %s(a, b, n) do { int i_; for (i_ = 0; i_ < (n); ++i_) { long long t_; t_ = (a); (a) = (b); (b) = t_ + 1LL; if (i_ > 3) break; } } while (0)" % n)
                e = self.fresh("")
                self.main.append("{ long long x = %s, y = %s; int k; for (k = 0; k < 3; ++k) if (k != 1) %s(x, y, %d); else %s(y, x, k); emit(%s, (unsigned long long)x); emit(%s, (unsigned long long)y); }" % (
                    lit(r, SLL), "5LL", n, r.randint(0, 6), n, e, e))
                self.note("mac-do")
            elif k == 4:
                e = self.fresh("")
                f = self.fresh("vf")
                self.out.append("static int %s(int n, ...) { va_list ap; int s = 0; va_start(ap, n); while (n-- > 0) { s = s * 7 + va_arg(ap, int); } va_end(ap); emit(%s, (unsigned long long)s); return s & 15; }" % (f, e))
                self.out.append("#define %s(n, ...) (%s((n), __VA_ARGS__))" % (n, f))
                n2 = self.fresh("M")
                self.out.append("#define %s(a, ...) (%s(3, (a), __VA_ARGS__))" % (n2, n))
                self.main.append("emit(%s, (unsigned long long)%s(%d, %s));" % (e, n, 4, ", ".join(str(r.randint(0, 99)) for _ in range(4))))
                self.main.append("emit(%s, (unsigned long long)%s(%d, %d, (gv5 & 31)));" % (e, n2, r.randint(0, 9), r.randint(0, 9)))
                self.note("mac-va")
            else:
                self.out.append('#define %s "%s"' % (n, r.choice(["abc", "", "x\\ty", "\\101"])))
                e = self.fresh("")
                self.main.append("{ char *p; for (p = (char *)(%s); *p; ++p) emit(%s, (unsigned long long)*p); }" % (r.choice([n, '"q" ' + n, n + ' "z"', n + " " + n]), e))
                self.note("mac-str")
        for n, ps, t in funs:
            for _ in range(2):
                g = ExprGen(r, atoms, floats=True, stats=self.st)
                args = []
                for pt in ps:
                    x = g.expr(1)
                    if x.t != pt:
                        x = X("((%s)%s)" % (TN[pt], g.inrange(x, pt) if x.t in (F, D) and pt not in (F, D) else x.s), pt)
                    args.append(x.s)
                e = self.fresh("")
                f = self.fresh("mf")
                self.out.append("static void %s(void) { %s }" % (f, emit_stmt(e, X("%s(%s)" % (n, ", ".join(args)), t))))
                self.main.append("ub_reset_(); %s();" % f)
        for a in atoms[len(glob):]:
            e = self.fresh("")
            self.main.append("ub_reset_(); " + emit_stmt(e, a))
        if r.random() < .5:
            n = self.fresh("U")
            self.out.append("#define %s 11\nstatic int u1_%s = %s;\n#undef %s\n#define %s (22 + 1)\nstatic int u2_%s = %s;" % (n, n, n, n, n, n, n))
            self.main.append("emit(%s, (unsigned long long)(u1_%s * 100 + u2_%s));" % (self.fresh(""), n, n))
            self.note("undef")

    NARGS = """#ifndef __WCPL__
#define NA_(z,a,b,c,d,e,f,g,h,i,n,...) n
#define NARGS(...) NA_(z, ##__VA_ARGS__, 9,8,7,6,5,4,3,2,1,0)
#define CT_(a, b) a##b
#define CT(a, b) CT_(a, b)
#endif"""

    def vamacros(self):
        """variadic macros: the ... of the macro, its count, dispatch on the count, and the ... of the enclosing function"""
        r = self.r
        e = self.fresh("")
        f, m = self.fresh("vs"), self.fresh("V")
        self.out.append("static int %s(int n, ...) { va_list ap; int s = 1; va_start(ap, n); emit(%s, (unsigned long long)n); while (n-- > 0) { s = s * 7 + va_arg(ap, int); } va_end(ap); emit(%s, (unsigned long long)s); return s & 1023; }" % (f, e, e))
        fx = r.randint(0, 3)
        ps = "".join("a%d, " % i for i in range(fx))
        used = [i for i in range(fx) if r.random() < .8]
        r.shuffle(used)
        mid = "".join("(a%d), " % i for i in used)
        ell = r.choice(["...", "__VA_ARGS__"])
        twice = r.random() < .4
        tail = r.choice(["", ", 5", ", (gv%d)" % SI])
        k = len(used)
        two = " + %s(countof(...)%s, %s)" % (f, "", ell) if twice else ""
        two2 = " + %s(NARGS(__VA_ARGS__), ##__VA_ARGS__)" % f if twice else ""
        off = k + (1 if tail else 0)
        # all cases of a count dispatch up to the last one, then perhaps a default
        ks = sorted(r.sample(range(0, 5), r.randint(1, 3)))
        dflt = r.random() < .6
        arms = []
        for c in ks:
            arms.append((c, r.choice(["%s(%d, ...)" % (f, c), "%d" % r.randint(0, 999), "(%d + %s(%d, 3%s))" % (r.randint(0, 99), f, c + 1, ", ...")])))
        if dflt:
            arms.append((None, r.choice(["77", "%s(countof(...), ...)" % f])))
        if r.random() < .5:
            w = "(generic(countof(...), %s))" % ", ".join("%s: %s" % ("default" if c is None else c, b) for c, b in arms)
        else:
            w = "generic (countof(...)) {\n%s\n}" % "\n".join("  %s: %s;" % ("default" if c is None else "case %d" % c, b) for c, b in arms)
        va = lambda b: b.replace("countof(...)", "NARGS(__VA_ARGS__)").replace("...", "##__VA_ARGS__")
        n = r.randint(1, 5)
        xs = [str(r.randint(0, 99)) for _ in range(n)]
        self.out.append("#ifdef __WCPL__")
        self.out.append("#define %s(%s...) (%s(%d + (int)countof(...), %s%s%s)%s)" % (m, ps, f, off, mid, ell, tail, two.replace("(countof(...)", "((int)countof(...)")))
        self.out.append("#define %sN(%s...) (countof(...))" % (m, ps))
        self.out.append("#define %sG(...) %s" % (m, w.replace("(countof(...), ...)", "((int)countof(...), ...)")))
        self.out.append("#define %sF(x) ((x) + %s(2, (int)countof(...), ...[%d].va_int))" % (m, f, n - 1))       # no ... of its own: the function's
        self.out.append("#define %sP(a, ...) (%s(%s...))" % (m, m, "(a), " * fx))
        self.out.append("#else")
        self.out.append("#define %s(%s...) (%s(%d + NARGS(__VA_ARGS__), %s%s%s)%s)" % (
            m, ps, f, off, mid, "##__VA_ARGS__", tail, two2))
        self.out.append("#define %sN(%s...) (NARGS(__VA_ARGS__))" % (m, ps))
        for c in range(0, 9):
            hit = [b for k2, b in arms if k2 == c] or [b for k2, b in arms if k2 is None]
            if hit:
                self.out.append("#define %sG%d(...) (%s)" % (m, c, va(hit[0])))
        self.out.append("#define %sG(...) CT(%sG, NARGS(__VA_ARGS__))(__VA_ARGS__)" % (m, m))
        self.out.append("#define %sP(a, ...) (%s(%s__VA_ARGS__))" % (m, m, "(a), " * fx))
        self.out.append("#endif")
        arg = lambda: r.choice(["%d" % r.randint(0, 99), "(gv%d & 31)" % SI, "%s(1, %d)" % (f, r.randint(0, 9)), "'c'"])
        for _ in range(r.randint(2, 4)):
            a = [str(r.randint(0, 99)) for _ in range(fx)]
            v = [arg() for _ in range(r.randint(0, 5))]
            if sum("(1, " in x for x in v) > 1 or twice:
                v = [x if "(1, " not in x else "4" for x in v]
            call = "%s(%s)" % (m, ", ".join(a + v))
            self.main.append("emit(%s, (unsigned long long)%s);" % (e, call))
            self.main.append("emit(%s, (unsigned long long)%sN(%s));" % (e, m, ", ".join(a + v)))
            self.main.append("emit(%s, (unsigned long long)%sP(%s));" % (e, m, ", ".join([str(r.randint(0, 9)), "8"] + v[:3])))
        cs = [c for c, _ in arms if c is not None] + ([5, 6] if dflt else [])
        for c in cs + cs[:1]:
            self.main.append("emit(%s, (unsigned long long)%sG(%s));" % (e, m, ", ".join(str(r.randint(0, 99)) for _ in range(c))))
        g = self.fresh("vg")
        # what the function got through its own ...: written out for the reference compiler
        self.out.append("#ifdef __WCPL__\nstatic int %s(int a, ...) { return %sF(a) + (int)%sN(%s1, 2, 3) * 5; }\n#else\nstatic int %s(int a, ...) { return a + %s(2, %d, %s) + %d * 5; }\n#endif" % (
            g, m, m, "0, " * fx, g, f, n, xs[-1], 3))
        self.main.append("emit(%s, (unsigned long long)%s(%d%s));" % (e, g, r.randint(0, 9), "".join(", " + x for x in xs)))
        self.note("mac-vacount")

    # ---- conditional blocks (top level only)
    def conds(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            e = self.fresh("")
            v = self.fresh("cv")

            def block(level, active):
                o = []
                c = r.choice(["#if 0", "#if 1", "# if 1", "#if defined(__NOPE__)" if False else "#if 0"])
                on = c.strip().endswith("1")
                self.note("cond" + c.replace(" ", ""))
                o.append(c)
                o += body(level + 1, active and on)
                if r.random() < .3:
                    o.append("#elif 1" if False else "#else")
                    o += body(level + 1, active and not on)
                elif r.random() < .3:
                    o.append("#elif 1")
                    o += body(level + 1, active and not on)
                    if r.random() < .5:
                        o.append("#else")
                        o += body(level + 1, False)
                o.append("#endif" + r.choice(["", " /* x */", " // y"]))
                return o

            def body(level, active):
                o = []
                if not active:
                    o += r.sample(JUNK, r.randint(0, 3))
                    if level < 3 and r.random() < .4:
                        o += ["#ifdef __WCPL__", "junk '", "#else", "more", "#endif"]
                elif level < 4 and r.random() < .4:
                    o += block(level, True)
                if active and not done[0]:
                    done[0] = True
                    o.append("static int %s = %d;" % (v, r.randint(1, 10 ** 6)))
                return o
            done = [False]
            b = block(0, True)
            if not done[0]:
                b.append("static int %s = 77;" % v)
            self.out += b
            self.main.append("emit(%s, (unsigned long long)%s);" % (e, v))

    # ---- generic selection
    GT = [(BOOL, 1), (SC, 2), (UC, 3), (SS, 4), (US, 5), (SI, 6), (UI, 7), (SLL, 8), (ULL, 9), (F, 10), (D, 11)]

    def generics(self):
        r = self.r
        n = self.fresh("G")
        # char is signed char for wcpl, and long/int literal types are the implementation's own: excluded
        order = self.GT[:]
        r.shuffle(order)
        order = order[:r.randint(6, 11)]
        self.out.append("#define %s(x) (generic((x), %s, default: 99))" % (n, ", ".join("%s: %d" % (TN[t], k) for t, k in order)))
        glob = [X("gv%d" % t, t) for t in (BOOL, UC, SS, US, SI, UI, SLL, ULL, F, D)]
        for _ in range(8):
            g = ExprGen(r, glob, floats=True, consts=False, stats=self.st)
            x = g.expr(r.randint(0, 3))
            if x.t in (SL, UL, CHAR) or "long)" in x.s and "long long" not in x.s or "(char)" in x.s or "(signed char)" in x.s:
                continue
            self.main.append("emit(%s, (unsigned long long)%s(%s));" % (self.fresh(""), n, x.s))
            self.note("generic")
        self.out.append("struct ga_%s { int m; }; typedef struct ga_%s *gp_%s; static struct ga_%s go_%s; static char *gs_%s = NULL; static int gia_%s[3];" % ((n,) * 7))
        self.main.append("emit(%s, (unsigned long long)generic(gs_%s, int: 1, char *: 2, default: 3));" % (self.fresh(""), n))
        self.main.append("emit(%s, (unsigned long long)generic(&go_%s, int *: 1, gp_%s: 2, default: 3));" % (self.fresh(""), n, n))
        self.main.append("emit(%s, (unsigned long long)generic(go_%s, int: 1, struct ga_%s: 5, default: 3));" % (self.fresh(""), n, n))
        self.main.append("emit(%s, (unsigned long long)generic(go_%s.m, unsigned: 1, int: go_%s.m + 40, default: 3));" % (self.fresh(""), n, n))

    # ---- declarators and scopes
    def decls(self):
        r = self.r
        e = self.fresh("")
        a = self.fresh("d")
        q = lambda: r.choice(["", "", "const ", "volatile ", "register ", "auto "][:4])
        self.out.append("""typedef int (*fp_%(a)s)(int); typedef fp_%(a)s (*ffp_%(a)s)(int); typedef int arr_%(a)s[3]; typedef char *(*pa_%(a)s)[2];
static int f1_%(a)s(int x) { return x + 1; } static int f2_%(a)s(int x) { return x * 2; }
static fp_%(a)s sel_%(a)s(int k) { if (k != 0) return &f1_%(a)s; return &f2_%(a)s; }
static int (*sel2_%(a)s(int k))(int) { if (k != 0) return &f2_%(a)s; return &f1_%(a)s; }
static int x_%(a)s = 5, *px_%(a)s, ax_%(a)s[2][3], (*pf_%(a)s)(int), *apx_%(a)s[2];
static arr_%(a)s m_%(a)s[2]; enum { A_%(a)s, B_%(a)s = %(v)d, C_%(a)s, D_%(a)s = B_%(a)s * 2 + 1, E_%(a)s = -3, F_%(a)s, };
static unsigned long int ul_%(a)s; static long long int ll_%(a)s; static short int si_%(a)s; static unsigned char uc_%(a)s; static long unsigned lu_%(a)s; static int unsigned iu_%(a)s;
static void t_%(a)s(int p, int *const q, const char *const s) {
  ffp_%(a)s ff; pa_%(a)s pp; char *two[2]; int (*loc)(int) = &f1_%(a)s, k = 3; int (*tab[2])(int); int (*row)[3];
  ff = &sel_%(a)s; emit(%(e)s, (unsigned long long)(*(*ff)(p))(10)); emit(%(e)s, (unsigned long long)(*sel2_%(a)s(p))(10));
  two[0] = "zero"; two[1] = "one"; pp = (pa_%(a)s)&two; emit(%(e)s, (unsigned long long)(*pp)[1][2]);
  tab[0] = loc; tab[1] = &f2_%(a)s; for (k = 0; k < 2; ++k) emit(%(e)s, (unsigned long long)(*tab[k])(k + 7));
  pf_%(a)s = tab[1]; emit(%(e)s, (unsigned long long)(*pf_%(a)s)(4)); m_%(a)s[1][2] = 9; row = &m_%(a)s[1]; emit(%(e)s, (unsigned long long)(*row)[2]);
  emit(%(e)s, (unsigned long long)sizeof(m_%(a)s)); emit(%(e)s, (unsigned long long)sizeof(arr_%(a)s)); emit(%(e)s, (unsigned long long)sizeof(int (*)[3])); emit(%(e)s, (unsigned long long)sizeof(char *[4]));
  ax_%(a)s[1][2] = 6; px_%(a)s = &ax_%(a)s[0][0]; emit(%(e)s, (unsigned long long)px_%(a)s[5]); apx_%(a)s[1] = px_%(a)s + 5; emit(%(e)s, (unsigned long long)*apx_%(a)s[1]);
  emit(%(e)s, (unsigned long long)(A_%(a)s + B_%(a)s * 10 + C_%(a)s * 100 + D_%(a)s * 1000 + E_%(a)s + F_%(a)s)); *q += 1; emit(%(e)s, (unsigned long long)s[0]);
  ul_%(a)s = 0UL - 1UL; ll_%(a)s = (long long)ul_%(a)s; si_%(a)s = (short)ll_%(a)s; iu_%(a)s = (unsigned)si_%(a)s; lu_%(a)s = (unsigned long)(unsigned short)si_%(a)s; emit(%(e)s, (unsigned long long)(ll_%(a)s + si_%(a)s)); emit(%(e)s, (unsigned long long)lu_%(a)s); emit(%(e)s, (unsigned long long)iu_%(a)s);
}""" % dict(a=a, e=e, v=r.randint(-50, 500)))
        self.main.append("{ int z[1]; z[0] = 3; t_%s(%d, &z[0], \"k\"); t_%s(0, &z[0], \"\"); emit(%s, (unsigned long long)z[0]); }" % (a, r.randint(0, 1), a, e))
        self.note("declarators")
        # scopes
        f = self.fresh("sc")
        vs = ["x_%s" % a, "p", "v", "w"]
        body = []

        def scope(d, seen):
            o = []
            here = dict(seen)
            for _ in range(r.randint(1, 4)):
                k = r.random()
                v = r.choice(vs)
                if k < .35:
                    if v in decl[-1]:
                        continue
                    t = r.choice([SC, UC, SS, SI, SLL, D])
                    o.append("%s %s = %d;" % (TN[t], v, r.randint(0, 100)))
                    decl[-1].add(v)
                    here[v] = t
                elif k < .6 and v in here:
                    o.append("%s = (%s)(%s + %d);" % (v, TN[here[v]], v, r.randint(1, 9)))
                elif k < .8 and d > 0:
                    decl.append(set())
                    kind = r.choice(["{", "if (1) {", "for (int %s = 0; %s < 2; ++%s) {" % (v, v, v), "do {", "while (k_ < 2) { ++k_;"])
                    inner = dict(here)
                    if kind.startswith("for"):
                        inner[v] = SI
                        decl.append({v} if False else set())
                    b = scope(d - 1, inner)
                    # a for-variable must not be rewritten inside its own loop
                    if kind.startswith("for"):
                        b = [x for x in b if not x.startswith(v + " = ")] if v not in decl[-1] else b
                        decl.pop()
                    decl.pop()
                    o.append(kind + " " + " ".join(b) + (" } while (k_++ < 0);" if kind.startswith("do") else " }"))
                elif v in here:
                    o.append(emit_stmt(e, X("(double)" + v, D)))
            return o
        decl = [{"p", "v", "w"}]
        body = scope(4, {"x_%s" % a: SI, "p": SI, "v": SI, "w": SI}) + scope(3, {"x_%s" % a: SI, "p": SI, "v": SI, "w": SI})
        self.out.append("static void %s(int p) { int v = 1, w = 2, k_ = 0; %s emit(%s, (unsigned long long)(p + v * 10 + w * 100 + k_)); }" % (f, " ".join(body), e))
        self.main.append("%s(%d);" % (f, r.randint(0, 9)))
        self.note("scopes")

    def program(self):
        r = self.r
        for t in ARITH:
            self.out.append("static %s gv%d;" % (TN[t], t))
        self.out.append(self.NARGS)
        parts = [self.litpart, self.macros, self.vamacros, self.conds, self.generics, self.decls]
        r.shuffle(parts)
        for p in parts:
            p()
        # token soup: the same expression with and without layout noise
        for _ in range(3):
            g = ExprGen(r, [X("gv%d" % t, t) for t in INTS], stats=self.st)
            x = g.expr(3)
            toks = re.findall(r"0x[0-9a-fA-F]+\w*|\w+|[<>=!&|+\-]{1,2}|.", x.s.replace("--", "- -"))
            toks = [t for t in toks if t.strip()]
            # keep two-character operators whole but never glue separate ones
            e = self.fresh("")
            f = self.fresh("ns")
            self.out.append("static void %s(void) {\n emit(%s, (unsigned long long)(%s)); }" % (f, e, self.noisy(toks)))
            self.main.append("ub_reset_(); %s();" % f)
            self.note("noise")
        init = " ".join("gv%d = %s;" % (t, lit(r, t)) for t in ARITH)
        return PRELUDE + "\n" + "\n".join(self.out) + "\nint main(void) { ub_reset_(); %s\n  %s\n  put_(); return 0; }\n" % (init, "\n  ".join(self.main))


def gen_pp_program(rng, stats=None):
    stats = stats if stats is not None else {}
    return PP(rng, stats).program(), stats
