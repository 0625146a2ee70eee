"""C31: programs that are large in one or two dimensions: counts around the sizes at which tables grow and
encodings change width (1/2/3-byte LEB128, 8/16-bit quantities)."""
from .cgen import PRELUDE


def count(r, cap, lo=1):
    """a count near a boundary, at most cap"""
    c = [x + r.randint(-2, 2) for x in (8, 16, 32, 64, 127, 128, 128, 255, 256, 256, 512, 512, 1024, 1024, 2048, 2048, 4096, 8192, 16384, 16384, 32768, 65536)]
    c = [x for x in c if lo <= x <= cap]
    return r.choice(c + [r.randint(lo, cap), cap])


class Big:
    def __init__(self, r, stats):
        self.r, self.st = r, stats
        self.top, self.main = [], []
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def some(self, n, k=40):
        """indexes worth looking at: the ends, the boundaries, random ones"""
        s = {0, n - 1, n // 2} | {b + d for b in (63, 127, 128, 255, 256, 511, 1023, 2047, 4095, 8191, 16383, 16384) for d in (-1, 0, 1) if 0 <= b + d < n}
        s |= {self.r.randrange(n) for _ in range(k)}
        return sorted(s)

    def emit(self, v):
        self.main.append("  emit(%d, (unsigned long long)(%s));" % (self.id() & 0xffff, v))

    def loop_emit(self, n, v):
        """every element, folded"""
        h = "h%d" % self.id()
        self.main.append("  { unsigned long long %s = 14695981039346656037ull; int i; for (i = 0; i < %d; ++i) %s = (%s ^ (unsigned long long)(%s)) * 1099511628211ull; emit(%d, %s); }"
                         % (h, n, h, h, v, self.id() & 0xffff, h))

    # ---- data
    def strtab(self):
        r, k = self.r, self.id()
        n = count(r, 3000)
        dup = r.random() < .3
        self.st["table of structs with strings"] = 1
        self.top.append("struct st%d { %s };" % (k, r.choice(["char *a; int x; char *b;", "short x; char *a; char *b;", "char *a; char *b; char x;"])))
        f = self.top[-1]
        rows = []
        for i in range(n):
            a, b = '"a%d"' % (i % 50 if dup else i), '"%sb"' % (chr(97 + i % 26) * (i % 7) + str(i))
            x = str(i % 100)
            rows.append("{%s}" % (", ".join([a, x, b] if "int x" in f else [x, a, b] if "short" in f else [a, b, x])))
        self.top.append("struct st%d sa%d[%d] = {\n%s };" % (k, k, n, ",\n".join(rows)))
        self.loop_emit(n, "(int)sa%d[i].x * 31 + (int)sa%d[i].a[1] * 7 + (int)sa%d[i].b[0]" % (k, k, k))
        for i in self.some(n, 6):
            self.emit("(int)sa%d[%d].a[%d] + (int)sa%d[%d].b[%d] * 256" % (k, i, min(2, len(str(i % 50 if dup else i))), k, i, i % 7))

    def ptrtab(self):
        r, k = self.r, self.id()
        n = count(r, 5000)
        self.st["table of strings"] = 1
        self.top.append("char *pt%d[%d] = {\n%s };" % (k, n, ",\n".join('"%x:%d"' % (i * 2654435761 & 0xffff, i) for i in range(n))))
        self.loop_emit(n, "pt%d[i][0] + pt%d[i][1] * 3 + pt%d[i][2] * 5" % (k, k, k))

    def globs(self):
        r, k = self.r, self.id()
        n = count(r, 2500)
        self.st["many globals"] = 1
        for i in range(count(r, 800) if r.random() < .5 else 0):      # pointers with literals
            self.top.append('char *gp%d_%d = "p%dq";' % (k, i, i))
            if i % 7 == 0:
                self.emit("(int)gp%d_%d[1] + (int)gp%d_%d[%d] * 256" % (k, i, k, i, len(str(i)) + 1))
        tys = ["int", "long long", "double", "unsigned char", "short", "float"]
        ty = [tys[(i * 7 + k) % 6] for i in range(n)]
        for i in range(n):
            self.top.append("%s%s gv%d_%d%s;" % ("static " if i % 5 == 0 else "", ty[i], k, i, " = %d" % (i % 120) if i % 3 else ""))
        for i in self.some(n):
            self.main.append("  gv%d_%d = (%s)((int)gv%d_%d + %d);" % (k, i, ty[i], k, i, i % 100))
        for i in self.some(n):
            self.emit("(int)gv%d_%d" % (k, i))
        self.top.append("unsigned gvs%d(void) { unsigned s = 1u;\n%s\n return s; }" % (k, "\n".join("  s = s * 3u + (unsigned)(int)gv%d_%d;" % (k, i) for i in range(n))))
        self.emit("gvs%d()" % k)

    def gdata(self):
        """data far away in memory, many data objects with addresses of each other"""
        r, k = self.r, self.id()
        n = count(r, 400)
        self.st["many data objects"] = 1
        sz = r.choice([1, 3, 40, 700])
        for i in range(n):
            self.top.append("%s da%d_%d[%d]%s;" % (r.choice(["char", "short", "int"]), k, i, sz, " = { %d }" % (i % 100) if i % 4 else ""))
        ix = self.some(n)
        self.top.append("void *dp%d[%d] = { %s };" % (k, len(ix), ", ".join("&da%d_%d[0]" % (k, i) for i in ix)))
        for j, i in enumerate(ix):
            self.emit("(int)(dp%d[%d] == &da%d_%d[0]) * 1000 + (int)da%d_%d[0]" % (k, j, k, i, k, i))
        for i in ix:
            self.main.append("  da%d_%d[%d] = %d;" % (k, i, sz - 1, i % 99))
        for i in ix:
            self.emit("(int)da%d_%d[%d] + (int)da%d_%d[0]" % (k, i, sz - 1, k, i))

    def bigarr(self):
        r, k = self.r, self.id()
        n = r.choice([16383, 16384, 65535, 65536, 70000, 300000, 2097152, 3000000, 8400000, 17000000]) + r.randint(0, 3)
        self.st["an array of megabytes"] = 1
        self.top.append("char ba%d[%d]; int bz%d = %d; char bb%d[%d] = { 1, 2, 3 };" % (k, n, k, r.randint(1, 99), k, r.choice([70000, 16384, 2097153])))
        ix = self.some(n, 10) + [x for x in (65535, 65536, 2097151, 2097152) if x < n]
        for i in ix:
            self.main.append("  ba%d[%d] = (char)%d;" % (k, i, i % 127))
        for i in ix:
            self.emit("(int)ba%d[%d] + bz%d * 1000 + (int)bb%d[%d]" % (k, i, k, k, i % 5))

    def longstr(self):
        r, k = self.r, self.id()
        n = count(r, 40000, 60)
        self.st["a long string"] = 1
        s = "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789 \\n\\t\\x"[:36]) for _ in range(n))
        if r.random() < .5:                                   # spelled as adjacent pieces
            w = r.choice([20, 79, 1000])
            lit = "\n".join('"%s"' % s[i:i + w] for i in range(0, n, w))
        else:
            lit = '"%s"' % s
        if r.random() < .5:
            self.top.append("char ls%d[%d] = %s;" % (k, n + 1, lit))
        else:
            self.top.append("char *ls%d = %s;" % (k, lit))
        self.loop_emit(n + 1, "ls%d[i]" % k)
        if r.random() < .5:
            self.main.append("  { const char *lp = %s; emit(%d, (unsigned long long)(lp[0] + lp[%d] * 256 + lp[%d] * 65536)); }" % (lit, self.id(), n - 1, n))

    def codestr(self):
        """many literals in code"""
        r, k = self.r, self.id()
        n = count(r, 1500)
        self.st["many literals in code"] = 1
        self.top.append("const char *cs%d(int n) {\n  switch (n) {\n%s\n  }\n  return \"none\";\n}" % (k, "\n".join('    case %d: return "%s";' % (i, "k%dx" % (i % max(1, n // r.choice([1, 1, 2])))) for i in range(n))))
        self.loop_emit(n + 2, "cs%d(i)[1] + cs%d(i)[2] * 3" % (k, k))

    # ---- functions
    def funs(self):
        r, k = self.r, self.id()
        n = count(r, 3000)
        self.st["many functions"] = 1
        for i in range(n):
            self.top.append("%sint fn%d_%d(int x) { return x * %d + %d; }" % ("static " if i % 3 == 0 else "", k, i, i % 13 + 1, i))
        ix = self.some(n)
        for i in ix:
            self.emit("fn%d_%d(%d)" % (k, i, i % 50))
        if r.random() < .7:
            self.top.append("int (*ft%d[%d])(int);" % (k, n))
            self.main += ["  ft%d[%d] = &fn%d_%d;" % (k, i, k, i) for i in range(n)]
            self.loop_emit(n, "(*ft%d[i])(i)" % k)
        else:
            self.top.append("unsigned fns%d(void) { unsigned s = 1u;\n%s\n return s; }" % (k, "\n".join("  s = s * 3u + (unsigned)fn%d_%d(%d);" % (k, i, i % 9) for i in range(n))))
            self.emit("fns%d()" % k)

    def types(self):
        """many function types, called through pointers"""
        r, k = self.r, self.id()
        n = count(r, 700)
        self.st["many function types"] = 1
        T = ["int", "long long", "float", "double"]
        keep = set(range(n)) if r.random() < .3 else set(self.some(n, 20))
        self.top.append("unsigned tys%d = 1u;" % k)
        for i in range(n):
            ps, x = [], i
            while True:
                ps.append(T[x % 4])
                x = x // 4 - 1
                if x < 0:
                    break
            rt = T[(i * 5 + k) % 4]
            self.top.append("%s ty%d_%d(%s) { return (%s)((int)a0 * 3 + (int)a%d + %d); }" % (rt, k, i, ", ".join("%s a%d" % (t, j) for j, t in enumerate(ps)), rt, len(ps) - 1, i))
            if i not in keep:                   # what nothing refers to isn't linked
                self.main.append("  tys%d = tys%d * 3u + (unsigned)(int)ty%d_%d(%s);" % (k, k, k, i, ", ".join("(%s)%d" % (t, j + 2) for j, t in enumerate(ps))))
            else:
                self.main.append("  { %s (*p)(%s) = &ty%d_%d; emit(%d, (unsigned long long)(int)(*p)(%s)); }"
                                 % (rt, ", ".join(ps), k, i, self.id() & 0xffff, ", ".join("(%s)%d" % (t, j + 2) for j, t in enumerate(ps))))

        self.emit("tys%d" % k)

    def params(self):
        r, k = self.r, self.id()
        n = count(r, 300)
        self.st["many parameters"] = 1
        T = ["int", "long long", "double", "float", "unsigned"]
        ts = [r.choice(T) for _ in range(n)]
        loc = r.choice(["", "  int q = %s;" % " + ".join("(int)a%d" % i for i in self.some(n, 3))])
        self.top.append("long long pm%d(%s) {\n  long long s = 0;\n%s\n%s\n  return s%s;\n}" % (
            k, ", ".join("%s a%d" % (t, i) for i, t in enumerate(ts)), loc,
            "\n".join("  s = s * 3 + (long long)a%d; a%d = a%d + (%s)1;" % (i, i, i, ts[i]) for i in range(n)), " + (long long)q" if loc else ""))
        self.top[-1] = self.top[-1].replace("long long s = 0;", "unsigned long long s = 0;").replace("+ (long long)a", "+ (unsigned long long)(long long)a").replace("return s + (long long)q", "return (long long)s + (long long)q").replace("return s;", "return (long long)s;")
        self.emit("pm%d(%s)" % (k, ", ".join("(%s)%d" % (t, r.randint(0, 200)) for t in ts)))

    def varargs(self):
        r, k = self.r, self.id()
        n = count(r, 400)
        self.st["many variable arguments"] = 1
        ts = [r.choice(["int", "double", "long long"]) for _ in range(n)]
        self.top.append("long long va%d(int n, ...) {\n  unsigned long long s = 0; int i = 0; va_list ap; va_start(ap, n);\n%s\n  va_end(ap); return (long long)s + (long long)i;\n}" % (
            k, "\n".join("  s = s * 3ull + (unsigned long long)(long long)va_arg(ap, %s);" % t for t in ts)))
        self.emit("va%d(%d, %s)" % (k, n, ", ".join("(%s)%d" % (t, r.randint(0, 999)) for t in ts)))
        self.emit("va%d(%d, %s)" % (k, n, ", ".join("(%s)%d" % (t, i) for i, t in enumerate(ts))))

    def locals(self):
        r, k = self.r, self.id()
        n = count(r, 600)
        self.st["many locals"] = 1
        T = ["int", "long long", "double", "float", "unsigned"]
        ts = [r.choice(T) for _ in range(n)]
        b = ["  %s v%d = (%s)(x + %d);" % (t, i, t, i) for i, t in enumerate(ts)]
        b.append("  unsigned long long s = 0;")
        for i in range(n):
            b.append("  s = s * 3ull + (unsigned long long)(long long)v%d;" % i)
            if i % 4 == 0:
                b.append("  v%d = v%d + (%s)x;" % (i, i, ts[i]))
        if r.random() < .5:
            b += ["  { int w%d = x + %d; %s }" % (i, i, "s = s + (unsigned long long)(long long)w%d;" % i) for i in range(count(r, 200))]
        for i in range(0, n, 4):
            b.append("  s = s ^ (unsigned long long)(long long)v%d;" % i)
        self.top.append("unsigned long long lo%d(int x) {\n%s\n  return s;\n}" % (k, "\n".join(b)))
        self.emit("lo%d(%d)" % (k, r.randint(0, 100)))

    def frame(self):
        """big stack frames: arrays and structs as locals, many of them"""
        r, k = self.r, self.id()
        n = count(r, 150)
        sz = r.choice([4, 8, 60, 127, 129, 200])
        self.st["large frames"] = 1
        b = ["  int fa%d[%d];" % (i, sz) for i in range(n)]
        b += ["  int i; unsigned long long s = 0;"]
        b += ["  for (i = 0; i < %d; ++i) fa%d[i] = i * %d + x;" % (sz, i, i + 1) for i in range(n)]
        b += ["  for (i = 0; i < %d; ++i) s = s * 7ull + (unsigned long long)(long long)fa%d[i];" % (sz, i) for i in range(n)]
        rec = "  if (x > 0) s = s + fr%d(x - 1);" % k if n * sz * 4 < 6000 else ""
        self.top.append("unsigned long long fr%d(int x) {\n%s\n%s\n  return s;\n}" % (k, "\n".join(b), rec))
        if n * sz * 4 < 50000:
            self.emit("fr%d(%d)" % (k, r.randint(0, 4)))

    # ---- code
    def cases(self):
        r, k = self.r, self.id()
        n = count(r, 2500)
        st = r.choice([1, 1, 1, 2, 3, 37])
        base = r.choice([0, 0, 1, -5, -n // 2, 1000000])
        self.st["a large switch"] = 1
        vs = [base + i * st for i in range(n)]
        r.shuffle(vs)
        b = []
        for j, v in enumerate(vs):
            b.append("    case %d: r = r * 3u + %du; %s" % (v, j, "" if j % 5 == 2 else "break;"))
        d = r.choice(["", "    default: r = 77u; break;"])
        if b[-1].endswith(" "):
            b[-1] += "break;"
        b.insert(r.choice([0, len(b)]), d)
        self.top.append("unsigned sw%d(int x) {\n  unsigned r = 1u;\n  switch (x) {\n%s\n  }\n  return r;\n}" % (k, "\n".join(x for x in b if x)))
        self.loop_emit(n + 6, "sw%d(%d + i * %d)" % (k, base - 3 * st, st))
        self.emit("sw%d(2147483647)" % k)
        self.emit("sw%d(-2147483647)" % k)

    def nest(self):
        r, k = self.r, self.id()
        n = count(r, 130)
        kind = r.choice(["if", "for", "while", "block", "mix", "do"])
        self.st["deep nesting: " + kind] = 1
        b, e = [], []
        for i in range(n):
            kk = kind if kind != "mix" else r.choice(["if", "for", "while", "block", "do"])
            if kk == "if":
                b.append("if (x != %d) { s = s * 3u + 1u;" % (i * 3)); e.append("s = s + %du; } else { s = s * 5u; }" % i)
            elif kk == "for":
                v = "x + %d" % i
                b.append("for (c%d = 0; c%d < 1; ++c%d) { if (x == %d) break; s = s * 3u + (unsigned)(%s);" % (i, i, i, i * 2 + 1, v)); e.append("if (x == %d) continue; s = s + %du; }" % (i * 2 + 2, i))
            elif kk == "while":
                b.append("c%d = 0; while (c%d < 2) { ++c%d; if (c%d == 2) break; if (x == %d) continue; s = s * 3u + 7u;" % (i, i, i, i, i * 2)); e.append("s = s ^ %du; }" % i)
            elif kk == "do":
                b.append("do { if (x == %d) break; s = s + %du;" % (i * 2, i * 11)); e.append("s = s * 3u; } while (0);")
            else:
                b.append("{ int y%d = x + %d; s = s + (unsigned)y%d;" % (i, i, i)); e.append("s = s * 3u + (unsigned)y%d; }" % i)
        out = ""
        if kind in ("for", "while", "block", "if") and r.random() < .6:
            b.append("if (x == 1000) goto out;")
            b.append("if (x == 1001) return s;")
            out = "s = s + 99u;\n  out:; }"
        self.top.append("unsigned ne%d(int x) {\n  unsigned s = 1u; %s\n%s\n%s\n  %s\n  return s;\n}" % (
            k, "".join("int c%d = 0; " % i for i in range(n)) + ("{" if out else ""), "\n".join(b), "\n".join(reversed(e)), out))
        self.loop_emit(min(n * 3 + 4, 300), "ne%d(i)" % k)
        self.emit("ne%d(1000)" % k)
        self.emit("ne%d(1001)" % k)

    def expr(self):
        r, k = self.r, self.id()
        n = count(r, 900)
        kind = r.choice(["chain", "right", "paren", "cond", "comma", "logic", "call", "unary"])
        self.st["a large expression: " + kind] = 1
        if kind == "chain":
            e = "x" + "".join(" %s %s" % (r.choice("+-^|*"), r.choice(["x", "y", str(i) + "u"])) for i in range(n))
        elif kind == "right":
            n = min(n, 250)
            e = "".join("(%du %s " % (i, r.choice("+-^*")) for i in range(n)) + "x" + ")" * n
        elif kind == "paren":
            n = min(n, 250)
            e = "(" * n + "x + y" + ")" * n
        elif kind == "cond":
            n = min(n, 250)
            e = "".join("x == %du ? y + %du : " % (i, i) for i in range(n)) + "12345u"
        elif kind == "comma":
            e = "(%s, x + y)" % ", ".join("x = x * 3u + %du" % i for i in range(n))
        elif kind == "logic":
            e = "(unsigned)(%s)" % " || ".join("x == %du && y != %du" % (i * 2, i) for i in range(n))
        elif kind == "call":
            n = min(n, 250)
            e = "ex%d_(" % k * n + "x" + ", y)" * n
            self.top.append("unsigned ex%d_(unsigned a, unsigned b) { return a * 3u + b; }" % k)
        else:
            n = min(n, 250)
            e = "".join(r.choice(["~", "- ", "+ "]) for i in range(n)) + "x"
        self.top.append("unsigned ex%d(unsigned x, unsigned y) { return %s; }" % (k, e))
        self.loop_emit(60, "ex%d((unsigned)i, (unsigned)(i * 7))" % k)

    def stmts(self):
        r, k = self.r, self.id()
        n = count(r, 2500)
        self.st["a long function"] = 1
        b = []
        for i in range(n):
            b.append(r.choice(["  s = s * 3u + %du;", "  if (x == %d) s = s + 5u;", "  a[%d & 7] = (int)(s & 255u);", "  x = x ^ %d;", "  s = s + (unsigned)a[%d & 7];"]) % i)
        self.top.append("unsigned sm%d(int x) {\n  unsigned s = 1u; int a[8]; int i; for (i = 0; i < 8; ++i) a[i] = i;\n%s\n  return s;\n}" % (k, "\n".join(b)))
        self.emit("sm%d(%d)" % (k, r.randint(0, n)))

    # ---- front end
    def macros(self):
        r, k = self.r, self.id()
        n = count(r, 2000)
        self.st["many macros"] = 1
        kind = r.choice(["plain", "chain", "params"])
        if kind == "plain":
            for i in range(n):
                self.top.append("#define MA%d_%d %d" % (k, i, i * 7))
            for i in self.some(n):
                self.emit("MA%d_%d" % (k, i))
        elif kind == "chain":
            n = min(n, 120)
            self.top.append("#define MC%d_0 1" % k)
            for i in range(1, n):
                self.top.append("#define MC%d_%d (MC%d_%d + %d)" % (k, i, k, i - 1, i))
            self.emit("MC%d_%d" % (k, n - 1))
        else:
            n = min(n, 120)
            self.top.append("#define MP%d(%s) (%s)" % (k, ", ".join("p%d" % i for i in range(n)), " + ".join("(p%d) * %d" % (i, i + 1) for i in range(n))))
            self.emit("MP%d(%s)" % (k, ", ".join(str(r.randint(0, 99)) for _ in range(n))))

    def enums(self):
        r, k = self.r, self.id()
        n = count(r, 3000)
        self.st["many enumerators"] = 1
        self.top.append("enum en%d { %s };" % (k, ", ".join("EN%d_%d%s" % (k, i, " = %d" % (i * 3) if i % 50 == 7 else "") for i in range(n))))
        for i in self.some(n):
            self.emit("EN%d_%d" % (k, i))

    def members(self):
        r, k = self.r, self.id()
        n = count(r, 600)
        self.st["many members"] = 1
        T = ["char", "short", "int", "long long", "double", "float", "unsigned char"]
        ts = [r.choice(T) for _ in range(n)]
        self.top.append("struct sm%d { %s };" % (k, " ".join("%s m%d;" % (t, i) for i, t in enumerate(ts))))
        self.top.append("struct sm%d sv%d = { %s }; struct sm%d sw%d_[3];" % (k, k, ", ".join(str(i % 100) for i in range(n)), k, k))
        self.emit("sizeof(struct sm%d)" % k)
        for i in self.some(n):
            self.emit("offsetof(struct sm%d, m%d)" % (k, i))
            self.emit("(int)sv%d.m%d" % (k, i))
        self.main.append("  sw%d_[2] = sv%d; sw%d_[1] = sw%d_[2];" % (k, k, k, k))
        for i in self.some(n):
            self.emit("(int)sw%d_[1].m%d + (int)sw%d_[0].m%d" % (k, i, k, i))

    def typenest(self):
        r, k = self.r, self.id()
        n = count(r, 60)
        self.st["deeply nested types"] = 1
        self.top.append("struct tn%d_0 { int x; char c; };" % k)
        for i in range(1, n):
            self.top.append("struct tn%d_%d { char c%d; struct tn%d_%d s; };" % (k, i, i, k, i - 1))
        self.top.append("struct tn%d_%d tv%d;" % (k, n - 1, k))
        path = "tv%d" % k + ".s" * (n - 1)
        self.main.append("  %s.x = 1234; %s.c = 'q';" % (path, path))
        self.emit("%s.x * 256 + (int)%s.c" % (path, path))
        self.emit("sizeof(struct tn%d_%d)" % (k, n - 1))
        m = r.randint(1, 40)
        dims = [r.choice([1, 2, 3]) for _ in range(r.randint(2, 7))]
        self.top.append("short dm%d%s;" % (k, "".join("[%d]" % d for d in dims)))
        ix = "".join("[%d]" % r.randrange(d) for d in dims)
        self.main.append("  dm%d%s = (short)%d;" % (k, ix, m))
        self.emit("(int)dm%d%s + (int)sizeof(dm%d) * 100" % (k, ix, k))

    def idents(self):
        r, k = self.r, self.id()
        n = count(r, 2000, 60)
        self.st["long identifiers"] = 1
        a = "v" + "".join(r.choice("abcdefgh_XYZ019") for _ in range(n))
        names = [a + x for x in ("a", "b", "aa", "ab")] + [a[:-1], a[:-2] + "qq"]
        names = list(dict.fromkeys("%s%d" % (x, k) for x in names))
        for i, x in enumerate(names):
            self.top.append("int %s = %d;" % (x, i + 3))
            self.top.append("int f%s(int %s_) { return %s_ + %d; }" % (x, x, x, i * 10))
        for x in names:
            self.emit("%s * 1000 + f%s(%s)" % (x, x, x))

    def typedefs(self):
        r, k = self.r, self.id()
        n = count(r, 1200)
        self.st["many typedefs"] = 1
        self.top.append("typedef short td%d_0;" % k)
        chain = r.random() < .5 and n < 300
        for i in range(1, n):
            self.top.append("typedef %s td%d_%d;" % ("td%d_%d" % (k, i - 1) if chain else ["char", "int", "long long", "short"][i % 4], k, i))
        for i in self.some(n, 10):
            self.emit("sizeof(td%d_%d)" % (k, i))

    def layout(self):
        """long lines, comments, blank space"""
        r = self.r
        self.st["long lines and comments"] = 1
        n = count(r, 60000)
        self.top.append(r.choice(["/*%s*/" % ("x" * n), "//%s" % ("y" * n), " " * n, "\n" * min(n, 3000), "/*%s*/" % ("*\n" * min(n, 3000)), "/*" + "/ " * n + "*/"]))
        k = self.id()
        self.top.append("int ly%d =%s %d;" % (k, " " * count(r, 40000), k))
        self.emit("ly%d" % k)


KINDS = [k for k in ("strtab ptrtab globs gdata bigarr longstr codestr funs types params varargs locals frame cases nest expr stmts macros enums "
                     "members typenest idents typedefs layout").split()]


def gen_big_program(r, stats=None, only=None):
    b = Big(r, stats if stats is not None else {})
    for k in only or r.sample(KINDS, r.choice([1, 1, 2, 3])):
        getattr(b, k)()
    return PRELUDE + "\n".join(b.top) + "\nint main(void) { int i = 0;\n" + "\n".join(b.main) + "\n  put_(); return i & 0; }\n"
