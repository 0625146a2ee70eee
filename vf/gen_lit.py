"""Literals: integer, floating, character and string literals of every spelling, in code and in initializers,
against the value the reference gives (or that the generator knows)."""
import struct
from .cgen import *


def dbits(r):
    k = r.random()
    if k < .15:
        return r.getrandbits(63)
    if k < .3:
        return r.randint(0, 0xfffffffffffff)                    # subnormal
    if k < .45:
        return (r.randint(1, 2046) << 52) | r.choice([0, 1, 0xfffffffffffff, 1 << r.randint(0, 51)])
    if k < .7:
        return (r.randint(1023 - 70, 1023 + 70) << 52) | r.getrandbits(52)
    return struct.unpack("<Q", struct.pack("<d", r.choice([0.0, 1.0, 0.1, 1e22, 1e23, 123456.789, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.0 ** r.randint(-60, 60), r.randint(0, 10 ** 9) / 1000.0])))[0]


def dlit(r):
    """(text, value bits) of a non-negative finite double literal"""
    while True:
        b = dbits(r)
        d = struct.unpack("<d", struct.pack("<Q", b))[0]
        if d == d and d != float("inf"):
            break
    k = r.randint(0, 6)
    if k == 0:
        s = "%.17e" % d
    elif k == 1:
        s = repr(d)
    elif k == 2:
        s = d.hex()
    elif k == 3:
        s = "%.*e" % (r.choice([17, 20, 25]), d)
    elif k == 4:
        s = ("%.17e" % d).upper().replace("E+", r.choice(["E", "E+"]))
    elif k == 5 and 1e-6 < d < 1e15:
        s = "%.25f" % d
    elif k == 6 and 1e-3 < d < 1e6:
        s = r.choice([".5", "3.", "1e3", "1E-2", "0.0", "00.5", "007.25", "1.e1", "0x1p4", "0x.8p1", "0x1.8P-3", "0X1.0p0", "123456789012345678901234567890.0", "0.000000000000000000000000000001"])
    else:
        s = repr(d)
    if not any(c in s for c in ".eEpPxX"):
        s += ".0"
    return s


def ilit(r):
    t = r.choice([SI, UI, SLL, ULL, SI, UI])
    mx = {SI: 2 ** 31 - 1, UI: 2 ** 32 - 1, SLL: 2 ** 63 - 1, ULL: 2 ** 64 - 1}[t]
    v = r.choice([0, 1, mx, mx - 1, mx >> r.randint(0, 63), r.randint(0, mx), 1 << r.randint(0, mx.bit_length() - 1), 1 << (mx.bit_length() - 1), 8, 9, 10, 255])
    v &= mx
    if t in (SI, SLL) and r.random() < .25:                     # negative ones, down to the least
        l = "LL" if t == SLL else ""
        if r.random() < .4:
            return r.choice(["(-%d%s - 1%s)" % (mx, l, l), "(~%d%s)" % (mx, l)]), t
        return "(-%d%s)" % (v, l), t
    base = r.choice(["%d", "0x%x", "0X%X", "0%o", "0x%016x" if t in (SLL, ULL) else "0x%08X"])
    s = base % v
    if s == "00":
        s = "0"
    # decimal unsuffixed ints stay within int
    suf = {SI: [""], UI: ["u", "U"], SLL: ["ll", "LL"], ULL: ["ull", "ULL", "uLL", "llu", "LLU"]}[t]
    return s + r.choice(suf[:2] if t == ULL and r.random() < .8 else suf), t


ESC = [("\\n", 10), ("\\t", 9), ("\\r", 13), ("\\a", 7), ("\\b", 8), ("\\f", 12), ("\\v", 11), ("\\\\", 92), ("\\'", 39), ("\\\"", 34), ("\\?", 63), ("\\0", 0)]


def clit(r):
    k = r.random()
    if k < .4:
        c = chr(r.randint(32, 126))
        if c in "'\\":
            c = "\\" + c
        return "'%s'" % c
    if k < .7:
        return "'%s'" % r.choice(ESC)[0]
    if k < .85:
        return "'\\x%x'" % r.randint(0, 255)
    return "'\\%o'" % r.randint(0, 255)


def sbody(r, n, wide=False):
    """string body (list of pieces that cannot run together)"""
    out = []
    last_hex = last_oct = False
    for _ in range(n):
        k = r.random()
        if k < .6:
            c = chr(r.randint(32, 126))
            if last_hex and c in "0123456789abcdefABCDEF":
                c = "g"
            if last_oct and c in "01234567":
                c = "z"
            if c in "\"\\":
                c = "\\" + c
            if c == "?":
                c = "!"
            out.append(c)
            last_hex = last_oct = False
        elif k < .75:
            out.append(r.choice(ESC[:-1])[0])
            last_hex = last_oct = False
        elif k < .85:
            out.append("\\x%x" % r.randint(1, 255))
            last_hex, last_oct = True, False
        elif k < .93:
            out.append("\\%o" % r.randint(1, 255))
            last_hex, last_oct = False, True
        elif k < .96:
            out.append(r.choice("\u00e9\u20ac\u03b1\u07ff\u0800\ud7ff\ue000\U0001f600\U0010ffff"))
            last_hex = last_oct = False
        else:
            out.append("\\u%04x" % r.choice([0xe9, 0x20ac, 0x3b1, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffef]))
            last_hex = True     # keep hex digits away
            last_oct = False
    return "".join(out)


def gen_lit_program(rng, stats=None):
    r = rng
    st = stats if stats is not None else {}

    def note(k):
        st[k] = st.get(k, 0) + 1
    L = [PRELUDE]
    B = []
    n = [0]

    def ob(s, t):
        n[0] += 1
        B.append("  " + emit_stmt(str(n[0]), X(s, t)))
    for i in range(r.randint(1, 4)):                            # mostly zero data: an odd byte anywhere
        note("sparse")
        t = r.choice([CHAR, UC, SS, US, SI, UI, SLL, ULL])
        m = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 64])
        w = {CHAR: 8, UC: 8, SS: 16, US: 16, SI: 32, UI: 32, SLL: 64, ULL: 64}[t]
        v = [0] * m
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            b = 1 << (r.choice([0, w - 2, w - 8, r.randrange(w - 1)]))
            v[r.choice([0, m - 1, m - 1, r.randrange(m)])] = b
        L.append("static %s%s sp%d[%d] = { %s };" % (r.choice(["", "", "const "]), TN[t], i, m, ", ".join("%d%s" % (x, {SLL: "ll", ULL: "ull", UI: "u"}.get(t, "")) for x in v)))
        B.append("  for (i = 0; i < %d; ++i) %s" % (m, emit_stmt(str(700 + i), X("sp%d[i]" % i, t))))
    for i in range(r.randint(20, 50)):
        k = r.randint(0, 10)
        neg = r.choice(["", "", "-"])
        if k <= 2:
            s = neg + dlit(r)
            p = r.randint(0, 3)
            note("d%d" % p)
            if p == 0:
                ob("(%s)" % s, D)
            elif p == 1:
                L.append("static double gd%d = %s;" % (i, s))
                ob("gd%d" % i, D)
            elif p == 2:
                L.append("static double ad%d[3] = { 1.0, %s, %s };" % (i, s, neg + dlit(r)))
                ob("ad%d[1]" % i, D)
                ob("ad%d[2]" % i, D)
            else:
                B.append("  { double x; x = %s; %s }" % (s, emit_stmt(str(500 + i), X("x", D))))
        elif k <= 4:
            f = struct.unpack("<f", struct.pack("<I", r.choice([r.getrandbits(31), r.randint(0, 0x7fffff), (r.randint(100, 160) << 23) | r.getrandbits(23)])))[0]
            if f != f or f == float("inf"):
                f = 1.5
            s = neg + r.choice([repr(f), "%.9e" % f, f.hex()])
            if not any(c in s for c in ".epx"):
                s += ".0"
            s += r.choice("fF")
            p = r.randint(0, 2)
            note("f%d" % p)
            if p == 0:
                ob("(%s)" % s, F)
            elif p == 1:
                L.append("static float gf%d = %s;" % (i, s))
                ob("gf%d" % i, F)
            else:
                L.append("static float af%d[2] = { 0.5f, %s };" % (i, s))
                ob("af%d[1]" % i, F)
        elif k <= 6:
            s, t = ilit(r)
            p = r.randint(0, 2)
            note("i%d.%d" % (t, p))
            if p == 0:
                ob("(%s%s)" % (neg if t != SI or True else "", s), t)
            elif p == 1:
                L.append("static %s gi%d = %s;" % (TN[t], i, s))
                ob("gi%d" % i, t)
            else:
                L.append("static %s ai%d[2] = { %s, %s };" % (TN[t], i, s, s))
                ob("ai%d[1]" % i, t)
        elif k == 7:
            note("char")
            ob(clit(r), SI)
            L.append("static char gc%d = %s;" % (i, clit(r)))
            ob("gc%d" % i, CHAR)
        elif k == 10:
            note("wide string")
            b = [sbody(r, r.randint(0, 9), True) for _ in range(r.randint(1, 2))]
            s = " ".join('L"%s"' % x for x in b)
            ob("(int)sizeof(%s)" % s, SI)
            if r.random() < .5:
                L.append("static int gs%d[] = %s;" % (i, s))
                ob("(int)sizeof(gs%d)" % i, SI)
                B.append("  for (i = 0; i < (int)(sizeof(gs%d) / sizeof(int)); ++i) %s" % (i, emit_stmt(str(600 + i), X("gs%d[i]" % i, SI))))
            else:
                B.append("  { int *s = (int *)%s; for (i = 0; s[i] != 0; ++i) %s }" % (s, emit_stmt(str(600 + i), X("s[i]", SI))))
        else:
            note("string")
            b = [sbody(r, r.randint(0, 12)) for _ in range(r.randint(1, 3))]
            s = r.choice([" ", "\n  "]).join('"%s"' % x for x in b)
            p = r.randint(0, 2)
            if r.random() < .5:
                ob("(int)sizeof(%s)" % s, SI)
            if p == 0:
                L.append("static char gs%d[] = %s;" % (i, s))
                ob("(int)sizeof(gs%d)" % i, SI)
                B.append("  for (i = 0; i < (int)sizeof(gs%d); ++i) %s" % (i, emit_stmt(str(600 + i), X("gs%d[i]" % i, CHAR))))
            elif p == 1:
                L.append("static const char *gp%d = %s;" % (i, s))
                B.append("  for (i = 0; gp%d[i] != 0; ++i) %s" % (i, emit_stmt(str(600 + i), X("gp%d[i]" % i, CHAR))))
            else:
                B.append("  { const char *s = %s; for (i = 0; s[i] != 0; ++i) %s }" % (s, emit_stmt(str(600 + i), X("s[i]", CHAR))))
    L.append("int main(void) { int i;")
    L += B
    L.append("  put_(); return 0; }")
    return "\n".join(L) + "\n"


def gen_litaddr_program(rng, stats=None):
    """Narrow and wide string literals whose bytes coincide, in any order: each keeps its bytes and its alignment,
    whatever the linker merges."""
    r = rng
    L, B, k = [PRELUDE], [], 0
    pool = []
    for _ in range(r.randint(2, 5)):
        pool.append([r.choice([97, 98, 0x41, 1, 255, 256, 0x20ac, 0x10000, r.randint(1, 0x7fff)]) for _ in range(r.randint(0, 3))])
    fns = []
    for i in range(r.randint(6, 16)):
        w = r.choice(pool)
        z = r.random()
        if z < .35:
            t, s = "int", 'L"%s"' % "".join("\\x%x" % c if c > 255 or r.random() < .3 else "\\%03o" % c for c in w)
            if any(c > 0x10ffff for c in w):
                continue
            vals = w + [0]
        elif z < .7:
            by = [b for c in w + [0] for b in c.to_bytes(4, "little")]
            if r.random() < .5:
                by = by[:r.randint(0, len(by))]
            if r.random() < .8 and by:
                by = by[:-1]                                    # the terminator supplies the last zero
            t, s = "char", '"%s"' % "".join("\\%03o" % b for b in by)
            vals = [b - 256 if b > 127 else b for b in by] + [0]
        else:
            n = r.randint(0, 6)
            t, s = "char", '"%s"' % "".join(r.choice("xyz") for _ in range(n))
            vals = [ord(c) for c in s[1:-1]] + [0]
        k += 1
        L.append("static const %s *lf%d(void) { return (const %s *)%s; }" % (t, k, t, s))
        fns.append((k, t, vals))
    r.shuffle(fns)
    for k, t, vals in fns:
        B.append("  { const %s *p = lf%d(); for (i = 0; i < %d; ++i) %s }" % (t, k, len(vals), emit_stmt(str(k), X("p[i]", SI if t == "int" else CHAR))))
        if t == "int":
            B.append("  %s" % emit_stmt(str(300 + k), X("(int)((unsigned long)lf%d() %% 4ul)" % k, SI)))
        if stats is not None:
            stats["litaddr:" + t] = 1
    L.append("int main(void) { int i;")
    L += B
    L.append("  put_(); return 0; }")
    return "\n".join(L) + "\n"
