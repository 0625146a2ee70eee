"""C19, C20: printf family against a Python model of the C conversions."""
import math, re, struct
from fractions import Fraction
from .drv import *

CALL = r'''
static int c%(fn)s_(int shape, const char *f) { int w = 0, p = 0, r = 0; const char *s; long long q; double d;
  if ((shape & 1) != 0) w = (int)g32_();
  if ((shape & 2) != 0) p = (int)g32_();
  switch (shape >> 2) {
    case 0: { int v = (int)g32_(); switch (shape & 3) { case 0: { r = %(fn)s(%(pre)sf, v); } break; case 1: { r = %(fn)s(%(pre)sf, w, v); } break; case 2: { r = %(fn)s(%(pre)sf, p, v); } break; default: { r = %(fn)s(%(pre)sf, w, p, v); } break; } } break;
    case 1: { long v = (long)g32_(); switch (shape & 3) { case 0: { r = %(fn)s(%(pre)sf, v); } break; case 1: { r = %(fn)s(%(pre)sf, w, v); } break; case 2: { r = %(fn)s(%(pre)sf, p, v); } break; default: { r = %(fn)s(%(pre)sf, w, p, v); } break; } } break;
    case 2: { q = (long long)g64_(); switch (shape & 3) { case 0: { r = %(fn)s(%(pre)sf, q); } break; case 1: { r = %(fn)s(%(pre)sf, w, q); } break; case 2: { r = %(fn)s(%(pre)sf, p, q); } break; default: { r = %(fn)s(%(pre)sf, w, p, q); } break; } } break;
    case 3: { d = gd_(); switch (shape & 3) { case 0: { r = %(fn)s(%(pre)sf, d); } break; case 1: { r = %(fn)s(%(pre)sf, w, d); } break; case 2: { r = %(fn)s(%(pre)sf, p, d); } break; default: { r = %(fn)s(%(pre)sf, w, p, d); } break; } } break;
    case 4: { s = gz_(); switch (shape & 3) { case 0: { r = %(fn)s(%(pre)sf, s); } break; case 1: { r = %(fn)s(%(pre)sf, w, s); } break; case 2: { r = %(fn)s(%(pre)sf, p, s); } break; default: { r = %(fn)s(%(pre)sf, w, p, s); } break; } } break;
    case 5: { int a = (int)g32_(); s = gz_(); q = (long long)g64_(); d = gd_(); r = %(fn)s(%(pre)sf, a, s, q, d); } break;
    case 6: { q = (long long)g64_(); d = gd_(); s = gz_(); { int a = (int)g32_(); r = %(fn)s(%(pre)sf, q, d, s, a); } } break;
    case 7: { d = gd_(); { unsigned long a = (unsigned long)g32_(); int b = (int)g32_(); s = gz_(); { const char *t = gz_(); r = %(fn)s(%(pre)sf, d, a, b, s, t); } } } break;
    case 8: { int a[9], i; for (i = 0; i < 9; ++i) a[i] = (int)g32_(); r = %(fn)s(%(pre)sf, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); } break;
    default: { r = %(fn)s(%(pre)sf); } break;
  } return r; }
'''

SRC = HEAD + GZ + r'''
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
static char b_[2200]; static size_t n_; static FILE *fp_[1];
static int vsn_(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(&b_[8], n_, f, ap); va_end(ap); return r; }
static int vs_(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsprintf(&b_[8], f, ap); va_end(ap); return r; }
static int vf_(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vfprintf(stdout, f, ap); va_end(ap); return r; }
static int vp_(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vprintf(f, ap); va_end(ap); return r; }
''' + "".join(CALL % {"fn": f, "pre": p} for f, p in [("snprintf", "&b_[8], n_, "), ("sprintf", "&b_[8], "), ("fprintf", "stdout, "), ("printf", ""), ("vsn_", ""), ("vs_", ""), ("vf_", ""), ("vp_", "")]) + r'''
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), shape = g8_(), r, i, m; char *f;
    n_ = (size_t)g16_(); f = gz_();
    if (k == 2 || k == 3 || k == 6 || k == 7) { oc_(60); flush_(); 
      switch (k) { case 2: { r = cfprintf_(shape, f); } break; case 3: { r = cprintf_(shape, f); } break; case 6: { r = cvf__(shape, f); } break; default: { r = cvp__(shape, f); } break; }
      fflush(stdout); oc_(62); oi_(r); nl_(); continue; }
    if (k == 8) { r = shape == 0 ? 0 : 0; r = snprintf(NULL, (size_t)0, f, (int)g32_()); oi_(r); nl_(); continue; }
    memset(&b_[0], 165, (size_t)2200);
    switch (k) { case 0: { r = csnprintf_(shape, f); } break; case 1: { r = csprintf_(shape, f); } break; case 4: { r = cvsn__(shape, f); } break; default: { r = cvs__(shape, f); } break; }
    oi_(r);
    m = (int)n_; for (i = 0; i < m && b_[8 + i] != 0; ++i) ; ob_(&b_[8], i); if (i < m) ++i;
    { int bad = 0, j; for (j = 0; j < 8; ++j) if ((unsigned char)b_[j] != 165) bad = bad + 1; for (j = 8 + i; j < 2200; ++j) if ((unsigned char)b_[j] != 165) bad = bad + 1; oi_(bad); }
    nl_();
  }
  flush_(); return 0;
}
'''


def pad(body, flags, width, zero_ok=True, npfx=0):
    n = width - len(body)
    if n <= 0:
        return body
    if "-" in flags:
        return body + " " * n
    if "0" in flags and zero_ok:
        return body[:npfx] + "0" * n + body[npfx:]
    return " " * n + body


def m_int(flags, width, prec, conv, bits, v):
    """conv in diuxXob; v already reduced to bits"""
    if conv in "di":
        v = v - (1 << bits) if v >> (bits - 1) else v
        sign = "-" if v < 0 else "+" if "+" in flags else " " if " " in flags else ""
        d = str(abs(v))
    else:
        sign = ""
        d = {"u": "%d", "x": "%x", "X": "%X", "o": "%o"}[conv] % v if conv != "b" else bin(v)[2:]
    if prec == 0 and v == 0:
        d = ""
    if prec is not None:
        d = d.rjust(prec, "0")
    pfx = sign
    if "#" in flags:
        if conv == "o" and not d.startswith("0"):
            d = "0" + d
        if conv in "xXb" and v:
            pfx += "0" + conv
    return pad(pfx + d, flags, width, prec is None, len(pfx))


def m_float(flags, width, prec, conv, v):
    """the model of a/e/f/g with the library's documented departures: %f beyond 1e9 prints as %e, its digits after the ninth are zeros,
    %g keeps trailing zeros. Returns a string, or a callable for the conversions with freedom."""
    up = conv.isupper()
    c = conv.lower()
    neg = math.copysign(1, v) < 0
    sign = "-" if neg else "+" if "+" in flags else " " if " " in flags else ""
    a = abs(v)
    if v != v:
        n = "NAN" if up else "nan"
        opts = {pad(s + n, flags, width, False) for s in ("", "-", "+", " ")}
        return lambda s: s in opts
    if a == math.inf:
        return pad(sign + ("INF" if up else "inf"), flags, width, False)
    h = "#" if "#" in flags else ""
    p = 6 if prec is None else prec
    if c == "a":
        def ok(s):
            m = re.fullmatch(r"( *)(" + re.escape(sign) + r")0([xX])(0*)([0-9a-fA-F](\.[0-9a-fA-F]*)?)([pP])([-+]\d+)( *)", s)
            if not m:
                return False
            if m.group(2) != sign or (m.group(3) == "X") != up or (m.group(7) == "P") != up or (any(x.islower() for x in m.group(5)) if up else any(x.isupper() for x in m.group(5))):
                return False
            z = m.group(4)
            if len(s) < width or (len(s) > width and (m.group(1) or m.group(9) or z)) or (m.group(9) and "-" not in flags) or (m.group(1) and ("-" in flags or "0" in flags)) or (z and ("0" not in flags or "-" in flags)):
                return False
            frac = m.group(6)
            if (prec is not None and (len(frac) - 1 if frac else 0) != prec) or ((frac is not None) != (bool(h) or bool(frac and len(frac) > 1))):
                return False
            hx = m.group(5).replace(".", "")
            k = int(m.group(8)) - 4 * (len(hx) - 1)
            got = Fraction(int(hx, 16)) * (Fraction(2) ** k)
            if prec is None or prec >= 13:
                return got == Fraction(a)
            m0, e = math.frexp(a)
            if a == 0:
                return got == 0
            if a < 2.0 ** -1022:
                e = -1021
            unit = 4 * prec
            num, den = a.as_integer_ratio()
            # round a / 2^(e-1-unit) half to even
            k = e - 1 - unit
            if k >= 0:
                den <<= k
            else:
                num <<= -k
            q, rr = divmod(num, den)
            if 2 * rr > den or (2 * rr == den and q & 1):
                q += 1
            return got == q * Fraction(2) ** k
        return ok
    if c == "f":
        if a > 1e9:
            c = "e"
        elif p > 9:
            body = ("%.9f" % a) + "0" * (p - 9)
            return pad(sign + body, flags, width, True, len(sign))
        else:
            return pad(sign + ("%" + h + ".*f") % (p, a), flags, width, True, len(sign))
    if c == "e":
        body = ("%" + h + ".*e") % (p, a)
    else:
        body = "%#.*g" % (p, a)
        if not h:
            m = re.fullmatch(r"(\d+)\.(\d*)(.*)", body)
            if m.group(2) == "":
                body = m.group(1) + m.group(3)
    if up:
        body = body.upper()
    return pad(sign + body, flags, width, True, len(sign))


def m_str(flags, width, prec, s):
    return pad(s[:prec] if prec is not None else s, flags, width, False)


INTERESTING = [0, 1, 2, 7, 8, 9, 10, 15, 16, 42, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, -1, -2, -42, -128, -129, -32768, -32769, -2**31, -2**31 + 1, -2**63]


def rint(r):
    k = r.random()
    if k < .4:
        return r.choice(INTERESTING)
    v = r.getrandbits(r.randint(1, 64))
    return -v if r.random() < .3 else v


def rdouble(r):
    k = r.random()
    if k < .1:
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 0.1, 9.5, 99.5, 999999.5, 9.9999995, 1e-5, 1e-4, 9.9999e-5, 0.00099999995, 123456.5, 1e6, 999999.4999, 1e9, 1e9 + 1, 999999999.5,
                         math.inf, -math.inf, math.nan, 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, 1e22, 1e23, 2.0**53, 0.3, 1 / 3])
    if k < .2:
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    if k < .45:
        return r.choice([1, -1]) * r.randint(0, 10 ** r.randint(1, 12)) / 10 ** r.randint(0, 9)
    if k < .6:
        return r.choice([1, -1]) * r.randint(0, 4000) / 2 ** r.randint(0, 10)
    if k < .8:
        return r.choice([1, -1]) * r.uniform(0, 10) * 10.0 ** r.randint(-12, 14)
    if k < .9:     # near a power of ten
        return math.nextafter(10.0 ** r.randint(-10, 12), r.choice([0, math.inf]))
    return r.choice([1, -1]) * r.random() * 10.0 ** r.randint(-320, 300)


TXT = "abcXYZ 0123.,:;/=+-(){}[]!?_"


def text(r, n):
    return "".join(r.choice(TXT) for _ in range(r.randint(0, n)))


def wstr(r, n):
    return "".join(chr(r.choice([r.randint(33, 126), r.randint(33, 126), r.randint(0xa1, 0xff)])) for _ in range(r.randint(0, n)))


class Spec:
    """one conversion: text of the format, argument writers, expected string or matcher"""


def spec(r, kind, w=None, arg=None, star=True):
    """kind: i(int) l(long) q(long long) d(double) s(string). Returns (format text, star mask, star values, writer(w), expected)"""
    flags = "".join(f for f in "-+ #0" if r.random() < .22)
    fl = list(flags)
    r.shuffle(fl)
    if fl and r.random() < .1:
        fl.append(fl[0])
    width, prec = 0, None
    mask, ws, stars = 0, "", []
    k = r.random()
    if k < .55:
        width = r.choice([1, 2, 3, 5, 8, 10, 12, 16, 20, r.randint(1, 45), r.randint(1, 45), r.randint(45, 300) if r.random() < .2 else 4])
        if star and r.random() < .25:
            mask |= 1
            ws = "*"
            if r.random() < .3:
                stars.append(-width)
                flags += "-"
            else:
                stars.append(width)
        else:
            ws = str(width)
    k = r.random()
    ps = ""
    if k < .5:
        prec = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 13, 15, 17, r.randint(0, 40), r.randint(0, 40), r.randint(40, 400) if r.random() < .2 else 2])
        if star and r.random() < .25:
            mask |= 2
            ps = ".*"
            if r.random() < .25:
                stars.append(-r.randint(1, 5))
                prec = None
            else:
                stars.append(prec)
        elif prec == 0 and r.random() < .5:
            ps = "."
        else:
            ps = "." + str(prec)
    if kind in "ilq":
        v = rint(r)
        if kind == "i":
            ln, bits = r.choice([("", 32), ("", 32), ("", 32), ("h", 16), ("hh", 8)])
        elif kind == "l":
            ln, bits = r.choice([("l", 32), ("z", 32), ("t", 32)])
        else:
            ln, bits = r.choice([("ll", 64), ("ll", 64), ("j", 64)])
        if kind == "i" and ln == "" and r.random() < .12:
            c = r.randint(33, 126)
            f2 = "".join(x for x in fl if x == "-")
            return "%" + f2 + ws + "c", mask & 1, stars[:1] if mask & 1 else [], lambda w: w.u32(c), pad(chr(c), flags, width, False)
        conv = r.choice("ddiuuxXob")
        u = v & ((1 << bits) - 1)
        exp = m_int(flags, width, prec, conv, bits, u)
        return "%" + "".join(fl) + ws + ps + ln + conv, mask, stars, (lambda w: w.u64(v)) if kind == "q" else (lambda w: w.u32(v)), exp
    if kind == "d":
        conv = r.choice("fFeEgGaAfeg")
        v = rdouble(r) if arg is None else arg
        return "%" + "".join(fl) + ws + ps + conv, mask, stars, lambda w: w.d(v), m_float(flags, width, prec, conv, v)
    s = wstr(r, r.choice([0, 1, 3, 10, 40]))
    fl = [x for x in fl if x == "-"]
    if prec is not None and len(s) > prec and r.random() < .7:
        pass
    return "%" + "".join(fl) + ws + ps + "s", mask, stars, lambda w: w.z(s.encode("latin1")), m_str(flags if "-" in flags else "", width, prec, s)


KINDS = "ilqds"


def command(r, w, floats):
    """append one command; returns (checker, description)"""
    entry = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])
    pieces, stars, args = [], [], []
    t0, t1 = text(r, 6), text(r, 6)
    pct = r.random() < .1
    k = r.random()
    if k < (.8 if floats else .75):
        kind = "d" if floats else r.choice("ilqqiils")
        f, mask, stars, wr, exp = spec(r, kind)
        fmt = t0 + f + t1
        parts = [t0, exp, t1]
        shape = KINDS.index(kind) << 2 | mask
        args = [wr]
    elif k < .97:
        shape0, kinds = r.choice([(5, "isqd"), (6, "qdsi"), (7, "dliss"), (8, "iiiiiiiii")])
        if floats and shape0 == 8:
            shape0, kinds = 5, "isqd"
        fmt, parts = t0, [t0]
        for kd in kinds:
            f, mask, st, wr, exp = spec(r, kd, star=False)
            sep = text(r, 3)
            fmt += f + sep
            parts += [exp, sep]
            args.append(wr)
        shape = shape0 << 2
    else:
        fmt, parts, shape = t0 + "%%" + t1, [t0, "%", t1], 9 << 2
    if pct and k < .97:
        fmt += "%%"
        parts.append("%")
    full = None
    if all(isinstance(p, str) for p in parts):
        full = "".join(parts)
        L = len(full)
    n = 2000
    if entry in (0, 4) and r.random() < .5:
        n = r.choice([0, 1, 2, 5, r.randint(0, 60), (L + r.randint(-1, 2)) if full is not None else 2000])
        n = max(0, min(n, 2000))
    if full is None:
        if entry in (0, 4):
            n = 2000
    elif len(full) > 1900:
        n = 2000
    if entry in (1, 5):
        n = 2000
    w.u8(entry, shape).u16(n).z(fmt.encode("latin1"))
    for s in stars:
        w.u32(s)
    for a in args:
        a(w)
    d = "%s(%r) with %d-byte buffer" % (["snprintf", "sprintf", "fprintf", "printf", "vsnprintf", "vsprintf", "vfprintf", "vprintf"][entry], fmt, n)

    def same(got):
        """does got match parts?"""
        if full is not None:
            return got == full
        i, j = 0, len(got)
        ps = list(parts)
        while ps and isinstance(ps[0], str):
            if not got.startswith(ps[0], i):
                return False
            i += len(ps.pop(0))
        while ps and isinstance(ps[-1], str):
            if not got.endswith(ps[-1], i, j) and ps[-1]:
                return False
            j -= len(ps.pop())
        if len(ps) == 1:
            return ps[0](got[i:j])
        # several matchers: try splits (rare, short)
        def go(i, k):
            if k == len(ps):
                return i == j
            p = ps[k]
            if isinstance(p, str):
                return got.startswith(p, i) and go(i + len(p), k + 1)
            return any(p(got[i:e]) and go(e, k + 1) for e in range(i + 3, j + 1))
        return go(i, 0)
    want = full if full is not None else "/".join(p if isinstance(p, str) else "<float>" for p in parts)

    if entry in (2, 3, 6, 7):
        def chk(g):
            m = re.fullmatch(r"<(.*)>([0-9a-f]+)", g, re.S)
            if not m:
                return "bad line %r" % g
            if not same(m.group(1)):
                return ("text", "wrote %r, expected %r" % (m.group(1), want))
            if int(m.group(2), 16) != len(m.group(1)):
                return ("count", "returned %s for %d characters" % (m.group(2), len(m.group(1))))
    else:
        def chk(g):
            f = g.split()
            if len(f) == 2:
                f.insert(1, "")
            ret, s, bad = int(f[0], 16), bytes.fromhex(f[1]).decode("latin1"), f[2]
            if bad != "0":
                return ("guard", "%s bytes outside of the result changed" % bad)
            if full is not None:
                if ret != len(full):
                    return ("count", "returned %d, expected %d (%r)" % (ret, len(full), full))
                e = full[:n - 1] if n else ""
                return None if s == e else ("text", "wrote %r, expected %r" % (s, e))
            if not same(s):
                return ("text", "wrote %r, expected %r" % (s, want))
            return None if ret == len(s) else ("count", "returned %d for %d characters" % (ret, len(s)))
    return chk, d


def run(ctx, floats, jobs, per):
    ctx.tree.build()
    mod = build(ctx, "fmtdrv", SRC)

    def job(i):
        r = ctx.rng("f", i)
        w, exp, desc = W(), [], []
        for _ in range(per):
            c, d = command(r, w, floats)
            exp.append(c)
            desc.append(d)
        x = session(ctx, mod, w, exp, "printf", lambda i: desc[i], "fmtdrv", SRC)
        if i < 2:
            x["samples"] = [{"commands": desc[:15]}]
        x["sets"] = {"distinct_formats": set(d.split("'")[1] if "'" in d else d for d in desc)}
        return x
    ctx.pmap(job, range(jobs))


def c19(ctx):
    ctx.cov["rule"] = ("random formats (all flags, widths, precisions, '*', length modifiers, d i u x X o b c s %, several conversions per call, truncating buffers) through the eight functions of the family; text, return "
                       "value and untouched bytes are compared with a Python model; evaluations = calls")
    run(ctx, False, ctx.n(1000, 20000), 250)


def c20(ctx):
    ctx.cov["rule"] = ("random formats for f F e E g G a A with random doubles (exact decimals and ties, powers of ten and neighbours, random bits, subnormals, infinities, nan, -0) through the eight functions of the family; "
                       "text and return value are compared with exactly rounded decimals; evaluations = calls")
    run(ctx, True, ctx.n(1000, 20000), 150)


CHECKS = {"C19": c19, "C20": c20}
