"""C23: math.h against exact values (mpmath) and glibc's libm: exactly defined functions bit for bit, the others within a bound on their distance from the exact value."""
import ctypes, glob, math, struct, sys
from .drv import *

F1 = ["acos", "asin", "atan", "cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "log", "log10", "sqrt", "ceil", "fabs", "floor", "round", "trunc", "nearbyint", "expm1"]
F2 = ["atan2", "pow", "fmod", "copysign", "fmax", "fmin"]
EXACT = {"sqrt", "ceil", "fabs", "floor", "round", "trunc", "nearbyint", "fmod", "copysign", "fmax", "fmin"}

SRC = HEAD + r'''
#include <math.h>
static double p_[3]; static int e_[3];
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(); double x, y;
    x = gd_();
    switch (k) {
''' + "".join("      case %d: { od_(%s(x)); } break;\n" % (i, f) for i, f in enumerate(F1)) + \
    "".join("      case %d: { y = gd_(); od_(%s(x, y)); } break;\n" % (40 + i, f) for i, f in enumerate(F2)) + r'''
      case 60: { e_[0] = 77; e_[1] = 78; e_[2] = 79; od_(frexp(x, &e_[1])); oi_(e_[1]); oi_(e_[0] + e_[2]); } break;
      case 61: { p_[0] = 1.0; p_[2] = 2.0; od_(modf(x, &p_[1])); od_(p_[1]); od_(p_[0] + p_[2]); } break;
      case 62: { int n = (int)g32_(); od_(ldexp(x, n)); od_(scalbn(x, n)); } break;
      case 63: { oi_(fpclassify(x) == FP_NAN ? 0 : fpclassify(x) == FP_INFINITE ? 1 : fpclassify(x) == FP_ZERO ? 2 : fpclassify(x) == FP_SUBNORMAL ? 3 : fpclassify(x) == FP_NORMAL ? 4 : 5);
        oi_(isfinite(x) != 0); oi_(isinf(x) != 0); oi_(isnan(x) != 0); oi_(isnormal(x) != 0); oi_(signbit(x) != 0); } break;
      default: oc_(63);
    }
    nl_();
  }
  flush_(); return 0;
}
'''

_lm = None


def lm(name, n):
    global _lm
    if _lm is None:
        _lm = ctypes.CDLL("libm.so.6")
    f = getattr(_lm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


def bits(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


def unbits(u):
    return struct.unpack("<d", struct.pack("<Q", u))[0]


def hexd(d):
    return "n" if d != d else "%x" % bits(d)


def order(d):
    u = bits(d)
    return -(u & (2**63 - 1)) if u >> 63 else u


PI = math.pi


def arg(r, f=""):
    k = r.random()
    if k < .12:
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 2.0**52, 2.0**53, 4503599627370495.5, 4503599627370496.0,
                         2251799813685247.75, 0.49999999999999994, -0.49999999999999994, 1.5, 2.5, -2.5, PI, PI / 2, PI / 4, -PI, 3 * PI / 4, 2 * PI, 709.782712893384, 709.7827128933841, -745.1332191019412, -745.13321910194117, 710.4758600739439, 22.0, 21.999999999999996,
                         0.34657359027997264, 1.0397207708399179, 1e22, 1e300, -708.3964185322641, 10.0, 100.0, 1e-5, 1e15, 3.0, 1 / 3, 0.975, 0.4375, 0.6875, 1.1875, 2.4375])
    if k < .22:
        x = unbits(r.getrandbits(64))
        return x if x == x else math.nan        # signalling nans are outside of Annex F
    if k < .5:
        return r.choice([1, -1]) * r.uniform(0, r.choice([1, 1, 2, 10, 30, 100, 750]))
    if k < .6:
        return r.choice([1, -1]) * r.randint(0, 2 ** r.randint(1, 60)) / 2 ** r.randint(0, 6)
    if k < .7:      # near multiples of pi/4
        x = r.randint(-2 ** r.randint(1, 25), 2 ** r.randint(1, 25)) * (PI / 4)
        for _ in range(r.randint(0, 3)):
            x = math.nextafter(x, r.choice([-math.inf, math.inf]))
        return x
    if k < .8:
        return r.choice([1, -1]) * math.ldexp(r.uniform(.5, 1), r.randint(-1074, 1024))
    if k < .9:
        return r.choice([1, -1]) * (1 + r.choice([1, -1]) * math.ldexp(r.random(), -r.randint(1, 52)))
    return float(r.randint(-1000, 1000))


# units in the last place between the result and the exact value. The functions are fdlibm's; the bounds are the largest errors known
# for them (from searches of their whole ranges) plus a margin. Below DBL_MIN results are rounded twice: half a unit more.
ULPS = dict(acos=1.0, asin=1.0, atan=.95, cos=.95, sin=.95, tan=1.7, cosh=2.2, sinh=2.6, tanh=3.0, exp=1.0, log=1.0, log10=2.3, expm1=1.0, atan2=1.75, pow=1.0)
_mp = None


def mp():
    global _mp
    if _mp is None:
        try:
            import mpmath
        except ImportError:
            sys.path += glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")
            import mpmath
        mpmath.mp.prec = 110
        _mp = mpmath
    return _mp


def exact(f, x, y=None):
    """the exact value as an mpf, or None where C's special cases rule"""
    m = mp()
    if x != x or math.isinf(x) or (y is not None and (y != y or math.isinf(y))):
        return None
    if f == "pow":
        if x == 0 or y == 0 or (x < 0 and y != int(y)):
            return None
        e = m.mpf(x) ** m.mpf(y)
    elif f == "atan2":
        if x == 0 or y == 0:
            return None
        e = m.atan2(m.mpf(x), m.mpf(y))
    else:
        if x == 0 or (f in ("acos", "asin") and abs(x) > 1) or (f in ("log", "log10") and x < 0):
            return None
        if f in ("exp", "expm1", "cosh", "sinh") and abs(x) > 800 or f == "tanh" and abs(x) > 60:
            return None
        e = getattr(m, f)(m.mpf(x))
    if not isinstance(e, m.mpf) or not m.isfinite(e) or e == 0:
        return None
    ex = int(m.mag(e))
    if ex < -1100 or ex > 1030:
        return None
    return e


def close(f, e, tol=4, ex=None):
    def ulps(v):
        m = mp()
        k = max(int(m.frexp(ex)[1]), -1021)
        return float(abs(m.mpf(v) - ex) / m.ldexp(1, k - 53)), k == -1021

    def chk(g):
        g = g.split()[0]
        if e != e:
            return None if g == "n" else ("value", "expected nan, got %s" % (unbits(int(g, 16)) if g != "n" else g))
        if g == "n":
            return ("value", "expected %r, got nan" % e)
        v = unbits(int(g, 16))
        if f in EXACT:
            if bits(v) != bits(e) and not (f in ("fmax", "fmin") and v == e == 0):
                return ("value", "expected %r, got %r" % (e, v))
            return None
        if ex is not None and tol <= 4:
            if math.isinf(v):
                if abs(ex) < mp().mpf(2) ** 1024 * (1 - mp().mpf(2) ** -51):
                    return ("overflow", "expected %r, got %r" % (e, v))
            else:
                d, sub = ulps(v)
                if d > ULPS[f] + (.5 if sub else 0):
                    return ("accuracy", "%r is %.2f units in the last place from the exact value %s; the bound is %.2f" % (v, d, mp().nstr(ex, 25), ULPS[f]))
        elif abs(order(v) - order(e)) > tol:
            return ("value", "expected %r, got %r (%d ulp away)" % (e, v, abs(order(v) - order(e))))
        if v == 0 and e == 0 and bits(v) != bits(e):
            return ("value", "expected %r, got %r" % (e, v))
    return chk


def c23(ctx):
    ctx.tree.build()
    mod = build(ctx, "mathdrv", SRC)
    ctx.cov["rule"] = ("every function of math.h on doubles biased to its special points (ties, multiples of pi/4, overflow thresholds, subnormals, infinities, nan); exactly defined functions are compared bit for bit, the others "
                       "within a bound of 0.95 to 3 units in the last place (by function) of the exact value as computed with 110 bits, glibc's libm giving the special cases. evaluations = calls")

    def job(i):
        r = ctx.rng("m", i)
        w, exp, desc = W(), [], []
        cnt = {}
        for _ in range(1200):
            k = r.random()
            x = arg(r)
            if k < .62:
                j = r.randrange(len(F1))
                f = F1[j]
                w.u8(j).d(x)
                e = lm(f, 1)(x)
                tol = 4
                exp.append(close(f, e, tol, exact(f, x) if f not in EXACT else None))
                desc.append("%s(%r)" % (f, x))
            elif k < .85:
                j = r.randrange(len(F2))
                f = F2[j]
                y = arg(r)
                if f == "pow":
                    z = r.random()
                    if z < .3:
                        y = float(r.randint(-40, 40))
                    elif z < .6:
                        x = abs(x)
                        y = r.uniform(-20, 20)
                    elif z < .7 and 0 < abs(x) < math.inf and abs(x) != 1:     # close to the ends of the range
                        y = r.choice([1024, -1022, -1074, 700, 1023.9]) / math.log2(abs(x))
                elif f == "fmod" and r.random() < .4:
                    y = x / r.randint(1, 100) if x == x and abs(x) < 1e300 else y
                elif r.random() < .1:
                    y = x
                w.u8(40 + j).d(x).d(y)
                # e_pow.c's branch for |y| > 2^31 keeps one product too few bits (24 x 33): up to 2^-53 * log2 of the result
                exp.append(close(f, lm(f, 2)(x, y), 1024 if f == "pow" and abs(y) > 2.0**31 else 4, exact(f, x, y) if f not in EXACT else None))
                desc.append("%s(%r, %r)" % (f, x, y))
            elif k < .89:
                w.u8(60).d(x)
                f = "frexp"
                m, e = math.frexp(x)
                exp.append("%s %x %x" % (hexd(m), e & 0xffffffff, 77 + 79) if x == x and abs(x) != math.inf else (lambda g, x=x: None if g.split()[0] == hexd(x) else ("value", "got " + g)))
                desc.append("frexp(%r)" % x)
            elif k < .93:
                w.u8(61).d(x)
                f = "modf"
                a, b = math.modf(x)
                exp.append("%s %s %s" % (hexd(a), hexd(b), hexd(3.0)))
                desc.append("modf(%r)" % x)
            elif k < .97:
                n = r.choice([0, 1, -1, 52, -52, 1023, -1074, 2000, -2000, 2147483647, -2147483648, r.randint(-2200, 2200), r.randint(-60, 60)])
                w.u8(62).d(x).u32(n)
                f = "ldexp"
                try:
                    e = math.ldexp(x, n)
                except OverflowError:
                    e = math.copysign(math.inf, x)
                exp.append("%s %s" % (hexd(e), hexd(e)))
                desc.append("ldexp(%r, %d)" % (x, n))
            else:
                w.u8(63).d(x)
                f = "classify"
                sub = x == x and 0 < abs(x) < 2.2250738585072014e-308
                cls = 0 if x != x else 1 if abs(x) == math.inf else 2 if x == 0 else 3 if sub else 4
                exp.append("%x %x %x %x %x %x" % (cls, x == x and abs(x) != math.inf, abs(x) == math.inf, x != x, cls == 4, bits(x) >> 63))
                desc.append("classification of %r (%x)" % (x, bits(x)))
            cnt["calls_" + f] = cnt.get("calls_" + f, 0) + 1
        x = session(ctx, mod, w, exp, "math", lambda i: desc[i], "mathdrv", SRC)
        x.setdefault("counts", {}).update(cnt)
        if i < 1:
            x["samples"] = [{"calls": desc[:25]}]
        return x
    ctx.pmap(job, range(ctx.n(250, 6000)))


CHECKS = {"C23": c23}
