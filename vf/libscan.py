"""C21: text to number and text to wide-character conversions: strto*, ato*, the scanf family, mbtowc & co."""
import math, re, struct
from fractions import Fraction
from .drv import *

SRC = HEAD + GZ + r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
static unsigned char sl_[1024]; static wchar_t ws_[80]; static char mb_[200];
static int ec_(void) { if (errno == ERANGE) return 1; if (errno == EINVAL) return 2; if (errno == EILSEQ) return 3; return errno == 0 ? 0 : 9; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), n, m, i; char *s, *e, *f; unsigned long long v; FILE *fp; unsigned char *q;
    switch (k) {
      case 0: { int b; m = g8_(); b = (signed char)g8_(); s = gz_(); e = NULL; errno = 0;
        if (m == 0) v = (unsigned long long)(long long)strtol(s, &e, b);
        else if (m == 1) v = (unsigned long long)strtoul(s, &e, b);
        else if (m == 2) v = (unsigned long long)strtoll(s, &e, b);
        else v = strtoull(s, &e, b);
        ou_(v); oi_((int)(e - s)); oi_(ec_()); 
        if (m == 0) v = (unsigned long long)(long long)strtol(s, NULL, b); else if (m == 1) v = (unsigned long long)strtoul(s, NULL, b); else if (m == 2) v = (unsigned long long)strtoll(s, NULL, b); else v = strtoull(s, NULL, b);
        ou_(v); } break;
      case 1: { s = gz_(); oi_(atoi(s)); oi_((int)atol(s)); ou_((unsigned long long)atoll(s)); } break;
      case 2: { double d; s = gz_(); e = NULL; errno = 0; d = strtod(s, &e); od_(d); oi_((int)(e - s)); oi_(ec_()); od_(atof(s)); } break;
      case 3: { m = g8_(); n = g8_(); f = gz_(); 
        memset(&sl_[0], 165, (size_t)1024); errno = g8_() != 0 ? ERANGE : EILSEQ;
        if (m == 0) { s = gz_(); i = sscanf(s, f, &sl_[0], &sl_[128], &sl_[256], &sl_[384], &sl_[512], &sl_[640], &sl_[768]); k = 0; }
        else if (m == 1) { i = (int)g16_(); q = gb_(i); i = snscanf((char *)q, (size_t)i, f, &sl_[0], &sl_[128], &sl_[256], &sl_[384], &sl_[512], &sl_[640], &sl_[768]); k = 0; }
        else { i = (int)g16_(); q = gb_(i); fp = fopen("/in", "wb"); if (fp == NULL) { oc_(33); flush_(); _exit(90); } 
          if (i > 0 && fwrite(q, (size_t)1, (size_t)i, fp) != (size_t)i) { oc_(34); flush_(); _exit(91); } 
          if (fclose(fp) != 0) _exit(92); fp = fopen("/in", "rb"); if (fp == NULL) { oc_(35); flush_(); _exit(93); }
          i = fscanf(fp, f, &sl_[0], &sl_[128], &sl_[256], &sl_[384], &sl_[512], &sl_[640], &sl_[768]); k = getc(fp); fclose(fp); }
        oi_(i); oi_(k); for (i = 0; i < n; ++i) ob_(&sl_[i * 128], 64); 
        k = 0; for (i = 0; i < 1024; ++i) if (i >= n * 128 || i % 128 >= 64) if (sl_[i] != 165) ++k; oi_(k); } break;
      case 4: { wchar_t w = 77; n = g8_(); s = gz_(); errno = 0; i = mbtowc(&w, s, (size_t)n); oi_(i); oi_((int)w); oi_(mbtowc(NULL, s, (size_t)n)); oi_(mblen(s, (size_t)n)); oi_(mbtowc(&w, NULL, (size_t)n)); oi_(ec_()); } break;
      case 5: { memset(&mb_[0], 90, (size_t)200); i = wctomb(&mb_[8], (wchar_t)g32_()); oi_(i); ob_(&mb_[0], 24); oi_(wctomb(NULL, (wchar_t)65)); } break;
      case 6: { n = g8_(); s = gz_(); for (i = 0; i < 80; ++i) ws_[i] = 1431655765; oi_((int)mbstowcs(&ws_[4], s, (size_t)n)); for (i = 0; i < 80; ++i) oi_((int)ws_[i]); } break;
      case 7: { n = g8_(); m = g8_(); for (i = 0; i < m; ++i) ws_[i] = (wchar_t)g32_(); ws_[m] = 0; memset(&mb_[0], 90, (size_t)200); oi_((int)wcstombs(&mb_[8], &ws_[0], (size_t)n)); ob_(&mb_[0], 200); } break;
      default: oc_(63);
    }
    nl_();
  }
  flush_(); return 0;
}
'''
WS = b" \t\n\v\f\r"
NV = {c: c - 48 for c in range(48, 58)}
NV.update({c: c - 87 for c in range(97, 123)})
NV.update({c: c - 55 for c in range(65, 91)})


def m64(v):
    return v & 0xffffffffffffffff


def strto(kind, s, base):
    """C99 7.20.1.4 on wasm32: (value mod 2^64, end, errno code)"""
    if base < 0 or base == 1 or base > 36:
        return 0, 0, 2
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    neg = False
    if i < len(s) and s[i] in b"+-":
        neg = s[i] == 45
        i += 1
    if base in (0, 16) and s[i:i + 1] == b"0" and s[i + 1:i + 2] in (b"x", b"X") and i + 2 < len(s) and NV.get(s[i + 2], 99) < 16:
        i += 2
        base = 16
    elif base == 0:
        base = 8 if s[i:i + 1] == b"0" else 10
    j = i
    v = 0
    while j < len(s) and NV.get(s[j], 99) < base:
        v = v * base + NV[s[j]]
        j += 1
    if j == i:
        return 0, 0, 0
    if kind in (0, 2):
        lo, hi = (-2**31, 2**31 - 1) if kind == 0 else (-2**63, 2**63 - 1)
        v = -v if neg else v
        if v < lo or v > hi:
            return m64(lo if v < 0 else hi), j, 1
        return m64(v), j, 0
    mx = 2**32 - 1 if kind == 1 else 2**64 - 1
    if v > mx:
        return mx, j, 1
    return (-v if neg else v) & mx, j, 0


HEXF = re.compile(rb"0[xX]([0-9a-fA-F]*)(?:\.([0-9a-fA-F]*))?(?:[pP]([+-]?[0-9]+))?")
DECF = re.compile(rb"([0-9]*)(?:\.([0-9]*))?(?:[eE]([+-]?[0-9]+))?")


def fval(fr):
    """nearest double of a Fraction (ties to even), inf on overflow"""
    try:
        return fr.numerator / fr.denominator
    except OverflowError:
        return math.inf


class FNum:
    """parsed floating subject: exact value, whether the result has to be exact, end"""
    pass


def strtod(s):
    """(kind, value, tolerance in ulp, end) of the longest subject sequence"""
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    sg = 1
    if i < len(s) and s[i] in b"+-":
        sg = -1 if s[i] == 45 else 1
        i += 1
    t = s[i:].lower()
    if t.startswith(b"inf"):
        return sg * math.inf, 0, i + (8 if t.startswith(b"infinity") else 3)
    if t.startswith(b"nan"):
        m = re.match(rb"nan(\([0-9a-zA-Z_]*\))?", s[i:], re.I)
        return math.nan, 0, i + m.end()
    m = HEXF.match(s, i)
    if m and (m.group(1) or m.group(2)):
        a, b = m.group(1), m.group(2) or b""
        e = int(m.group(3) or 0) - 4 * len(b)
        v = int(a + b, 16)
        if v and abs(e) > 20000:
            r = math.inf if e > 0 else 0.0
        else:
            r = fval(Fraction(v) * (Fraction(2) ** e if v else 0))
        return sg * r if v else sg * 0.0, 0, m.end()
    m = DECF.match(s, i)
    a, b = m.group(1), m.group(2) or b""
    if not (a or b):
        return 0.0, 0, 0
    e = int(m.group(3) or 0) - len(b)
    v = int(a + b)
    if v == 0:
        return sg * 0.0, 0, m.end()
    if abs(e) > 20000:
        return sg * (math.inf if e > 0 else 0.0), 0, m.end()
    r = fval(Fraction(v) * Fraction(10) ** e)
    return sg * r, 0, m.end()


def bits(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


def unbits(u):
    return struct.unpack("<d", struct.pack("<Q", u))[0]


def order(d):
    u = bits(d)
    return -(u & (2**63 - 1)) if u >> 63 else u


def near(g, e, tol):
    if e != e:
        return g != g
    if g != g:
        return False
    if tol == 0 or e == 0:
        return bits(g) == bits(e) or (tol and abs(order(g)) <= tol and bits(g) >> 63 == bits(e) >> 63)
    return abs(order(g) - order(e)) <= tol and bits(g) >> 63 == bits(e) >> 63


# ---- the scanf model (C99 7.19.6.2): input items are longest prefixes of matching sequences

def int_item(s, p, base, width):
    """(end, value) or (end, None) on a matching failure"""
    lim = len(s) if not width else min(len(s), p + width)
    i = p
    neg = False
    if i < lim and s[i] in b"+-":
        neg = s[i] == 45
        i += 1
    d = i
    if base in (0, 16) and i < lim and s[i] == 48:
        if i + 1 < lim and s[i + 1] in b"xX":
            d = i = i + 2
            base = 16
        elif base == 0:
            base = 8
    elif base == 0:
        base = 10
    while i < lim and NV.get(s[i], 99) < base:
        i += 1
    if i == d:
        return i, None
    v = int(s[d:i], base)
    return i, -v if neg else v


def flt_item(s, p, width):
    lim = len(s) if not width else min(len(s), p + width)
    i = p
    if i < lim and s[i] in b"+-":
        i += 1
    if i >= lim:
        return i, None, 0
    if s[i] in b"iI":
        k = 0
        while k < 8 and i + k < lim and s[i + k:i + k + 1].lower() == b"infinity"[k:k + 1]:
            k += 1
        return i + k, (-math.inf if s[p] == 45 else math.inf) if k in (3, 8) else None, 0
    if s[i] in b"nN":
        k = 0
        while k < 3 and i + k < lim and s[i + k:i + k + 1].lower() == b"nan"[k:k + 1]:
            k += 1
        if k < 3:
            return i + k, None, 0
        if i + 3 < lim and s[i + 3] == 40:
            k = 4
            while i + k < lim and (s[i + k:i + k + 1].isalnum() or s[i + k] == 95):
                k += 1
            if i + k < lim and s[i + k] == 41:
                return i + k + 1, math.nan, 0
            return i + k, None, 0
        return i + 3, math.nan, 0
    hexa = s[i] == 48 and i + 1 < lim and s[i + 1] in b"xX"
    digs = b"0123456789abcdefABCDEF" if hexa else b"0123456789"
    if hexa:
        i += 2
    n = 0
    while i < lim and s[i] in digs:
        i += 1
        n += 1
    if i < lim and s[i] == 46:
        i += 1
        while i < lim and s[i] in digs:
            i += 1
            n += 1
    if not n:
        return i, None, 0
    if i < lim and s[i] in (b"pP" if hexa else b"eE"):
        i += 1
        if i < lim and s[i] in b"+-":
            i += 1
        if not (i < lim and s[i] in b"0123456789"):
            return i, None, 0
        while i < lim and s[i] in b"0123456789":
            i += 1
    v, tol, e = strtod(s[p:i])
    return i, v, tol


class Dir:
    """one directive of a format"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


SIZES = {"hh": 1, "h": 2, "": 4, "l": 4, "ll": 8, "j": 8, "z": 4, "t": 4}


def model(dirs, s):
    """(results allowed, stores {slot: check}, position, finished)"""
    p = 0
    n = done = 0
    st = {}
    slot = 0

    def skip(p):
        while p < len(s) and s[p] in WS:
            p += 1
        return p
    for d in dirs:
        if d.kind == "ws":
            p = skip(p)
            continue
        if d.kind == "lit":
            if p >= len(s):
                return eof(n, done), st, p, False
            if s[p] != d.c:
                return {n}, st, p, False
            p += 1
            continue
        if d.kind == "pct":
            p = skip(p)
            if p >= len(s):
                return eof(n, done), st, p, False
            if s[p] != 37:
                return {n}, st, p, False
            p += 1
            continue
        dst = None
        if not d.sup:
            dst = slot
            slot += 1
        if d.kind == "n":
            if dst is not None:
                st[dst] = ("b", struct.pack("<q", p)[:SIZES[d.size]])
            continue
        if d.kind not in ("c", "set"):
            p = skip(p)
        if p >= len(s):
            return eof(n, done), st, p, False
        if d.kind == "int":
            e, v = int_item(s, p, d.base, d.width)
            p = e
            if v is None:
                return {n}, st, p, False
            if dst is not None:
                z = SIZES[d.size]
                # a result which the object cannot represent is undefined behaviour: only its extent is checked
                st[dst] = ("b", struct.pack("<Q", m64(v))[:z]) if -(1 << (8 * z - 1)) <= v < 1 << (8 * z) else ("ext", z)
        elif d.kind == "flt":
            e, v, tol = flt_item(s, p, d.width)
            p = e
            if v is None:
                return {n}, st, p, False
            if dst is not None:
                st[dst] = ("f" if d.size == "" else "d", v, tol)
        else:
            w = d.width or (1 if d.kind == "c" else len(s))
            e = p
            while e < len(s) and e - p < w and (d.kind == "c" or (d.kind == "s" and s[e] not in WS) or (d.kind == "set" and s[e] in d.set)):
                e += 1
            if d.kind == "c" and e - p < w:
                if dst is not None:
                    st[dst] = ("any",)
                return eof(n, done), st, e, False
            if e == p:
                return {n}, st, p, False
            if dst is not None:
                st[dst] = ("b", s[p:e] + (b"" if d.kind == "c" else b"\0"))
            p = e
        done += 1
        if dst is not None:
            n += 1
    return {n}, st, p, True


def eof(n, done):
    # an input failure after suppressed conversions only: 0 by the letter, EOF in practice
    return {n} if n else ({-1} if not done else {-1, 0})


def num_text(r, base=None):
    k = r.random()
    if base is None:
        base = r.choice([8, 10, 10, 16])
    n = r.choice([1, 1, 2, 3, 5, 8, {8: 20, 10: 18, 16: 15}.get(base, 8)])
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    t = "".join(r.choice(digs) for _ in range(n))
    if r.random() < .2:
        t = "0" * r.choice([1, 2, 10, 31, 32, 40]) + t
    if base == 16 and r.random() < .5:
        t = r.choice(["0x", "0X"]) + t
    if base == 8 and r.random() < .6:
        t = "0" + t
    if r.random() < .2:
        t = t.upper()
    if r.random() < .3:
        t = r.choice("+-") + t
    if k < .06:
        t = r.choice(["0", "-0", "+0", "0x", "0X1", "0xg", "-", "+", "", "--1", "+-1", "0x-1", "00", "08", "09", "0x0", "-0x0"])
    return t


def bound_text(r, base):
    b = base or r.choice([8, 10, 16])
    v = r.choice([2**31, 2**31 - 1, 2**32, 2**32 - 1, 2**63, 2**63 - 1, 2**64, 2**64 - 1, 2**65, 2**64 * b, 10**19, 10**30]) + r.choice([-1, 0, 0, 0, 1, r.randint(-3, 40)])
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"
    t = ""
    while v:
        t = digs[v % b] + t
        v //= b
    if base == 0 and b == 8:
        t = "0" + t
    if b == 16 and (base == 0 or r.random() < .5):
        t = "0x" + t
    return r.choice(["", "", "-", "+", "0" * 30 if base != 0 and not t.startswith("0x") else ""]) + t


def hard_text(r):
    """decimal expansion of a double or of a point halfway between two, perhaps cut, extended or off by one at the end"""
    d = unbits(r.getrandbits(63) if r.random() < .5 else bits(r.choice([1.0, 0.1, 1e16, 1e22, 3e5, 1e-5, 2.0 ** -1022])) + r.randint(-3, 2 ** r.randint(2, 52)))
    if d != d or d == math.inf:
        d = 1.7976931348623157e308
    q = Fraction(d)
    if r.random() < .7:
        q = (q + Fraction(unbits(bits(d) + 1) if d < 1.7e308 else Fraction(2) ** 1024)) / 2
    z = r.random()
    if z < .3:
        return repr(d)
    if z < .45:
        return "%.*e" % (r.choice([14, 15, 16, 17, 18]), d)
    e = 0
    while q.denominator != 1:
        q *= 10
        e -= 1
    t = str(q.numerator)
    if r.random() < .3:
        t = str(q.numerator + r.choice([-1, 1]))
    elif r.random() < .3:
        n = r.choice([1, 5, 100])
        t += "0" * n + r.choice("0123")
        e -= n + 1
    if r.random() < .4 and len(t) > 1:
        n = r.randrange(1, len(t))
        e += len(t) - n
        t = t[:n] + "." + t[n:]
    if r.random() < .15 and e < 0 and "." not in t:
        t = "0." + "0" * max(0, -e - len(t)) + t if len(t) <= -e else t[:e] + "." + t[e:]
        e = 0
    return t + ("e%d" % e if e else "")


def flt_text(r, hard=.0):
    k = r.random()
    if r.random() < hard:
        return r.choice(["", "", "-"]) + hard_text(r)
    dig = lambda n, s="0123456789": "".join(r.choice(s) for _ in range(n))
    if k < .1:
        t = r.choice(["inf", "INF", "Infinity", "infinity", "infinit", "infin", "in", "nan", "NaN", "nan()", "nan(12ab_)", "nan(", "nan(1", "nan(-)", "na", "i", "n", "infinityx", "inf1"])
    elif k < .3:
        t = dig(r.choice([1, 1, 2, 13, 14, 15, 16, 20]), "0123456789abcdefABCDEF")
        if r.random() < .6:
            t = t + "." + dig(r.choice([0, 1, 3, 13, 14, 16]), "0123456789abcdef")
        if r.random() < .1:
            t = "." + t.replace(".", "")
        if r.random() < .15:
            t = "0" * r.randint(1, 20) + t
        t = r.choice(["0x", "0x", "0X"]) + t
        z = r.random()
        if z < .7:
            t += r.choice("pP") + r.choice(["", "", "+", "-"]) + str(r.choice([0, 1, 4, 52, 1000, 1023, 1024, 1074, 1075, 1076, 1022, 1030, r.randint(0, 1200), r.randint(1010, 1100), 99999, 9999999999]))
        elif z < .76:
            t += r.choice(["p", "p+", "p-", "px", "P "])
    else:
        t = dig(r.choice([1, 1, 2, 3, 5, 10, 15, 16, 17, 18, 19, 20, 25]))
        if r.random() < .6:
            t += "." + dig(r.choice([0, 1, 2, 5, 12, 18, 30]))
        if r.random() < .1:
            t = "." + t.replace(".", "")
        if r.random() < .1:
            t = "0" * r.randint(1, 25) + t
        if r.random() < .08:
            t = "0." + "0" * r.choice([3, 17, 18, 19, 40, 330]) + dig(r.randint(1, 17))
        if r.random() < .04:
            t = dig(1, "123456789") + "0" * r.choice([17, 18, 25, 100, 300, 310]) + r.choice(["", ".0", ".5"])
        z = r.random()
        if z < .5:
            t += r.choice("eE") + r.choice(["", "+", "-", "-"]) + str(r.choice([0, 1, 2, 5, 15, 22, 23, 100, 290, 300, 307, 308, 309, 310, 320, 323, 324, 325, 330, 340, 400, 511, 512, 600, r.randint(0, 30), r.randint(0, 350), 4294967296, 2147483648, 99999999999]))
        elif z < .56:
            t += r.choice(["e", "e+", "e-", "ex", "E ", "e.5", "e 5"])
        if r.random() < .05:
            t = r.choice(["1.7976931348623157e308", "1.7976931348623159e308", "2.2250738585072014e-308", "2.2250738585072009e-308", "4.9406564584124654e-324", "2.4703282292062327e-324", "0e99999", "0.0e-400", "0", ".", "..1", ".e1", "0x", "0x.", "0x.p1", "0x.8p1", "1..2", "1e5e5", "9007199254740993", "18446744073709551615", "9223372036854775808"])
    return r.choice(["", "", "", "-", "+"]) + t


TAIL = ["", "", "", " ", "x", "Z", ".", "0", "z9", "\x01", "\xff", "-", "+1", "_"]


def uchar(r):
    k = r.random()
    if k < .35:
        return r.randint(1, 0x7f)
    if k < .5:
        return r.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff])
    if k < .65:
        return r.randint(0x80, 0x7ff)
    c = r.randint(0x800, 0xffff) if k < .85 else r.randint(0x10000, 0x10ffff)
    return c if not 0xd800 <= c < 0xe000 else 0x800


def bad_mb(r):
    """an ill-formed sequence (by any definition of UTF-8)"""
    c = uchar(r) if r.random() < .3 else r.randint(0x80, 0x10ffff)
    b = bytearray(chr(c if not 0xd800 <= c < 0xe000 else 0x900).encode()) if c > 127 else bytearray(b"\xc3\xa9")
    k = r.random()
    if k < .25:
        return bytes([r.randint(0x80, 0xbf)]) + b"\x80\x80"
    if k < .6:      # a continuation byte which is none
        j = r.randrange(1, len(b))
        b[j] = r.choice([0x41, 0x01, 0xc0, 0xe1, 0xff, b[j] & 0x7f or 1, b[j] | 0x40])
        return bytes(b)
    v = r.randint(0, 0x7f)      # overlong
    return r.choice([bytes([0xc0 | v >> 6, 0x80 | v & 63]), bytes([0xe0, 0x80 | v >> 6, 0x80 | v & 63]), bytes([0xe0, 0x80 | r.randint(0, 31), 0x80 | v & 63]), bytes([0xf0, 0x80 | r.randint(0, 15), 0x80 | v & 63, 0x80 | v & 63])])


def scan_case(r):
    """format, directives, input"""
    dirs, fmt, txt = [], "", b""
    slots = 0
    nd = r.randint(1, 4)
    for i in range(nd):
        z = r.random()
        if z < .3:
            fmt += r.choice([" ", "  ", "\n", "\t "])
            dirs.append(Dir("ws"))
        elif z < .4:
            c = r.choice(b"x,:;-+1a")
            fmt += chr(c)
            dirs.append(Dir("lit", c=c))
            txt += bytes([c]) if r.random() < .9 else b"?"
        elif z < .44:
            fmt += "%%"
            dirs.append(Dir("pct"))
            txt += r.choice([b"%", b" %", b"%", b"&"])
        txt += r.choice([b"", b"", b" ", b"\n ", b"\t"])
        sup = r.random() < .15
        width = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 8, 10, 20]) if r.random() < .5 else 0
        st = "*" if sup else ""
        wt = ("0" if r.random() < .05 and width else "") + (str(width) if width else "")
        k = r.random()
        if k < .4:
            conv = r.choice("dddiiiuuxXo")
            size = r.choice(["", "", "", "hh", "h", "l", "ll", "j", "z", "t"])
            base = {"d": 10, "u": 10, "i": 0, "o": 8}.get(conv, 16)
            dirs.append(Dir("int", sup=sup, width=width, base=base, size=size))
            fmt += "%" + st + wt + size + conv
            txt += num_text(r, base or None).encode()
        elif k < .43:
            dirs.append(Dir("int", sup=sup, width=width, base=16, size=""))
            fmt += "%" + st + wt + "p"
            txt += num_text(r, 16).encode()
        elif k < .6:
            size = r.choice(["", "l"])
            dirs.append(Dir("flt", sup=sup, width=width, size=size))
            fmt += "%" + st + wt + size + r.choice("fegaFEGA")
            txt += flt_text(r)[:60].encode()
        elif k < .7:
            width = width or r.choice([0, 30])
            dirs.append(Dir("s", sup=sup, width=width))
            fmt += "%" + st + (str(width) if width else "") + "s"
            txt += bytes(r.choice(b"abcXYZ019_-%\xe9\xff\x80\x01") for _ in range(r.randint(0, 12)))
        elif k < .8:
            dirs.append(Dir("c", sup=sup, width=width))
            fmt += "%" + st + wt + "c"
            txt += bytes(r.choice(b"abc \n01\xff\x80") for _ in range(r.choice([width or 1, width or 1, r.randint(0, 4)])))
        elif k < .93:
            inv = r.random() < .4
            spec, ss = "", set()
            z = r.random()
            if z < .15:
                spec += "]"
                ss.add(93)
            elif z < .3:
                spec += "-"
                ss.add(45)
            for _ in range(r.randint(0 if spec else 1, 4)):
                if r.random() < .5:
                    a = r.choice(b"abcdlAQ0247")
                    b = r.randint(a, min(a + 20, 122))
                    if b in (93, 45, 94) or a in (93, 45):
                        continue
                    spec += chr(a) + "-" + chr(b)
                    ss |= set(range(a, b + 1))
                else:
                    c = r.choice(b"abcxyz0189_ ,.%\xe9\xff")
                    spec += chr(c)
                    ss.add(c)
            if not spec:
                spec, ss = "ab", {97, 98}
            if r.random() < .1:
                spec += "-"
                ss.add(45)
            if not inv and spec.startswith("^"):
                spec = "a" + spec
                ss.add(97)
            st2 = set(range(256)) - ss if inv else ss
            width = width or r.choice([0, 40])
            dirs.append(Dir("set", sup=sup, width=width, set=st2))
            fmt += "%" + st + (str(width) if width else "") + "[" + ("^" if inv else "") + spec + "]"
            pool = [c for c in st2 if c] or [97]
            txt += bytes((r.choice(pool) if r.random() < .9 else r.randint(1, 255)) for _ in range(r.randint(0, 12)))
        else:
            size = r.choice(["", "", "h", "hh", "l", "ll"])
            dirs.append(Dir("n", sup=False, size=size))
            fmt += "%" + size + "n"
            sup = False
        if not sup:
            slots += 1
        if r.random() < .15:
            txt += bytes([r.choice(b" xyz.,09-\xff\x01")])
    if r.random() < .6 and slots < 7:
        dirs.append(Dir("n", sup=False, size=""))
        fmt += "%n"
        slots += 1
    if r.random() < .15:
        txt = txt[:r.randint(0, len(txt))]
    if any(d.kind in ("s", "set") and not d.width for d in dirs):
        txt = txt[:62]
    return fmt.encode("latin1"), dirs, txt.replace(b"\0", b"\x01"), slots


def scan_chk(dirs, txt, slots, is_file):
    rets, st, pos, fin = model(dirs, txt)

    def chk(g):
        f = g.split()
        rv = int(f[0], 16)
        rv = rv - 2**32 if rv >> 31 else rv
        if rv not in rets:
            return ("scanf-return", "returns %d, expected %s" % (rv, sorted(rets)))
        for i in range(slots):
            b = bytes.fromhex(f[2 + i])
            if i not in st:
                continue_untouched = all(x == 165 for x in b)
                # the destination of the directive that failed may have been used
                if not continue_untouched and not fin and i == (max(st) + 1 if st else 0):
                    continue
                if not continue_untouched:
                    return ("scanf-store", "object %d changed although nothing was converted to it: %s" % (i, b.hex()))
                continue
            e = st[i]
            if e[0] == "any":
                continue
            if e[0] == "ext":
                if any(x != 165 for x in b[e[1]:]):
                    return ("scanf-store", "object %d: bytes after the stored value changed: %s" % (i, b.hex()))
            elif e[0] == "b":
                if b[:len(e[1])] != e[1]:
                    return ("scanf-value", "object %d is %s, expected %s" % (i, b[:len(e[1]) + 4].hex(), e[1].hex()))
                if any(x != 165 for x in b[len(e[1]):]):
                    return ("scanf-store", "object %d: bytes after the stored value changed: %s (value %s)" % (i, b.hex(), e[1].hex()))
            elif e[0] == "d":
                v = struct.unpack("<d", b[:8])[0]
                if not near(v, e[1], e[2]) or any(x != 165 for x in b[8:]):
                    return ("scanf-value", "object %d is %r, expected %r" % (i, v, e[1]))
            else:
                v = struct.unpack("<f", b[:4])[0]
                x = e[1]
                if any(q != 165 for q in b[4:]):
                    return ("scanf-store", "object %d: bytes after the float changed" % i)
                if x != x or v != v:
                    ok = x != x and v != v
                else:
                    try:
                        fx = struct.unpack("<f", struct.pack("<f", x))[0]
                    except OverflowError:
                        fx = math.copysign(math.inf, x)
                    o = lambda y: (lambda u: -(u & 0x7fffffff) if u >> 31 else u)(struct.unpack("<I", struct.pack("<f", y))[0])
                    ok = abs(o(v) - o(fx)) <= 1 and math.copysign(1, v) == math.copysign(1, x)
                if not ok:
                    return ("scanf-value", "object %d is %r, expected %r" % (i, v, x))
        if f[-1] != "0":
            return ("scanf-guard", "%s bytes outside of the objects changed" % f[-1])
        if is_file and fin:
            nx = int(f[1], 16)
            want = txt[pos] if pos < len(txt) else 0xffffffff
            if nx != want:
                return ("scanf-position", "after the call getc returns %x, expected %x" % (nx, want))
    return chk


def c21(ctx):
    ctx.tree.build()
    mod = build(ctx, "scandrv", SRC)
    ctx.cov["rule"] = ("strtol/strtoul/strtoll/strtoull in all bases, atoi/atol/atoll, strtod/atof, sscanf/snscanf/fscanf and the multibyte functions on well-formed, boundary and malformed texts; a model of C99's subject sequences "
                       "and scanf input items gives value, end, errno, assignments, return value and following character. Results of strtod must be the nearest doubles. evaluations = calls")

    def job(i):
        import os, tempfile
        r = ctx.rng("s", i)
        w, exp, desc = W(), [], []
        cnt = {}
        for _ in range(500):
            k = r.random()
            if k < .25:
                kind = r.randint(0, 3)
                base = r.choice([0, 0, 10, 10, 16, 16, 8, 2, 36, 3, r.randint(2, 36), 1, -1, 37])
                z = r.random()
                bb = base if 2 <= base <= 36 else 0
                t = (bound_text(r, bb) if z < .35 else num_text(r, bb or None))
                t = r.choice(["", "", " ", "\t\n", "\v\f\r "]) + t + r.choice(TAIL)
                s = t.encode("latin1")
                w.u8(0, kind, base).z(s)
                v, e, c = strto(kind, s, base)
                exp.append("%x %x %x %x" % (v, e, c, v))
                f = ["strtol", "strtoul", "strtoll", "strtoull"][kind]
                desc.append("%s(%r, &end, %d)" % (f, s, base))
            elif k < .3:
                v = r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randint(-2**31, 2**31 - 1), r.randint(-1000, 1000)])
                t = (("+" if v >= 0 and r.random() < .3 else "") + ("-" if v < 0 else "") + "0" * r.choice([0, 0, 1, 20]) + str(abs(v)))
                if r.random() < .1:
                    v, t = 0, r.choice(["", "-", "+", "x1", "--1", "- 1", "abc"])
                t = r.choice(["", " ", "\t\n\v\f\r"]) + t + (r.choice(["", " ", "x", ".5", "e3", "-", "\xff", " 7"]) if t else "")
                w.u8(1).z(t.encode("latin1"))
                exp.append("%x %x %x" % (v & 0xffffffff, v & 0xffffffff, m64(v)))
                f = "atoi"
                desc.append("atoi/atol/atoll(%r)" % t)
            elif k < .55:
                s = (r.choice(["", "", " ", "\n\t"]) + flt_text(r, .2) + r.choice(TAIL)).encode("latin1")
                w.u8(2).z(s)
                v, tol, e = strtod(s)

                def chk(g, v=v, tol=tol, e=e, s=s):
                    a, en, er, af = g.split()
                    x = math.nan if a == "n" else unbits(int(a, 16))
                    if a != af:
                        return ("atof", "atof and strtod differ: %s %s" % (af, a))
                    if int(en, 16) != e:
                        return ("strtod-end", "end is %d, expected %d" % (int(en, 16), e))
                    if not near(x, v, tol):
                        return ("strtod-value", "result %r (%x), expected %r (%x), tolerance %d ulp" % (x, 0 if x != x else bits(x), v, 0 if v != v else bits(v), tol))
                    infin = b"i" in s.lower()
                    want = 1 if (abs(x) == math.inf and not infin) or (x == 0 and re.search(rb"[1-9a-fA-F]", re.split(rb"[pP]" if b"x" in s[:e].lower() else rb"[eE]", s[:e])[0])) else 0
                    if int(er, 16) != want and not 0 < abs(x) < 2.3e-308:
                        return ("strtod-errno", "errno code %s, expected %d for result %r" % (er, want, x))
                exp.append(chk)
                f = "strtod"
                desc.append("strtod(%r)" % s)
            elif k < .82:
                fmt, dirs, txt, slots = scan_case(r)
                mode = r.choice([0, 0, 0, 1, 1, 2])
                w.u8(3, mode, slots).z(fmt).u8(r.randint(0, 1))
                if mode == 0:
                    w.z(txt)
                else:
                    w.blob(txt)
                exp.append(scan_chk(dirs, txt, slots, mode == 2))
                f = ["sscanf", "snscanf", "fscanf"][mode]
                desc.append("%s(%r, %r)" % (f, txt, fmt))
            elif k < .88:
                f = "mbtowc"
                if r.random() < .35:
                    s = bad_mb(r)
                    n = r.randint(0, 6)
                    w.u8(4, n).z(s)
                    exp.append("ffffffff 4d ffffffff ffffffff 0 3")
                else:
                    c = uchar(r) if r.random() < .95 else 0
                    s = chr(c).encode()
                    n = r.choice([len(s), 4, 4, 6, r.randint(0, 6)])
                    w.u8(4, n).z(s + r.choice([b"", b"a", b"\x80\x80"]))
                    if n < len(s):
                        exp.append("ffffffff 4d ffffffff ffffffff 0 3")
                    else:
                        ln = 0 if c == 0 else len(s)
                        exp.append("%x %x %x %x 0 0" % (ln, c, ln, ln))
                desc.append("mbtowc(&w, %r, %d)" % (s, n))
            elif k < .91:
                f = "wctomb"
                c = uchar(r)
                s = chr(c).encode()
                w.u8(5).u32(c)
                exp.append("%x %s 0" % (len(s), (b"Z" * 8 + s + b"Z" * (16 - len(s))).hex()))
                desc.append("wctomb(s, 0x%x)" % c)
            elif k < .955:
                f = "mbstowcs"
                cs = [uchar(r) for _ in range(r.randint(0, 20))]
                n = r.choice([0, len(cs), len(cs) + 1, 40, r.randint(0, 25)])
                w.u8(6, n).z("".join(map(chr, cs)).encode())
                o = [0x55555555] * 80
                for j, c in enumerate((cs + [0])[:n]):
                    o[4 + j] = c
                exp.append("%x %s" % (min(n, len(cs)), " ".join("%x" % c for c in o)))
                desc.append("mbstowcs of %r, %d" % (cs, n))
            else:
                f = "wcstombs"
                cs = [uchar(r) for _ in range(r.randint(0, 20))]
                full = b"".join(chr(c).encode() for c in cs)
                n = r.choice([0, len(full), len(full) + 1, 100, r.randint(0, 60)])
                w.u8(7, n, len(cs))
                for c in cs:
                    w.u32(c)
                o = b""
                for c in cs:
                    e = chr(c).encode()
                    if len(o) + len(e) > n:
                        break
                    o += e
                res = len(o)
                if o == full and res < n:
                    o += b"\0"
                exp.append("%x %s" % (res, (b"Z" * 8 + o + b"Z" * (192 - len(o))).hex()))
                desc.append("wcstombs of %r, %d" % (cs, n))
            cnt["calls_" + f] = cnt.get("calls_" + f, 0) + 1
        d = tempfile.mkdtemp(prefix="scan", dir=ctx.scratch)
        x = session(ctx, mod, w, exp, "scan", lambda i: desc[i], "scandrv", SRC, preopen=d)
        x.setdefault("counts", {}).update(cnt)
        if i < 1:
            x["samples"] = [{"calls": desc[:25]}]
        return x
    ctx.pmap(job, range(ctx.n(300, 6000)))


CHECKS = {"C21": c21}
