"""C17: string.h, ctype.h against Python models."""
import random
from .drv import *

A = 512          # arena size

SRC = HEAD + r'''
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#include <errno.h>
static unsigned char a_[512]; static char *hold_[1];
static void op_(const void *p) { if (p == NULL) ou_(0xffffull); else ou_((unsigned long long)(int)((const unsigned char *)p - &a_[0])); return; }
static void og_(int v) { oi_(v < 0 ? 2 : v > 0 ? 1 : 0); return; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(); unsigned char *p, *q; int x, y, i, n, c; char *s, *t; unsigned char *pb;
    if (k == 0) { p = &a_[(int)g16_()]; n = (int)g16_(); q = gb_(n); for (i = 0; i < n; ++i) p[i] = q[i]; oc_(46); nl_(); continue; }
    if (k == 1) { c = (int)g32_();
      oi_((isalnum(c) != 0) | (isalpha(c) != 0) << 1 | (iscntrl(c) != 0) << 2 | (isdigit(c) != 0) << 3 | (isgraph(c) != 0) << 4 | (islower(c) != 0) << 5 |
       (isprint(c) != 0) << 6 | (ispunct(c) != 0) << 7 | (isspace(c) != 0) << 8 | (isupper(c) != 0) << 9 | (isxdigit(c) != 0) << 10 | (isascii(c) != 0) << 11 | (isblank(c) != 0) << 12);
      oi_(toupper(c)); oi_(tolower(c)); nl_(); continue; }
    x = (int)g16_(); y = (int)g16_(); n = (int)g16_(); c = (int)g32_();
    p = &a_[x]; q = &a_[y]; s = (char *)p; t = (char *)q;
    switch (k) {
      case 2: { op_(memcpy(p, q, (size_t)n)); } break;
      case 3: { op_(memmove(p, q, (size_t)n)); } break;
      case 4: { op_(strcpy(s, t)); } break;
      case 5: { op_(strncpy(s, t, (size_t)n)); } break;
      case 6: { op_(strcat(s, t)); } break;
      case 7: { op_(strncat(s, t, (size_t)n)); } break;
      case 8: { og_(memcmp(p, q, (size_t)n)); } break;
      case 9: { og_(strcmp(s, t)); } break;
      case 10: { og_(strcoll(s, t)); } break;
      case 11: { og_(strncmp(s, t, (size_t)n)); } break;
      case 12: { ou_((unsigned long long)strxfrm(s, t, (size_t)n)); } break;
      case 13: { op_(memchr(p, c, (size_t)n)); } break;
      case 14: { op_(strchr(s, c)); } break;
      case 15: { ou_((unsigned long long)strcspn(s, t)); } break;
      case 16: { op_(strpbrk(s, t)); } break;
      case 17: { op_(strrchr(s, c)); } break;
      case 18: { ou_((unsigned long long)strspn(s, t)); } break;
      case 19: { op_(strstr(s, t)); } break;
      case 20: { op_(strtok(c ? s : NULL, t)); } break;
      case 21: { op_(strtok_r(c ? s : NULL, t, &hold_[0])); } break;
      case 22: { op_(memset(p, c, (size_t)n)); } break;
      case 23: { ou_((unsigned long long)strlen(s)); } break;
      case 24: { s = strdup(t); if (s == NULL) oc_(63); else { os_(s); strcpy(s, t); free(s); } } break;
      case 25: { s = strndup(t, (size_t)n); if (s == NULL) oc_(63); else { os_(s); free(s); } } break;
      case 26: { op_(memccpy(p, q, c, (size_t)n)); } break;
      case 27: { op_(memmem(p, (size_t)n, q, (size_t)c)); } break;
      case 28: { ou_((unsigned long long)strnlen(s, (size_t)n)); } break;
      case 29: { memswap(p, q, (size_t)n); } break;
      case 30: { bzero(p, (size_t)n); } break;
      case 31: { og_(strcasecmp(s, t)); } break;
      case 32: { og_(strncasecmp(s, t, (size_t)n)); } break;
      case 33: { const char *m = strerror(c); ou_(m != NULL && m[0] != 0 ? 1ull : 0ull); } break;
      case 34: { /* strndup does not read past the end of its argument nor write past its block */
        char *z[8]; for (i = 0; i < 8; ++i) { z[i] = malloc(28u); memset(z[i], 90, 28u); }
        s = strndup(t, (size_t)n); for (i = 0; i < 8; ++i) { int j; for (j = 0; j < 28; ++j) if (z[i][j] != 90) oc_(33); }
        for (i = 0; i < 8; ++i) free(z[i]); os_(s); free(s); } break;
      default: oc_(63);
    }
    ou_((unsigned long long)fnv_(&a_[0], 512)); nl_();
  }
  flush_(); return 0;
}
'''


def sgn(v):
    return 2 if v < 0 else 1 if v > 0 else 0


def ctype_bits(c):
    u = c & 0xffffffff
    up, lo, di = 65 <= c <= 90, 97 <= c <= 122, 48 <= c <= 57
    pr = 32 <= c <= 126
    sp = c in (32, 9, 10, 11, 12, 13)
    L = [up or lo or di, up or lo, 0 <= c < 32 or c == 127, di, pr and c != 32, lo, pr, pr and c != 32 and not (up or lo or di), sp, up,
         di or 65 <= c <= 70 or 97 <= c <= 102, 0 <= c <= 127, c in (32, 9)]
    v = sum(1 << i for i, x in enumerate(L) if x)
    return "%x %x %x" % (v, (c - 32 if lo else c) & 0xffffffff, (c + 32 if up else c) & 0xffffffff)


def tl(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


class M:
    def __init__(self, r):
        self.r, self.a = r, bytearray(A)
        self.w, self.exp, self.desc = W(), [], []
        self.tok = {20: None, 21: None}
        self.tokdelim = b""
        self.ops = {}

    def s(self, x):
        e = self.a.index(0, x)
        return bytes(self.a[x:e])

    def term(self, x):
        """is there a string at x?"""
        return self.a.find(b"\0", x) >= 0

    def line(self, v):
        self.exp.append("%s%x" % (v + " " if v != "" else "", fnv(self.a)))

    def put(self, x, data):
        self.w.u8(0).u16(x).blob(data)
        self.a[x:x + len(data)] = data
        self.exp.append(".")
        self.desc.append("fill %d..%d" % (x, x + len(data)))

    def cmd(self, k, x=0, y=0, n=0, c=0, res="", name=""):
        self.w.u8(k).u16(x, y, n).u32(c)
        self.ops[name] = self.ops.get(name, 0) + 1
        self.line(res if isinstance(res, str) else "ffff" if res is None else "%x" % (res & 0xffffffff))
        self.desc.append("%s(%d, %d, n=%d, c=%d)" % (name, x, y, n, c))

    def rstr(self, lo=0, hi=40):
        r = self.r
        al = r.choice([b"ab", b"abc", b"aB\xe1", b"AaZz_[^", bytes(range(1, 256)), b"a", b"xyz,; \t"])
        return bytes(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, r.randint(lo, hi), r.randint(lo, hi)])))

    def step(self):
        r, a = self.r, self.a
        k = r.random()
        if k < .22:
            x = r.randint(0, A - 120)
            d = self.rstr(0, 100)
            if r.random() < .8:
                d += b"\0"
            self.put(x, d)
            return
        if k < .26 and False:
            return
        x, y = r.randint(0, A - 1), r.randint(0, A - 1)
        if r.random() < .25:
            y = min(A - 1, max(0, x + r.randint(-12, 12)))
        n = r.choice([0, 1, 2, 3, r.randint(0, 20), r.randint(0, 60), r.randint(0, 200)])
        c = r.choice([0, 97, 98, 65, 255, 128, r.randint(0, 255), a[r.randint(0, A - 1)], a[min(A - 1, x + r.randint(0, 9))]])
        if r.random() < .15:
            c = r.choice([c - 256, c + 256, -1, c | 0x4000])
        cb = c & 255
        k = r.randint(2, 34)
        fit = x + n <= A and y + n <= A
        dis = x + n <= y or y + n <= x or n == 0
        if k == 2 and fit and dis:
            a[x:x + n] = a[y:y + n]
            self.cmd(k, x, y, n, 0, x, "memcpy")
        elif k == 3 and fit:
            a[x:x + n] = bytes(a[y:y + n])
            self.cmd(k, x, y, n, 0, x, "memmove")
        elif k == 22 and x + n <= A:
            a[x:x + n] = bytes([cb]) * n
            self.cmd(k, x, y, n, c, x, "memset")
        elif k == 30 and x + n <= A:
            a[x:x + n] = bytes(n)
            self.cmd(k, x, y, n, 0, "", "bzero")
        elif k == 29 and fit and dis:
            t = bytes(a[x:x + n])
            a[x:x + n] = a[y:y + n]
            a[y:y + n] = t
            self.cmd(k, x, y, n, 0, "", "memswap")
        elif k == 8 and fit:
            if r.random() < .5 and n:                 # nearly equal blocks
                x, y = r.randint(0, A // 2 - 61), r.randint(A // 2, A - 61)
                n = min(n, 60)
                self.put(y, bytes(a[x:x + n]))
                if r.random() < .8 and n:
                    self.put(y + r.randint(0, n - 1), bytes([r.randint(0, 255)]))
            p, q = bytes(a[x:x + n]), bytes(a[y:y + n])
            self.cmd(k, x, y, n, 0, sgn((p > q) - (p < q)), "memcmp")
        elif k == 13 and x + n <= A:
            i = a.find(bytes([cb]), x, x + n)
            self.cmd(k, x, y, n, c, i if i >= 0 else None, "memchr")
        elif k == 26 and fit and dis:
            i = a.find(bytes([cb]), y, y + n)
            m = n if i < 0 else i - y + 1
            a[x:x + m] = a[y:y + m]
            self.cmd(k, x, y, n, c, x + m if i >= 0 else None, "memccpy")
        elif k == 27 and x + n <= A:
            m = r.choice([0, 1, 2, 3, 4, r.randint(0, 12)])
            if y + m > A:
                return
            if m and r.random() < .6 and n >= m:
                src = x + r.randint(0, n - m)
                self.put(y, bytes(a[src:src + m]))
            i = a.find(bytes(a[y:y + m]), x, x + n)
            self.cmd(k, x, y, n, m, i if i >= 0 else None, "memmem")
        elif k == 28:
            if x + n > A and not self.term(x):
                return
            i = a.find(b"\0", x, min(A, x + n))
            self.cmd(k, x, y, n, 0, i - x if i >= 0 else n, "strnlen")
        elif k == 33:
            c = r.choice([0, 1, 76, 77, -1, r.randint(0, 76), 2**31 - 1])
            self.cmd(k, 0, 0, 0, c, 1, "strerror")
        elif k in (20, 21):
            self.tokstep(k)
        else:
            # functions of strings
            if not self.term(y) or not self.term(x):
                return
            s, t = self.s(x), self.s(y)
            ov = not (x + len(s) < y or y + len(t) < x)
            if k == 4 and x + len(t) + 1 <= A and (x + len(t) < y or y + len(t) < x):
                a[x:x + len(t) + 1] = t + b"\0"
                self.cmd(k, x, y, 0, 0, x, "strcpy")
            elif k == 5:
                L = min(n, len(t) + 1)
                if x + n <= A and (x + n <= y or y + L <= x):
                    a[x:x + n] = t[:n].ljust(n, b"\0")
                    self.cmd(k, x, y, n, 0, x, "strncpy")
            elif k == 6:
                e = x + len(s) + len(t) + 1
                if e <= A and (e <= y or y + len(t) < x):
                    a[x:e] = s + t + b"\0"
                    self.cmd(k, x, y, 0, 0, x, "strcat")
            elif k == 7:
                t = t[:n]
                e = x + len(s) + len(t) + 1
                if e <= A and (e <= y or y + len(t) < x):
                    a[x:e] = s + t + b"\0"
                    self.cmd(k, x, y, n, 0, x, "strncat")
            elif k in (9, 10, 11, 31, 32):
                if r.random() < .5 and len(s) < 60 and x < A // 2 - 61:
                    y = r.randint(A // 2, A - 70)
                    t = bytearray(s)
                    if t and r.random() < .7:
                        i = r.randint(0, len(t) - 1)
                        t[i] = r.choice([t[i] ^ 32, r.randint(1, 255), t[i]]) or 1
                    if r.random() < .3:
                        t = t[:r.randint(0, len(t))] + self.rstr(0, 3)
                    self.put(y, bytes(t) + b"\0")
                    t = self.s(y)
                if k in (11, 32):
                    s, t = s[:n], t[:n]
                if k in (31, 32):
                    s, t = tl(s), tl(t)
                self.cmd(k, x, y, n, 0, sgn((s > t) - (s < t)), {9: "strcmp", 10: "strcoll", 11: "strncmp", 31: "strcasecmp", 32: "strncasecmp"}[k])
            elif k == 12:
                if x + n <= A and n > len(t) and (x + n <= y or y + len(t) < x):
                    a[x:x + len(t) + 1] = t + b"\0"
                    # beyond the terminator the standard leaves the destination unspecified: put it in a known state
                    if n > len(t) + 1:
                        return self._xfrm(k, x, y, n, t)
                    self.cmd(k, x, y, n, 0, len(t), "strxfrm")
            elif k == 14:
                i = (s + b"\0").find(bytes([cb]))
                self.cmd(k, x, y, 0, c, x + i if i >= 0 else None, "strchr")
            elif k == 17:
                i = (s + b"\0").rfind(bytes([cb]))
                self.cmd(k, x, y, 0, c, x + i if i >= 0 else None, "strrchr")
            elif k == 15:
                m = next((i for i, ch in enumerate(s) if ch in t), len(s))
                self.cmd(k, x, y, 0, 0, m, "strcspn")
            elif k == 16:
                m = next((i for i, ch in enumerate(s) if ch in t), -1)
                self.cmd(k, x, y, 0, 0, x + m if m >= 0 else None, "strpbrk")
            elif k == 18:
                m = next((i for i, ch in enumerate(s) if ch not in t), len(s))
                self.cmd(k, x, y, 0, 0, m, "strspn")
            elif k == 19:
                if r.random() < .6 and y > x + len(s):
                    i = r.randint(0, len(s))
                    nd = s[i:i + r.choice([1, 2, 3, 8])]
                    if r.random() < .3 and nd:
                        nd = nd[:-1] + bytes([r.randint(1, 255)])
                    if y + len(nd) + 1 > A:
                        return
                    self.put(y, nd + b"\0")
                    s, t = self.s(x), self.s(y)
                i = s.find(t)
                self.cmd(k, x, y, 0, 0, x + i if i >= 0 else None, "strstr")
            elif k == 23:
                self.cmd(k, x, y, 0, 0, len(s), "strlen")
            elif k == 24:
                self.cmd(k, x, y, 0, 0, '"' + t.hex(), "strdup")
            elif k in (25, 34):
                n = r.choice([n, len(t), len(t) + 1, max(0, len(t) - 1), 500])
                self.cmd(k, x, y, n, 0, '"' + t[:n].hex(), "strndup")

    def _xfrm(self, k, x, y, n, t):
        # strncpy pads in this implementation, others do not; re-fill the rest in both worlds before hashing
        self.a[x + len(t) + 1:x + n] = bytes(n - len(t) - 1)
        self.w.u8(0).u16(x).blob(bytes(n))            # zero first, so that both outcomes agree
        sv = bytes(self.a[x:x + n])
        self.a[x:x + n] = bytes(n)
        self.exp.append(".")
        self.desc.append("fill")
        self.a[x:x + n] = sv
        self.cmd(k, x, y, n, 0, len(t), "strxfrm")

    def tokstep(self, k):
        """a whole strtok/strtok_r run over one string"""
        r, a = self.r, self.a
        x = r.randint(0, 200)
        d0 = r.choice([b",", b", ", b"ab", b";,", b"\xff,"])
        s = bytes(r.choice(d0 + b"xyzab") for _ in range(r.randint(0, 30)))
        self.put(x, s + b"\0")
        y = r.randint(300, 400)
        self.put(y, d0 + b"\0")
        pos, first = x, True
        b = bytearray(a)       # as if skipped delimiters were overwritten too (the standard does not say they are kept)

        def out(res, c, name):
            self.cmd(k, x, y, 0, c, res, name)
            ok = {self.exp[-1], self.exp[-1].split()[0] + " %x" % fnv(b)}
            self.exp[-1] = lambda g: None if g in ok else "expected one of %s, got %s" % (sorted(ok), g)
        for _ in range(40):
            if pos is None:
                res = None
            else:
                p = pos
                while a[p] and a[p] in d0:
                    b[p] = 0
                    p += 1
                if not a[p]:
                    res, pos = None, None
                else:
                    e = p
                    while a[e] and a[e] not in d0:
                        e += 1
                    res = p
                    pos = e + 1 if a[e] else None
                    if a[e]:
                        a[e] = b[e] = 0
            out(res, 1 if first else 0, "strtok" if k == 20 else "strtok_r")
            first = False
            if res is None:
                if r.random() < .5:
                    break
                out(None, 0, "strtok_again")
                break
            if r.random() < .15:
                d0 = r.choice([b",", b"x", b"ab;"])
                self.put(y, d0 + b"\0")
                b[y:y + len(d0) + 1] = d0 + b"\0"
        self.put(x, s + b"\0")


def c17(ctx):
    ctx.tree.build()
    mod = build(ctx, "strdrv", SRC)
    ctx.cov["rule"] = ("random histories of string.h operations on one 512-byte arena (overlapping ranges only where allowed, strings of random alphabets incl. bytes above 127, "
                       "lengths 0..200, int characters outside 0..255); after every call the result and a hash of the whole arena are compared with a model; all ctype functions over -1..255 and int edges. "
                       "evaluations = calls compared; distinct_nontrivial = distinct sessions")
    ctx.assumptions.append("comparison functions are judged by sign")

    def job(i):
        m = M(ctx.rng("s", i))
        if i == 0:
            for c in list(range(-1, 256)):
                m.w.u8(1).u32(c)
                m.exp.append(ctype_bits(c))
                m.desc.append("ctype(%d)" % c)
        n = 0
        for _ in range(4000):
            m.step()
        res = session(ctx, mod, m.w, m.exp, "string", lambda i: m.desc[i], "strdrv", SRC)
        res["sets"] = {"functions": set(m.ops)}
        res["counts"].update({"calls_" + k: v for k, v in m.ops.items()})
        if i < 2:
            res["samples"] = [{"commands": m.desc[:12]}]
        return res
    ctx.pmap(job, range(ctx.n(150, 4000)))


CHECKS = {"C17": c17}
