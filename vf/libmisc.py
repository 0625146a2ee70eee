"""C18: qsort, bsearch, rand, abs, div."""
from .drv import *

SRC = HEAD + r'''
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define BASE 4096
static unsigned char mem_[200000]; static unsigned lo_, hi_, esz_, kaddr_; static int bad_, calls_, mode_;
static int i32_(const unsigned char *p) { return (int)((unsigned)p[0] | (unsigned)p[1] << 8 | (unsigned)p[2] << 16 | (unsigned)p[3] << 24); }
static int cmpk_(const unsigned char *p, const unsigned char *q) { int r; unsigned i; 
  switch (mode_) {
    case 0: { r = memcmp(p, q, (size_t)esz_); } break;
    case 1: { r = (p[0] >> 4) - (q[0] >> 4); } break;
    case 2: { r = memcmp(q, p, (size_t)esz_); } break;
    case 3: { int a = i32_(p), b = i32_(q); r = a < b ? -2147483647 - 1 : a > b ? 2147483647 : 0; } break;
    case 4: { r = 0; } break;
    case 5: { r = 0; for (i = 0u; i < esz_ && r == 0; ++i) r = (p[esz_ - 1u - i] & 3) - (q[esz_ - 1u - i] & 3); } break;
    default: { int a = i32_(p), b = i32_(q); r = a < b ? 65536 : a > b ? -65536 : 0; } break;
  }
  return r; }
static void chk_(const void *p) { unsigned a = (unsigned)(unsigned long)p; if (a == kaddr_) return; if (a < lo_ || a >= hi_ || (a - lo_) % esz_ != 0u) bad_ = bad_ + 1; return; }
static int cmp_(const void *p, const void *q) { calls_ = calls_ + 1; if (calls_ > 4000000) { oc_(33); nl_(); flush_(); _exit(97); } chk_(p); chk_(q); return cmpk_(p, q); }
static int bcmp_(const void *p, const void *q) { calls_ = calls_ + 1; if ((unsigned)(unsigned long)p != kaddr_) bad_ = bad_ + 1000; chk_(q); return cmpk_(p, q); }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(); unsigned n, i, off; unsigned char *p, *q; 
    switch (k) {
      case 0: { mode_ = g8_(); esz_ = (unsigned)g8_(); n = g16_(); off = BASE + (unsigned)g8_(); 
        memset(&mem_[0], 165, (size_t)200000); p = &mem_[(int)off]; q = gb_((int)(n * esz_)); for (i = 0u; i < n * esz_; ++i) p[i] = q[i];
        lo_ = (unsigned)(unsigned long)p; hi_ = lo_ + n * esz_; kaddr_ = 0u; bad_ = 0; calls_ = 0;
        qsort(p, (size_t)n, (size_t)esz_, &cmp_);
        oi_(bad_); for (i = 0u; i < off; ++i) if (mem_[(int)i] != 165) break; ou_((unsigned long long)(off - i));
        for (i = off + n * esz_; i < 200000u; ++i) if (mem_[(int)i] != 165) break; ou_((unsigned long long)(200000u - i));
        ob_(p, (int)(n * esz_)); nl_(); } break;
      case 1: { unsigned char *key, *res; mode_ = g8_(); esz_ = (unsigned)g8_(); n = g16_(); p = &mem_[BASE]; q = gb_((int)(n * esz_)); for (i = 0u; i < n * esz_; ++i) p[i] = q[i];
        key = gb_((int)esz_); lo_ = (unsigned)(unsigned long)p; hi_ = lo_ + n * esz_; kaddr_ = (unsigned)(unsigned long)key; bad_ = 0; calls_ = 0;
        res = bsearch(key, p, (size_t)n, (size_t)esz_, &bcmp_);
        oi_(bad_); oi_(calls_); if (res == NULL) oi_(-1); else oi_((int)(res - p)); nl_(); } break;
      case 2: { unsigned s = g32_(); if (s != 0u || g8_() != 0) srand(s); n = g16_(); for (i = 0u; i < n; ++i) oi_(rand()); nl_(); } break;
      case 3: { int a = (int)g32_(), b = (int)g32_(); div_t d = div(a, b); ldiv_t e = ldiv((long)a, (long)b); oi_(d.quot); oi_(d.rem); oi_((int)e.quot); oi_((int)e.rem); oi_(abs(b)); oi_((int)labs((long)b)); nl_(); } break;
      case 4: { long long a = (long long)g64_(), b = (long long)g64_(); lldiv_t d = lldiv(a, b); ou_((unsigned long long)d.quot); ou_((unsigned long long)d.rem); ou_((unsigned long long)llabs(b)); nl_(); } break;
      default: oc_(63);
    }
  }
  flush_(); return 0;
}
'''


def i32(b):
    return int.from_bytes(b[:4], "little", signed=True)


KEYS = {0: lambda b: b, 1: lambda b: b[0] >> 4, 2: lambda b: bytes(255 - c for c in b), 3: i32, 4: lambda b: 0,
        5: lambda b: tuple(c & 3 for c in reversed(b)), 6: lambda b: -i32(b)}


def elems(r, mode, sz, n):
    st = r.random()
    if st < .3:
        v = [r.randbytes(sz) for _ in range(n)]
    elif st < .5:
        pool = [r.randbytes(sz) for _ in range(r.randint(1, 4))]
        v = [r.choice(pool) for _ in range(n)]
    else:
        v = [r.randbytes(sz) for _ in range(n)]
        v.sort(key=KEYS[mode])
        k = r.random()
        if k < .3:
            v.reverse()
        elif k < .5 and n:
            j = r.randint(0, n)
            v = v[j:] + v[:j]
        elif k < .7:
            v = v[::2] + v[1::2][::-1]
        elif k < .85 and n > 1:
            for _ in range(r.randint(1, 3)):
                a, b = r.randrange(n), r.randrange(n)
                v[a], v[b] = v[b], v[a]
    return v


def nmemb(r):
    return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 22, 23, 100, r.randint(0, 40), r.randint(0, 40), r.randint(0, 400), r.randint(0, 1500) if r.random() < .2 else 33])


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def c18(ctx):
    ctx.tree.build()
    mod = build(ctx, "sortdrv", SRC)
    ctx.cov["rule"] = ("random arrays (element sizes 1..48, sorted/reversed/rotated/organ-pipe/duplicate patterns, lengths around the gap sequence) sorted and searched under seven orders; the monitor checks "
                       "order, the multiset, guard bytes and that the comparison only ever sees elements (or the key); rand sequences for range and determinism; div/abs. evaluations = operations checked")

    def job(i):
        r = ctx.rng("s", i)
        w, exp, desc = W(), [], []
        cnt = {"sorted_elements": 0, "searches": 0}
        for _ in range(60):
            k = r.random()
            if k < .5:
                mode = r.randint(0, 6)
                sz = r.choice([4, 4, 8, 12, 16, 5, 48] if mode in (3, 6) else [1, 2, 3, 4, 7, 8, 12, 16, 24, 48, r.randint(1, 40)])
                n = nmemb(r)
                v = elems(r, mode, sz, n)
                w.u8(0, mode, sz).u16(n).u8(r.randint(0, 15))
                w.b += b"".join(v)
                cnt["sorted_elements"] += n

                def chk(g, v=v, sz=sz, mode=mode):
                    f = g.split()
                    if f[0] != "0":
                        return ("args", "the comparison was called with a pointer that is not an element")
                    if f[1] != "0" or f[2] != "0":
                        return ("guard", "bytes outside of the array changed (%s before, %s after)" % (f[1], f[2]))
                    b = bytes.fromhex(f[3]) if len(f) > 3 else b""
                    o = [b[j:j + sz] for j in range(0, len(b), sz)]
                    if sorted(o) != sorted(v):
                        return ("multiset", "the array does not hold the same elements after qsort")
                    ks = [KEYS[mode](x) for x in o]
                    for j in range(len(ks) - 1):
                        if ks[j] > ks[j + 1]:
                            return ("order", "elements %d and %d are out of order" % (j, j + 1))
                exp.append(chk)
                desc.append("qsort(n=%d, size=%d, order %d)" % (n, sz, mode))
            elif k < .8:
                mode = r.choice([0, 1, 2, 3, 4, 5, 6])
                sz = r.choice([4, 8, 12] if mode in (3, 6) else [1, 2, 3, 4, 8, 24])
                n = nmemb(r)
                v = sorted((r.randbytes(sz) for _ in range(n)), key=KEYS[mode])
                key = r.choice(v) if v and r.random() < .6 else r.randbytes(sz)
                w.u8(1, mode, sz).u16(n)
                w.b += b"".join(v) + key
                cnt["searches"] += 1

                def chk(g, v=v, sz=sz, mode=mode, key=key):
                    f = g.split()
                    if f[0] != "0":
                        return ("bargs", "bsearch called the comparison with wrong arguments (%s)" % f[0])
                    hit = [j for j, x in enumerate(v) if KEYS[mode](x) == KEYS[mode](key)]
                    if f[2] == "ffffffff":
                        return ("missed", "bsearch did not find an element that is there") if hit else None
                    o = int(f[2], 16)
                    if o % sz or o // sz not in hit:
                        return ("wrong", "bsearch returned offset %d, equal elements are %s" % (o, hit[:5]))
                    if int(f[1], 16) > len(v).bit_length() + 2:
                        return ("slow", "bsearch compared %d times in %d elements" % (int(f[1], 16), len(v)))
                exp.append(chk)
                desc.append("bsearch(n=%d, size=%d, order %d)" % (n, sz, mode))
            elif k < .9:
                a, b = (r.choice([0, 1, -1, 2, 7, -7, 10, 2147483647, -2147483647, -2147483648, r.randint(-2**31, 2**31 - 1), r.randint(-1000, 1000)]) for _ in range(2))
                if b in (0, -2**31) or (a == -2**31 and b == -1):
                    b = 3
                w.u8(3).u32(a, b)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                rem = a - q * b
                exp.append(" ".join("%x" % (x & 0xffffffff) for x in (q, rem, q, rem, abs(b), abs(b))))
                desc.append("div(%d, %d)" % (a, b))
            else:
                a, b = (r.choice([0, 1, -1, 2, 7, -7, 2**63 - 1, -2**63 + 1, -2**63, r.randint(-2**63, 2**63 - 1), r.randint(-1000, 1000), 1 << r.randint(0, 62)]) for _ in range(2))
                if b in (0, -2**63) or (a == -2**63 and b == -1):
                    b = -3
                w.u8(4).u64(a, b)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                exp.append(" ".join("%x" % (x & (2**64 - 1)) for x in (q, a - q * b, abs(b))))
                desc.append("lldiv(%d, %d)" % (a, b))
        x = session(ctx, mod, w, exp, "sort", lambda i: desc[i], "sortdrv", SRC)
        x.setdefault("counts", {}).update(cnt)
        if i < 2:
            x["samples"] = [{"commands": desc[:12]}]
        return x

    def rnd(i):
        r = ctx.rng("r", i)
        w, exp, desc = W(), [], []
        seen = {}
        st = {"first": None}

        def add(seed, n, dflt=False):
            w.u8(2).u32(seed)
            if seed == 0:
                w.u8(0 if dflt else 1)
            w.u16(n)

            def chk(g):
                v = [s32(int(x, 16)) for x in g.split()]
                if len(v) != n:
                    return "short"
                if any(x < 0 for x in v):
                    return ("range", "rand() returned %d, outside 0..RAND_MAX" % min(v))
                s = 1 if dflt else seed
                if s in seen:
                    m = min(n, len(seen[s]))
                    if seen[s][:m] != v[:m]:
                        return ("repeat", "the same seed %d gave another sequence" % s)
                    if len(v) > len(seen[s]):
                        seen[s] = v
                else:
                    for t, u in seen.items():
                        if n > 3 and u[:4] == v[:4] and len(u) > 3:
                            return ("seed", "seeds %d and %d give the same sequence" % (s, t))
                    seen[s] = v
                if n >= 400:
                    for bit in range(31):
                        k = sum(x >> bit & 1 for x in v)
                        if k < n * .3 or k > n * .7:
                            return ("bits", "bit %d of rand() is set in %d of %d numbers" % (bit, k, n))
                    if len(set(v)) < n - 3:
                        return ("cycle", "rand() repeats: %d distinct of %d" % (len(set(v)), n))
            exp.append(chk)
            desc.append("srand(%s); rand() x %d" % ("none" if dflt else seed, n))
        add(0, 500, True)
        pool = [1, 0, 2, 0x10000, 0xffffffff, 0x80000000] + [r.randint(0, 2**32 - 1) for _ in range(6)]
        for _ in range(30):
            add(r.choice(pool), r.choice([1, 5, 400, 1000]))
        return session(ctx, mod, w, exp, "rand", lambda i: desc[i], "sortdrv", SRC)
    ctx.pmap(rnd, range(ctx.n(16, 200)))
    if not ctx.failures:
        ctx.pmap(job, range(ctx.n(600, 15000)))


CHECKS = {"C18": c18}
