"""C16: malloc family, monitored from outside: every live block is disjoint, aligned, inside memory and keeps its contents."""
from . import wasmdec
from .drv import *

SRC = HEAD + r'''
#include <stdlib.h>
#include <string.h>
static unsigned char *blk_[256];
static void fill_(unsigned char *p, unsigned n, int seed) { unsigned i; if (n > 4096u) { memset(p + 1024, seed ^ 85, (size_t)(n - 2048u)); for (i = 0u; i < 1024u; ++i) { p[i] = (unsigned char)((int)i * 7 + seed); p[n - 1u - i] = (unsigned char)((int)i * 11 + seed); } return; }
  for (i = 0u; i < n; ++i) p[i] = (unsigned char)((int)i * 7 + seed); return; }
static int bad_(unsigned char *p, unsigned n, int seed, unsigned whole) { unsigned i; if (whole > 4096u) { 
    for (i = 0u; i < 1024u && i < n; ++i) if (p[i] != (unsigned char)((int)i * 7 + seed)) return 1;
    for (i = 1024u; i < whole - 1024u && i < n; i = i + 61u) if (p[i] != (unsigned char)(seed ^ 85)) return 2;
    if (n == whole) for (i = 0u; i < 1024u; ++i) if (p[n - 1u - i] != (unsigned char)((int)i * 11 + seed)) return 3;
    return 0; }
  for (i = 0u; i < n; ++i) if (p[i] != (unsigned char)((int)i * 7 + seed)) return 1; return 0; }
static int nz_(unsigned char *p, unsigned n) { unsigned i; for (i = 0u; i < n; ++i) if (p[i] != 0) return 1; return 0; }
static void size_(void) { ou_((unsigned long long)(unsigned long)sbrk((intptr_t)0)); nl_(); return; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), s = g8_(), seed = g8_(), oseed = g8_(); unsigned n = g32_(), o = g32_(), m; unsigned char *p = blk_[s], *q;
    switch (k) {
      case 0: { q = malloc((size_t)n); ou_((unsigned long long)(unsigned long)q); if (q != NULL) fill_(q, n, seed); blk_[s] = q; size_(); } break;
      case 1: { q = calloc((size_t)n, (size_t)o); ou_((unsigned long long)(unsigned long)q); oi_(q != NULL ? nz_(q, n * o) : 0); if (q != NULL) fill_(q, n * o, seed); blk_[s] = q; size_(); } break;
      case 2: { oi_(p != NULL ? bad_(p, o, oseed, o) : 0); q = realloc(p, (size_t)n); ou_((unsigned long long)(unsigned long)q); m = n < o ? n : o;
        if (q != NULL) { oi_(bad_(q, m, oseed, o)); fill_(q, n, seed); blk_[s] = q; } else { if (n == 0u) { oi_(0); blk_[s] = NULL; } else { oi_(p != NULL ? bad_(p, o, oseed, o) : 0); } } size_(); } break;
      case 3: { oi_(p != NULL ? bad_(p, o, oseed, o) : 0); free(p); blk_[s] = NULL; size_(); } break;
      case 4: { oi_(p != NULL ? bad_(p, o, oseed, o) : 0); size_(); } break;
      case 5: { q = sbrk((intptr_t)(n << 16)); ou_((unsigned long long)(unsigned long)q); if ((unsigned long)q != 0xffffffffUL) { fill_(q, n << 16, seed); blk_[s] = q; } size_(); } break;
      default: oc_(63);
    }
  }
  flush_(); return 0;
}
'''


class Model:
    def __init__(self, r, limit):
        self.r, self.limit = r, limit
        self.w, self.exp, self.desc = W(), [], []
        self.live = {}            # slot -> [addr or None, size, seed, sbrk?]
        self.state = {"live": {}, "peak": 0, "null": 0, "reused": 0, "top": 0, "base": None}
        self.ops = {}
        self.plan = {}            # slot -> (size, seed) as the generator believes (assuming success)

    def cmd(self, k, s, seed, oseed, n, o, chk, d):
        self.w.u8(k, s, seed, oseed).u32(n, o)
        self.exp.append(chk)
        self.desc.append(d)
        self.ops[d.split("(")[0]] = self.ops.get(d.split("(")[0], 0) + 1


def addblk(st, s, a, n, what, sb=False):
    """a block [a, a+n) was handed out"""
    if a == 0:
        st["null"] += 1
        return None
    if a % 16 and not sb:
        return ("align", "%s returned %#x, not aligned for any object" % (what, a))
    if a + n > st["top"]:
        return ("bounds", "%s returned [%#x, %#x) but memory ends at %#x" % (what, a, a + n, st["top"]))
    if st["base"] and a < st["base"]:
        return ("base", "%s returned %#x, below the heap (%#x): it overlaps data or stack" % (what, a, st["base"]))
    for t, (b, m, x) in st["live"].items():
        if t != s and a < b + max(m, 1) and b < a + max(n, 1):
            return ("overlap", "%s returned [%#x, +%d), which overlaps the live block [%#x, +%d)" % (what, a, n, b, m))
    st["live"][s] = (a, n, sb)
    return None


def gen(ctx, r, limit, nops, flavour):
    """The generator cannot know which allocations fail, so sizes that may fail go to slots that the monitor tracks: the stream only
    verifies slots whose allocation is small enough to succeed, or frees them (free(NULL) is fine)."""
    m = Model(r, limit)
    st = m.state
    slots = {}                    # slot -> (size, seed) believed live; big ones marked unsure
    sizes = {"mixed": lambda: r.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, r.randint(0, 100), r.randint(0, 1000), r.randint(0, 10000), r.randint(0, 70000), (1 << r.randint(4, 16)) - 14 + r.randint(-2, 2)]),
             "small": lambda: r.randint(0, 200), "pow": lambda: max(0, (1 << r.randint(4, 17)) - 16 + r.randint(-1, 1)), "big": lambda: r.choice([r.randint(0, 300), r.randint(50000, 400000), 1 << r.randint(14, 19)])}[flavour]

    def top(a):
        st["top"] = max(st["top"], a)

    HUGE = [0xffffffff, 0xfffffff0, 0xffffffef, 0x80000000, 0x7ffffff0, 0x7fffffff, 0x7fffffef, 0x40000000, 0x3ffffff0, 0x3ffffff1, 0xfffffff1, 0x10000000]
    for _ in range(nops):
        s = r.randint(0, 250 if flavour == "small" else 40)
        seed = r.randint(1, 255)
        live = slots.get(s)
        k = r.random()
        if live is None:
            if k < .05 or (k < .15 and flavour == "big"):
                n, o = r.choice([(0, 5), (3, 0), (0, 0), (0x10000, 0x10000), (0x80000000, 2), (0x40000001, 4), (0xffffffff, 0xffffffff), (65537, 65537), (0x20000001, 8)])
                big = n * o > 0

                def chk(g, n=n, o=o, s=s, big=big):
                    f = g.split()
                    if big:
                        return None if f[0] == "0" else ("huge", "calloc(%#x, %#x) returned %s" % (n, o, f[0]))
                    top(int(f[-1], 16))
                    return addblk(st, s, int(f[0], 16), 0, "calloc(%d, %d)" % (n, o)) if f[1] == "0" else ("zero", "calloc memory is not zeroed")
                m.cmd(1, s, seed, 0, n, o, chk, "calloc(%#x, %#x)" % (n, o))
                if not big:
                    slots[s] = (0, seed, False)
            elif k < .10:
                n = r.choice(HUGE)

                def chk(g, n=n, s=s):
                    f = g.split()
                    top(int(f[-1], 16))
                    if n >= 0x20000000:
                        return None if f[0] == "0" else ("huge", "malloc(%#x) returned %s with memory ending at %s" % (n, f[0], f[-1])) if int(f[0], 16) + n > int(f[-1], 16) else None
                    return None
                if limit:         # an unlimited host might provide it
                    m.cmd(0, 255, seed, 0, n, 0, chk, "malloc(%#x)" % n)
            elif k < .30:
                o = r.choice([1, 2, 4, 8, 12, 16, 24])
                n = sizes() // o

                def chk(g, n=n, o=o, s=s):
                    f = g.split()
                    top(int(f[-1], 16))
                    if f[1] != "0":
                        return ("zero", "calloc(%d, %d) memory is not zeroed" % (n, o))
                    return addblk(st, s, int(f[0], 16), n * o, "calloc(%d, %d)" % (n, o))
                m.cmd(1, s, seed, 0, n, o, chk, "calloc(%d, %d)" % (n, o))
                slots[s] = (n * o, seed, n * o > 60000)
            elif k < .33 and flavour != "small":
                n = r.randint(1, 3)

                def chk(g, n=n, s=s):
                    f = g.split()
                    top(int(f[-1], 16))
                    return addblk(st, s, int(f[0], 16), n << 16, "sbrk(%d pages)" % n, sb=True) if f[0] != "ffffffff" else None
                m.cmd(5, s, seed, 0, n, 0, chk, "sbrk(%d)" % n)
                slots[s] = "sbrk"
            else:
                n = sizes()

                def chk(g, n=n, s=s):
                    f = g.split()
                    top(int(f[-1], 16))
                    if f[0] == "0" and not limit and n < 100000:
                        return ("null", "malloc(%d) failed with plenty of memory" % n)
                    return addblk(st, s, int(f[0], 16), n, "malloc(%d)" % n)
                m.cmd(0, s, seed, 0, n, 0, chk, "malloc(%d)" % n)
                slots[s] = (n, seed, n > 60000)
        elif live == "sbrk":
            continue
        else:
            n0, seed0, unsure = live
            if k < .15 or (k < .5 and unsure is None):
                def chk(g, s=s):
                    f = g.split()
                    if f[0] != "0" and s in st["live"]:
                        return ("content", "block at %#x (%d bytes) changed while it was live" % st["live"][s][:2])
                m.cmd(4, s, 0, seed0, 0, n0, chk, "verify(slot %d)" % s)
            elif k < .5:
                n = r.choice([sizes(), sizes(), n0 + r.randint(-3, 40), n0 * 2])
                n = max(1, n)
                if limit and r.random() < .1 or r.random() < .02:
                    n = r.choice([h for h in HUGE[:10] if limit or h > 0x7fffff00])
                    huge = True
                else:
                    huge = False
                if limit and n > 60000 and not huge:
                    n = 5000

                def chk(g, n=n, s=s, n0=n0, huge=huge):
                    f = g.split()
                    top(int(f[-1], 16))
                    was = s in st["live"]
                    if was and f[0] != "0":
                        return ("content", "block at %#x (%d bytes) changed before realloc" % st["live"][s][:2])
                    if was and f[2] != "0":
                        return ("realloc", "realloc(%d -> %#x) %s the old contents" % (n0, n, "failed and lost" if f[1] == "0" else "lost"))
                    if huge:
                        return None if f[1] == "0" else ("huge", "realloc(p, %#x) returned %s" % (n, f[1]))
                    if f[1] == "0":
                        return None if (limit or n > 100000) else ("null", "realloc(p, %d) failed" % n)
                    st["live"].pop(s, None)
                    return addblk(st, s, int(f[1], 16), n, "realloc(p, %d)" % n)
                if huge:
                    m.cmd(2, s, seed0, seed0, n, n0, chk, "realloc(%d -> %#x)" % (n0, n))
                else:
                    m.cmd(2, s, seed, seed0, n, n0, chk, "realloc(%d -> %d)" % (n0, n))
                    slots[s] = (n, seed, False)
                    if limit:
                        # may have failed, in which case the old block is still there: only freed, never verified, from now on
                        slots[s] = (0, seed, False)
            else:
                def chk(g, s=s):
                    f = g.split()
                    top(int(f[-1], 16))
                    b = st["live"].pop(s, None)
                    if b and f[0] != "0":
                        return ("content", "block at %#x (%d bytes) changed while it was live" % b[:2])
                z = r.random() < .2
                if z:
                    def chk2(g, s=s):
                        f = g.split()
                        top(int(f[-1], 16))
                        b = st["live"].pop(s, None)
                        if b and f[0] != "0":
                            return ("content", "block at %#x (%d bytes) changed while it was live" % b[:2])
                        if f[1] != "0":
                            st["z"] = st.get("z", 0) + 1      # p was null, so this is malloc(0); the driver forgets the block
                            return addblk(st, "z%d" % st["z"], int(f[1], 16), 0, "realloc(p, 0)")
                    m.cmd(2, s, 0, seed0, 0, n0, chk2, "realloc(%d -> 0)" % n0)
                    del slots[s]
                else:
                    m.cmd(3, s, 0, seed0, 0, n0, chk, "free(slot %d)" % s)
                    del slots[s]
    return m


def cycles(r):
    """the same workload again and again, everything freed in between: memory must not grow for ever"""
    m = Model(r, 0)
    st = m.state
    ops = []
    free = list(range(200))
    live = []
    for _ in range(r.randint(50, 400)):
        if live and r.random() < .45:
            ops.append(("f", live.pop(r.randrange(len(live)))))
            free.append(ops[-1][1][0])
        elif live and r.random() < .3:
            i = r.randrange(len(live))
            t, n0, seed0 = live[i]
            live[i] = (t, r.choice([n0 + r.randint(0, 100), n0 * 2, n0 // 2 + 1, r.randint(1, 30000)]) or 1, r.randint(1, 255))
            ops.append(("r", live[i] + (n0, seed0)))
        elif free:
            s = free.pop(r.randrange(len(free)))
            x = (s, r.choice([r.randint(0, 64), r.randint(0, 1000), r.randint(0, 20000), r.randint(0, 100000)]), r.randint(1, 255))
            live.append(x)
            ops.append(("m", x))
    r.shuffle(live)
    ops += [("f", x) for x in live]
    tops = []
    for c in range(20):
        for op, (s, n, seed, *old) in ops:
            if op == "r":
                def chk(g, n=n, s=s):
                    f = g.split()
                    st["top"] = int(f[-1], 16)
                    if f[0] != "0" or f[2] != "0":
                        return ("realloc", "realloc(p, %d) lost the contents" % n)
                    st["live"].pop(s, None)
                    return addblk(st, s, int(f[1], 16), n, "realloc(p, %d)" % n)
                m.cmd(2, s, seed, old[1], n, old[0], chk, "realloc(%d -> %d)" % (old[0], n))
            elif op == "m":
                def chk(g, n=n, s=s):
                    f = g.split()
                    st["top"] = int(f[-1], 16)
                    return addblk(st, s, int(f[0], 16), n, "malloc(%d)" % n)
                m.cmd(0, s, seed, 0, n, 0, chk, "malloc(%d)" % n)
            else:
                last = (op, (s, n, seed)) == ops[-1]

                def chk(g, s=s, c=c, last=last):
                    f = g.split()
                    b = st["live"].pop(s, None)
                    if b and f[0] != "0":
                        return ("content", "block changed while it was live")
                    if last:
                        tops.append(int(f[-1], 16))
                        if len(tops) == 20 and tops[19] > tops[9] + 0x20000:
                            return ("growth", "the same workload, everything freed after each round, ends with memory at %s" % [hex(t) for t in tops])
                m.cmd(3, s, 0, seed, 0, n, chk, "free")
    return m


def c16(ctx):
    ctx.tree.build()
    import re
    mod = build(ctx, "memdrv", SRC)
    m = wasmdec.decode(mod)
    base = ([x[3] for x in m.imports if x[2] == "memory"] + m.mems)[0][0] << 16
    ctx.cov["rule"] = ("random histories of malloc/calloc/realloc/free/sbrk in several size regimes, with and without a memory limit (allocation failure), plus repeated rounds; every block is filled "
                       "with its own pattern and re-read; the monitor checks alignment, bounds, disjointness from all live blocks and sbrk regions, contents, zeroing, "
                       "failure behaviour and absence of growth. evaluations = operations checked; distinct_nontrivial = distinct sessions")

    def job(i):
        r = ctx.rng("m", i)
        if i % 7 == 6:
            m, lim = cycles(r), None
        else:
            lim = r.choice([None, None, base + (4 << 20), base + (1 << 20)])
            m = gen(ctx, r, lim, r.choice([200, 600, 1500]), r.choice(["mixed", "mixed", "small", "pow", "big"]))
        x = run_session(ctx, mod, m, lim)
        x.setdefault("counts", {}).update({"calls_" + k: v for k, v in m.ops.items()})
        x["counts"]["null_results"] = m.state["null"]
        x["counts"]["limited_sessions"] = 1 if lim else 0
        if i < 2:
            x["samples"] = [{"commands": m.desc[:15]}]
        return x
    ctx.pmap(job, range(ctx.n(700, 20000)))


def run_session(ctx, mod, m, lim):
    return session(ctx, mod, m.w, m.exp, "malloc", lambda i: m.desc[i], "memdrv", SRC, memlimit=lim)


CHECKS = {"C16": c16}
