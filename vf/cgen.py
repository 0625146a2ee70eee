"""Random C programs in the dialect wcpl accepts, and the machinery that runs them through the
real compiler and through the reference (clang for wasm32 with UBSan's minimal runtime watching
for undefined behaviour; an observation made after undefined behaviour is not compared)."""
import os, random, re, tempfile, shutil
from .core import sh, run_wasm, Failure, Failed, Inconclusive

PRELUDE = r'''
#ifdef __WCPL__
#include <unistd.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stddef.h>
static char ob_[8192]; static int on_ = 0;
static void put_(void) { if (on_ > 0) write(1, &ob_[0], (size_t)on_); on_ = 0; }
static void ub_reset_(void) { }
static void ub_mark_(void) { }
static void ub_back_(void) { }
static int ub_get_(void) { return 0; }
#else
#define main refmain_
#define bool _Bool
#define true 1
#define false 0
#define NULL ((void*)0)
typedef unsigned long size_t;
#define va_list __builtin_va_list
#define va_start(a,b) __builtin_va_start(a,b)
#define va_arg(a,t) __builtin_va_arg(a,t)
#define va_end(a) __builtin_va_end(a)
#define va_copy(a,b) __builtin_va_copy(a,b)
#define offsetof(t,f) ((int)__builtin_offsetof(t,f))
#define alloca(n) __builtin_alloca(n)
#define alignof _Alignof
#define static_assert _Static_assert
#define generic _Generic
#define countof(a) ((int)(sizeof(a)/sizeof((a)[0])))
static volatile int ub_;
#define H_(n) void __ubsan_handle_##n##_minimal(void){ ub_ = 1; }
H_(add_overflow) H_(sub_overflow) H_(mul_overflow) H_(negate_overflow) H_(divrem_overflow)
H_(shift_out_of_bounds) H_(float_cast_overflow) H_(out_of_bounds) H_(type_mismatch) H_(pointer_overflow)
H_(vla_bound_not_positive) H_(load_invalid_value) H_(builtin_unreachable) H_(missing_return) H_(nonnull_arg)
static void ub_reset_(void) { ub_ = 0; }
static int ubs_;
static void ub_mark_(void) { ubs_ = ub_; }
static void ub_back_(void) { ub_ = ubs_; } /* after a statement that stores nothing undefined */
static int ub_get_(void) { return ub_; }
__attribute__((import_module("wasi_snapshot_preview1"), import_name("fd_write")))
int fdw_(int fd, const void *iov, int n, int *ret);
static char ob_[8192]; static int on_ = 0;
static void put_(void) { struct { char *p; int n; } v; int r; v.p = &ob_[0]; v.n = on_; if (on_ > 0) fdw_(1, &v, 1, &r); on_ = 0; }
typedef union { __int128 all; struct { unsigned long long lo; long long hi; } s; } tw_;
__attribute__((noinline)) __int128 __multi3(__int128 a, __int128 b) {
  tw_ x, y, r; unsigned long long al, ah, bl, bh, t; x.all = a; y.all = b;
  al = x.s.lo & 0xffffffffULL; ah = x.s.lo >> 32; bl = y.s.lo & 0xffffffffULL; bh = y.s.lo >> 32;
  unsigned long long ll = al * bl, lh = al * bh, hl = ah * bl, hh = ah * bh;
  t = (ll >> 32) + (lh & 0xffffffffULL) + (hl & 0xffffffffULL);
  r.s.lo = (t << 32) | (ll & 0xffffffffULL);
  r.s.hi = (long long)(hh + (lh >> 32) + (hl >> 32) + (t >> 32));
  r.s.hi = (long long)((unsigned long long)r.s.hi + (unsigned long long)x.s.hi * y.s.lo + x.s.lo * (unsigned long long)y.s.hi);
  return r.all; }
void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, size_t n) { char *a = d; while (n--) *a++ = c; return d; }
void *memmove(void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a < b) while (n--) *a++ = *b++; else { a += n; b += n; while (n--) *--a = *--b; } return d; }
#endif
static void putc_(int c) { if (on_ >= 8000) put_(); ob_[on_] = (char)c; on_ = on_ + 1; }
static void hex_(unsigned long long v) {
  int i, d, z = 0;
  for (i = 60; i >= 0; i -= 4) {
    d = (int)((v >> i) & 15ULL);
    if (d != 0 || z != 0 || i == 0) { z = 1; if (d < 10) putc_(48 + d); else putc_(87 + d); }
  }
}
static void emit(int id, unsigned long long v) {
  hex_((unsigned long long)id); putc_(58); hex_(v);
  if (ub_get_() != 0) putc_(33);
  putc_(10);
}
static double rd_(double x, double lo, double hi) { if (x > lo && x < hi) return x; return 1.5; }
static union { double d; unsigned long long u; } du_;
static union { float f; unsigned u; } fu_;
static void emitd(int id, double d) { if (d != d) { emit(id, 0x7ff8000000000000ULL); } else { du_.d = d; emit(id, du_.u); } }
static void emitf(int id, float f) { if (f != f) { emit(id, 0x7fc00000ULL); } else { fu_.f = f; emit(id, (unsigned long long)fu_.u); } }
'''

CLANG = ["clang", "--target=wasm32", "-O0", "-w", "-std=gnu11", "-fno-strict-aliasing", "-ffp-contract=off",
         "-fno-builtin", "-ftrapping-math", "-mno-bulk-memory",
         "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,bool",
         "-fsanitize-minimal-runtime", "-fsanitize-recover=all", "-nostdlib",
         "-Wl,--no-entry", "-Wl,--export=refmain_", "-Wl,-z,stack-size=1048576"]

BOOL, SC, UC, SS, US, SI, UI, SL, UL, SLL, ULL, F, D = range(13)
CHAR = 13
TN = ["bool", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long",
      "unsigned long", "long long", "unsigned long long", "float", "double", "char"]
BITS = [8, 8, 8, 16, 16, 32, 32, 32, 32, 64, 64, 32, 64, 8]
SIGNED = [False, True, False, True, False, True, False, True, False, True, False, True, True, True]
INTS = [BOOL, SC, UC, SS, US, SI, UI, SL, UL, SLL, ULL, CHAR]
ARITH = INTS + [F, D]
ORD = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 1]   # wcpl's conversion order


def promote(t):
    return SI if t in (BOOL, SC, UC, SS, US, CHAR) else t


def common(a, b):
    if D in (a, b):
        return D
    if F in (a, b):
        return F
    a, b = promote(a), promote(b)
    if a == b:
        return a
    r = {SI: 0, UI: 0, SL: 1, UL: 1, SLL: 2, ULL: 2}
    if SIGNED[a] == SIGNED[b]:
        return a if r[a] > r[b] else b
    s, u = (a, b) if SIGNED[a] else (b, a)
    if r[u] >= r[s]:
        return u
    if BITS[s] > BITS[u]:
        return s
    return {SL: UL, SLL: ULL, SI: UI}[s]


def assignable(dst, src, mem=False):
    """May wcpl take src for dst without a cast (assignment)? Narrow objects in memory are stricter."""
    if mem:
        return passable(dst, src)
    return dst in (BOOL, SC, UC, SS, US, CHAR) or ORD[src] <= ORD[dst]


def passable(dst, src):
    return (dst in (BOOL, SC, UC, SS, US, CHAR) and ORD[src] <= ORD[SI]) or ORD[src] <= ORD[dst]


def lit(rng, t, v=None):
    """A literal or cast literal of exactly type t"""
    if t in (F, D):
        if v is None:
            v = rng.choice([0.0, 1.0, 0.5, 1.5, 2.0, 3.25, 10.0, 100.5, 1e10, 1e-5, 123456.789, 7.0, 1e20, 0.1,
                            4294967296.0, 2147483648.0, 9007199254740993.0, 1e300, 1e-300, 0.333333])
        s = repr(float(v))
        if t == F:
            if abs(float(v)) > 1e38 or (v != 0 and abs(float(v)) < 1e-37):
                s = "1.25"
            return s + "f"
        return s
    b = BITS[t]
    if v is None:
        v = rand_int(rng, t)
    if t == SI:
        if v < 0:
            return "(-%d-1)" % (-v - 1) if v != -1 else "(-1)"
        return rng.choice(["%d", "0x%x"]) % v if v > 9 else str(v)
    if t == UI:
        return rng.choice(["%uu".replace("%u", "%d"), "0x%xU"]) % (v & 0xffffffff)
    if t == SLL:
        if v < 0:
            return "(-%dLL-1LL)" % (-v - 1)
        return "%dLL" % v
    if t == ULL:
        return rng.choice(["%dULL", "0x%xULL"]) % (v & (2 ** 64 - 1))
    if t in (SL,):
        return "(long)%s" % lit(rng, SI, v)
    if t in (UL,):
        return "(unsigned long)%s" % lit(rng, UI, v)
    return "(%s)%s" % (TN[t], lit(rng, SI, v))


def rand_int(rng, t):
    b = BITS[t]
    if t == BOOL:
        return rng.randint(0, 1)
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if SIGNED[t] else (0, (1 << b) - 1)
    k = rng.random()
    if k < 0.35:
        v = rng.choice([0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000])
        if SIGNED[t] and rng.random() < 0.3:
            v = -v
    elif k < 0.7:
        v = rng.choice([lo, hi, lo + 1, hi - 1, (1 << (b - 1)), (1 << rng.randint(0, b - 1)),
                        (1 << rng.randint(0, b - 1)) - 1, -1])
    elif k < 0.76 and b >= 32:
        # next to a value half-way between two floats or two doubles
        p = 24 if b == 32 or rng.random() < .6 else 53
        n = rng.randint(p + 1, b)
        v = rng.randint(1 << (p - 1), (1 << p) - 1) << (n - p) | 1 << (n - p - 1)
        v += rng.choice([0, 1, -1]) if rng.random() < .8 else rng.choice([1, -1]) << rng.randint(0, n - p - 1)
        v = -v if SIGNED[t] and rng.random() < .4 else v
    else:
        v = rng.randint(lo, hi)
        if rng.random() < 0.5:
            v >>= rng.randint(0, b - 1)
    v &= (1 << b) - 1
    if SIGNED[t] and v >> (b - 1):
        v -= 1 << b
    return v


class X:
    """an expression: text, C type, priority is always atomic (parenthesised)"""
    __slots__ = ("s", "t")

    def __init__(self, s, t):
        self.s, self.t = s, t


class ExprGen:
    def __init__(self, rng, atoms, floats=False, consts=True, stats=None, constonly=False):
        self.r, self.atoms, self.floats, self.consts = rng, atoms, floats, consts
        self.stats = stats if stats is not None else {}
        self.constonly = constonly

    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def leaf(self, t=None):
        r = self.r
        if self.atoms and (not self.consts or r.random() < 0.72):
            c = [a for a in self.atoms if t is None or a.t == t]
            if c:
                return r.choice(c)
        if t is None:
            t = r.choice(INTS + ([F, D, D] if self.floats else []))
        return X(lit(r, t), t)

    def cast(self, x, t):
        if x.t == t and self.r.random() < 0.9:
            return x
        self.note("cast%d.%d" % (t, x.t))
        return X("((%s)%s)" % (TN[t], x.s), t)

    def toint(self, x):
        if x.t in (F, D):
            return X("((int)%s)" % self.inrange(x, SI), SI)
        return x

    def inrange(self, x, t):
        """x (floating) as a double that a conversion to t can represent"""
        lo, hi = {BOOL: (-1e300, 1e300), SC: (-129., 128.), CHAR: (-129., 128.), UC: (-1., 256.), SS: (-32769., 32768.),
                  US: (-1., 65536.), SI: (-2147483649., 2147483648.), SL: (-2147483649., 2147483648.),
                  UI: (-1., 4294967296.), UL: (-1., 4294967296.), SLL: (-9223372036854777856., 9223372036854775808.),
                  ULL: (-1., 18446744073709551616.)}[t]
        if self.constonly:
            return x.s              # out of range is undefined behaviour: the reference says so
        return "rd_(%s, %r, %r)" % (x.s, lo, hi)

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.08:
            return self.leaf()
        k = r.random()
        if k < 0.30:
            return self.arith(d)
        if k < 0.44:
            return self.bit(d)
        if k < 0.54:
            return self.shift(d)
        if k < 0.66:
            return self.cmp(d)
        if k < 0.74:
            return self.logic(d)
        if k < 0.82:
            return self.cond(d)
        if k < 0.90:
            return self.un(d)
        if k < 0.985:
            x = self.expr(d - 1)
            t = r.choice(INTS + ([F, D] if self.floats else []))
            if x.t in (F, D) and t not in (F, D):
                self.note("cast%d.%d" % (t, x.t))
                return X("((%s)%s)" % (TN[t], self.inrange(x, t) if t != BOOL or r.random() < .5 else x.s), t)
            return self.cast(x, t)
        if self.constonly:
            return self.leaf()
        a, b = self.expr(d - 1), self.expr(d - 1)
        self.note("comma")
        return X("(%s, %s)" % (a.s, b.s), b.t)

    def arith(self, d):
        r = self.r
        a, b = self.expr(d - 1), self.expr(d - 1)
        op = r.choice("++--**/%")
        t = common(a.t, b.t)
        if op in "/%":
            if t in (F, D):
                if op == "%":
                    a, b = self.toint(a), self.toint(b)
                    t = common(a.t, b.t)
                else:
                    self.note("op/%d" % t)
                    return X("(%s / %s)" % (a.s, b.s), t)
            # a divisor that is neither 0 nor -1
            m = r.random()
            if m < 0.4:
                b = X("((%s & %s) | 1)" % (b.s, lit(r, SI, r.choice([3, 7, 0x7f, 0x7ffe]))), common(b.t, SI))
            elif m < 0.6:
                v = r.choice([1, 2, 3, 5, 7, 8, 10, 16, 64, 100, 1000, -2, -3, -8])
                tt = r.choice([SI, SLL, ULL, UI])
                b = X(lit(r, tt, v if SIGNED[tt] else abs(v)), tt)
            else:
                b = X("(%s | 1)" % b.s, common(b.t, SI))
                # -1 as a divisor is only a problem for the most negative dividend: make it smaller
                if SIGNED[common(a.t, b.t)]:
                    a = X("(%s / 2)" % a.s, common(a.t, SI))
            t = common(a.t, b.t)
        self.note("op%s%d" % (op, t))
        return X("(%s %s %s)" % (a.s, op, b.s), t)

    def bit(self, d):
        a, b = self.toint(self.expr(d - 1)), self.toint(self.expr(d - 1))
        op = self.r.choice("&|^")
        t = common(a.t, b.t)
        self.note("op%s%d" % (op, t))
        return X("(%s %s %s)" % (a.s, op, b.s), t)

    def shift(self, d):
        r = self.r
        a, b = self.toint(self.expr(d - 1)), self.toint(self.expr(d - 2))
        t = promote(a.t)
        op = r.choice(["<<", ">>"])
        n = BITS[t]
        if r.random() < 0.4:
            b = X(lit(r, r.choice([SI, UI, SLL]), r.choice([0, 1, 2, 4, 7, 8, 15, 16, 24, n - 1, n // 2])), SI)
        else:
            b = X("(%s & %s)" % (b.s, lit(r, SI, n - 1)), common(b.t, SI))
        self.note("op%s%d" % (op, t))
        return X("(%s %s %s)" % (a.s, op, b.s), t)

    def cmp(self, d):
        r = self.r
        a, b = self.expr(d - 1), self.expr(d - 1)
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        self.note("op%s%d" % (op, common(a.t, b.t)))
        return X("(%s %s %s)" % (a.s, op, b.s), SI)

    def logic(self, d):
        r = self.r
        k = r.random()
        if k < 0.3:
            a = self.expr(d - 1)
            self.note("!%d" % a.t)
            return X("(!%s)" % a.s, SI)
        a, b = self.expr(d - 1), self.expr(d - 1)
        op = r.choice(["&&", "||"])
        self.note("op" + op)
        return X("(%s %s %s)" % (a.s, op, b.s), SI)

    def cond(self, d):
        c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
        self.note("?:%d" % common(a.t, b.t))
        return X("(%s ? %s : %s)" % (c.s, a.s, b.s), common(a.t, b.t))

    def un(self, d):
        r = self.r
        a = self.expr(d - 1)
        op = r.choice("-~+")
        if op == "~":
            a = self.toint(a)
        t = promote(a.t)
        self.note("un%s%d" % (op, t))
        return X("(%s%s%s)" % (op, " " if op in "+-" else "", a.s), t)


def emit_stmt(idn, x, rng=None):
    if x.t == D:
        return "emitd(%s, %s);" % (idn, x.s)
    if x.t == F:
        return "emitf(%s, %s);" % (idn, x.s)
    if x.t == ULL:
        return "emit(%s, %s);" % (idn, x.s)
    return "emit(%s, (unsigned long long)%s);" % (idn, x.s)


# ------------------------------------------------------------------ running both

class Obs:
    """parsed observation stream: list of (id, value-text, ub)"""
    def __init__(self, data):
        self.items = []
        for ln in data.split(b"\n"):
            if b":" in ln:
                a, b = ln.split(b":", 1)
                ub = b.endswith(b"!")
                self.items.append((a, b.rstrip(b"!"), ub))


def wcpl_compile(tree, d, srcs, out, opts=(), exe=None, lib=True, env=None, timeout=120):
    cmd = [exe or tree.exe, "-q"] + list(opts)
    if lib:
        cmd += ["-L", tree.lib]
    cmd += ["-I", tree.inc, "-o", out] + list(srcs)
    return sh(cmd, cwd=d, env=env, timeout=timeout)


def ref_compile(d, src, out):
    simd = "wasm_simd128.h" in open(os.path.join(d, src)).read()
    r = sh(CLANG + (["-msimd128", "-ffreestanding"] if simd else []) + ["-o", out, src], cwd=d, timeout=180)
    if r.timeout or r.rc:
        raise Inconclusive("reference compiler rejected a generated program: " + r.err.decode("latin1")[:1500] +
                           "\n" + open(os.path.join(d, src)).read()[-3000:])


def case_of(items, k):
    return [i for i in items if i[0] == k]


def diff_run(tree, scratch, text, opts=(), tag="t", known_reject=None, fuel=2_000_000_000, exe=None, refout=None, obj=None):
    """Compile `text` with wcpl (opts) and with the reference, run both, compare the streams.
    Returns dict(evals, ub, failure or None, refout)."""
    d = tempfile.mkdtemp(prefix="dr", dir=scratch)
    try:
        with open(os.path.join(d, "t.c"), "w") as f:
            f.write(text)
        files = {"t.c": text}
        if refout is None:
            ref_compile(d, "t.c", "ref.wasm")
            rr = run_wasm(os.path.join(d, "ref.wasm"), tmp=d, fuel=fuel, export="refmain_")
            if rr.invalid:
                raise Inconclusive("reference module invalid: " + rr.invalid)
            refout = (rr.out, rr.trap)
        ro = Obs(refout[0])
        if refout[1] and ro.items:
            ro.items.pop()          # the reference itself was cut short (fuel): its last line may be partial
        if obj:                     # through an object file of that kind
            r = wcpl_compile(tree, d, ["t.c"], "t" + obj, tuple(opts) + ("-c",), exe=exe, lib=False)
            if r.rc == 0 and not r.timeout:
                r = wcpl_compile(tree, d, ["t" + obj], "t.wasm", opts, exe=exe)
        else:
            r = wcpl_compile(tree, d, ["t.c"], "t.wasm", opts, exe=exe)
        msg = (r.err + r.out).decode("latin1")[:1500]
        if r.timeout:
            return {"evals": 0, "refout": refout, "failure": Failure("hang:" + tag, "wcpl does not finish on a small program", files)}
        if r.rc != 0:
            return {"evals": 0, "refout": refout, "failure": Failure("rejected:" + tag, "wcpl %s (opts %s) a valid program: rc=%s %s" %
                    ("rejects" if r.rc and r.rc > 0 else "crashes on", " ".join(opts), r.rc, msg), files)}
        w = run_wasm(os.path.join(d, "t.wasm"), tmp=d, fuel=fuel)
        if w.invalid:
            return {"evals": 1, "refout": refout, "failure": Failure("invalid:" + tag, "wcpl's output module does not validate: " + w.invalid, files)}
        wo = Obs(w.out)
        n = u = 0
        for i, (k, v, ub) in enumerate(ro.items):
            n += 1
            if i >= len(wo.items):
                if refout[1]:
                    break
                return {"evals": n, "refout": refout, "failure": Failure("stop:" + tag,
                        "execution stopped after %d of %d observations (opts %s): trap=%s code=%s; expected next %s:%s" % (
                            len(wo.items), len(ro.items), " ".join(opts), w.trap, w.code, k.decode(), v.decode()), files)}
            if ub:
                u += 1
                if wo.items[i][0] != k:
                    break       # undefined behaviour may legitimately derail the rest
                continue
            if wo.items[i][:2] != (k, v):
                return {"evals": n, "refout": refout, "failure": Failure("diff:" + tag,
                        "observation %d (case 0x%s): expected %s, got %s:%s (opts %s)" % (
                            i, k.decode(), v.decode(), wo.items[i][0].decode(), wo.items[i][1].decode(), " ".join(opts)), files)}
        else:
            if len(wo.items) != len(ro.items) and u == 0 and not refout[1]:
                return {"evals": n, "refout": refout, "failure": Failure("extra:" + tag, "wcpl's program makes %d observations, expected %d" %
                        (len(wo.items), len(ro.items)), files)}
            if u == 0 and not refout[1] and (w.trap or w.code not in (0,)):
                return {"evals": n, "refout": refout, "failure": Failure("end:" + tag, "program ends with trap=%s code=%s instead of exit 0" % (w.trap, w.code), files)}
        return {"evals": n - u, "ub": u, "refout": refout, "failure": None}
    finally:
        shutil.rmtree(d, ignore_errors=True)
