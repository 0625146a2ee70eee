"""Driver programs: C programs in the dialect, built with the tree's compiler and library, which read a command stream from
standard input, call the library and report what they see. The monitors (Python models) live in vf/lib*.py."""
import hashlib, os, struct, tempfile
from .core import Failure, Failed, Inconclusive, run_wasm
from .cgen import wcpl_compile

HEAD = r'''
#include <unistd.h>
#include <stdint.h>
#define IN_MAX 4000000
static unsigned char in_[IN_MAX]; static int inn_, inp_;
static char out_[70000]; static int outn_;
static void flush_(void) { int p = 0; while (p < outn_) { int k = (int)write(1, &out_[p], (size_t)(outn_ - p)); if (k <= 0) _exit(99); p = p + k; } outn_ = 0; return; }
static void oc_(int c) { if (outn_ >= 65536) flush_(); out_[outn_] = (char)c; outn_ = outn_ + 1; return; }
static void load_(void) { while (1) { int k = (int)read(0, &in_[inn_], (size_t)(IN_MAX - inn_)); if (k <= 0) break; inn_ = inn_ + k; } return; }
static int more_(void) { return inp_ < inn_; }
static int g8_(void) { int c; if (inp_ >= inn_) { flush_(); _exit(98); } c = in_[inp_]; inp_ = inp_ + 1; return c; }
static unsigned g16_(void) { unsigned a = (unsigned)g8_(); return a | (unsigned)g8_() << 8; }
static unsigned g32_(void) { unsigned a = g16_(); return a | g16_() << 16; }
static unsigned long long g64_(void) { unsigned long long a = g32_(); return a | (unsigned long long)g32_() << 32; }
static double gd_(void) { union { unsigned long long u; double d; } x; x.u = g64_(); return x.d; }
static unsigned char *gb_(int n) { int p = inp_; if (inp_ + n > inn_) { flush_(); _exit(98); } inp_ = inp_ + n; return &in_[p]; }
/* n bytes in the input, used in place */
static void oh_(unsigned long long v) { char b[20]; int n = 0; do { int d = (int)(v & 15ull); b[n] = (char)(d < 10 ? d + 48 : d + 87); n = n + 1; v = v >> 4; } while (v != 0ull); while (n > 0) { n = n - 1; oc_(b[n]); } return; }
static void ou_(unsigned long long v) { oh_(v); oc_(32); return; }
static void oi_(int v) { ou_((unsigned long long)(unsigned)v); return; }
static void od_(double d) { union { unsigned long long u; double d; } x; x.d = d; if (d != d) { oc_(110); oc_(32); } else ou_(x.u); return; }
static void ob_(const void *p, int n) { const unsigned char *q = p; int i; for (i = 0; i < n; ++i) { int d = q[i] >> 4; oc_(d < 10 ? d + 48 : d + 87); d = q[i] & 15; oc_(d < 10 ? d + 48 : d + 87); } oc_(32); return; }
static void os_(const char *s) { int n = 0; while (s[n] != 0) ++n; oc_(34); ob_(s, n); return; }
static void nl_(void) { oc_(10); return; }
static unsigned fnv_(const void *p, int n) { const unsigned char *q = p; unsigned h = 2166136261u; int i; for (i = 0; i < n; ++i) { h = h ^ q[i]; h = h * 16777619u; } return h; }
'''


def fnv(b):
    h = 2166136261
    for c in b:
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h


class W:
    """command stream writer"""
    def __init__(self):
        self.b = bytearray()

    def u8(self, *v):
        for x in v:
            self.b.append(x & 255)
        return self

    def u16(self, *v):
        for x in v:
            self.b += struct.pack("<H", x & 0xffff)
        return self

    def u32(self, *v):
        for x in v:
            self.b += struct.pack("<I", x & 0xffffffff)
        return self

    def u64(self, *v):
        for x in v:
            self.b += struct.pack("<Q", x & 0xffffffffffffffff)
        return self

    def d(self, v):
        self.b += struct.pack("<d", v)
        return self

    def blob(self, s):
        """length (u16) and bytes"""
        self.u16(len(s))
        self.b += s
        return self

    def z(self, s):
        """NUL-terminated, length counted with the terminator"""
        return self.blob(s + b"\0")


GZ = "static char *gz_(void) { int n = (int)g16_(); return (char *)gb_(n); }\n"


def build(ctx, name, text, opts=()):
    """compile a driver with the tree's compiler, headers and library; returns the module's bytes"""
    d = tempfile.mkdtemp(prefix="drv", dir=ctx.scratch)
    with open(d + "/%s.c" % name, "w") as f:
        f.write(text)
    r = wcpl_compile(ctx.tree, d, [name + ".c"], name + ".wasm", opts)
    if r.timeout or r.rc != 0:
        raise Failed(Failure("driver", "the driver %s.c is a valid program using documented library functions, and does not compile: rc=%s %s" % (name, r.rc, r.err[:1500].decode("latin1")), {name + ".c": text}))
    with open(d + "/%s.wasm" % name, "rb") as f:
        return f.read()


def session(ctx, mod, w, expect, key, describe, name, src, preopen=None, fuel=4_000_000_000, argv=("prog",), env=(), exitcode=0, memlimit=None):
    """Run one command stream. expect: list of expected output lines (str) or callables(line) -> problem or None.
    describe(i) says what command i was. Returns an absorb()-able result."""
    r = run_wasm(mod, stdin=bytes(w.b), tmp=ctx.scratch, preopen=preopen, fuel=fuel, argv=argv, env=env, memlimit=memlimit)
    if r.invalid:
        return {"evals": 1, "failures": [Failure(key + ":invalid", "%s: module invalid: %s" % (name, r.invalid), {name + ".c": src})]}
    lines = r.out.decode("latin1").split("\n")
    fails = []
    n = 0
    for i, e in enumerate(expect):
        if i >= len(lines) - 1:
            fails.append(Failure(key + ":stop", "%s stops (trap=%s exit=%s stderr=%r) in command %d: %s" % (name, r.trap, r.code, r.err[:200], i, describe(i))))
            break
        n += 1
        got = lines[i].strip()
        p = e(got) if callable(e) else (None if got == e.strip() else "expected %s, got %s" % (e, got))
        if p:
            k = key
            if isinstance(p, tuple):
                k, p = key + ":" + p[0], p[1]
            fails.append(Failure(k, "command %d %s: %s" % (i, describe(i), p)))
            if len(fails) >= 3:
                break
    if not fails and (r.code != exitcode or r.trap):
        fails.append(Failure(key + ":exit", "%s: exit=%s trap=%s after all commands; stderr %r" % (name, r.code, r.trap, r.err[:200])))
    for f in fails:
        f.files = {name + ".c": src, "stdin.bin": bytes(w.b)}
    return {"evals": n, "failures": fails, "keys": [hashlib.sha1(bytes(w.b)).hexdigest()[:16]], "counts": {"sessions": 1}}
