"""C26: programs made of the SIMD intrinsics (wasm_simd128.h) and the scalar instruction intrinsics (wasm.h), every one
by its documented prototype; the reference is clang's own <wasm_simd128.h> and plain C for the scalar ones."""
import os, re
from .cgen import *

_T = open(os.path.join(os.path.dirname(__file__), "simd_sigs.txt")).read().split("--\n")


def _parse(t):
    o = []
    for l in t.splitlines():
        m = re.match(r"(\w+) (\w+)\((.*)\)$", l)
        ps = []
        for p in [x.strip() for x in m.group(3).split(",") if x.strip()]:
            if p == "...":
                ps.append("...")
            elif "*" in p:
                ps.append("ptr")
            else:
                q = p.split()
                ps.append(q[0] if len(q) > 1 else "const")
        if "..." in ps:
            n = int(re.search(r"\.\.\., \w+ c(\d+)", m.group(3)).group(1)) + 1
            i = ps.index("...")
            ps = ps[:i - 1] + [ps[-1]] * n
        o.append((m.group(1), m.group(2), ps))
    return o


SIMD, SCAL = _parse(_T[0]), _parse(_T[1])

# C meaning of the scalar intrinsics, for the reference
REFSC = r'''
#ifndef __WCPL__
typedef float float32_t; typedef double float64_t;
#define W2(t, n, ta, e) static t wasm_##n(ta a, ta b) { return e; }
#define W1(t, n, ta, e) static t wasm_##n(ta a) { return e; }
#define wasm_i32_const(c) ((int32_t)(c))
#define wasm_i64_const(c) ((int64_t)(c))
#define wasm_f32_const(c) ((float)(c))
#define wasm_f64_const(c) ((double)(c))
#define LD(n, t, m) static t wasm_##n(const void *p) { struct __attribute__((packed)) s { m x; }; return (t)((const struct s*)p)->x; }
LD(i32_load, int32_t, int32_t) LD(i64_load, int64_t, int64_t) LD(f32_load, float, float) LD(f64_load, double, double)
LD(i32_load8, int32_t, int8_t) LD(u32_load8, uint32_t, uint8_t) LD(i32_load16, int32_t, int16_t) LD(u32_load16, uint32_t, uint16_t)
LD(i64_load8, int64_t, int8_t) LD(u64_load8, uint64_t, uint8_t) LD(i64_load16, int64_t, int16_t) LD(u64_load16, uint64_t, uint16_t)
LD(i64_load32, int64_t, int32_t) LD(u64_load32, uint64_t, uint32_t)
#define ST(n, t, m) static void wasm_##n(void *p, t a) { struct __attribute__((packed)) s { m x; }; ((struct s*)p)->x = (m)a; }
ST(i32_store, int32_t, int32_t) ST(i64_store, int64_t, int64_t) ST(f32_store, float, float) ST(f64_store, double, double)
ST(i32_store8, int32_t, int8_t) ST(i32_store16, int32_t, int16_t) ST(i64_store8, int64_t, int8_t) ST(i64_store16, int64_t, int16_t) ST(i64_store32, int64_t, int32_t)
#define INTOPS(s, u, T, U, B) W1(int32_t, s##_eqz, T, a == 0) W2(int32_t, s##_eq, T, a == b) W2(int32_t, s##_ne, T, a != b) \
 W2(int32_t, s##_lt, T, a < b) W2(int32_t, u##_lt, U, a < b) W2(int32_t, s##_gt, T, a > b) W2(int32_t, u##_gt, U, a > b) \
 W2(int32_t, s##_le, T, a <= b) W2(int32_t, u##_le, U, a <= b) W2(int32_t, s##_ge, T, a >= b) W2(int32_t, u##_ge, U, a >= b) \
 W2(T, s##_add, U, (T)(a + b)) W2(T, s##_sub, U, (T)(a - b)) W2(T, s##_mul, U, (T)(a * b)) W2(T, s##_div, T, a / b) W2(U, u##_div, U, a / b) \
 W2(T, s##_rem, T, b == -1 ? 0 : a % b) W2(U, u##_rem, U, a % b) W2(T, s##_and, T, a & b) W2(T, s##_or, T, a | b) W2(T, s##_xor, T, a ^ b) \
 W2(T, s##_shl, U, (T)(a << (b & (B - 1)))) W2(T, s##_shr, T, a >> (b & (B - 1))) W2(U, u##_shr, U, a >> (b & (B - 1))) \
 W2(T, s##_rotl, U, (T)((a << (b & (B - 1))) | (a >> ((B - (b & (B - 1))) & (B - 1))))) W2(T, s##_rotr, U, (T)((a >> (b & (B - 1))) | (a << ((B - (b & (B - 1))) & (B - 1)))))
INTOPS(i32, u32, int32_t, uint32_t, 32) INTOPS(i64, u64, int64_t, uint64_t, 64)
#define CNT(s, T, U, B) static T wasm_##s##_clz(U a) { T n = 0; while (n < B && !(a >> (B - 1 - n) & 1)) n++; return n; } \
 static T wasm_##s##_ctz(U a) { T n = 0; while (n < B && !(a >> n & 1)) n++; return n; } static T wasm_##s##_popcnt(U a) { T n = 0; while (a) { n += a & 1; a >>= 1; } return n; }
CNT(i32, int32_t, uint32_t, 32) CNT(i64, int64_t, uint64_t, 64)
#define FOPS(f, T, X) W2(int32_t, f##_eq, T, a == b) W2(int32_t, f##_ne, T, a != b) W2(int32_t, f##_lt, T, a < b) W2(int32_t, f##_gt, T, a > b) \
 W2(int32_t, f##_le, T, a <= b) W2(int32_t, f##_ge, T, a >= b) W1(T, f##_abs, T, __builtin_fabs##X(a)) W1(T, f##_neg, T, -a) W1(T, f##_ceil, T, __builtin_ceil##X(a)) \
 W1(T, f##_floor, T, __builtin_floor##X(a)) W1(T, f##_trunc, T, __builtin_trunc##X(a)) W1(T, f##_nearest, T, __builtin_nearbyint##X(a)) W1(T, f##_sqrt, T, __builtin_sqrt##X(a)) \
 W2(T, f##_add, T, a + b) W2(T, f##_sub, T, a - b) W2(T, f##_mul, T, a * b) W2(T, f##_div, T, a / b) \
 W2(T, f##_min, T, a != a ? a : b != b ? b : a < b ? a : b < a ? b : __builtin_signbit(a) ? a : b) \
 W2(T, f##_max, T, a != a ? a : b != b ? b : a > b ? a : b > a ? b : __builtin_signbit(a) ? b : a) W2(T, f##_copysign, T, __builtin_copysign##X(a, b))
FOPS(f32, float, f) FOPS(f64, double, )
W1(int32_t, i32_wrap_i64, int64_t, (int32_t)a) W1(int64_t, i64_extend_i32, int32_t, a) W1(uint64_t, u64_extend_u32, uint32_t, a)
#define TR(n, T, F) W1(T, n, F, (T)a)
TR(i32_trunc_f32, int32_t, float) TR(u32_trunc_f32, uint32_t, float) TR(i32_trunc_f64, int32_t, double) TR(u32_trunc_f64, uint32_t, double)
TR(i64_trunc_f32, int64_t, float) TR(u64_trunc_f32, uint64_t, float) TR(i64_trunc_f64, int64_t, double) TR(u64_trunc_f64, uint64_t, double)
TR(f32_convert_i32, float, int32_t) TR(f32_convert_u32, float, uint32_t) TR(f32_convert_i64, float, int64_t) TR(f32_convert_u64, float, uint64_t) TR(f32_demote_f64, float, double)
TR(f64_convert_i32, double, int32_t) TR(f64_convert_u32, double, uint32_t) TR(f64_convert_i64, double, int64_t) TR(f64_convert_u64, double, uint64_t) TR(f64_promote_f32, double, float)
#define RI(n, T, F) static T wasm_##n(F a) { union { T t; F f; } u; u.f = a; return u.t; }
RI(i32_reinterpret_f32, int32_t, float) RI(i64_reinterpret_f64, int64_t, double) RI(f32_reinterpret_i32, float, int32_t) RI(f64_reinterpret_i64, double, int64_t)
TR(i32_extend8, int32_t, int8_t) TR(i32_extend16, int32_t, int16_t) TR(i64_extend8, int64_t, int8_t) TR(i64_extend16, int64_t, int16_t) TR(i64_extend32, int64_t, int32_t)
#define SAT(n, T, F, LO, HI, L, H) static T wasm_##n(F a) { if (a != a) return 0; if ((double)a <= LO) return L; if ((double)a >= HI) return H; return (T)a; }
#define SAT2(F, x) SAT(i32_trunc_sat_##x, int32_t, F, -2147483648.0, 2147483647.0, (-2147483647-1), 2147483647) SAT(u32_trunc_sat_##x, uint32_t, F, 0.0, 4294967295.0, 0, 4294967295u) \
 SAT(i64_trunc_sat_##x, int64_t, F, -9223372036854775808.0, 9223372036854775808.0, (-9223372036854775807LL-1), 9223372036854775807LL) SAT(u64_trunc_sat_##x, uint64_t, F, 0.0, 18446744073709551616.0, 0, 18446744073709551615ull)
SAT2(float, f32) SAT2(double, f64)
#define wasm_memory_fill(d, v, n) memset(d, v, n)
#define wasm_memory_copy(d, s, n) memmove(d, s, n)
#endif
'''
# the builtins of sys/intrs.h: name, WCPL's spelling, the reference
_BI = [("int32_t", "bi_clz", ["uint32_t"], "__builtin_clz(a)", "wasm_i32_clz(a)"), ("int32_t", "bi_ctz", ["uint32_t"], "__builtin_ctz(a)", "wasm_i32_ctz(a)"),
       ("int32_t", "bi_popcount", ["uint32_t"], "__builtin_popcount(a)", "wasm_i32_popcnt(a)"), ("int32_t", "bi_rotl", ["uint32_t", "uint32_t"], "__builtin_rotleft(a, b)", "wasm_i32_rotl(a, b)"),
       ("int32_t", "bi_rotr", ["uint32_t", "uint32_t"], "__builtin_rotright(a, b)", "wasm_i32_rotr(a, b)"), ("int64_t", "bi_clzll", ["uint64_t"], "__builtin_clzll(a)", "wasm_i64_clz(a)"),
       ("int64_t", "bi_ctzll", ["uint64_t"], "__builtin_ctzll(a)", "wasm_i64_ctz(a)"), ("int64_t", "bi_popcountll", ["uint64_t"], "__builtin_popcountll(a)", "wasm_i64_popcnt(a)"),
       ("int64_t", "bi_rotlll", ["uint64_t", "uint64_t"], "__builtin_rotleftll(a, b)", "wasm_i64_rotl(a, b)"), ("int64_t", "bi_rotrll", ["uint64_t", "uint64_t"], "__builtin_rotrightll(a, b)", "wasm_i64_rotr(a, b)"),
       ("uint32_t", "bi_asuint32", ["float32_t"], "__builtin_asuint32(a)", "(uint32_t)wasm_i32_reinterpret_f32(a)"), ("float32_t", "bi_asfloat", ["uint32_t"], "__builtin_asfloat(a)", "wasm_f32_reinterpret_i32((int32_t)(a))"),
       ("uint64_t", "bi_asuint64", ["float64_t"], "__builtin_asuint64(a)", "(uint64_t)wasm_i64_reinterpret_f64(a)"), ("float64_t", "bi_asdouble", ["uint64_t"], "__builtin_asdouble(a)", "wasm_f64_reinterpret_i64((int64_t)(a))"),
       ("uint32_t", "bi_fasu", ["float32_t"], "_fasu((float)(a))", "(uint32_t)wasm_i32_reinterpret_f32((float)(a))"), ("uint64_t", "bi_dasull", ["float64_t"], "_dasull((double)(a))", "(uint64_t)wasm_i64_reinterpret_f64((double)(a))"),
       ("float32_t", "bi_uasf", ["uint32_t"], "_uasf((unsigned)(a))", "wasm_f32_reinterpret_i32((int32_t)(a))"), ("float64_t", "bi_ullasd", ["uint64_t"], "_ullasd((unsigned long long)(a))", "wasm_f64_reinterpret_i64((int64_t)(a))"),
       ("void", "bi_memory_fill", ["ptr", "int32_t", "size_t"], "_bfill(a, b, c)", "memset(a, b, c)"), ("void", "bi_memory_copy", ["ptr", "ptr", "size_t"], "_bcopy(a, b, c)", "memmove(a, b, c)"),
       ("void", "bi_memory_move", ["ptr", "ptr", "size_t"], "__builtin_memmove(a, b, c)", "memmove(a, b, c)"), ("void", "bi_memory_cpy", ["ptr", "ptr", "size_t"], "__builtin_memcpy(a, b, c)", "memmove(a, b, c)"),
       ("void", "bi_memory_bfill", ["ptr", "int32_t", "size_t"], "__builtin_memset(a, b, c)", "memset(a, b, c)")]
for _g, _n in (("clz", "clz"), ("ctz", "ctz"), ("popcnt", "popcnt")):
    for _t, _ct, _w in (("int32_t", "int", 32), ("uint32_t", "unsigned", 32), ("int64_t", "long long", 64), ("uint64_t", "unsigned long long", 64)):
        _BI.append(("int%d_t" % _w, "gi_%s_%s" % (_g, _t), [_t], "_%s((%s)(a))" % (_g, _ct), "wasm_i%d_%s((%s)(a))" % (_w, _n, _ct)))
for _g in ("rotl", "rotr"):
    for _t, _ct, _w in (("int32_t", "int", 32), ("uint32_t", "unsigned", 32), ("int64_t", "long long", 64), ("uint64_t", "unsigned long long", 64)):
        _BI.append(("int%d_t" % _w, "gi_%s_%s" % (_g, _t), [_t, _t], "_%s((%s)(a), (%s)(b))" % (_g, _ct, _ct), "wasm_i%d_%s((%s)(a), (%s)(b))" % (_w, _g, _ct, _ct)))


def _mac(which):
    return "".join("#define %s(%s) (%s)\n" % (x[1], ", ".join("abc"[:len(x[2])]), re.sub(r"\b([abc])\b", r"(\1)", x[which])) for x in _BI)


REFSC += "#ifndef __WCPL__\n" + _mac(4) + "#else\n" + _mac(3) + "#endif\n"
SCAL = SCAL + [x[:3] for x in _BI]
HEAD = ("#ifdef __WCPL__\n#include <stdint.h>\n#include <wasm.h>\n#include <wasm_simd128.h>\n#include <sys/intrs.h>\n#else\n#include <wasm_simd128.h>\n#include <stdint.h>\n#endif\n")
STY = {"int8_t": (8, 1), "uint8_t": (8, 0), "int16_t": (16, 1), "uint16_t": (16, 0), "int32_t": (32, 1), "uint32_t": (32, 0), "int64_t": (64, 1), "uint64_t": (64, 0)}
FPV = re.compile(r"wasm_(f32x4|f64x2)_(sqrt|ceil|floor|trunc|nearest|add|sub|mul|div|min|max|pmin|pmax|abs|neg|replace_lane|make|splat|convert\w*|demote\w*|promote\w*)$")


def fam(name):
    """family of a vector result: I (exact bits), F32, F64 (NaN payloads not compared)"""
    m = FPV.match(name)
    return {"f32x4": "F32", "f64x2": "F64"}[m.group(1)] if m else "I"


def argfam(name):
    """what vector arguments may be: an operation that is exact on bits must not see a NaN of unknown payload"""
    if FPV.match(name) or "trunc_sat" in name or re.match(r"wasm_f(32x4|64x2)_(eq|ne|lt|gt|le|ge)$", name):
        return "any32" if "f32x4" in name.split("_", 1)[1][:6] else "any64"
    return "I"


class G:
    def __init__(self, r, st):
        self.r, self.st = r, st

    def note(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def ci(self, t):
        """integer literal of type t"""
        b, s = STY[t]
        T = {8: SC if s else UC, 16: SS if s else US, 32: SI if s else UI, 64: SLL if s else ULL}[b]
        v = rand_int(self.r, T)
        if b <= 16:
            return "(%d)" % v if v < 0 else "%d" % v
        return lit(self.r, T, v)

    def cf(self, t):
        s = self.r.choice(["0.0", "1.0", "1.5", "2.5", "-0.5", "3.75", "100.25", "1e10", "-3.0", "0.1", "65536.0", "1e-20", "-2.5", "255.0", "70000.0", "3e9"])
        s = "(%s%s)" % (s, "f" if t == "float32_t" else "")
        return s

    def const(self, t):
        return self.cf(t) if t[0] == "f" else self.ci(t)

    def scal(self, t, d):
        """scalar expression of type t (a valid argument)"""
        r = self.r
        if t == "bool":
            t = "int32_t"
        if t in ("float32_t", "float64_t"):
            if d <= 0 or r.random() < .3:
                return r.choice([self.cf(t), self.cf(t), "f%d" % r.randint(0, 2) if t == "float32_t" else "d%d" % r.randint(0, 2)])
        elif d <= 0 or r.random() < .3:
            b, s = STY[t]
            v = {64: "q%d", 32: "i%d" if s else "u%d"}.get(b, "i%d") % r.randint(0, 2)
            if b == 64 and not s:
                return r.choice([self.ci(t), "(unsigned long long)" + v])
            if b < 32:
                return r.choice([self.ci(t), "(%s)%s" % (t, v)])
            return r.choice([self.ci(t), v])
        c = [x for x in SCAL + SIMD if x[0] == t and not x[1].startswith("wasm_memory") and x[2] != []]
        if t in ("int8_t", "uint8_t", "int16_t", "uint16_t"):
            c = [x for x in SIMD if x[0] == t]
        n, ps = r.choice(c)[1:]
        # a float argument of an exact operation must not be a NaN of unknown payload
        if "extract_lane" in n and n[5] == "f":
            pass
        if n in ("wasm_i32_reinterpret_f32", "wasm_i64_reinterpret_f64", "wasm_f32_copysign", "wasm_f64_copysign", "bi_asuint32", "bi_asuint64", "bi_fasu", "bi_dasull"):
            d = 0
        self.note(n)
        if re.match(r"wasm_[iu]\d\d_(div|rem)$", n):
            return "%s(%s, %s)" % (n, self.scal(ps[0], d - 1), r.choice(["3", "7", "10", "1", "1000"]) + {"int32_t": "", "uint32_t": "u", "int64_t": "LL", "uint64_t": "ULL"}[ps[1]])
        m = re.match(r"wasm_([iu]\d\d)_trunc_(f\d\d)$", n)
        if m:
            lo, hi = {"i32": ("-2147483000.0", "2147483000.0"), "u32": ("-0.5", "4294967000.0"), "i64": ("-9.2e18", "9.2e18"), "u64": ("-0.5", "1.8e19")}[m.group(1)]
            e = self.scal("float64_t", d - 1)
            return "%s(%srd_(%s, %s, %s))" % (n, "(float)" if m.group(2) == "f32" else "", e, lo, hi)
        return self.call(n, ps, d)

    def call(self, n, ps, d):
        r = self.r
        if "_const" in n:
            a = [self.const({"wasm_i32_const": "int32_t", "wasm_i64_const": "int64_t", "wasm_f32_const": "float32_t", "wasm_f64_const": "float64_t"}[n] if p == "const" else p) for p in ps]
            return "%s(%s)" % (n, ", ".join(a))
        lanes = {"8x16": 16, "16x8": 8, "32x4": 4, "64x2": 2}
        nl = None
        m = re.match(r"wasm_[iuf](8x16|16x8|32x4|64x2)_", n)
        if m:
            nl = lanes[m.group(1)]
        m = re.match(r"wasm_v128_(?:load|store)(8|16|32|64)_lane", n)
        if m:
            nl = 128 // int(m.group(1))
        a = []
        for p in ps:
            if p == "ptr":
                a.append(r.choice(["&mem_[%d]" % r.randint(0, 200), "pm + %d" % r.randint(0, 100)]))
            elif p == "v128_t":
                a.append(self.vec(d - 1, argfam(n)))
            elif p == "int":
                a.append(str(r.randint(0, nl - 1)))
            elif "shuffle" in n:
                a.append(str(r.randint(0, nl - 1)))  # lanes of the second operand: see the known finding
            else:
                a.append(self.scal(p, d - 2))
        return "%s(%s)" % (n, ", ".join(a))

    def vec(self, d, fa="any"):
        """vector expression whose family is acceptable"""
        r = self.r
        if d <= 0 or r.random() < .12:
            c = ["v%d" % r.randint(0, 3), "gv[%d]" % r.randint(0, 2), "sv.b", "*pv", "gi"]
            if fa == "any32":
                c += ["w0", "w1"]
            if fa == "any64":
                c += ["x0", "x1"]
            return r.choice(c)
        for _ in range(50):
            t, n, ps = r.choice(SIMD)
            if t != "v128_t":
                continue
            f = fam(n)
            if f == "I" or (fa == "any32" and f == "F32") or (fa == "any64" and f == "F64"):
                self.note(n)
                return self.call(n, ps, d)
        return "v0"


def gen_simd_program(rng, stats=None):
    r = rng
    st = stats if stats is not None else {}
    g = G(r, st)
    P = PRELUDE.replace("#define bool _Bool\n#define true 1\n#define false 0\n", "#include <stdbool.h>\n").replace("typedef unsigned long size_t;\n", "#include <stddef.h>\n").replace("#define offsetof(t,f) ((int)__builtin_offsetof(t,f))\n", "").replace("#define NULL ((void*)0)\n", "")
    L = [HEAD, P, REFSC]
    L.append("static unsigned char mem_[256]; static struct { int a; v128_t b; } sv;")
    inits = ["wasm_i32x4_const(%s)" % ", ".join(g.ci("int32_t") for _ in range(4)), "wasm_i8x16_const(%s)" % ", ".join(g.ci("int8_t") for _ in range(16)), "wasm_f64x2_const(%s, %s)" % (g.cf("float64_t"), g.cf("float64_t")),
             "wasm_u16x8_const(%s)" % ", ".join(g.ci("uint16_t") for _ in range(8)), "wasm_i64x2_const(%s, %s)" % (g.ci("int64_t"), g.ci("int64_t")), "wasm_f32x4_const_splat(%s)" % g.cf("float32_t")]
    L.append("static v128_t gv[3]; static v128_t gi;")
    L.append("static void emitv(int id, v128_t v) { emit(id, (unsigned long long)wasm_i64x2_extract_lane(v, 0)); emit(id, (unsigned long long)wasm_i64x2_extract_lane(v, 1)); }")
    L.append("static void emitw(int id, v128_t v) { emitf(id, wasm_f32x4_extract_lane(v, 0)); emitf(id, wasm_f32x4_extract_lane(v, 1)); emitf(id, wasm_f32x4_extract_lane(v, 2)); emitf(id, wasm_f32x4_extract_lane(v, 3)); }")
    L.append("static void emitx(int id, v128_t v) { emitd(id, wasm_f64x2_extract_lane(v, 0)); emitd(id, wasm_f64x2_extract_lane(v, 1)); }")
    n = [0]

    def stmt():
        n[0] += 1
        k = r.random()
        if k < .62:
            d = r.randint(1, 3)
            t, nm, ps = r.choice([x for x in SIMD if x[0] == "v128_t"])
            g.note(nm)
            e = g.call(nm, ps, d)
            f = fam(nm)
            s = "%s(%d, %s);" % ({"I": "emitv", "F32": "emitw", "F64": "emitx"}[f], n[0], e)
            if r.random() < .4:
                v = {"I": r.choice(["v%d" % r.randint(0, 3), "gv[%d]" % r.randint(0, 2), "sv.b", "*pv"]), "F32": "w%d" % r.randint(0, 1), "F64": "x%d" % r.randint(0, 1)}[f]
                s = "%s = %s; %s(%d, %s);" % (v, e, {"I": "emitv", "F32": "emitw", "F64": "emitx"}[f], n[0], v)
            return s
        if k < .72:
            t, nm, ps = r.choice([x for x in SIMD if x[0] not in ("v128_t", "void")])
            g.note(nm)
            e = g.call(nm, ps, 2)
        elif k < .85:
            t = r.choice(["int32_t", "uint32_t", "int64_t", "uint64_t", "float32_t", "float64_t"])
            e = g.scal(t, r.randint(1, 3))
        elif k < .95:
            t, nm, ps = r.choice([x for x in SIMD + SCAL if x[0] == "void" and "memory" not in x[1]])
            g.note(nm)
            return g.call(nm, ps, 2) + ";"
        else:
            t, nm, ps = r.choice([x for x in SCAL if x[0] == "void" and "memory" in x[1]])
            g.note(nm)
            if nm.startswith("bi_memory_cpy"):
                return "%s(&mem_[%d], &mem_[%d], %d);" % (nm, r.randint(0, 100), r.randint(128, 200), r.randint(0, 28))
            if "fill" in nm:
                return "%s(&mem_[%d], %s, %d);" % (nm, r.randint(0, 100), g.scal("int32_t", 1), r.randint(0, 100))
            return "%s(&mem_[%d], &mem_[%d], %d);" % (nm, r.randint(0, 100), r.randint(0, 100), r.randint(0, 100))
        if t == "float32_t":
            return "emitf(%d, %s);" % (n[0], e)
        if t == "float64_t":
            return "emitd(%d, %s);" % (n[0], e)
        return "emit(%d, (unsigned long long)%s);" % (n[0], e)
    nf = r.randint(2, 4)
    for k in range(nf):
        L.append("static void t%d(v128_t v0, int i0, long long q0) {" % k)
        L.append("  v128_t v1 = %s, v2 = %s, v3; v128_t w0 = gi, w1 = v0, x0 = v0, x1 = gi; v128_t *pv = &gv[%d];" % (r.choice(inits), r.choice(inits), r.randint(0, 2)))
        L.append("  int i1 = %s, i2 = i0 + 1; unsigned u0 = (unsigned)i0, u1 = %s, u2 = 7u; long long q1 = %s, q2 = (long long)i0;" % (g.ci("int32_t"), g.ci("uint32_t"), g.ci("int64_t")))
        L.append("  float f0 = %s, f1 = (float)i0, f2 = 2.5f; double d0 = %s, d1 = (double)q0, d2 = -0.5; unsigned char *pm = &mem_[%d];" % (g.cf("float32_t"), g.cf("float64_t"), r.randint(0, 30)))
        L.append("  v3 = v1; sv.b = v2;")
        for _ in range(r.randint(15, 40)):
            L.append("  " + stmt())
        L.append("}")
    L.append("int main(void) { int i;\n  for (i = 0; i < 256; ++i) mem_[i] = (unsigned char)(i * %d + %d);" % (r.choice([1, 3, 7, 37, 91]), r.randint(0, 255)))
    L.append("  gi = %s; gv[0] = %s; gv[1] = %s; gv[2] = gi;" % (r.choice(inits), r.choice(inits), r.choice(inits)))
    L.append("  for (i = 0; i < 3; ++i) { ub_reset_(); " + " ".join("t%d(%s, i * %d, (long long)i * %s);" % (k, r.choice(inits + ["gv[1]"]), r.choice([1, 77, 12345]), g.ci("int32_t").replace("(", "").replace(")", "") if False else "1000003LL") for k in range(nf)) + " }")
    L.append("  for (i = 0; i < 256; ++i) emit(9999, (unsigned long long)(unsigned)mem_[i]); put_(); return 0; }")
    return "\n".join(L) + "\n"
