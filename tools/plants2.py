"""Planted bugs, second group: the library, the linker, constants, static checks."""
from plant import make
SAN = """#!/bin/sh
# builds the compiler from the sources with AddressSanitizer and UBSan and runs it on the files beside this script
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
clang -w -g -O1 -fsanitize=address -I "$r" -o "$t/wcpl" "$r/c.c" "$r/l.c" "$r/p.c" "$r/w.c" -lm || exit 2
cd "$t" || exit 2
ASAN_OPTIONS=detect_leaks=0 ./wcpl -q -c -I "$r/lib/include/" -o o.wo "$d/demo.c" 2> err.txt
grep -q "Sanitizer\\|runtime error" err.txt && exit 1
exit 0
"""
REJ = """#!/bin/sh
# the program beside this script is not valid: the compiler must refuse it and write no output
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
if "$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" 2> /dev/null; then exit 1; fi
[ ! -e "$t/a.wasm" ]
"""
WO = """#!/bin/sh
# the program beside this script, compiled to an object file first and linked from that
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -c -I "$r/lib/include/" -o "$t/demo.wo" "$d/demo.c" || exit 1
"$r/_build/wcpl" -q -L "$r/_build/lib/" -o "$t/a.wasm" "$t/demo.wo" || exit 1
cd "$t" || exit 2
/opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm > out.txt || exit 1
cmp out.txt "$d/expected.txt"
"""
DIRS = """#!/bin/sh
# lists a directory with many names of different lengths
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" || exit 1
cd "$t" || exit 2
mkdir many
i=0
while [ $i -lt 400 ]; do
  n=$i; k=$((i * 7 % 23)); while [ $k -gt 0 ]; do n=x$n; k=$((k - 1)); done
  : > many/$n; i=$((i + 1))
  if [ $((i % 4)) = 0 ]; then
    c=$(/opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm) || exit 1
    [ "$c" = $((i + 2)) ] || exit 1
  fi
done
exit 0
"""
make("M01", "C16", [("lib/src/stdlib.c", "        pb->used.plsz = n;\n        return p;", "        if (n < pb->used.plsz) pb->used.plsz = n;\n        return p;")],
 "realloc that grows in place within its power-of-two block, followed by one that moves", "the second realloc copies only the size before the first, so the bytes written in between are lost",
 r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) { char *p; int i, bad = 0; p = malloc(20u); if (p == NULL) return 1; memset(p, 1, 20u); p = realloc(p, 40u); if (p == NULL) return 1; for (i = 0; i < 40; ++i) p[i] = (char)(i + 1);
  p = realloc(p, 500u); if (p == NULL) return 1; for (i = 0; i < 40; ++i) if (p[i] != (char)(i + 1)) ++bad; printf("%d\n", bad); return 0; }
""", "0\n")
make("M02", "C17", [("lib/src/string.c", "k = 2; l = 1;", "k = 2; l = 2;")],
 "a needle that begins with two equal characters, preceded in the text by an odd run of that character", "strstr and memmem do not find the needle",
 r"""#include <stdio.h>
#include <string.h>
int main(void) { printf("%d %d %d\n", strstr("aaab", "aab") != NULL, strstr("aab", "aab") != NULL, memmem("ooze ooo", 8u, "ooze", 4u) != NULL); return 0; }
""", "1 1 1\n")
make("M03", "C18", [("lib/src/stdlib.c", "nmemb -= mididx + 1;", "nmemb -= mididx;")],
 "bsearch for a key above the last element (or anywhere the upper part is taken last)", "the comparison function is called on an element past the end of the array",
 r"""#include <stdio.h>
#include <stdlib.h>
static int data[16] = { 0, 2, 4, 6, 8, 10, 12, 14, 15, 15, 15, 15, 15, 15, 15, 15 };
int cmp(const void *a, const void *b) { const int *x = (const int *)a; const int *y = (const int *)b; return *x < *y ? -1 : *x > *y ? 1 : 0; }
int main(void) { int k, n = 0; for (k = 0; k < 16; ++k) if (bsearch(&k, &data[0], 8u, sizeof(int), &cmp) != NULL) ++n; printf("%d\n", n); return 0; }
""", "8\n")
make("M04", "C21", [("lib/src/stdio.c", "        } else {\n          while (!width || (int)i < width) {", "        } else {\n          while (t == 's' || (int)i < width) {")],
 "a suppressed %s conversion with a field width, on a word longer than the width", "the width is ignored, so the following conversions read from the wrong place",
 r"""#include <stdio.h>
int main(void) { int n = -1, r; char b[8]; b[0] = 0; r = sscanf("abc123 zz", "%*3s%d", &n); printf("%d %d\n", r, n); r = sscanf("hello", "%*2s%3s", &b[0]); printf("%d %s\n", r, &b[0]); return 0; }
""", "1 123\n1 llo\n")
make("M05", "C22", [("lib/src/stdio.c", "      if (_fillbuf(fp) == EOF)\n        return (count - (nleft+size-1)/size);", "      if (_fillbuf(fp) == EOF)\n        return (count - nleft/size);")],
 "fread of elements larger than one byte from a file that ends inside an element", "the partial element is counted as read",
 r"""#include <stdio.h>
int main(void) { FILE *f; char b[64]; size_t n; f = fopen("t.dat", "wb"); if (f == NULL) return 1; fputs("0123456789", f); fclose(f);
  f = fopen("t.dat", "rb"); if (f == NULL) return 1; n = fread(&b[0], 4u, 5u, f); printf("%d %d\n", (int)n, feof(f) != 0); fclose(f); return 0; }
""", "2 1\n")
make("M06", "C24", [("lib/src/time.c", "  if (c_cycles == 4) --c_cycles;", "  if (c_cycles == 5) --c_cycles;")],
 "a time on 29 February of a year divisible by 400", "gmtime and localtime break it down as a day of the following year cycle",
 r"""#include <stdio.h>
#include <time.h>
int main(void) { time_t t; struct tm *p; t = 951782400LL; p = gmtime(&t); if (p == NULL) return 1; printf("%d-%d-%d %d\n", p->tm_year + 1900, p->tm_mon + 1, p->tm_mday, p->tm_yday); return 0; }
""", "2000-2-29 59\n")
make("M07", "C25", [("lib/src/dirent.c", "        if (dirp->buffer_used < dirp->buffer_size) return NULL;", "        if (dirp->buffer_used <= dirp->buffer_size) return NULL;")],
 "a directory whose listing fills the buffer so that only part of an entry's header is left at its end", "readdir reports the end of the directory early",
 r"""#include <stdio.h>
#include <dirent.h>
int main(void) { DIR *d; int n = 0; d = opendir("many"); if (d == NULL) return 1; while (readdir(d) != NULL) ++n; closedir(d); printf("%d\n", n); return 0; }
""", demo_sh=DIRS)
make("M08", "C23", [("lib/src/math.c", "      if (k > IEEE754_DOUBLE_SHIFT) {", "      if (k >= IEEE754_DOUBLE_SHIFT) {")],
 "pow of a negative base with an odd integral exponent between 2^20 and 2^21", "the result has the wrong sign",
 r"""#include <stdio.h>
#include <math.h>
int main(void) { printf("%d %d %d %d\n", pow(-1.0, 3.0) < 0.0, pow(-1.0, 1048577.0) < 0.0, pow(-1.0, 2097151.0) < 0.0, pow(-1.0, 2097153.0) < 0.0); return 0; }
""", "1 1 1 1\n")
make("M09", "C19", [("lib/src/stdio.c", "        flags |= FLAGS_LEFT; /* reverse padding */", "        flags = FLAGS_LEFT; /* reverse padding */")],
 "a '*' width with a negative argument, together with another flag", "the other flags are forgotten",
 r"""#include <stdio.h>
int main(void) { printf("[%*d] [%+*d] [%#*x] [%+-*d]\n", -5, 7, -5, 7, -6, 255, 4, 3); return 0; }
""", "[7    ] [+7   ] [0xff  ] [+3  ]\n")
make("M10", "C15", [("w.c", "  while (n-- > 0) if (*pc != 0) return false; else ++pc;", "  while (n-- > 1) if (*pc != 0) return false; else ++pc;")],
 "static data whose only non-zero byte is its last one, in a separately compiled module", "the object file says the data is all zeroes",
 r"""#include <stdio.h>
static unsigned char last[4] = { 0, 0, 0, 9 };
static int top[2] = { 0, 0x40000000 };
int main(void) { printf("%d %x\n", (int)last[3], top[1]); return 0; }
""", "9 40000000\n", demo_sh=WO)
make("M11", "C03", [("w.c", "  cmp = pe1->align - pe2->align;\n  if (cmp < 0) return -1; if (cmp > 0) return 1;\n", "")],
 "a wide string literal whose bytes equal those of a narrow one that the linker has placed before it", "the wide literal is merged with the narrow one and lies at an unaligned address",
 r"""#include <stdio.h>
#include <stddef.h>
static const char *p1(void) { return "x"; }
static const char *p2(void) { return "yyyy"; }
static const char *c1(void) { return "a\0\0\0\0\0\0"; }
static const char *p3(void) { return "zzz"; }
static const char *c2(void) { return "b\0\0\0c\0\0\0\0\0\0"; }
static const char *p4(void) { return "wwwwww"; }
static const char *c3(void) { return "d\0\0\0\0\0\0"; }
static const wchar_t *w1(void) { return L"a"; }
static const wchar_t *w2(void) { return L"bc"; }
static const wchar_t *w3(void) { return L"d"; }
int main(void) {
  printf("%d %d %d\n", (int)((unsigned long)w1() % 4u), (int)((unsigned long)w2() % 4u), (int)((unsigned long)w3() % 4u));
  printf("%s%s%s%s%s%s%s\n", p4(), c3(), p3(), c2(), p2(), c1(), p1());
  printf("%d %d %d\n", (int)((unsigned long)w1() % 4u), (int)((unsigned long)w2() % 4u), (int)((unsigned long)w3() % 4u));
  return 0; }
""", "0 0 0\nwwwwwwdzzzbyyyyax\n0 0 0\n")
make("M12", "C10", [("w.c", "          lidxv = (lidxv << 4) | (lidx & 0xFULL);", "          lidxv = (lidxv << 4) | (lidx & 0x7ULL);")],
 "a byte shuffle or swizzle with constant lanes of 8 or more in a module that is compiled to an object file first", "the linked program takes other lanes than the directly compiled one",
 r"""#include <stdio.h>
#include <wasm_simd128.h>
int main(void) { v128_t a, b; a = wasm_i8x16_const(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); b = a;
  a = wasm_i8x16_shuffle(a, b, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0); printf("%d %d\n", wasm_i8x16_extract_lane(a, 0), wasm_i8x16_extract_lane(a, 9)); return 0; }
""", "15 6\n", demo_sh=WO)
make("M13", "C13", [("w.c", "          while (i < SBSIZE && (c = *s++) && isxdigit(c))\n            buf[i++] = c;\n          if (i == SBSIZE) goto err;", "          while (i <= SBSIZE && (c = *s++) && isxdigit(c))\n            buf[i++] = c;\n          if (i == SBSIZE) goto err;")],
 "an object file with a \\x{...} escape of 33 or more digits", "the compiler writes past the end of a buffer on its stack",
 files={"demo.wo": "(module $m\n (data $m:d const align=1 \"\\x{" + "0" * 60 + "41}\"))\n"}, demo_sh=SAN.replace("-q -c -I \"$r/lib/include/\" -o o.wo \"$d/demo.c\"", "-q -L \"$d/\" -o o.wasm \"$d/demo.wo\""))
make("M14", "C26", [("lib/include/wasm_simd128.h", "#define wasm_u32x4_extmul_high_u16x8(a, b) ((v128_t(*)(v128_t, v128_t))asm(i32x4.extmul_high_i16x8_u)(a, b))", "#define wasm_u32x4_extmul_high_u16x8(a, b) ((v128_t(*)(v128_t, v128_t))asm(i32x4.extmul_high_i16x8_s)(a, b))")],
 "wasm_u32x4_extmul_high_u16x8 with a high lane of 0x8000 or more", "the lanes are multiplied as signed numbers",
 r"""#include <stdio.h>
#include <wasm_simd128.h>
int main(void) { v128_t a; a = wasm_i32x4_splat(-1); a = wasm_u32x4_extmul_high_u16x8(a, a); printf("%x\n", wasm_i32x4_extract_lane(a, 0)); return 0; }
""", "fffe0001\n")
make("M15", "C02", [("c.c", "pil[0] = cl, pil[1] = NT_CONTINUE;  \n      expr_wasmify(ndref(pn, 0), pvib, plib); /* s */", "pil[0] = l, pil[1] = NT_CONTINUE;  \n      expr_wasmify(ndref(pn, 0), pvib, plib); /* s */")],
 "continue inside a do-while loop, executed when the condition is false", "the loop goes round again without looking at its condition",
 r"""#include <stdio.h>
int main(void) { int i = 0, n = 0; do { ++n; if (i++ & 1) continue; n += 10; } while (i < 4); printf("%d %d\n", i, n); return 0; }
""", "4 24\n")
make("M16", "C14", [("c.c", "    if (!assign_compatible(pftni, ptni)) {\n      n2eprintf(pani, prn, \"can't pass argument[%d]: unexpected type\", i);\n    }\n    if (!same_type(pftni, ptni)) pani = compile_cast(prn, pftni, pani);\n    acode_swapin(pcn, pani); /* leaves arg on stack */\n    if (nd_inited) ndfini(&nd);\n  }\n  if (etc", "    if (!assign_compatible(pftni, ptni) && (pftni->ts != TS_PTR || i == 0)) {\n      n2eprintf(pani, prn, \"can't pass argument[%d]: unexpected type\", i);\n    }\n    if (!same_type(pftni, ptni)) pani = compile_cast(prn, pftni, pani);\n    acode_swapin(pcn, pani); /* leaves arg on stack */\n    if (nd_inited) ndfini(&nd);\n  }\n  if (etc")],
 "a call whose second or later argument is not of the pointer type of the parameter", "the call is accepted and the value is used as an address",
 r"""static int f(int a, int *p) { return a + *p; }
int main(void) { int k = 3; return f(1, k); }
""", demo_sh=REJ)
make("M17", "C11", [("lib/src/crt.args.c", "  while (onterm_count > 0) {\n    onterm_func_t fn = onterm_funcs[--onterm_count];", "  size_t n = onterm_count;\n  while (n > 0) {\n    onterm_func_t fn = onterm_funcs[--n]; onterm_count = n;")],
 "an exit handler that registers another handler, in a program whose main takes arguments", "the newly registered handler is not called",
 r"""#include <stdio.h>
#include <stdlib.h>
void late(void) { puts("late"); }
void early(void) { puts("early"); atexit(&late); }
int main(int argc, char **argv) { atexit(&early); puts("main"); return 0; }
""", "main\nearly\nlate\n", opts="-a 4096")
make("M18", "C07", [("c.c", "        case TT_TILDE: pvz->u = integral_mask(tz, ~x); break;", "        case TT_TILDE: pvz->u = ~x; break;")],
 "a constant expression that divides or shifts right the complement of an unsigned int", "the value has bits above the type's width and the quotient is wrong",
 r"""#include <stdio.h>
static unsigned a = ~0u / 3u;
static unsigned b = ~0xF0u >> 4u;
int main(void) { printf("%x %x\n", a, b); return 0; }
""", "55555555 ffffff0\n")
make("M19", "C20", [("lib/src/stdio.c", "char style, unsigned int prec, unsigned int width, unsigned int flags)\n{\n  if ((value != value) || (value > DBL_MAX) || (value < -DBL_MAX)) {", "char style, unsigned int prec, unsigned int width, unsigned int flags)\n{\n  if ((value != value) || (value >= DBL_MAX) || (value < -DBL_MAX)) {")],
 "printing the largest finite double with e, f or g", "it is printed as an infinity",
 r"""#include <stdio.h>
#include <float.h>
int main(void) { printf("%.3e %.3e %.3e\n", DBL_MAX, -DBL_MAX, 1.0e308); return 0; }
""", "1.798e+308 -1.798e+308 1.000e+308\n")
