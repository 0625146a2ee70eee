"""Planted bugs, third group: second ones per property, and the properties without one."""
from plant import make
import re
_s = open(__file__.replace("plants3", "plants2")).read()
exec(_s[_s.index("SAN = "):_s.index("DIRS = ")])
WATV = """#!/bin/sh
# the text form of the program beside this script must be a valid module that does the same
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wat" "$d/demo.c" || exit 1
/opt/vp/venv/bin/python -c "import sys, wasmtime; open(sys.argv[2], 'wb').write(wasmtime.wat2wasm(open(sys.argv[1], 'rb').read()))" "$t/a.wat" "$t/a.wasm" || exit 1
cd "$t" || exit 2
/opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm > out.txt || exit 1
cmp out.txt "$d/expected.txt"
"""
HB = """#!/bin/sh
# whatever the size of the stack, the heap (and the argument space before it) lies inside the memory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
link() { "$r/_build/wcpl" -q -s $1 -a 4097 -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wat" "$d/demo.c" || exit 1
  hb=$(sed -n 's/.*(global $crt:heap_base[^(]*i32 (i32.const \\([0-9]*\\)).*/\\1/p' "$t/a.wat")
  pg=$(sed -n 's/.*(memory [^0-9]* \\([0-9]*\\)).*/\\1/p' "$t/a.wat"); }
link 131072
s=$((131072 + 65536 - hb % 65536))
k=-40
while [ $k -lt 40 ]; do
  link $((s + k))
  [ "$hb" -le $((pg * 65536)) ] || { echo "stack $((s + k)): heap at $hb, $pg pages"; exit 1; }
  k=$((k + 1))
done
exit 0
"""
INC = """#!/bin/sh
# two headers of one name: NAME.h is to be preferred to NAME.wh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
mkdir "$t/inc"
echo '#define WHICH 1' > "$t/inc/twin.h"
echo '#define WHICH 2' > "$t/inc/twin.wh"
"$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$t/inc/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" || exit 1
cd "$t" || exit 2
/opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm > out.txt || exit 1
cmp out.txt "$d/expected.txt"
"""
SELF = """#!/bin/sh
# the compiler compiled by itself must produce the same file as the native one
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -s 4194304 -a 8192 -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/wcpl.wasm" c.c l.c p.c w.c || exit 1
cd "$t" || exit 2
cp "$d/demo.c" demo.c
mkdir inc lib
cp -r "$r/lib/include/." inc
cp "$r"/_build/lib/*.wo lib
"$r/_build/wcpl" -q -L lib/ -I inc/ -o n.wasm demo.c || exit 1
/opt/vp/venv/bin/python /opt/vp/runwasi.py wcpl.wasm -q -L lib/ -I inc/ -o s.wasm demo.c || exit 1
cmp n.wasm s.wasm
"""
make("N01", "C09", [("w.c", "else if (' ' <= c && c < 127) cbputc(c, g_watbuf);", "else if (' ' <= c && c <= 127) cbputc(c, g_watbuf);")],
 "a string with a DEL character, output as text", "the text form has a raw DEL in a string, which other WebAssembly tools refuse",
 r"""#include <stdio.h>
int main(void) { const char *s = "a\x7fz"; printf("%d %d\n", (int)s[1], (int)s[2]); return 0; }
""", "127 122\n", demo_sh=WATV)
make("N02", "C09", [("w.c", "  ememaddr = hpaddr; align = 64*1024; /* page = 64K */", "  ememaddr = dsegend + g_stacksz + g_argvbsz; align = 64*1024; /* page = 64K */")],
 "stack and argument sizes for which the unrounded end of the static part is just below a page boundary", "the heap base lies after the end of the memory",
 "int main(int argc, char **argv) { return argc; }\n", demo_sh=HB)
make("N03", "C27", [("p.c", "      pws = newpws(cbsetf(&cb, \"%s%s.h\", symname(*pb), symname(mod)));\n      if (pws) break;\n      pws = newpws(cbsetf(&cb, \"%s%s.wh\", symname(*pb), symname(mod)));\n      if (pws) break;",
  "      pws = newpws(cbsetf(&cb, \"%s%s.wh\", symname(*pb), symname(mod)));\n      if (pws) break;\n      pws = newpws(cbsetf(&cb, \"%s%s.h\", symname(*pb), symname(mod)));\n      if (pws) break;")],
 "an include directory with both NAME.h and NAME.wh", "the wrong one is read",
 r"""#include <stdio.h>
#include <twin.h>
int main(void) { printf("%d\n", WHICH); return 0; }
""", "1\n", demo_sh=INC)
make("N05", "C12", [("l.c", "    unsigned long long m;\n    if (val == LLONG_MIN) m = LLONG_MAX + (unsigned long long)1;\n    else if (val < 0) m = -val;\n    else m = val;\n    do *--p = (int)(m%10) + '0';\n      while ((m /= 10) > 0);\n    if (val < 0) *--p = '-';\n  } else *--p = '0';\n  cbput(p, e-p, pb);\n}\n\nvoid cbputg",
   "    unsigned long m;\n    if (val < 0) m = (unsigned long)0 - (unsigned long)val;\n    else m = (unsigned long)val;\n    do *--p = (int)(m%10) + '0';\n      while ((m /= 10) > 0);\n    if (val < 0) *--p = '-';\n  } else *--p = '0';\n  cbput(p, e-p, pb);\n}\n\nvoid cbputg")],
 "a 64-bit constant of more than 32 bits, written to an object file by the compiler that was compiled by itself (where long has 32 bits)", "the constant is truncated",
 r"""#include <stdio.h>
int main(int argc, char **argv) { long long x = argc; x = x * 0x123456789abcdefLL; printf("%d\n", (int)(x >> 40)); return 0; }
""", demo_sh=SELF.replace("-o n.wasm", "-c -o n.wo").replace("-o s.wasm", "-c -o s.wo").replace("cmp n.wasm s.wasm", "cmp n.wo s.wo"))
make("N06", "C16", [("lib/src/stdlib.c", "    size_t blkmin = payload + sizeof(header_t) - 1;", "    size_t blkmin = payload + sizeof(header_t) - 2;")],
 "an allocation whose size plus header is one more than a power of two", "the block is one byte too short",
 r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) { char *p[8]; int i, bad = 0; for (i = 0; i < 8; ++i) { p[i] = malloc(49u); if (p[i] == NULL) return 1; memset(p[i], 'a' + i, 49u); }
  for (i = 0; i < 8; ++i) { if (p[i][48] != 'a' + i || p[i][0] != 'a' + i) ++bad; free(p[i]); }
  for (i = 0; i < 8; ++i) { p[i] = malloc(49u); memset(p[i], 0xcc, 49u); } for (i = 0; i < 8; ++i) { p[i] = realloc(p[i], 30u); p[i] = realloc(p[i], 300u); if (p[i][29] != (char)0xcc) ++bad; }
  printf("%d\n", bad); return 0; }
""", "0\n")
make("N07", "C22", [("lib/src/stdio.c", "    if (fp->flags & _IORW) fp->flags &= ~_IOREAD;\n  }", "  }")],
 "an update stream that is read to its end, then written, then asked for its position", "the position is wrong, or the data goes to the wrong place",
 r"""#include <stdio.h>
int main(void) { FILE *f; char b[64]; size_t n; f = fopen("t.dat", "w+"); if (f == NULL) return 1; fputs("hello\n", f); rewind(f); while (getc(f) != EOF) ; fputs("world\n", f); printf("%d\n", (int)ftell(f)); fseek(f, -4L, SEEK_CUR); putc('L', f); fclose(f);
  f = fopen("t.dat", "r"); if (f == NULL) return 1; n = fread(&b[0], 1u, 63u, f); b[n] = 0; fputs(&b[0], stdout); fclose(f); return 0; }
""", "12\nhello\nwoLld\n")
make("N08", "C25", [("lib/src/dirent.c", "  dirp->cookie = (unsigned long)loc;\n  dirp->buffer_used = dirp->buffer_processed = dirp->buffer_size;", "  dirp->cookie = (unsigned long)loc;\n  dirp->buffer_processed = dirp->buffer_used;")],
 "seekdir after readdir has reported the end of the directory", "readdir reports the end again",
 r"""#include <stdio.h>
#include <dirent.h>
#include <sys/stat.h>
int main(void) { DIR *d; long p; int n = 0, m = 0; mkdir("dd", 0777); mkdir("dd/a", 0777); mkdir("dd/b", 0777); d = opendir("dd"); if (d == NULL) return 1; p = telldir(d); while (readdir(d) != NULL) ++n;
  seekdir(d, p); while (readdir(d) != NULL) ++m; closedir(d); printf("%d %d\n", n, m); return 0; }
""", "4 4\n")
make("N09", "C21", [("lib/src/stdlib.c", "      if (n <= nc) goto ilseq;", "      if (n < nc) goto ilseq;")],
 "mbtowc with a length that ends just before the last byte of a multibyte character", "a byte beyond the given length is read and the character is accepted",
 r"""#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
int main(void) { wchar_t w; int a, b, c; w = 0; a = mbtowc(&w, "\xc3\xa9", 1u); b = mbtowc(&w, "\xe2\x82\xac", 2u); c = mbtowc(&w, "\xe2\x82\xac", 3u); printf("%d %d %d\n", a, b, c); return 0; }
""", "-1 -1 3\n")
make("N10", "C24", [("lib/src/time.c", "    if (tp->tm_wday == 0) week -= DAYS_PER_WEEK - 1;\n    else week -= tp->tm_wday - 1;", "    week -= tp->tm_wday - 1;")],
 "%W on a Sunday", "the week number is one too large",
 r"""#include <stdio.h>
#include <time.h>
int main(void) { time_t t; char b[40]; t = 951609600LL; strftime(&b[0], 40u, "%a %U %W", gmtime(&t)); puts(&b[0]); t = 946771200LL; strftime(&b[0], 40u, "%a %U %W", gmtime(&t)); puts(&b[0]); return 0; }
""", "Sun 09 08\nSun 01 00\n")
make("N12", "C07", [("c.c", "        case TT_GE:    pvz->i = x >= y; tz = TS_INT; break;\n        default:       tz = TS_VOID; break;\n      }\n    } break;\n    case TS_LLONG: case TS_LONG: case TS_INT: {",
  "        case TT_GE:    pvz->i = vx.i >= vy.i; tz = TS_INT; break;\n        default:       tz = TS_VOID; break;\n      }\n    } break;\n    case TS_LLONG: case TS_LONG: case TS_INT: {")],
 "a constant expression with >= and an unsigned long long operand of 2^63 or more", "the comparison is made as signed",
 r"""#include <stdio.h>
enum { A = 0x8000000000000000ULL >= 1ULL, B = ~0ULL >= 5ULL };
static int c[3] = { (0ULL - 1ULL) >= 2ULL, 3ULL >= 2ULL, 0xFFFFFFFFu >= 1u };
int main(void) { printf("%d %d %d %d %d\n", A, B, c[0], c[1], c[2]); return 0; }
""", "1 1 1 1 1\n")
make("N13", "C08", [("p.c", "        for (j = n-1; j < ndblen(ppars); ++j) {\n          ndins(pn, i, ndbref(ppars, j));\n          ++i;", "        for (j = ndblen(ppars); j > n-1; --j) {\n          ndins(pn, i, ndbref(ppars, j-1));\n          if (j == n+2) ++i;")],
 "a variadic macro called with three or more arguments for the dots", "the arguments are passed in another order",
 r"""#include <stdio.h>
#define SAY(fmt, ...) (printf(fmt, __VA_ARGS__))
int main(void) { SAY("%d\n", 1); SAY("%d %d\n", 1, 2); SAY("%d %d %d\n", 1, 2, 3); SAY("%d %d %d %d\n", 1, 2, 3, 4); return 0; }
""", "1\n1 2\n1 2 3\n1 2 3 4\n")
make("N15", "C04", [("c.c", "        case TS_LLONG:                           in = IN_F32_CONVERT_I64_S; break;", "        case TS_LLONG:  in0 = IN_F64_CONVERT_I64_S, in = IN_F32_DEMOTE_F64; break;")],
 "conversion of a long long whose nearest double lies half-way between two floats", "the value is rounded twice and comes out one unit wrong",
 r"""#include <stdio.h>
int main(void) { long long x = 0x4000004000000001LL; float f; x = x + 0LL; f = (float)x; printf("%d\n", (double)f == 4611686568183201792.0); return 0; }
""", "1\n")
make("N18", "C06", [("c.c", "          if (pprevi->in == IN_I32_EXTEND8_S || pprevi->in == IN_I64_LOAD8_S) {", "          if (pprevi->in == IN_I32_EXTEND8_S || pprevi->in == IN_I32_LOAD8_S || pprevi->in == IN_I32_LOAD8_U) {")],
 "a value loaded from an unsigned char object and converted to signed char, when optimising", "the value stays positive",
 r"""#include <stdio.h>
static unsigned char u[3] = { 1, 200, 255 };
int main(void) { int i; for (i = 0; i < 3; ++i) printf("%d ", (signed char)u[i]); puts(""); return 0; }
""", "1 -56 -1 \n", opts="-O 2")
make("N21", "C14", [("c.c", "    if (ndlen(pftn) > buflen(pab)+2)\n      n2eprintf", "    if (ndlen(pftn) > buflen(pab)+3)\n      n2eprintf")],
 "a call of a variadic function with one of its fixed arguments missing", "the call is accepted",
 r"""static int f(int a, int b, ...) { return a + b; }
int main(void) { return f(1); }
""", demo_sh=REJ)
make("N22", "C15", [("l.c", "    if (val == LLONG_MIN) m = LLONG_MAX + (unsigned long long)1;\n    else if (val < 0) m = -val;\n    else m = val;\n    do *--p = (int)(m%10) + '0';\n      while ((m /= 10) > 0);\n    if (val < 0) *--p = '-';\n  } else *--p = '0';\n  cbput(p, e-p, pb);\n}\n\nvoid cbputg",
   "    if (val == LLONG_MIN) m = LLONG_MAX;\n    else if (val < 0) m = -val;\n    else m = val;\n    do *--p = (int)(m%10) + '0';\n      while ((m /= 10) > 0);\n    if (val < 0) *--p = '-';\n  } else *--p = '0';\n  cbput(p, e-p, pb);\n}\n\nvoid cbputg")],
 "the constant LLONG_MIN in a separately compiled module", "the object file has another value",
 r"""#include <stdio.h>
static long long f(int k) { return k ? -9223372036854775807LL - 1LL : 5LL; }
int main(void) { printf("%lld\n", f(1)); return 0; }
""", "-9223372036854775808\n", demo_sh=WO)
make("N23", "C17", [("lib/src/string.c", "    if (*s == (char)c) found = s;", "    if (*s == c) found = s;")],
 "strrchr for a character of 128 to 255 passed as an unsigned char", "the character is not found",
 r"""#include <stdio.h>
#include <string.h>
int main(void) { const char *s = "a\xe9z\xe9q"; char *p; p = strrchr(s, 0xe9); printf("%d\n", p != NULL && p - (char *)s == 3); return 0; }
""", "1\n")
make("N24", "C18", [("lib/src/stdlib.c", "      if ((*cmp)(p1, p2 = (char *)base + j * size) > 0) {", "      if ((*cmp)(p1, p2 = (char *)base + j * size) == 1) {")],
 "qsort with a comparison function that returns positive numbers other than 1", "the array is not sorted",
 r"""#include <stdio.h>
#include <stdlib.h>
static int d[6] = { 30, 10, 50, 20, 40, 0 };
int cmp(const void *a, const void *b) { const int *x = (const int *)a; const int *y = (const int *)b; return *x - *y; }
int main(void) { int i; qsort(&d[0], 6u, sizeof(int), &cmp); for (i = 0; i < 6; ++i) printf("%d ", d[i]); puts(""); return 0; }
""", "0 10 20 30 40 50 \n")
make("N25", "C19", [("lib/src/stdio.c", "          while (l++ < width) (*out)(' ', data, idx++, maxlen);\n        }\n        (*out)((char)va_arg(va, int), data, idx++, maxlen);", "          while (l++ < width) (*out)((flags & FLAGS_ZEROPAD) ? '0' : ' ', data, idx++, maxlen);\n        }\n        (*out)((char)va_arg(va, int), data, idx++, maxlen); if (idx >= maxlen) width = 0U;")],
 "a left-adjusted %-Nc that is the first conversion to pass the end of an snprintf buffer", "the returned length is too small",
 r"""#include <stdio.h>
int main(void) { char b[8]; int n; n = snprintf(&b[0], 4u, "abc%-5cz", 'q'); printf("%d %s\n", n, &b[0]); return 0; }
""", "9 abc\n")
make("N26", "C23", [("lib/src/math.c", "    k = ((hx & IC(0x7FF00000)) >> IEEE754_DOUBLE_SHIFT) - 54;", "    k = (hx >> IEEE754_DOUBLE_SHIFT) - 54;")],
 "scalbn, ldexp of a negative subnormal number", "the result is an infinity or zero",
 r"""#include <stdio.h>
#include <math.h>
int main(void) { printf("%d %d\n", ldexp(4.9406564584124654e-324, 1074) == 1.0, ldexp(-4.9406564584124654e-324, 1074) == -1.0); return 0; }
""", "1 1\n")
