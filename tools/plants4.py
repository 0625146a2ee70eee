"""Planted bugs, fourth group: headers (C28), inline assembly (C29) and a few more."""
from plant import make
_s = open(__file__.replace("plants4", "plants2")).read()
exec(_s[_s.index("SAN = "):_s.index("DIRS = ")])
ERR = """#!/bin/sh
# compiles and runs the program beside this script and compares what it prints to standard error
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" || exit 1
cd "$t" || exit 2
/opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm 2> out.txt || exit 1
cmp out.txt "$d/expected.txt"
"""
make("O01", "C28", [("lib/include/inttypes.h", '#define SCNoFAST16 "o"', '#define SCNoFAST16 "ho"')],
 "scanning a uint_fast16_t in octal over a variable with high bits set, or a value over 16 bits", "only half of the variable is written",
 r"""#include <stdio.h>
#include <inttypes.h>
int main(void) { unsigned v = 0x7fffffffu; int n; n = sscanf("17", "%" SCNoFAST16, &v); printf("%d %u\n", n, v); return 0; }
""", "1 15\n")
make("O02", "C28", [("lib/src/stdlib.c", "      if (val) {\n        unsigned m = val; \n        do *--p = (int)(m%8) + '0';\n          while ((m /= 8) > 0);",
                     "      if (val) {\n        unsigned m = val; \n        do *--p = (int)(m%8) + '0';\n          while ((m /= 8) > 1);")],
 "the internal message printer with an octal number whose leading digit is 1", "the leading digit is missing",
 r"""#include <stdlib.h>
#include <sys/crt.h>
int main(void) { _panicf("%o %o %o\n", 5u, 511u, 8u); return 0; }
""", "5 777 10\n", demo_sh=ERR)
make("O04", "C29", [("p.c", "if (r.ts == TS_DOUBLE) pic->arg.d = r.val.d;", "if (r.ts == TS_DOUBLE) pic->arg.d = (float)r.val.d;")],
 "a macro that uses its parameter as the immediate of f64.const, given a value that is no float", "the constant is rounded to float",
 r"""#include <stdio.h>
#define ADDC(a, c) ((double(*)(double))asm(f64.const c, f64.add)(a))
int main(void) { double x = 1.0; printf("%d %d\n", ADDC(x, 0.5) == 1.5, ADDC(x, 0.1) == 1.1); return 0; }
""", "1 1\n")
make("O05", "C29", [("c.c", "          case IN_LOCAL_GET: case IN_LOCAL_SET: case IN_LOCAL_TEE:\n            if (pic->id) {", "          case IN_LOCAL_GET: case IN_LOCAL_SET:\n            if (pic->id) {")],
 "local.tee of a variable that shadows another of the same type", "the outer variable is changed instead",
 r"""#include <stdio.h>
static int f(int a) { int x = a, s = 0; { int x = 1; s = (int)asm(i32.const 7, local.tee x); s = s * 100 + x; } return s * 100 + x; }
int main(void) { printf("%d\n", f(3)); return 0; }
""", "70703\n")
make("O06", "C29", [("p.c", "    case TS_FLOAT: case TS_DOUBLE: {\n        double d = lnd.ts == TS_FLOAT ? lnd.val.f : lnd.val.d;".replace("    case", "      case", 1), "      case TS_FLOAT: case TS_DOUBLE: {\n        double d = lnd.ts == TS_FLOAT ? lnd.val.f : (float)lnd.val.d;")],
 "f64.const with an immediate that is no float", "the constant is rounded to float",
 r"""#include <stdio.h>
int main(void) { double x = (double)asm(f64.const 0.1); double y = (double)asm(f64.const 0.25); printf("%d %d\n", x == 0.1, y == 0.25); return 0; }
""", "1 1\n")
make("O08", "C26", [("lib/include/wasm_simd128.h", "asm(i32x4.extadd_pairwise_i16x8_u)(a))", "asm(i32x4.extadd_pairwise_i16x8_s)(a))")],
 "a lane of 0x8000 or more", "the lane is sign-extended",
 r"""#include <stdio.h>
#include <wasm_simd128.h>
int main(void) { v128_t a = wasm_u16x8_const(1, 2, 0x8000, 1, 65535, 65535, 0, 7); v128_t b = wasm_u32x4_extadd_pairwise_u16x8(a);
  printf("%d %d %d %d\n", (int)wasm_i32x4_extract_lane(b, 0), (int)wasm_i32x4_extract_lane(b, 1), (int)wasm_i32x4_extract_lane(b, 2), (int)wasm_i32x4_extract_lane(b, 3)); return 0; }
""", "3 32769 131070 7\n")
