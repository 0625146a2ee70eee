from plant import make
make("L01", "C04", [("c.c", "        case TS_ULLONG:                          in = IN_F32_CONVERT_I64_U; break;", "        case TS_ULLONG:                          in = IN_F32_CONVERT_I64_S; break;")],
 "an unsigned long long value of 2^63 or more converted to float", "the converted value comes out negative",
 r"""#include <stdio.h>
unsigned long long big(int k) { return 1ULL << k; }
int main(void) { int i; for (i = 60; i < 64; ++i) printf("%d\n", (float)big(i) > 0.0f); return 0; }
""", "1\n1\n1\n1\n")
make("L02", "C05", [("c.c", """    acode_pushin_id(pcn, IN_LOCAL_GET, pname);
    acode_pushin_uarg(pcn, IN_I32_CONST, framesz);
    acode_pushin(pcn, IN_I32_ADD);
    acode_pushin_id_mod(pcn, IN_GLOBAL_SET, g_sp_id, g_crt_mod); 
    ndfini(&tn);""", """    acode_pushin_id(pcn, IN_LOCAL_GET, pname);
    acode_pushin_uarg(pcn, IN_I32_CONST, nargs ? framesz : 0);
    acode_pushin(pcn, IN_I32_ADD);
    acode_pushin_id_mod(pcn, IN_GLOBAL_SET, g_sp_id, g_crt_mod); 
    ndfini(&tn);""")],
 "many calls of a variadic function with no extra arguments in one activation", "each such call leaks 16 bytes of the program stack until it overruns the data below it",
 r"""#include <stdio.h>
#include <stdarg.h>
static int data[64];
static int sum(int n, ...) { va_list ap; int s = 0; va_start(ap, n); while (n-- > 0) s += va_arg(ap, int); va_end(ap); return s; }
static char *sv;
static char *where(void) { char b[4]; b[0] = 0; sv = &b[b[0]]; return sv; }
int main(void) { int i, t = 0; char *p, *q; p = where(); for (i = 0; i < 1000; ++i) { t += sum(1, i); t += sum(0); data[i & 63] = t; } q = where();
  printf("%d %d\n", t, p == q); return 0; }
""", "499500 1\n")
make("L03", "C06", [("c.c", "if (pprevi->in == IN_I32_EXTEND16_S || pprevi->in == IN_I32_LOAD16_S) {", "if (pprevi->in == IN_I32_EXTEND16_S || pprevi->in == IN_I32_LOAD16_S || pprevi->in == IN_I32_LOAD16_U) {")],
 "an unsigned short object of 0x8000 or more in memory, read and cast to short", "the optimiser drops the sign extension, so the value stays positive",
 r"""#include <stdio.h>
static unsigned short us[2] = { 1, 40000 };
int main(void) { int i; for (i = 0; i < 2; ++i) { int k = (short)us[i]; printf("%d\n", k); } return 0; }
""", "1\n-25536\n")
make("L04", "C03", [("c.c", """      /* round size up so it is multiple of align */
      if ((n = *psize % *palign) > 0) *psize += *palign - n; 
    } break;
    case TS_STRUCT: {""", """      /* round size up so it is multiple of align */
      if (*psize > *palign && (n = *psize % *palign) > 0) *psize += (n * 2 >= *palign) ? *palign - n : 0; 
    } break;
    case TS_STRUCT: {""")],
 "a union whose largest member exceeds a multiple of its alignment by less than half (e.g. char[5] with int), in an array or followed by another member", "the union is not padded, so its second element is misplaced",
 r"""#include <stdio.h>
union u { char c[5]; int i; };
struct s { union u a; char z; };
static union u v[2];
int main(void) { v[1].i = -1; printf("%d %d %d %d\n", (int)sizeof(union u), (int)sizeof(v), (int)sizeof(struct s), v[0].c[4]); return 0; }
""", "8 16 12 0\n")
make("L06", "C08", [("p.c", """          if (ahead(pw, "if") || ahead(pw, "ifdef") || ahead(pw, "ifndef")) {
            ++level; """, """          if (ahead(pw, "if") || ahead(pw, "ifndef")) {
            ++level; """)],
 "an #ifdef block nested inside a skipped conditional block", "the inner #endif (or #else) ends the outer skipped block early",
 r"""#include <stdio.h>
#if 0
int bad(void) { return 1; }
#ifdef __WCPL__
int worse(void) { return 1; }
#else
int k = 5;
#endif
static int k = 9;
#else
static int k = 4;
#endif
int main(void) { printf("%d\n", k); return 0; }
""", "4\n")
make("L07", "C07", [("c.c", "        case TT_SHR:   if (y < 64) pvz->u = integral_mask(tz, x >> y); else tz = TS_VOID; break;", "        case TT_SHR:   if (y < 64) pvz->u = integral_mask(tz, (unsigned long long)(pvx->i >> y)); else tz = TS_VOID; break;")],
 "a constant right shift of an unsigned long long value of 2^63 or more", "the folded value is sign-extended",
 r"""#include <stdio.h>
static unsigned long long a = 0xF000000000000000ULL >> 60;
enum { E = (int)(0x8000000000000000ULL >> 62) };
int main(void) { printf("%d %d\n", (int)a, E); return 0; }
""", "15 2\n")
make("L08", "C01", [("c.c", """          in0 = IN_I64_EQZ; in = IN_I32_EQZ; /* i.e. !!x, second ! acts on int */""", """          icbnewbk(pdata)->in = IN_I32_WRAP_I64; /* the rest is as for ints */
          in0 = IN_I32_EQZ; in = IN_I32_EQZ; /* i.e. !!x */""")],
 "a long long whose low 32 bits are zero converted to bool", "the result is false",
 r"""#include <stdio.h>
static bool tob(long long x) { return (bool)x; }
int main(void) { printf("%d%d%d\n", (int)tob(1LL), (int)tob(0LL), (int)tob(1LL << 40)); return 0; }
""", "101\n")
