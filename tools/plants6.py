"""Planted bugs, sixth group (large programs)."""
from plant import make
N = 600
glob = "#include <stdio.h>\n" + "".join('const char *p%d = "text %d";\n' % (i, i) for i in range(N)) + "int main(void) {\n" + "".join("  puts(p%d);\n" % i for i in range(N)) + "  return 0;\n}\n"
make("Q01", "C31", [("c.c", "          pg = watiebref(&g_curpwm->exports, pgidx); /* re-fetch after static_eval */\n          if (r.ts", "          if (r.ts")],
 "a global pointer initialized with a string literal at the moment the table of definitions grows", "the initializer is stored in freed memory and lost",
 glob, "".join("text %d\n" % i for i in range(N)))

ps = ", ".join("int a%d" % i for i in range(150))
par = "#include <stdio.h>\nint f(%s) { return a0 * 3 + a127 * 5 + a128 * 7 + a149; }\nint main(void) { printf(\"%%d\\n\", f(%s)); return 0; }\n" % (ps, ", ".join(str(i) for i in range(150)))
make("Q02", "C31", [("w.c", "    wasm_unsigned(vtblen(&pft->partypes));", "    wasm_byte((unsigned)vtblen(&pft->partypes));")],
 "a function with 128 parameters or more", "the module's type section is garbled", par, "%d\n" % (127 * 5 + 128 * 7 + 149))
T = ["int", "long long", "float", "double"]
fs, ms = [], []
for i in range(256):
    fs.append("int f%d(%s a, %s b, %s c, %s d) { return (int)a + (int)b * 2 + (int)c * 3 + (int)d * %d; }" % ((i,) + tuple(T[(i >> (2 * k)) & 3] for k in range(4)) + (i,)))
    ms.append("  s = s * 5u + (unsigned)f%d((%s)1, (%s)2, (%s)3, (%s)4);" % ((i,) + tuple(T[(i >> (2 * k)) & 3] for k in range(4))))
s = 0
for i in range(256):
    s = (s * 5 + 1 + 4 + 9 + 4 * i) & 0xffffffff
make("Q03", "C31", [("w.c", "    if (pe->imported) continue;\n    wasm_unsigned(pe->fsi);\n", "    if (pe->imported) continue;\n    wasm_byte((unsigned)pe->fsi);\n")],
 "functions of more than 128 different types", "the function section is garbled", "#include <stdio.h>\n" + "\n".join(fs) + "\nint main(void) { unsigned s = 0;\n" + "\n".join(ms) + '\n  printf("%u\\n", s); return 0; }\n', "%d\n" % s)
make("Q04", "C31", [("w.c", "    wasm_byte(pe->lt);\n    wasm_unsigned(pe->n);\n    if (pe->lt == LT_MINMAX) wasm_unsigned(pe->m);\n    wasm_section_bumpc();\n  }\n  wasm_section_end();\n}\n\nstatic void wasm_globals", "    wasm_byte(pe->lt);\n    wasm_byte(pe->n);\n    if (pe->lt == LT_MINMAX) wasm_unsigned(pe->m);\n    wasm_section_bumpc();\n  }\n  wasm_section_end();\n}\n\nstatic void wasm_globals")],
 "a program with more than 8 MB of data", "the memory section is garbled",
 "#include <stdio.h>\nchar big[9000000];\nint main(void) { big[8999999] = 'x'; big[0] = 'y'; printf(\"%c%c\\n\", big[0], big[8999999]); return 0; }\n", "yx\n")
