"""Planted bugs, fifth group."""
from plant import make
_s = open(__file__.replace("plants5", "plants2")).read()
exec(_s[_s.index("SAN = "):_s.index("DIRS = ")])
make("P01", "C02", [("c.c", "    while (curidx < idx) { /* fill gap with defaults */", "    while ((int)curidx < (int)idx) { /* fill gap with defaults */")],
 "a switch over at least three cases among which are INT_MIN and INT_MAX or other cases more than 2^31 apart", "the cases past the gap are taken for the ones next to the smallest",
 r"""#include <stdio.h>
#include <limits.h>
static int f(int x) { int r = 0; switch (x) { case INT_MIN: r = 1; break; case INT_MIN+1: r = 2; break; case INT_MAX: r = 3; break; case INT_MAX-1: r = 4; break; default: r = 9; } return r; }
int main(void) { printf("%d %d %d %d %d %d\n", f(INT_MIN), f(INT_MIN+1), f(INT_MIN+2), f(INT_MAX), f(INT_MAX-1), f(0)); return 0; }
""", "1 2 9 3 4 9\n")
make("P02", "C05", [("c.c", "    node_t *psn = ndinsbk(pbn, NT_RETURN);\n    if (pvi) psn->name = bp;", "    node_t *psn = ndinsbk(pbn, NT_RETURN);\n    if (pvi && ndlen(&frame) > 0) psn->name = bp;")],
 "a void function without addressable locals that calls alloca and runs off its end, called many times", "the stack space is never given back",
 r"""#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static int sum = 0;
static void f(int n) { char *p = alloca((size_t)n); memset(p, n, (size_t)n); sum += p[n-1]; }
int main(void) { int i; for (i = 0; i < 100000; ++i) f(50); printf("%d\n", sum); return 0; }
""", "5000000\n")
make("P05", "C11", [("lib/src/crt.args.c", "    if (n > 0) ptrs_buf += 16-n; ", "    if (n > 8) ptrs_buf += 16-n; ")],
 "command-line arguments whose total size leaves a remainder of 1 to 8 from 16", "the argument vector is not aligned",
 r"""#include <stdio.h>
int main(int argc, char **argv) { printf("%d\n", (int)((size_t)argv % 16)); return argc > 5; }
""", "0\n", demo_sh="""#!/bin/sh
# runs the program beside this script with various command lines: the vector has to be aligned
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" || exit 1
cd "$t" || exit 2
for a in x xx xxx xxxx xxxxx xxxxxxx xxxxxxxxxxx xxxxxxxxxxxxx; do
  /opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm $a > out.txt || exit 1
  cmp out.txt "$d/expected.txt" || exit 1
done
""")
HOST = r'''#!/bin/sh
# runs the program beside this script against a small WASI host which fails or shortens some calls
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" || exit 1
/opt/vp/venv/bin/python "$d/host.py" "$t/a.wasm" > "$t/out.txt" || exit 1
cmp "$t/out.txt" "$d/expected.txt"
'''
HOSTPY = r'''import sys, struct, wasmtime as w
# descriptors: 1 stdout, 3 preopened ".", 4 a file; WRITES and READS say what the host does with each call on 4
WRITES, READS = %s, %s
st = w.Store(w.Engine())
m = w.Module.from_file(st.engine, sys.argv[1])
out, nw, nr, closed = bytearray(), [0], [0], []
class Exit(Exception): pass
def mk(name):
    def f(c, *a):
        mem = c["memory"]
        rd = lambda p, n: bytes(mem.read(c, p, p + n))
        wr = lambda p, b: mem.write(c, b, p)
        if name == "proc_exit": raise Exit()
        if name == "args_sizes_get": wr(a[0], struct.pack("<I", 1)); wr(a[1], struct.pack("<I", 2)); return 0
        if name == "args_get": wr(a[0], struct.pack("<I", a[1])); wr(a[1], b"p\0"); return 0
        if name == "fd_prestat_get":
            if a[0] != 3: return 8
            wr(a[1], struct.pack("<II", 0, 1)); return 0
        if name == "fd_prestat_dir_name": wr(a[1], b"."); return 0
        if name == "fd_fdstat_get": wr(a[1], struct.pack("<BxHxxxxQQ", 3 if a[0] == 3 else 4, 0, 0x1fffffff, 0x1fffffff)); return 0
        if name == "path_open": wr(a[8], struct.pack("<I", 4)); return 0
        if name == "fd_close": closed.append(a[0]); return 0
        if name == "fd_readdir": return 29
        if name == "fd_seek": wr(a[3], struct.pack("<Q", 0)); return 0
        if name in ("fd_write", "fd_read"):
            p, n = struct.unpack("<II", rd(a[1], 8))
            if a[0] == 1: out.extend(rd(p, n)); wr(a[3], struct.pack("<I", n)); return 0
            k, plan = (nw, WRITES) if name == "fd_write" else (nr, READS)
            act = plan[k[0]] if k[0] < len(plan) else None
            k[0] += 1
            if act is not None and act < 0: return -act
            g = n if act is None else min(n, act)
            if name == "fd_read": wr(p, b"abcdefghij"[:g]); g = min(g, 10)
            wr(a[3], struct.pack("<I", g)); return 0
        return 52
    return f
try:
    inst = w.Instance(st, m, [w.Func(st, i.type, mk(i.name), access_caller=True) for i in m.imports])
    inst.exports(st)["_start"](st)
except BaseException:
    pass
print(out.decode(), 4 in closed)
'''
def host(id, edits, needs, breaks, c, exp, writes="[]", reads="[]"):
    make(id, "C30", edits, needs, breaks, c, exp, demo_sh=HOST, files={"host.py": HOSTPY % (writes, reads)})
host("P11", [("lib/src/stdio.c", "  if (n > 0 && n != write(fp->fd, (char*)base, (size_t)n)) {", "  if (n > 0 && write(fp->fd, (char*)base, (size_t)n) < 0) {")],
 "a host that takes fewer bytes than a buffered stream gives it", "the rest is lost and nobody says so",
 "#include <stdio.h>\nint main(void) { FILE *f = fopen(\"a\", \"w\"); int r, e; fputs(\"hello, world\", f); r = fflush(f); e = ferror(f); printf(\"%d %d\", r != 0, e != 0); return 0; }\n", "1 1 True\n", writes="[5]")
host("P12", [("lib/src/stdio.c", "  else if (fp->cnt != -1) fp->flags |= _IOERR;", "  else if (fp->cnt < -2) fp->flags |= _IOERR;")],
 "a host that fails a read of a stream", "the failure looks like the end of the file",
 "#include <stdio.h>\nint main(void) { FILE *f = fopen(\"a\", \"r\"); int c = getc(f); printf(\"%d %d %d\", c, feof(f) != 0, ferror(f) != 0); return 0; }\n", "-1 0 1 True\n", reads="[-29]")
host("P13", [("lib/src/dirent.c", "  if (result == NULL) close(fd);", "  if (result == NULL) errno = 0;")],
 "opendir on a directory the host cannot list", "the descriptor stays open and the error number is lost",
 "#include <stdio.h>\n#include <errno.h>\n#include <dirent.h>\nint main(void) { DIR *d = opendir(\".\"); printf(\"%d %d\", d != NULL, errno); return 0; }\n", "0 29 True\n")
host("P15", [("lib/src/unistd.c", "      if ((fds.fs_rights_base & RIGHTS_FD_READ) == 0) err = EBADF;\n      else err = ESPIPE;\n    }\n    errno = (int)err;", "      if ((fds.fs_rights_base & RIGHTS_FD_READ) == 0) err = EBADF;\n      else err = ESPIPE;\n      errno = (int)err;\n    }")],
 "pread on a host that fails it with anything but ENOTCAPABLE", "errno is left as it was",
 "#include <stdio.h>\n#include <errno.h>\n#include <fcntl.h>\n#include <unistd.h>\nint main(void) { char b[4]; int r, d = open(\"a\", O_RDONLY); errno = 0; r = (int)pread(d, &b[0], (size_t)4, 0ll); printf(\"%d %d\", r, errno); close(d); return 0; }\n", "-1 52 True\n")
