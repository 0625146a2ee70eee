"""C27: headers, library modules and embedded files are found as documented; options that only
concern messages do not change the output."""
import glob, os, random, re, shutil, tempfile, zlib
from .core import Failure, Inconclusive, REPO, run_wasm, sh

HEXTS = ["", ".h", ".wh"]
OEXTS = [".o", ".wo"]
EMB_HEADERS = ["assert", "ctype", "dirent", "errno", "fcntl", "float", "inttypes", "limits", "locale", "math", "stdarg", "stdbool", "stddef", "stdint", "stdio",
               "stdlib", "string", "time", "unistd", "wchar", "sys/types", "sys/stat", "wasm", "wasm_simd128", "wasi/api"]
EMB_PROG = r"""
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ctype.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
int main(int argc, char **argv)
{
  char buf[64]; time_t t = 86400 * 365; char *p; struct stat st;
  printf("%d %s %c %x\n", 12345, "text", 'z', 0xbeef);
  printf("%.3f %g %e\n", sqrt(2.0), 0.5, 1234.5);
  p = (char *)malloc(100); strcpy(p, "alpha"); strcat(p, "-beta");
  printf("%s %d %d\n", p, (int)strlen(p), strcmp(p, "alpha") > 0); free(p);
  strftime(buf, 64, "%Y-%m-%d %H:%M:%S", gmtime(&t)); puts(buf);
  printf("%d %d %c\n", isalpha('q') != 0, isdigit('q') != 0, toupper('q'));
  errno = 0; printf("%d %d\n", open("/nowhere/at/all", O_RDONLY), errno != 0);
  printf("%d %d\n", opendir("/nowhere/at/all") == NULL, stat("/nowhere/at/all", &st));
  printf("%ld %d %s\n", strtol("0x1F", NULL, 0), atoi("-42"), strerror(0) != NULL ? "yes" : "no");
  printf("%d %s\n", argc, access("/nowhere", 0) == 0 ? "yes" : "no");
  return 0;
}
"""
EMB_OUT = """12345 text z beef
1.414 0.500000 1.234500e+03
alpha-beta 10 1
1971-01-01 00:00:00
1 0 Q
-1 1
1 -1
31 -42 yes
1 no
"""


def layout(rng, own):
    """a random placement of header and module variants; returns what the documentation says is found"""
    incs = ["i%d/" % k for k in range(rng.randint(1, 3))]
    libs = ["l%d/" % k for k in range(rng.randint(0, 3))]
    einc, elib = ("ei/" if rng.random() < .3 else None), ("el/" if rng.random() < .3 else None)
    files, n = {}, [100]

    def val():
        n[0] += 1
        return n[0]
    heads, mods = [], []
    for i in range(rng.randint(3, 7)):
        name = rng.choice(["alpha", "Beta", "g_h", "locale", "x1", "sub.k", "deep.er.z", "inline_", "int_", "q", "fenv", "wchar"]) + ("" if rng.random() < .3 and not own else str(i))
        if name in [h[0] for h in heads] + ["locale.", "fenv."]:
            continue
        env = rng.random() < .25 and (einc or elib)
        # directories in order of precedence
        sysd = [d for d in ((einc,) if env else incs) if d] + [d + "include/" for d in ((elib,) if env else libs) if d]
        quoted = rng.random() < .5
        order = ([""] if quoted else []) + sysd
        places = [(d, e) for d in order + ([] if quoted else [""]) for e in HEXTS]
        chosen = [p for p in places if rng.random() < rng.choice([.1, .3, .6])]
        found = None
        for d, e in chosen:
            v = val()
            files[d + name + e] = ("#define V%d_%d (%d)\n" % (i, v, v), v)
        for d in order:
            for e in HEXTS:
                if (d, e) in chosen and found is None:
                    found = files[d + name + e][1]
        sp = name.replace(".", "/") + rng.choice(["", ".h", ".wh"])
        heads.append((name, '"%s"' % sp if quoted else "<%s>" % sp, found, [files[d + name + e][1] for d, e in chosen], i))
    # the macro of every variant of one header is called the same
    for name, sp, found, vs, i in heads:
        for f in list(files):
            c, v = files[f]
            if v in vs:
                files[f] = ("#define V%d (%d)\n" % (i, v), v)
    for i in range(rng.randint(0, 3)):
        name = rng.choice(["mod", "Lib_", "fenv", "zz"]) + ("" if rng.random() < .2 and not own else str(i))
        if name in [m[0] for m in mods]:
            continue
        env = rng.random() < .25 and elib
        dirs = [elib] if env else libs
        chosen = [(d, e) for d in dirs for e in OEXTS if rng.random() < rng.choice([.2, .6])]
        if not chosen:
            continue
        vs = {}
        for d, e in chosen:
            vs[d, e] = val()
        found = next(vs[d, e] for d in dirs for e in OEXTS if (d, e) in vs)
        # its header goes where only it can be found
        hd = rng.choice([d + "include/" for d in dirs] + ([] if env else incs))
        if any(h[0] == name for h in heads) or any(f.startswith(d + "include/" + name) or f.startswith(d + name) for f in files for d in list(dirs) + incs + [""]):
            continue
        files[hd + name + rng.choice(HEXTS)] = ("extern int %s_id(void);\n" % name.lower(), 0)
        mods.append((name, vs, found))
    return incs, libs, einc, elib, files, heads, mods


def c27(ctx):
    ctx.tree.build()
    ctx.cov["rule"] = ("random trees of include and library directories (given by -I, -L, WCPL_INCLUDE_PATH, WCPL_LIBRARY_PATH) in which every header and object module exists "
                       "in several places and with several extensions, each variant with its own number; the program prints the numbers it was built with, which must be those of the "
                       "first place in the documented order; what is nowhere must be refused. Embedded headers and modules: without -I and -L, alone and next to directories; every "
                       "embedded file is decompressed by zlib as a reference, and the decompressor is run under ASan/UBSan on random and damaged streams. -v, -w and -q must not change the output. "
                       "evaluations = names looked up, files and streams compared; distinct_nontrivial = distinct layouts")
    exe = ctx.tree.exe

    def job(i):
        rng = ctx.rng("lay", i)
        own = rng.random() < .4    # the tree's own library after all others, or only the embedded one
        incs, libs, einc, elib, files, heads, mods = layout(rng, own)
        d = tempfile.mkdtemp(prefix="k", dir=ctx.scratch)
        try:
            for f, (c, v) in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, f)) or d, exist_ok=True)
                with open(os.path.join(d, f), "w") as h:
                    h.write(c)
            for x in incs + libs + [x for x in (einc, elib) if x]:
                os.makedirs(os.path.join(d, x), exist_ok=True)
            for name, vs, found in mods:
                for (dd, e), v in vs.items():
                    s = os.path.join(d, "src%d" % v)
                    os.makedirs(s)
                    with open(s + "/" + name + ".c", "w") as h:
                        h.write("int %s_id(void) { return %d; }\n" % (name.lower(), v))
                    q = sh([exe, "-q", "-c", "-o", os.path.join(d, dd, name + e), name + ".c"], cwd=s)
                    if q.rc:
                        return {"failures": [Failure("object", "module %s: %s" % (name, q.err[:300]), {})]}
            missing = [h for h in heads if h[2] is None]
            use = [h for h in heads if h[2] is not None]
            bad = rng.choice(missing) if missing and rng.random() < .4 else None
            # names with an embedded namesake are found there instead
            if bad and (bad[0] in ("locale", "fenv", "wchar")):
                bad = None
            if bad:
                use.insert(rng.randint(0, len(use)), bad)
            # one header of a given name per program
            text = ["#include <stdio.h>"] + ["#include %s" % h[1] for h in use] + ["#include <%s>" % (m[0] + rng.choice(["", ".h", ".wh"])) for m in mods]
            text += ["int main(void) {"]
            exp = []
            for h in use:
                if h is not bad:
                    text.append('  printf("%s %%d\\n", V%d);' % (h[0], h[4]))
                    exp.append("%s %d" % (h[0], h[2]))
            user = {}
            for m in mods:
                text.append('  printf("%s %%d\\n", %s_id());' % (m[0], m[0].lower()))
                exp.append("%s %d" % (m[0], m[2]))
            text += ["  return 0;", "}", ""]
            with open(d + "/t.c", "w") as h:
                h.write("\n".join(text))
            opts = []
            for o in [("-I", x) for x in incs] + [("-L", x) for x in libs]:
                opts.append(list(o) if rng.random() < .7 else [o[0] + o[1]])
            # the relative order of -I's and of -L's matters, not how they interleave
            a, b = [o for o in opts if o[0][1] == "I"], [o for o in opts if o[0][1] == "L"]
            if rng.random() < .3:
                pre = [("./" if rng.random() < .5 else d + "/")] * 1
                a = [[o[0], pre[0] + o[1]] if len(o) == 2 else [o[0][:2] + pre[0] + o[0][2:]] for o in a]
            if own:
                b.append(["-L", ctx.tree.lib])
                a.append(["-I", ctx.tree.inc])
            merged = []
            while a or b:
                merged += (a if a and (not b or rng.random() < .5) else b).pop(0)
            env = {}
            if einc:
                env["WCPL_INCLUDE_PATH"] = einc
            if elib:
                env["WCPL_LIBRARY_PATH"] = elib
            noise = rng.choice([["-q"], [], ["-v"], ["-w"], ["-q", "-w"], ["-v", "-v"]])
            out = rng.choice(["t.wasm", "t.wasm", "t.wat"])
            cmd = noise + merged + ["-o", out, "t.c"]
            fl = {"t.c": "\n".join(text), "cmd.txt": "wcpl " + " ".join(cmd) + "\n" + repr(env) + "\n" + "\n".join("%s: %s" % (f, c[0].strip()) for f, c in sorted(files.items())) +
                  "\n" + "\n".join("%s%s%s: %d" % (x, m[0], e, v) for m in mods for (x, e), v in m[1].items())}
            q = sh([exe] + cmd, cwd=d, env=env)
            if bad:
                if q.rc in (0, None) or q.rc < 0:
                    return {"failures": [Failure("missing", "header %s is in none of the directories searched but the program compiles (rc=%s)" % (bad[1], q.rc), fl)]}
                if re.sub(r".*\.", "", bad[0]).encode() not in q.err or b"t.c" not in q.err:
                    return {"failures": [Failure("missing-diagnostic", "no diagnostic about %s: %r" % (bad[1], q.err[:300]), fl)]}
                if os.path.exists(d + "/" + out):
                    return {"failures": [Failure("missing-output", "output written although %s was not found" % bad[1], fl)]}
                return {"evals": 1, "counts": {"missing": 1}, "keys": ["%d" % i]}
            if q.rc:
                return {"failures": [Failure("lookup-reject", "rc=%s %s" % (q.rc, q.err[-700:].decode("latin1")), fl)]}
            w = run_wasm(d + "/" + out, tmp=d)
            got = w.out.decode("latin1").split("\n")[:-1]
            if w.trap or w.invalid or got != exp:
                k = next((k for k, (x, y) in enumerate(zip(got + [None] * 9, exp + [None] * 9)) if x != y), 0)
                return {"failures": [Failure("lookup", "expected %s, got %s (%s)" % ((exp + ["-"])[k], (got + ["-"])[k], w.invalid or w.trap), fl)]}
            data = open(d + "/" + out, "rb").read()
            n2 = rng.choice([["-q"], [], ["-v"], ["-w"]])
            q = sh([exe] + n2 + merged + ["-o", "u" + out, "t.c"], cwd=d, env=env)
            again = open(d + "/u" + out, "rb").read() if not q.rc else b""
            if out == "t.wat":    # -v changes the indentation
                again, data = [[x.strip() for x in t.split(b"\n")] for t in (again, data)]
            if again != data:
                return {"failures": [Failure("noise", "%s and %s give different outputs (rc=%s)" % (" ".join(noise), " ".join(n2), q.rc), fl)]}
            return {"evals": len(exp) + 1, "counts": {"headers": len(use), "modules": len(mods), "variants": len(files), "embedded" if not own else "tree": 1},
                    "keys": ["%d" % i], "samples": [{"cmd": cmd, "expected": exp}] if i < 2 else []}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(job, range(ctx.n(500, 8000)), chunk=2)
    inflate(ctx)
    embedded(ctx)


def embedded(ctx):
    """the embedded library works on its own, from any directory, and every embedded header can be included"""
    exe = ctx.tree.exe
    d = tempfile.mkdtemp(prefix="e", dir=ctx.scratch)
    with open(d + "/p.c", "w") as f:
        f.write(EMB_PROG)

    def fail(key, detail, text=EMB_PROG):
        ctx.failures.append(Failure(key, detail, {"p.c": text}))
    outs = []
    for lv in ("0", "3"):
        for out in ("p.wasm", "p.wat"):
            q = sh([exe, "-q", "-O", lv, "-o", out, "p.c"], cwd=d)
            ctx.cov["evaluations"] += 1
            if q.rc:
                fail("embedded-reject", "a program using the embedded library does not link: rc=%s %s" % (q.rc, q.err[:400].decode("latin1")))
                return
            w = run_wasm(d + "/" + out, tmp=d)
            if w.out.decode("latin1") != EMB_OUT or w.trap or w.invalid:
                fail("embedded-run", "a program linked with the embedded library (%s -O %s) prints %r (%s %s)" % (out, lv, w.out[:600], w.trap, w.invalid))
    for h in EMB_HEADERS:
        for sp in ("<%s.h>" % h, '"%s.h"' % h):
            t = "#include %s\n#include <stdio.h>\nint main(void) { puts(\"ok\"); return 0; }\n" % sp
            with open(d + "/h.c", "w") as f:
                f.write(t)
            q = sh([exe, "-q", "-o", "h.wasm", "h.c"], cwd=d)
            ctx.cov["evaluations"] += 1
            if q.rc:
                fail("embedded-header", "the embedded header %s cannot be included: rc=%s %s" % (sp, q.rc, q.err[:300].decode("latin1")), t)
    # the embedded files as zlib decompresses them behave as the compiler's own copies
    fs = members()
    ctx.cov.setdefault("counts", {})
    if not fs:
        return
    L = os.path.join(d, "x")
    for name, data in fs.items():
        os.makedirs(os.path.dirname(os.path.join(L, name)), exist_ok=True)
        with open(os.path.join(L, name), "wb") as f:
            f.write(data)
    if not os.path.isdir(L + "/lib"):
        return
    for out in ("p.wasm", "p.wat"):
        a, b = sh([exe, "-q", "-o", "a" + out, "p.c"], cwd=d), sh([exe, "-q", "-L", "x/lib/", "-o", "b" + out, "p.c"], cwd=d)
        ctx.cov["evaluations"] += 1
        if a.rc or b.rc or open(d + "/a" + out, "rb").read() != open(d + "/b" + out, "rb").read():
            fail("embedded-differs", "the program linked with the embedded library differs from the one linked with the same files decompressed by zlib (rc=%s, %s)" % (a.rc, b.rc))
    for name in sorted(fs):
        m = re.match(r"lib/(\w+)\.wo$", name)
        if not m:
            continue
        # each module's object text through both ways: wcpl's reader of the embedded copy against the extracted one
        t = "#include <%s.h>\nint main(void) { return 0; }\n" % m.group(1).replace("stat", "sys/stat")
        with open(d + "/n.c", "w") as f:
            f.write(t)
        a, b = sh([exe, "-q", "-o", "a.wat", "n.c"], cwd=d), sh([exe, "-q", "-L", "x/lib/", "-o", "b.wat", "n.c"], cwd=d)
        ctx.cov["evaluations"] += 1
        if a.rc != b.rc or (a.rc == 0 and open(d + "/a.wat", "rb").read() != open(d + "/b.wat", "rb").read()):
            fail("embedded-differs", "including <%s.h> from the embedded library and from its decompressed copy gives different modules (rc=%s, %s: %s)" % (m.group(1), a.rc, b.rc, a.err[:200] + b.err[:200]), t)


def members():
    """the files of the archive embedded in l.c (empty when its text is not as expected)"""
    try:
        s = open(os.path.join(REPO, "l.c"), encoding="latin1").read()
        arr = {}
        for m in re.finditer(r"static unsigned char (file_l_\d+)\[(\d+)\]\s*=\s*((?:\s*\"(?:[^\"\\]|\\.)*\")+)", s):
            t = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3)))
            b = bytearray()
            for x in re.finditer(r"\\([0-7]{1,3})|\\(.)|([^\\])", t):
                b.append(int(x.group(1), 8) if x.group(1) else ord(x.group(2) or x.group(3)) if not x.group(2) else {"n": 10, "t": 9, "r": 13, "v": 11, "f": 12, "a": 7, "b": 8}.get(x.group(2), ord(x.group(2))))
            arr[m.group(1)] = bytes(b)[:int(m.group(2))]
        fs = {}
        for m in re.finditer(r'\{\s*"([^"]+)",\s*(\d+),\s*(\d+),\s*(\d+),\s*&(file_l_\d+)\[0\]\s*\}', s):
            data = arr[m.group(5)][:int(m.group(2))]
            fs[m.group(1)] = zlib.decompress(data, -15) if m.group(3) == "1" else data
            if len(fs[m.group(1)]) != int(m.group(4)):
                return {}
        return fs
    except Exception:
        return {}


HARNESS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
int zinflate(uint8_t *dest, size_t *destlen, const uint8_t *source, size_t *sourcelen);
static unsigned rd(void) { unsigned char b[4]; if (fread(b, 1, 4, stdin) != 4) exit(0); return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24; }
int main(void)
{
  while (1) {
    unsigned n = rd(), cap = rd(), i, h = 2166136261u; int r;
    uint8_t *s = malloc(n ? n : 1), *d = malloc(cap ? cap : 1); size_t dl = cap, sl = n;
    if (n && fread(s, 1, n, stdin) != n) return 3;
    memset(d, 0xAA, cap ? cap : 1);
    r = zinflate(d, &dl, s, &sl);
    if (r == 0) for (i = 0; i < dl; ++i) h = (h ^ d[i]) * 16777619u;
    printf("%d %u %u %u\n", r != 0, r ? 0 : (unsigned)dl, r ? 0 : (unsigned)sl, r ? 0 : h); fflush(stdout);
    free(s); free(d);
  }
}
"""


def inflate(ctx):
    """the decompressor of the embedded files against zlib, instrumented, on valid and damaged streams"""
    d = tempfile.mkdtemp(prefix="z", dir=ctx.scratch)
    with open(d + "/h.c", "w") as f:
        f.write(HARNESS)
    q = sh(["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I", REPO, "-o", "h", "h.c", os.path.join(REPO, "l.c"), "-lm"], cwd=d)
    if q.rc:
        ctx.cov["inflate_harness"] = "not built: " + q.err[:200].decode("latin1")
        return

    def job(i):
        r = ctx.rng("z", i)
        cases = []
        for _ in range(40):
            n = r.choice([0, 1, 2, 10, 100, 1000, 5000, 70000])
            k = r.random()
            data = (bytes(r.getrandbits(8) for _ in range(n)) if k < .25 else bytes([r.getrandbits(8)]) * n if k < .4 else
                    bytes(r.choice(b"ab \n") for _ in range(n)) if k < .6 else (b"%d " % r.getrandbits(9)) * (n // 4 + 1) if k < .7 else
                    b"".join(b"(i32.const %d)\n" % r.getrandbits(r.choice([3, 8, 30])) for _ in range(n // 12 + 1)))
            c = zlib.compressobj(r.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, 9, r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FILTERED]))
            s, p = b"", 0
            while p < len(data):
                m = r.choice([len(data), 1000, 20000])
                s += c.compress(data[p:p + m])
                p += m
                if r.random() < .5:
                    s += c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
            s += c.flush()
            cap = len(data)
            if r.random() < .5:
                b = bytearray(s)
                for _ in range(r.choice([1, 1, 2, 5])):
                    z = r.random()
                    if z < .5 and b:
                        b[r.randrange(len(b)) if r.random() < .5 else r.randrange(min(len(b), 20))] ^= 1 << r.randrange(8)
                    elif z < .7:
                        b = b[:r.randrange(len(b) + 1)]
                    elif z < .85:
                        b += bytes(r.getrandbits(8) for _ in range(r.randrange(5)))
                    else:
                        cap = max(0, cap + r.choice([-1, -10, 1, 100]))
                s = bytes(b)
            # the reference
            try:
                z = zlib.decompressobj(-15)
                o = z.decompress(s, cap + 1)
                if not z.eof:
                    # everything is out or more room is wanted
                    o += z.decompress(z.unconsumed_tail, 1) if z.unconsumed_tail else b""
                ref = (o, len(s) - len(z.unused_data)) if z.eof and len(o) <= cap else None
            except zlib.error:
                ref = False    # zlib is stricter about incomplete code sets: only memory safety is judged
            cases.append((s, cap, ref))
        inp = b"".join(len(s).to_bytes(4, "little") + cap.to_bytes(4, "little") + s for s, cap, _ in cases)
        q = sh(["./h"], cwd=d, stdin=inp, env={"ASAN_OPTIONS": "detect_leaks=0"})
        lines = q.out.decode("latin1").split("\n")
        for k, (s, cap, ref) in enumerate(cases):
            if k >= len(lines) - 1:
                return {"failures": [Failure("inflate-san", "the decompressor stops on stream %d: %s" % (k, q.err[-1500:].decode("latin1")), {"stream.bin": s})]}
            got = lines[k].split()
            if ref is False:
                ok = True
            elif ref is None:
                ok = got[0] == "1"
                exp = "an error"
            else:
                h = 2166136261
                for x in ref[0]:
                    h = ((h ^ x) * 16777619) & 0xffffffff
                exp = "0 %d %d %d" % (len(ref[0]), ref[1], h)
                ok = lines[k] == exp
            if not ok:
                return {"failures": [Failure("inflate", "stream of %d bytes into %d: expected %s, got %s" % (len(s), cap, exp, lines[k]), {"stream.bin": s})]}
        return {"evals": len(cases), "counts": {"streams": len(cases), "damaged": sum(1 for c in cases if not c[2])}}
    ctx.pmap(job, range(ctx.n(40, 600)))


CHECKS = {"C27": c27}
