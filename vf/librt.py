"""C11: startup, arguments, environment, termination and memory layout of linked programs."""
import os, tempfile, shutil
from .drv import *

NH = 40
HELPERS = HEAD.replace("#define IN_MAX 4000000", "#define IN_MAX 60000").replace("static void flush_(void) { int p = 0; while (p < outn_) { int k = (int)write(1,", "static void flush_(void) { int p = 0; while (p < outn_) { int k = (int)write(2,") + GZ


def source(mainkind, seed):
    """the program; everything it reports goes to descriptor 2 unless it is stream output"""
    hs = "\n".join("static void h%d_(void) { hit_(%d); return; }" % (i, i) for i in range(NH))
    tab = "\n".join("    case %d: { f = &h%d_; } break;" % (i, i) for i in range(NH))
    decl = {"void": "int main(void)", "args": "int main(int argc, char **argv)", "args2": "int main(int argc, char *argv[])"}[mainkind]
    setup = "" if mainkind == "void" else "  argc_ = argc; argv_ = argv;\n"
    return HELPERS + r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int zeros_[300]; static unsigned char data_[64] = { %s };
static char *text_ = "the quick brown fox %d";
static int argc_; static char **argv_; static int act_[40][3]; static FILE *file_; static int started_;
static char *blk_[64]; static int blkn_[64]; static int nblk_; static char *low_; static unsigned guard_[64];
static void reg_(int i);
static void hit_(int i) { oc_(104); oi_(i); nl_(); flush_(); 
  switch (act_[i][0]) {
    case 1: printf("[h%%d]", i); break;
    case 2: { putchar(65 + i); } break;
    case 3: { if (file_ != NULL) fprintf(file_, "(%%d)", i); } break;
    case 4: { if (act_[i][2] < 2) { act_[i][2] = act_[i][2] + 1; reg_(act_[i][1]); } } break;
    case 5: { char *e = getenv("HOME"); printf("%%s", e == NULL ? "none" : e); } break;
    case 6: { fputs("err", stderr); } break;
    default:;
  }
  return; }
''' % (", ".join(str((seed * 7 + i * 37) & 255) for i in range(64)), seed) + hs + r'''
static void reg_(int i) { void (*f)(void) = NULL; int r;
  switch (i) {
''' + tab + r'''
    default:;
  }
  r = atexit(f); oc_(114); oi_(r != 0); nl_(); flush_(); return; }
static unsigned deep_(char *top, unsigned budget, unsigned d) { char b[72]; int i; unsigned r = 0u; 
  for (i = 0; i < 72; ++i) b[i] = (char)(d * 5u + (unsigned)i);
  if (low_ == NULL || &b[0] < low_) low_ = &b[0];
  if ((unsigned)(unsigned long)(top - &b[0]) + 400u < budget) r = deep_(top, budget, d + 1u);
  for (i = 0; i < 72; ++i) if (b[i] != (char)(d * 5u + (unsigned)i)) r = r + 1u;
  return r; }
static unsigned wide_(char *top, unsigned budget, unsigned d) { char b[3000]; int i; unsigned r = 0u; 
  for (i = 0; i < 3000; ++i) b[i] = (char)(d * 5u + (unsigned)i);
  if (low_ == NULL || &b[0] < low_) low_ = &b[0];
  if ((unsigned)(unsigned long)(top - &b[0]) + 3400u < budget) r = wide_(top, budget, d + 1u);
  for (i = 0; i < 3000; ++i) if (b[i] != (char)(d * 5u + (unsigned)i)) r = r + 1u;
  return r; }
static void check_(int seed) { int i, j, bad = 0; 
  for (i = 0; i < 300; ++i) if (zeros_[i] != 0) bad = bad | 1;
  for (i = 0; i < 64; ++i) if (data_[i] != (unsigned char)((seed * 7 + i * 37) & 255)) bad = bad | 2;
  if (strncmp(text_, "the quick brown fox ", (size_t)20) != 0) bad = bad | 4;
  for (i = 0; i < nblk_; ++i) for (j = 0; j < blkn_[i]; ++j) if (blk_[i][j] != (char)(i * 11 + j)) bad = bad | 8;
  for (i = 0; i < 64; ++i) if (guard_[i] != 0u) bad = bad | 16;
  oc_(99); oi_(bad); nl_(); return; }
static void leave_(int how, int code, int depth) { 
  if (depth > 0) { leave_(how, code, depth - 1); return; }
  flush_();
  if (how == 1) exit(code);
  if (how == 2) abort();
  if (how == 3) _exit(code);
  return; }
''' + decl + " {\n  int k, n, i; char *p; char mark[16];\n" + setup + r'''  load_(); mark[0] = 1;
  while (more_()) {
    k = g8_();
    switch (k) {
      case 0: reg_(g8_()); break;
      case 1: { n = g8_(); act_[n][0] = g8_(); act_[n][1] = g8_(); } break;
      case 2: { p = gz_(); printf("%s", p); } break;
      case 3: { p = gz_(); if (file_ == NULL) file_ = fopen("/out", "w"); if (file_ != NULL) fputs(p, file_); } break;
      case 4: { p = getenv(gz_()); oc_(101); if (p == NULL) oi_(-1); else os_(p); nl_(); } break;
      case 5: { n = (int)g32_(); oc_(100); ou_((unsigned long long)n > 70000 ? wide_(&mark[0], (unsigned)n, 0u) : deep_(&mark[0], (unsigned)n, 0u)); nl_(); } break;
      case 6: { n = (int)g32_(); p = malloc((size_t)n); if (p != NULL && nblk_ < 64) { for (i = 0; i < n; ++i) p[i] = (char)(nblk_ * 11 + i); blk_[nblk_] = p; blkn_[nblk_] = n; nblk_ = nblk_ + 1; } 
        oc_(109); oi_(p != NULL); nl_(); } break;
      case 7: { oc_(97); oi_(argc_); for (i = 0; i < argc_; ++i) os_(argv_[i]); if (argc_ > 0) oi_(argv_[argc_] == NULL); nl_(); } break;
      case 8: check_(g8_()); break;
      case 9: { n = g8_(); i = g8_(); leave_(n, i, g8_()); return i; } break;
      case 10: { oc_(118); oi_(low_ < &mark[0]); for (i = 0; i < nblk_; ++i) if (blk_[i] < &mark[0]) break; oi_(i == nblk_); 
        oi_((char *)&data_[0] < low_); oi_((char *)&zeros_[0] < low_); oi_((char *)&in_[0] < low_); oi_(&out_[0] < low_); oi_((char *)&act_[0] < low_);
        for (i = 0; i < argc_; ++i) if (argv_[i] <= &mark[0]) break; oi_(i == argc_ || argv_[0][0] == 0); nl_(); } break;
      case 11: { p = gz_(); fputs(p, stderr); } break;
      default: oc_(63);
    }
    flush_();
  }
  return 0;
}
'''


def hexs(b):
    return "22" if False else '"%s' % b.hex()


def line(*f):
    return (" ".join(f) + " ").encode()


class RT:
    """what the program must do"""
    def __init__(self, args, env, argsize, mainkind):
        self.err = b""          # descriptor 2
        self.out = b""
        self.file = None
        self.fbuf = b""
        self.regs = []
        self.act = {}
        self.args, self.env, self.mainkind = args, env, mainkind
        self.stdio = False


def rand_text(r, n, alphabet="abcXYZ 0189=-_/.,\tÄ"):
    return "".join(r.choice(alphabet) for _ in range(n))


def scenario(r, cfg, seed, cnt):
    """one run: (script, argv, env, expected stderr, expected stdout, expected file, exit code or 'abort')"""
    mainkind, argsize, stack = cfg
    k = r.random()
    nargs = r.choice([0, 1, 2, 5]) if k < .6 else r.choice([30, 100, 400]) if k < .8 else 3
    args = ["prog"] + [rand_text(r, r.choice([0, 1, 2, 7, 15, 16, 17, 60])) for _ in range(nargs)]
    lim = {None: 4096, 0: 1 << 30}.get(argsize, argsize)
    if mainkind != "void" and argsize != 0 and r.random() < .5:
        # close to what fits
        want = lim + r.choice([-200, -40, -24, -17, -1, 0, 1, 20, 300, 3000])
        args = ["prog"] + args[1:r.randint(1, 4)]
        cur = sum(len(a.encode()) + 1 for a in args) + 4 * (len(args) + 2)
        if want - cur > 1:
            args.append("x" * (want - cur - 1))
    total = sum(len(a.encode()) + 1 for a in args)
    need = total + 4 * (len(args) + 1)
    fits = True if mainkind == "void" or argsize == 0 or need + 16 <= lim else False if need > lim else None
    names = ["HOME", "HOM", "HOMES", "X", "PATH", "LONG", "E", "A_B", ""]
    env = {}
    for nme in r.sample(names[:-1], r.randint(0, 6)):
        env[nme] = rand_text(r, r.choice([0, 1, 5, 40, 300]))
    env = list(env.items())
    r.shuffle(env)
    w = W()
    err, out, fil = b"", b"", None
    # atexit state
    stack_h, act = [], {}
    got_args = args if fits else None

    def note(x):
        cnt[x] = cnt.get(x, 0) + 1

    for h in r.sample(range(NH), r.randint(0, 25)):
        a = r.choice([0, 1, 2, 3, 4, 4, 5, 6])
        w.u8(1, h, a)
        b = r.randrange(NH)
        w.u8(b)
        act[h] = [a, b, 0]
    nreg = 0
    many = r.random() < .25
    early = r.random() < .4
    for step in range(r.randint(3, 45)):
        z = r.random()
        if (early and step == 0) or z < (.75 if many else .35):
            if len(stack_h) >= 32:
                continue
            h = r.randrange(NH)
            w.u8(0, h)
            stack_h.append(h)
            err += b"r0 \n"
            note("atexit")
        elif z < .5 and not (early and step < 3):
            t = rand_text(r, r.choice([0, 1, 5, 100, 1500])).encode() + (b"\n" if r.random() < .3 else b"")
            w.u8(2).z(t)
            out += t
            note("printf")
        elif z < .58 and not (early and step < 3):
            t = rand_text(r, r.choice([1, 5, 100, 1500])).encode()
            w.u8(3).z(t)
            fil = (fil or b"") + t
            note("file")
        elif z < .66:
            n = r.choice(names)
            w.u8(4).z(n.encode())
            v = dict(env).get(n)
            err += b"effffffff \n" if v is None else ('e"%s \n' % v.encode().hex()).encode()
            note("getenv")
        elif z < .74:
            b = r.choice([300, stack // 2, stack])
            w.u8(5).u32(b)
            err += b"d0 \n"
            note("deep")
        elif z < .82:
            n = r.choice([1, 10, 1000, 5000, 70000])
            w.u8(6).u32(n)
            err += b"m1 \n"
            note("malloc")
        elif z < .9:
            w.u8(7)
            if mainkind == "void":
                err += b"a0 \n"
            elif fits is None:
                err += b"a?\n"
            elif fits:
                err += ("a%x %s 1 \n" % (len(args), " ".join('"%s' % a.encode().hex() for a in args))).encode()
            else:
                err += b'a1 "' + b" 1 \n"
            note("args")
        elif z < .95:
            w.u8(8, seed)
            err += b"c0 \n"
            note("integrity")
        elif z < .97:
            t = rand_text(r, 5).encode() + b"\n"
            w.u8(11).z(t)
            err += t
        else:
            w.u8(5).u32(300)
            err += b"d0 \n"
            w.u8(10)
            err += b"v1 1 1 1 1 1 1 1 \n"
    w.u8(8, seed)
    err += b"c0 \n"
    how = r.choice([0, 0, 0, 1, 1, 1, 1, 2, 3])
    code = r.choice([0, 1, 2, 7, 77, 125])
    w.u8(9, how, code, r.choice([0, 1, 10]))
    note(["return", "exit", "abort", "_exit"][how])
    if how <= 1:
        while stack_h:
            h = stack_h.pop()
            err += b"h%x \n" % h
            note("handler runs")
            a, b, _ = act.get(h, (0, 0, 0))
            if a == 1:
                out += b"[h%d]" % h
            elif a == 2:
                out += bytes([65 + h])
            elif a == 3:
                if fil is not None:
                    fil += b"(%d)" % h
            elif a == 4:
                if act[h][2] < 2:
                    act[h][2] += 1
                    stack_h.append(b)
                    err += b"r0 \n"
                    note("registered while exiting")
            elif a == 5:
                out += dict(env).get("HOME", "none").encode()
            elif a == 6:
                err += b"err"
    if fits is False:
        err = None, err       # preceded by a message
    return w, args, env, err, out, fil, ("abort" if how == 2 else code), how, fits


def c11(ctx):
    ctx.tree.build()
    cfgs = []
    for j, (mk, a, s) in enumerate([("void", None, None), ("void", 512, 8192), ("void", 0, 1024 * 1024), ("args", None, None), ("args2", 512, 4096), ("args", 0, 16384), ("args", 65536, 65536), ("args2", 1024, 300000), ("args", 0, None)]):
        opts = []
        if a is not None:
            opts += ["-a", str(a)]
        if s is not None:
            opts += ["-s", str(s)]
        if j in (1, 5, 7):
            opts += ["-O", str(r0) if (r0 := [0, 1, 2][j % 3]) is not None else ""]
        src = source(mk, 10 + j)
        cfgs.append(((mk, a, s or 131072), 10 + j, build(ctx, "rt%d" % j, src, opts), src, opts))
    ctx.cov["rule"] = ("programs built with every form of main and many -s/-a values are run on random scripts (atexit registrations before and after stream use and from handlers, up to the 32 that C guarantees; stream output to stdout, stderr and a file "
                       "left open; getenv; arguments up to and past the -a limit; recursion down to the end of the stack with all static, heap and argument data verified; exit by return, exit, abort, _exit); "
                       "the monitor compares both output streams, the file and the exit code with a model")

    def job(i):
        r = ctx.rng("rt", i)
        tot = {"evals": 0, "failures": [], "keys": [], "counts": {}}
        for q in range(6):
            cfg, seed, mod, src, opts = cfgs[(i * 6 + q) % len(cfgs)]
            w, args, env, err, out, fil, code, how, fits = scenario(r, cfg, seed, tot["counts"])
            d = tempfile.mkdtemp(prefix="rt", dir=ctx.scratch)
            try:
                x = run_wasm(mod, argv=args, env=env, stdin=bytes(w.b), preopen=d, tmp=ctx.scratch, fuel=4_000_000_000)
                have = open(d + "/out", "rb").read() if os.path.exists(d + "/out") else None
            finally:
                shutil.rmtree(d, ignore_errors=True)
            tot["evals"] += 1
            files = {"prog.c": src, "stdin.bin": bytes(w.b), "how.txt": "options %s\nargv %r\nenv %r\n" % (opts, args, env)}
            tot["keys"].append(hashlib.sha1(bytes(w.b) + repr((args, env, cfg)).encode()).hexdigest()[:16])

            def bad(k, m):
                tot["failures"].append(Failure("rt:" + k, "%s (main %s, options %s): %s" % (["return from main", "exit", "abort", "_exit"][how], cfg[0], " ".join(opts), m), files))
            if x.invalid:
                bad("invalid", x.invalid)
                break
            if code == "abort":
                if x.code == 0 and not x.trap:
                    bad("abort", "abort ended the program successfully")
            elif x.code != code or x.trap:
                bad("code", "exit status %s%s, expected %d; descriptor 2: %r" % (x.code, " trap " + x.trap if x.trap else "", code, x.err[-300:]))
            got = x.err
            want = err
            if isinstance(err, tuple):
                j = got.find(b"\n")
                if b"argum" not in got[:j]:
                    bad("toolong", "arguments that do not fit are not reported: %r" % got[:100])
                got, want = got[j + 1:], err[1]
            elif fits is None and got.startswith(b"internal error"):
                got = got[got.find(b"\n") + 1:]
            if fits is None:
                f = lambda t: b"\n".join(l for l in t.split(b"\n") if not l.startswith(b"a"))
                got, want = f(got), f(want)
            if got != want:
                a, b = got.split(b"\n"), want.split(b"\n")
                n = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), min(len(a), len(b)))
                bad("events", "event %d is %r, expected %r" % (n, a[n] if n < len(a) else "missing", b[n] if n < len(b) else "none"))
            # C lets abort and POSIX lets _exit leave streams unflushed, but never reorder or invent output
            if (x.out != out) if how <= 1 else not out.startswith(x.out):
                bad("stdout", "standard output has %d bytes %r..., expected %d bytes, ...%r" % (len(x.out), x.out[-60:], len(out), out[-60:]))
            if (have != fil) if how <= 1 else not (fil or b"").startswith(have or b""):
                bad("file", "the file left open has %r, expected %r" % (have and have[-60:], fil and fil[-60:]))
            if tot["failures"]:
                break
        if i == 0:
            tot["samples"] = [{"argv": args[:5], "env": env[:3], "descriptor 2": str(err)[:400]}]
        return tot
    ctx.pmap(job, range(ctx.n(500, 10000)))


CHECKS = {"C11": c11}
