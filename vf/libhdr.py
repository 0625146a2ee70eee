"""C28: what the headers publish (constants, types, format macros, assert, WASI declarations, the fake floating-point
environment, the internal message printer) is what the implementation and the WASI preview1 ABI do.
The expected values are written here from the C and WASI specifications; nothing is read from the tree's headers."""
import os, re, shutil, stat as pystat, struct, tempfile
from .drv import *
from .core import Failure, sh
from .cgen import wcpl_compile
from . import wasmdec

M32, M64 = 2 ** 32 - 1, 2 ** 64 - 1


def fbits(s):
    return struct.unpack("<I", struct.pack("<f", float(s)))[0]


def dbits(s):
    return struct.unpack("<Q", struct.pack("<d", float(s)))[0]


# ---------------------------------------------------------------- constants: header -> {name: value}
I = {}


def ints(h, **kw):
    I.setdefault(h, {}).update(kw)


ints("limits.h", CHAR_BIT=8, SCHAR_MIN=-128, SCHAR_MAX=127, UCHAR_MAX=255, CHAR_MIN=-128, CHAR_MAX=127, MB_LEN_MAX=4,
     SHRT_MIN=-2 ** 15, SHRT_MAX=2 ** 15 - 1, USHRT_MAX=2 ** 16 - 1, INT_MIN=-2 ** 31, INT_MAX=2 ** 31 - 1, UINT_MAX=M32,
     LONG_MIN=-2 ** 31, LONG_MAX=2 ** 31 - 1, ULONG_MAX=M32, LLONG_MIN=-2 ** 63, LLONG_MAX=2 ** 63 - 1, ULLONG_MAX=M64)
for _w in (8, 16, 32, 64):
    ints("stdint.h", **{"INT%d_MIN" % _w: -2 ** (_w - 1), "INT%d_MAX" % _w: 2 ** (_w - 1) - 1, "UINT%d_MAX" % _w: 2 ** _w - 1,
                        "INT_LEAST%d_MIN" % _w: -2 ** (_w - 1), "INT_LEAST%d_MAX" % _w: 2 ** (_w - 1) - 1, "UINT_LEAST%d_MAX" % _w: 2 ** _w - 1})
    if _w in (8, 64):
        ints("stdint.h", **{"INT_FAST%d_MIN" % _w: -2 ** (_w - 1), "INT_FAST%d_MAX" % _w: 2 ** (_w - 1) - 1, "UINT_FAST%d_MAX" % _w: 2 ** _w - 1})
ints("stdint.h", INTMAX_MIN=-2 ** 63, INTMAX_MAX=2 ** 63 - 1, UINTMAX_MAX=M64, PTRDIFF_MIN=-2 ** 31, PTRDIFF_MAX=2 ** 31 - 1,
     SIZE_MAX=M32, INTPTR_MIN=-2 ** 31, INTPTR_MAX=2 ** 31 - 1, UINTPTR_MAX=M32)
ints("wchar.h", WCHAR_MIN=-2 ** 31, WCHAR_MAX=2 ** 31 - 1, WINT_MIN=-2 ** 31, WINT_MAX=2 ** 31 - 1)
ints("float.h", FLT_RADIX=2, DBL_DIG=15, DBL_MANT_DIG=53, DBL_MAX_10_EXP=308, DBL_MAX_EXP=1024, DBL_MIN_10_EXP=-307, DBL_MIN_EXP=-1021,
     FLT_DIG=6, FLT_MANT_DIG=24, FLT_MAX_10_EXP=38, FLT_MAX_EXP=128, FLT_MIN_10_EXP=-37, FLT_MIN_EXP=-125)
ERR = ("SUCCESS 2BIG ACCES ADDRINUSE ADDRNOTAVAIL AFNOSUPPORT AGAIN ALREADY BADF BADMSG BUSY CANCELED CHILD CONNABORTED CONNREFUSED "
       "CONNRESET DEADLK DESTADDRREQ DOM DQUOT EXIST FAULT FBIG HOSTUNREACH IDRM ILSEQ INPROGRESS INTR INVAL IO ISCONN ISDIR LOOP "
       "MFILE MLINK MSGSIZE MULTIHOP NAMETOOLONG NETDOWN NETRESET NETUNREACH NFILE NOBUFS NODEV NOENT NOEXEC NOLCK NOLINK NOMEM "
       "NOMSG NOPROTOOPT NOSPC NOSYS NOTCONN NOTDIR NOTEMPTY NOTRECOVERABLE NOTSOCK NOTSUP NOTTY NXIO OVERFLOW OWNERDEAD PERM "
       "PIPE PROTO PROTONOSUPPORT PROTOTYPE RANGE ROFS SPIPE SRCH STALE TIMEDOUT TXTBSY XDEV NOTCAPABLE").split()
assert len(ERR) == 77
ints("errno.h", **{"E" + n: k for k, n in enumerate(ERR)})
ints("wasi/api.h", **{"ERRNO_" + n: k for k, n in enumerate(ERR)})
RIGHTS = ("FD_DATASYNC FD_READ FD_SEEK FD_FDSTAT_SET_FLAGS FD_SYNC FD_TELL FD_WRITE FD_ADVISE FD_ALLOCATE PATH_CREATE_DIRECTORY "
          "PATH_CREATE_FILE PATH_LINK_SOURCE PATH_LINK_TARGET PATH_OPEN FD_READDIR PATH_READLINK PATH_RENAME_SOURCE PATH_RENAME_TARGET "
          "PATH_FILESTAT_GET PATH_FILESTAT_SET_SIZE PATH_FILESTAT_SET_TIMES FD_FILESTAT_GET FD_FILESTAT_SET_SIZE FD_FILESTAT_SET_TIMES "
          "PATH_SYMLINK PATH_REMOVE_DIRECTORY PATH_UNLINK_FILE POLL_FD_READWRITE SOCK_SHUTDOWN").split()
ints("wasi/api.h", **{"RIGHTS_" + n: 1 << k for k, n in enumerate(RIGHTS)})
for _p, _l, _f in (("CLOCKID", "REALTIME MONOTONIC PROCESS_CPUTIME_ID THREAD_CPUTIME_ID", 0), ("WHENCE", "SET CUR END", 0),
                   ("FILETYPE", "UNKNOWN BLOCK_DEVICE CHARACTER_DEVICE DIRECTORY REGULAR_FILE SOCKET_DGRAM SOCKET_STREAM SYMBOLIC_LINK", 0),
                   ("ADVICE", "NORMAL SEQUENTIAL RANDOM WILLNEED DONTNEED NOREUSE", 0), ("FDFLAGS", "APPEND DSYNC NONBLOCK RSYNC SYNC", 1),
                   ("FSTFLAGS", "ATIM ATIM_NOW MTIM MTIM_NOW", 1), ("LOOKUPFLAGS", "SYMLINK_FOLLOW", 1), ("OFLAGS", "CREAT DIRECTORY EXCL TRUNC", 1),
                   ("EVENTTYPE", "CLOCK FD_READ FD_WRITE", 0), ("EVENTRWFLAGS", "FD_READWRITE_HANGUP", 1), ("SUBCLOCKFLAGS", "SUBSCRIPTION_CLOCK_ABSTIME", 1),
                   ("SIGNAL", "NONE HUP INT QUIT ILL TRAP ABRT BUS FPE KILL USR1 SEGV USR2 PIPE ALRM TERM CHLD CONT STOP TSTP TTIN TTOU URG XCPU XFSZ VTALRM PROF WINCH POLL PWR SYS", 0),
                   ("RIFLAGS", "RECV_PEEK RECV_WAITALL", 1), ("ROFLAGS", "RECV_DATA_TRUNCATED", 1), ("SDFLAGS", "RD WR", 1), ("PREOPENTYPE", "DIR", 0)):
    ints("wasi/api.h", **{"%s_%s" % (_p, n): (1 << k if _f else k) for k, n in enumerate(_l.split())})
ints("fcntl.h", O_APPEND=1, O_DSYNC=2, O_NONBLOCK=4, O_RSYNC=8, O_SYNC=16, O_CREAT=0x1000, O_DIRECTORY=0x2000, O_EXCL=0x4000, O_TRUNC=0x8000,
     POSIX_FADV_NORMAL=0, POSIX_FADV_SEQUENTIAL=1, POSIX_FADV_RANDOM=2, POSIX_FADV_WILLNEED=3, POSIX_FADV_DONTNEED=4, POSIX_FADV_NOREUSE=5,
     FD_CLOEXEC=1)
ints("dirent.h", DT_UNKNOWN=0, DT_BLK=1, DT_CHR=2, DT_DIR=3, DT_REG=4, DT_LNK=7)
ints("sys/stat.h", S_IXOTH=1, S_IWOTH=2, S_IROTH=4, S_IRWXO=7, S_IXGRP=8, S_IWGRP=16, S_IRGRP=32, S_IRWXG=56, S_IXUSR=64, S_IWUSR=128, S_IRUSR=256,
     S_IRWXU=448, S_ISVTX=512, S_ISGID=1024, S_ISUID=2048, S_IFBLK=0x6000, S_IFCHR=0x2000, S_IFDIR=0x4000, S_IFLNK=0xa000, S_IFREG=0x8000,
     S_IFSOCK=0xc000, S_IFMT=0xe000 | 0)
ints("unistd.h", STDIN_FILENO=0, STDOUT_FILENO=1, STDERR_FILENO=2, F_OK=0, X_OK=1, W_OK=2, R_OK=4, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)
ints("stdio.h", EOF=-1, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)
ints("stdlib.h", EXIT_SUCCESS=0, EXIT_FAILURE=1, MB_CUR_MAX=4, RAND_MAX=2 ** 31 - 1)
ints("time.h", CLOCKS_PER_SEC=10 ** 9)
ints("fenv.h", FE_ALL_EXCEPT=0, FE_TONEAREST=0)
FL = {"float.h": {"DBL_MAX": ("d", dbits(1.7976931348623157e308)), "DBL_MIN": ("d", dbits(2.2250738585072014e-308)), "DBL_EPSILON": ("d", dbits(2.0 ** -52)),
                  "FLT_MAX": ("f", fbits(3.4028234663852886e38)), "FLT_MIN": ("f", fbits(2.0 ** -126)), "FLT_EPSILON": ("f", fbits(2.0 ** -23))},
      "math.h": {"HUGE_VAL": ("d", dbits("inf")), "INFINITY": ("f", fbits("inf")), "NAN": ("f", fbits("nan"))}}
# ---------------------------------------------------------------- types: name -> (size, signedness or kind)
TY = {"stdint.h": {}, "stddef.h": {"size_t": (4, 0), "ptrdiff_t": (4, 1), "wchar_t": (4, 1)}, "sys/types.h": {
    "off_t": (8, 1), "nlink_t": (8, 0), "dev_t": (8, 0), "ino_t": (8, 0), "mode_t": (4, 0), "uid_t": (4, 0), "gid_t": (4, 0), "time_t": (8, 1), "clock_t": (8, 1), "ssize_t": (4, 1)},
    "wasi/api.h": {"filesize_t": (8, 0), "timestamp_t": (8, 0), "clockid_t": (4, 0), "errno_t": (2, 0), "rights_t": (8, 0), "fd_t": (4, 1), "filedelta_t": (8, 1), "whence_t": (1, 0),
                   "dircookie_t": (8, 0), "dirnamlen_t": (4, 0), "inode_t": (8, 0), "filetype_t": (1, 0), "advice_t": (1, 0), "fdflags_t": (2, 0), "device_t": (8, 0), "fstflags_t": (2, 0),
                   "lookupflags_t": (4, 0), "oflags_t": (2, 0), "linkcount_t": (8, 0), "userdata_t": (8, 0), "eventtype_t": (1, 0), "eventrwflags_t": (2, 0), "subclockflags_t": (2, 0),
                   "exitcode_t": (4, 0), "signal_t": (1, 0), "riflags_t": (2, 0), "roflags_t": (2, 0), "siflags_t": (2, 0), "sdflags_t": (1, 0), "preopentype_t": (1, 0)}}
for _w in (8, 16, 32, 64):
    TY["stdint.h"].update({"int%d_t" % _w: (_w // 8, 1), "uint%d_t" % _w: (_w // 8, 0), "int_least%d_t" % _w: (_w // 8, 1), "uint_least%d_t" % _w: (_w // 8, 0)})
TY["stdint.h"].update({"int_fast8_t": (1, 1), "uint_fast8_t": (1, 0), "int_fast64_t": (8, 1), "uint_fast64_t": (8, 0), "intmax_t": (8, 1), "uintmax_t": (8, 0), "intptr_t": (4, 1), "uintptr_t": (4, 0)})
# struct: (size, {field: (offset, size)})
ST = {"iovec_t": (8, {"buf": (0, 4), "buf_len": (4, 4)}), "ciovec_t": (8, {"buf": (0, 4), "buf_len": (4, 4)}),
      "dirent_t": (24, {"d_next": (0, 8), "d_ino": (8, 8), "d_namlen": (16, 4), "d_type": (20, 1)}),
      "fdstat_t": (24, {"fs_filetype": (0, 1), "fs_flags": (2, 2), "fs_rights_base": (8, 8), "fs_rights_inheriting": (16, 8)}),
      "filestat_t": (64, {"dev": (0, 8), "ino": (8, 8), "filetype": (16, 1), "nlink": (24, 8), "size": (32, 8), "atim": (40, 8), "mtim": (48, 8), "ctim": (56, 8)}),
      "event_fd_readwrite_t": (16, {"nbytes": (0, 8), "flags": (8, 2)}), "event_t": (32, {"userdata": (0, 8), "error": (8, 2), "type": (10, 1), "fd_readwrite": (16, 16)}),
      "subscription_clock_t": (32, {"id": (0, 4), "timeout": (8, 8), "precision": (16, 8), "flags": (24, 2)}),
      "subscription_u_t": (40, {"tag": (0, 1), "u": (8, 32)}), "subscription_t": (48, {"userdata": (0, 8), "u": (8, 40)}),
      "prestat_t": (8, {"tag": (0, 1), "u": (4, 4)})}
HEADERS = sorted(set(I) | set(FL) | set(TY) | {"string.h", "ctype.h", "stdarg.h", "stdbool.h", "assert.h", "locale.h", "inttypes.h", "sys/intrs.h", "sys/cdefs.h"})


def const_program(r):
    """(text, expected words, names): constants of a random choice of headers in a random order of inclusion"""
    hs = r.sample(HEADERS, r.randint(2, len(HEADERS)))
    inc = hs + r.sample(hs, r.randint(0, 2))
    g, body, exp, names = [], [], [], []
    k = 0
    for h in hs:
        for n, v in r.sample(sorted(I.get(h, {}).items()), min(len(I.get(h, {})), r.randint(1, 60))):
            k += 1
            how = r.randint(0, 6)
            lit = "%dLL" % v if -2 ** 63 < v < 2 ** 63 else "(-9223372036854775807LL - 1LL)" if v < 0 else "%dULL" % v
            if how == 0:
                g.append("static long long c%d = (long long)%s;" % (k, n))
                e = "c%d" % k
            elif how == 1:
                g.append("static unsigned long long c%d[2] = { 1ULL, (unsigned long long)(%s) };" % (k, n))
                e = "c%d[1]" % k
            elif how == 2:
                g.append("static_assert((long long)%s == (long long)%s, \"%s\");" % (n, lit, n))
                e = "(long long)%s" % n
            elif how == 3 and -2 ** 31 <= v < 2 ** 31:
                g.append("static int s%d(int x) { switch (x) { case %s: { return 1; } break; default: { return 0; } break; } return 2; }" % (k, "(int)(%s)" % n))
                e = "s%d((int)%s) ? (long long)%s : 0LL - 77LL" % (k, "%d" % v if v > -2 ** 31 else "(-2147483647 - 1)", n)
                if r.random() < .5:
                    body.append("oi_(s%d((int)%s));" % (k, "%d" % (v ^ 1) if v ^ 1 > -2 ** 31 else "0"))
                    exp.append("0")
                    names.append("case " + n + " against another value")
            elif how == 4 and 0 < v < 50000:
                g.append("static char a%d[(int)%s];" % (k, n))
                e = "sizeof(a%d)" % k
            else:
                e = "(long long)%s" % n if r.random() < .5 else "0LL + (long long)(%s)" % n
            body.append("ou_((unsigned long long)(%s));" % e)
            exp.append("%x" % (v & M64))
            names.append(n)
        for n, (t, b) in FL.get(h, {}).items():
            k += 1
            ct = "double" if t == "d" else "float"
            if r.random() < .5:
                g.append("static %s f%d = %s;" % (ct, k, n))
                body.append("o%s_(f%d);" % (t, k))
            else:
                body.append("o%s_(%s);" % (t, n))
            exp.append("n" if n == "NAN" else "%x" % b)
            names.append(n)
        for n, (sz, sg) in TY.get(h, {}).items():
            if r.random() < .6:
                mn = {1: "signed char", 2: "short", 4: "int", 8: "long long"}[sz]
                body.append("{ %s x, y[3]; x = (%s)0; x = (%s)(x - (%s)1); oi_((int)sizeof(x)); oi_((int)((char *)&y[2] - (char *)&y[0])); oi_(x > (%s)0); }" % (n, n, n, n, n))
                exp += ["%x" % sz, "%x" % (2 * sz), "%x" % (1 - sg)]
                names += [n + " size", n + " array", n + " sign"]
    if "wasi/api.h" in hs:
        for n, (sz, fl) in ST.items():
            body.append("oi_((int)sizeof(%s));" % n)
            exp.append("%x" % sz)
            names.append("sizeof(%s)" % n)
            for f, (o, s) in fl.items():
                body.append("{ %s x[2]; oi_((int)offsetof(%s, %s)); oi_((int)((char *)&x[1].%s - (char *)&x[0])); oi_((int)sizeof(x[0].%s)); }" % (n, n, f, f, f))
                exp += ["%x" % o, "%x" % (sz + o), "%x" % s]
                names += ["%s.%s" % (n, f)] * 3
    if "stdint.h" in hs:
        for w in (8, 16, 32, 64):
            for u in ("", "U"):
                v = r.randint(0, 2 ** (w - (u == "")) - 1)
                lit = "%d%s" % (v, ("LL" if w == 64 else "") if not u else ("" if w < 32 else "U" if w == 32 else "ULL"))
                body.append("ou_((unsigned long long)%sINT%d_C(%s)); oi_((int)sizeof(%sINT%d_C(1)));" % (u, w, lit, u, w))
                exp += ["%x" % v, "8" if w == 64 else "4"]
                names += ["%sINT%d_C" % (u, w)] * 2
    main = ""
    for i in range(0, len(body), 40):
        g.append("static void p%d(void) { %s }" % (i, "\n ".join(body[i:i + 40])))
        main += "p%d(); " % i
    incs = ["#include <%s>" % h for h in inc]
    cut = r.randint(0, len(incs))
    text = "\n".join(incs[:cut]) + "\n" + HEAD + "\nstatic void of_(float f) { union { unsigned u; float f; } x; x.f = f; if (f != f) { oc_(110); oc_(32); } else ou_((unsigned long long)x.u); return; }\n" + "\n".join(
        incs[cut:]) + "\n" + "\n".join(g) + "\nint main(void) { %s nl_(); flush_(); return 0; }\n" % main
    return text, exp, names


# ---------------------------------------------------------------- inttypes.h
KINDS = [("8", 8, "int8_t", "uint8_t"), ("16", 16, "int16_t", "uint16_t"), ("32", 32, "int32_t", "uint32_t"), ("64", 64, "int64_t", "uint64_t"),
         ("LEAST8", 8, "int_least8_t", "uint_least8_t"), ("LEAST16", 16, "int_least16_t", "uint_least16_t"), ("LEAST32", 32, "int_least32_t", "uint_least32_t"),
         ("LEAST64", 64, "int_least64_t", "uint_least64_t"), ("FAST8", 8, "int_fast8_t", "uint_fast8_t"), ("FAST16", 32, "int", "unsigned"), ("FAST32", 32, "int", "unsigned"),
         ("FAST64", 64, "int_fast64_t", "uint_fast64_t"), ("MAX", 64, "intmax_t", "uintmax_t"), ("PTR", 32, "intptr_t", "uintptr_t")]


def inttypes_src():
    o = [HEAD, "#include <inttypes.h>\n#include <stdio.h>\n#include <string.h>\n#include <sys/stat.h>\n#include <fenv.h>\n#include <stdlib.h>\n#include <locale.h>\n" + GZ,
         "static char b_[400];\nint main(void) {\n  load_(); setlocale(LC_ALL, \".utf8\");\n  while (more_()) {\n    int k = (int)g16_();\n    switch (k) {"]
    cmds = []
    for kn, w, st, ut in KINDS:
        for c in "diouxX":
            t = st if c in "di" else ut
            i = len(cmds)
            o.append("      case %d: { %s v = (%s)g64_(); sprintf(&b_[0], \"<%%\" PRI%s%s \"|%%12\" PRI%s%s \"|%%d>\", v, v, 12345); os_(&b_[0]); nl_(); } break;" % (i, t, t, c, kn, c, kn))
            cmds.append(("p", c, w, "PRI%s%s" % (c, kn)))
            if c == "X":
                continue
            i = len(cmds)
            o.append("      case %d: { struct { unsigned char a[8]; %s v; unsigned char z[8]; } x; int n, q = 0; memset(&x, 165, sizeof(x)); n = sscanf(gz_(), \"%%\" SCN%s%s \" %%d\", &x.v, &q); oi_(n); ou_((unsigned long long)(long long)x.v); oi_(q); ob_(&x.a[0], 8); ob_(&x.z[0], 8); nl_(); } break;" % (i, t, c, kn))
            cmds.append(("s", c, w, "SCN%s%s" % (c, kn)))
    i = len(cmds)
    o.append("      case %d: { mode_t m = (mode_t)g32_(); oi_(S_ISBLK(m)); oi_(S_ISCHR(m)); oi_(S_ISDIR(m)); oi_(S_ISLNK(m)); oi_(S_ISREG(m)); oi_(S_ISSOCK(m)); nl_(); } break;" % i)
    cmds.append(("m",))
    o.append("""      case %d: { fenv_t e, *pe = &e; fexcept_t f = (fexcept_t)5; double d = gd_(), q = gd_(); feclearexcept(g8_()); feraiseexcept(FE_ALL_EXCEPT);
        fegetexceptflag(&f, FE_ALL_EXCEPT); fesetexceptflag(&f, FE_ALL_EXCEPT); oi_(fetestexcept(FE_ALL_EXCEPT)); oi_(fegetround() == FE_TONEAREST); oi_(fesetround(FE_TONEAREST));
        fegetenv(pe); oi_(feholdexcept(pe)); od_(d / q); fesetenv(pe); feupdateenv(pe); fesetenv(FE_DFL_ENV); oi_(fetestexcept(FE_ALL_EXCEPT)); od_(d * q); nl_(); } break;""" % (i + 1))
    cmds.append(("e",))
    pf = "d u o x p s".split()
    o.append("      case %d: { int a = (int)g32_(), b = (int)g32_(); char *s = gz_(), *t = gz_(), *f = gz_(); flush_(); switch (g8_()) {" % (i + 2))
    for j in range(8):
        o.append("        case %d: { %s } break;" % (j, ["_panicf(f);", "_panicf(f, a);", "_panicf(f, s);", "_panicf(f, a, b);", "_panicf(f, s, a);", "_panicf(f, a, s);", "_panicf(f, s, t);", "_panicf(f, a, s, b, t);"][j]))
    o.append("        } oi_(7); nl_(); flush_(); } break;")
    cmds.append(("panic",))
    o.append("      default: { oc_(33); nl_(); flush_(); _exit(97); } break;\n    } }\n  flush_(); return 0; }\n")
    return "\n".join(o), cmds


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def val(r, w):
    return r.choice([0, 1, 2 ** w - 1, 2 ** (w - 1), 2 ** (w - 1) - 1, r.getrandbits(w), r.getrandbits(w), r.getrandbits(r.randint(1, w)), 10 ** r.randint(0, 18) & (2 ** w - 1)])


def hx(s):
    return '"' + s.encode("latin1").hex() + " "


# ---------------------------------------------------------------- assert
def assert_program(r):
    """(text, number of passed asserts before the failing one or None, expected trace with asserts on, with NDEBUG)"""
    n = r.randint(3, 12)
    bad = r.choice([None, r.randrange(n)])
    g = ["#include <assert.h>", HEAD, "#include <assert.h>" if r.random() < .3 else "", "static int calls_;",
         "static int fi_(int v) { ++calls_; return v; }", "static double fd_(double v) { ++calls_; return v; }", "static long long fl_(long long v) { ++calls_; return v; }",
         "static char *fp_(int v) { static_assert(1 == 1); ++calls_; return v != 0 ? \"x\" : NULL; }",
         "static unsigned char fc_(int v) { ++calls_; return (unsigned char)v; }"]
    on, off, body = [], [], []
    con = 0
    for k in range(n):
        t = k != bad
        c = r.randint(0, 8)
        z = [lambda: ("fi_(%d)" % (r.choice([1, -1, 256, 65536, -2 ** 31 + 1]) if t else 0), 1),
             lambda: ("fl_(%dLL)" % (r.choice([1, 2 ** 32, 2 ** 63 - 1, -2 ** 40]) if t else 0), 1),
             lambda: ("fd_(%s) != 0.0" % (r.choice(["0.5", "1e-320", "1e300"]) if t else "0.0"), 1),
             lambda: ("fp_(%d) != NULL" % t, 1),
             lambda: ("fc_(%d)" % (r.choice([1, 255, 257]) if t else r.choice([0, 256])), 1),
             lambda: ("fi_(%d) && fi_(%d)" % ((1, 5) if t else (1, 0)), 2),
             lambda: ("fi_(0) || fi_(%d)" % t, 2),
             lambda: ("calls_ %s= %d" % ("!" if t else "=", con), 0) if False else ("(fi_(3), fi_(%d))" % t, 2),
             lambda: ("fi_(7) == %d" % (7 if t else 8), 1)][c]()
        form = r.randint(0, 3)
        a = "assert(%s);" % z[0]
        body.append("oi_(%d); %s" % (k, [a, "if (calls_ >= 0) %s else oi_(99);" % a, "{ int i; for (i = 0; i < 1; ++i) %s }" % a, "(void)(%s);" % a[:-1]][form]))
        on.append("%x" % k)
        off.append("%x" % k)
        con += z[1]
        if bad is not None and k == bad:
            on_end = True
        body.append("oi_(calls_); flush_();")
        if bad is None or k < bad:
            on.append("%x" % con)
        off.append("0")
    full = on if bad is None else on[:2 * bad + 1]
    g.append("int main(void) { %s nl_(); flush_(); return 0; }" % "\n  ".join(body))
    return "\n".join(g) + "\n", bad, full, off


# ---------------------------------------------------------------- WASI declarations
i32, i64 = "i", "l"
SIG = {"args_get": "ii:i", "args_sizes_get": "ii:i", "environ_get": "ii:i", "environ_sizes_get": "ii:i", "clock_res_get": "ii:i", "clock_time_get": "ili:i",
       "fd_advise": "illi:i", "fd_allocate": "ill:i", "fd_close": "i:i", "fd_datasync": "i:i", "fd_fdstat_get": "ii:i", "fd_fdstat_set_flags": "ii:i",
       "fd_fdstat_set_rights": "ill:i", "fd_filestat_get": "ii:i", "fd_filestat_set_size": "il:i", "fd_filestat_set_times": "illi:i", "fd_pread": "iiili:i",
       "fd_prestat_get": "ii:i", "fd_prestat_dir_name": "iii:i", "fd_pwrite": "iiili:i", "fd_read": "iiii:i", "fd_readdir": "iiili:i", "fd_renumber": "ii:i",
       "fd_seek": "ilii:i", "fd_sync": "i:i", "fd_tell": "ii:i", "fd_write": "iiii:i", "path_create_directory": "iii:i", "path_filestat_get": "iiiii:i",
       "path_filestat_set_times": "iiiilli:i", "path_link": "iiiiiii:i", "path_open": "iiiiillii:i", "path_readlink": "iiiiii:i", "path_remove_directory": "iii:i",
       "path_rename": "iiiiii:i", "path_symlink": "iiiii:i", "path_unlink_file": "iii:i", "poll_oneoff": "iiii:i", "proc_exit": "i:", "proc_raise": "i:i",
       "sched_yield": ":i", "random_get": "ii:i", "sock_recv": "iiiiii:i", "sock_send": "iiiii:i", "sock_shutdown": "ii:i"}
# which parameters are pointers (need a cast of the argument)
PTR = {"args_get": [("uint8_t **", 0), ("uint8_t *", 1)]}


WSRC = HEAD + r'''
#include <wasi/api.h>
#include <string.h>
''' + GZ + r'''
static int fdt_[100];
static unsigned char m_[70000]; static iovec_t v_[8]; static ciovec_t w_[8];
static filestat_t fs_; static fdstat_t ft_; static subscription_t sb_[4]; static event_t ev_[4];
static void st_(void) { oi_((int)fs_.filetype); ou_(fs_.nlink); ou_(fs_.size); ou_(fs_.atim); ou_(fs_.mtim); return; }
int main(void) {
  load_(); fdt_[3] = 3; fdt_[77] = 77;
  while (more_()) {
    int k = g8_(); int i, n; unsigned a, b; char *p, *q; unsigned long long x, y; errno_t e; size_t rn_; filesize_t rs_; timestamp_t ts_; fd_t fd_;
    switch (k) {
      case 0: { p = gz_(); a = g16_(); b = g16_(); e = path_open(3, LOOKUPFLAGS_SYMLINK_FOLLOW, (void *)p, strlen(p), (oflags_t)a, RIGHTS_FD_READ|RIGHTS_FD_WRITE|RIGHTS_FD_SEEK|RIGHTS_FD_TELL|RIGHTS_FD_FILESTAT_GET|RIGHTS_FD_FILESTAT_SET_SIZE|RIGHTS_FD_FILESTAT_SET_TIMES, 0ULL, (fdflags_t)b, &fd_); oi_((int)e); n = (int)g8_(); if (e == 0) { fdt_[n] = fd_; for (i = 3; i < 70; ++i) if (i != n && fdt_[i] == fd_) oc_(42); } nl_(); } break;
      case 1: { i = fdt_[(int)g8_()]; n = (int)g8_(); a = 100u; x = g64_(); memset(&m_[0], 165, (size_t)70000); for (k = 0; k < n; ++k) { b = g16_(); v_[k].buf = &m_[(int)a]; v_[k].buf_len = (size_t)b; a += b + 7u; } rn_ = (size_t)99; e = fd_pread(i, &v_[0], (size_t)n, x, &rn_); oi_((int)e); oi_((int)rn_); oi_((int)fnv_(&m_[0], (int)a + 100)); nl_(); } break;
      case 2: { i = fdt_[(int)g8_()]; n = (int)g8_(); x = g64_(); for (k = 0; k < n; ++k) { a = g16_(); w_[k].buf = gb_((int)a); w_[k].buf_len = (size_t)a; } rn_ = (size_t)99; e = fd_pwrite(i, &w_[0], (size_t)n, x, &rn_); oi_((int)e); oi_((int)rn_); nl_(); } break;
      case 3: { i = fdt_[(int)g8_()]; n = (int)g8_(); for (k = 0; k < n; ++k) { a = g16_(); w_[k].buf = gb_((int)a); w_[k].buf_len = (size_t)a; } e = fd_write(i, &w_[0], (size_t)n, &rn_); oi_((int)e); oi_((int)rn_); nl_(); } break;
      case 4: { i = fdt_[(int)g8_()]; n = (int)g8_(); a = 100u; memset(&m_[0], 165, (size_t)70000); for (k = 0; k < n; ++k) { b = g16_(); v_[k].buf = &m_[(int)a]; v_[k].buf_len = (size_t)b; a += b + 7u; } e = fd_read(i, &v_[0], (size_t)n, &rn_); oi_((int)e); oi_((int)rn_); oi_((int)fnv_(&m_[0], (int)a + 100)); nl_(); } break;
      case 5: { i = fdt_[(int)g8_()]; x = g64_(); n = g8_(); rs_ = 5ULL; e = fd_seek(i, (filedelta_t)x, (whence_t)n, &rs_); oi_((int)e); if (e == 0) ou_(rs_); nl_(); } break;
      case 6: { i = fdt_[(int)g8_()]; e = fd_tell(i, &rs_); oi_((int)e); ou_(rs_); nl_(); } break;
      case 7: { i = fdt_[(int)g8_()]; x = g64_(); e = fd_filestat_set_size(i, x); oi_((int)e); nl_(); } break;
      case 8: { i = fdt_[(int)g8_()]; memset(&fs_, 165, sizeof(fs_)); e = fd_filestat_get(i, &fs_); oi_((int)e); st_(); nl_(); } break;
      case 9: { i = fdt_[(int)g8_()]; x = g64_(); y = g64_(); n = g8_(); e = fd_filestat_set_times(i, x, y, (fstflags_t)n); oi_((int)e); nl_(); } break;
      case 10: { p = gz_(); n = g8_(); memset(&fs_, 165, sizeof(fs_)); e = path_filestat_get(3, (lookupflags_t)n, (void *)p, strlen(p), &fs_); oi_((int)e); if (e == 0) st_(); nl_(); } break;
      case 11: { p = gz_(); n = g8_(); x = g64_(); y = g64_(); i = g8_(); e = path_filestat_set_times(3, (lookupflags_t)n, (void *)p, strlen(p), x, y, (fstflags_t)i); oi_((int)e); nl_(); } break;
      case 12: { p = gz_(); e = path_create_directory(3, (void *)p, strlen(p)); oi_((int)e); nl_(); } break;
      case 13: { p = gz_(); q = gz_(); e = path_rename(3, (void *)p, strlen(p), 3, (void *)q, strlen(q)); oi_((int)e); nl_(); } break;
      case 14: { p = gz_(); q = gz_(); e = path_link(3, (lookupflags_t)0, (void *)p, strlen(p), 3, (void *)q, strlen(q)); oi_((int)e); nl_(); } break;
      case 15: { p = gz_(); q = gz_(); e = path_symlink((void *)p, strlen(p), 3, (void *)q, strlen(q)); oi_((int)e); nl_(); } break;
      case 16: { p = gz_(); a = g16_(); memset(&m_[0], 165, (size_t)1000); e = path_readlink(3, (void *)p, strlen(p), (void *)&m_[0], (size_t)a, &rn_); oi_((int)e); if (e == 0) { oi_((int)rn_); ob_(&m_[0], (int)a + 4); } nl_(); } break;
      case 17: { p = gz_(); e = path_unlink_file(3, (void *)p, strlen(p)); oi_((int)e); nl_(); } break;
      case 18: { p = gz_(); e = path_remove_directory(3, (void *)p, strlen(p)); oi_((int)e); nl_(); } break;
      case 19: { i = fdt_[(int)g8_()]; e = fd_close(i); oi_((int)e); if (e == 0) for (n = 4; n < 70; ++n) if (fdt_[n] == i) fdt_[n] = 77; nl_(); } break;
      case 20: { i = fdt_[(int)g8_()]; n = fdt_[(int)g8_()]; e = fd_renumber(i, n); oi_((int)e); for (n = 4; n < 70; ++n) if (fdt_[n] == i) fdt_[n] = 77; nl_(); } break;
      case 21: { i = fdt_[(int)g8_()]; memset(&ft_, 165, sizeof(ft_)); e = fd_fdstat_get(i, &ft_); oi_((int)e); if (e == 0) { oi_((int)ft_.fs_filetype); oi_((int)ft_.fs_flags); } nl_(); } break;
      case 22: { a = g16_(); memset(&m_[0], 165, (size_t)70000); e = random_get(&m_[1000], (size_t)a); oi_((int)e); n = 0; for (i = 0; i < 1000; ++i) if (m_[i] != 165) ++n; for (i = 1000 + (int)a; i < 70000; ++i) if (m_[i] != 165) ++n; oi_(n); ob_(&m_[1000], (int)a); nl_(); } break;
      case 23: { a = (unsigned)g8_(); ts_ = 0ULL; e = clock_time_get((clockid_t)a, 1ULL, &ts_); oi_((int)e); ou_(ts_); ts_ = 0ULL; e = clock_res_get((clockid_t)a, &ts_); oi_((int)e); ou_(ts_); nl_(); } break;
      case 24: { n = g8_(); memset(&sb_[0], 0, sizeof(sb_)); memset(&ev_[0], 165, sizeof(ev_)); for (i = 0; i < n; ++i) { sb_[i].userdata = g64_(); sb_[i].u.tag = (uint8_t)EVENTTYPE_CLOCK; sb_[i].u.u.clock.id = CLOCKID_MONOTONIC; sb_[i].u.u.clock.timeout = (timestamp_t)g32_(); sb_[i].u.u.clock.precision = 1ULL; sb_[i].u.u.clock.flags = (subclockflags_t)0; }
        clock_time_get(CLOCKID_MONOTONIC, 1ULL, &ts_); x = ts_; e = poll_oneoff(&sb_[0], &ev_[0], (size_t)n, &rn_); clock_time_get(CLOCKID_MONOTONIC, 1ULL, &ts_); oi_((int)e); oi_((int)rn_); for (i = 0; i < (int)rn_ && i < 4; ++i) { ou_(ev_[i].userdata); oi_((int)ev_[i].error); oi_((int)ev_[i].type); } ou_(ts_ - x); nl_(); } break;
      case 25: { e = sched_yield(); oi_((int)e); nl_(); } break;
      case 26: { i = fdt_[(int)g8_()]; e = fd_sync(i); oi_((int)e); e = fd_datasync(i); oi_((int)e); e = fd_advise(i, 0ULL, 10ULL, (advice_t)ADVICE_RANDOM); oi_((int)e); nl_(); } break;
      default: { oc_(33); nl_(); flush_(); _exit(97); } break;
    }
  }
  flush_(); return 0; }
'''


def wasi_history(r, root, cnt):
    """raw WASI calls over a scratch directory; the same operations are done on a mirror directory"""
    w, exp, desc = W(), [], []
    files, links, dirs, fds, opened = {}, {}, set(), {}, 0
    inos = {}      # name -> content holder (list so that hard links share)
    clk = {}

    def add(d, e):
        desc.append(d)
        exp.append(e)
        k = d.split("(")[0]
        cnt[k] = cnt.get(k, 0) + 1

    def data():
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 17, 64, 200])))
    nm = lambda: r.choice(["a", "b", "c", "dd/x", "dd/y"])
    w.u8(12).z(b"dd")
    dirs.add("dd")
    add("path_create_directory('dd')", "0")
    for _ in range(60):
        k = r.randint(0, 26)
        live = [f for f in fds]
        if (k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 26) and not live) or k == 0:
            n = nm()
            if n in links or len(fds) > 8:
                continue
            fl = r.choice([0, 1, 1, 9, 8, 5])
            fd = min(x for x in range(4, 40) if x not in fds)
            w.u8(0).z(n.encode()).u16(fl, 0).u8(fd)
            if n in files and fl & 4:
                add("path_open(%r, %d)" % (n, fl), "14")
            elif n not in files and not fl & 1:
                add("path_open(%r, %d)" % (n, fl), "2c")
            else:
                if n not in files:
                    files[n] = [bytearray(), 1, None, None]
                if fl & 8:
                    files[n][0][:] = b""
                    files[n][2] = files[n][3] = None
                fds[fd] = [files[n], 0]
                add("path_open(%r, %d)" % (n, fl), "0")
            continue
        if k in (1, 4):
            fd = r.choice(live)
            f = fds[fd]
            n = r.randint(1, 5)
            one = r.randrange(n)    # the host moves the first non-empty vector only (a short count is allowed)
            ls = [r.choice([0, 1, 5, 33, 100]) if x == one else 0 for x in range(n)]
            off = r.choice([0, 1, 10, len(f[0][0]), 1000]) if k == 1 else f[1]
            w.u8(k).u8(fd, n)
            if k == 1:
                w.u64(off)
            mem = bytearray(b"\xa5" * 70000)
            p, rd, a = off, 0, 100
            for x in ls:
                w.u16(x)
                c = bytes(f[0][0][p:p + x])
                mem[a:a + len(c)] = c
                p += len(c)
                rd += len(c)
                a += x + 7
            if k == 4:
                f[1] += rd
            f[0][2] = None

            def chk(g, rd=rd, mem=mem, a=a, ls=ls, off=off, f=f, k=k, c=bytes(f[0][0])):
                t = g.split()
                if t[0] != "0":
                    return "error %s" % t[0]
                got = int(t[1], 16)
                if got == rd:
                    return None if int(t[2], 16) == fnv(bytes(mem[:a + 100])) else "the buffers hold other bytes than the file"
                return "read %d bytes, expected %d" % (got, rd)
            add("%s(fd %d, %r, at %d)" % ("fd_pread" if k == 1 else "fd_read", fd, ls, off), chk)
        elif k in (2, 3):
            fd = r.choice(live)
            f = fds[fd]
            n = r.randint(1, 4)
            one = r.randrange(n)
            ds = [data() if x == one else b"" for x in range(n)]
            off = r.choice([0, 1, 10, len(f[0][0]), len(f[0][0]) + 50]) if k == 2 else f[1]
            w.u8(k).u8(fd, n)
            if k == 2:
                w.u64(off)
            for d in ds:
                w.u16(len(d))
                w.b += d
            d = b"".join(ds)
            if d:
                if len(f[0][0]) < off:
                    f[0][0].extend(bytes(off - len(f[0][0])))
                f[0][0][off:off + len(d)] = d
                f[0][3] = None
            if k == 3:
                f[1] += len(d)
            add("%s(fd %d, %r bytes, at %d)" % ("fd_pwrite" if k == 2 else "fd_write", fd, [len(x) for x in ds], off), "0 %x" % len(d))
        elif k == 5:
            fd = r.choice(live)
            f = fds[fd]
            wh = r.randint(0, 2)
            base = [0, f[1], len(f[0][0])][wh]
            o = r.choice([0, 5, -3, 200, -1000])
            w.u8(5).u8(fd).u64(o).u8(wh)
            if base + o < 0:
                add("fd_seek(fd %d, %d, %d)" % (fd, o, wh), "1c")
            else:
                f[1] = base + o
                add("fd_seek(fd %d, %d, %d)" % (fd, o, wh), "0 %x" % f[1])
        elif k == 6:
            fd = r.choice(live)
            w.u8(6).u8(fd)
            add("fd_tell(fd %d)" % fd, "0 %x" % fds[fd][1])
        elif k == 7:
            fd = r.choice(live)
            n = r.choice([0, 3, 100, 5000])
            f = fds[fd][0]
            w.u8(7).u8(fd).u64(n)
            f[0][:] = bytes(f[0][:n]) + bytes(max(0, n - len(f[0])))
            f[3] = None
            add("fd_filestat_set_size(fd %d, %d)" % (fd, n), "0")
        elif k in (8, 10):
            if k == 8:
                fd = r.choice(live)
                f = fds[fd][0]
                w.u8(8).u8(fd)
                d = "fd_filestat_get(fd %d)" % fd
            else:
                n = r.choice([nm(), nm(), "dd", "lk", "zz"])
                fol = r.randint(0, 1)
                w.u8(10).z(n.encode()).u8(fol)
                d = "path_filestat_get(%r, %d)" % (n, fol)
                if n in links:
                    if fol:
                        t = links[n]
                        if t not in files:
                            add(d, "2c")
                            continue
                        f = files[t]
                    else:
                        add(d, lambda g, t=links[n]: None if g.split()[:2] == ["0", "7"] and int(g.split()[3], 16) == len(t) else "expected a symbolic link of %d bytes, got %s" % (len(t), g))
                        continue
                elif n in dirs:
                    add(d, lambda g: None if g.split()[:2] == ["0", "3"] else "expected a directory, got %s" % g)
                    continue
                elif n not in files:
                    add(d, "2c")
                    continue
                else:
                    f = files[n]

            def chk(g, nl=f[1], sz=len(f[0]), at=f[2], mt=f[3]):
                t = g.split()
                if t[:4] != ["0", "4", "%x" % nl, "%x" % sz]:
                    return "expected error 0, type 4, %d links, %d bytes; got %s" % (nl, sz, g)
                if at is not None and int(t[4], 16) != at:
                    return "access time %d, expected %d" % (int(t[4], 16), at)
                if mt is not None and int(t[5], 16) != mt:
                    return "modification time %d, expected %d" % (int(t[5], 16), mt)
            add(d, chk)
        elif k in (9, 11):
            at, mt = (r.choice([0, 10 ** 9, r.randint(0, 4 * 10 ** 18), 1234567890123456789]) for _ in range(2))
            fl = r.choice([5, 1, 4, 0, 2, 8, 10, 6, 9])
            if k == 9:
                fd = r.choice(live)
                f = fds[fd][0]
                w.u8(9).u8(fd).u64(at, mt).u8(fl)
                d = "fd_filestat_set_times(fd %d, %d, %d, %d)" % (fd, at, mt, fl)
            else:
                n = r.choice(sorted(files)) if files else "zz"
                w.u8(11).z(n.encode()).u8(0).u64(at, mt).u8(fl)
                d = "path_filestat_set_times(%r, %d, %d, %d)" % (n, at, mt, fl)
                if n not in files:
                    add(d, "2c" if fl else lambda g: None)
                    continue
                f = files[n]
            if fl & 1:
                f[2] = at
            if fl & 2:
                f[2] = None
            if fl & 4:
                f[3] = mt
            if fl & 8:
                f[3] = None
            add(d, "0")
        elif k == 13 and files:
            a, b = r.choice(sorted(files)), nm()
            if b in links or a == b or files.get(a) is files.get(b):
                continue
            w.u8(13).z(a.encode()).z(b.encode())
            if b in files:
                files[b][1] -= 1
            files[b] = files.pop(a)
            add("path_rename(%r, %r)" % (a, b), "0")
        elif k == 14 and files:
            a, b = r.choice(sorted(files)), nm()
            if b in links:
                continue
            w.u8(14).z(a.encode()).z(b.encode())
            if b in files:
                add("path_link(%r, %r)" % (a, b), "14")
            else:
                files[b] = files[a]
                files[b][1] += 1
                add("path_link(%r, %r)" % (a, b), "0")
        elif k == 15:
            t = r.choice(["a", "b", "nowhere"])
            w.u8(15).z(t.encode()).z(b"lk")
            if "lk" in links:
                add("path_symlink(%r, 'lk')" % t, "14")
            else:
                links["lk"] = t
                add("path_symlink(%r, 'lk')" % t, "0")
        elif k == 16:
            n = r.choice([1, 4, 50])
            w.u8(16).z(b"lk").u16(n)
            if "lk" not in links:
                add("path_readlink('lk', %d)" % n, "2c")
            else:
                t = links["lk"].encode()
                if n < len(t):
                    # hosts differ in what a short buffer gets: an error, or the beginning of the path
                    add("path_readlink('lk', %d)" % n, lambda g: None)
                else:
                    add("path_readlink('lk', %d)" % n, "0 %x %s" % (len(t), (t + b"\xa5" * (n + 4 - len(t))).hex()))
        elif k == 17:
            n = r.choice([nm(), "lk", "dd"])
            w.u8(17).z(n.encode())
            if n in links:
                del links[n]
                add("path_unlink_file(%r)" % n, "0")
            elif n in files:
                files.pop(n)[1] -= 1
                add("path_unlink_file(%r)" % n, "0")
            else:
                add("path_unlink_file(%r)" % n, "1f" if n == "dd" else "2c")
        elif k == 18:
            w.u8(18).z(b"dd")
            if any(f.startswith("dd/") for f in files):
                add("path_remove_directory('dd')", "37")
            else:
                add("path_remove_directory('dd')", "0")
                w.u8(12).z(b"dd")
                add("path_create_directory('dd')", "0")
        elif k == 19:
            fd = r.choice(live + [77]) if live else 77
            w.u8(19).u8(fd)
            add("fd_close(%d)" % fd, "0" if fd in fds else "8")
            fds.pop(fd, None)
        elif k == 20 and len(live) > 1:
            a, b = r.sample(live, 2)
            w.u8(20).u8(a, b)
            fds[b] = fds.pop(a)
            add("fd_renumber(%d, %d)" % (a, b), "0")
        elif k == 21:
            fd = r.choice(live + [3])
            w.u8(21).u8(fd)
            add("fd_fdstat_get(%d)" % fd, "0 %d 0" % (3 if fd == 3 else 4))
        elif k == 22:
            n = r.choice([0, 1, 16, 300])
            w.u8(22).u16(n)

            def chk(g, n=n):
                t = g.split()
                if t[:2] != ["0", "0"]:
                    return "error %s, %s bytes outside the buffer changed" % (t[0], t[1])
                b = bytes.fromhex(t[2]) if n else b""
                if n == 300 and (len(set(b)) < 100 or b.count(0xa5) > 30):
                    return "300 'random' bytes with only %d different values" % len(set(b))
            add("random_get(%d)" % n, chk)
        elif k == 23:
            c = r.randint(0, 1)
            w.u8(23).u8(c)

            def chk(g, c=c):
                import time
                t = [int(x, 16) for x in g.split()]
                if t[0] or t[2] or not 0 < t[3] <= 10 ** 9:
                    return "errors %d %d resolution %d" % (t[0], t[2], t[3])
                if c == 0 and abs(t[1] - time.time_ns()) > 600 * 10 ** 9:
                    return "the time of day is off by %d s" % ((t[1] - time.time_ns()) // 10 ** 9)
                if c in clk and t[1] < clk[c] and c == 1:
                    return "the monotonic clock went back"
                clk[c] = t[1]
            add("clock_time_get(%d)" % c, chk)
        elif k == 24:
            n = r.randint(1, 3)
            w.u8(24).u8(n)
            s = {}
            for _ in range(n):
                u, t = r.getrandbits(64), r.choice([0, 1000, 200000, 1500000])
                s[u] = t
                w.u64(u).u32(t)

            def chk(g, s=s):
                t = [int(x, 16) for x in g.split()]
                if t[0] or not 1 <= t[1] <= len(s):
                    return "error %d, %d events of %d subscriptions" % (t[0], t[1], len(s))
                ev = [t[2 + 3 * i:5 + 3 * i] for i in range(t[1])]
                if len({e[0] for e in ev}) != len(ev) or any(e[0] not in s or e[1] or e[2] for e in ev):
                    return "events %r for subscriptions %r" % (ev, s)
                if t[-1] < min(s.values()):
                    return "returned after %d ns, the earliest timeout is %d ns" % (t[-1], min(s.values()))
            add("poll_oneoff(%r)" % s, chk)
        elif k == 25:
            w.u8(25)
            add("sched_yield()", "0")
        elif k == 26:
            fd = r.choice(live)
            w.u8(26).u8(fd)
            add("fd_sync(%d)" % fd, "0 0 0")
    return w, exp, desc, {n: bytes(f[0]) for n, f in files.items()}, links


def c28(ctx):
    ctx.tree.build()
    ctx.cov["rule"] = ("programs that include a random choice of headers in a random order and observe published constants in initializers, assertions, case labels, array sizes and expressions, and the size, sign and layout of "
                       "published types, against tables written from the C and WASI specifications; every PRI/SCN macro on random values of its type (printed against exact decimal/octal/hexadecimal text, scanned between guard bytes); "
                       "file-type predicates on random modes; assert in random positions with counted side effects, with and without NDEBUG; the message printer; imports of every WASI function against the preview1 "
                       "signatures; histories of raw WASI calls against a model of the file tree. evaluations = values compared")
    src, cmds = inttypes_src()
    idx = {c[-1]: i for i, c in enumerate(cmds)}

    def consts(i):
        r = ctx.rng("const", i)
        text, exp, names = const_program(r)
        mod = build(ctx, "hdr%d" % i, text)
        x = run_wasm(mod, tmp=ctx.scratch)
        got = x.out.decode("latin1").split()
        res = {"evals": len(exp), "failures": [], "keys": [hashlib.sha1(text.encode()).hexdigest()[:16]], "counts": {"constant programs": 1}}
        if x.invalid or x.trap or x.code != 0 or len(got) != len(exp):
            res["failures"].append(Failure("const:run", "header program: exit=%s trap=%s invalid=%s, %d of %d values" % (x.code, x.trap, x.invalid, len(got), len(exp)), {"t.c": text}))
        else:
            bad = [(n, e, g) for n, e, g in zip(names, exp, got) if e != g]
            for n, e, g in bad[:3]:
                res["failures"].append(Failure("const:" + n.split()[0], "%s: expected 0x%s, the program sees 0x%s" % (n, e, g), {"t.c": text}))
        if i == 0:
            res["samples"] = [{"constants": dict(list(zip(names, got))[:15])}]
        return res

    def asserts(i):
        r = ctx.rng("assert", i)
        text, bad, on, off = assert_program(r)
        res = {"evals": 2, "failures": [], "keys": [hashlib.sha1(text.encode()).hexdigest()[:16]], "counts": {"assert programs": 1, "failing assert": int(bad is not None)}}
        for nd in (0, 1):
            opts = ["-I", ctx.tree.inc + "NDEBUG/"] if nd else []
            mod = build(ctx, "as%d" % i, text, opts)
            x = run_wasm(mod, tmp=ctx.scratch)
            got = x.out.decode("latin1").split()
            want = off if nd else on
            fail = bad is not None and not nd
            res["evals"] += len(want)
            if nd:
                want = want
            # with a failing assert everything flushed before it must be there and the program must trap
            if fail:
                want = want[:2 * bad]
            if got != want or (x.trap is None) == fail or (not fail and x.code != 0) or (fail and "unreachable" not in (x.trap or "")):
                res["failures"].append(Failure("assert:ndebug" if nd else "assert", "assert %s (%s is false): expected observations %s and %s, got %s, trap=%s exit=%s" % (
                    "with NDEBUG" if nd else "", "number %d" % bad if bad is not None else "none", " ".join(want), "a trap" if fail else "exit 0", " ".join(got), x.trap, x.code), {"t.c": text}))
        return res

    def fmt(i):
        r = ctx.rng("fmt", i)
        w, exp, desc = W(), [], []
        errs = b""
        order = list(range(len(cmds)))
        r.shuffle(order)
        if i % 8 == 0:
            order = [len(cmds) - 1] * 200
        for k in order * (1 if len(order) > 100 else 3):
            c = cmds[k]
            w.u16(k)
            if c[0] == "p":
                v = val(r, c[2])
                w.u64(v)
                t = {"d": "%d" % sgn(v, c[2]), "i": "%d" % sgn(v, c[2]), "o": "%o" % v, "u": "%d" % v, "x": "%x" % v, "X": "%X" % v}[c[1]]
                exp.append(hx("<%s|%12s|12345>" % (t, t)))
                desc.append("printf with %s of 0x%x" % (c[3], v))
            elif c[0] == "s":
                v = val(r, c[2])
                t = {"d": "%d" % sgn(v, c[2]), "i": r.choice(["%d", "%#x" if sgn(v, c[2]) >= 0 else "%d"]) % sgn(v, c[2]), "o": "%o" % v, "u": "%d" % v, "x": r.choice(["%x", "%X", "0x%x"]) % v}[c[1]]
                z = r.randint(-999, 999)
                w.z((r.choice(["", " ", "\t"]) + t + " %d" % z).encode())
                res = sgn(v, c[2]) & M64 if c[1] in "di" else v
                exp.append("2 %x %x %s %s" % (res, z & M32, "a5" * 8, "a5" * 8))
                desc.append("scanf with %s of %s" % (c[3], t))
            elif c[0] == "m":
                m = r.choice([r.getrandbits(16), r.choice([0x6000, 0x2000, 0x4000, 0xa000, 0x8000, 0xc000, 0]) | r.getrandbits(12)])
                w.u32(m)
                f = m & 0xe000
                exp.append(" ".join("%d" % (f == y) for y in (0x6000, 0x2000, 0x4000, 0xa000, 0x8000, 0xc000)))
                desc.append("S_IS* of mode 0x%x" % m)
            elif c[0] == "e":
                a, b = r.uniform(-9, 9), r.uniform(1, 9)
                w.d(a).d(b).u8(r.randint(0, 31))
                exp.append("0 1 0 0 %x 0 %x" % (dbits(a / b), dbits(a * b)))
                desc.append("fenv calls around %r and %r" % (a, b))
            else:
                f = r.randint(0, 7)
                a, b = val(r, 32), val(r, 32)
                s, t = (bytes(r.choice(b"abc xyz%0") for _ in range(r.randint(0, 9))) for _ in range(2))
                av = [[], "a", "s", "ab", "sa", "as", "st", "asbt"][f]
                txt, out = b"", b""
                for x in av:
                    lit = bytes(r.choice(b"ab:, \n") for _ in range(r.randint(0, 4)))
                    txt += lit
                    out += lit
                    if r.random() < .2:
                        txt += b"%%"
                        out += b"%"
                    if x in "st":
                        txt += b"%s"
                        out += s if x == "s" else t
                    else:
                        cv = r.choice("duoxp")
                        v = a if x == "a" else b
                        txt += b"%" + cv.encode()
                        out += {"d": "%d" % sgn(v, 32), "u": "%d" % v, "o": "%o" % v, "x": "%x" % v, "p": "%x" % v}[cv].encode()
                txt += b"#"
                out += b"#"
                w.u32(a, b).z(s).z(t).z(txt).u8(f)
                errs += out
                exp.append("7")
                desc.append("_panicf(%r)" % txt)
        x = run_wasm(mod_f, stdin=bytes(w.b), tmp=ctx.scratch)
        lines = x.out.decode("latin1").split("\n")
        res = {"evals": len(exp), "failures": [], "keys": [hashlib.sha1(bytes(w.b)).hexdigest()[:16]], "counts": {"format sessions": 1}}
        files = {"fmtdrv.c": src, "stdin.bin": bytes(w.b)}
        for n, (e, d) in enumerate(zip(exp, desc)):
            g = lines[n].strip() if n < len(lines) else "<nothing: trap=%s exit=%s>" % (x.trap, x.code)
            if g != e.strip():
                res["failures"].append(Failure("fmt:" + d.split(" of ")[0].split("(")[0], "%s: expected %s, got %s" % (d, e, g), files))
                if len(res["failures"]) > 2:
                    break
        if not res["failures"] and x.err != errs:
            p = next((k for k in range(min(len(errs), len(x.err))) if errs[k] != x.err[k]), min(len(errs), len(x.err)))
            res["failures"].append(Failure("panicf", "_panicf: expected ...%r, standard error has ...%r" % (errs[max(0, p - 40):p + 20], x.err[max(0, p - 40):p + 20]), files))
        if not res["failures"] and (x.code != 0 or x.trap):
            res["failures"].append(Failure("fmt:exit", "exit=%s trap=%s" % (x.code, x.trap), files))
        if i == 1:
            res["samples"] = [{"commands": desc[:12]}]
        return res

    def imports(i):
        r = ctx.rng("imp", i)
        fs = sorted(SIG)
        r.shuffle(fs)
        fs = fs[:r.randint(5, len(fs))]
        o = ["#include <wasi/api.h>"]
        o.append("static unsigned char m[4096]; static int z = 0;")
        o.append("int main(int argc, char **argv) { int r = 0; if (argc > 100) {")
        for f in fs:
            ps, rs = SIG[f].split(":")
            txt = wasi_call(f, r)
            o.append("  %s%s;" % ("r += (int)" if rs else "", txt))
        o.append("  } return r; }")
        text = "\n".join(o) + "\n"
        mod = build(ctx, "imp%d" % i, text)
        res = {"evals": len(fs), "failures": [], "keys": [hashlib.sha1(text.encode()).hexdigest()[:16]], "counts": {"import programs": 1}}
        try:
            m = wasmdec.decode(mod)
        except wasmdec.Bad as x:
            res["failures"].append(Failure("imports:decode", "the program's module is malformed: %s" % x, {"t.c": text}))
            return res
        have = {}
        T = {"i32": "i", "i64": "l", "f32": "f", "f64": "d"}
        for im in m.imports:
            ty = im[3]
            have[(im[0], im[1])] = "".join(T.get(t, "?") for t in ty[0]) + ":" + "".join(T.get(t, "?") for t in ty[1])
        for f in fs:
            g = have.get(("wasi_snapshot_preview1", f))
            if g != SIG[f]:
                res["failures"].append(Failure("import:" + f, "%s is declared as %s, the WASI preview1 signature is %s (i = i32, l = i64)" % (f, g, SIG[f]), {"t.c": text}))
                break
        x = run_wasm(mod, tmp=ctx.scratch)
        if not res["failures"] and (x.invalid or x.trap or x.code != 0):
            res["failures"].append(Failure("imports:run", "a program importing %s does not run: %s %s %s" % (" ".join(fs), x.invalid, x.trap, x.code), {"t.c": text}))
        return res

    def raw(i):
        r = ctx.rng("raw", i)
        cnt = {}
        base = tempfile.mkdtemp(prefix="wr", dir=ctx.scratch)
        try:
            w, exp, desc, files, links = wasi_history(r, base, cnt)
            x = session(ctx, mod_w, w, exp, "wasi", lambda q: "%s; before: %s" % (desc[q], "; ".join(desc[max(0, q - 25):q])), "wasidrv", WSRC, preopen=base)
            if not x["failures"]:
                got = {}
                for d, _, fn in os.walk(base):
                    for f in fn:
                        p = os.path.join(d, f)
                        got[os.path.relpath(p, base)] = "-> " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
                want = dict(files)
                want.update({k: "-> " + v for k, v in links.items()})
                if got != want:
                    k = next(k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k))
                    x["failures"].append(Failure("wasi:tree", "afterwards %r is %r, expected %r" % (k, got.get(k), want.get(k)), {"wasidrv.c": WSRC, "stdin.bin": bytes(w.b)}))
            x["counts"].update(cnt)
            if i == 0:
                x["samples"] = [{"wasi calls": desc[:20]}]
            return x
        finally:
            shutil.rmtree(base, ignore_errors=True)
    mod_f = build(ctx, "fmtdrv", src)
    mod_w = build(ctx, "wasidrv", WSRC)
    for f, n in ((consts, (240, 2500)), (asserts, (200, 2500)), (imports, (24, 200)), (fmt, (200, 2500)), (raw, (240, 3000))):
        ctx.pmap(f, range(ctx.n(*n)))
        if ctx.failures:
            return


PT = {"args_get": "PB", "args_sizes_get": "ZZ", "environ_get": "PB", "environ_sizes_get": "ZZ", "clock_res_get": "cT", "clock_time_get": "ctT",
      "fd_advise": "fssa", "fd_allocate": "fss", "fd_close": "f", "fd_datasync": "f", "fd_fdstat_get": "fF", "fd_fdstat_set_flags": "fg",
      "fd_fdstat_set_rights": "frr", "fd_filestat_get": "fS", "fd_filestat_set_size": "fs", "fd_filestat_set_times": "fttk", "fd_pread": "fVzsZ",
      "fd_prestat_get": "fR", "fd_prestat_dir_name": "fBz", "fd_pwrite": "fWzsZ", "fd_read": "fVzZ", "fd_readdir": "fBzCZ", "fd_renumber": "ff",
      "fd_seek": "fdwN", "fd_sync": "f", "fd_tell": "fN", "fd_write": "fWzZ", "path_create_directory": "fBz", "path_filestat_get": "flBzS",
      "path_filestat_set_times": "flBzttk", "path_link": "flBzfBz", "path_open": "flBzorrgD", "path_readlink": "fBzBzZ", "path_remove_directory": "fBz",
      "path_rename": "fBzfBz", "path_symlink": "BzfBz", "path_unlink_file": "fBz", "poll_oneoff": "uEzZ", "proc_exit": "x", "proc_raise": "q",
      "sched_yield": "", "random_get": "Bz", "sock_recv": "fVziZO", "sock_send": "fWzjZ", "sock_shutdown": "fy"}
CT = {"P": "uint8_t **", "B": "uint8_t *", "Z": "size_t *", "T": "timestamp_t *", "F": "fdstat_t *", "S": "filestat_t *", "V": "iovec_t *", "W": "ciovec_t *",
      "R": "prestat_t *", "N": "filesize_t *", "D": "fd_t *", "u": "subscription_t *", "E": "event_t *", "O": "roflags_t *",
      "c": "clockid_t", "t": "timestamp_t", "f": "fd_t", "s": "filesize_t", "a": "advice_t", "g": "fdflags_t", "r": "rights_t", "k": "fstflags_t", "z": "size_t", "C": "dircookie_t",
      "d": "filedelta_t", "w": "whence_t", "l": "lookupflags_t", "o": "oflags_t", "x": "exitcode_t", "q": "signal_t", "i": "riflags_t", "j": "siflags_t", "y": "sdflags_t"}


def wasi_call(f, r):
    a = []
    for c in PT[f]:
        t = CT[c]
        a.append("(void *)&m[%d]" % (8 * r.randint(0, 500)) if t.endswith("*") else "(%s)z" % t)
    return "%s(%s)" % (f, ", ".join(a))


CHECKS = {"C28": c28}
