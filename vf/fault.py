"""C30: failures and partial transfers of the host are reported, lose nothing silently and damage nothing.
The programs run against a WASI host of our own (an in-memory file system) that logs every call and, as a plan says, makes
individual calls fail with any error number or transfer fewer bytes than asked."""
import re
from .drv import *
from .core import engine

SRC = HEAD.replace("#define IN_MAX 4000000", "#define IN_MAX 400000") + GZ + r'''
#include <wasi/api.h>
#include <stdio.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <time.h>
static FILE *fs_[4]; static char *modes_[] = { "r", "w", "a", "r+", "w+", "a+" };
static unsigned char rb_[9000]; static DIR *dp_;
static void st_(FILE *f) { oi_(feof(f) != 0); oi_(ferror(f) != 0); return; }
static int guard_(int n) { int i; for (i = n; i < 9000; ++i) if (rb_[i] != 0x5a) return i + 1; return 0; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), i, n, c, r; FILE *f = NULL; char *s, *t; struct stat sb; struct dirent *de; struct dirent **nl; long long off;
    r = k >= 30 ? open(k == 32 || k == 34 ? "f1" : k == 36 ? "f2" : k == 55 ? "f3" : "f0", O_RDWR) : -1;
    sched_yield(); errno = 0;
    if (k < 20) f = fs_[g8_()];
    switch (k) {
      case 1: { i = g8_(); n = g8_(); s = gz_(); fs_[i] = fopen(s, modes_[n]); c = errno; oi_(fs_[i] != NULL); oi_(c); } break;
      case 2: { n = (int)g16_(); s = (char *)gb_(n); for (i = 0; i < n; ++i) { if (putc(s[i], f) == EOF) break; } oi_(i < n); oi_(i); st_(f); } break;
      case 3: { s = gz_(); oi_(fputs(s, f) == EOF); st_(f); } break;
      case 4: { n = (int)g16_(); s = (char *)gb_(n); i = (int)fwrite(s, (size_t)1, (size_t)n, f); oi_(i != n); oi_(i); st_(f); } break;
      case 5: { s = gz_(); i = fprintf(f, "%s", s); oi_(i < 0); st_(f); } break;
      case 6: { oi_(fflush(f) != 0); st_(f); } break;
      case 7: { oi_(fclose(f) != 0); } break;
      case 8: { n = (int)g16_(); for (i = 0; i < n; ++i) { c = getc(f); if (c == EOF) break; rb_[i] = (unsigned char)c; } oi_(i); ob_(&rb_[0], i); st_(f); } break;
      case 9: { n = (int)g16_(); memset(&rb_[0], 0x5a, (size_t)9000); s = fgets((char *)&rb_[0], n, f); oi_(s == NULL); if (s != NULL) ob_(s, (int)strlen(s)); oi_(guard_(n)); st_(f); } break;
      case 10: { n = (int)g16_(); memset(&rb_[0], 0x5a, (size_t)9000); i = (int)fread(&rb_[0], (size_t)1, (size_t)n, f); oi_(i); ob_(&rb_[0], i); oi_(guard_(n)); st_(f); } break;
      case 11: { clearerr(f); st_(f); } break;
      case 12: { c = g8_(); n = (int)g16_(); oi_(setvbuf(f, NULL, c == 0 ? _IOFBF : c == 1 ? _IOLBF : _IONBF, (size_t)n)); } break;
      case 13: { ou_((unsigned long long)ftell(f)); } break;
      case 14: { oi_(fflush(NULL) != 0); st_(f); } break;
      case 30: { s = gz_(); n = (int)g32_(); errno = 0; i = open(s, n); c = errno; oi_(i == -1); oi_(c); if (i >= 0) close(i); } break;
      case 31: { n = (int)g16_(); memset(&rb_[0], 0x5a, (size_t)9000); errno = 0; i = (int)read(r, &rb_[0], (size_t)n); c = errno; oi_(i == -1); oi_(c); oi_(i); ob_(&rb_[0], i > 0 ? i : 0); oi_(guard_(n)); } break;
      case 32: { n = (int)g16_(); s = (char *)gb_(n); errno = 0; i = (int)write(r, s, (size_t)n); c = errno; oi_(i == -1); oi_(c); oi_(i); } break;
      case 33: { n = (int)g16_(); off = (long long)g32_(); memset(&rb_[0], 0x5a, (size_t)9000); errno = 0; i = (int)pread(r, &rb_[0], (size_t)n, off); c = errno; oi_(i == -1); oi_(c); oi_(i); ob_(&rb_[0], i > 0 ? i : 0); oi_(guard_(n)); } break;
      case 34: { n = (int)g16_(); s = (char *)gb_(n); off = (long long)g32_(); errno = 0; i = (int)pwrite(r, s, (size_t)n, off); c = errno; oi_(i == -1); oi_(c); oi_(i); } break;
      case 35: { errno = 0; off = lseek(r, 5ll, SEEK_SET); c = errno; oi_(off == -1ll); oi_(c); } break;
      case 36: { errno = 0; i = ftruncate(r, 300ll); c = errno; oi_(i == -1); oi_(c); } break;
      case 37: { errno = 0; i = close(r); r = -1; c = errno; oi_(i == -1); oi_(c); } break;
      case 38: { s = gz_(); errno = 0; i = stat(s, &sb); c = errno; oi_(i == -1); oi_(c); } break;
      case 39: { s = gz_(); errno = 0; i = lstat(s, &sb); c = errno; oi_(i == -1); oi_(c); } break;
      case 40: { errno = 0; i = fstat(r, &sb); c = errno; oi_(i == -1); oi_(c); } break;
      case 41: { s = gz_(); errno = 0; i = mkdir(s, (mode_t)0777); c = errno; oi_(i == -1); oi_(c); } break;
      case 42: { s = gz_(); errno = 0; i = rmdir(s); c = errno; oi_(i == -1); oi_(c); } break;
      case 43: { s = gz_(); errno = 0; i = unlink(s); c = errno; oi_(i == -1); oi_(c); } break;
      case 44: { s = gz_(); errno = 0; i = remove(s); c = errno; oi_(i == -1); oi_(c); } break;
      case 45: { s = gz_(); t = gz_(); errno = 0; i = rename(s, t); c = errno; oi_(i == -1); oi_(c); } break;
      case 46: { s = gz_(); t = gz_(); errno = 0; i = link(s, t); c = errno; oi_(i == -1); oi_(c); } break;
      case 47: { s = gz_(); t = gz_(); errno = 0; i = symlink(s, t); c = errno; oi_(i == -1); oi_(c); } break;
      case 48: { s = gz_(); n = (int)g16_(); memset(&rb_[0], 0x5a, (size_t)9000); errno = 0; i = (int)readlink(s, (char *)&rb_[0], (size_t)n); c = errno; oi_(i == -1); oi_(c); oi_(guard_(n)); } break;
      case 49: { s = gz_(); n = g8_(); errno = 0; i = access(s, n); c = errno; oi_(i == -1); oi_(c); } break;
      case 50: { errno = 0; i = fsync(r); c = errno; oi_(i == -1); oi_(c); } break;
      case 51: { errno = 0; i = fdatasync(r); c = errno; oi_(i == -1); oi_(c); } break;
      case 52: { errno = 0; i = fcntl(r, F_GETFL); c = errno; oi_(i == -1); oi_(c); } break;
      case 53: { errno = 0; i = fcntl(r, F_SETFL, O_APPEND); c = errno; oi_(i == -1); oi_(c); } break;
      case 54: { errno = 0; i = posix_fadvise(r, 0ll, 5ll, POSIX_FADV_NORMAL); oi_(i != 0); oi_(i); } break;
      case 55: { errno = 0; i = posix_fallocate(r, 0ll, (long long)g32_()); oi_(i != 0); oi_(i); } break;
      case 56: { errno = 0; dp_ = opendir("."); c = errno; oi_(dp_ == NULL); oi_(c); if (dp_ != NULL) closedir(dp_); } break;
      case 57: { dp_ = opendir("."); n = g8_(); while (dp_ != NULL) { errno = 0; de = readdir(dp_); if (de == NULL) { oi_(errno); if (errno == 0 || n == 0) break; --n; } else { os_(&de->d_name[0]); } } oc_(46); if (dp_ != NULL) oi_(closedir(dp_)); } break;
      case 58: { nl = NULL; errno = 0; n = scandir(".", &nl, NULL, &alphasort); c = errno; oi_(n == -1); oi_(c); for (i = 0; i < n; ++i) { os_(&nl[i]->d_name[0]); free(nl[i]); } if (n >= 0) free(nl); } break;
      case 59: { off = (long long)time(NULL); oi_(off == -1ll); oi_(0); } break;
      case 60: { off = (long long)clock(); oi_(off == -1ll); oi_(0); } break;
      case 61: { oi_(getenv("HOME") == NULL); } break;
      default: oc_(63);
    }
    if (r >= 0) close(r);
    nl_();
  }
  flush_(); return 0;
}
'''
ERR = {"io": 29, "nospc": 51, "again": 6, "intr": 27, "dquot": 19, "acces": 2, "rofs": 69, "pipe": 64, "fbig": 22, "nomem": 48, "busy": 10, "stale": 72}
OK = 0


class Host:
    """WASI preview 1 over an in-memory flat directory, with a log and a fault plan {(command, function): [(nth, action)]}"""
    def __init__(self, files, script, plan, env=(), argv=("prog",)):
        self.files = {n: bytearray(b) for n, b in files.items()}
        self.dirs, self.links = set(), {}
        self.script, self.plan, self.env, self.argv = script, plan, env, argv
        self.startup = False
        self.cmd, self.calls, self.log, self.out, self.err = -1, {}, [], bytearray(), bytearray()
        self.fds = {0: None, 1: None, 2: None, 3: {"dir": True}}
        self.hit, self.nfds = {}, []
        self.spos = 0
        self.total = 0

    # memory
    def rd(self, p, n):
        return bytes(self.mem.read(self.st, p, p + n)) if n else b""

    def wr(self, p, b):
        if b:
            self.mem.write(self.st, b, p)

    def u32(self, p, v):
        self.wr(p, struct.pack("<I", v & 0xffffffff))

    def u64(self, p, v):
        self.wr(p, struct.pack("<Q", v & 0xffffffffffffffff))

    def name(self, p, n):
        s = self.rd(p, n).decode("latin1")
        while s.startswith("./"):
            s = s[2:]
        return s

    def iov(self, p, n):
        return [struct.unpack("<II", self.rd(p + 8 * i, 8)) for i in range(n)]

    def call(self, fn, args):
        self.total += 1
        if self.total > 300000:
            raise RuntimeError("too many host calls")
        fd = args[0] if args and fn.startswith("fd_") else None
        act = None
        if (self.cmd >= 0 or self.startup) and not (fd is not None and fd < 3):
            k = self.calls[fn] = self.calls.get(fn, -1) + 1
            for n, a in self.plan.get((self.cmd, fn), ()):
                if k == n or n == "all" or (isinstance(n, tuple) and k >= n[0]):
                    act = a
        if act is not None and act[0] == "err":
            self.hit.setdefault(self.cmd, []).append((fn, fd, act))
            self.log.append((self.cmd, fn, fd, args, self.attempt(fn, args), 0, act[1]))
            return act[1]
        h = getattr(self, "h_" + fn, None)
        if h is None:
            return 52
        self.limit = act[1] if act is not None else None
        return h(*args)

    def attempt(self, fn, args):
        return b"".join(self.rd(p, n) for p, n in self.iov(args[1], args[2])) if fn == "fd_write" else None

    # functions
    def h_sched_yield(self):
        self.nfds.append(len(self.fds))
        self.cmd += 1
        self.calls = {}
        return OK

    def h_args_sizes_get(self, a, b):
        self.u32(a, len(self.argv)); self.u32(b, sum(len(x) + 1 for x in self.argv))
        return OK

    def put_strings(self, v, b, ss):
        for i, s in enumerate(ss):
            self.u32(v + 4 * i, b)
            self.wr(b, s.encode() + b"\0")
            b += len(s) + 1
        return OK

    def h_args_get(self, v, b):
        return self.put_strings(v, b, self.argv)

    def h_environ_sizes_get(self, a, b):
        self.u32(a, len(self.env)); self.u32(b, sum(len(x) + 1 for x in self.env))
        return OK

    def h_environ_get(self, v, b):
        return self.put_strings(v, b, self.env)

    def h_clock_time_get(self, i, p, r):
        self.u64(r, 1700000000123456789)
        return OK

    def h_fd_prestat_get(self, fd, p):
        if fd != 3:
            return 8
        self.u32(p, 0); self.u32(p + 4, 1)
        return OK

    def h_fd_prestat_dir_name(self, fd, p, n):
        self.wr(p, b".")
        return OK

    def h_fd_fdstat_get(self, fd, p):
        if fd not in self.fds:
            return 8
        f = self.fds[fd]
        t = 3 if f and f.get("dir") else 4
        self.wr(p, struct.pack("<BxHxxxxQQ", t, (1 if f and f.get("app") else 0), 0x1fffffff, 0x1fffffff))
        return OK

    def h_fd_fdstat_set_flags(self, fd, fl):
        return OK if fd in self.fds else 8

    def h_fd_close(self, fd):
        if fd not in self.fds:
            return 8
        del self.fds[fd]
        self.log.append((self.cmd, "fd_close", fd, None, None, 0, 0))
        return OK

    def h_fd_sync(self, fd):
        return OK

    h_fd_datasync = h_fd_sync

    def h_fd_advise(self, fd, a, b, c):
        return OK

    def h_fd_allocate(self, fd, off, n):
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        b = self.files[f["name"]]
        b.extend(bytes(max(0, off + n - len(b))))
        return OK

    def h_fd_read(self, fd, iovs, n, ret):
        if fd == 0:
            k = 0
            for p, m in self.iov(iovs, n):
                c = self.script[self.spos:self.spos + m]
                self.wr(p, c)
                self.spos += len(c)
                k += len(c)
            self.u32(ret, k)
            return OK
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        b, k, first = self.files[f["name"]], 0, f["pos"]
        lim = self.limit if self.limit is not None else 1 << 30
        for p, m in self.iov(iovs, n):
            c = bytes(b[f["pos"]:f["pos"] + min(m, lim - k)])
            self.wr(p, c)
            f["pos"] += len(c)
            k += len(c)
        if self.limit is not None:
            self.hit.setdefault(self.cmd, []).append(("fd_read", fd, ("short", k)))
        self.log.append((self.cmd, "fd_read", fd, first, None, k, 0))
        self.u32(ret, k)
        return OK

    def h_fd_pread(self, fd, iovs, n, off, ret):
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        pos, f["pos"] = f["pos"], off
        e = self.h_fd_read(fd, iovs, n, ret)
        f["pos"] = pos
        return e

    def h_fd_write(self, fd, iovs, n, ret):
        data = b"".join(self.rd(p, m) for p, m in self.iov(iovs, n))
        if fd in (1, 2):
            (self.out if fd == 1 else self.err).extend(data)
            self.u32(ret, len(data))
            return OK
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        took = data if self.limit is None else data[:self.limit]
        b = self.files[f["name"]]
        if f["app"]:
            f["pos"] = len(b)
        if len(b) < f["pos"]:
            b.extend(bytes(f["pos"] - len(b)))
        b[f["pos"]:f["pos"] + len(took)] = took
        f["pos"] += len(took)
        if self.limit is not None and len(took) < len(data):
            self.hit.setdefault(self.cmd, []).append(("fd_write", fd, ("short", len(took))))
        self.log.append((self.cmd, "fd_write", fd, None, data, len(took), 0))
        self.u32(ret, len(took))
        return OK

    def h_fd_pwrite(self, fd, iovs, n, off, ret):
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        pos, f["pos"] = f["pos"], off
        e = self.h_fd_write(fd, iovs, n, ret)
        f["pos"] = pos
        return e

    def h_fd_seek(self, fd, off, wh, ret):
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        p = off + (0 if wh == 0 else f["pos"] if wh == 1 else len(self.files[f["name"]]))
        if p < 0:
            return 28
        f["pos"] = p
        self.u64(ret, p)
        return OK

    def h_fd_tell(self, fd, ret):
        return self.h_fd_seek(fd, 0, 1, ret)

    def h_fd_filestat_set_size(self, fd, n):
        f = self.fds.get(fd)
        if not f or f.get("dir"):
            return 8
        b = self.files[f["name"]]
        del b[n:]
        b.extend(bytes(n - len(b)))
        return OK

    def stat_to(self, p, t, size, ino):
        self.wr(p, struct.pack("<QQBxxxxxxxQQQQQ", 1, ino, t, 1, size, 1, 2, 3))
        return OK

    def h_fd_filestat_get(self, fd, p):
        f = self.fds.get(fd)
        if not f:
            return 8
        return self.stat_to(p, 3, 0, 1) if f.get("dir") else self.stat_to(p, 4, len(self.files[f["name"]]), 7)

    def h_path_filestat_get(self, fd, fl, p, n, r):
        s = self.name(p, n)
        if s in self.files:
            return self.stat_to(r, 4, len(self.files[s]), 7)
        if s in self.dirs or s == ".":
            return self.stat_to(r, 3, 0, 1)
        if s in self.links:
            return self.stat_to(r, 7, 3, 9)
        return 44

    def h_path_open(self, fd, lf, p, n, of, rb, ri, ff, ret):
        s = self.name(p, n)
        if of & 2 or s == "." or s in self.dirs:
            if s != "." and s not in self.dirs:
                return 54 if s in self.files else 44
            ent = {"dir": True}
        else:
            if s not in self.files:
                if not of & 1:
                    return 44
                self.files[s] = bytearray()
            elif of & 4:
                return 20
            if of & 8:
                del self.files[s][:]
            ent = {"name": s, "pos": 0, "app": bool(ff & 1)}
        k = 4
        while k in self.fds:
            k += 1
        self.fds[k] = ent
        self.u32(ret, k)
        self.log.append((self.cmd, "path_open", k, s, None, 0, 0))
        return OK

    def h_path_create_directory(self, fd, p, n):
        s = self.name(p, n)
        if s in self.files or s in self.dirs or s in self.links:
            return 20
        self.dirs.add(s)
        return OK

    def h_path_remove_directory(self, fd, p, n):
        s = self.name(p, n)
        if s not in self.dirs:
            return 54 if s in self.files or s in self.links else 44
        self.dirs.remove(s)
        return OK

    def h_path_unlink_file(self, fd, p, n):
        s = self.name(p, n)
        if s in self.links:
            del self.links[s]
            return OK
        if s not in self.files:
            return 31 if s in self.dirs else 44
        del self.files[s]
        return OK

    def h_path_rename(self, fd, p, n, fd2, q, m):
        a, b = self.name(p, n), self.name(q, m)
        if a not in self.files:
            return 44
        self.files[b] = self.files.pop(a)
        return OK

    def h_path_link(self, fd, fl, p, n, fd2, q, m):
        a, b = self.name(p, n), self.name(q, m)
        if a not in self.files:
            return 44
        if b in self.files:
            return 20
        self.files[b] = self.files[a]
        return OK

    def h_path_symlink(self, p, n, fd, q, m):
        b = self.name(q, m)
        if b in self.files or b in self.links or b in self.dirs:
            return 20
        self.links[b] = self.rd(p, n)
        return OK

    def h_path_readlink(self, fd, p, n, b, m, r):
        s = self.name(p, n)
        if s not in self.links:
            return 28 if s in self.files else 44
        t = self.links[s][:m]
        self.wr(b, t)
        self.u32(r, len(t))
        return OK

    def h_fd_readdir(self, fd, p, n, cookie, r):
        ents = [(".", 3), ("..", 3)] + [(x, 4) for x in sorted(self.files)] + [(x, 3) for x in sorted(self.dirs)] + [(x, 7) for x in sorted(self.links)]
        o = b""
        for i, (x, t) in enumerate(ents):
            if i >= cookie:
                o += struct.pack("<QQIBxxx", i + 1, i + 5, len(x), t) + x.encode()
        if cookie >= 1 << 40:
            o = b""
        self.wr(p, o[:n])
        self.u32(r, min(n, len(o)))
        return OK


class Exit(Exception):
    pass


def run_host(mod, host, fuel=400_000_000):
    """run a module against a host; returns (exit code or None, trap text or None)"""
    import wasmtime as w
    st = w.Store(engine())
    st.set_fuel(fuel)
    host.st = st
    stop = []
    imports = []

    def mk(fn):
        def f(caller, *a):
            host.mem = caller["memory"]
            host.st = caller
            if fn == "proc_exit":
                stop.append(("exit", a[0]))
                raise Exit()
            try:
                return host.call(fn, a)
            except Exception as x:
                stop.append(("bad", "%s%r: %r" % (fn, a, x)))
                raise
        return f
    for im in mod.imports:
        ft = im.type
        signed = {"fd_seek"}
        imports.append(w.Func(st, ft, mk(im.name), access_caller=True))
    try:
        inst = w.Instance(st, mod, imports)
        inst.exports(st)["_start"](st)
        return 0, None
    except BaseException as x:
        if isinstance(x, (KeyboardInterrupt, MemoryError)):
            raise
        if stop and stop[-1][0] == "exit":
            return stop[-1][1], None
        if stop:
            return None, "the host was given bad arguments: " + stop[-1][1]
        return None, str(x).strip().splitlines()[-1]


def rnd(r, n, text=False):
    if text:
        return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ,;%\n") for _ in range(n))
    return bytes(r.getrandbits(8) for _ in range(n))


def size(r):
    return r.choice([1, 1, 2, 3, 7, 20, 60, r.randint(1, 200), r.randint(100, 900), r.randint(800, 3000), 1024, 1040])


def action(r, fn):
    e = ("err", r.choice(list(ERR.values())))
    if fn in ("fd_write", "fd_read") and r.random() < .45:
        return ("short", r.choice([1, 1, 2, 5, 13, 100, 500]))
    return e


def nth(r):
    return r.choice([0, 0, 0, 0, 1, 1, 2, 3, "all", "all", (1,)])


class Problem(Exception):
    pass


def streams(ctx, mod, r, cnt):
    """histories on output and input streams with faults in any of their host calls"""
    w, cmds, plan = W(), [], {}
    nin = r.randint(0, 2)
    nout = r.randint(1, 3) if nin else r.randint(1, 4)
    slots, files = [], {}
    for s in range(min(4, nin + nout)):
        nm = "f%d" % s
        if s < nin:
            files[nm] = rnd(r, r.choice([0, 5, 300, 1500, 4000, 9000]), r.random() < .6)
            md = r.choice([0, 0, 3])
        else:
            md = r.choice([1, 1, 2, 4, 5])
            if md in (2, 5) and r.random() < .5:
                files[nm] = rnd(r, 30)
        slots.append((s < nin, md, nm))
    rate = r.choice([0, .05, .1, .2, .4])

    def add(c, slot, data=b"", fns=(), **k):
        i = len(cmds)
        cmds.append(dict(c=c, slot=slot, data=data, **k))
        for fn in fns:
            if r.random() < rate:
                plan[(i, fn)] = [(nth(r), action(r, fn))]
    isopen = [False] * 4
    for _ in range(r.randint(10, 70)):
        s = r.randrange(len(slots))
        inp, md, nm = slots[s]
        if not isopen[s]:
            if any(c["c"] == 7 and c["slot"] == s for c in cmds):
                continue
            w.u8(1, 0, s, md).z(nm.encode())
            add(1, s)
            isopen[s] = True
            if r.random() < .5:
                k, n = r.randrange(3), r.choice([0, 20, 100, 512, 4000])
                w.u8(12, s, k).u16(n)
                add(12, s, mode=k)
            continue
        x = r.random()
        if x < .06:
            w.u8(11, s); add(11, s)
        elif x < .10:
            w.u8(7, s); add(7, s, fns=("fd_write", "fd_close"))
            isopen[s] = False
        elif x < .13:
            w.u8(13, s); add(13, s)
        elif inp:
            c = r.choice([8, 9, 9, 10, 10])
            n = max(2, size(r))
            w.u8(c, s).u16(n)
            add(c, s, fns=("fd_read",), n=n)
        else:
            c = r.choice([2, 3, 4, 4, 5, 6])
            if x > .96:
                c = 14
            if c in (6, 14):
                w.u8(c, s); add(c, s, fns=("fd_write",))
                continue
            d = rnd(r, size(r), c in (3, 5) or r.random() < .3).replace(b"\0", b"\1")
            w.u8(c, s)
            w.z(d) if c in (3, 5) else w.blob(d)
            add(c, s, d, fns=("fd_write",))
    for s in range(len(slots)):
        if isopen[s] and r.random() < .8:
            w.u8(7, s); add(7, s, fns=("fd_write", "fd_close"))
    h = Host(files, bytes(w.b), plan)
    code, trap = run_host(mod, h)
    names = {1: "fopen", 2: "putc", 3: "fputs", 4: "fwrite", 5: "fprintf", 6: "fflush", 7: "fclose", 8: "getc", 9: "fgets", 10: "fread", 11: "clearerr", 12: "setvbuf", 13: "ftell", 14: "fflush(NULL)"}

    def show(i):
        c = cmds[i]
        return "%s on stream %d (%s %r)%s%s" % (names[c["c"]], c["slot"], ["r", "w", "a", "r+", "w+", "a+"][slots[c["slot"]][1]], slots[c["slot"]][2],
                                                 " %d bytes" % (len(c["data"]) or c.get("n", 0)) if c["c"] not in (1, 6, 7, 11, 13, 14) else "",
                                                 " [host: %s]" % ", ".join("%s %s" % (x[0], x[2]) for x in h.hit[i][:3]) if i in h.hit else "")

    def fail(key, i, text):
        return Failure("fault:" + key, "command %d, %s: %s; before: %s" % (i, show(i) if i < len(cmds) else "exit", text, "; ".join(show(q) for q in range(max(0, i - 14), min(i, len(cmds))))), {"faultdrv.c": SRC, "stdin.bin": bytes(w.b), "plan.txt": repr(plan)})
    lines = h.out.decode("latin1").split("\n")[:-1]
    if trap or code != 0 or len(lines) != len(cmds):
        i = min(len(lines), h.cmd if h.cmd >= 0 else 0)
        return [fail("stop", min(h.cmd, len(cmds)), "execution ends with exit %s, trap %s" % (code, trap))], 0, w
    rows = [l.split() for l in lines]
    cnt["faults"] = cnt.get("faults", 0) + sum(len(v) for v in h.hit.values())
    evals = 0
    for s, (inp, md, nm) in enumerate(slots):
        fd = None
        for e in h.log:
            if e[1] == "path_open" and e[3] == nm:
                fd = e[2]
        mine = [i for i, c in enumerate(cmds) if c["slot"] == s]
        if fd is None or not mine:
            continue
        closed = next((i for i in mine if cmds[i]["c"] == 7), None)
        last = closed if closed is not None else len(cmds)
        first = mine[0]
        flt = sorted(i for i, v in h.hit.items() if first <= i <= last and any(x[1] == fd for x in v))
        errs = [i for i in flt if any(x[1] == fd and (x[2][0] == "err" or x[0] == "fd_write") for x in h.hit[i])]
        rep = {}
        for i in mine:
            c, q = cmds[i]["c"], rows[i]
            rep[i] = {2: lambda: q[0] != "0" or q[3] != "0", 4: lambda: q[0] != "0" or q[3] != "0", 3: lambda: q[0] != "0" or q[2] != "0", 5: lambda: q[0] != "0" or q[2] != "0",
                      6: lambda: q[0] != "0" or q[2] != "0", 14: lambda: q[0] != "0" or q[2] != "0", 7: lambda: q[0] != "0"}.get(c, lambda: False)()
        for i, c in enumerate(cmds):
            if c["c"] == 14:
                rep[i] = rep.get(i, False) or rows[i][0] != "0"
        evals += len(mine)
        if not inp:
            # successes: nothing fails before the host fails something
            for i in mine:
                if rep[i] and not any(j <= i for j in flt) and not (cmds[i]["c"] == 14 and any(j <= i for j in h.hit)):
                    return [fail("spurious", i, "reports a failure although the host failed nothing of this stream: %s" % " ".join(rows[i]))], evals, w
                if cmds[i]["c"] == 1 and rows[i][0] != "1":
                    return [fail("spurious", i, "fopen fails although the host failed nothing")], evals, w
            writes = [e for e in h.log if e[2] == fd and e[1] == "fd_write" and first <= e[0] <= last]
            W_, upto = b"", {}
            for i in mine:
                W_ += cmds[i]["data"] if cmds[i]["c"] in (2, 3, 4, 5) else b""
                upto[i] = len(W_)
            pos, bad = 0, []
            reported = lambda n: any(rep.get(j) for j in errs if j <= n) or any(rep[j] for j in mine if j <= n)
            for e in writes:
                i, data, took = e[0], e[4], e[5]
                have = max([upto[j] for j in mine if j <= i] or [0])
                if not data:
                    continue
                off, end = 0, pos
                while off < len(data):
                    k = 0
                    while off + k < len(data) and pos + k < have and W_[pos + k] == data[off + k]:
                        k += 1
                    pos, off = pos + k, off + k
                    if off <= took:
                        end = pos
                    else:
                        end = min(end + took, pos) if off - k == 0 else end
                    if off == len(data):
                        break
                    piece = data[off:off + 12]
                    q = W_.find(piece, pos, have)
                    if q < 0 and len(piece) > 1:
                        q = W_.find(piece[:1], pos, have) if reported(i) else -1
                    if q < 0:
                        return [fail("order", min(i, len(cmds) - 1), "the host is given %d bytes of which %r... are not the ones written next (%r...): data duplicated, reordered or damaged" % (len(data), piece, W_[pos:pos + 20]))], evals, w
                    if not reported(i):
                        return [fail("lost", min(i, len(cmds) - 1), "%d bytes (%r...) never reached the file, and no call nor ferror reported it" % (q - pos, W_[pos:pos + 20]))], evals, w
                    pos = q
                if took < len(data):
                    pos = end
            if closed is not None and pos < len(W_) and not reported(closed):
                return [fail("lost", closed, "after fclose the last %d bytes (%r...) never reached the file, and no call nor ferror reported it" % (len(W_) - pos, W_[pos:pos + 20]))], evals, w
            if closed is None and pos < len(W_) and not errs:
                return [fail("lost", len(cmds) - 1, "after exit the last %d bytes (%r...) are missing, and the host failed nothing" % (len(W_) - pos, W_[pos:pos + 20]))], evals, w
            # after fflush with no failure reported since the last fault, everything is with the host
            p2, k = 0, 0
            for i in mine:
                if cmds[i]["c"] == 6 and not any(j <= i for j in errs):
                    got = sum(e[5] for e in writes if e[0] <= i)
                    if got != upto[i]:
                        return [fail("flush", i, "fflush succeeds but the host has got %d of %d bytes" % (got, upto[i]))], evals, w
            for i in errs:
                if i == len(cmds) - 1:
                    continue        # what fails after the last command fails at exit, where nothing can report it
                if i in mine and cmds[i]["c"] in (2, 3, 4, 5, 6, 7, 14) and any(x[1] == fd and x[2][0] == "err" and x[0] in ("fd_write", "fd_close") for x in h.hit[i]) and not rep[i]:
                    return [fail("silent", i, "the host reported an error, but neither the call nor ferror does: %s" % " ".join(rows[i]))], evals, w
        else:
            C, pos = bytes(h.files[nm]), 0
            unsure = False
            for i in mine:
                c, q = cmds[i]["c"], rows[i]
                if c not in (8, 9, 10):
                    if c == 13 and not unsure and pos is not None and int(q[0], 16) != pos:
                        return [fail("tell", i, "ftell says %d, the position is %d" % (int(q[0], 16), pos))], evals, w
                    continue
                n = cmds[i]["n"]
                err = any(x[1] == fd and x[2][0] == "err" for x in h.hit.get(i, ()))
                if c == 9:
                    if q[0] == "0":
                        line, g, eof, er = (q[1], q[2], q[3], q[4]) if len(q) == 5 else ("", q[1], q[2], q[3])
                    else:
                        line, g, eof, er = "", q[1], q[2], q[3]
                    got = bytes.fromhex(line) if line else b""
                elif c == 10:
                    got, g, eof, er = (bytes.fromhex(q[1]), q[2], q[3], q[4]) if len(q) == 5 else (b"", q[1], q[2], q[3])
                else:
                    got, g, eof, er = (bytes.fromhex(q[1]), "0", q[2], q[3]) if len(q) == 4 else (b"", "0", q[1], q[2])
                if g != "0":
                    return [fail("over", i, "wrote outside of the buffer, at %d" % (int(g, 16) - 1))], evals, w
                if err and er == "0":
                    return [fail("silent", i, "the host reported an error, but ferror does not: %s" % " ".join(q)[:200])], evals, w
                if er != "0" and not any(j <= i for j in errs):
                    return [fail("spurious", i, "ferror is set although the host failed nothing of this stream")], evals, w
                if err and c == 9 and q[0] == "0" and (not got.endswith(b"\n")) and len(got) < n - 1:
                    return [fail("fgets", i, "a read error ends the line, but fgets returns it as if it were read: %r" % got[-20:])], evals, w
                if unsure:
                    if c == 9 and q[0] != "0":
                        unsure += n     # it may have taken bytes as well
                    if not got:
                        continue
                    lo = pos
                    p = C.find(got, lo, lo + unsure + len(got))
                    if p < 0:
                        return [fail("data", i, "bytes %r... are not the ones at the position (after a failed fgets, up to %d bytes on)" % (got[:20], unsure))], evals, w
                    if len(got) < 8:
                        unsure = unsure + len(got)
                        if unsure > 4000:
                            break
                        continue
                    pos, unsure = p, False
                else:
                    if C[pos:pos + len(got)] != got:
                        return [fail("data", i, "read %d bytes %r..., but at %d the file holds %r..." % (len(got), got[:20], pos, C[pos:pos + 20]))], evals, w
                pos += len(got)
                if err:
                    if c == 9 and q[0] != "0":
                        unsure = n
                    continue
                rest = C[pos - len(got):]
                want = rest[:n] if c != 9 else rest[:n - 1]
                if c == 9:
                    k = want.find(b"\n")
                    want = want if k < 0 else want[:k + 1]
                    # fgets of data with NUL bytes is compared up to the first
                    if b"\0" in want:
                        want = want[:want.index(b"\0")]
                        if got == want:
                            break
                if got != want:
                    return [fail("short", i, "returns %d bytes, %d are there to be read and the host reported no error" % (len(got), len(want)))], evals, w
                if (eof != "0") != (len(want) < (n if c != 9 else n - 1) and not (c == 9 and want.endswith(b"\n"))) and not any(cmds[j]["c"] in (8, 9, 10) and j < i for j in mine):
                    return [fail("eof", i, "feof is %s after %d of %d bytes" % (eof, len(want), n))], evals, w
    return [], evals, w


CREAT, EXCL, TRUNC, DIRE = 1 << 12, 4 << 12, 8 << 12, 2 << 12


def calls(ctx, mod, r, cnt):
    """descriptor, path and directory functions: one fault each"""
    w, cmds, plan = W(), [], {}
    files = {"f%d" % i: rnd(r, r.randint(10, 3000)) for i in range(4)}
    for i in range(r.choice([0, 3, 60, 150])):
        files["entry%03d%s" % (i, "x" * r.randint(0, 40))] = b""
    fresh = 0
    T = {"open": ("fd_fdstat_get", "path_open"), "read": ("fd_read",), "write": ("fd_write",), "pread": ("fd_pread",), "pwrite": ("fd_pwrite",), "lseek": ("fd_seek",), "ftruncate": ("fd_filestat_set_size",),
         "close": ("fd_close",), "stat": ("path_filestat_get",), "lstat": ("path_filestat_get",), "fstat": ("fd_filestat_get",), "mkdir": ("path_create_directory",), "rmdir": ("path_remove_directory",),
         "unlink": ("path_unlink_file",), "remove": ("path_unlink_file",), "rename": ("path_rename",), "link": ("path_link",), "symlink": ("path_symlink",), "readlink": ("path_readlink",),
         "access": ("path_filestat_get",), "fsync": ("fd_sync",), "fdatasync": ("fd_datasync",), "getfl": ("fd_fdstat_get",), "setfl": ("fd_fdstat_set_flags",), "fadvise": ("fd_advise",), "fallocate": ("fd_allocate",),
         "opendir": ("fd_fdstat_get", "path_open", "fd_readdir"), "readdir": ("fd_readdir",), "scandir": ("fd_fdstat_get", "path_open", "fd_readdir"), "time": ("clock_time_get",), "clock": ("clock_time_get",), "fopen": ("fd_fdstat_get", "path_open")}
    code = dict(zip(["open", "read", "write", "pread", "pwrite", "lseek", "ftruncate", "close", "stat", "lstat", "fstat", "mkdir", "rmdir", "unlink", "remove", "rename", "link", "symlink", "readlink", "access", "fsync", "fdatasync",
                     "getfl", "setfl", "fadvise", "fallocate", "opendir", "readdir", "scandir", "time", "clock"], range(30, 61)))
    for _ in range(r.randint(20, 60)):
        f = r.choice(list(T))
        i = len(cmds)
        d = dict(f=f, n=0)
        w.u8(code.get(f, 1))
        fresh += 1
        nm = ("n%d" % fresh).encode()
        if f == "open":
            w.z(r.choice([b"f0", b"f3"])).u32(r.choice([0x04000000, 0x10000000, 0x14000000]))
        elif f in ("read", "write"):
            d["n"] = size(r)
            w.u16(d["n"]) if f == "read" else w.blob(rnd(r, d["n"]))
        elif f in ("pread", "pwrite"):
            d["n"], d["off"] = size(r), r.randint(0, 2000)
            w.u16(d["n"]) if f == "pread" else w.blob(rnd(r, d["n"]))
            w.u32(d["off"])
        elif f in ("stat", "lstat", "remove_"):
            w.z(r.choice([b"f0", b"f1"]))
        elif f in ("mkdir",):
            w.z(nm)
        elif f in ("rmdir", "unlink", "remove"):
            w.z(b"none%d" % fresh)
            d["miss"] = True
        elif f == "rename":
            w.z(b"f2").z(b"f2")
        elif f == "link":
            w.z(b"f2").z(nm)
        elif f == "symlink":
            w.z(b"f2").z(nm)
        elif f == "readlink":
            w.z(b"none").u16(50)
            d["miss"] = True
        elif f == "access":
            w.z(b"f1").u8(r.choice([0, 2, 4]) if 0 else 0)
        elif f == "fallocate":
            w.u32(r.randint(1, 5000))
        elif f == "readdir":
            d["n"] = r.randint(0, 3)
            w.u8(d["n"])
        elif f == "fopen":
            d["m"] = r.choice([0, 3])
            w.u8(0, 3, d["m"]).z(r.choice([b"f0", b"f1"]))
        cmds.append(d)
        if r.random() < .6:
            fn = r.choice(T[f])
            a = ("err", r.choice(list(ERR.values())))
            if f in ("read", "write", "pread", "pwrite") and r.random() < .3:
                a = ("short", r.randint(0 if f != "write" else 1, max(1, d["n"])))
            plan[(i, fn)] = [(0 if f != "readdir" else r.choice([0, 1, 2]), a)]
            d["plan"] = (fn, a)
        if f == "fopen":
            w.u8(62)  # nothing: the stream stays open when opened
            cmds.append(dict(f="none", n=0))
    h = Host(files, bytes(w.b), plan)
    code_, trap = run_host(mod, h)
    lines = h.out.decode("latin1").split("\n")[:-1]

    def fail(key, i, text):
        return Failure("fault:" + key, "call %d, %s [host: %s]: %s" % (i, cmds[i]["f"] if i < len(cmds) else "exit", h.hit.get(i), text), {"faultdrv.c": SRC, "stdin.bin": bytes(w.b), "plan.txt": repr(plan)})
    if trap or code_ != 0 or len(lines) != len(cmds):
        return [fail("stop", min(h.cmd, len(cmds)), "execution ends with exit %s, trap %s" % (code_, trap))], 0, w
    cnt["faults"] = cnt.get("faults", 0) + sum(len(v) for v in h.hit.values())
    evals = 0
    for i, d in enumerate(cmds):
        f, q, hits = d["f"], lines[i].split(), h.hit.get(i, [])
        evals += 1
        if f == "none":
            continue
        base = lambda q: h.nfds[q] - (cmds[q]["f"] != "fopen")
        leak = base(i + 1) - base(i) - (f == "fopen") if i + 1 < len(h.nfds) else 0
        errs = [x for x in hits if x[2][0] == "err"]
        want = errs[0][2][1] if errs else None
        if f == "fopen":
            if bool(errs) != (q[0] == "0"):
                return [fail("fopen", i, "result %s" % q)], evals, w
            if errs and (int(q[1], 16) != want or leak > 0):
                return [fail("errno", i, "errno %d, expected %d; %d descriptors left open" % (int(q[1], 16), want, leak))], evals, w
            continue
        if leak and not (f == "close" and errs) and not any(x[0] == "fd_close" for x in errs):
            return [fail("leak", i, "%d descriptors are left open" % leak)], evals, w
        if f == "readdir":
            # errors show as NULL with errno; the entries before and after are each seen once
            names, seen = [], []
            opened = not any(x[0] in ("path_open", "fd_fdstat_get") for x in errs) and not (errs and d["plan"][0] == "fd_readdir" and plan[(i, "fd_readdir")][0][0] == 0)
            body = " ".join(q).split(".")[0].split()
            for t in body:
                if t[0] == '"':
                    names.append(bytes.fromhex(t[1:]).decode("latin1"))
                else:
                    seen.append(int(t, 16))
            if len(names) != len(set(names)):
                return [fail("readdir", i, "an entry is listed twice: %s" % names[:20])], evals, w
            if opened and (errs and seen[:1] != [want] or not errs and seen != [0]):
                return [fail("readdir", i, "errno values at NULL are %s, expected %s" % (seen, [want] if errs else [0]))], evals, w
            if opened and not (errs and d["n"] == 0) and {x for x in names} < (set(files) | {".", ".."}):
                return [fail("readdir", i, "%d entries listed of %d or more" % (len(names), len(files) + 2))], evals, w
            continue
        failed, er = q[0] != "0", int(q[1], 16)
        if errs:
            if not failed:
                return [fail("silent", i, "the host failed with %d, the call reports success" % want)], evals, w
            if f not in ("time", "clock") and er != want:
                return [fail("errno", i, "the host failed with %d, errno is %d" % (want, er))], evals, w
        elif d.get("miss"):
            if not failed:
                return [fail("miss", i, "succeeds on a file that is not there")], evals, w
        elif failed:
            return [fail("spurious", i, "fails with errno %d although the host failed nothing" % er)], evals, w
        if f in ("read", "pread", "write", "pwrite") and not errs:
            n = d["n"]
            lim = [x[2][1] for x in hits]
            have = len(h.files["f0"])
            full = n if f in ("write", "pwrite") else min(n, have) if f == "read" else max(0, min(n, have - d["off"]))
            fullx = lim[0] if lim else full
            if int(q[2], 16) != fullx:
                return [fail("count", i, "returns %d, the host transferred %d" % (int(q[2], 16), fullx))], evals, w
            if f in ("read", "pread"):
                o = d.get("off", 0)
                data = bytes.fromhex(q[3]) if len(q) > 4 else b""
                if data != bytes(h.files["f0"][o:o + fullx]) or q[-1] != "0":
                    return [fail("data", i, "wrong data, or bytes outside of the buffer are changed (%s)" % q[-1])], evals, w
    return [], evals, w


STARTUP = ("args_sizes_get", "args_get", "environ_sizes_get", "environ_get", "fd_prestat_get", "fd_prestat_dir_name")


SSRC = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static void show(const char *k, const char *v) { if (v == NULL) printf("%s!\n", k); else printf("%s=%s\n", k, v); }
int main(int argc, char **argv)
{
  int i; FILE *f; char b[20];
  printf("argc=%d end=%d al=%d\n", argc, (int)(argv[argc] == NULL), (int)((size_t)argv % 4));
  for (i = 0; i < argc; ++i) printf("[%s]\n", argv[i]);
  show("A", getenv("A")); show("AB", getenv("AB")); show("B", getenv("B")); show("", getenv(""));
  errno = 0;
  f = fopen("f0", "r");
  if (f == NULL) printf("nofile %d\n", (int)(errno != 0));
  else { char *q = fgets(&b[0], 20, f); printf("file %s\n", q == NULL ? "?" : q); fclose(f); }
  show("A", getenv("A"));
  f = fopen("f0", "r");
  printf("again %d\n", (int)(f != NULL));
  for (i = 0; i < argc; ++i) printf("[%s]\n", argv[i]);
  return 7;
}
"""
ARGMSG, ENVMSG = b"internal error: unable to retrieve command-line arguments\n", b"internal error: unable to retrieve environment strings\n"


def startup(ctx, mod, r, i):
    """the host fails the calls that fetch arguments, environment and preopened directories"""
    tot = {"evals": 0, "failures": [], "keys": [], "counts": {"startup_runs": 0, "startup_faults": 0}}
    for j in range(10):
        word = lambda n: "".join(r.choice("abcXYZ= .-_0") for _ in range(r.randint(0, n)))
        argv = ["prog"] + [word(20) for _ in range(r.choice([0, 0, 1, 2, 7, 40]))]
        if r.random() < .08:
            argv = []
        if r.random() < .1:
            argv.append("x" * r.choice([1000, 30000, 70000, 200000]))
        env = [k + "=" + word(30) for k in ("A", "AB", "B", "C", "AA") if r.random() < .6]
        r.shuffle(env)
        plan = {}
        for fn in STARTUP:
            if r.random() < .25:
                plan[(-1, fn)] = [(r.choice([0, 0, "all", 1]), ("err", r.choice([5, 6, 8, 12, 21, 22, 28, 29, 48, 52, 63, 76])))]
        h = Host({"f0": b"line"}, b"", plan, env, argv)
        h.startup = True
        code, trap = run_host(mod, h)
        failed = {x[0] for x in h.hit.get(-1, ())}
        tot["counts"]["startup_runs"] += 1
        tot["counts"]["startup_faults"] += len(h.hit.get(-1, ()))
        tot["keys"].append("s%d.%d" % (i, j))
        what = "arguments %r..., environment %r, host calls that fail: %s" % ([x[:30] for x in argv[:6]], env, plan)

        def fail(key, text):
            tot["failures"].append(Failure("startup:" + key, text + "; " + what + "\noutput: %r\nstderr: %r" % (bytes(h.out[:600]), bytes(h.err[:300])), {"startdrv.c": SSRC}))
            return tot
        if trap or code != 7:
            return fail("end", "the program ends with code %s, trap %s" % (code, trap))
        big = any(len(x) > 900 for x in argv)
        noargs = bool(failed & {"args_sizes_get", "args_get"}) or not argv or (big and ARGMSG in h.err)
        noenv = bool(failed & {"environ_sizes_get", "environ_get"})
        if h.err != (ARGMSG if noargs else b"") + (ENVMSG if noenv else b""):
            return fail("message", "standard error is not what is expected (arguments lost: %s, environment lost: %s)" % (noargs, noenv))
        a = [""] if noargs else argv
        e = {} if noenv else {}
        if not noenv:
            for x in env:
                k, v = x.split("=", 1)
                e.setdefault(k, v)
        g = lambda k: "%s=%s" % (k, e[k]) if k in e else k + "!"
        want = ["argc=%d end=1 al=0" % len(a)] + ["[%s]" % x for x in a] + [g(k) for k in ("A", "AB", "B")] + ["!"]
        got = bytes(h.out).decode("latin1").split("\n")
        n = len(want)
        if got[:n] != want:
            z = next(q for q in range(n) if q >= len(got) or got[q] != want[q])
            return fail("seen", "line %d: expected %r, got %r" % (z, want[z][:100], (got + [""] * n)[z][:100]))
        pre = bool(failed & {"fd_prestat_get", "fd_prestat_dir_name"})
        rest = [g("A"), None] + ["[%s]" % x for x in a] + [""]
        if got[n] != "file line" and not (pre and got[n] == "nofile 1") or got[n + 1] != rest[0] or got[n + 2] not in (("again 1",) if not pre else ("again 0", "again 1")) or got[n + 3:] != rest[2:]:
            return fail("file", "expected %r..., got %r" % (["file line" if not pre else "nofile 1"] + rest[:1], got[n:n + 4]))
        tot["evals"] += n + len(rest)
    return tot


def c30(ctx):
    ctx.tree.build()
    import wasmtime as wt
    data = build(ctx, "faultdrv", SRC)
    ctx.cov["rule"] = ("random histories of stream calls (fopen, putc, fputs, fwrite, fprintf, fflush, fclose, getc, fgets, fread, clearerr, setvbuf, ftell) and of all descriptor, path, directory and clock functions, run against a WASI host of the harness's own "
                       "that logs each call and fails or shortens the ones a plan selects (single, repeated or all from the nth on; 12 error numbers; short reads and writes of any length). The recorded log and what the program saw are checked: errors reported with the host's number, "
                       "nothing lost unreported, nothing duplicated or reordered, short transfers completed, no descriptor leaked, no byte outside of the buffers written. evaluations = calls checked")

    def job(i):
        mod = wt.Module(engine(), data)
        r = ctx.rng("fault", i)
        tot = {"evals": 0, "failures": [], "keys": [], "counts": {}}
        for j in range(12):
            kind = streams if j % 3 else calls
            fl, ev, w = kind(ctx, mod, r, tot["counts"])
            tot["evals"] += ev
            tot["failures"] += fl
            tot["keys"].append(hashlib.sha1(bytes(w.b)).hexdigest()[:16])
            tot["counts"]["sessions"] = tot["counts"].get("sessions", 0) + 1
            if i == 0 and j == 1:
                tot["samples"] = [{"session": "streams", "commands": w.b[:120].hex(), "host calls failed or shortened so far": tot["counts"].get("faults", 0)}]
            if fl:
                break
        return tot
    ctx.pmap(job, range(ctx.n(250, 6000)))
    sdata = build(ctx, "startdrv", SSRC)
    ctx.pmap(lambda i: startup(ctx, wt.Module(engine(), sdata), ctx.rng("start", i), i), range(ctx.n(120, 2000)))


CHECKS = {"C30": c30}
