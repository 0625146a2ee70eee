"""C25: files, directories and paths: descriptors, stat, directory streams and path resolution against the host's file system."""
import os, errno, stat as st_, shutil, tempfile
from .drv import *

WASI = {2: "EACCES", 8: "EBADF", 20: "EEXIST", 28: "EINVAL", 31: "EISDIR", 32: "ELOOP", 37: "ENAMETOOLONG", 44: "ENOENT", 54: "ENOTDIR", 55: "ENOTEMPTY", 63: "EPERM", 70: "ESPIPE", 75: "EXDEV", 76: "ENOTCAPABLE", 0: "0"}
SRC = HEAD.replace("#define IN_MAX 4000000", "#define IN_MAX 600000") + GZ + r'''
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <dirent.h>
#include <sys/stat.h>
static int fd_[8]; static unsigned char rb_[20000]; static char pa_[2000];
static void er_(void) { oc_(69); oi_(errno); return; }
static void st_(struct stat *p) { mode_t m = p->st_mode; oi_(S_ISREG(m)); oi_(S_ISDIR(m)); oi_(S_ISLNK(m)); oi_(S_ISCHR(m)); oi_(S_ISBLK(m)); oi_(S_ISSOCK(m)); ou_((unsigned long long)p->st_size); ou_((unsigned long long)p->st_nlink);
  ou_((unsigned long long)p->st_ino); ou_((unsigned long long)p->st_mtime); ou_((unsigned long long)(p->st_mtime_ns < 0 || p->st_mtime_ns > 999999999 ? 1 : 0)); return; }
static int odd_(const struct dirent *e) { int n = (int)strlen(&e->d_name[0]); return n & 1; }
static int rev_(const struct dirent **a, const struct dirent **b) { return -strcmp(&(*a)->d_name[0], &(*b)->d_name[0]); }
static void ent_(DIR *d, struct dirent *e, int chk) { struct stat s; os_(&e->d_name[0]); oi_((int)e->d_type); 
  if (chk != 0) { int r = fstatat(dirfd(d), &e->d_name[0], &s, AT_SYMLINK_NOFOLLOW); oi_(r == 0 && s.st_ino == e->d_ino || strcmp(&e->d_name[0], "..") == 0); } return; }
static void dl_(DIR *d, int n) { struct dirent *e; long at = 0L; int i; 
  oc_(68); for (i = 0; i < n; ++i) { e = readdir(d); if (e == NULL) break; ent_(d, e, 1); } at = telldir(d); oc_(124); oc_(32);
  while ((e = readdir(d)) != NULL) ent_(d, e, 0); oc_(124); oc_(32);
  seekdir(d, at); while ((e = readdir(d)) != NULL) ent_(d, e, 0); oc_(124); oc_(32);
  rewinddir(d); while ((e = readdir(d)) != NULL) ent_(d, e, 0); 
  oc_(124); oc_(32); return; }
static int sr_(int r) { if (r != 0) er_(); else oi_(0); return r; }
static char *p_(void) { char *s = gz_(); strcpy(&pa_[0], s); return &pa_[0]; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), s = g8_(), n, i, r; char *p; unsigned char *q; struct stat sb;
    errno = 0;
    switch (k) {
      case 1: { n = (int)g32_(); fd_[s] = open(p_(), n); if (fd_[s] < 0) er_(); else oi_(0); } break;
      case 2: { r = close(fd_[s]); if (r != 0) er_(); else oi_(0); } break;
      case 3: { n = (int)g16_(); memset(&rb_[0], 90, (size_t)20000); r = (int)read(fd_[s], &rb_[0], (size_t)n); if (r < 0) er_(); else { oi_(r); oi_((int)fnv_(&rb_[0], r)); for (i = r; i < 20000; ++i) if (rb_[i] != 90) break; oi_(20000 - i); } } break;
      case 4: { n = (int)g16_(); q = gb_(n); r = (int)write(fd_[s], q, (size_t)n); if (r < 0) er_(); else oi_(r); } break;
      case 5: { long long o; n = (int)g16_(); o = (long long)g64_(); memset(&rb_[0], 90, (size_t)20000); r = (int)pread(fd_[s], &rb_[0], (size_t)n, (off_t)o); if (r < 0) er_(); else { oi_(r); oi_((int)fnv_(&rb_[0], r)); for (i = r; i < 20000; ++i) if (rb_[i] != 90) break; oi_(20000 - i); } } break;
      case 6: { long long o; n = (int)g16_(); q = gb_(n); o = (long long)g64_(); r = (int)pwrite(fd_[s], q, (size_t)n, (off_t)o); if (r < 0) er_(); else oi_(r); } break;
      case 7: { long long o = (long long)g64_(); n = g8_(); o = (long long)lseek(fd_[s], (off_t)o, n == 0 ? SEEK_SET : n == 1 ? SEEK_CUR : SEEK_END); if (o < 0ll) er_(); else ou_((unsigned long long)o); } break;
      case 8: { long long o = (long long)g64_(); r = ftruncate(fd_[s], (off_t)o); if (r != 0) er_(); else oi_(0); } break;
      case 9: { memset(&sb, 165, sizeof(struct stat)); r = fstat(fd_[s], &sb); if (r != 0) er_(); else st_(&sb); } break;
      case 10: { memset(&sb, 255, sizeof(struct stat)); r = stat(p_(), &sb); if (r != 0) er_(); else st_(&sb); } break;
      case 11: { memset(&sb, 90, sizeof(struct stat)); r = lstat(p_(), &sb); if (r != 0) er_(); else st_(&sb); } break;
      case 12: { r = mkdir(p_(), (mode_t)S_IRWXU); if (r != 0) er_(); else oi_(0); } break;
      case 13: { r = rmdir(p_()); if (r != 0) er_(); else oi_(0); } break;
      case 14: { r = unlink(p_()); if (r != 0) er_(); else oi_(0); } break;
      case 15: { r = remove(p_()); if (r != 0) er_(); else oi_(0); } break;
      case 16: { p = p_(); r = rename(p, gz_()); if (r != 0) er_(); else oi_(0); } break;
      case 17: { p = p_(); r = link(p, gz_()); if (r != 0) er_(); else oi_(0); } break;
      case 18: { p = p_(); r = symlink(p, gz_()); if (r != 0) er_(); else oi_(0); } break;
      case 19: { n = (int)g16_(); memset(&rb_[0], 90, (size_t)20000); r = (int)readlink(p_(), (char *)&rb_[0], (size_t)n); if (r < 0) er_(); else { oi_(r); ob_(&rb_[0], r); for (i = n; i < 20000; ++i) if (rb_[i] != 90) break; oi_(20000 - i); } } break;
      case 20: { n = g8_(); r = access(p_(), n); if (r != 0) er_(); else oi_(0); } break;
      case 21: { DIR *d; n = (int)g16_(); d = opendir(p_()); if (d == NULL) er_(); else { dl_(d, n); oi_(closedir(d)); } } break;
      case 22: { struct dirent **l[1]; n = g8_(); l[0] = NULL; r = scandir(p_(), &l[0], n == 1 ? &odd_ : NULL, n == 2 ? &rev_ : &alphasort); if (r < 0) er_(); else { oi_(r); for (i = 0; i < r; ++i) { os_(&l[0][i]->d_name[0]); oi_((int)l[0][i]->d_type); free(l[0][i]); } free(l[0]); } } break;
      case 23: { n = fcntl(fd_[s], F_GETFL); if (n < 0) er_(); else { oi_((n & O_ACCMODE) == O_RDWR ? 3 : (n & O_ACCMODE) == O_RDONLY ? 1 : (n & O_ACCMODE) == O_WRONLY ? 2 : 0); oi_((n & O_APPEND) != 0); } } break;
      case 24: { oi_(isatty(fd_[s])); oi_(fsync(fd_[s])); oi_(fdatasync(fd_[s])); } break;
      case 25: { n = (int)g16_(); p = p_(); for (i = 0; i < n; ++i) { char nm[300]; int fd; sprintf(&nm[0], "%s/%0*d", p, 1 + (i * 7) % 200, i); fd = open(&nm[0], O_CREAT | O_WRONLY); if (fd < 0) break; close(fd); } oi_(i); } break;
      case 26: { n = (int)g32_(); r = (int)read(n, &rb_[0], (size_t)5); if (r < 0) er_(); else oi_(r); r = close(n); if (r < 0) er_(); else oi_(r); r = fstat(n, &sb); if (r < 0) er_(); else oi_(r); } break;
      case 27: { sr_(mkdirat(fd_[s], p_(), (mode_t)S_IRWXU)); } break;
      case 28: { n = g8_(); sr_(unlinkat(fd_[s], p_(), n == 1 ? AT_REMOVEDIR : 0)); } break;
      case 29: { n = g8_(); p = p_(); sr_(linkat(fd_[s], p, fd_[n], gz_(), 0)); } break;
      case 30: { p = p_(); sr_(symlinkat(p, fd_[s], gz_())); } break;
      case 31: { n = (int)g16_(); memset(&rb_[0], 90, (size_t)20000); r = (int)readlinkat(fd_[s], p_(), (char *)&rb_[0], (size_t)n); if (r < 0) er_(); else { oi_(r); ob_(&rb_[0], r); for (i = n; i < 20000; ++i) if (rb_[i] != 90) break; oi_(20000 - i); } } break;
      case 32: { sr_(rmdirat(fd_[s], p_())); } break;
      case 33: { n = g8_(); memset(&sb, 255, sizeof(struct stat)); r = fstatat(fd_[s], p_(), &sb, n == 1 ? AT_SYMLINK_NOFOLLOW : 0); if (r != 0) er_(); else st_(&sb); } break;
      case 34: { int t = g8_(); n = (int)g32_(); r = openat(fd_[s], p_(), n); if (r < 0) er_(); else { fd_[t] = r; oi_(0); } } break;
      case 35: { n = g8_(); p = p_(); sr_(renameat(fd_[s], p, fd_[n], gz_())); } break;
      case 36: { DIR *d; n = (int)g16_(); d = opendirat(fd_[s], p_()); if (d == NULL) er_(); else { dl_(d, n); oi_(closedir(d)); } } break;
      case 37: { DIR *d; int f; n = (int)g16_(); d = fdopendir(fd_[s]); if (d == NULL) er_(); else { oi_(dirfd(d) == fd_[s]); dl_(d, n); f = fdclosedir(d); oi_(f == fd_[s] ? 0 : 1); } } break;
      case 38: { struct dirent **l[1]; n = g8_(); l[0] = NULL; r = scandirat(fd_[s], p_(), &l[0], n == 1 ? &odd_ : NULL, n == 2 ? &rev_ : &alphasort); if (r < 0) er_(); else { oi_(r); for (i = 0; i < r; ++i) { os_(&l[0][i]->d_name[0]); oi_((int)l[0][i]->d_type); free(l[0][i]); } free(l[0]); } } break;
      case 39: { long long o = (long long)g64_(), c = (long long)g64_(); n = g8_(); oi_(posix_fadvise(fd_[s], (off_t)o, (off_t)c, n)); } break;
      case 40: { long long o = (long long)g64_(), c = (long long)g64_(); oi_(posix_fallocate(fd_[s], (off_t)o, (off_t)c)); } break;
      case 41: { DIR *d; struct dirent **l[1]; char *in_; n = g8_(); p = p_(); in_ = gz_(); r = 0; 
        switch (n) {
          case 0: { r = open(p, O_RDONLY); } break;
          case 1: { r = open(p, O_WRONLY | O_CREAT); } break;
          case 2: { r = stat(p, &sb); } break;
          case 3: { r = lstat(p, &sb); } break;
          case 4: { r = mkdir(p, (mode_t)S_IRWXU); } break;
          case 5: { r = rmdir(p); } break;
          case 6: { r = unlink(p); } break;
          case 7: { r = remove(p); } break;
          case 8: { r = rename(p, in_); } break;
          case 9: { r = rename(in_, p); } break;
          case 10: { r = link(p, in_); } break;
          case 11: { r = link(in_, p); } break;
          case 12: { r = symlink("x", p); } break;
          case 13: { r = (int)readlink(p, (char *)&rb_[0], (size_t)100); } break;
          case 14: { r = access(p, 0); } break;
          case 15: { d = opendir(p); r = d == NULL ? -1 : 0; } break;
          case 16: { r = scandir(p, &l[0], NULL, &alphasort); } break;
          default: { r = fopen(p, "r") == NULL ? -1 : 0; }
        }
        if (r == -1) er_(); else oi_(r); } break;
      default: oc_(63);
    }
    nl_();
  }
  flush_(); return 0;
}
'''
O = {"CREAT": 0x1000, "DIRECTORY": 0x2000, "EXCL": 0x4000, "TRUNC": 0x8000, "NOFOLLOW": 0x01000000, "RDONLY": 0x04000000, "WRONLY": 0x10000000, "APPEND": 1}
DT = {"d": 3, "f": 4, "l": 7}
NAMES = ["a", "b", "c", "dd", "e.txt", "name with blank", "data", "database", "dat", "sub", "ümläut"]


class Host:
    """the same operations done with Python on a mirror directory"""
    def __init__(self, root, preopens):
        self.pre = preopens                # guest prefix (stripped) -> mirror directory

    def path(self, g):
        """mirror path for a guest path; the longest matching preopened prefix wins"""
        g = g.lstrip("/")
        best = None
        for pre, d in self.pre.items():
            if pre == "" or g == pre or g.startswith(pre + "/"):
                if best is None or len(pre) > len(best[0]):
                    best = (pre, d)
        rest = g[len(best[0]):].lstrip("/")
        return best[1] + "/" + rest if rest else best[1] + "/."


def err(x):
    return "E" + errno.errorcode.get(x.errno, str(x.errno))[1:]


# errors for which systems differ legitimately
SAME = [{"EPERM", "EISDIR", "ENOTCAPABLE", "EACCES"}, {"ENOTEMPTY", "EEXIST"}, {"ELOOP", "ENOENT", "ENOTDIR", "ENAMETOOLONG"}, {"EINVAL", "ENOENT", "EBUSY", "ENOTCAPABLE"}]


def errcheck(name):
    def f(g):
        if not g.startswith("E"):
            return "expected the error %s, got success: %s" % (name, g[:80])
        e = WASI.get(int(g[1:].split()[0], 16), g)
        if e == name or any(e in s and name in s for s in SAME):
            return None
        return ("errno", "expected the error %s, got %s" % (name, e))
    f.fails = True
    return f


def outside(g):
    if not g.startswith("E"):
        return "expected an error, got " + g[:60]
    e = WASI.get(int(g[1:].split()[0], 16), g)
    return None if e in ("ENOTCAPABLE", "ENOENT", "EPERM", "EACCES") else ("errno-outside", "errno is %s" % e)


def h(v):
    return "%x" % (v & 0xffffffff)


def h64(v):
    return "%x" % (v & (2 ** 64 - 1))


def rawname(p):
    return os.fsencode(p)


def stat_check(s, seen):
    """s: the mirror's stat; inode numbers must identify the same files as the mirror's do"""
    seen = list(seen)

    def f(g):
        if g.startswith("E"):
            return "expected success, got the error %s" % WASI.get(int(g[1:].split()[0], 16), g)
        v = [int(x, 16) for x in g.split()]
        m = s.st_mode
        kind = [st_.S_ISREG(m), st_.S_ISDIR(m), st_.S_ISLNK(m), st_.S_ISCHR(m), st_.S_ISBLK(m), st_.S_ISSOCK(m)]
        if v[:6] != [int(x) for x in kind]:
            return "S_ISREG..S_ISSOCK are %r, expected %r" % (v[:6], kind)
        if not st_.S_ISDIR(m):
            if v[6] != s.st_size:
                return "st_size is %d, expected %d" % (v[6], s.st_size)
            if v[7] != s.st_nlink:
                return "st_nlink is %d, expected %d" % (v[7], s.st_nlink)
        a, b = seen[0].setdefault(s.st_ino, v[8]), seen[1].setdefault(v[8], s.st_ino)
        if (a != v[8] or b != s.st_ino):
            return "st_ino %x belongs to another file" % v[8]
        if abs(v[9] - s.st_mtime) > 1000:
            return "st_mtime is %d, expected about %d" % (v[9], s.st_mtime)
        if v[10]:
            return "st_mtime_ns is out of range"
    return f


def history(r, dirs, mirror, cnt):
    """dirs: guest prefix -> mirror dir"""
    w, exp, desc = W(), [], []
    host = Host(mirror, dirs)
    fds = [None] * 8           # (os fd, can read, can write, append)
    seen = [{}, {}]

    def cmd(k, s, e, d):
        w.u8(k, s)
        exp.append(e)
        desc.append(d)
        n = d.split("(")[0].split(" ")[0]
        if n in ("close", "unlink", "rmdir", "remove", "rename"):
            seen[:] = [{}, {}]          # inode numbers of files that are gone come back
        n += " outside" if "outside" in d else ""
        n += " fails" if hasattr(e, "fails") else ""
        cnt[n] = cnt.get(n, 0) + 1

    prefixes = [p for p in dirs]

    def gpath():
        pre = r.choice(prefixes)
        parts = [r.choice(NAMES[:6] if r.random() < .8 else NAMES) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        if r.random() < .04:
            parts = [r.choice(["x" * 255, "x" * 256, "y" * 100])]
        p = (pre + "/" if pre else "") + "/".join(parts)
        if r.random() < .1:
            p = p.replace("/", "//", 1)
        if r.random() < .3:
            p = "/" + p
        if r.random() < .03:
            p = r.choice(["", "/"]) + pre if pre else "/"
        return p

    def gold(want=None):
        """mostly a path that exists, of the wanted kind if possible"""
        if r.random() < .25:
            return gpath()
        for _ in range(4):
            pre = r.choice(prefixes)
            d, parts = dirs[pre], []
            while len(parts) < 6:
                try:
                    es = sorted(x.name for x in os.scandir(d))
                except OSError:
                    break
                if not es or parts and r.random() < .3:
                    break
                parts.append(r.choice(es))
                d = d + "/" + parts[-1]
                if os.path.islink(d):
                    break
            if not parts:
                continue
            p = (pre + "/" if pre else "") + "/".join(parts)
            if want is None or exists_kind(p) == want:
                return ("/" if r.random() < .3 else "") + p
        return gpath()

    def do(f):
        try:
            return f(), None
        except OSError as x:
            return None, err(x)

    def simple(k, name, args, f):
        v, e = do(f)
        cmd(k, 0, errcheck(e) if e else "0", "%s(%s)" % (name, ", ".join(repr(a) for a in args)))
        for a in args:
            w.z(a.encode())

    def exists_kind(p):
        try:
            m = os.lstat(host.path(p)).st_mode
            return "d" if st_.S_ISDIR(m) else "l" if st_.S_ISLNK(m) else "f"
        except OSError:
            return None

    def rel(o, want=None):
        """a path relative to the directory open as o, mostly of something that exists"""
        d, parts = o, []
        if r.random() < .3:
            return "/".join(r.choice(NAMES[:6] if r.random() < .8 else NAMES) for _ in range(r.choice([1, 1, 1, 2])))
        base = "/proc/self/fd/%d" % o
        for _ in range(3):
            parts = []
            while len(parts) < 5:
                try:
                    es = sorted(os.listdir("/".join([base] + parts)))
                except OSError:
                    break
                if not es or parts and r.random() < .4:
                    break
                parts.append(r.choice(es))
                if os.path.islink("/".join([base] + parts)):
                    break
            if parts and (want is None or rkind(o, "/".join(parts)) == want):
                return "/".join(parts)
        return r.choice(NAMES)

    def rkind(o, p):
        try:
            m = os.lstat(p, dir_fd=o).st_mode
            return "d" if st_.S_ISDIR(m) else "l" if st_.S_ISLNK(m) else "f"
        except OSError:
            return None

    def at_op(s, o):
        k = r.random()
        p = rel(o)
        dirfds = [q for q in range(8) if fds[q] and fds[q][4]]
        t = r.choice(dirfds)
        o2 = fds[t][0]

        def put(c, e, ok, d, *zs):
            cmd(c, s, errcheck(e) if e else ok, d)
            return w
        if k < .12:
            v, e = do(lambda: os.mkdir(p, 0o700, dir_fd=o))
            put(27, e, "0", "mkdirat(%d, %r)" % (s, p)).z(p.encode())
        elif k < .26:
            how = r.randrange(3)
            p = rel(o, "f" if how == 0 else "d")
            v, e = do(lambda: os.unlink(p, dir_fd=o) if how == 0 else os.rmdir(p, dir_fd=o))
            n = ["unlinkat", "unlinkat", "rmdirat"][how]
            put(28 if how < 2 else 32, e, "0", "%s(%d, %r%s)" % (n, s, p, ", AT_REMOVEDIR" if how == 1 else ""))
            seen[:] = [{}, {}]
            if how < 2:
                w.u8(how)
            w.z(p.encode())
        elif k < .34:
            q = rel(o2)
            if rkind(o, p) in ("f", None):
                v, e = do(lambda: os.link(p, q, src_dir_fd=o, dst_dir_fd=o2, follow_symlinks=False))
                put(29, e, "0", "linkat(%d, %r, %d, %r)" % (s, p, t, q)).u8(t).z(p.encode()).z(q.encode())
        elif k < .4:
            x = r.choice(NAMES[:6] + ["dd/a", "nowhere"])
            v, e = do(lambda: os.symlink(x, p, dir_fd=o))
            put(30, e, "0", "symlinkat(%r, %d, %r)" % (x, s, p)).z(x.encode()).z(p.encode())
        elif k < .46:
            p = rel(o, "l")
            n = r.choice([1, 3, 100])
            v, e = do(lambda: os.fsencode(os.readlink(p, dir_fd=o)))
            put(31, e, "%x %s 0" % (min(n, len(v)), v[:n].hex()) if v is not None else None, "readlinkat(%d, %r, %d)" % (s, p, n)).u16(n).z(p.encode())
        elif k < .58:
            nf = r.randrange(2)
            v, e = do(lambda: os.stat(p, dir_fd=o, follow_symlinks=not nf))
            put(33, e, stat_check(v, seen) if v else None, "fstatat(%d, %r, %d)" % (s, p, nf)).u8(nf).z(p.encode())
        elif k < .74:
            u = next((q for q in range(8) if fds[q] is None), None)
            if u is None:
                return
            # wasmtime gives no write access below a directory descriptor, except to files being created
            acc = r.choice(["RDONLY", "RDONLY", "RDWR"])
            fl = ["CREAT"] if acc != "RDONLY" else []
            kd = rkind(o, p)
            if kd == "d":
                acc, fl = "RDONLY", ["DIRECTORY"]
            flags = {"RDONLY": os.O_RDONLY, "WRONLY": os.O_WRONLY, "RDWR": os.O_RDWR}[acc]
            for x in fl:
                flags |= getattr(os, "O_" + x)
            if kd == "l" and "CREAT" in fl:
                return
            v, e = do(lambda: os.open(p, flags, 0o644, dir_fd=o))
            put(34, e, "0", "openat(%d, %r, %s) as %d" % (s, p, "|".join([acc] + fl), u))
            w.u8(u).u32((O["RDONLY"] if acc != "WRONLY" else 0) | (O["WRONLY"] if acc != "RDONLY" else 0) | sum(O[x] for x in fl)).z(p.encode())
            if not e:
                if acc == "RDONLY":
                    fds[u] = (v, True, False, False, st_.S_ISDIR(os.fstat(v).st_mode))
                else:
                    os.close(v)
                    cmd(2, u, "0", "close(%d)" % u)
        elif k < .82:
            q = rel(o2)
            a, b = os.path.realpath("/proc/self/fd/%d" % o) + "/" + p, os.path.realpath("/proc/self/fd/%d" % o2) + "/" + q
            if a == b or b.startswith(a + "/") or a.startswith(b + "/"):
                return
            v, e = do(lambda: os.rename(p, q, src_dir_fd=o, dst_dir_fd=o2))
            put(35, e, "0", "renameat(%d, %r, %d, %r)" % (s, p, t, q)).u8(t).z(p.encode()).z(q.encode())
            seen[:] = [{}, {}]
        elif k < .94:
            how = r.choice([36, 36, 37, 38])
            p = r.choice([".", rel(o, "d")]) if how != 37 else "."
            f = os.open(p, os.O_RDONLY | os.O_DIRECTORY, dir_fd=o) if rkind(o, p) == "d" else None
            v, e = do(lambda: list(os.scandir(f)) if f is not None else os.open(p, os.O_RDONLY | os.O_DIRECTORY, dir_fd=o))
            if e is None and f is None:      # through a link
                os.close(v)
                return
            ents = sorted((rawname(x.name), 7 if x.is_symlink() else 3 if x.is_dir(follow_symlinks=False) else 4) for x in v) if v is not None else None
            if f is not None:
                os.close(f)
            if how == 38:
                x = r.randrange(3)
                put(38, e, scan_check(ents, x), "scandirat(%d, %r, %s)" % (s, p, ["alphasort", "filter", "reversed"][x])).u8(x).z(p.encode())
            else:
                n = r.choice([0, 1, 3, 50, 1000])
                c = stream_check(ents)
                if how == 37:
                    c0 = c
                    c = lambda g: c0(g[2:]) if g.startswith("1 ") else "dirfd is not the descriptor: " + g[:40]
                put(how, e, c, "%s(%d%s), %d entries, telldir.." % ("opendirat" if how == 36 else "fdopendir", s, ", %r" % p if how == 36 else "", n)).u16(n)
                if how == 36:
                    w.z(p.encode())
        else:
            off, ln = r.choice([-1, 0, 5, -2 ** 40]), r.choice([-1, 0, 7, 2 ** 33])
            bad = off < 0 or ln < 0
            cmd(39, s, "1c" if bad else (lambda g: None), "posix_fadvise(%d, %d, %d)" % (s, off, ln))
            w.u64(off).u64(ln).u8(r.randrange(6))

    def stream_check(ents):
        def chk(g):
            if not g.startswith("D"):
                return "expected a directory stream, got " + g[:60]
            parts = [x.split() for x in g[1:].split("|")]
            if len(parts) != 5:
                return "expected five lists, got " + g[:80]

            def pairs(l, k):
                return [(bytes.fromhex(l[i][1:]), int(l[i + 1], 16)) for i in range(0, len(l), k)]
            if any(x != "1" for x in parts[0][2::3]):
                return ("dino", "d_ino is not the st_ino of the entry: " + g[:200])
            a, b, c, d = pairs(parts[0], 3), pairs(parts[1], 2), pairs(parts[2], 2), pairs(parts[3], 2)
            dots = [(b".", 3), (b"..", 3)]
            for l, nm in ((a + b, "the entries"), (d, "the entries after rewinddir"), (a + c, "the entries after seekdir")):
                k = sorted(x for x in l if x not in dots)
                if k != ents:
                    miss = [x for x in ents if x not in k][:3]
                    extra = [x for x in k if x not in ents or k.count(x) > 1][:3]
                    return "%s are wrong: missing %r, extra or doubled %r of %d" % (nm, miss, extra, len(ents))
                if any(l.count(x) > 1 for x in dots):
                    return "%s list . or .. more than once" % nm
            if parts[4] != ["0"]:
                return "closedir failed"
        return chk

    def scan_check(ents, how):
        def chk2(g):
            if g.startswith("E"):
                return "expected entries, got an error"
            l = g.split()
            got = [(bytes.fromhex(l[i][1:]), int(l[i + 1], 16)) for i in range(1, len(l), 2)]
            want = [x for x in ents if how != 1 or len(x[0]) % 2]
            want.sort(key=lambda x: x[0], reverse=how == 2)
            if int(l[0], 16) != len(got):
                return "the count is wrong"
            got2 = [x for x in got if x[0] not in (b".", b"..")]
            if got2 != want or [x[0] for x in got] != sorted([x[0] for x in got], reverse=how == 2):
                return "expected %r, got %r" % (want[:5], got[:5])
        return chk2

    for step in range(r.choice([20, 60, 150])):
        if "" not in prefixes and r.random() < .05:
            # paths under no preopened directory
            p = r.choice(["nowhere", "/nowhere/a", "/", ".", "", "dat", "dataa", "/databas", "./datab/a", "..", "nowhere/../data", prefixes[0] + "x", prefixes[0][:-1] + "/a"])
            if any(p.lstrip("./") == q or p.lstrip("./").startswith(q + "/") for q in prefixes):
                continue
            n = r.randrange(18)
            q = gpath()
            cmd(41, 0, outside, "%s(%r) outside of all preopened directories" % (["open", "open", "stat", "lstat", "mkdir", "rmdir", "unlink", "remove", "rename", "rename", "link", "link", "symlink", "readlink", "access", "opendir", "scandir", "fopen"][n], p))
            w.u8(n).z(p.encode()).z(q.encode())
            continue
        if r.random() < .25:
            dirfds = [q for q in range(8) if fds[q] and fds[q][4]]
            s = next((q for q in (5, 6, 7) if fds[q] is None), None)
            if dirfds and (s is None or r.random() < .85):
                s = r.choice(dirfds)
                if r.random() < .05:
                    cmd(2, s, "0", "close(%d)" % s)
                    os.close(fds[s][0])
                    fds[s] = None
                else:
                    at_op(s, fds[s][0])
            elif s is not None:
                p = r.choice(prefixes) if r.random() < .6 else gold("d")
                if p == "":
                    p = r.choice(["/", "."])
                v, e = do(lambda: os.open(host.path(p) if p != "." else dirs[""], os.O_RDONLY | os.O_DIRECTORY))
                cmd(1, s, errcheck(e) if e else "0", "open(%r, DIRECTORY)" % p)
                w.u32(O["RDONLY"] | O["DIRECTORY"]).z(p.encode())
                if not e:
                    fds[s] = (v, True, False, False, True)
            continue
        z = r.random()
        s = r.randrange(r.choice([1, 3, 8]))
        fd = fds[s]
        if z < .3 and fd is None or z < .12:
            if fd is not None:
                cmd(2, s, "0", "close(%d)" % s)
                os.close(fd[0])
                fds[s] = None
            p = gold() if r.random() < .5 else gpath()
            acc = r.choice(["RDONLY", "WRONLY", "RDWR", "RDWR"])
            fl = [x for x in ["CREAT", "EXCL", "TRUNC", "APPEND"] if r.random() < (.6 if x == "CREAT" else .2)]
            if "EXCL" in fl and "CREAT" not in fl:
                fl.remove("EXCL")
            if "CREAT" in fl and acc == "RDONLY":
                acc = "RDWR"          # wasmtime opens created files for writing, too
            if "TRUNC" in fl and acc == "RDONLY":
                fl.remove("TRUNC")
            if not fl and acc == "RDONLY" and r.random() < .3:
                fl = ["DIRECTORY"]
            if exists_kind(p) == "l" and r.random() < .3:
                fl.append("NOFOLLOW")
            if "CREAT" in fl and exists_kind(p) == "d":
                continue
            hp = host.path(p)
            if (p.endswith("/") or hp.endswith("/.")) and "CREAT" in fl:
                continue
            flags = {"RDONLY": os.O_RDONLY, "WRONLY": os.O_WRONLY, "RDWR": os.O_RDWR}[acc]
            for x in fl:
                flags |= getattr(os, "O_" + x)
            v, e = do(lambda: os.open(hp, flags, 0o644))
            cmd(1, s, errcheck(e) if e else "0", "open(%r, %s)" % (p, "|".join([acc] + fl)))
            w.u32((O["RDONLY"] if acc != "WRONLY" else 0) | (O["WRONLY"] if acc != "RDONLY" else 0) | sum(O[x] for x in fl)).z(p.encode())
            if not e:
                fds[s] = (v, acc != "WRONLY", acc != "RDONLY", "APPEND" in fl, st_.S_ISDIR(os.fstat(v).st_mode))
        elif z < .5 and fd is not None:
            o, cr, cw, app, isdir = fd
            if isdir:
                if r.random() < .8:
                    at_op(s, o)
                elif r.random() < .5:
                    cmd(9, s, stat_check(os.fstat(o), seen), "fstat(%d)" % s)
                else:
                    cmd(2, s, "0", "close(%d)" % s)
                    os.close(o)
                    fds[s] = None
                continue
            k = r.random()
            n = r.choice([0, 1, 5, 100, 4096, 9000])
            size = os.fstat(o).st_size
            if size > 200000:
                k = .99
            if k < .25:
                v, e = do(lambda: os.read(o, n))
                if n == 0 and not cr:
                    continue
                cmd(3, s, errcheck(e) if e else "%x %x 0" % (len(v), fnv(v)), "read(%d, %d)" % (s, n))
                w.u16(n)
                if not e and v.endswith(b"Z"):
                    exp[-1] = (lambda g, a=exp[-1]: None if g.split()[:2] == a.split()[:2] else "expected %s, got %s" % (a, g))
            elif k < .5:
                b = r.randbytes(n).replace(b"Z", b"z")
                if n == 0 and not cw:
                    continue
                v, e = do(lambda: os.write(o, b))
                cmd(4, s, errcheck(e) if e else h(v), "write(%d, %d)" % (s, n))
                w.u16(n)
                w.b += b
                if app and not e:
                    # wasmtime does not move the position of an appending descriptor to the end
                    q = r.choice([0, size, size // 2])
                    cmd(7, s, h64(os.lseek(o, q, 0)), "lseek(%d, %d, 0)" % (s, q))
                    w.u64(q).u8(0)
            elif k < .6:
                off = r.choice([0, 1, size, max(0, size - 10), size + 5, -1, r.randint(0, size + 1)])
                if n == 0:
                    n = 3
                v, e = do(lambda: os.pread(o, n, off))
                cmd(5, s, errcheck(e) if e else "%x %x 0" % (len(v), fnv(v)), "pread(%d, %d, %d)" % (s, n, off))
                w.u16(n).u64(off)
            elif k < .68 and not app:
                off = r.choice([0, 1, size, size + 500, -1, r.randint(0, size + 1)])
                if n == 0:
                    n = 3
                b = r.randbytes(n).replace(b"Z", b"z")
                v, e = do(lambda: os.pwrite(o, b, off))
                cmd(6, s, errcheck(e) if e else h(v), "pwrite(%d, %d, %d)" % (s, n, off))
                w.u16(n)
                w.b += b
                w.u64(off)
            elif k < .8:
                wh = r.randrange(3)
                off = r.choice([0, 0, 1, -1, -5, 100, size, -size, size + 1000, r.randint(-size - 2, size + 2)])
                v, e = do(lambda: os.lseek(o, off, wh))
                cmd(7, s, errcheck(e) if e else h64(v), "lseek(%d, %d, %d)" % (s, off, wh))
                w.u64(off).u8(wh)
            elif k < .86:
                n = r.choice([0, 1, size, size // 2, size + 100, -1])
                v, e = do(lambda: os.ftruncate(o, n))
                if e and e == "EBADF":
                    e = "EINVAL"
                    cmd(8, s, lambda g: None if g.startswith("E") else "ftruncate on a descriptor not open for writing succeeded", "ftruncate(%d, %d)" % (s, n))
                elif e == "EINVAL" and not cw:
                    cmd(8, s, lambda g: None if g.startswith("E") else "ftruncate succeeded", "ftruncate(%d, %d)" % (s, n))
                else:
                    cmd(8, s, errcheck(e) if e else "0", "ftruncate(%d, %d)" % (s, n))
                w.u64(n)
            elif k < .92:
                cmd(9, s, stat_check(os.fstat(o), seen), "fstat(%d)" % s)
            elif k < .95:
                cmd(23, s, "%d %d" % (cr + 2 * cw, app), "fcntl(%d, F_GETFL)" % s)
            elif k < .97:
                cmd(24, s, "0 0 0" if cw else (lambda g: None if g.split()[0] == "0" else "isatty is true for a file"), "isatty, fsync, fdatasync(%d)" % s)
            else:
                cmd(2, s, "0", "close(%d)" % s)
                os.close(o)
                fds[s] = None
        elif z < .6:
            p = gold()
            k = r.random()
            f = os.stat if k < .5 else os.lstat
            v, e = do(lambda: f(host.path(p)))
            cmd(10 if k < .5 else 11, 0, errcheck(e) if e else stat_check(v, seen), "%s(%r)" % ("stat" if k < .5 else "lstat", p))
            w.z(p.encode())
        elif z < .67:
            p = gpath()
            if exists_kind(p) == "l" or host.path(p).endswith("/."):
                continue
            simple(12, "mkdir", [p], lambda: os.mkdir(host.path(p), 0o700))
        elif z < .75:
            k = r.random()
            p = gold("d") if k < .3 else gold("f" if k < .5 else None)
            if host.path(p).endswith("/."):
                continue
            if k < .3:
                f, c, nm = os.rmdir, 13, "rmdir"
            elif k < .65:
                f, c, nm = os.unlink, 14, "unlink"
            else:
                def f(q):
                    try:
                        os.unlink(q)
                    except OSError as x:
                        if x.errno not in (errno.EISDIR, errno.EPERM):
                            raise
                        os.rmdir(q)
                c, nm = 15, "remove"
            simple(c, nm, [p], lambda: f(host.path(p)))
        elif z < .83:
            p, q = gold(), gold() if r.random() < .3 else gpath()
            a, b = host.path(p), host.path(q)
            if a.endswith("/.") or b.endswith("/.") or a == b or b.startswith(a + "/") or a.startswith(b + "/"):
                continue
            k = r.random()
            if k < .6:
                simple(16, "rename", [p, q], lambda: os.rename(a, b))
            elif exists_kind(p) != "l":
                simple(17, "link", [p, q], lambda: os.link(a, b, follow_symlinks=False))
        elif z < .87:
            p = gpath()
            if host.path(p).endswith("/."):
                continue
            t = r.choice(NAMES[:6] + ["dd/a", "nowhere"])
            simple(18, "symlink", [t, p], lambda: os.symlink(t, host.path(p)))
        elif z < .9:
            p = gold("l")
            n = r.choice([1, 3, 100, 300])
            v, e = do(lambda: os.readlink(os.fsencode(host.path(p))))
            cmd(19, 0, errcheck(e) if e else "%x %s 0" % (min(n, len(v)), v[:n].hex()), "readlink(%r, %d)" % (p, n))
            w.u16(n).z(p.encode())
        elif z < .92:
            p = gold()
            m = r.choice([0, 2, 4, 6])
            v, e = do(lambda: os.stat(host.path(p)))
            cmd(20, 0, errcheck(e) if e else "0", "access(%r, %d)" % (p, m))
            w.u8(m).z(p.encode())
        elif z < .985:
            p = gold("d") if r.random() < .7 else r.choice(["/", "."] if "" in prefixes else prefixes)
            hp = host.path(p) if p != "." else dirs[""]
            v, e = do(lambda: list(os.scandir(hp)))
            ents = sorted((rawname(x.name), 7 if x.is_symlink() else 3 if x.is_dir(follow_symlinks=False) else 4) for x in v) if v is not None else None
            if r.random() < .6:
                n = r.choice([0, 1, 3, 50, 1000])
                cmd(21, 0, errcheck(e) if e else stream_check(ents), "opendir(%r), %d entries, telldir.." % (p, n))
                w.u16(n).z(p.encode())
            else:
                how = r.randrange(3)
                cmd(22, 0, errcheck(e) if e else scan_check(ents, how), "scandir(%r, %s)" % (p, ["alphasort", "filter", "reversed"][how]))
                w.u8(how).z(p.encode())
        elif z < .99:
            n = r.choice([77, 1000, -1])
            def allbad(g):
                f = g.split()
                return None if f == ["E8"] * 3 else "expected EBADF from read, close and fstat of a descriptor that is not open, got " + g
            cmd(26, 0, allbad, "read, close, fstat(%d)" % n)
            w.u32(n)
        else:
            p = gold("d")
            hp = host.path(p)
            if exists_kind(p) != "d" or hp.endswith("/.") or os.path.islink(hp) or not os.path.isdir(hp):
                continue
            n = r.choice([10, 60, 120])
            cmd(25, 0, h(n), "make %d files in %r" % (n, p))
            w.u16(n).z(p.encode())
            for i in range(n):
                nm = hp + "/" + "%0*d" % (1 + (i * 7) % 200, i)
                os.close(os.open(nm, os.O_CREAT | os.O_WRONLY, 0o644))
    for s in range(8):
        if fds[s]:
            os.close(fds[s][0])
    return w, exp, desc


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            k = os.path.relpath(p, root)
            s = os.lstat(p)
            if st_.S_ISLNK(s.st_mode):
                out[k] = ("link", os.readlink(p))
            elif st_.S_ISDIR(s.st_mode):
                out[k] = ("dir",)
            else:
                out[k] = ("file", s.st_nlink, hashlib.sha1(open(p, "rb").read()).hexdigest())
    return out


LAYOUTS = [[""], [""], ["", "data"], ["", "data", "data/sub"], ["data", "database"], ["", "dat", "data"], ["data", "dd", "a", "b", "c", "sub"],
           ["", "a", "data", "data/sub", "data/sub/a", "dd", "dd/a", "dd/b", "b"]]


def c25(ctx):
    ctx.tree.build()
    mod = build(ctx, "fsdrv", SRC)
    ctx.cov["rule"] = ("random histories of open/read/write/pread/pwrite/lseek/ftruncate/close/fcntl, stat/lstat/fstat, mkdir/rmdir/unlink/remove/rename/link/symlink/readlink/access and opendir/readdir/telldir/seekdir/rewinddir/scandir "
                       "over trees reached through one to three preopened directories; the same operations are done by Python on a mirror tree: every result and error, and the whole tree afterwards, must agree. evaluations = operations checked")

    def job(i):
        r = ctx.rng("fs", i)
        tot = {"evals": 0, "failures": [], "keys": [], "counts": {}}
        for j in range(5):
            base = tempfile.mkdtemp(prefix="fs", dir=ctx.scratch)
            lay = r.choice(LAYOUTS)
            real = {p: base + "/r%d" % q for q, p in enumerate(lay)}
            mir = {p: base + "/m%d" % q for q, p in enumerate(lay)}
            for d in list(real.values()) + list(mir.values()):
                os.mkdir(d)
            w, exp, desc = history(r, mir, base, tot["counts"])
            pre = [(real[p], ("." if r.random() < .5 else "/") if p == "" else r.choice([p, "/" + p])) for p in lay]
            r.shuffle(pre)
            x = session(ctx, mod, w, exp, "fs", lambda q: "%s [preopened %s]; before: %s" % (desc[q], [g for _, g in pre], "; ".join(desc[max(0, q - 25):q])), "fsdrv", SRC, preopen=pre)
            if not x["failures"]:
                for p in lay:
                    a, b = tree(real[p]), tree(mir[p])
                    if a != b:
                        k = next(k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))
                        x["failures"].append(Failure("fs:tree", "afterwards %r is %r, expected %r; operations: %s" % (k, a.get(k), b.get(k), "; ".join(desc[-30:])), {"fsdrv.c": SRC, "stdin.bin": bytes(w.b)}))
                        break
            tot["evals"] += x["evals"]
            tot["failures"] += x["failures"]
            tot["keys"] += x.get("keys", [])
            if i == 0 and j == 0:
                tot["samples"] = [{"preopened": [g for _, g in pre], "operations": desc[:30]}]
            shutil.rmtree(base, ignore_errors=True)
            if tot["failures"]:
                break
        return tot
    ctx.pmap(job, range(ctx.n(250, 5000)))


CHECKS = {"C25": c25}
