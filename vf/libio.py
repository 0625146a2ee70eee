"""C22: histories of operations on streams against a model of C's stream semantics."""
import os, shutil, tempfile
from .drv import *

NS, NF = 20, 4
SRC = HEAD + GZ + r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <errno.h>
static FILE *fs_[20]; static char vb_[20000]; static fpos_t pos_[20]; static unsigned char rb_[70000];
static char nm_[8]; 
static char *name_(int i) { nm_[0] = '/'; nm_[1] = 'f'; nm_[2] = (char)(48 + i); nm_[3] = 0; return &nm_[0]; }
static void dump_(int i) { int fd = open(name_(i), O_RDONLY), k, n = 0; unsigned h = 2166136261u; 
  if (fd < 0) { oi_(-1); oi_(0); return; } 
  while (1) { int j; k = (int)read(fd, &rb_[0], (size_t)65536); if (k <= 0) break; n = n + k; for (j = 0; j < k; ++j) { h = h ^ rb_[j]; h = h * 16777619u; } } 
  close(fd); oi_(n); oi_((int)h); return; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), s = g8_(), n, m, i; char *p; unsigned char *q; FILE *fp = fs_[s];
    switch (k) {
      case 1: { n = g8_(); p = gz_(); fp = fopen(name_(n), p); oi_(fp != NULL); fs_[s] = fp; } break;
      case 2: { oi_(fclose(fp)); fs_[s] = NULL; } break;
      case 3: { size_t r; n = (int)g16_(); m = (int)g16_(); memset(&rb_[0], 90, (size_t)70000); r = fread(&rb_[0], (size_t)n, (size_t)m, fp); 
        oi_((int)r); i = n * m; while (i > 0 && rb_[i - 1] == 90) --i; oi_((int)fnv_(&rb_[0], n * m)); if (i < 24) ob_(&rb_[0], i); for (i = n * m; i < 70000; ++i) if (rb_[i] != 90) break; oi_(70000 - i); } break;
      case 4: { n = (int)g16_(); m = (int)g16_(); q = gb_(n * m); oi_((int)fwrite(q, (size_t)n, (size_t)m, fp)); } break;
      case 5: oi_(fgetc(fp)); break;
      case 6: oi_(getc(fp)); break;
      case 7: oi_(fputc((int)g32_(), fp)); break;
      case 8: { n = (int)g32_(); oi_(putc(n, fp)); } break;
      case 9: { n = (int)g16_(); memset(&rb_[0], 90, (size_t)70000); p = fgets((char *)&rb_[0], n, fp); if (p == NULL) oi_(-1); else oi_((int)(p - (char *)&rb_[0])); 
        if (p != NULL) { i = (int)strlen(p); oi_(i); oi_((int)fnv_(p, i)); for (i = i + 1; i < 70000; ++i) if (rb_[i] != 90) break; oi_(70000 - i); } } break;
      case 10: { p = gz_(); oi_(fputs(p, fp) >= 0); } break;
      case 11: { oi_(ungetc((int)g32_(), fp)); } break;
      case 12: { n = (int)g32_(); m = g8_(); oi_(fseek(fp, (long)n, m == 0 ? SEEK_SET : m == 1 ? SEEK_CUR : SEEK_END) != 0); } break;
      case 13: oi_((int)ftell(fp)); break;
      case 14: rewind(fp); break;
      case 15: oi_(fgetpos(fp, &pos_[s]) != 0); break;
      case 16: oi_(fsetpos(fp, &pos_[s]) != 0); break;
      case 17: { if (g8_() == 0) oi_(fflush(fp)); else oi_(fflush(NULL)); } break;
      case 18: { n = g8_(); m = g8_(); i = (int)g16_(); oi_(setvbuf(fp, m != 0 ? &vb_[s * 1000] : NULL, n == 0 ? _IOFBF : n == 1 ? _IOLBF : n == 2 ? _IONBF : 12345, (size_t)i) != 0); } break;
      case 19: { oi_(feof(fp) != 0); oi_(ferror(fp) != 0); } break;
      case 20: clearerr(fp); break;
      case 21: { oi_(remove(name_(s)) != 0); } break;
      case 22: { char b[8]; n = g8_(); b[0] = '/'; b[1] = 'f'; b[2] = (char)(48 + s); b[3] = 0; oi_(rename(&b[0], name_(n)) != 0); } break;
      case 23: { n = g8_(); p = gz_(); fp = freopen(name_(n), p, fp); oi_(fp != NULL); fs_[s] = fp; } break;
      case 24: dump_(s); break;
      case 25: { p = gz_(); n = (int)g32_(); oi_(fprintf(fp, "<%s:%d>", p, n)); } break;
      case 26: { n = g8_(); flush_(); if (n == 0) exit(7); return 7; } break;
      case 27: { n = -7; m = fscanf(fp, "%d", &n); oi_(m); oi_(n); } break;
      case 28: { int fd; n = g8_(); m = g8_(); i = (int)g32_(); p = gz_(); fp = NULL; 
        fd = open(name_(n), m == 0 ? O_RDONLY : m == 1 ? O_WRONLY|O_CREAT|O_TRUNC : m == 2 ? O_RDWR : m == 3 ? O_WRONLY : m == 4 ? O_RDWR|O_CREAT|O_TRUNC : O_WRONLY|O_CREAT|O_APPEND); oi_(fd >= 0); 
        if (fd >= 0) { if (i > 0) lseek(fd, (off_t)i, SEEK_SET); fp = fdopen(fd, p); oi_(fp != NULL); if (fp != NULL) oi_(fileno(fp) == fd); else close(fd); } fs_[s] = fp; } break;
      case 29: { char b[4]; n = g8_(); b[0] = 88; b[1] = 89; b[2] = 0; b[3] = 0; /* not allowed by the mode */
        switch (n) { case 0: oi_(fputc(88, fp)); break; case 1: oi_((int)fwrite(&b[0], (size_t)1, (size_t)2, fp)); break; case 2: oi_(fputs(&b[0], fp)); break; case 3: oi_(putc(88, fp)); break;
          case 4: oi_(fgetc(fp)); break; case 5: oi_((int)fread(&b[0], (size_t)1, (size_t)2, fp)); break; case 6: oi_(fgets(&b[0], 3, fp) != NULL); break; default: oi_(getc(fp)); break; } } break;
      default: oc_(63);
    }
    nl_();
  }
  flush_(); return 7;
}
'''


class Stream:
    def __init__(self, f, mode):
        self.f = f
        b = mode.replace("b", "").replace("x", "")
        self.r = b[0] == "r" or "+" in b
        self.w = b[0] != "r" or "+" in b
        self.app = b[0] == "a"
        self.pos = 0
        self.pos_known = True
        self.eof = self.err = False
        self.last = None          # 'r' / 'w': what the last input/output operation was
        self.hit = False          # the last read met end of file
        self.back = None          # pushed back character
        self.lbf = self.nbf = False
        self.touched = False
        self.dirty = False        # output may be sitting in the buffer
        self.saved = None


class Model:
    def __init__(self):
        self.files = {}
        self.s = [None] * NS

    def data(self, st):
        return self.files[st.f]

    def read(self, st, n):
        """next n characters"""
        st.touched = True
        out = b""
        if n and st.back is not None:
            out = bytes([st.back])
            st.back = None
            st.pos += 1
        d = self.data(st)
        k = n - len(out)
        got = bytes(d[st.pos:st.pos + k]) if k > 0 else b""
        st.pos += len(got)
        out += got
        st.last = "r"
        st.hit = n > 0 and len(got) < k
        if st.hit:
            st.eof = True
        return out

    def write(self, st, b):
        st.touched = True
        d = self.data(st)
        if st.app and b:
            st.pos = len(d)
            st.pos_known = True
        elif st.app:
            st.pos_known = False         # an empty write may or may not move to the end
        if b and st.pos > len(d):
            d += b"\0" * (st.pos - len(d))
        d[st.pos:st.pos + len(b)] = b
        st.pos += len(b)
        st.last = "w"
        st.dirty = True
        st.eof_unknown = True        # whether output clears the end-of-file indicator is not said

    def seek(self, st, p):
        st.pos = p
        st.back = None
        st.eof_unknown = False
        st.eof = False
        st.last = None
        st.dirty = False


MODES = ["r", "w", "a", "r+", "w+", "a+", "rb", "wb", "r+b", "rb+", "w+b", "ab", "wx", "w+x", "wbx"]


def payload(r, n):
    k = r.random()
    if k < .3:
        return r.randbytes(n)
    if k < .6:
        return bytes(r.choice(b"ab\n") for _ in range(n))
    if k < .8:
        ln = r.choice([3, 60, 1000, 1031])
        return bytes(10 if i % ln == ln - 1 else 97 + i % 26 for i in range(n))
    return bytes([r.randrange(256)]) * n


SIZES = [0, 1, 2, 7, 8, 9, 100, 1000, 1023, 1024, 1025, 1031, 1032, 1033, 2048, 2064, 5000]


def history(r, cnt):
    """generate one session: command stream, expected lines, descriptions, final file contents"""
    w, exp, desc = W(), [], []
    m = Model()
    big = r.random() < .15

    def cmd(k, s, line, d):
        w.u8(k, s)
        exp.append(line)
        desc.append((s if k not in (21, 22, 24) else None, d))
        cnt[d.split("(")[0]] = cnt.get(d.split("(")[0], 0) + 1

    def h(v):
        return "%x" % (v & 0xffffffff)

    def inuse(f):
        return [st for st in m.s if st and st.f == f]

    def size():
        return r.choice(SIZES) if r.random() < .5 else r.randint(0, 30)

    nslots = r.choice([1, 1, 2, 3, 5])
    for step in range(r.choice([15, 40, 120])):
        s = r.randrange(nslots)
        st = m.s[s]
        if st is None:
            z = r.random()
            if z < .12:
                f = r.randrange(NF)
                if inuse(f):
                    continue
                if r.random() < .4:
                    cmd(21, f, h(0 if f in m.files else 1), "remove(f%d)" % f)
                    m.files.pop(f, None)
                else:
                    g = r.randrange(NF)
                    if inuse(g) or g == f:
                        continue
                    cmd(22, f, h(0 if f in m.files else 1), "rename(f%d, f%d)" % (f, g))
                    w.u8(g)
                    if f in m.files:
                        m.files[g] = m.files.pop(f)
                continue
            if z < .25:
                f = r.randrange(NF)
                if inuse(f):
                    continue
                flags, mode = r.choice([(0, "r"), (0, "rb"), (1, "w"), (2, "r+"), (2, "r+b"), (3, "w"), (3, "a"), (4, "w+"), (0, "q"), (2, "w+"), (2, "rb+")])
                n = len(m.files.get(f, b"")) if flags not in (1, 4) else 0
                off = r.choice([0, 0, 0, n, n // 2, r.randint(0, n)]) if mode[0] != "a" else 0
                made = f in m.files or flags in (1, 4, 5)
                cmd(28, s, "1 %s" % ("1 1" if mode != "q" else "0") if made else "0", "fdopen(open(f%d, %s) at %d, %r)" % (f, ["O_RDONLY", "O_WRONLY|O_CREAT|O_TRUNC", "O_RDWR", "O_WRONLY", "O_RDWR|O_CREAT|O_TRUNC", "O_WRONLY|O_CREAT|O_APPEND"][flags], off, mode))
                w.u8(f, flags).u32(off).z(mode.encode())
                if flags in (1, 4):
                    m.files[f] = bytearray()
                if made:
                    m.files.setdefault(f, bytearray())
                if made and mode != "q":
                    st = m.s[s] = Stream(f, mode)
                    st.r, st.w, st.app = flags in (0, 2, 4), flags > 0, flags == 5
                    st.pos = off
                    if mode == "a":
                        st.pos = len(m.files[f])
                        st.noseek = True
                continue
            f = r.randrange(NF)
            mode = r.choice(MODES)
            if any(x.w for x in inuse(f)) or (inuse(f) and mode[0] != "r" or inuse(f) and "+" in mode):
                continue
            ok = not ((mode[0] == "r" and f not in m.files) or ("x" in mode and f in m.files))
            cmd(1, s, h(ok), "fopen(f%d, %r)" % (f, mode))
            w.u8(f).z(mode.encode())
            if ok:
                if mode[0] == "w" or f not in m.files:
                    m.files[f] = bytearray()
                st = m.s[s] = Stream(f, mode)
                if st.app:
                    st.pos_known = False      # where reading starts after opening with "a+" is for the implementation; it has to seek
                if r.random() < .4:
                    bm = r.choice([0, 1, 2, 3])
                    own = r.random() < .4
                    sz = r.choice([0, 1, 8, 9, 16, 17, 100, 1000])
                    if own and sz == 0:
                        sz = 1000
                    cmd(18, s, h(bm == 3), "setvbuf(%d, %s, %d)" % (s, ["full", "line", "none", "invalid"][bm], sz))
                    w.u8(bm, own).u16(sz)
                    st.lbf, st.nbf = bm == 1, bm == 2
            continue
        if not st.touched and not (st.r and st.w) and r.random() < .15:
            k = r.randrange(4) + (0 if st.r else 4)
            cmd(29, s, h([-1, 0, -1, -1, -1, 0, 0, -1][k]), "%s on a stream opened only for %s(%d)" % (["fputc", "fwrite", "fputs", "putc", "fgetc", "fread", "fgets", "getc"][k], "reading" if st.r else "writing", s))
            w.u8(k)
            if k not in (1, 5, 6):
                st.bad = True
            continue
        z = r.random()
        canr = st.r and st.last != "w" and st.pos_known
        canw = st.w and (st.last != "r" or st.hit) and st.back is None
        if z < .28 and canr:
            k = r.random()
            if k < .3:
                c = m.read(st, 1)
                cmd(r.choice([5, 6]), s, h(c[0] if c else -1), "getc(%d)" % s)
            elif k < .65:
                a = r.choice([1, 1, 1, 2, 3, 7, 100])
                n = size()
                if a * n > 8000:
                    n = 8000 // a
                b = m.read(st, a * n)
                full = b + b"Z" * (a * n - len(b))
                i = len(full)
                while i > 0 and full[i - 1] == 90:
                    i -= 1

                cmd(3, s, "%x %x%s 0" % (len(b) // a, fnv(full), (" " + full[:i].hex() if i < 24 else "")), "fread(%d, %d, %d)" % (s, a, n))
                # an empty hex field leaves two blanks: compare by fields
                e = exp[-1].split()
                exp[-1] = (lambda g, e=e: None if g.split() == e else "expected %s, got %s" % (e, g))
                w.u16(a, n)
            elif k < .92:
                n = max(1, size())
                if n == 1:
                    m.read(st, 0)
                    cmd(9, s, "0 0 %x %x" % (fnv(b""), 0), "fgets(%d, 1)" % s)
                    w.u16(1)
                    continue
                d = bytes(([st.back] if st.back is not None else [])) + bytes(m.data(st)[st.pos + (st.back is not None):st.pos + n + 1])
                j = d.find(b"\n")
                t = (d if j < 0 else d[:j + 1])[:n - 1]
                # reaching the end of file has to be tried for only if no newline and the size allows
                b = m.read(st, len(t))
                if len(t) < n - 1 and not t.endswith(b"\n"):
                    m.read(st, 1)
                else:
                    st.hit = False
                w0 = "0 %x %x 0" % (len(b), fnv(b)) if t else "ffffffff"
                if b"\0" in b:
                    z0 = b.index(b"\0")
                    rest = b[z0 + 1:] + b"\0"
                    # strlen stops early: the rest of the buffer is not blank
                    w0 = "0 %x %x %x" % (z0, fnv(b[:z0]), 70000 - (z0 + 1) - next((q for q in range(len(rest)) if rest[q] != 90), len(rest)))
                    if all(c == 90 for c in rest):
                        w0 = "0 %x %x 0" % (z0, fnv(b[:z0]))
                cmd(9, s, w0, "fgets(%d, %d)" % (s, n))
                w.u16(n)
            else:
                # fscanf("%d"): consumes white space and an integer; only judged on what model.read says
                d = bytes(([st.back] if st.back is not None else [])) + bytes(m.data(st)[st.pos + (st.back is not None):])
                i = 0
                while i < len(d) and d[i] in b" \t\n\v\f\r":
                    i += 1
                j = i
                if j < len(d) and d[j] in b"+-":
                    j += 1
                q = j
                while q < len(d) and 48 <= d[q] <= 57:
                    q += 1
                if q - j > 9 or (q == j and i < len(d)):
                    continue
                m.read(st, q)
                if q == len(d):
                    m.read(st, 1)
                else:
                    st.hit = False
                cmd(27, s, "%s %s" % ((h(1), h(int(d[i:q]))) if q > j else (h(-1), h(-7))), "fscanf(%d, %%d)" % s)
                if st.back is None and not st.hit:
                    # the character after the number was looked at and pushed back: no further push-back is guaranteed
                    st.back_used = True
                    continue
            st.back_used = False
        elif z < .5 and canw:
            k = r.random()
            if k < .3:
                c = r.choice([10, 97, 0, 255, 254, r.randrange(256), -1, -2, 256 + 65, 0x1ff])
                m.write(st, bytes([c & 255]))
                cmd(r.choice([7, 8]), s, h(c & 255), "putc(%d, %d)" % (c, s))
                w.u32(c)
            elif k < .7:
                a = r.choice([1, 1, 1, 2, 3, 7, 100])
                n = size()
                if a * n > 8000:
                    n = 8000 // a
                b = payload(r, a * n)
                m.write(st, b)
                cmd(4, s, h(n if a * n else 0), "fwrite(%d, %d, %d)" % (s, a, n))
                w.u16(a, n)
                w.b += b
            elif k < .9:
                b = payload(r, size()).replace(b"\0", b"n")
                m.write(st, b)
                cmd(10, s, "1", "fputs(%d bytes, %d)" % (len(b), s))
                w.z(b)
            else:
                b = payload(r, r.choice([0, 1, 5, 1020])).replace(b"\0", b"n")
                v = r.randint(-99999, 99999)
                o = b"<%s:%d>" % (b, v)
                m.write(st, o)
                cmd(25, s, h(len(o)), "fprintf(%d, %d bytes)" % (s, len(o)))
                w.z(b).u32(v)
        elif z < .56 and canr and st.back is None and not getattr(st, "back_used", False) and (st.pos > 0 or r.random() < .2):
            c = r.choice([r.randrange(256), 0, 255, m.data(st)[st.pos - 1] if 0 < st.pos <= len(m.data(st)) else 5])
            st.back = c
            st.pos -= 1
            st.eof = False
            st.last = "r"
            st.hit = False
            st.touched = True
            cmd(11, s, h(c), "ungetc(%d, %d)" % (c, s))
            w.u32(c)
        elif z < .57 and canr:
            cmd(11, s, h(-1), "ungetc(EOF, %d)" % s)
            w.u32(-1)
        elif z < .7:
            if getattr(st, "noseek", False):
                continue
            n = len(m.data(st))
            wh = r.randrange(3)
            if not st.pos_known and wh == 1:
                wh = 0
            if st.pos < 0 and wh == 1:
                continue
            t = r.choice([0, n, n - 1, n // 2, st.pos, st.pos - 1, st.pos + 1, 1024, 1032, st.pos - 1024, r.randint(0, max(1, n)), n + 5 if st.w else n, -1, -5])
            if t > n and not st.w:
                t = n
            off = t - [0, st.pos, n][wh]
            bad = t < 0
            cmd(12, s, h(bad), "fseek(%d, %d, %s)" % (s, off, ["SET", "CUR", "END"][wh]))
            w.u32(off).u8(wh)
            st.touched = True
            if not bad:
                m.seek(st, t)
                st.pos_known = True
                st.back_used = False
            else:
                if st.back is not None:
                    st.pos_known = False          # whether a failed seek drops the character is not said
                    st.back = None
                    st.eof_unknown = True
        elif z < .78:
            if not st.pos_known or st.pos < 0:
                continue
            cmd(13, s, h(st.pos), "ftell(%d)" % s)
        elif z < .8:
            if getattr(st, "noseek", False):
                continue
            cmd(14, s, "", "rewind(%d)" % s)
            m.seek(st, 0)
            st.err = False
            st.pos_known = True
            st.back_used = False
            st.touched = True
        elif z < .85:
            if st.pos_known and st.pos >= 0 and r.random() < .5:
                cmd(15, s, "0", "fgetpos(%d)" % s)
                st.saved = st.pos
            elif st.saved is not None and (st.saved <= len(m.data(st)) or st.w):
                cmd(16, s, "0", "fsetpos(%d)" % s)
                m.seek(st, st.saved)
                st.pos_known = True
                st.back_used = False
            st.touched = True
        elif z < .9:
            if not st.w or st.last == "r" or st.back is not None:
                continue                  # C leaves flushing an input stream undefined
            allst = r.random() < .2 and all(x is None or (x.w and x.last != "r" and x.back is None) for x in m.s)
            cmd(17, s, "0", "fflush(%s)" % ("NULL" if allst else s))
            w.u8(allst)
            st.last = None
            for x in m.s:
                if x and (x is st or allst):
                    x.dirty = False
                    x.last = None
            if r.random() < .6:
                cmd(24, st.f, "%x %x" % (len(m.data(st)), fnv(m.data(st))), "the contents of f%d after fflush(%s)" % (st.f, "NULL" if allst else s))
        elif z < .94:
            cmd(19, s, "%d %d" % (st.eof, st.err), "feof, ferror(%d)" % s)
            if st.last == "w" or getattr(st, "eof_unknown", False) or not st.pos_known:
                exp[-1] = lambda g: None if g.split()[1] == "0" else ("ferror", "ferror without an error")
        elif z < .95:
            cmd(20, s, "", "clearerr(%d)" % s)
            st.eof = st.err = st.eof_unknown = False
        elif z < .98:
            cmd(2, s, "0", "fclose(%d)" % s)
            m.s[s] = None
            d = m.files[st.f]
            cmd(24, st.f, "%x %x" % (len(d), fnv(d)), "the contents of f%d after fclose" % st.f)
        else:
            f = r.randrange(NF)
            mode = r.choice(MODES[:12])
            if any(x is not st for x in inuse(f)):
                continue
            ok = not (mode[0] == "r" and f not in m.files)
            cmd(23, s, h(ok), "freopen(f%d, %r, %d)" % (f, mode, s))
            w.u8(f).z(mode.encode())
            m.s[s] = None
            if ok:
                if mode[0] == "w" or f not in m.files:
                    m.files[f] = bytearray()
                m.s[s] = Stream(f, mode)
                m.s[s].pos_known = not m.s[s].app
    k = r.randrange(3)
    if k < 2:
        w.u8(26, 0, k)
    return w, exp, desc, m.files


# ---- the standard streams ----
CON = (HEAD + GZ).replace("int k = (int)read(0,", "int k = (int)read(cmdfd_,").replace("int k = (int)write(1,", "int k = (int)write(logfd_,").replace("#define IN_MAX", "static int cmdfd_, logfd_;\n#define IN_MAX", 1) + r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
static char vb_[3000]; static unsigned char rb_[6000]; static char tb_[300];
static int vp_(const char *f, ...) { va_list a; int r; va_start(a, f); r = vprintf(f, a); va_end(a); return r; }
static int ve_(const char *f, ...) { va_list a; int r; va_start(a, f); r = vfprintf(stderr, f, a); va_end(a); return r; }
static int vs_(const char *f, ...) { va_list a; int r; va_start(a, f); r = vscanf(f, a); va_end(a); return r; }
static int vf_(const char *f, ...) { va_list a; int r; va_start(a, f); r = vfscanf(stdin, f, a); va_end(a); return r; }
static int vb1_(const char *s, const char *f, ...) { va_list a; int r; va_start(a, f); r = vsscanf(s, f, a); va_end(a); return r; }
static int vb2_(const char *s, size_t n, const char *f, ...) { va_list a; int r; va_start(a, f); r = vsnscanf(s, n, f, a); va_end(a); return r; }
int main(void) {
  cmdfd_ = open("/cmd", O_RDONLY); logfd_ = open("/log", O_WRONLY|O_CREAT|O_TRUNC); if (cmdfd_ < 0 || logfd_ < 0) return 90;
  load_(); 
  while (more_()) {
    int k = g8_(), n, m, i; char *p; unsigned char *q;
    switch (k) {
      case 1: { p = gz_(); oi_(puts(p) >= 0); } break;
      case 2: oi_(putchar((int)g32_())); break;
      case 3: { p = gz_(); n = (int)g32_(); oi_(printf("%s|%d|\n", p, n)); } break;
      case 4: oi_(getchar()); break;
      case 5: { n = (int)g16_(); memset(&rb_[0], 90, (size_t)6000); p = fgets((char *)&rb_[0], n, stdin); if (p == NULL) oi_(-1); else os_(p); } break;
      case 6: { n = -7; m = scanf("%d", &n); oi_(m); oi_(n); } break;
      case 7: { memset(&tb_[0], 0, (size_t)300); m = scanf("%9s", &tb_[0]); oi_(m); os_(&tb_[0]); } break;
      case 8: oi_(ungetc((int)g32_(), stdin)); break;
      case 9: { n = (int)g16_(); m = (int)fread(&rb_[0], (size_t)1, (size_t)n, stdin); oi_(m); ob_(&rb_[0], m); } break;
      case 10: { p = gz_(); oi_(fputs(p, stderr) >= 0); } break;
      case 11: { n = g8_(); p = gz_(); m = g8_(); errno = n; if (m != 0) perror(NULL); else perror(p); os_(strerror(n)); } break;
      case 12: { p = gz_(); n = (int)g32_(); oi_(fprintf(stderr, "[%s/%d]", p, n)); } break;
      case 13: { n = g8_(); switch (n) { case 0: setbuf(stdout, NULL); break; case 1: setbuf(stdout, &vb_[0]); break; case 2: oi_(setvbuf(stdout, NULL, _IOLBF, (size_t)100)); break; case 3: oi_(setvbuf(stdout, &vb_[0], _IOFBF, (size_t)1500)); break;
                 case 4: setbuf(stdin, NULL); break; case 5: setbuf(stdin, &vb_[1500]); break; default: setbuf(stderr, NULL); break; } } break;
      case 14: { if (g8_() != 0) oi_(fflush(NULL)); else oi_(fflush(stdout)); } break;
      case 15: { p = gz_(); n = (int)g32_(); oi_(vp_("(%s,%d)", p, n)); } break;
      case 16: { p = gz_(); n = (int)g32_(); oi_(ve_("{%s,%d}", p, n)); } break;
      case 17: { n = -7; m = vs_("%d", &n); oi_(m); oi_(n); } break;
      case 18: { n = -7; m = vf_("%d", &n); oi_(m); oi_(n); } break;
      case 19: { n = -7; p = gz_(); memset(&tb_[0], 0, (size_t)300); m = vb1_(p, "%d,%9s", &n, &tb_[0]); oi_(m); oi_(n); os_(&tb_[0]); } break;
      case 20: { n = -7; p = gz_(); i = g8_(); memset(&tb_[0], 0, (size_t)300); m = vb2_(p, (size_t)i, "%d,%9s", &n, &tb_[0]); oi_(m); oi_(n); os_(&tb_[0]); } break;
      case 21: { oi_(feof(stdin) != 0); oi_(ferror(stdin) != 0); oi_(ferror(stdout) != 0); } break;
      case 22: { n = (int)g16_(); q = gb_(n); oi_((int)fwrite(q, (size_t)1, (size_t)n, stdout)); } break;
      case 23: { p = gz_(); oi_(fflush(stdout)); oi_((int)write(1, p, strlen(p))); } break;
      case 24: { FILE *fp; p = gz_(); fp = freopen("/o", p, stdout); oi_(fp == stdout); } break;
      case 25: { FILE *fp = freopen("/i", "r", stdin); oi_(fp == stdin); } break;
      case 26: { n = g8_(); flush_(); if (n == 0) exit(5); else if (n == 1) return 5; else { oi_(fclose(stdout)); flush_(); return 5; } } break;
      case 27: clearerr(stdin); break;
      case 28: { p = gz_(); oi_(fputs(p, stdout) >= 0); } break;
      case 29: { n = (int)g32_(); oi_(fputc(n, stdout)); } break;
      case 30: { oi_(fileno(stdin)); oi_(fileno(stdout)); oi_(fileno(stderr)); } break;
      default: oc_(63);
    }
    nl_();
  }
  flush_(); return 5;
}
'''


def con_text(r, n):
    return bytes(r.choice(b"abcdefgh XYZ\n\t%\\\x80\xff") for _ in range(n))


def con_input(r):
    o = b""
    for _ in range(r.choice([0, 1, 5, 40, 300])):
        o += r.choice([b"%d" % r.randint(-99999, 99999), b"+%d" % r.randint(0, 99), b"-", b"word", b"a", b"longer-than-nine-chars", b"7x", b"\xff\xfe", b""]) + r.choice([b" ", b"\n", b"  \n", b"\t", b"\n\n", b","])
    return o[:-1] if o and r.random() < .5 else o


WS = b" \t\n\v\f\r"


def take_int(d):
    """(result, value or None, consumed, met end)"""
    i = 0
    while i < len(d) and d[i] in WS:
        i += 1
    if i == len(d):
        return -1, None, i, True
    j = i
    if d[j] in b"+-":
        j += 1
    q = j
    while q < len(d) and 48 <= d[q] <= 57:
        q += 1
    if q == j:
        return (0 if q < len(d) or j > i else -1), None, q, q == len(d)
    return 1, int(d[i:q]), q, q == len(d)


def take_word(d, w):
    i = 0
    while i < len(d) and d[i] in WS:
        i += 1
    if i == len(d):
        return -1, b"", i, True
    q = i
    while q < len(d) and q - i < w and d[q] not in WS:
        q += 1
    return 1, d[i:q], q, q == len(d) and q - i < w


def console(r, cnt):
    """one session with the standard streams: input, command stream, expected log, outputs"""
    w, exp, desc = W(), [], []
    inp, inp2 = con_input(r), con_input(r)
    st = {"d": inp, "eof": False, "used": False}
    out = {"1": b"", "2": b"", "o": None}
    cur = "1"

    def h(v):
        return "%x" % (v & 0xffffffff)

    def cmd(k, line, d):
        w.u8(k)
        exp.append(line)
        desc.append(d)
        n = "std " + d.split("(")[0]
        cnt[n] = cnt.get(n, 0) + 1

    def put(b, s=None):
        out[s or cur] += b

    for op in r.sample([0, 1, 2, 3], 1) + r.sample([4, 5], 1) + [6]:
        if r.random() < .35:
            cmd(13, h(0) if op in (2, 3) else "", ["setbuf(stdout, NULL)", "setbuf(stdout, buf)", "setvbuf(stdout, NULL, _IOLBF, 100)", "setvbuf(stdout, buf, _IOFBF, 1500)", "setbuf(stdin, NULL)", "setbuf(stdin, buf)", "setbuf(stderr, NULL)"][op])
            w.u8(op)
    unread = [False]
    for _ in range(r.choice([10, 40, 150])):
        z = r.randrange(30)
        n = r.choice([0, 1, 3, 10, 30]) if r.random() < .9 else r.choice([200, 1030, 1032, 2500])
        if z < 3:
            b = con_text(r, n)
            cmd(1, "1", "puts(%r)" % b[:30])
            w.z(b)
            put(b + b"\n")
        elif z < 5:
            c = r.choice([10, 97, 0, 255, 128, r.randrange(256)])
            op = r.choice([2, 29])
            cmd(op, h(c) if op == 29 else (lambda g, c=c: None if int(g, 16) & 255 == c and g.strip() != "ffffffff" or c == 255 else "expected %x, got %s" % (c, g)), "%s(%d)" % ("putchar" if op == 2 else "fputc stdout", c))
            w.u32(c)
            put(bytes([c]))
        elif z < 7:
            b, v = con_text(r, n), r.randint(-99999, 99999)
            k = r.choice([3, 15])
            t = (b"%s|%d|\n" if k == 3 else b"(%s,%d)") % (b, v)
            cmd(k, h(len(t)), "%s(%r, %d)" % ("printf" if k == 3 else "vprintf", b[:30], v))
            w.z(b).u32(v)
            put(t)
        elif z < 10:
            d = st["d"]
            if d:
                c, st["d"] = d[0], d[1:]
                cmd(4, h(c), "getchar()")
            else:
                st["eof"] = True
                cmd(4, h(-1), "getchar()")
            st["used"] = False
        elif z == 10:
            m = r.choice([2, 5, 20, 100, 1500])
            d = st["d"]
            j = d.find(b"\n")
            t = (d if j < 0 else d[:j + 1])[:m - 1]
            st["d"] = d[len(t):]
            if len(t) < m - 1 and not t.endswith(b"\n"):
                st["eof"] = True
            cmd(5, None, "fgets(%d)" % m)
            exp[-1] = h(-1) if not t else '"%s' % t.hex()
            w.u16(m)
            st["used"] = False
        elif z < 14:
            k = r.choice([6, 17, 18])
            if st["eof"] and not st["d"]:
                pass
            a, v, q, e = take_int(st["d"])
            if v is not None and abs(v) > 2**31 - 1:
                continue
            st["d"] = st["d"][q:]
            if e:
                st["eof"] = True
            cmd(k, None, {6: "scanf(%d)", 17: "vscanf(%d)", 18: "vfscanf(stdin, %d)"}[k])
            exp[-1] = "%s %s" % (h(a), h(v if v is not None else -7))
            st["used"] = True
        elif z < 16:
            a, v, q, e = take_word(st["d"], 9)
            st["d"] = st["d"][q:]
            if e:
                st["eof"] = True
            cmd(7, '%s "%s' % (h(a), v.hex()), "scanf(%9s)")
            st["used"] = True
        elif z == 16:
            if st["used"] or len(st["d"]) == len(inp) or unread[0] and st["d"] is None:
                continue
            c = r.choice([65, 10, 255, 48])
            if desc and desc[-1].startswith("ungetc"):
                continue
            st["d"] = bytes([c]) + st["d"]
            st["eof"] = False
            st["used"] = True
            cmd(8, h(c), "ungetc(%d)" % c)
            w.u32(c)
        elif z == 17:
            t = st["d"][:n]
            st["d"] = st["d"][n:]
            if len(t) < n:
                st["eof"] = True
            if n > 5000:
                continue
            cmd(9, None, "fread(stdin, %d)" % n)
            exp[-1] = ("%s %s" % (h(len(t)), t.hex())).strip()
            w.u16(n)
            st["used"] = st["used"] and not t
        elif z == 18:
            b = con_text(r, n)
            cmd(10, "1", "fputs(%r, stderr)" % b[:20])
            w.z(b)
            put(b, "2")
        elif z == 19:
            e, b, nl = r.choice([0, 1, 2, 8, 21, 33, 44, 58, 76, 77, 99, 200]), con_text(r, r.choice([0, 1, 8])), r.random() < .2
            cmd(11, None, "perror(%r) with errno %d" % (None if nl else b, e))
            w.u8(e).z(b).u8(nl)

            def chk(g, b=b, nl=nl):
                t = bytes.fromhex(g.strip()[1:])
                if not t or b"\n" in t:
                    return ("strerror", "no message")
                marks.append((b"" if nl or not b else b + b": ") + t + b"\n")
            exp[-1] = chk
            put(b"\0PERROR\0", "2")
        elif z == 20:
            b, v = con_text(r, n), r.randint(-99999, 99999)
            k = r.choice([12, 16])
            t = (b"[%s/%d]" if k == 12 else b"{%s,%d}") % (b, v)
            cmd(k, h(len(t)), "%s(%r, %d)" % ("fprintf stderr" if k == 12 else "vfprintf stderr", b[:30], v))
            w.z(b).u32(v)
            put(t, "2")
        elif z == 21:
            a = r.random() < .3
            cmd(14, "0", "fflush(%s)" % ("NULL" if a else "stdout"))
            w.u8(a)
        elif z < 24:
            k = r.choice([19, 20])
            s = r.choice([b"%d" % r.randint(-9999, 9999), b"", b" 12", b"x"]) + r.choice([b",", b" ,", b"", b","]) + r.choice([b"word", b" two words", b"", b"averylongword"])
            m = r.choice([0, 1, 2, 5, 7, 50])
            d = s if k == 19 else s[:m]
            a, v, q, e = take_int(d)
            word = b""
            if a == 1 and d[q:q + 1] == b",":
                b_, word, _, _ = take_word(d[q + 1:], 9)
                a = 2 if b_ == 1 else 1
            cmd(k, '%s %s "%s' % (h(a), h(v if v is not None else -7), word.hex()), "%s(%r, %%d,%%9s)" % ("vsscanf" if k == 19 else "vsnscanf %d" % m, s))
            w.z(s)
            if k == 20:
                w.u8(m)
        elif z < 26:
            cmd(21, "%d 0 0" % st["eof"], "feof, ferror(stdin)")
        elif z == 26:
            b = payload(r, min(n, 2500))
            cmd(22, h(len(b)), "fwrite(stdout, %d)" % len(b))
            w.u16(len(b))
            w.b += b
            put(b)
        elif z == 27:
            b = con_text(r, r.choice([1, 5, 100]))
            k = r.random()
            if k < .5 or cur != "1":
                cmd(28, "1", "fputs(%d bytes, stdout)" % len(b))
                w.z(b)
                put(b)
            else:
                cmd(23, "0 %s" % h(len(b)), "fflush(stdout), write(1, %d bytes)" % len(b))
                w.z(b)
                put(b, "1")
        elif z == 28:
            if r.random() < .25:
                k = r.random()
                if k < .5:
                    mode = r.choice([b"w", b"a"])
                    cmd(24, "1", "freopen(/o, %r, stdout)" % mode)
                    w.z(mode)
                    cur = "o"
                    out["o"] = b"" if mode == b"w" or out["o"] is None else out["o"]
                else:
                    cmd(25, "1", "freopen(/i, r, stdin)")
                    st.update(d=inp2, eof=False, used=True)
                    unread[0] = True
            elif not st["d"] and r.random() < .5:
                cmd(27, "", "clearerr(stdin)")
                st["eof"] = False
        else:
            if cur == "1" and not unread[0]:
                cmd(30, "0 1 2", "fileno")
    marks = []
    k = r.randrange(4)
    if k < 3:
        w.u8(26, k)
        if k == 2:
            exp.append("0")
            desc.append("fclose(stdout)")
    return w, exp, desc, inp, inp2, out, marks


def console_session(ctx, mod, r, cnt):
    w, exp, desc, inp, inp2, out, marks = console(r, cnt)
    d = tempfile.mkdtemp(prefix="con", dir=ctx.scratch)
    try:
        with open(d + "/cmd", "wb") as f:
            f.write(bytes(w.b))
        with open(d + "/i", "wb") as f:
            f.write(inp2)
        x = run_wasm(mod, stdin=inp, tmp=ctx.scratch, preopen=d, fuel=2_000_000_000)
        log = open(d + "/log", "rb").read().decode("latin1").split("\n") if os.path.exists(d + "/log") else []
        files = {"condrv.c": CON, "cmd": bytes(w.b), "stdin.bin": inp, "i": inp2}
        fails = []

        def bad(k, m):
            fails.append(Failure("std:" + k, m, files))
        for i, e in enumerate(exp):
            g = log[i].strip() if i < len(log) else None
            if g is None or (g == "" and i == len(log) - 1 and e not in ("",)):
                bad("stop", "the program stops (trap=%s exit=%s) in command %d: %s; before: %s" % (x.trap, x.code, i, desc[i], " ".join(desc[max(0, i - 12):i])))
                break
            p = e(g) if callable(e) else (None if g.split() == e.split() else "expected %s, got %s" % (e, g))
            if p:
                bad("result" if not isinstance(p, tuple) else p[0], "command %d, %s: %s; before: %s" % (i, desc[i], p if not isinstance(p, tuple) else p[1], " ".join(desc[max(0, i - 12):i])))
                break
        if not fails:
            o = {"1": x.out, "2": x.err, "o": open(d + "/o", "rb").read() if os.path.exists(d + "/o") else None}
            want = dict(out)
            for m in marks:
                want["2"] = want["2"].replace(b"\0PERROR\0", m, 1)
            if x.code != 5 or x.trap:
                bad("exit", "exit status %s, trap %s, expected 5" % (x.code, x.trap))
            for k, n in (("1", "standard output"), ("2", "standard error"), ("o", "the file stdout was reopened to")):
                if o[k] != want[k]:
                    a, b = o[k] or b"", want[k] or b""
                    j = next((q for q in range(min(len(a), len(b))) if a[q] != b[q]), min(len(a), len(b)))
                    bad("output", "%s differs at byte %d: %r, expected %r (%d and %d bytes); operations: %s" % (n, j, a[j:j + 30], b[j:j + 30], len(a), len(b), " ".join(desc[-25:])))
                    break
        return {"evals": len(exp), "failures": fails, "keys": [hashlib.sha1(bytes(w.b)).hexdigest()[:16]]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c22(ctx):
    ctx.tree.build()
    mod = build(ctx, "iodrv", SRC)
    cmod = build(ctx, "condrv", CON)
    ctx.cov["rule"] = ("random histories of fopen/freopen/fread/fwrite/getc/putc/fgets/fputs/ungetc/fseek/ftell/rewind/fgetpos/fsetpos/fflush/setvbuf/fprintf/fscanf/remove/rename over several files and buffering modes, obeying C's rules "
                       "for switching between input and output; a model checks every result, the file contents after every flush and close and, from outside, after exit. evaluations = operations checked")

    def job(i):
        r = ctx.rng("io", i)
        tot = {"evals": 0, "failures": [], "keys": [], "counts": {}}
        for j in range(8):
            cnt = {}
            w, exp, desc, files = history(r, cnt)
            d = tempfile.mkdtemp(prefix="io", dir=ctx.scratch)
            x = session(ctx, mod, w, exp, "stdio", lambda q: "%s; before: %s" % (desc[q][1], " ".join([x[1] for x in desc[:q] if x[0] == desc[q][0]][-14:])), "iodrv", SRC, preopen=d, exitcode=7)
            if not x["failures"]:
                for f in range(NF):
                    p = d + "/f%d" % f
                    have = open(p, "rb").read() if os.path.exists(p) else None
                    want = bytes(files[f]) if f in files else None
                    if have != want:
                        x["failures"].append(Failure("stdio:final", "after exit, f%d has %s, expected %s; operations: %s" % (f, "no file" if have is None else "%d bytes, fnv %x" % (len(have), fnv(have)), "no file" if want is None else "%d bytes, fnv %x" % (len(want), fnv(want)), " ".join(x[1] for x in desc[-25:])),
                                                     {"iodrv.c": SRC, "stdin.bin": bytes(w.b)}))
                        break
            tot["evals"] += x["evals"]
            tot["failures"] += x["failures"]
            tot["keys"] += x.get("keys", [])
            for k, v in list(cnt.items()) + [("sessions", 1)]:
                tot["counts"]["op " + k if k != "sessions" else k] = tot["counts"].get("op " + k if k != "sessions" else k, 0) + v
            if i == 0 and j == 0:
                tot["samples"] = [{"operations": [x[1] for x in desc[:40]]}]
            shutil.rmtree(d, ignore_errors=True)
            if tot["failures"]:
                break
        for j in range(3):
            cnt = {}
            x = console_session(ctx, cmod, r, cnt)
            tot["evals"] += x["evals"]
            tot["failures"] += x["failures"]
            tot["keys"] += x["keys"]
            for k, v in list(cnt.items()) + [("sessions", 1)]:
                tot["counts"]["op " + k if k != "sessions" else k] = tot["counts"].get("op " + k if k != "sessions" else k, 0) + v
            if tot["failures"]:
                break
        return tot
    ctx.pmap(job, range(ctx.n(220, 6000)))


CHECKS = {"C22": c22}
