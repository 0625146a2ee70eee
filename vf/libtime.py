"""C24: time.h against calendar arithmetic."""
from .drv import *

SRC = HEAD.replace("#define IN_MAX 4000000", "#define IN_MAX 400000") + GZ + r'''
#include <time.h>
#include <errno.h>
#include <string.h>
static char buf_[600];
static void tm_(struct tm *p) { oi_(p->tm_sec); oi_(p->tm_min); oi_(p->tm_hour); oi_(p->tm_mday); oi_(p->tm_mon); oi_(p->tm_year); oi_(p->tm_wday); oi_(p->tm_yday); oi_(p->tm_isdst); return; }
static void gtm_(struct tm *p) { p->tm_sec = (int)g32_(); p->tm_min = (int)g32_(); p->tm_hour = (int)g32_(); p->tm_mday = (int)g32_(); p->tm_mon = (int)g32_(); p->tm_year = (int)g32_(); p->tm_wday = (int)g32_(); p->tm_yday = (int)g32_(); p->tm_isdst = (int)g32_(); return; }
int main(void) {
  load_();
  while (more_()) {
    int k = g8_(), n, i; time_t t[1]; struct tm tm, *p; char *s;
    switch (k) {
      case 0: { t[0] = (time_t)g64_(); errno = 0; memset(&tm, 165, sizeof(struct tm)); p = gmtime_r(&t[0], &tm); if (p == NULL) { oc_(78); oi_(errno); } else { oi_(p == &tm); tm_(p); } } break;
      case 1: { t[0] = (time_t)g64_(); errno = 0; p = localtime_r(&t[0], &tm); if (p == NULL) { oc_(78); oi_(errno); } else { oi_(p == &tm); tm_(p); } } break;
      case 2: { t[0] = (time_t)g64_(); p = gmtime(&t[0]); if (p == NULL) oc_(78); else tm_(p); p = localtime(&t[0]); if (p == NULL) oc_(78); else tm_(p); } break;
      case 3: { gtm_(&tm); t[0] = mktime(&tm); ou_((unsigned long long)t[0]); tm_(&tm); } break;
      case 4: { gtm_(&tm); memset(&buf_[0], 90, (size_t)600); s = asctime_r(&tm, &buf_[100]); oi_(s == &buf_[100]); os_(s); n = (int)strlen(s); for (i = 0; i < 600; ++i) if (buf_[i] != 90 && (i < 100 || i > 125)) break; oi_(600 - i); os_(asctime(&tm)); } break;
      case 5: { t[0] = (time_t)g64_(); memset(&buf_[0], 90, (size_t)600); s = ctime_r(&t[0], &buf_[100]); oi_(s == &buf_[100]); if (s != NULL) os_(s); for (i = 0; i < 600; ++i) if (buf_[i] != 90 && (i < 100 || i > 125)) break; oi_(600 - i); s = ctime(&t[0]); if (s != NULL) os_(s); } break;
      case 6: { gtm_(&tm); n = (int)g16_(); s = gz_(); memset(&buf_[0], 90, (size_t)600); i = (int)strftime(&buf_[50], (size_t)n, s, &tm); oi_(i); if (i > 0 && i < 500) { os_(&buf_[50]); }
        for (i = 0; i < 600; ++i) if (buf_[i] != 90 && (i < 50 || i >= 50 + n)) break; oi_(600 - i); } break;
      case 7: { tzset(); oi_((int)timezone); os_(tzname[0]); os_(tzname[1]); } break;
      case 8: { t[0] = (time_t)g64_(); od_(difftime(t[0], (time_t)g64_())); } break;
      case 9: { t[0] = (time_t)5; ou_((unsigned long long)time(&t[0])); ou_((unsigned long long)t[0]); ou_((unsigned long long)time(NULL)); } break;
      case 10: { clock_t a = clock(), b; for (i = 0; i < 1000; ++i) buf_[i & 255] = (char)i; b = clock(); oi_(a == (clock_t)-1LL || b >= a); } break;
      default: oc_(63);
    }
    nl_();
  }
  flush_(); return 0;
}
'''
MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
WD = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MN = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
IMIN, IMAX = -2 ** 31, 2 ** 31 - 1


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before(y):
    """days from 1970-01-01 to January 1st of year y (proleptic Gregorian)"""
    z = y - 1
    return 365 * (y - 1970) + (z // 4 - z // 100 + z // 400) - (1969 // 4 - 1969 // 100 + 1969 // 400)


def civil(t):
    """(sec, min, hour, mday, mon, year-1900, wday, yday)"""
    d, s = divmod(t, 86400)
    y = 1970 + d * 400 // 146097
    while days_before(y) > d:
        y -= 1
    while days_before(y + 1) <= d:
        y += 1
    yd = d - days_before(y)
    m, r = 0, yd
    while r >= MD[m] + (m == 1 and leap(y)):
        r -= MD[m] + (m == 1 and leap(y))
        m += 1
    return (s % 60, s // 60 % 60, s // 3600, r + 1, m, y - 1900, (d + 4) % 7, yd)


def timegm(tm):
    y = tm[5] + 1900 + tm[4] // 12
    m = tm[4] % 12
    d = days_before(y) + sum(MD[:m]) + (m > 1 and leap(y)) + tm[3] - 1
    return ((d * 24 + tm[2]) * 60 + tm[1]) * 60 + tm[0]


def h(v):
    return "%x" % (v & 0xffffffff)


def tmline(c):
    return " ".join(h(v) for v in c) + " 0"


def ok_year(c):
    return IMIN <= c[5] <= IMAX


def rand_t(r):
    k = r.random()
    if k < .3:
        return r.randint(-2 ** 31, 2 ** 32)
    if k < .5:
        # around a year, month or leap day boundary
        y = r.choice([1900, 1904, 1970, 1999, 2000, 2001, 2004, 2038, 2099, 2100, 2101, 2400, 1600, 1, 0, -1, -400, 4000, r.randint(-9999, 99999)])
        return timegm((0, 0, 0, 1, r.choice([0, 1, 2, 2, 11, 12, r.randrange(12)]), y - 1900)) + r.choice([-86400, -1, 0, 1, 86399, 86400])
    if k < .75:
        return r.randint(-62135596800, 253402300799)
    if k < .9:
        return r.randint(-2 ** 56, 2 ** 56)
    if k < .95:
        return r.choice([timegm((59, 59, 23, 31, 11, IMAX)), timegm((0, 0, 0, 1, 0, IMIN))]) + r.choice([-1, 0, 1])
    return r.choice([-2 ** 63, 2 ** 63 - 1, 0, -1, 2 ** 31, 2 ** 31 - 1, -2 ** 31 - 1, r.randint(-2 ** 63, 2 ** 63 - 1)])


def i64(v):
    return (v + 2 ** 63) % 2 ** 64 - 2 ** 63


def fmt_model(fmt, c, tzn):
    """list of acceptable results"""
    out = [""]
    i = 0
    hh = c[2]
    y = c[5] + 1900
    while i < len(fmt):
        if fmt[i] != "%":
            out = [o + fmt[i] for o in out]
            i += 1
            continue
        k = fmt[i + 1]
        i += 2
        t = "%02d:%02d:%02d" % (c[2], c[1], c[0])
        v = {"a": lambda: WD[c[6]][:3], "A": lambda: WD[c[6]], "b": lambda: MN[c[4]][:3], "B": lambda: MN[c[4]], "d": lambda: "%02d" % c[3], "H": lambda: "%02d" % hh,
             "I": lambda: "%02d" % (hh % 12 or 12), "j": lambda: "%03d" % (c[7] + 1), "m": lambda: "%02d" % (c[4] + 1), "M": lambda: "%02d" % c[1], "p": lambda: "PM" if hh >= 12 else "AM",
             "S": lambda: "%02d" % c[0], "U": lambda: "%02d" % ((c[7] + 7 - c[6]) // 7), "W": lambda: "%02d" % ((c[7] + 7 - (c[6] - 1) % 7) // 7), "w": lambda: "%d" % c[6],
             "y": lambda: "%02d" % (y % 100), "Y": lambda: "%d" % y, "Z": lambda: tzn, "%": lambda: "%", "X": lambda: t,
             # the date formats are for the implementation (C90): the C99 ones or the library's
             "x": lambda: ["%02d/%02d/%02d" % (c[4] + 1, c[3], y % 100), "%02d.%02d.%d" % (c[3], c[4] + 1, y)],
             "c": lambda: ["%s %s %2d %s %d" % (WD[c[6]][:3], MN[c[4]][:3], c[3], t, y), "%s %s %02d %s %d" % (WD[c[6]][:3], MN[c[4]][:3], c[3], t, y)]}[k]()
        vs = v if isinstance(v, list) else [v]
        out = [o + x for o in out for x in vs][:64]
    return out


def c24(ctx):
    ctx.tree.build()
    mod = build(ctx, "timedrv", SRC)
    ctx.cov["rule"] = ("gmtime(_r), localtime(_r), mktime, asctime(_r), ctime(_r), strftime (every C90 conversion, every limit), difftime, tzset/tzname/timezone, time and clock on random and boundary times (leap days, centuries, 2038, "
                       "years beyond int) under random TZ values, against proleptic Gregorian calendar arithmetic in Python; guard bytes around every buffer. evaluations = calls checked")
    import time as T

    def job(i):
        r = ctx.rng("time", i)
        env, off, tz0, tz1 = [], 0, None, None
        k = r.random()
        if k < .7:
            nm = "".join(r.choice("ABCDEFxyz") for _ in range(r.choice([3, 4, 5, 9])))
            sg = r.choice(["", "+", "-"])
            a, b, c = r.choice([0, 1, 5, 9, 12, 13, 23, 24]), r.choice([0, 0, 30, 45, 59]), r.choice([0, 0, 1, 59])
            z = nm + sg + r.choice(["%d" % a, "%02d" % a])
            off = a * 3600
            if b or c or r.random() < .2:
                z += ":%02d" % b
                off += b * 60
                if c:
                    z += ":%02d" % c
                    off += c
            if sg == "-":
                off = -off
            tz0 = nm
            if r.random() < .3:
                tz1 = "".join(r.choice("GHIJKuvw") for _ in range(r.choice([3, 4])))
                z += tz1
            env = [("TZ", z)]
        elif k < .8:
            env = [("TZ", "")]
        w, exp, desc = W(), [], []
        cnt = {}

        def cmd(c, e, d):
            w.u8(c)
            exp.append(e)
            desc.append("%s under TZ=%s" % (d, env))
            n = d.split("(")[0]
            cnt[n] = cnt.get(n, 0) + 1

        def gm(t):
            c = civil(t)
            return ("1 " + tmline(c), tmline(c), c) if ok_year(c) else (None, None, c)
        EOVERFLOW = None
        bad = lambda g: None if g.startswith("N") else "expected a null pointer (the year does not fit), got " + g
        for q in range(250):
            z = r.random()
            t = rand_t(r)
            if z < .22:
                cmd(0, gm(t)[0] or bad, "gmtime_r(%d)" % t)
                w.u64(t)
            elif z < .35:
                lt = t - off
                if not -2 ** 63 <= lt < 2 ** 63:
                    continue
                cmd(1, gm(lt)[0] or bad, "localtime_r(%d)" % t)
                w.u64(t)
            elif z < .4:
                t = max(-2 ** 50, min(2 ** 50, t))
                cmd(2, gm(t)[1] + " " + gm(t - off)[1], "gmtime, localtime(%d)" % t)
                w.u64(t)
            elif z < .6:
                c = list(civil(max(-2 ** 45, min(2 ** 45, t))))
                for j in range(5):
                    if r.random() < .35:
                        c[j] = r.choice([c[j] + r.randint(-100, 100), -c[j], -1, 0, 31, 32, 60, 61, -400, 366, 1000000, -1000000, IMAX, IMIN, r.randint(IMIN, IMAX)])
                if r.random() < .1:
                    c[5] = r.choice([IMAX, IMIN, -1900, -1901, 0, r.randint(IMIN, IMAX)])
                v = timegm(c) + off
                lc = civil(v - off)
                if ok_year(lc):
                    cmd(3, "%x %s" % (v & (2 ** 64 - 1), tmline(lc)), "mktime(%r)" % (c[:6],))
                else:
                    cmd(3, lambda g: None if g.split()[0] == "f" * 16 else "expected -1, got " + g, "mktime(%r)" % (c[:6],))
                for j in range(8):
                    c[j] = max(IMIN, min(IMAX, c[j]))
                w.u32(*c[:6]).u32(r.choice([0, 3, 99]), r.choice([0, 5, -1]), r.choice([0, 0, -1]))
            elif z < .68:
                t = r.randint(-62135596800 + 86400 * 366, 253402300799)
                c = civil(t)
                s = "%s %s%3d %02d:%02d:%02d %d\n" % (WD[c[6]][:3], MN[c[4]][:3], c[3], c[2], c[1], c[0], c[5] + 1900)
                x = '"' + s.encode().hex()
                if r.random() < .6:
                    cmd(4, "1 %s 0 %s" % (x, x), "asctime_r(%s)" % (c,))
                    w.u32(*c, 0)
                else:
                    cmd(5, "1 %s 0 %s" % (x, x), "ctime_r(%d)" % (t + off))
                    w.u64(t + off)
            elif z < .92:
                t = r.randint(-30610224000, 253402300799)      # years 1000 to 9999
                c = civil(t)
                fm = ""
                for _ in range(r.choice([0, 1, 2, 5, 12])):
                    fm += r.choice(["%" + x for x in "aAbBcdHIjmMpSUwWxXyYZ%"] * 2 + ["/", "-", " ", "abc", "longer text, ", "\n"])
                res = [x.encode() for x in fmt_model(fm, c, (tz0 or "").rstrip() if tz0 else "\0")]
                if "%Z" in fm and tz0 is None:
                    continue
                L = len(res[0])
                n = r.choice([0, 1, L, L + 1, L + 2, 500, 500, max(0, L - 1), r.randint(0, 40)])

                def chk(g, res=res, n=n):
                    f = g.split()
                    for s in res:
                        if len(s) >= n or not s:
                            want = ["0", "0"]
                        else:
                            want = ["%x" % len(s), '"' + s.hex(), "0"]
                        if f == want:
                            return None
                    return "expected %r limited to %d, got %s %r" % (res[0], n, g, bytes.fromhex(f[1][1:]) if len(f) > 2 else b"")
                cmd(6, chk, "strftime(%d, %r, %r)" % (n, fm, c))
                w.u32(*c, 0).u16(n).z(fm.encode())
            elif z < .95:
                def tzc(g):
                    f = g.split()
                    if f[0] != h(off):
                        return "timezone is %s, expected %s" % (f[0], h(off))
                    if tz0 and f[1] != '"' + tz0.encode().hex():
                        return "tzname[0] is %r, expected %s" % (bytes.fromhex(f[1][1:]), tz0)
                    if tz1 and f[2] != '"' + tz1.encode().hex():
                        return "tzname[1] is %r, expected %s" % (bytes.fromhex(f[2][1:]), tz1)
                cmd(7, tzc, "tzset()")
            elif z < .98:
                a, b = r.choice([(t, rand_t(r)), (t, t), (t, t - 1), (r.randint(-2 ** 40, 2 ** 40), r.randint(-2 ** 40, 2 ** 40))])
                if abs(a - b) >= 2 ** 63:
                    continue
                cmd(8, "%x" % struct.unpack("<Q", struct.pack("<d", float(a - b)))[0], "difftime(%d, %d)" % (a, b))
                w.u64(a, b)
            elif z < .99:
                def now(g):
                    f = [int(x, 16) for x in g.split()]
                    x = int(T.time())
                    return None if f[0] == f[1] and f[0] <= f[2] and x - 900 <= f[0] <= x + 5 else "time() gave %s, the clock says about %d" % (f, x)
                cmd(9, now, "time()")
            else:
                cmd(10, "1", "clock()")
        x = session(ctx, mod, w, exp, "time", lambda q: desc[q], "timedrv", SRC, env=env)
        x.setdefault("counts", {}).update({"calls of " + a: b for a, b in cnt.items()})
        if i == 0:
            x["samples"] = [{"TZ": env, "calls": desc[:6]}]
        return x
    ctx.pmap(job, range(ctx.n(200, 6000)))


CHECKS = {"C24": c24}
