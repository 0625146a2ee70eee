"""An independent WebAssembly binary decoder: sections -> plain values, with indices resolved so that two
modules that mean the same compare equal whatever the order of their type section."""
import struct


class Bad(Exception):
    pass


class R:
    def __init__(self, b, p=0, e=None):
        self.b, self.p, self.e = b, p, len(b) if e is None else e

    def u8(self):
        if self.p >= self.e:
            raise Bad("unexpected end at %d" % self.p)
        c = self.b[self.p]
        self.p += 1
        return c

    def leb(self, signed=False, bits=32):
        r = s = n = 0
        while True:
            c = self.u8()
            n += 1
            r |= (c & 127) << s
            s += 7
            if c < 128:
                break
            if n > (bits + 6) // 7:
                raise Bad("overlong LEB at %d" % self.p)
        if signed and c & 64:
            r -= 1 << s
        return r

    def take(self, n):
        if self.p + n > self.e:
            raise Bad("unexpected end at %d" % self.p)
        x = self.b[self.p:self.p + n]
        self.p += n
        return bytes(x)

    def name(self):
        return self.take(self.leb()).decode("utf-8")

    def vec(self, f):
        return [f() for _ in range(self.leb())]


VT = {0x7f: "i32", 0x7e: "i64", 0x7d: "f32", 0x7c: "f64", 0x7b: "v128", 0x70: "funcref", 0x6f: "externref"}


def vt(r):
    c = r.u8()
    if c not in VT:
        raise Bad("value type %x" % c)
    return VT[c]


def instr(r, m):
    """decode one instruction: (opcode, immediates...)"""
    o = r.u8()
    if o in (0x02, 0x03, 0x04):
        b = r.leb(True, 33)
        if b >= 0:
            return (o, m.types[b])
        return (o, ("", VT.get(b & 0x7f, "") if b != -64 else ""))
    if o in (0x0c, 0x0d):
        return (o, r.leb())
    if o == 0x0e:
        return (o, tuple(r.vec(r.leb)), r.leb())
    if o == 0x10:
        return (o, r.leb())
    if o == 0x11:
        t = r.leb()
        return (o, m.types[t], r.leb())
    if 0x20 <= o <= 0x26:
        return (o, r.leb())
    if 0x28 <= o <= 0x3e:
        return (o, r.leb(), r.leb())
    if o in (0x3f, 0x40):
        return (o, r.u8())
    if o == 0x41:
        return (o, r.leb(True) & 0xffffffff)
    if o == 0x42:
        return (o, r.leb(True, 64) & (2 ** 64 - 1))
    if o == 0x43:
        return (o, r.take(4))
    if o == 0x44:
        return (o, r.take(8))
    if o == 0x1c:
        return (o, tuple(r.vec(lambda: vt(r))))
    if o == 0xfc:
        s = r.leb()
        if s <= 7:
            return (o, s)
        if s in (8, 10, 12, 14):
            return (o, s, r.leb(), r.leb())
        return (o, s, r.leb())
    if o == 0xfd:
        s = r.leb()
        if s <= 11 or s in (92, 93):
            return (o, s, r.leb(), r.leb())
        if s in (12, 13):
            return (o, s, r.take(16))
        if 21 <= s <= 34:
            return (o, s, r.u8())
        if 84 <= s <= 91:
            return (o, s, r.leb(), r.leb(), r.u8())
        return (o, s)
    return (o,)


class Mod:
    pass


def decode(data):
    m = Mod()
    m.types, m.imports, m.funcs, m.tables, m.mems, m.globals = [], [], [], [], [], []
    m.exports, m.start, m.elems, m.codes, m.datas, m.custom = {}, None, [], [], [], []
    if data[:8] != b"\0asm\1\0\0\0":
        raise Bad("bad header")
    r = R(data, 8)
    last = 0
    ORDER = {12: 9.5}
    while r.p < r.e:
        i = r.u8()
        n = r.leb()
        if r.p + n > r.e:
            raise Bad("section %d overruns the file" % i)
        s = R(data, r.p, r.p + n)
        r.p += n
        if i == 0:
            m.custom.append((s.name(), s.take(s.e - s.p)))
            continue
        if ORDER.get(i, i) <= last:
            raise Bad("section %d out of order" % i)
        last = ORDER.get(i, i)

        def lim():
            f = s.u8()
            return (s.leb(), s.leb() if f & 1 else None)

        def const():
            o = []
            while True:
                x = instr(s, m)
                if x[0] == 0x0b:
                    return tuple(o)
                o.append(x)
        if i == 1:
            def ty():
                if s.u8() != 0x60:
                    raise Bad("type form")
                return (tuple(s.vec(lambda: vt(s))), tuple(s.vec(lambda: vt(s))))
            m.types = s.vec(ty)
        elif i == 2:
            def im():
                a, b = s.name(), s.name()
                k = s.u8()
                if k == 0:
                    return (a, b, "func", m.types[s.leb()])
                if k == 1:
                    return (a, b, "table", vt(s), lim())
                if k == 2:
                    return (a, b, "memory", lim())
                return (a, b, "global", vt(s), s.u8())
            m.imports = s.vec(im)
        elif i == 3:
            m.funcs = [m.types[x] for x in s.vec(s.leb)]
        elif i == 4:
            m.tables = s.vec(lambda: (vt(s), lim()))
        elif i == 5:
            m.mems = s.vec(lim)
        elif i == 6:
            m.globals = s.vec(lambda: (vt(s), s.u8(), const()))
        elif i == 7:
            for a, k, x in s.vec(lambda: (s.name(), s.u8(), s.leb())):
                if a in m.exports:
                    raise Bad("duplicate export " + a)
                m.exports[a] = (k, x)
        elif i == 8:
            m.start = s.leb()
        elif i == 9:
            def el():
                if s.leb() != 0:
                    raise Bad("element segment kind")
                return (const(), tuple(s.vec(s.leb)))
            m.elems = s.vec(el)
        elif i == 10:
            def code():
                n = s.leb()
                e = s.p + n
                loc = []
                for k, t in s.vec(lambda: (s.leb(), vt(s))):
                    if k > 50000:
                        raise Bad("too many locals")
                    loc += [t] * k
                ins = []
                while s.p < e:
                    ins.append(instr(s, m))
                if s.p != e or not ins or ins[-1] != (0x0b,):
                    raise Bad("function body does not end where its size says")
                return (tuple(loc), tuple(ins))
            m.codes = s.vec(code)
        elif i == 11:
            def da():
                k = s.leb()
                if k == 1:
                    return (None, s.take(s.leb()))
                if k == 2:
                    s.leb()
                return (const(), s.take(s.leb()))
            m.datas = s.vec(da)
        elif i == 12:
            s.leb()
        else:
            raise Bad("section id %d" % i)
        if s.p != s.e:
            raise Bad("section %d: %d bytes left over" % (i, s.e - s.p))
    if len(m.codes) != len(m.funcs):
        raise Bad("function and code sections disagree")
    return m


def diff(a, b):
    """first difference between two decoded modules, or None"""
    for f in ("imports", "funcs", "tables", "mems", "globals", "exports", "start", "elems", "datas"):
        x, y = getattr(a, f), getattr(b, f)
        if x != y:
            if isinstance(x, list) and len(x) == len(y):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return "%s[%d]: %.300r / %.300r" % (f, i, p, q)
            return "%s: %.300r / %.300r" % (f, x, y)
    if len(a.codes) != len(b.codes):
        return "number of functions"
    for i, (p, q) in enumerate(zip(a.codes, b.codes)):
        if p[0] != q[0]:
            return "function %d locals: %s / %s" % (i, p[0], q[0])
        if p[1] != q[1]:
            for j, (s, t) in enumerate(zip(p[1], q[1])):
                if s != t:
                    return "function %d instruction %d: %r / %r" % (i, j, s, t)
            return "function %d length %d / %d" % (i, len(p[1]), len(q[1]))
    return None


def const_i32(c):
    return c[0][1] if len(c) == 1 and c[0][0] == 0x41 else None
