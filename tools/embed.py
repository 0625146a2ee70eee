"""Regenerates the archive of library files embedded in l.c (a maintainer's step, not part of the checks):
   embed.py REPO   -- REPO/_build/lib must be freshly built from REPO/lib/src"""
import os, re, sys, zlib
CH = 32
R = sys.argv[1]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ["WCPL_REPO"] = R
from vf import lookup
old = lookup.members()
p = os.path.join(R, "l.c")
s = open(p, encoding="latin1", newline="").read()
a = s.index("/* start of in-memory archive */")
b = s.index("/* end of in-memory archive */")
arc = s[a:b]
olddef = {}
for m in re.finditer(r"/\* (\S+) \((.*?)\) \*/\nstatic unsigned char (file_l_\d+)\[(\d+)\] =\n(.*?);\n", arc, re.S):
    olddef[m.group(1)] = (m.group(2), int(m.group(4)), m.group(5))
print(len(old), len(olddef))
files = {}
for n in old:
    if n.endswith(".wo"):
        f = os.path.join(R, "_build", n)
    else:
        f = os.path.join(R, n)
    files[n] = open(f, "rb").read()
extra = [f for f in os.listdir(os.path.join(R, "_build/lib")) if "lib/" + f not in old] + [f for f in os.listdir(os.path.join(R, "lib/include")) if "lib/include/" + f not in old]
print("not in the archive:", extra)
o = [arc[:arc.index("/* lib/")]]
dirs = []
tail = arc[arc.index("static const struct memdir") if "static const struct memdir" in arc else arc.index("directory_l"):]
changed = []
for i, n in enumerate(sorted(files)):
    d = files[n]
    if d == old[n] or d.replace(b"\r\n", b"\n") == old[n].replace(b"\r\n", b"\n"):
        files[n] = d = old[n]
        c, size, body = olddef[n]
    else:
        changed.append(n)
        z = zlib.compressobj(9, zlib.DEFLATED, -15, 9)
        x = z.compress(d) + z.flush()
        c, size = "DEFLATEd, org. size %d" % len(d), len(x)
        # shortest octal escapes, lines of 16 bytes as the archiver writes them
        body = "\n".join('  "' + "".join("\\%o" % v for v in x[j:j + CH]) + '"' for j in range(0, len(x), CH))
    o.append("/* %s (%s) */\nstatic unsigned char file_l_%d[%d] =\n%s;\n\n" % (n, c, i, size, body))
    dirs.append(' { "%s", %d, 1, %d, &file_l_%d[0] },\n' % (n, size, len(d), i))
h = re.search(r"(?ms)^[^\n]*directory_l[^\n]*\n(?:\{\n)?", arc).group(0)
o.append(h + "".join(dirs) + "};\n\n")
open(p, "w", encoding="latin1", newline="").write(s[:a] + "".join(o) + s[b:])
new = lookup.members()
assert new == files, [n for n in files if new.get(n) != files[n]]
print("changed:", changed)
