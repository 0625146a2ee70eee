"""Author's tool: (re)creates and validates planted bugs.
  plant.py make ID            patch.diff from the current /repo diff is written by hand-made definitions in tools/plants/*.py
  plant.py test [ID...]       for each: apply, build, stable tests, demo fails; then undo, build, demo passes
  plant.py catch ID [CHECK..] apply and run the checks (default: the property's own), then undo
"""
import json, os, subprocess, sys, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/sh
# compiles and runs the program beside this script with the built compiler, and compares its output
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
r=$(pwd)
"$r/_build/wcpl" -q %(opts)s -L "$r/_build/lib/" -I "$r/lib/include/" -o "$t/a.wasm" "$d/demo.c" || exit 1
cd "$t" || exit 2
/opt/vp/venv/bin/python /opt/vp/runwasi.py a.wasm > out.txt || exit 1
cmp out.txt "$d/expected.txt"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    sh("git -C /repo checkout -- .")


def make(id, prop, edits, needs, breaks, demo_c=None, expected=None, opts="", demo_sh=None, files=None):
    """edits: [(file, old, new)], each old must be unique"""
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p, "rb").read()
            crlf = b"\r\n" in s
            o, n = (x.encode().replace(b"\n", b"\r\n") if crlf else x.encode() for x in (old, new))
            assert s.count(o) == 1, (id, f, s.count(o), old)
            open(p, "wb").write(s.replace(o, n))
        open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
    finally:
        clean()
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % dict(opts=opts))
    if demo_c is not None:
        open(d + "/demo.c", "w").write(demo_c)
    if expected is not None:
        open(d + "/expected.txt", "w").write(expected)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)


def apply(id):
    r = sh(["git", "-C", "/repo", "apply", os.path.join(S, id, "patch.diff")])
    assert r.returncode == 0, (id, r.stdout)


def build():
    return sh("bash /opt/vp/build.sh").returncode


def demo(id):
    with tempfile.TemporaryDirectory() as t:
        sh("cp -r %s/%s %s/x; rm -f %s/x/*.diff %s/x/meta.json" % (S, id, t, t, t))
        r = sh(["sh", t + "/x/demo.sh"], cwd="/repo", timeout=300)
        return r.returncode, r.stdout[-300:]


def test(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert build() == 0
    for id in ids:
        c0 = demo(id)
        try:
            apply(id)
            b = build()
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            got = set(json.load(open("/tmp/plant.json"))["passed"])
            c1 = demo(id)
        finally:
            clean()
            build()
        ok = b == 0 and not (base - got) and c0[0] == 0 and c1[0] != 0
        print(id, "OK" if ok else "BAD", "build", b, "missing tests", sorted(base - got)[:4], "demo clean", c0, "patched", c1, flush=True)


def catch(id, checks):
    if not checks:
        checks = [json.load(open(os.path.join(S, id, "meta.json")))["property"]]
    try:
        apply(id)
        for c in checks:
            r = sh([V + "/check", c], cwd=V)
            o = r.stdout.decode("latin1")
            print(id, c, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, o.strip().splitlines()[0][:300] if o.strip() else "", o.strip().splitlines()[-1][:120] if o.strip() else "", flush=True)
    finally:
        clean()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "test":
        test(a[1:] or sorted(os.listdir(S)))
    elif a[0] == "catch":
        catch(a[1], a[2:])
    elif a[0] == "catchall":
        for i in (a[1:] or sorted(os.listdir(S))):
            catch(i, [])
