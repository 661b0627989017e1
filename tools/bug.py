#!/usr/bin/env python3
"""Helper to plant bugs (run by hand).
  bug.py make ID PROP FILE 'needs' 'what it breaks' 'program' 'expected output' < python code editing `s`
  bug.py try ID...     apply each to /repo, build, run tests, demo and the property's check, undo
"""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(id, prop, path, edit, needs, what, prog=None, out=None, demo=None, flags="-q --no-libs"):
    """edit: list of (old, new) replacements, each of a unique text; path may be a list aligned with edit."""
    assert sh("git -C %s status --porcelain" % R).stdout == "", "repo not clean"
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for e in edit:
            p, old, new = e if len(e) == 3 else (path, *e)
            s = open(R + "/" + p).read()
            assert s.count(old) == 1, (p, s.count(old), old)
            open(R + "/" + p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    finally:
        sh("git -C %s checkout -- ." % R)
    if demo is None:
        open(d + "/demo.min", "w").write(prog)
        open(d + "/demo.out", "w").write(out)
        demo = '''#!/bin/bash
# the program demo.min must print demo.out
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.min" "$tmp/demo.min"
timeout 120 src/boot/minim %s "$tmp/demo.min" > "$tmp/out" 2> "$tmp/err" < /dev/null
cmp "$tmp/out" "$here/demo.out"
''' % flags
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)


def attempt(id, tests=True, check=True):
    d = V + "/seeded/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    res = {}
    assert sh("git -C %s status --porcelain" % R).stdout == "", "repo not clean"
    try:
        sh("bash /opt/vp/build.sh", cwd=R)
        r = sh("bash %s/demo.sh" % d, cwd=R)
        res["demo clean"] = r.returncode
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/build.sh", cwd=R)
        res["build"] = b.returncode
        if tests:
            sh("bash /opt/vp/test.sh /tmp/bugout.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res["tests failed"] = sorted(base - set(json.load(open("/tmp/bugout.json"))["passed"]))
        r = sh("bash %s/demo.sh" % d, cwd=R)
        res["demo bug"] = r.returncode
        if check and os.path.exists("%s/checks/%s.py" % (V, prop.lower())):
            r = sh("python3 %s/checks/%s.py" % (V, prop.lower()), cwd=V)
            res["check"] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "OK", "check error"))][:2])
    finally:
        sh("git -C %s checkout -- ." % R)
        sh("bash /opt/vp/build.sh", cwd=R)
    ok = res.get("demo clean") == 0 and res.get("build") == 0 and not res.get("tests failed") and res.get("demo bug")
    print(id, prop, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check", [0])[0] == 1 else "missed", res, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        for i in sys.argv[2:]: attempt(i)
