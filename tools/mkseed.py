"""Development helper: make and confirm a planted bug.
usage: mkseed.py DIR   where DIR (under /verif/seeded) has edit.json? -- see code.
Reads a python file given as argument that defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)].
For each: edits /repo, makes patch.diff, undoes, then confirms build, stable tests and demo both ways."""
import json, os, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VF_REPO", "/repo")
SEEDED = HERE + "/seeded"
sys.path.insert(0, HERE + "/tools/seeddefs")
DEMO_SH = """#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go.txt"}}' "$R" "$D" > "$T/o.json"
mkdir "$T/w"
go build -overlay "$T/o.json" -o "$T/demo" ./cmd/zzdemo || exit 4
cd "$T/w" && timeout 60 "$T/demo"
"""
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def clean():
    sh("git -C %s checkout -- ." % R)

def tests():
    sh("sed 's|cd /repo|cd %s|; s|work=.*|work=$(mktemp -d)|; s|/opt/vp/runtest.sh|/tmp/seed_runtest.sh|' /opt/vp/test.sh > /tmp/seed_test.sh; sed 's|relative-to=/repo|relative-to=%s|' /opt/vp/runtest.sh > /tmp/seed_runtest.sh; bash /tmp/seed_test.sh /tmp/seed_o.json" % (R, R))
    try:
        d = json.load(open("/tmp/seed_o.json"))
    except Exception as e:
        return None, str(e)
    p = set(d.get("passed") or d.get("pass") or [])
    return BASE - p, ""

def one(s):
    d = os.path.join(SEEDED, s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, old, new in edits:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "OLD TEXT COUNT", t.count(old), f); clean(); return False
        open(p, "w").write(t.replace(old, new))
    try:
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.go.txt", "w").write(s["demo"].lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("sed 's|cd /repo|cd %s|' /opt/vp/build.sh > /tmp/seed_build.sh; bash /tmp/seed_build.sh" % R)
        if b.returncode:
            print(s["id"], "BUILD FAILS", b.stdout, b.stderr); return False
        miss, err = tests()
        if miss is None or miss:
            print(s["id"], "TESTS FAIL", err, sorted(miss or [])[:5]); return False
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode == 0:
            print(s["id"], "DEMO PASSES WITH PATCH", r.stdout[-500:], r.stderr[-500:]); return False
        bad = r.stdout[-200:] + r.stderr[-300:]
    finally:
        clean()
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode:
        print(s["id"], "DEMO FAILS WITHOUT PATCH", r.stdout[-500:], r.stderr[-800:]); return False
    print(s["id"], "OK; with patch:", bad.strip()[:200].replace("\n", " | "))
    return True

if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    ok = all([one(s) for s in seeds if not only or s["id"] in only])
    sys.exit(0 if ok else 1)
