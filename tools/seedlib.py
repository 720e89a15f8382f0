"""seed(id, property, edits, needs, breaks, srcs, demo): writes /verif/seeded/<id> and confirms it on /repo.
Only a development aid: no check uses it."""
import os, subprocess, json, sys, shutil
V, R = "/verif", "/repo"

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def seed(id, prop, edits, needs, breaks, srcs, demo, flags="", check=True, std="c++17"):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = "%s/seeded/%s" % (V, id)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            s = open(R + "/" + f).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(R + "/" + f, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    finally:
        sh("git -C %s checkout -- ." % R)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cc", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=%s -w -O1 -g %s -I. -Iwebm_parser -Iwebm_parser/include "$H/demo.cc" %s -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
''' % (std, flags, " ".join(srcs)))
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    try:
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        assert a.returncode == 0, a.stderr
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        t = sh("bash %s/tools/runtests.sh" % V)
        c = sh("python3 %s/check.py %s quick" % (V, prop)) if check else None
    finally:
        sh("git -C %s checkout -- ." % R)
    okc = "-" if c is None else ("caught" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED rc=%d" % c.returncode)
    good = r0.returncode == 0 and r1.returncode not in (0, 2) and "missing: []" in t.stdout
    print("%-28s %s demo %d/%d tests %s check %s %s" % (id, prop, r0.returncode, r1.returncode, t.stdout.strip()[:60], okc, "" if good else "*** BAD SEED ***"), flush=True)
    if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
    if r1.returncode == 2: print(r1.stderr[-1500:])
