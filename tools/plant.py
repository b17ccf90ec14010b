#!/usr/bin/env python3
"""Development aid: plant a bug in a scratch copy of /repo, confirm it (build, 77 tests, demo both ways), store it under
/verif/seeded/<id>/ and report which checks catch it.  usage: plant.py SPEC.py [id ...]   (SPEC defines BUGS)"""
import os, sys, json, subprocess, shutil, runpy, time
SCR = "/tmp/plant"
REPO = SCR + "/repo"
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w %s-I public %s"$d/demo.cpp" -o "$t/demo" 2> "$t/err" || { grep -m3 error "$t/err"; exit 1; }
timeout 60 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.exists(REPO):
        sh("cp -a /repo %s && rm -rf /tmp/plant/repo/_build" % REPO)
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % REPO)
    assert r.returncode == 0, r.stdout


def tests():
    b = SCR + "/build"
    r = sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGAL_TESTS_ENABLED=ON "
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/doctest-shim && ninja -C %s"
           % (REPO, b, b))
    if r.returncode:
        return "build failed: " + r.stdout[-600:]
    shutil.rmtree(SCR + "/reports", ignore_errors=True)
    os.makedirs(SCR + "/reports")
    exe = b + "/bin/gal_test"
    if not os.path.exists(exe):
        exe = sh("find %s -name gal_test -type f" % SCR).stdout.split()[0]
    sh("python3 /opt/vp/run_doctest.py %s %s/reports; python3 /opt/vp/results.py %s/out.json 'junit:%s/reports/*.xml' "
       "'lines:%s/reports/crashed.txt'" % (exe, SCR, SCR, SCR, SCR))
    out = json.load(open(SCR + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    got = {t.split("::", 1)[1] for t in out["passed"]}
    miss = [t for t in want if t.split("::", 1)[1] not in got]
    return None if not miss and len(out["passed"]) >= 77 else "tests fail: %s" % miss[:4]


def demo(d, cwd):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    nocheck = "-n" in sys.argv
    for b in bugs:
        if only and b["id"] not in only:
            continue
        fresh()
        err = None
        for path, old, new in b["edits"]:
            p = os.path.join(REPO, path)
            s = open(p).read()
            k = b.get("nth", 0)
            c = s.count(old)
            if c == 0 or (c > 1 and "nth" not in b):
                err = "edit matches %d times in %s" % (c, path)
                break
            i = -1
            for _ in range(k + 1):
                i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        if err:
            print(b["id"], "BADSPEC", err)
            continue
        d = SCR + "/stage/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % REPO).stdout)
        open(d + "/demo.sh", "w").write(DEMO % (b.get("flags", "-O0 "), b.get("srcs", "")))
        open(d + "/demo.cpp", "w").write(b["demo"])
        if b.get("stub"):
            shutil.copytree("/verif/harness/stub", d + "/stub")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        for line in open(d + "/patch.diff").read().splitlines():
            if line.startswith("--- a/"):
                base = sh("git -C /repo show afae89d:" + line[6:]).stdout.splitlines()
            elif line.startswith("-") and line[1:] not in base:
                print("   note: changes a line the base tree does not have:", line)
        g = demo(d, "/repo")
        if g.returncode != 0:
            print(b["id"], "BADDEMO fails on clean tree:", g.stdout[-400:])
            continue
        x = demo(d, REPO)
        if x.returncode == 0:
            print(b["id"], "BADDEMO passes with the bug")
            continue
        t = tests()
        if t:
            print(b["id"], "NOT VALID", t)
            continue
        print(b["id"], "valid (demo: %s)" % x.stdout.strip()[:100])
        dst = "/verif/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        if not nocheck:
            for c in [b["property"]] + b.get("also", []):
                t0 = time.time()
                r = sh("cd /verif && VP_REPO=%s ./check %s" % (REPO, c))
                lines = [l for l in r.stdout.splitlines() if l.startswith(("violated", "VIOLATION", "ok", "INCONC"))]
                print("   %s rc=%d %.0fs %s" % (c, r.returncode, time.time() - t0, " | ".join(lines)[:300]))
        sys.stdout.flush()
    fresh()


main()
