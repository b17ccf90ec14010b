#!/usr/bin/env python3
"""Development aid: mutation analysis.
  mutate.py gen SEED COUNT          sample mutants of public/gal, keep those that build and pass the 77 tests (resumable)
  mutate.py list                    show the survivors of the tests
  mutate.py check [ids...]          run the relevant checks on each survivor, stopping at the first that catches it
State lives in /tmp/mut."""
import os, sys, re, json, random, subprocess, hashlib, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor
D = "/tmp/mut"
HEAD = D + "/head"
RELEVANT = {
    "algebra.hpp": "C05 C01 C06 C03", "algorithm.hpp": "C15 C05 C01", "cga.hpp": "C08 C19 C14", "cga2.hpp": "C08 C19 C14",
    "crc.hpp": "C16", "dfa.hpp": "C01 C02 C06 C13", "engine.hpp": "C01 C03 C13 C17", "entity.hpp": "C14 C13 C01",
    "expr.hpp": "C01 C02 C03 C18 C19 C06 C13", "format.hpp": "C14", "geometric_algebra.hpp": "C04 C05 C01",
    "null_algebra.hpp": "C08 C05", "numeric.hpp": "C07 C16 C05", "pga.hpp": "C11 C10 C09 C19 C14",
    "pga2.hpp": "C12 C19 C14", "stack.hpp": "C15", "tuple.hpp": "C15 C02", "vga.hpp": "C10 C19 C14",
}


def sh(cmd, t=None, **kw):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout")


SUBS = [
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \^ ", [" | "]), (r" & ", [" | "]), (r" \| ", [" & "]),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r"\+\+", ["--"]), (r"(?<=[ (\[,{])-(?=[a-z0-9(])", [""]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]),
    (r"(?<![\w.#'])0(?![\w.'])", ["1"]), (r"(?<![\w.#'])1(?![\w.'])", ["0", "2"]), (r"(?<![\w.#'])2(?![\w.'])", ["1", "3"]),
    (r"(?<![\w.#'])[3-9](?![\w.'])", ["+1"]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"(?<=if \()(?=.*\)$)", ["true || ", "false && "]), (r"(?<=if constexpr \()(?=.*\)$)", ["true || ", "false && "]),
    (r"0b([01]+)\b", ["flip"]), (r"\b(e\d+)\b", ["bas"]), (r"!(?=[a-z(])", [""]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
]


def mutants():
    out = []
    for p in sorted(glob.glob(HEAD + "/public/gal/*.hpp")):
        f = os.path.basename(p)
        if f not in RELEVANT:
            continue
        for i, line in enumerate(open(p).read().split("\n")):
            s = line.strip()
            if not s or s.startswith(("//", "#", "static_assert", "template", "assert", "*", "/*", "using", "namespace")):
                continue
            code = line.split("//")[0]
            for rx, reps in SUBS:
                for m in re.finditer(rx, code):
                    for r in reps:
                        if r == "+1":
                            r = str(int(m.group(0)) + 1)
                        elif r == "flip":
                            v = int(m.group(1), 2)
                            r = bin(v ^ 1) if v != 1 else "0b11"
                        elif r == "bas":
                            if len(m.group(1)) < 3:
                                continue
                            g = m.group(1)
                            r = g[:-1] if len(g) > 2 else g
                        out.append((f, i, line[:m.start()] + r + line[m.end():]))
            if re.match(r"^[\w.\[\]\->*+ :()&]+( [+\-*/|&^]?= .*|\(.*\)|\+\+|--)?;$", s) and not s.startswith(("return", "constexpr", "auto", "using", "T ", "int ", "width_t ", "elem_t ", "typedef", "break", "continue", "const", "size_t")):
                out.append((f, i, line[:len(line) - len(line.lstrip())] + ";"))
            if s in ("break;", "continue;"):
                out.append((f, i, line[:len(line) - len(line.lstrip())] + ";"))
    seen, res = set(), []
    for m in out:
        h = hashlib.sha1(repr(m).encode()).hexdigest()[:8]
        if h not in seen:
            seen.add(h)
            res.append((h,) + m)
    return res


def apply(root, m):
    p = root + "/public/gal/" + m[1]
    L = open(HEAD + "/public/gal/" + m[1]).read().split("\n")
    L[m[2]] = m[3]
    open(p, "w").write("\n".join(L))


TU = ["test_algebra", "test_vga", "test_algorithm", "test_pga", "test_cga", "test_dfa", "test"]


def judge(m, w):
    """None = survives, else the reason it is dead"""
    root = D + "/w%d" % w
    if not os.path.exists(root):
        shutil.copytree(HEAD, root)
    apply(root, m)
    try:
        ob = root + "/ob"
        os.makedirs(ob, exist_ok=True)
        for t in TU:
            r = sh("ulimit -v 6000000; g++ -std=c++17 -w -I public -I test -I src %s -c test/%s.cpp -o ob/%s.o" % (INC, t, t), 150, cwd=root)
            if r.returncode:
                return "compile " + t
        r = sh("g++ ob/*.o -o ob/gal_test && timeout 20 ./ob/gal_test", 60, cwd=root)
        return "tests" if r.returncode else None
    finally:
        shutil.copy(HEAD + "/public/gal/" + m[1], root + "/public/gal/" + m[1])


INC = "-DGAL_DEBUG -DDOCTEST_CONFIG_SUPER_FAST_ASSERTS -DDOCTEST_CONFIG_USE_STD_HEADERS -DDOCTEST_CONFIG_INCLUDE_TYPE_TRAITS"


def gen(seed, count, jobs):
    if not os.path.exists(HEAD):
        sh("git clone -q /repo " + HEAD)
    ms = mutants()
    print(len(ms), "mutants")
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    st = json.load(open(D + "/state.json")) if os.path.exists(D + "/state.json") else {}
    import queue
    q = queue.Queue()
    for w in range(jobs):
        q.put(w)

    def one(m):
        if m[0] in st:
            return
        w = q.get()
        try:
            st[m[0]] = {"m": m, "dead": judge(m, w)}
        finally:
            q.put(w)
        if st[m[0]]["dead"] is None:
            print("SURVIVES", m, flush=True)
        json.dump(dict(st), open(D + "/state.json.t%d" % w, "w"))
        os.replace(D + "/state.json.t%d" % w, D + "/state.json")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ms))
    print("done", len(st), "judged;", sum(1 for v in st.values() if v["dead"] is None), "survive")


def show(v):
    m = v["m"]
    old = open(HEAD + "/public/gal/" + m[1]).read().split("\n")[m[2]]
    return "%s %s:%d\n    - %s\n    + %s" % (m[0], m[1], m[2] + 1, old.strip(), m[3].strip())


def check(ids, opts):
    root = D + "/chk" + opts.get("w", "")
    if not os.path.exists(root):
        shutil.copytree(HEAD, root)
    st = json.load(open(D + "/state.json"))
    rp = D + "/results.json"
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    skip = set(open(D + "/skip").read().split()) if os.path.exists(D + "/skip") else set()
    for h, v in st.items():
        if v["dead"] or (ids and h not in ids) or (not ids and (h in res or h in skip)):
            continue
        m = v["m"]
        apply(root, m)
        log = []
        for c in (opts.get("props", "").replace(",", " ") or RELEVANT[m[1]]).split():
            t0 = time.time()
            r = sh("cd /verif && VP_REPO=%s ./check %s --seed %s" % (root, c, opts.get("seed", "1")), 1500)
            log.append((c, r.returncode, round(time.time() - t0)))
            if r.returncode == 1 and "all" not in opts:
                break
        shutil.copy(HEAD + "/public/gal/" + m[1], root + "/public/gal/" + m[1])
        caught = any(x[1] == 1 for x in log)
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[h] = {"caught": caught, "log": log}
        json.dump(res, open(rp, "w"))
        print(("caught " if caught else "MISSED ") + show(v) + "\n    " + str(log), flush=True)


a = sys.argv[1:]
opts = dict(x.split("=", 1) for x in a if "=" in x)
a = [x for x in a if "=" not in x]
if a[0] == "gen":
    gen(int(a[1]), int(a[2]), int(opts.get("jobs", "8")))
elif a[0] == "list":
    for h, v in json.load(open(D + "/state.json")).items():
        if v["dead"] is None:
            print(show(v))
else:
    check(set(a[1:]), opts)
