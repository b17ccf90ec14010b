"""Checks whose cases are generated snippets of C++ (one function each) that print one line of observations, compared
with what a Python model of the same operations predicts."""
import os, time, json, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from .core import Violation
from .prog import JOBS
from . import runner
from .hcheck import compile_src

MAIN = '''
int main() {
%s
  std::printf("END\\n");
  return 0;
}
'''


class Family:
    """Subclass: name, prelude, emit(case) -> statements printing observations with std::printf (no newline),
    expect(case) -> list of tokens, smaller(case) -> iterable of simpler cases, control() -> a trivial case."""
    name = ""
    prelude = ""
    flags = ("-O0",)
    incs = ()
    cxx = "g++"
    public = True        # uses only documented names: not compiling is a violation

    def text(self, cases):
        fs = []
        for i, c in enumerate(cases):
            fs.append("static void case_%d() {\n%s\n}\n" % (i, self.emit(c)))
        calls = "".join('  std::printf("CASE %d "); case_%d(); std::printf("\\n"); std::fflush(stdout);\n' % (i, i)
                        for i in range(len(cases)))
        return "#include <cstdio>\n" + self.prelude + "\n" + "".join(fs) + MAIN % calls

    def run(self, ctx, cases, name):
        """list of (status, detail) per case; status ok | bad | skip"""
        exe, err = compile_src(ctx, self.text(cases), name, self.flags, self.cxx, (), self.incs)
        one = len(cases) == 1
        if not exe:
            if err in ("timeout", "infra"):
                return [("skip", err)] if one else self.each(ctx, cases, name)
            return [("bad", "does not compile: " + runner.first_error(err))] if one else self.each(ctx, cases, name)
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            out, rc = r.stdout.decode(errors="replace"), r.returncode
            errs = r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            out, rc, errs = "", "hang", ""
        finally:
            try:
                os.unlink(exe)
            except OSError:
                pass
        if rc != 0 or "END" not in out:
            if one:
                return [("bad", "does not terminate within 60 s" if rc == "hang" else "exit status %s %s" % (rc, errs[:300]))]
            return self.each(ctx, cases, name)
        lines = {}
        for l in out.splitlines():
            if l.startswith("CASE "):
                w = l.split(" ", 2)
                lines[int(w[1])] = w[2].strip() if len(w) > 2 else ""
        return [self.judge(c, lines.get(i, "")) for i, c in enumerate(cases)]

    def each(self, ctx, cases, name):
        return [self.run(ctx, [c], "%s_%d" % (name, i))[0] for i, c in enumerate(cases)]

    def judge(self, case, line):
        got, want = line.split("|"), self.expect(case)
        got = [g.strip() for g in got if g.strip() != ""]
        if len(got) != len(want):
            return ("bad", "%d observations, expected %d: %s" % (len(got), len(want), line[:200]))
        for g, w in zip(got, want):
            if not self.same(g, w):
                return ("bad", "observed '%s', expected '%s'" % (g, w))
        return ("ok", "")

    def same(self, g, w):
        return g == w

    def nontrivial(self, case):
        return True

    def classes(self, case):
        return ()

    def smaller(self, case):
        return ()

    def control(self):
        return None


FAMILIES = {}


def family(cls):
    FAMILIES[cls.name] = cls
    return cls


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def check(ctx, fam, cases, group=12, corpus=True):
    c0 = fam.control()
    if c0 is not None:
        s, d = fam.run(ctx, [c0], "ctl_" + fam.name)[0]
        if s != "ok" and d.startswith("does not compile"):
            if not fam.public:
                ctx.note("%s: the interface it drives is not there under its name; left out (%s)" % (fam.name, d))
                return False
            if not runner.control_compiles(ctx.work):
                from .core import Inconclusive
                raise Inconclusive("the simplest program against the public headers does not compile or run")
    if corpus:
        cc = [d["case"] for d in ctx.corpus() if d.get("kind") == "gen" and d.get("family") == fam.name]
        cases = cc + list(cases)
    groups = [cases[i:i + group] for i in range(0, len(cases), group)]
    bad = []

    def go(ig):
        i, g = ig
        if bad or time.time() > ctx.deadline:
            return g, None
        return g, fam.run(ctx, g, "%s_%d" % (fam.name, i))
    with ThreadPoolExecutor(JOBS) as ex:
        for g, rs in ex.map(go, enumerate(groups)):
            if rs is None:
                if not bad:
                    ctx.note("%s: time limit reached" % fam.name)
                continue
            for c, (s, d) in zip(g, rs):
                if s == "skip":
                    ctx.skipped += 1
                    continue
                ctx.evaluations += 1
                ctx.cls("family:" + fam.name, *fam.classes(c))
                if s == "bad":
                    bad.append((c, d))
                elif fam.nontrivial(c):
                    ctx.keys.add(fam.name + key(c))
                    ctx.sample({"family": fam.name, "case": c, "expected": [str(x) for x in fam.expect(c)][:12]}, 6)
    bad.sort(key=lambda b: len(json.dumps(b[0])))
    for c, d in bad[:3]:
        report(ctx, fam, c)
    if bad:
        ctx.note("failures that did not reproduce: %s" % bad[0][1])
        ctx.skipped += len(bad)
    return True


def report(ctx, fam, c, budget=40):
    def fails(x):
        s, d = fam.run(ctx, [x], ctx.work.name("s"))[0]
        return (s, d) if s == "bad" else None
    first = fails(c)
    if not first:
        return
    compile_kind = first[1].startswith("does not compile")
    t0 = time.time()
    best = c
    prog = True
    seen = {key(c)}
    while prog and time.time() - t0 < budget:
        prog = False
        cands = []
        for x in fam.smaller(best):
            k = key(x)
            if k not in seen:
                seen.add(k)
                cands.append(x)
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > budget:
                break
            with ThreadPoolExecutor(JOBS) as ex:
                rs = list(ex.map(fails, cands[i:i + JOBS]))
            hit = [x for x, r in zip(cands[i:i + JOBS], rs) if r and r[1].startswith("does not compile") == compile_kind]
            if hit:
                best = hit[0]
                prog = True
                break
    for cand in (best, c):
        rs = [fails(cand) for _ in range(2)]
        if all(rs):
            raise Violation({"property": ctx.prop, "kind": "gen", "family": fam.name, "case": cand, "detail": rs[0][1],
                             "flags": list(fam.flags), "cxx": fam.cxx, "source": fam.text([cand])},
                            "%s: %s  [%s]" % (fam.name, rs[0][1], json.dumps(cand)[:400]))


def replay(ctx, d):
    fam = FAMILIES[d["family"]]()
    fam.flags, fam.cxx = tuple(d.get("flags", fam.flags)), d.get("cxx", fam.cxx)
    s, det = fam.run(ctx, [d["case"]], "replay")[0]
    return det if s == "bad" else None
