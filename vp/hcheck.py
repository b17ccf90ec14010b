"""Checks whose cases are tapes decoded by a C++ harness linked against /repo's current sources."""
import os, re, subprocess, time, json
from concurrent.futures import ThreadPoolExecutor
from .core import Violation, Inconclusive, ROOT
from .prog import INC, REPO, JOBS, FLAGS_GCC, FLAGS_CLANG
from . import runner

HDIR = os.path.join(ROOT, "harness")

# a sanitizer report ends in SIGABRT, which the harness turns into a CRASH line carrying the tape of the running case
ENV = dict(os.environ, UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0",
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")


def sections(path):
    """A harness file marks independent relation groups with '//@section name' lines; text before the first marker is
    common.  Returns (common, [(name, text)])."""
    common, secs, cur = [], [], None
    for line in open(path):
        m = re.match(r"//@section (\w+)", line)
        if m:
            cur = [m.group(1), []]
            secs.append(cur)
        elif cur is None:
            common.append(line)
        else:
            cur[1].append(line)
    return "".join(common), [(n, "".join(t)) for n, t in secs]


def compile_src(ctx, text, name, flags, cxx="g++", sources=(), incs=(), timeout=400):
    path = os.path.join(ctx.work.dir, name + ".cpp")
    exe = os.path.join(ctx.work.dir, name + ".exe")
    with open(path, "w") as f:
        f.write(text)
    base = FLAGS_CLANG if "clang" in cxx else FLAGS_GCC
    cmd = [cxx] + base + list(flags) + ["-I", INC, "-I", HDIR] + sum((["-I", i] for i in incs), []) + [path] + \
        list(sources) + ["-o", exe]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if r.returncode:
        err = r.stderr.decode(errors="replace")
        if r.returncode < 0 or "Killed" in err or "No space left" in err or "out of memory" in err.lower():
            return None, "infra"
        return None, err
    return exe, ""


MAIN = "\nint main(int argc, char** argv) { return vph::main(argc, argv); }\n"


class Harness:
    """One harness source; compiled whole, or section by section when the whole does not compile (an internal
    function the harness calls may have been renamed, which is not a violation)."""

    def __init__(self, ctx, file, flags=("-O1",), cxx="g++", sources=(), incs=(), public=(), pre=""):
        self.ctx, self.file, self.flags, self.cxx = ctx, file, tuple(flags), cxx
        self.sources, self.incs, self.public = tuple(sources), tuple(incs), set(public)
        self.exes = []          # (exe, [relations])
        self.pre = pre

    def build(self):
        ctx = self.ctx
        stem = os.path.splitext(os.path.basename(self.file))[0]
        common, secs = sections(os.path.join(HDIR, self.file))
        common = self.pre + common

        def one(sec):
            n, t = sec
            return n, compile_src(ctx, common + t + MAIN, "%s_%s" % (stem, n), self.flags, self.cxx, self.sources, self.incs)
        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(one, secs))
        failed = []
        for (n, (exe, err)), (_, text) in zip(results, secs):
            if exe:
                out = subprocess.run([exe, "list"], stdout=subprocess.PIPE).stdout.decode().split("\n")
                rels = [l.split()[0] for l in out if l.strip()]
                self.exes.append((exe, n, rels))
            else:
                failed.append((n, err))
        for n, err in failed:
            if err in ("timeout", "infra"):
                ctx.skipped += 1
                ctx.note("section %s of %s: no verdict (%s)" % (n, self.file, err))
            elif n in self.public:
                if not runner.control_compiles(ctx.work):
                    raise Inconclusive("the simplest program against the public headers does not compile or run")
                raise Violation({"property": ctx.prop, "kind": "harness-compile", "file": self.file, "section": n,
                                 "flags": list(self.flags), "cxx": self.cxx, "error": runner.first_error(err)},
                                "section %s of %s no longer compiles: %s" % (n, self.file, runner.first_error(err)))
            else:
                ctx.note("section %s of %s uses internals that are no longer there and was left out: %s" % (
                    n, self.file, runner.first_error(err)))
        return self

    # ------------------------------------------------------------------
    def tape(self, rel, words, timeout=60):
        for exe, _, rels in self.exes:
            if rel in rels:
                try:
                    r = subprocess.run([exe, "tape", rel] + [str(w) for w in words], stdout=subprocess.PIPE, env=ENV,
                                       stderr=subprocess.PIPE, timeout=timeout)
                except subprocess.TimeoutExpired:
                    return ("hang", words, "no result within %d s" % timeout, "")
                out = r.stdout.decode(errors="replace")
                for line in out.splitlines():
                    if line.startswith("FAIL "):
                        parts = line.split(" | ")
                        tp = parts[0].split("|")[1] if "|" in parts[0] else ""
                        ws = re.match(r"FAIL \w+ \|([ 0-9]*)\| (.*) \| (.*)$", line)
                        if ws:
                            return ("fail", [int(x) for x in ws.group(1).split()], ws.group(2), ws.group(3))
                        return ("fail", words, line, "")
                    if line.startswith("CRASH "):
                        m = re.search(r"(runtime error|ERROR: AddressSanitizer): .*", r.stderr.decode(errors="replace"))
                        if line.split()[2] == "26":
                            return ("crash", words, "no result within 10 s of processor time", "")
                        return ("crash", words, "signal %s%s" % (line.split()[2], ": " + m.group(0)[:200] if m else ""), "")
                if r.returncode not in (0,):
                    return ("crash", words, "exit status %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[:300]), "")
                return None
        return None

    def shrink(self, rel, words, kind, budget=25):
        t0 = time.time()
        best = list(words)

        def fails(ws):
            r = self.tape(rel, ws)
            return r if r and r[0] == kind else None
        seen = set()

        def attempt(cands):
            nonlocal best
            cands = [c for c in cands if tuple(c) not in seen]
            for c in cands:
                seen.add(tuple(c))
            for i in range(0, len(cands), JOBS):
                if time.time() - t0 > budget:
                    return False
                with ThreadPoolExecutor(JOBS) as ex:
                    rs = list(ex.map(fails, cands[i:i + JOBS]))
                for c, r in zip(cands[i:i + JOBS], rs):
                    if r:
                        new = r[1] if r[1] and len(r[1]) <= len(c) else c
                        if (len(new), new) < (len(best), best):
                            best = new
                            return True
            return False
        prog = True
        while prog and time.time() - t0 < budget:
            prog = False
            n = len(best)
            cands = []
            size = n // 2
            while size >= 1:
                for i in range(0, n - size + 1, max(1, size // 2)):
                    cands.append(best[:i] + best[i + size:])
                size //= 2
            for i in range(n):
                if best[i]:
                    for v in (0, best[i] // 2, best[i] - 1):
                        if v != best[i]:
                            cands.append(best[:i] + [v] + best[i + 1:])
            if attempt(cands):
                prog = True
        return best

    def fuzz(self, count, seconds=None, shards=None, only=None):
        """Run every relation; `count` cases per relation weight, split over shards with different seeds."""
        ctx = self.ctx
        jobs = []
        seconds = min(seconds or 1e9, max(5.0, ctx.left()))
        for d in ctx.corpus():
            if d.get("kind") == "tape" and d.get("file") == self.file:
                r = self.tape(d["relation"], d["tape"])
                ctx.evaluations += 1
                ctx.cls("source:corpus")
                if r:
                    self.violation(d["relation"], r)
        shards = shards or JOBS
        for exe, sec, rels in self.exes:
            for rel in rels:
                if only and rel not in only:
                    continue
                for s in range(shards):
                    jobs.append((exe, rel, ctx.seed * 1000 + s, max(1, count // shards)))
        jobs.sort(key=lambda j: j[2])

        def go(j):
            exe, rel, seed, n = j
            try:
                r = subprocess.run([exe, "fuzz", rel, str(seed), str(n), "%.1f" % seconds], stdout=subprocess.PIPE, env=ENV,
                                   stderr=subprocess.PIPE, timeout=seconds + 120)
                return j, r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as e:
                return j, None, (e.stdout or b"").decode(errors="replace"), ""
        fails, per = [], {}
        with ThreadPoolExecutor(JOBS) as ex:
            for j, rc, out, err in ex.map(go, jobs):
                exe, rel, seed, n = j
                done = False
                for line in out.splitlines():
                    if line.startswith("STAT "):
                        _, name, ev, nt, disc = line.split()
                        a = per.setdefault(name, [0, 0, 0])
                        a[0] += int(ev)
                        a[1] += int(nt)
                        a[2] += int(disc)
                        ctx.evaluations += int(ev)
                        # shards draw from different streams; distinctness inside a shard is measured by tape hash
                        ctx.extra_nt += int(nt)
                    elif line.startswith("SAMPLE ") and seed % 1000 == 0:
                        ctx.sample(line[7:], 16)
                    elif line.startswith("FAIL "):
                        m = re.match(r"FAIL (\w+) \|([ 0-9]*)\| (.*) \| (.*)$", line)
                        fails.append((rel, ("fail", [int(x) for x in m.group(2).split()], m.group(3), m.group(4))))
                        done = True
                    elif line.startswith("CRASH "):
                        w = line.split()
                        fails.append((rel, ("crash", [int(x) for x in w[3:]], "signal %s" % w[2], "")))
                        done = True
                    elif line == "DONE":
                        done = True
                    elif line.startswith("TIMEUP"):
                        ctx.note("time limit reached in %s" % rel)
                if not done:
                    if rc is None:
                        ctx.skipped += 1
                        ctx.note("relation %s: no answer within the time limit" % rel)
                    else:
                        fails.append((rel, ("crash", [], "exit status %s: %s" % (rc, err[:300]), "")))
        for k, v in per.items():
            ctx.classes["rel:" + k] = ctx.classes.get("rel:" + k, 0) + v[0]
            if v[2] > 3 * v[0]:
                ctx.note("relation %s discarded %d of %d cases" % (k, v[2], v[2] + v[0]))
        fails.sort(key=lambda f: len(f[1][1]))
        for rel, r in fails:
            self.violation(rel, r)
        if fails:
            ctx.note("failures that did not reproduce: %s" % [f[0] for f in fails])
            ctx.skipped += len(fails)

    def violation(self, rel, r):
        ctx = self.ctx
        kind, words = r[0], r[1]
        first = self.tape(rel, words)
        if not first:
            return
        best = self.shrink(rel, first[1] if first[0] == "fail" else words, first[0])
        for cand in (best, words):
            rs = [self.tape(rel, cand) for _ in range(3)]
            if all(rs):
                f = rs[0]
                raise Violation({"property": ctx.prop, "kind": "tape", "file": self.file, "relation": rel,
                                 "tape": cand, "flags": list(self.flags), "cxx": self.cxx,
                                 "sources": list(self.sources), "incs": list(self.incs), "pre": self.pre,
                                 "detail": f[2], "case": f[3]},
                                "%s: %s  [%s]" % (rel, f[2], f[3]))


def replay_tape(ctx, d):
    h = Harness(ctx, d["file"], d["flags"], d["cxx"], d.get("sources", ()), d.get("incs", ()), (), d.get("pre", "")).build()
    r = h.tape(d["relation"], d["tape"])
    return "%s: %s" % (d["relation"], r[2]) if r else None


def replay_compile(ctx, d):
    common, secs = sections(os.path.join(HDIR, d["file"]))
    for n, t in secs:
        if n == d["section"]:
            exe, err = compile_src(ctx, common + t + MAIN, "replay", d["flags"], d["cxx"])
            return None if exe else "does not compile: " + runner.first_error(err)
    return None
