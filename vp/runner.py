"""Compile-and-run of batches of programs, verdicts, shrinking, replay."""
import os, sys, time, json, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
from . import ast, models
from .ast import N, TooBig
from .ga import DomainError
from .prog import Program, Build, tu, parse, compare, CONTROL, JOBS


class Work:
    """scratch directory, removed at exit"""

    def __init__(self):
        base = os.environ.get("VP_TMP") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="vpgal_", dir=base)
        self.n = 0

    def name(self, stem="t"):
        self.n += 1
        return "%s%d" % (stem, self.n)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Outcome:
    __slots__ = ("status", "reason", "row", "detail", "rows", "ctime")

    def __init__(self, status, reason="", row=None, detail="", rows=None, ctime=0):
        # status: ok | bad | skip (no verdict)
        self.status, self.reason, self.row, self.detail, self.rows, self.ctime = status, reason, row, detail, rows, ctime


def judge_default(p, rows):
    return compare(p, rows)


def run_single(p, work, name, cxx="g++", flags=("-O0",), judge=judge_default, timeout=300):
    b = Build(tu([p]), work.dir, name, cxx, flags, timeout=timeout)
    try:
        os.unlink(b.path)
    except OSError:
        pass
    if b.kind == "error":
        return Outcome("bad", "does-not-compile", None, first_error(b.err), ctime=b.ctime)
    if b.kind in ("timeout", "infra"):
        return Outcome("skip", b.kind, ctime=b.ctime)
    if b.kind == "runtimeout":
        return Outcome("bad", "hangs", None, "no result within the run time limit", ctime=b.ctime)
    res, end = parse(b.out)
    rows = res.get(0, [])
    if b.rc != 0 or not end:
        return Outcome("bad", "crashed", len(rows), "exit status %s: %s" % (b.rc, b.err[:300]), ctime=b.ctime)
    v = judge(p, rows)
    if v:
        return Outcome("bad", v[0], v[1], v[2], rows, b.ctime)
    return Outcome("ok", rows=rows, ctime=b.ctime)


def first_error(err):
    for line in err.splitlines():
        if "error" in line:
            return line.strip()[:300]
    return err[:300]


def run_group(ps, work, name, cxx, flags, judge, timeout):
    b = Build(tu(ps), work.dir, name, cxx, flags, timeout=timeout)
    try:
        os.unlink(b.path)
    except OSError:
        pass
    if b.kind in ("error", "timeout", "infra", "runtimeout"):
        if len(ps) == 1 and b.kind != "infra":
            if b.kind == "error":
                return [Outcome("bad", "does-not-compile", None, first_error(b.err), ctime=b.ctime)]
            if b.kind == "timeout":
                return [Outcome("skip", "timeout", ctime=b.ctime)]
        return [run_single(p, work, "%s_%d" % (name, i), cxx, flags, judge) for i, p in enumerate(ps)]
    res, end = parse(b.out)
    if b.rc != 0 or not end:
        return [run_single(p, work, "%s_%d" % (name, i), cxx, flags, judge) for i, p in enumerate(ps)]
    out = []
    for i, p in enumerate(ps):
        v = judge(p, res.get(i, []))
        out.append(Outcome("bad", v[0], v[1], v[2], res.get(i), b.ctime) if v else Outcome("ok", rows=res.get(i), ctime=b.ctime))
    return out


def run_batch(ps, work, cxx="g++", flags=("-O0",), judge=judge_default, group=6, deadline=None, stop_on_bad=True,
              timeout=240):
    """yields (program, outcome) in completion order; stops early at the deadline."""
    groups = [ps[i:i + group] for i in range(0, len(ps), group)]
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        it = iter(groups)

        def submit():
            if deadline and time.time() > deadline:
                return False
            g = next(it, None)
            if g is None:
                return False
            futs[ex.submit(run_group, g, work, work.name("g"), cxx, flags, judge, timeout)] = g
            return True
        for _ in range(JOBS):
            submit()
        stop = False
        while futs:
            f = next(as_completed(list(futs)))
            g = futs.pop(f)
            outs = f.result()
            if any(o.status == "bad" for o in outs) and stop_on_bad:
                stop = True
            if not stop:
                submit()
            for p, o in zip(g, outs):
                yield p, o


# ------------------------------------------------------------------ shrinking
def candidates(p):
    """Smaller variants of a program, roughly most aggressive first."""
    from .gen import dedup_unused
    roots = p.roots
    if len(p.data) > 1:
        for i in range(len(p.data)):
            yield p.with_(data=[p.data[i]])
    if len(roots) > 1:
        for i in range(len(roots)):
            yield p.with_(roots=roots[:i] + roots[i + 1:])
    order = ast.walk(roots)
    # a root replaced by one of its proper sub-nodes
    for i, r in enumerate(roots):
        for n in ast.walk([r]):
            if n is not r and (n.a or len(roots) > 1):
                yield p.with_(roots=roots[:i] + [n] + roots[i + 1:])
    # a node replaced by one of its children
    for v in reversed(order):
        for ci in range(len(v.a)):
            def f(n, ch, v=v, ci=ci):
                return ch[ci] if n is v else N(n.op, ch, n.k)
            yield p.with_(roots=ast.rebuild(roots, f))
    # simpler constants
    for v in order:
        if v.op in ("smul", "sdiv", "sadd", "saddr", "ssub", "ssubr", "idiv") and v.k[0] not in (1, 2):
            for k in (2, 1):
                def f(n, ch, v=v, k=k):
                    return N(n.op, ch, (k,)) if n is v else N(n.op, ch, n.k)
                yield p.with_(roots=ast.rebuild(roots, f))
        if v.op == "lit" and v.k[1] != 1:
            def f(n, ch, v=v):
                return N(n.op, ch, (n.k[0], 1) + tuple(n.k[2:])) if n is v else N(n.op, ch, n.k)
            yield p.with_(roots=ast.rebuild(roots, f))
    # inputs merged / simplified
    for i in range(len(p.types)):
        t = p.types[i]
        if t.startswith("ent:"):
            es = t[4:].split(",")
            if len(es) > 1:
                for j in range(len(es)):
                    yield retype(p, i, "ent:" + ",".join(es[:j] + es[j + 1:]), j)
    if p.T == "float":
        yield p.with_(T="double")
    # simpler values
    for ri, row in enumerate(p.data):
        for j, x in enumerate(row):
            for y in (1, 2, 3):
                if x != y and (isinstance(x, float) or abs(x) > y):
                    row2 = list(row)
                    row2[j] = y
                    yield p.with_(data=p.data[:ri] + [row2] + p.data[ri + 1:])
                    break


def retype(p, i, newkey, drop):
    types = list(p.types)
    types[i] = newkey
    off = sum(t.nraw for t in p.tobjs()[:i])
    data = [r[:off + drop] + r[off + drop + 1:] for r in p.data]
    return p.with_(types=types, data=data)


def cleanup(p):
    from .gen import dedup_unused
    used = sorted({n.k[0] for n in ast.walk(p.roots) if n.op == "in"})
    if used and len(used) < len(p.types) and not p.params:
        ts = p.tobjs()
        offs, o = [], 0
        for t in ts:
            offs.append(o)
            o += t.nraw
        data = [[x for i in used for x in r[offs[i]:offs[i] + ts[i].nraw]] for r in p.data]
        roots, types = dedup_unused(p.roots, p.types)
        return p.with_(roots=roots, types=types, data=data)
    return p


def valid(p):
    try:
        if not any(n.op == "in" for n in ast.walk(p.roots)):
            return False
        if p.params is not None and sorted(p.params) != list(range(len(p.types))):
            return False
        p.expected()
        return True
    except (DomainError, ZeroDivisionError, OverflowError):
        return False


def shrink(p, outcome, work, test=None, budget=60, judge=judge_default, cxx="g++", flags=("-O0",), accept=None):
    """Greedy parallel shrinking; keeps the kind of failure (value / does-not-compile / ...)."""
    t0 = time.time()
    reason = outcome.reason
    best, bo = p, outcome
    if test is None:
        def test(q):
            return run_single(q, work, work.name("s"), cxx, flags, judge, timeout=120)
    seen = set()
    with ThreadPoolExecutor(JOBS) as ex:
        progress = True
        while progress and time.time() - t0 < budget:
            progress = False
            cands = []
            for c in candidates(best):
                try:
                    if not valid(c):
                        continue
                    c = cleanup(c)
                except Exception:
                    continue
                k = json.dumps(c.to_json(), sort_keys=True)
                if k in seen:
                    continue
                seen.add(k)
                if accept is None or accept(c):
                    cands.append(c)
            for i in range(0, len(cands), JOBS):
                if time.time() - t0 > budget:
                    break
                outs = list(ex.map(test, cands[i:i + JOBS]))
                hit = [(c, o) for c, o in zip(cands[i:i + JOBS], outs) if o.status == "bad" and o.reason == reason]
                if hit:
                    best, bo = hit[0]
                    progress = True
                    break
    return best, bo


def control_compiles(work):
    b = Build(CONTROL, work.dir, work.name("ctl"))
    return b.kind == "ok" and b.rc == 0
