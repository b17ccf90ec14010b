#!/usr/bin/env python3
"""Development aid: how many generated programs of a check distinguish each of a list of wrong rewriting rules, applied
to the reference side only.  Finds blind spots of the generators without compiling anything."""
import os, sys, random, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vp import ast, gen, pcheck
from vp.ast import N
from vp.props import expr as E

R = {}


def rule(f):
    R[f.__name__] = f
    return f


def local(name, g):
    """a rule that rewrites single nodes (g returns None = keep)"""
    def f(roots, p):
        return ast.rebuild(roots, lambda n, ch: g(N(n.op, ch, n.k), p) or N(n.op, ch, n.k))
    R[name] = f


def unscale(n):
    while n.op in ("smul", "neg", "sdiv"):
        n = n.a[0]
    return n


for op in ("mul", "ep", "rp", "lc", "ip", "sub", "sw", "sp", "div"):
    local("swap-" + op, lambda n, p, op=op: N(op, n.a[::-1]) if n.op == op and (op != "div") else None)
for op in ("ep", "mul", "rp", "lc", "ip", "add", "sub"):
    local("right-nest-swap-" + op, lambda n, p, op=op: N(op, n.a[::-1]) if n.op == op and n.a[1].op == op and n.a[0].op != op else None)
    local("left-nest-swap-" + op, lambda n, p, op=op: N(op, n.a[::-1]) if n.op == op and n.a[0].op == op and n.a[1].op != op else None)
    local("both-nest-swap-" + op, lambda n, p, op=op: N(op, n.a[::-1]) if n.op == op and n.a[0].op == op and n.a[1].op == op else None)
    local("reassoc-" + op, lambda n, p, op=op: N(op, (N(op, (n.a[0], n.a[1].a[0])), n.a[1].a[1])) if n.op == op and n.a[1].op == op else None)
    local("reassoc-l-" + op, lambda n, p, op=op: N(op, (n.a[0].a[0], N(op, (n.a[0].a[1], n.a[1])))) if n.op == op and n.a[0].op == op else None)
for op in ("rev", "dual", "comp", "grade", "sqrt", "sin", "cos", "tan", "idiv", "cmul", "cdivl", "sadd", "ssub", "sdiv"):
    local("drop-scale-under-" + op, lambda n, p, op=op: N(op, (unscale(n.a[0]),), n.k) if n.op == op else None)
for op in ("mul", "ep", "rp", "lc", "ip", "sw", "sp", "add", "sub", "div"):
    for i in (0, 1):
        def g(n, p, op=op, i=i):
            if n.op == op:
                a = list(n.a)
                a[i] = unscale(a[i])
                return N(op, a, n.k)
        local("drop-scale-%s-arg%d" % (op, i), g)
    local("drop-scale-both-" + op, lambda n, p, op=op: N(op, [unscale(x) for x in n.a], n.k) if n.op == op and all(x.op in ("smul", "neg", "sdiv") for x in n.a) else None)
for i in (0, 1):
    for op in ("rev", "dual", "comp", "grade", "sqrt", "div", "mul", "ep"):
        def g(n, p, op=op, i=i):
            # a scale factor of a sum of operands is lost only if the operand is wrapped
            if n.op == op and n.a[0].op in ("add", "sub") and n.a[0].a[i].op in ("smul", "neg", "sdiv"):
                a = list(n.a[0].a)
                a[i] = unscale(a[i])
                return N(op, (N(n.a[0].op, a),) + n.a[1:], n.k)
        local("drop-scale-in-sum%d-under-%s" % (i, op), g)
local("rev-rev-kept", lambda n, p: n.a[0] if n.op == "rev" and n.a[0].op == "rev" else None)
local("dual-dual-is-id", lambda n, p: n.a[0].a[0] if n.op == "dual" and n.a[0].op == "dual" else None)
local("rev-product-not-swapped", lambda n, p: N(n.a[0].op, [N("rev", (x,)) for x in n.a[0].a]) if n.op == "rev" and n.a[0].op in ("mul", "ep") else None)
local("rev-ip-noop", lambda n, p: n.a[0] if n.op == "rev" and n.a[0].op in ("ip", "lc", "rp") else None)
local("rev-sum-first-only", lambda n, p: N(n.a[0].op, (N("rev", (n.a[0].a[0],)), n.a[0].a[1])) if n.op == "rev" and n.a[0].op in ("add", "sub") else None)
local("dual-sum-first-only", lambda n, p: N(n.a[0].op, (N("dual", (n.a[0].a[0],)), n.a[0].a[1])) if n.op == "dual" and n.a[0].op in ("add", "sub") else None)
local("neg-sum-first-only", lambda n, p: N(n.a[0].op, (N("neg", (n.a[0].a[0],)), n.a[0].a[1])) if n.op == "neg" and n.a[0].op in ("add", "sub") else None)
local("scale-sum-first-only", lambda n, p: N(n.a[0].op, (N(n.op, (n.a[0].a[0],), n.k), n.a[0].a[1])) if n.op in ("smul", "sdiv") and n.a[0].op in ("add", "sub") else None)
local("div-sum-first-only", lambda n, p: N(n.a[0].op, (N("div", (n.a[0].a[0], n.a[1])), n.a[0].a[1])) if n.op == "div" and n.a[0].op in ("add", "sub") else None)
local("neg-neg-dropped-once", lambda n, p: n.a[0] if n.op == "neg" and n.a[0].op == "neg" else None)
local("smul-smul-last", lambda n, p: N("smul", (n.a[0].a[0],), n.k) if n.op == "smul" and n.a[0].op == "smul" else None)
local("sdiv-sdiv-last", lambda n, p: N("sdiv", (n.a[0].a[0],), n.k) if n.op == "sdiv" and n.a[0].op == "sdiv" else None)
local("sdiv-neg-sign", lambda n, p: N("sdiv", n.a, (abs(n.k[0]),)) if n.op == "sdiv" else None)
local("sub-sub", lambda n, p: N("sub", (N("sub", (n.a[0], n.a[1].a[0])), n.a[1].a[1])) if n.op == "sub" and n.a[1].op == "sub" else None)
local("sub-add", lambda n, p: N("add", (N("sub", (n.a[0], n.a[1].a[0])), n.a[1].a[1])) if n.op == "sub" and n.a[1].op == "add" else None)
local("sub-scaled-sum", lambda n, p: N("add", n.a) if n.op == "sub" and n.a[1].op == "smul" and n.a[1].a[0].op in ("add", "sub") else None)
for op in ("sadd", "saddr", "ssub", "ssubr"):
    local("drop-const-" + op, lambda n, p, op=op: n.a[0] if n.op == op else None)
    local("%s-on-sum" % op, lambda n, p, op=op: n.a[0] if n.op == op and n.a[0].op in ("add", "sub") else None)
    local("%s-on-%s" % (op, "shift"), lambda n, p, op=op: n.a[0] if n.op == op and n.a[0].op in ("sadd", "saddr", "ssub", "ssubr") else None)
    local("sum-of-" + op, lambda n, p, op=op: N(n.op, (n.a[0].a[0], n.a[1])) if n.op in ("add", "sub") and n.a[0].op == op and n.a[1].op in ("sadd", "saddr", "ssub", "ssubr") else None)
local("ip-as-lc", lambda n, p: N("lc", n.a) if n.op == "ip" else None)
local("lc-as-ip", lambda n, p: N("ip", n.a) if n.op == "lc" else None)
local("lc-as-gp", lambda n, p: N("mul", n.a) if n.op == "lc" else None)
local("ip-as-gp", lambda n, p: N("mul", n.a) if n.op == "ip" else None)
local("ep-as-gp", lambda n, p: N("mul", n.a) if n.op == "ep" else None)
local("rp-sign-undual", lambda n, p: N("dual", (N("dual", (n,)),)) if n.op == "rp" else None)
local("sw-unreversed", lambda n, p: N("mul", (N("mul", (n.a[1], n.a[0])), n.a[1])) if n.op == "sw" else None)
local("sw-other-side", lambda n, p: N("mul", (N("mul", (N("rev", (n.a[1],)), n.a[0])), n.a[1])) if n.op == "sw" else None)
local("sw-of-rev", lambda n, p: N("sw", (n.a[0], n.a[1].a[0])) if n.op == "sw" and n.a[1].op == "rev" else None)
local("sw-nested-order", lambda n, p: N("sw", (N("sw", (n.a[0].a[0], n.a[1])), n.a[0].a[1])) if n.op == "sw" and n.a[0].op == "sw" else None)
local("comp-of-sum-first", lambda n, p: N("comp", (n.a[0].a[0],), n.k) if n.op == "comp" and n.a[0].op in ("add", "sub") else None)
local("grade-of-sum-first", lambda n, p: N("grade", (n.a[0].a[0],), n.k) if n.op == "grade" and n.a[0].op in ("add", "sub") else None)
local("comp-of-comp", lambda n, p: n.a[0] if n.op == "comp" and n.a[0].op in ("comp", "sp") else None)
local("grade-of-grade", lambda n, p: n.a[0] if n.op == "grade" and n.a[0].op == "grade" else None)
local("grade-of-product-as-ep", lambda n, p: N("grade", (N("ep", n.a[0].a),), n.k) if n.op == "grade" and n.a[0].op == "mul" else None)
local("grade-le", lambda n, p: N("add", (N("grade", n.a, n.k), N("grade", n.a, (n.k[0] - 1,)))) if n.op == "grade" and n.k[0] > 0 else None)
local("sp-as-sum", lambda n, p: N("mul", n.a) if n.op == "sp" else None)
local("div-div", lambda n, p: N("div", (n.a[0].a[0], N("div", (n.a[0].a[1], n.a[1])))) if n.op == "div" and n.a[0].op == "div" else None)
local("div-by-div", lambda n, p: N("div", (N("div", (n.a[0], n.a[1].a[0])), n.a[1].a[1])) if n.op == "div" and n.a[1].op == "div" else None)
local("div-by-product-first", lambda n, p: N("div", (n.a[0], n.a[1].a[0])) if n.op == "div" and n.a[1].op == "mul" else None)
local("div-by-idiv", lambda n, p: N("mul", (n.a[0], n.a[1])) if n.op == "div" and n.a[1].op == "idiv" else None)
local("div-by-fun", lambda n, p: n.a[0] if n.op == "div" and n.a[1].op in ast.FUN else None)
local("div-by-sum-first", lambda n, p: N("div", (n.a[0], n.a[1].a[0])) if n.op == "div" and n.a[1].op in ("add", "sub", "sadd", "saddr", "ssub", "ssubr") else None)
local("idiv-of-idiv", lambda n, p: n.a[0].a[0] if n.op == "idiv" and n.a[0].op == "idiv" else None)
local("fun-of-fun", lambda n, p: n.a[0] if n.op in ast.FUN and n.a[0].op in ast.FUN else None)
local("fun-of-div", lambda n, p: N("div", (N(n.op, (n.a[0].a[0],)), n.a[0].a[1])) if n.op in ast.FUN and n.a[0].op == "div" else None)
local("sqrt-of-square", lambda n, p: n.a[0].a[0] if n.op == "sqrt" and n.a[0].op == "mul" and n.a[0].a[0] is n.a[0].a[1] else None)
local("fun-squared", lambda n, p: n.a[0] if n.op == "mul" and n.a[0] is n.a[1] and n.a[0].op in ast.FUN else None)
local("idiv-squared", lambda n, p: n.a[0] if n.op == "mul" and n.a[0] is n.a[1] and n.a[0].op in ("idiv", "div") else None)
local("square", lambda n, p: n.a[0] if n.op == "mul" and n.a[0] is n.a[1] else None)
local("sub-self", lambda n, p: n.a[0] if n.op == "sub" and n.a[0] is n.a[1] else None)
local("add-self", lambda n, p: n.a[0] if n.op == "add" and n.a[0] is n.a[1] else None)
local("const-times-const", lambda n, p: n.a[0] if n.op in ("cmul", "cmulr") and n.a[0].op in ("cmul", "cmulr", "cdivr", "cdivl") else None)
local("const-over-const", lambda n, p: n.a[0] if n.op in ("cdivr", "cdivl") and n.a[0].op in ("cmul", "cmulr", "cdivr", "cdivl") else None)
local("const-pow2", lambda n, p: n.a[0] if n.op in ("cmul", "cmulr") and n.a[0].op in ("cmul", "cmulr") and n.a[0].k[0] == n.k[0] else None)
local("E-as-PI", lambda n, p: N(n.op, n.a, ("PI",) + n.k[1:]) if n.op in ("cmul", "cmulr", "cdivr", "cdivl") else None)
local("ccoef-num", lambda n, p: N(n.op, n.a, (n.k[0], 1, n.k[2])) if n.op in ("cmul", "cmulr", "cdivr", "cdivl") else None)
local("ccoef-den", lambda n, p: N(n.op, n.a, (n.k[0], n.k[1], 1)) if n.op in ("cmul", "cmulr", "cdivr", "cdivl") else None)


def merged(roots, ops=("add", "sub")):
    """flatten sums into lists of (coefficient, node)"""


def lossy(name, key, minsize=1):
    """nodes with equal lossy key are treated as the same subexpression"""
    def f(roots, p):
        ser = {}
        first = {}

        def g(n, ch):
            m = N(n.op, ch, n.k)
            ks = tuple(ser[id(c)] for c in ch)
            k = key(n.op, ks, tuple(n.k), p)
            ser[id(m)] = k
            keep.append(m)
            if not n.a:
                return m
            if k in first:
                return first[k]
            first[k] = m
            return m
        keep = []
        return ast.rebuild(roots, g)
    R["lossy-" + name] = f


COMM = ("add", "mul", "ep", "rp", "lc", "ip", "sub", "sw", "sp", "div")


def base(op, ks, k, p):
    return (op,) + ks + (k,)


lossy("none", base)
lossy("order", lambda op, ks, k, p: (op,) + tuple(sorted(map(str, ks))) + (k,) if op in COMM else base(op, ks, k, p))
for q in ("mul", "ep", "rp", "lc", "ip", "sub", "div"):
    lossy("order-" + q, lambda op, ks, k, p, q=q: (op,) + tuple(sorted(map(str, ks))) + (k,) if op == q else base(op, ks, k, p))
lossy("scale", lambda op, ks, k, p: ks[0] if op in ("smul", "neg", "sdiv") else base(op, ks, k, p))
lossy("smul-k", lambda op, ks, k, p: base(op, ks, () if op in ("smul", "sdiv") else k, p))
lossy("shift-k", lambda op, ks, k, p: base(op, ks, () if op in ("sadd", "saddr", "ssub", "ssubr") else k, p))
lossy("lit-k", lambda op, ks, k, p: base(op, ks, (k[2],) if op == "lit" else k, p))
lossy("comp-k", lambda op, ks, k, p: base(op, ks, () if op == "comp" else k, p))
lossy("grade-k", lambda op, ks, k, p: base(op, ks, () if op == "grade" else k, p))
lossy("fun", lambda op, ks, k, p: base("F" if op in ast.FUN else op, ks, k, p))
lossy("const", lambda op, ks, k, p: base(op, ks, () if op in ("cmul", "cmulr", "cdivr", "cdivl") else k, p))
lossy("idiv-k", lambda op, ks, k, p: base(op, ks, () if op == "idiv" else k, p))
lossy("product-op", lambda op, ks, k, p: base("P" if op in ("mul", "ep", "lc", "ip", "rp") else op, ks, k, p))
lossy("revdual", lambda op, ks, k, p: base("R" if op in ("rev", "dual") else op, ks, k, p))
lossy("rev", lambda op, ks, k, p: ks[0] if op == "rev" else base(op, ks, k, p))
lossy("dual", lambda op, ks, k, p: ks[0] if op == "dual" else base(op, ks, k, p))
lossy("addsub", lambda op, ks, k, p: base("S" if op in ("add", "sub") else op, ks, k, p))
lossy("input", lambda op, ks, k, p: base(op, ks, (p.inputs[k[0]] if hasattr(p, "inputs") else p.types[k[0]],) if op == "in" else k, p))
lossy("second-arg", lambda op, ks, k, p: base(op, ks[:1], k, p))
lossy("first-arg", lambda op, ks, k, p: base(op, ks[1:], k, p) if len(ks) > 1 else base(op, ks, k, p))
lossy("inner-scale", lambda op, ks, k, p: base(op, ks, k, p) if op not in ("smul", "neg", "sdiv") else ("scaled",) + ks)


def differs(p, q):
    try:
        for row in p.data[:2]:
            a = p.with_(data=[row]).expected()[0]
            b = q.with_(data=[row]).expected()[0]
            for x, y in zip(a, b):
                for k in set(x) | set(y):
                    xv = x[k].v if k in x else 0.0
                    yv = y[k].v if k in y else 0.0
                    m = max([x[k].m] if k in x else [0] + [1e-300])
                    if abs(xv - yv) > 1e-6 * max(1e-6, min(m, 1e6)) and abs(xv - yv) > 1e-9:
                        return True
    except Exception:
        return True
    return False


def one(args):
    prof, seed, n, acc = args
    rng = random.Random(seed)
    cnt = {k: 0 for k in R}
    k = 0
    todo = gen.combos(prof) if prof.systematic else None
    if todo:
        rng.shuffle(todo)
    t = 0
    while k < n:
        t += 1
        p = gen.program(rng, prof, todo[t % len(todo)] if todo else None)
        if acc and not acc(p):
            continue
        k += 1
        for name, f in R.items():
            try:
                roots = f(p.roots, p)
            except Exception as e:
                if name not in one.err:
                    one.err.add(name)
                    print("rule", name, repr(e))
                continue
            if ast.ser(roots) == ast.ser(p.roots):
                continue
            if differs(p, p.with_(roots=roots)):
                cnt[name] += 1
    return cnt


one.err = set()


def plan_of(prop):
    plan = []

    class Ctx:
        quick = True
        def rule(self, *a): pass
        def n(self, a, b): return a
        def rng(self, *a): return random.Random(1)
        def note(self, *a): pass

    def fake(ctx, pl, **kw):
        plan.append((pl, kw.get("accept")))
    old, oldx = E.run, E.exhaustive_literals
    E.run, E.exhaustive_literals = fake, lambda c: None
    try:
        E.CHECKS[prop](Ctx())
    finally:
        E.run, E.exhaustive_literals = old, oldx
    return plan[0]


if __name__ == "__main__":
    props = [a for a in sys.argv[1:] if a.startswith("C")] or ["C01", "C02", "C03", "C18"]
    frac = float(next((a[5:] for a in sys.argv[1:] if a.startswith("frac=")), "0.3"))
    table = {}
    with multiprocessing.get_context("fork").Pool(int(os.environ.get("VP_JOBS", "8"))) as pool:
        for prop in props:
            pl, acc = plan_of(prop)
            jobs = []
            for i, (prof, n) in enumerate(pl):
                for j in range(8):
                    jobs.append((prof, "%s/%d/%d" % (prop, i, j), max(1, int(n * frac / 8)), acc))
            tot = {k: 0 for k in R}
            for c in pool.imap_unordered(one, jobs):
                for k, v in c.items():
                    tot[k] += v
            table[prop] = tot
    print("%-34s %s   (expected hits in one quick run)" % ("", "  ".join("%6s" % p for p in props)))
    for k in R:
        v = [table[p][k] / frac for p in props]
        print("%-34s %s%s" % (k, "  ".join("%6.1f" % x for x in v), "   <<<" if max(v) < 5 else ""))
