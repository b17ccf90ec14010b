"""C01 C02 C03 C06 C13 C18 C19: generated expression programs."""
from fractions import Fraction
from .. import ast, gen
from ..ast import N
from ..gen import Profile, PROD, LIN, SEL, FUNC
from ..pcheck import run, ALL, poly_only, features

BASE = "a case is one generated C++ program (expression DAG, typed inputs, 3 rows of input values) compiled against " \
       "/repo/public and compared with the reference algebra; non-trivial = at least 2 operators and a non-zero result"


def mix(a, **kw):
    d = dict(a)
    d.update(kw)
    return d


def c01(ctx):
    ctx.rule(BASE + "; distinct = different algebra, input types or expression")
    n = ctx.n(4200, 60000)
    run(ctx, [
        (Profile(systematic=True, inputs=(2, 4)), ctx.n(561, 5610)),
        (Profile(systematic=True, inputs=(2, 4), blades=3, models={"any": 2, "pga": 1, "custom": 1}, lits=0.05),
         ctx.n(1122, 11220)),
        (Profile(), n * 4 // 10),
        (Profile(size=(6, 14), caps=(60, 150, 300)), n * 2 // 10),
        (Profile(models={"custom": 1}, size=(2, 8)), n * 2 // 10),
        (Profile(size=(2, 5), share=0, neardup=0), n * 1 // 10),
        (Profile(ops=mix(ALL, **SEL), zero=0.15, unused=0.5), n * 1 // 10),
        (Profile(models={"any": 3, "pga": 1, "cga": 1}, shape=0.8, grades=(1, 3), inputs=(3, 4), size=(4, 9), idiom=0.8, share=0.05,
                 ops={"ep": 4, "rp": 1, "mul": 2, "lc": 1, "ip": 1, "add": 1, "sub": 1, "rev": 0.5, "dual": 0.5,
                      "smul": 0.5, "neg": 0.3}), n * 2 // 10),
    ])


def repeats(p):
    return bool(features(p) & {"shared-subexpression", "repeated-subexpression"})


def c02(ctx):
    ctx.rule(BASE + " and contains a shared, repeated or near-duplicate compound subexpression")
    n = ctx.n(4200, 60000)
    ops = mix(ALL, **SEL)
    run(ctx, [
        (Profile(share=0.5, neardup=0.15, size=(4, 14)), n * 3 // 10),
        (Profile(share=0.3, neardup=0.4, size=(4, 14), ops=ops), n * 3 // 10),
        (Profile(share=0.5, neardup=0.2, size=(5, 16), ops=mix(ALL, add=12, sub=8, smul=4), inputs=(1, 2)), n * 2 // 10),
        (Profile(share=0.4, neardup=0.25, size=(4, 12), ops=mix(ops, **FUNC)), n * 1 // 10),
        (Profile(share=0.6, neardup=0.2, size=(4, 12), ops={"ep": 4, "mul": 3, "add": 3, "sub": 2, "rev": 2, "dual": 1,
                                                            "lc": 1, "ip": 1}, inputs=(1, 2)), n * 1 // 10),
        (Profile(share=0.2, neardup=0.1, idiom=0.6, size=(4, 12), ops=mix(ops, **FUNC)), n * 2 // 10),
        (Profile(share=0.2, neardup=0.1, idiom=0.6, size=(4, 12), ops=mix(ops, sub=6), grades=(0, 3), inputs=(1, 3)),
         n * 1 // 10),
    ], need={"shared-subexpression", "repeated-subexpression"}, accept=repeats)


def c03(ctx):
    ctx.rule(BASE + " and contains a division, scalar function or irrational constant")
    n = ctx.n(3600, 60000)
    f4 = {k: 4 * v for k, v in FUNC.items()}
    run(ctx, [
        (Profile(systematic=set(FUNC), ops=mix(ALL, **FUNC, **SEL), inputs=(2, 4)), ctx.n(575, 5750)),
        (Profile(systematic=set(FUNC), ops=mix(ALL, **FUNC, **SEL), inputs=(2, 4), blades=2, lits=0.05,
                 models={"custom": 2, "vga": 1, "pga": 1, "cga2": 1}), ctx.n(575, 5750)),
        (Profile(ops=mix(ALL, **f4, **SEL), lits=0.08), n * 4 // 10),
        (Profile(ops=mix(LIN, mul=4, **f4), share=0.35, neardup=0.15, size=(3, 12)), n * 3 // 10),
        (Profile(ops=mix({"mul": 3, "add": 3, "sub": 2, "smul": 2, "sdiv": 2}, **f4), inputs=(1, 2), size=(2, 8)), n * 2 // 10),
        (Profile(ops=mix(ALL, **f4, **SEL), zero=0.2, roots=(1, 3)), n * 1 // 10),
        (Profile(ops=mix({"mul": 3, "add": 3, "sub": 2, "smul": 2, "comp": 1}, **f4), idiom=0.6, inputs=(1, 3),
                 size=(4, 10)), n * 2 // 10),
    ], need={"division", "function", "constant"})


def desugar(roots, scales=False):
    """Rewrite the derived operators into the primitive ones they abbreviate (and drop scale factors)."""
    def f(n, ch):
        if n.op == "sw":
            return N("mul", (N("mul", (ch[1], ch[0])), N("rev", (ch[1],)) if ch[1].op != "rev" else ch[1].a[0]))
        if n.op == "rp":
            return N("dual", (N("ep", (N("dual", (ch[0],)), N("dual", (ch[1],)))),))
        if n.op == "rev" and ch[0].op == "rev":
            return ch[0].a[0]
        if n.op in ("smul", "sdiv", "neg") and not scales:
            return ch[0]
        if n.op == "sp":
            return N("comp", (N("mul", ch),), (0,))
        return N(n.op, ch, n.k)
    return ast.rebuild(roots, f)


SUMS = ("add", "sub", "sadd", "saddr", "ssub", "ssubr")


def collapsed(n, memo):
    """(scale factor, key) of a node after equal summands were merged and zeros dropped; key None = zero"""
    r = memo.get(id(n))
    if r is not None:
        return r[1]
    c = [collapsed(x, memo) for x in n.a]
    if n.op == "in":
        r = (Fraction(1), "in%s" % n.k[0])
    elif n.op == "lit":
        r = (Fraction(n.k[1]), "lit%s" % n.k[2])
    elif n.op in ("smul", "sdiv", "neg"):
        f = Fraction(-1) if n.op == "neg" else Fraction(n.k[0]) if n.op == "smul" else Fraction(1, n.k[0])
        r = (f * c[0][0], c[0][1])
    elif n.op in SUMS:
        parts = {}
        for (f, k), sgn in zip(c, (-1, -1) if n.op == "ssub" else (1, -1) if n.op == "sub" else (1, 1)):
            inner = memo["sum", k] if ("sum", k) in memo else {k: Fraction(1)}
            for kk, ff in inner.items():
                if kk is not None:
                    parts[kk] = parts.get(kk, 0) + sgn * f * ff
        if n.k:
            parts["lit0"] = parts.get("lit0", 0) + (-n.k[0] if n.op == "ssubr" else n.k[0])
        parts = {k: f for k, f in parts.items() if f}
        if not parts:
            r = (Fraction(0), None)
        elif len(parts) == 1:
            r = [(f, k) for k, f in parts.items()][0]
        else:
            k = "S(%s)" % ";".join(sorted(parts))
            memo["sum", k] = parts
            r = (Fraction(1), k)
    elif any(k is None or not f for f, k in c):
        r = (Fraction(0), None)
    else:
        f = Fraction(1)
        for ff, _ in c:
            f *= ff
        ks = [k for _, k in c]
        if n.op in ("rev", "dual") and ks[0].startswith(n.op + "("):
            r = (f, ks[0][len(n.op) + 1:-1])
        elif n.op == "ep":
            r = (f, "W(%s)" % ";".join(k[2:-1] if k.startswith("W(") else k for k in ks))
        elif n.op == "ip":
            r = (f, "ip(%s)" % ";".join(sorted(ks)))
        else:
            r = (f, "%s%s(%s)" % (n.op, "" if not n.k else list(n.k), ";".join(ks)))
    memo[id(n)] = (n, r)
    return r


def unrepeated(p):
    """No compound subexpression occurs twice once derived operators are written out, scale factors are ignored,
    sums are flattened (with and without merging equal summands) and exterior products associated freely: such repeats
    become temporaries of the library, whose cancellation is outside the property."""
    if not poly_only(p):
        return False
    roots = desugar(p.roots)
    memo, count, groups = {}, {}, []

    def key(n):
        k = memo.get(id(n))
        if k is None:
            if n.op in SUMS:
                k = "S(%s)" % ";".join(sorted(parts(n, SUMS)))
            elif n.op == "ep":
                k = "W(%s)" % ";".join(parts(n, ("ep",)))
            elif n.op == "lit":
                k = "lit%s" % n.k[2]
            elif n.op == "in":
                k = "in%s" % n.k[0]
            elif n.op == "ip":
                k = "ip(%s)" % ";".join(sorted(key(c) for c in n.a))
            else:
                k = "%s%s(%s)" % (n.op, "" if not n.k else list(n.k), ";".join(key(c) for c in n.a))
            memo[id(n)] = k
        return k

    def parts(n, ops):
        out = []
        for c in n.a:
            out += parts(c, ops) if c.op in ops else [key(c)]
        if n.op in ops and n.k:
            out.append("lit0")
        return out

    total = [0]

    def visit(n, parent):
        total[0] += 1
        if total[0] > 400:
            return
        if n.a:
            fam = SUMS if n.op in SUMS else (n.op,) if n.op == "ep" else None
            if fam is None or parent not in fam:
                k = key(n)
                count.setdefault(k, set()).add(total[0])
                if fam:
                    groups.append((fam, parts(n, fam)))
        for c in n.a:
            visit(c, n.op)
    for r in roots:
        visit(r, None)
    if total[0] > 400 or any(len(v) > 1 for v in count.values()):
        return False
    for i in range(len(groups)):
        for j in range(i):
            if groups[i][0] == groups[j][0] and len(set(groups[i][1]) & set(groups[j][1])) > 1:
                return False
    # again with merged summands
    cm, seen, total = {}, {}, [0]
    again = desugar(p.roots, True)
    groups = []

    def visit2(n, above):
        total[0] += 1
        k = collapsed(n, cm)[1]
        if k is not None and k != above and "(" in k and not (k[0] in "SW" and above is not None and above[0] == k[0]):
            seen.setdefault(k, set()).add(total[0])
            if k[0] == "S":
                groups.append(set(cm["sum", k]))
        for c in n.a:
            visit2(c, k)
    for r in again:
        visit2(r, None)
    for k, v in seen.items():
        if len(v) > 1:
            return False
    return not any(len(groups[i] & groups[j]) > 1 for i in range(len(groups)) for j in range(i))


def c06(ctx):
    ctx.rule(BASE + "; the returned element list must be exactly the elements whose coefficient is not identically "
             "zero, decided by evaluating the reference at random points of a 61-bit prime field")
    n = ctx.n(4000, 60000)
    cancel = mix(ALL, **SEL)
    run(ctx, [
        (Profile(share=0, neardup=0.0, ops=cancel, size=(2, 8), inputs=(1, 2)), n * 4 // 10),
        (Profile(share=0, neardup=0.3, ops=mix(cancel, sub=10, ip=4, lc=4), size=(3, 10), inputs=(1, 2)), n * 3 // 10),
        (Profile(share=0, neardup=0, ops={"mul": 4, "ep": 4, "rev": 3, "sub": 4, "sw": 2, "rp": 2, "lc": 2, "ip": 2,
                                          "dual": 1, "grade": 2, "comp": 1}, inputs=(1, 2)), n * 3 // 10),
    ], judge="structure", accept=unrepeated)


def c13(ctx):
    ctx.rule(BASE + "; the program returns a tuple of 2 to 9 expressions, every member is compared in order")
    n = ctx.n(2400, 40000)
    run(ctx, [
        (Profile(roots=(2, 4), share=0.3, size=(1, 7)), n * 4 // 10),
        (Profile(roots=(2, 4), share=0.4, neardup=0.15, ops=mix(ALL, **FUNC, **SEL), zero=0.1, size=(1, 7)), n * 4 // 10),
        (Profile(roots=(2, 5), share=0.5, neardup=0.2, size=(2, 9), inputs=(1, 2)), n * 2 // 10),
        (Profile(roots=(6, 9), share=0.4, neardup=0.1, size=(1, 3), inputs=(1, 3), zero=0.08, ops=mix(ALL, **SEL)), n // 20),
    ], need={"tuple"})


def c18(ctx):
    ctx.rule(BASE + " and contains a component selection, a grade selection or a scalar product")
    n = ctx.n(3200, 60000)
    s4 = {k: 5 * v for k, v in SEL.items()}
    run(ctx, [
        (Profile(systematic=set(SEL), ops=mix(ALL, **SEL, **FUNC), inputs=(2, 4)), ctx.n(500, 5000)),
        (Profile(ops=mix(ALL, **s4), idiom=0.7, size=(4, 9), share=0.05), n * 2 // 10),
        (Profile(ops=mix(ALL, **s4)), n * 5 // 10),
        (Profile(ops=mix(ALL, **s4), share=0.4, neardup=0.25, size=(3, 10), inputs=(1, 2)), n * 3 // 10),
        (Profile(ops=mix(ALL, **s4, **FUNC), zero=0.1, roots=(1, 2)), n * 2 // 10),
    ], need={"selection"})


def c19(ctx):
    ctx.rule(BASE + " and contains a basis literal; additionally every literal of every model is checked alone and in "
             "products with every other literal")
    lits = {"pga": 4, "vga": 3, "pga2": 3, "cga": 3, "cga2": 2}
    n = ctx.n(1900, 40000)
    run(ctx, [
        (Profile(models=lits, lits=0.5), n * 5 // 10),
        (Profile(models=lits, lits=0.7, ops=mix(ALL, **SEL), zero=0.05, share=0.25, neardup=0.15), n * 3 // 10),
        (Profile(models=lits, lits=0.4, ops=mix(ALL, **FUNC, **SEL), roots=(1, 3)), n * 2 // 10),
    ], need={"literal"})
    exhaustive_literals(ctx)


def exhaustive_literals(ctx):
    from .. import models, prog, pcheck
    from ..prog import Program
    progs = []
    rng = ctx.rng("lits")
    for key in ("pga", "vga", "pga2", "cga", "cga2"):
        m = models.model(key)
        for s, b, sg in m.lits:
            for c in (1, rng.choice([2, 3, 7, 11, 100])):
                L = N("lit", (), (s, c, b, sg))
                progs.append(Program(m, "double", ["scalar"], [N("mul", (N("in", (), (0,)), L))], [[1.5]]))
        pairs = [(x, y) for x in m.lits for y in m.lits]
        if ctx.quick:
            rng.shuffle(pairs)
            pairs = pairs[:60]
        for i in range(0, len(pairs), 3):
            roots = []
            for (s, b, sg), (s2, b2, sg2) in pairs[i:i + 3]:
                o = rng.choice(["mul", "ep", "lc", "ip", "rp", "add"])
                roots.append(N("mul", (N("in", (), (0,)),
                                       N(o, (N("lit", (), (s, rng.choice([1, 2]), b, sg)), N("lit", (), (s2, 1, b2, sg2)))))))
            progs.append(Program(m, "double", ["scalar"], roots, [[-0.75]]))
    pcheck.drive(ctx, progs, pcheck.judge_value, "value", None, "g++", ("-O0",), 12, "exhaustive-literals")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C06": c06, "C13": c13, "C18": c18, "C19": c19}
