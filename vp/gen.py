"""Random generators of programs (expression DAG + typed inputs + input values)."""
import random
from . import models, ast
from .ast import N, TooBig
from .ga import DomainError, popcount
from .prog import Program

PROD = {"mul": 5, "ep": 3, "rp": 3, "lc": 2, "ip": 2, "sw": 2}
LIN = {"add": 5, "sub": 4, "neg": 1, "rev": 2, "dual": 2, "smul": 2, "sdiv": 1.5, "sadd": 1, "saddr": 0.7, "ssub": 1,
       "ssubr": 0.7}
SEL = {"comp": 2, "grade": 2, "sp": 1.5}
FUNC = {"div": 3, "idiv": 1.5, "sqrt": 1.5, "sin": 1, "cos": 1, "tan": 0.7, "cmul": 1, "cmulr": 1, "cdivr": 0.7,
        "cdivl": 0.7}
CUSTOM = [(2, 0, 0), (1, 1, 0), (3, 0, 0), (0, 2, 0), (1, 0, 1), (2, 1, 0), (0, 3, 0), (1, 3, 0), (1, 2, 1), (0, 0, 3),
          (1, 1, 1), (2, 0, 2), (4, 0, 0), (0, 1, 1), (1, 0, 0), (0, 1, 0), (5, 0, 0), (2, 2, 1), (3, 3, 0), (2, 1, 1)]


# Integers that do not fit the narrower types, or lie beyond the first digits, an implementation might get away with
BIG = [8, 9, 10, -10, 12, 16, 100, 127, -128, 128, 255, 256, 1000, -1000, 1024, 4096, 32767, 32768, -40000, 65536, 100003,
       1000000, -16777217]
BIGDEN = [8, -9, 10, 11, 13, 16, 25, -32, 60, 64, 100, 127, -128, 255, 256, -500, 720, 999]

ROOTDEN = [1024, 4097, 5000, -10007, 32768, -32769, 65537, 1000000, -1048577]


def wchoice(rng, d):
    ks = list(d)
    return rng.choices(ks, [d[k] for k in ks])[0]


class Profile:
    def __init__(self, models=None, ops=None, share=0.15, neardup=0.05, size=(2, 9), roots=(1, 1), lits=0.12,
                 T=None, caps=(40, 120, 250), inputs=(1, 4), rows=3, types=None, raw=True, lets=None, tag="",
                 zero=0.0, unused=0.0, blades=0, idiom=0.12, grades=None, shape=0.0, systematic=False, same=0.12, wide=0.02):
        self.models = models or {"pga": 4, "vga": 3, "pga2": 2, "cga": 2, "cga2": 1, "custom": 3}
        self.ops = ops or dict(PROD, **LIN)
        self.share, self.neardup, self.size, self.roots, self.lits = share, neardup, size, roots, lits
        self.T = T or {"double": 4, "float": 1}
        self.caps, self.inputs, self.rows, self.types, self.raw = caps, inputs, rows, types, raw
        self.lets, self.tag, self.zero, self.unused = lets, tag, zero, unused
        self.idiom = idiom        # probability of a structured production (see Gen.structured)
        self.systematic = systematic   # every ordered pair (outer operator, operand position, inner operator) in turn;
        # a set restricts it to pairs that contain one of its operators
        self.wide = wide          # probability of unused arguments (up to 300 scalars) around the used ones
        self.same = same          # probability that all inputs have one type
        self.shape = shape        # probability that the inputs' elements are disjoint, co-disjoint or nested
        self.grades = grades      # all inputs are homogeneous of a grade in this range, with 1..3 elements
        self.blades = blades      # all inputs are entities of 1..blades basis blades

    def but(self, **kw):
        import copy
        p = copy.copy(self)
        for k, v in kw.items():
            setattr(p, k, v)
        return p


def pick_model(rng, prof):
    k = wchoice(rng, prof.models)
    if k == "any":
        while True:
            d = rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8] if not prof.shape else [4, 4, 5, 5, 6, 6, 7, 8])
            a = rng.randint(0, d)
            v = rng.randint(0, d - a)
            if (a, v, d - a - v) not in ((3, 1, 0), (4, 1, 0)):
                return models.custom(a, v, d - a - v)
    if k == "custom":
        return models.custom(*rng.choice(CUSTOM))
    return models.model(k)


class Types(list):
    kind = None


def pick_types(rng, model, prof):
    n = rng.randint(*prof.inputs)
    out = []
    named = [k for k in model.types if k not in ("scalar", "raw")]
    if prof.types:
        named = [k for k in named if k in prof.types] or named
    dim = model.alg.dim
    if prof.blades:
        return ["ent:" + ",".join(map(str, sorted(rng.sample(range(1 << dim), min(1 << dim, rng.randint(1, prof.blades))))))
                for _ in range(n)]
    if prof.shape and dim >= 3 and rng.random() < prof.shape:
        n = max(2, min(n, 4)) if rng.random() < 0.8 else min(dim, rng.randint(4, 7))
        gens = [1 << i for i in range(dim)]
        rng.shuffle(gens)
        kind = rng.choice(["ep", "ep", "rp", "lc"])
        cuts = sorted(rng.sample(range(1, dim), min(dim - 1, n - 1)))
        groups = [gens[a:b] for a, b in zip([0] + cuts, cuts + [dim])]
        acc = []
        for g in groups:
            acc += g
            src = acc if kind == "lc" else g
            els = set()
            for _ in range(rng.randint(1, 3)):
                k = rng.choice([1, 1, 2, len(src)]) if kind != "lc" else len(src)
                els.add(sum(rng.sample(src, min(k, len(src)))))
            if rng.random() < 0.3:
                els.add(rng.randrange(1 << dim))
            if kind == "rp":
                els = {(1 << dim) - 1 - e for e in els}
            out.append("ent:" + ",".join(map(str, sorted(els))))
        out = Types(out)
        out.kind = kind
        return out
    if prof.grades:
        for _ in range(n):
            g = rng.randint(prof.grades[0], min(prof.grades[1], dim))
            bl = [b for b in range(1 << dim) if popcount(b) == g]
            out.append("ent:" + ",".join(map(str, sorted(rng.sample(bl, rng.randint(1, min(3, len(bl))))))))
        return out
    for i in range(n):
        r = rng.random()
        if r < 0.5 and named:
            out.append(rng.choice(named))
        elif r < 0.62:
            out.append("scalar")
        elif r < 0.67 and prof.raw:
            out.append("raw")
        elif r < 0.85:
            # homogeneous grade
            g = rng.randint(1, max(1, dim - 1))
            bl = [b for b in range(1 << dim) if popcount(b) == g]
            k = rng.randint(1, min(len(bl), 6))
            out.append("ent:" + ",".join(map(str, sorted(rng.sample(bl, k)))))
        else:
            k = rng.randint(1, min(1 << dim, 6))
            out.append("ent:" + ",".join(map(str, sorted(rng.sample(range(1 << dim), k)))))
    if rng.random() < prof.same:
        out = [rng.choice(out)] * max(2, len(out))
    if all(t in ("scalar", "raw") for t in out) and rng.random() < 0.8:
        b = rng.sample(range(1 << dim), min(1 << dim, rng.randint(1, 4)))
        out[rng.randrange(len(out))] = "ent:" + ",".join(map(str, sorted(b)))
    return out


class Gen:
    def __init__(self, rng, model, types, prof, cap):
        self.rng, self.model, self.types, self.prof, self.cap = rng, model, types, prof, cap
        self.tobjs = [model.type(t) for t in types]
        self.pool = []

    def ok(self, n):
        try:
            ast.estimate([n], self.model, self.tobjs, self.cap)
            return True
        except TooBig:
            return False

    def leaf(self):
        r = self.rng
        if self.model.lits and r.random() < self.prof.lits:
            s, b, sg = r.choice(self.model.lits)
            c = r.choice([1, 1, 1, 2, 3, -1, -2, 5])
            if r.random() < 0.05:
                c = r.choice(BIG)
            if r.random() < self.prof.zero:
                c = 0
            return N("lit", (), (s, c, b, sg))
        return N("in", (), (r.randrange(len(self.types)),))

    def k(self):
        r = self.rng
        if r.random() < self.prof.zero:
            return 0
        if r.random() < 0.06:
            return r.choice(BIG)
        return r.choice([2, 3, -1, -2, 5, -3, 4, 7, 1, 6])

    def unary_scalar_ok(self, n):
        """is the node scalar by construction?"""
        o = n.op
        if o == "in":
            return self.types[n.k[0]] in ("scalar", "raw")
        if o in ("comp", "sp", "idiv", "cdivl") or o in ast.FUN:
            return True
        if o in ("neg", "smul", "sdiv", "sadd", "saddr", "ssub", "ssubr", "rev", "cmul", "cmulr", "cdivr"):
            return self.unary_scalar_ok(n.a[0])
        if o in ("add", "sub", "mul", "div"):
            return self.unary_scalar_ok(n.a[0]) and self.unary_scalar_ok(n.a[1])
        return False

    def scalar(self, size):
        r = self.rng
        cands = [n for n in self.pool if self.unary_scalar_ok(n)]
        if cands and r.random() < 0.25:
            return r.choice(cands)
        sc = [i for i, t in enumerate(self.types) if t in ("scalar", "raw")]
        x = r.random()
        if sc and (x < 0.45 or size <= 1):
            n = N("in", (), (r.choice(sc),))
        elif x < 0.8 or size <= 1:
            e = self.expr(size - 1)
            # prefer an element that is present
            try:
                sup, _ = ast.estimate([e], self.model, self.tobjs, 10 ** 6)
                els = sorted(sup[id(e)])
            except TooBig:
                els = []
            if not els:
                els = [0]
            n = N("comp", (e,), (r.choice(els),))
        else:
            n = N("sp", (self.expr(size // 2), self.expr(size // 2)))
        y = r.random()
        if y < 0.2:
            n = N("mul", (n, n))
        elif y < 0.35:
            n = N("add", (n, self.scalar(size - 2)))
        elif y < 0.45:
            n = N("mul", (n, self.scalar(size - 2)))
        elif y < 0.6:
            n = N(r.choice(["sadd", "saddr"]), (n,), (r.choice([1, 2, 3, 5]),))
        elif y < 0.68:
            n = N("smul", (n,), (r.choice([2, 3, -1, -2]),))
        return n

    def add_pool(self, n):
        if n.a:
            self.pool.append(n)
        return n

    def mutate(self, root):
        """a copy of `root` that differs in one detail (operand, order, scale, element, grade)"""
        r = self.rng
        nodes = [n for n in ast.walk([root])]
        victim = r.choice(nodes)
        inner = [n for n in nodes if n.a and n.op not in ("add",)]
        if inner and r.random() < 0.6:
            victim = r.choice(inner)

        def f(n, ch):
            if n is not victim:
                return N(n.op, ch, n.k)
            if n.op in ast.FUN:
                return N(r.choice([x for x in ast.FUN if x != n.op]), ch)
            if n.op in ("cmul", "cmulr", "cdivr", "cdivl"):
                k = list(n.k)
                i = r.randrange(3)
                k[i] = {"PI": "E", "E": "PI"}[k[0]] if i == 0 else k[i] % 3 + 1
                return N(n.op, ch, k)
            if n.op == "in":
                same = [i for i, t in enumerate(self.types) if self.unary_scalar_ok(n) == (t in ("scalar", "raw"))]
                return N("in", (), (r.choice(same),))
            if n.op == "lit":
                return N("lit", (), (n.k[0], n.k[1] + r.choice([1, -1, -2 * n.k[1]]) or 1) + tuple(n.k[2:]))
            if n.op in ("smul", "sdiv", "sadd", "saddr", "ssub", "ssubr", "idiv"):
                k = n.k[0] + r.choice([1, -1, -2 * n.k[0]])
                return N(n.op, ch, (k or 1,))
            if n.op == "comp":
                return N(n.op, ch, (self.present(ch[0]),))
            if n.op == "grade":
                return N(n.op, ch, (popcount(self.present(ch[0])),))
            if len(ch) == 2 and n.op in ast.BIN:
                if r.random() < 0.5:
                    return N(n.op, ch[::-1], n.k)
                o = r.choice([x for x in ("mul", "ep", "rp", "lc", "ip", "add", "sub") if x in self.prof.ops] or [n.op])
                return N(o, ch, n.k)
            if n.op in ("rev", "dual", "neg"):
                return N(r.choice(["rev", "dual", "neg"]), ch, n.k)
            return N("neg", (N(n.op, ch, n.k),))
        return ast.rebuild([root], f)[0]

    def rename(self, root):
        """a copy of `root` in which the inputs change places (shifted, swapped or permuted)"""
        r = self.rng
        n = len(self.types)
        sc = [i for i, t in enumerate(self.types) if t in ("scalar", "raw")]
        m = list(range(n))
        for group in (sc, [i for i in range(n) if i not in sc]):
            k = r.randrange(3)
            if k == 0:
                to = group[1:] + group[:1]
            elif k == 1:
                to = group[::-1]
            else:
                to = r.sample(group, len(group))
            for a, b in zip(group, to):
                m[a] = b
        return ast.rebuild([root], lambda x, ch: N("in", (), (m[x.k[0]],)) if x.op == "in" else N(x.op, ch, x.k))[0]

    def rescale(self, root):
        """a copy of `root` in which one node is multiplied by an integer, possibly deep below other operators"""
        r = self.rng
        nodes = [n for n in ast.walk([root])]
        victim = r.choice(nodes)
        k = r.choice([2, 2, 3, -1, -1, -2, 5])

        def f(n, ch):
            m = N(n.op, ch, n.k)
            if n is not victim:
                return m
            return N("neg", (m,)) if k == -1 and r.random() < 0.5 else N("smul", (m,), (k,))
        return ast.rebuild([root], f)[0]

    def tree(self, op, parts):
        """the parts in order, combined by one associative-looking operator with random bracketing"""
        r = self.rng
        parts = list(parts)
        while len(parts) > 1:
            i = r.choice([0, len(parts) - 2, r.randrange(len(parts) - 1)])
            o = op if isinstance(op, str) else r.choice(op)
            parts[i:i + 2] = [N(o, (parts[i], parts[i + 1]))]
        return parts[0]

    def structured(self, size):
        """Shapes that expression simplifiers treat specially: long chains of one operator in any bracketing and sums
        of variants (rescaled, reordered, mutated) of one subexpression."""
        r, ops = self.rng, self.prof.ops
        kinds = ["chain", "chain", "chain", "chain", "variants", "twice", "pair"] if getattr(self.types, "kind", None) else \
            ["chain", "variants", "variants", "variants", "twice", "pair", "pair", "wrapped"]
        if ops.get("comp"):
            kinds += ["selections"] * (3 if ops["comp"] > 4 else 1)
        kind = r.choice(kinds)
        if kind in ("pair", "wrapped", "selections"):
            return getattr(self, kind)(size)
        k = r.choice([3, 3, 4, 4, 5, 5, 6, 8]) if kind == "chain" else r.randint(2, 4)
        each = max(1, size // k)
        sums = [o for o in ("add", "sub") if o in ops] or ["add"]
        if kind == "chain":
            op = r.choice([o for o in ("ep", "ep", "mul", "rp", "ip", "lc", "add") if o in ops] or ["add"])
            kind = getattr(self.types, "kind", None)
            if kind and r.random() < 0.7:
                op = kind
            if kind and len(self.types) > 1 and r.random() < 0.8:
                # distinct inputs, each possibly decorated by a grade-preserving operator
                ids = list(range(len(self.types)))
                if r.random() < (0.3 if op == "lc" else 0.8):
                    r.shuffle(ids)
                parts = [N("in", (), (i,)) for i in ids]
                for j in range(len(parts)):
                    x = r.random()
                    if x < 0.12:
                        parts[j] = N("rev", (parts[j],))
                    elif x < 0.24:
                        parts[j] = N("smul", (parts[j],), (r.choice([2, -1, 3, -2]),))
                    elif x < 0.34:
                        parts[j] = N("add", (parts[j], self.leaf()))
                    elif x < 0.40 and len(parts) < 4:
                        parts[j] = N("neg", (parts[j],))
                if r.random() < 0.25:
                    parts.insert(r.randrange(len(parts) + 1), self.leaf())
                return self.tree(sums if op == "add" else op, parts)
            return self.tree(sums if op == "add" else op, [self.expr(r.choice([1, 1, each])) for _ in range(k)])
        if kind == "variants":
            cands = [n for n in self.pool if len(ast.walk([n])) < 12]
            base = r.choice(cands) if cands and r.random() < 0.4 else self.expr(max(2, min(4, size // 2)))
            parts = [base]
            for _ in range(r.randint(1, 2)):
                parts.append(self.wrap(base) if r.random() < 0.2 else self.rescale(base) if r.random() < 0.5 else self.mutate(base) if r.random() < 0.5 else
                             self.rename(base) if r.random() < 0.5 else base)
            parts += [self.expr(r.choice([1, 1, 2, each])) for _ in range(r.randint(0, 2))]
            r.shuffle(parts)
            if "smul" in ops and r.random() < 0.5:
                i = r.randrange(len(parts))
                parts[i] = N("smul", (parts[i],), (r.choice([2, -1, 3, -2, 5]),))
            return self.tree(sums, parts)
        # the same operands under the same operator in two orders or bracketings
        op = r.choice([o for o in ("ep", "mul", "rp", "ip", "lc") if o in ops] or ["add"])
        leaves = [self.expr(r.choice([1, 1, 2])) for _ in range(r.randint(2, 3))]
        a = self.tree(op, leaves)
        if r.random() < 0.6:
            r.shuffle(leaves)
        b = self.tree(op, leaves)
        o2 = r.choice([o for o in ("add", "sub", "mul", "ep", "ip", "lc") if o in ops] or ["add"])
        return N(o2, (a, b))

    def wrap(self, e):
        """e below one unary operator, or its operand: in postfix order one is a prefix of the other"""
        r = self.rng
        if len(e.a) == 1 and r.random() < 0.3:
            return e.a[0]
        o = r.choice([x for x in ("comp", "comp", "grade", "grade", "rev", "dual") if x in self.prof.ops] or ["neg"])
        return N(o, (e,), (self.present(e),) if o == "comp" else (popcount(self.present(e)),) if o == "grade" else ())

    def expr(self, size):
        r, prof = self.rng, self.prof
        if size <= 1:
            return self.leaf()
        if size >= 4 and r.random() < prof.idiom:
            n = self.structured(size)
            if self.ok(n):
                return self.add_pool(n)
        if self.pool and r.random() < prof.share:
            return r.choice(self.pool)
        if self.pool and r.random() < prof.neardup:
            n = r.choice(self.pool)
            n = self.mutate(n) if r.random() < 0.75 else self.rename(n)
            if self.ok(n):
                return self.add_pool(n)
        for _ in range(4):
            n = self.build(wchoice(r, prof.ops), size, self.expr, self.scalar)
            if self.ok(n):
                return self.add_pool(n)
        return self.leaf()

    def present(self, e, els=None):
        """an element that (by estimate) occurs in e"""
        r = self.rng
        try:
            sup, _ = ast.estimate([e], self.model, self.tobjs, self.cap)
            if sup[id(e)]:
                return r.choice(sorted(sup[id(e)]))
        except TooBig:
            pass
        return r.randrange(1 << self.model.alg.dim)

    def as_scalar(self, e):
        return e if self.unary_scalar_ok(e) else N("comp", (e,), (self.present(e),))

    def build(self, o, size, expr, scalar):
        """a node with operator o whose operands come from the given generators"""
        r = self.rng
        rest = max(1, size - 1)
        if o in ast.BIN or o == "sp":
            ls = r.randint(1, rest)
            return N(o, (expr(ls), expr(max(1, rest - ls))))
        if o in ("rev", "dual", "neg"):
            return N(o, (expr(rest),))
        if o == "sdiv":
            return N(o, (expr(rest),), (r.choice(BIGDEN if r.random() < 0.08 else [2, 3, -2, 4, 5, -1, 7, -3]),))
        if o in ("smul", "sadd", "saddr", "ssub", "ssubr"):
            return N(o, (expr(rest),), (self.k(),))
        if o == "comp":
            e = expr(rest)
            return N(o, (e,), (self.present(e) if r.random() < 0.75 else r.randrange(1 << self.model.alg.dim),))
        if o == "grade":
            e = expr(rest)
            g = r.randint(0, self.model.alg.dim)
            if r.random() < 0.7:
                g = popcount(self.present(e))
            return N(o, (e,), (g,))
        if o == "div":
            ls = r.randint(1, rest)
            num = expr(ls)
            den = scalar(max(1, rest - ls))
            if r.random() < 0.2:      # something that can cancel
                num = N("mul", (num, den) if r.random() < 0.5 else (den, num))
            return N(o, (num, den))
        if o == "idiv":
            return N(o, (scalar(rest),), (r.choice(BIG if r.random() < 0.06 else [1, 1, 2, -1, 3, -2]),))
        if o in ast.FUN:
            n = N(o, (scalar(rest),))
            return N("mul", (n, n)) if r.random() < 0.2 else n
        if o in ("cmul", "cmulr", "cdivr"):
            return N(o, (expr(rest),), (r.choice(["PI", "E"]), r.choice([1, 1, 2, -1, 3]), r.choice([1, 1, 2, 3])))
        if o == "cdivl":
            return N(o, (scalar(rest),), (r.choice(["PI", "E"]), r.choice([1, 1, 2, -1]), r.choice([1, 1, 2])))
        raise KeyError(o)

    def pair(self, size):
        """two or three operators drawn uniformly, the inner ones operands of the outer one"""
        r = self.rng
        ops = sorted(self.prof.ops)

        def level(depth):
            def kid(_):
                if depth == 0 or r.random() < 0.25:
                    return self.expr(1)
                return level(depth - 1)
            o = r.choice(ops)
            return self.build(o, 3, kid, lambda s: self.as_scalar(kid(s)))
        return level(r.choice([1, 1, 2]))

    def combo(self, outer, pos, inner):
        """the given operator nested in the given operand position of the other one"""
        r = self.rng

        def kid(_):
            return self.leaf()
        calls = [0]

        def at(scalar):
            def f(_):
                i = calls[0]
                calls[0] += 1
                e = self.build(inner, 3, kid, lambda s: self.as_scalar(kid(s))) if i == pos or pos == 2 else kid(1)
                return self.as_scalar(e) if scalar else e
            return f
        n = self.build(outer, 3, at(False), at(True))
        x = r.random()
        if x < 0.15:
            n = self.tree(["add", "sub"], r.sample([n, self.leaf()], 2))
        elif x < 0.3:
            n = self.build(r.choice(sorted(self.prof.ops)), 3, lambda _, e=n: e if r.random() < 0.7 else self.leaf(),
                           lambda _, e=n: self.as_scalar(e))
        return n

    def wrapped(self, size):
        """an operator applied to a sum of scaled or shifted terms"""
        r = self.rng
        ops = self.prof.ops
        o = r.choice([x for x in sorted(ops) if x not in ("add", "sub")] or ["neg"])

        def kid(_):
            parts = [self.expr(r.choice([1, 1, 2])) for _ in range(r.randint(2, 3))]
            for i in range(len(parts)):
                if r.random() < 0.5:
                    k = r.choice([x for x in ("smul", "neg", "sdiv", "sadd", "ssub") if x in ops] or ["smul"])
                    parts[i] = self.build(k, 2, lambda _, e=parts[i]: e, None)
            return self.tree(["add", "sub"], parts)
        return self.build(o, 3, kid, lambda s: self.as_scalar(kid(s)))

    def selections(self, size):
        """several different parts of one expression, recombined"""
        r = self.rng
        e = self.expr(max(1, size // 2))
        parts = []
        for _ in range(r.randint(2, 3)):
            o = r.choice([x for x in ("comp", "comp", "grade", "sp") if x in self.prof.ops] or ["comp"])
            n = N("sp", (e, self.expr(1))) if o == "sp" else self.build(o, 2, lambda _: e, None)
            x = r.random()
            if x < 0.3:
                n = N("mul", (n, self.leaf()) if r.random() < 0.5 else (self.leaf(), n))
            elif x < 0.5:
                n = N("smul", (n,), (r.choice([2, -1, 3, -2]),))
            elif x < 0.65 and any(f in self.prof.ops for f in ast.FUN):
                n = N(r.choice(ast.FUN), (self.as_scalar(n),))
            parts.append(n)
        return self.tree(["add", "sub"], parts)


def value(rng, style):
    if style == 0:
        return rng.choice([-3, -2, -1, 1, 2, 3, 0.5, -0.5, 1.5, 4, 0])
    if style == 1:
        return rng.choice([1, 2, 3, 0.5, 1.5, 0.25, 4, 2.5])
    return round(rng.uniform(-3, 3), 3)


def make_rows(rng, types, nrows):
    rows = []
    for i in range(nrows):
        style = i % 3 if nrows > 1 else rng.randrange(3)
        row = []
        for t in types:
            if t.kind == "rotor":
                row.append(round(rng.uniform(-3, 3), 2) or 0.5)
                row += [value(rng, style) for _ in range(3)]
            else:
                row += [value(rng, style) for _ in range(t.nraw)]
        rows.append(row)
    return rows


def dedup_unused(roots, types):
    """drop inputs that are never used (renumbering)"""
    used = sorted({n.k[0] for n in ast.walk(roots) if n.op == "in"})
    if not used:
        return roots, types
    m = {o: i for i, o in enumerate(used)}
    roots = ast.rebuild(roots, lambda n, ch: N("in", (), (m[n.k[0]],)) if n.op == "in" else N(n.op, ch, n.k))
    return roots, [types[i] for i in used]


def widen(rng, roots, types, dim):
    """put unused arguments (possibly many scalars, possibly none) between the used ones, sometimes an empty entity"""
    total = rng.choice([0, 1, 2, 8, 40, 80, 140, 300])
    extra = ["ent:"] if not total or rng.random() < 0.3 else []
    while total > 0:
        k = min(total, 1 << dim)
        if rng.random() < 0.3:
            k = rng.randint(1, k)
        extra.append(rng.choice(["scalar", "raw"]) if k == 1 else
                     "ent:" + ",".join(map(str, sorted(rng.sample(range(1 << dim), k)))))
        total -= k
        if len(extra) > 20:
            break
    slots = list(types)
    pos = [rng.randint(0, 1) * rng.randint(0, len(slots)) for _ in extra]     # mostly first, so that the used ones move
    order = sorted([(i, 1, i) for i in range(len(slots))] + [(q, 0, len(slots) + j) for j, q in enumerate(pos)])
    alltypes = slots + extra
    m = {o[2]: i for i, o in enumerate(order)}
    roots = ast.rebuild(roots, lambda n, ch: N("in", (), (m[n.k[0]],)) if n.op == "in" else N(n.op, ch, n.k))
    return roots, [alltypes[o[2]] for o in order]


def fill_data(rng, p, nrows):
    """Choose input values inside the domain of the expression; None if none found."""
    ts = p.tobjs()
    rows = []
    for attempt in range(12):
        for row in make_rows(rng, ts, nrows):
            q = p.with_(data=[row])
            try:
                ref = q.expected()[0]
            except (DomainError, OverflowError, ZeroDivisionError):
                continue
            if any(not (c.m < 1e12) for mv in ref for c in mv.values()):
                continue
            rows.append(row)
        if len(rows) >= nrows:
            break
    if not rows:
        return None
    p.data = rows[:nrows]
    return p


def combos(prof):
    """all (outer, position, inner) of a profile"""
    out = []
    for o in sorted(prof.ops):
        for pos in range(3 if o in ast.BIN or o in ("sp", "div") else 1):      # 2 = both operands
            for i in sorted(prof.ops):
                if prof.systematic is True or o in prof.systematic or i in prof.systematic:
                    out.append((o, pos, i))
    return out


def program(rng, prof, combo=None):
    """One random program, or raises after many failed attempts (never expected)."""
    for attempt in range(200):
        model = pick_model(rng, prof)
        types = pick_types(rng, model, prof)
        cap = rng.choice(prof.caps)
        g = Gen(rng, model, types, prof, cap)
        nroots = rng.randint(*prof.roots)
        roots = []
        for i in range(nroots):
            e = g.expr(rng.randint(*prof.size)) if combo is None else g.combo(*combo)
            if nroots > 1 and roots and rng.random() < 0.15:
                e = rng.choice(roots + g.pool) if g.pool else e
            roots.append(e)
        try:
            ast.estimate(roots, model, g.tobjs, cap * max(1, nroots))
        except TooBig:
            continue
        if not any(n.op == "in" for n in ast.walk(roots)):
            continue
        if not any(n.a for n in roots) and rng.random() < 0.9:
            continue
        if sum(1 for n in ast.walk(roots) if n.a) < 2 and rng.random() < 0.8:
            continue
        if rng.random() >= prof.unused:
            roots, types = dedup_unused(roots, types)
        if nroots == 1 and not combo and "sdiv" in prof.ops and rng.random() < 0.02:
            # outermost, where the factor is applied to the computed value and no coefficient is ever perturbed
            roots = [N("sdiv", (roots[0],), (rng.choice(ROOTDEN),))]
        if rng.random() < prof.wide and not combo:
            roots, types = widen(rng, roots, types, model.alg.dim)
        T = wchoice(rng, prof.T)
        p = Program(model, T, types, roots, [], lets=(rng.random() < 0.5) if prof.lets is None else prof.lets,
                    tuple_kind=rng.randrange(2), tag=prof.tag)
        if fill_data(rng, p, prof.rows) is None:
            continue
        if (rng.random() < 0.8 or combo) and attempt < 100 and not any(c.v for row in p.expected() for mv in row for c in mv.values()):
            continue
        return p
    raise RuntimeError("generator could not produce a program")
