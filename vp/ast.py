"""Expression DAGs: construction, serialisation, C++ emission, reference evaluation, size
estimates (used only to keep generated programs compilable in reasonable time)."""
import math
from .ga import F, M, DomainError, popcount

BIN = {"mul": "*", "ep": "^", "rp": "&", "lc": ">>", "ip": "|", "sw": "%", "add": "+", "sub": "-"}
FUN = ("sqrt", "sin", "cos", "tan")
CONST = {"PI": math.pi, "E": math.e}


class N:
    __slots__ = ("op", "a", "k")

    def __init__(self, op, a=(), k=()):
        self.op, self.a, self.k = op, tuple(a), tuple(k)

    def __repr__(self):
        return show(self)


def walk(roots):
    """Post-order unique nodes of the DAG."""
    seen, out = set(), []

    def go(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        for c in n.a:
            go(c)
        out.append(n)
    for r in roots:
        go(r)
    return out


def ser(roots):
    order = walk(roots)
    idx = {id(n): i for i, n in enumerate(order)}
    return {"nodes": [[n.op, [idx[id(c)] for c in n.a], list(n.k)] for n in order],
            "roots": [idx[id(r)] for r in roots]}


def deser(d):
    ns = []
    for op, ch, k in d["nodes"]:
        ns.append(N(op, [ns[i] for i in ch], k))
    return [ns[i] for i in d["roots"]]


def rebuild(root_list, f):
    """Rebuild the DAG preserving sharing; f(node, new_children) -> new node."""
    m = {}
    for n in walk(root_list):
        m[id(n)] = f(n, [m[id(c)] for c in n.a])
    return [m[id(r)] for r in root_list]


def cpp(n, names, ns):
    """C++ text for a node whose children already have text in `names` (id -> text)."""
    o = n.op
    c = [names[id(x)] for x in n.a]
    if o == "in":
        return "x%d" % n.k[0]
    if o == "lit":
        t = "%d_%s" % (abs(n.k[1]), n.k[0])
        return "(-(%s))" % t if n.k[1] < 0 else t
    if o in BIN:
        return "(%s %s %s)" % (c[0], BIN[o], c[1])
    if o == "rev":
        return "(~%s)" % c[0]
    if o == "dual":
        return "(!%s)" % c[0]
    if o == "neg":
        return "(-%s)" % c[0]
    if o == "smul":
        return "(%d * %s)" % (n.k[0], c[0])
    if o == "sdiv":
        return "(%s / %s)" % (c[0], "%d" % n.k[0] if n.k[0] >= 0 else "(%d)" % n.k[0])
    if o == "sadd":
        return "(%d + %s)" % (n.k[0], c[0])
    if o == "saddr":
        return "(%s + (%d))" % (c[0], n.k[0])
    if o == "ssub":
        return "(%d - %s)" % (n.k[0], c[0])
    if o == "ssubr":
        return "(%s - (%d))" % (c[0], n.k[0])
    if o == "comp":
        return "(%s)[%d]" % (c[0], n.k[0])
    if o == "grade":
        return "(%s).select_grade(%d)" % (c[0], n.k[0])
    if o == "sp":
        return "scalar_product(%s, %s)" % (c[0], c[1])
    if o == "div":
        return "(%s / %s)" % (c[0], c[1])
    if o == "idiv":
        return "(%d / %s)" % (n.k[0], c[0])
    if o in FUN or o == "exp":
        return "%s(%s)" % (o, c[0])
    if o in ("cmul", "cmulr", "cdivr", "cdivl"):
        name, num, den = n.k
        t = "gal::%s" % name
        if num != 1:
            t = "(%d * %s)" % (num, t)
        if den != 1:
            t = "(%s / %s)" % (t, "%d" % den if den > 0 else "(%d)" % den)
        return {"cmul": "(%s * %s)" % (t, c[0]), "cmulr": "(%s * %s)" % (c[0], t),
                "cdivr": "(%s / %s)" % (c[0], t), "cdivl": "(%s / %s)" % (t, c[0])}[o]
    raise KeyError(o)


def body(roots, ns, lets=True, tuple_kind=0):
    """Lambda body.  Shared compound nodes are bound to a name when `lets`."""
    order = walk(roots)
    refs = {}
    for n in order:
        for c in n.a:
            refs[id(c)] = refs.get(id(c), 0) + 1
    for r in roots:
        refs[id(r)] = refs.get(id(r), 0) + 1
    names, stmts = {}, []
    for n in order:
        t = cpp(n, names, ns)
        if lets and n.a and refs[id(n)] > 1:
            v = "t%d" % len(stmts)
            stmts.append("auto %s = %s;" % (v, t))
            t = v
        names[id(n)] = t
    if len(roots) == 1:
        ret = names[id(roots[0])]
    else:
        ret = ("gal::tuple{%s}" if tuple_kind == 0 else "gal::make_tuple(%s)") % ", ".join(
            names[id(r)] for r in roots)
    return " ".join(stmts) + " return %s;" % ret


def show(n):
    names = {}
    for x in walk([n]):
        names[id(x)] = cpp(x, names, "")
    return names[id(n)]


def evaluate(roots, model, ring, env, trace=None):
    """Reference value of each root, in the user's basis."""
    A = model.alg
    val = {}

    def const(x):
        return ring(x)

    def scalar_of(mv):
        for e, c in mv.items():
            if e != 0:
                raise DomainError("non-scalar argument")
        if 0 not in mv:
            raise DomainError("zero argument")
        return mv[0]

    for n in walk(roots):
        o = n.op
        c = [val[id(x)] for x in n.a]
        if o == "in":
            r = A.to_natural(env[n.k[0]])
        elif o == "lit":
            blade, sign = n.k[2], n.k[3]
            r = {} if n.k[1] == 0 else A.to_natural({blade: const(n.k[1] * sign)})
        elif o == "mul":
            r = A.gp(*c)
        elif o == "ep":
            r = A.ep_(*c)
        elif o == "rp":
            r = A.rp(*c)
        elif o == "lc":
            r = A.lc(*c)
        elif o == "ip":
            r = A.ip(*c)
        elif o == "sw":
            r = A.sandwich(*c)
        elif o == "add":
            r = A.add(*c)
        elif o == "sub":
            r = A.add(c[0], A.neg(c[1]))
        elif o == "neg":
            r = A.neg(c[0])
        elif o == "rev":
            r = A.rev(c[0])
        elif o == "dual":
            r = A.dual(c[0])
        elif o == "smul":
            r = A.scale(c[0], n.k[0])
        elif o == "sdiv":
            r = A.scale(c[0], 1, n.k[0])
        elif o in ("sadd", "saddr"):
            r = A.add(c[0], {0: const(n.k[0])})
        elif o == "ssub":
            r = A.add(A.neg(c[0]), {0: const(n.k[0])})
        elif o == "ssubr":
            r = A.add(c[0], {0: const(-n.k[0])})
        elif o == "comp":
            u = A.to_user(c[0])
            r = {0: u[n.k[0]]} if n.k[0] in u else {}
        elif o == "grade":
            r = A.grade(c[0], n.k[0])
        elif o == "sp":
            g = A.gp(*c)
            r = {0: g[0]} if 0 in g else {}
        elif o == "div":
            d = scalar_of(c[1]).inv()
            r = {e: x * d for e, x in c[0].items()}
        elif o == "idiv":
            r = {0: scalar_of(c[0]).inv() * const(n.k[0])}
        elif o in FUN:
            r = {0: getattr(scalar_of(c[0]), o)()}
        elif o in ("cmul", "cmulr", "cdivr", "cdivl"):
            k = const(CONST[n.k[0]]).scale(n.k[1], n.k[2])
            if o == "cdivl":
                r = {0: k * scalar_of(c[0]).inv()}
            elif o == "cdivr":
                d = k.inv()
                r = {e: x * d for e, x in c[0].items()}
            else:
                r = {e: x * k for e, x in c[0].items()}
        else:
            raise KeyError(o)
        val[id(n)] = r
        if trace is not None:
            trace[id(n)] = r
    return [A.to_user(val[id(r)]) for r in roots]


class TooBig(Exception):
    pass


def estimate(roots, model, types, cap):
    """Upper bound {blade: monomials} per node; raises TooBig when a node exceeds `cap`
    monomials or the product workspace exceeds 6*cap.  Also bounds denominators and
    coefficient magnitudes so that exact rational arithmetic in 32 bits suffices."""
    A = model.alg
    S, D, U = {}, {}, {}
    total = 0

    def support(t):
        ones = [F(1.0)] * t.n
        mv = A.to_natural(t.embed(F, ones))
        return {e: max(1, int(math.ceil(c.m)) if c.m > 1 else 1) + (2 if A.null else 0) for e, c in mv.items()}, \
            max([c.m for c in mv.values()] + [1])

    for n in walk(roots):
        o = n.op
        c = [S[id(x)] for x in n.a]
        d = [D[id(x)] for x in n.a]
        u = [U[id(x)] for x in n.a]
        if o == "in":
            t = types[n.k[0]]
            s, um = support(t)
            dd = t.den * (2 if A.null else 1)
        elif o == "lit":
            s = {e: 1 for e in A.to_natural({n.k[2]: F(1.0)})}
            um, dd = abs(n.k[1]) or 1, 2 if A.null else 1
        elif o in ("mul", "ep", "lc", "ip", "sp", "rp", "sw"):
            def prod(f, x, y):
                if sum(x.values()) * sum(y.values()) > 6 * cap:
                    raise TooBig()
                out = {}
                for a, ma in x.items():
                    for b, mb in y.items():
                        e, sg = f(a, b)
                        if sg:
                            out[e] = out.get(e, 0) + ma * mb
                return out
            f = {"mul": A.bgp, "ep": A.bep, "lc": A.blc, "ip": A.bip, "sp": A.bgp}.get(o)
            if f:
                s = prod(f, *c)
                if o == "sp":
                    s = {0: s[0]} if 0 in s else {}
                dd, um = d[0] * d[1], u[0] * u[1] * max(1, min(len(c[0]), len(c[1])))
            elif o == "rp":
                x, y = [{A.ps ^ e: v for e, v in z.items()} for z in c]
                s = {A.ps ^ e: v for e, v in prod(A.bep, x, y).items()}
                dd, um = d[0] * d[1], u[0] * u[1] * max(1, min(len(c[0]), len(c[1])))
            else:
                s = prod(A.bgp, prod(A.bgp, c[1], c[0]), c[1])
                k = max(1, min(len(c[0]), len(c[1])))
                dd, um = d[0] * d[1] * d[1], u[0] * u[1] * u[1] * k * k
        elif o in ("add", "sub"):
            s = dict(c[0])
            for e, v in c[1].items():
                s[e] = s.get(e, 0) + v
            dd, um = d[0] * d[1] // math.gcd(d[0], d[1]), u[0] + u[1]
        elif o in ("neg", "rev", "grade", "comp"):
            s = c[0]
            if o == "grade":
                s = {e: v for e, v in s.items() if popcount(e) == n.k[0]}
            if o == "comp":
                s = {0: sum(s.values())} if s else {}
            dd, um = d[0] * (2 if A.null and o == "comp" else 1), u[0]
        elif o == "dual":
            s = {A.ps ^ e: v for e, v in c[0].items()}
            dd, um = d[0], u[0]
        elif o == "smul":
            s, dd, um = c[0], d[0], u[0] * max(1, abs(n.k[0]))
        elif o == "sdiv":
            s, dd, um = c[0], d[0] * abs(n.k[0]), u[0]
        elif o in ("sadd", "saddr", "ssub", "ssubr"):
            s = dict(c[0])
            s[0] = s.get(0, 0) + 1
            dd, um = d[0], u[0] + abs(n.k[0])
        elif o == "div":
            s, dd, um = c[0], d[0] * int(max(1, u[1])), u[0] * d[1]
        elif o == "idiv":
            s, dd, um = {0: 1}, int(max(1, u[0])), abs(n.k[0]) * d[0] or 1
        elif o in FUN:
            s, dd, um = {0: 1}, 1, 1
        elif o in ("cmul", "cmulr", "cdivr", "cdivl"):
            s = c[0] if o != "cdivl" else {0: 1}
            q1, q2 = abs(n.k[1]), abs(n.k[2])
            if o in ("cmul", "cmulr"):
                dd, um = d[0] * q2, u[0] * q1
            elif o == "cdivr":
                dd, um = d[0] * q1, u[0] * q2
            else:
                dd, um = q2 * int(max(1, u[0])), q1 * d[0]
        else:
            raise KeyError(o)
        if sum(s.values()) > cap:
            raise TooBig()
        if dd >= 1000 or um * dd * dd > 2 ** 28:
            raise TooBig()
        total += sum(s.values())
        if total > 6 * cap:
            raise TooBig()
        S[id(n)], D[id(n)], U[id(n)] = s, dd, um
    return S, total
