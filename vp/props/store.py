"""C14 C15 C20: entities, containers and sorting, identifier pool."""
import os, struct, math
from ..gcheck import Family, family, check
from ..hcheck import Harness, HDIR
from ..prog import REPO
from .. import models

# ------------------------------------------------------------------ C14: entities
PRE = r'''
#include <cmath>
#include <string>
#include <array>
#include "gal/engine.hpp"
#include "gal/entity.hpp"
#include "gal/format.hpp"
#include "gal/pga.hpp"
#include "gal/vga.hpp"
#include "gal/pga2.hpp"
#include "gal/cga.hpp"
#include "gal/cga2.hpp"
static void o(double x) { if (std::isnan(x)) std::printf("nan|"); else std::printf("%a|", x); }
static void o(float x) { o((double)x); }
static void n(long x) { std::printf("%ld|", x); }
'''


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def lit(x, T):
    if x != x:
        return "std::nan(\"\")"
    if math.isinf(x):
        return ("-" if x < 0 else "") + ("INFINITY")
    return "%s(%s)" % (T, x.hex()) if T == "double" else "float(%s)" % x.hex()


def hexa(x):
    """the C %a rendering of a double"""
    if x != x:
        return "nan"
    return float(x).hex()


class Val:
    """observed %a text compared by value"""


def value(rng):
    k = rng.randrange(10)
    if k == 0:
        return 0.0
    if k == 1:
        return -0.0
    if k < 4:
        return float(rng.randint(-9, 9))
    if k < 7:
        return rng.randint(-4000, 4000) / 8.0
    if k == 7:
        return rng.choice([1e20, -3e-20, 123456789.0, 1e6, 999999.5, 1e-5, 0.0001, -1e15])
    if k == 8 and rng.random() < 0.3:
        return rng.choice([float("inf"), -float("inf")])
    return rng.uniform(-10, 10)


def label(e):
    return "" if e == 0 else "e" + "".join(str(i) for i in range(10) if e >> i & 1)


@family
class Entities(Family):
    """case: {sig:[p,v,r], T, elems, vals, multi:[[...]], writes:[[elem, value]]}"""
    name = "entity"
    prelude = PRE

    def control(self):
        return {"sig": [2, 0, 0], "T": "double", "elems": [1], "vals": [2.0], "multi": [[0, 1]], "writes": []}

    def emit(self, c):
        p, v, r = c["sig"]
        T = c["T"]
        A = "gal::algebra<gal::metric<%d,%d,%d>>" % (p, v, r)
        E = "gal::entity<%s, %s%s>" % (A, T, "".join(", %d" % e for e in c["elems"]))
        dim = p + v + r
        s = ["using E = %s;" % E]
        s.append("E e{%s};" % ", ".join(lit(x, T) for x in c["vals"]))
        s.append("E const k = e;")
        s.append("n(E::size()); n(k.size());")
        if c["elems"]:
            s.append("for (auto x : E::elements) n(x);")
        s += ["o(k.template select<%d>());" % x for x in range(1 << dim)]
        s.append("for (int x = 0; x != %d; ++x) o(k.select((gal::elem_t)x));" % (1 << dim))
        for m in c["multi"]:
            s.append("{ auto a = k.template select<%s>(); n(a.size()); for (auto x : a) o(x); }" % ", ".join(map(str, m)))
        s.append("for (size_t i = 0; i != k.size(); ++i) o(k[i]);")
        if c["elems"]:
            s.append("for (size_t i = 0; i != k.size(); ++i) o(k.data()[i]);")
            s.append("for (auto x : e) o(x);")
            s.append("n(e.end() - e.begin());")
        else:
            s.append("n(k.data() == nullptr); n(e.begin() == e.end()); o(k[0]); o(k[3]);")
        s.append("std::printf(\"%s|\", gal::to_string(k).c_str());")
        # pointers
        s.append("for (int x = 0; x != %d; ++x) { auto* p = e.select((gal::elem_t)x); n(p ? 1 : 0); if (p) o(*p); }" % (1 << dim))
        for w, val in c["writes"]:
            s.append("{ if (auto* p = e.select((gal::elem_t)%d)) *p = %s; }" % (w, lit(val, T)))
        s.append("for (size_t i = 0; i != e.size(); ++i) o(e[i]);")
        if c["elems"]:
            s.append("for (size_t i = 0; i != e.size(); ++i) { e[i] = %s(i + 1); } for (auto x : e) o(x);" % T)
            s.append("for (auto& x : e) x = x + 2;")
            s.append("for (size_t i = 0; i != e.size(); ++i) o(e[i]);")
        s.append("for (size_t i = 0; i != k.size(); ++i) o(k[i]);")
        # the same selections in constant evaluation
        if all(x == x and not math.isinf(x) for x in c["vals"]):
            s.append("{ constexpr E ce{%s};" % ", ".join(lit(x, T) for x in c["vals"]))
            for x in range(min(1 << dim, 16)):
                s.append("constexpr %s c%d = ce.template select<%d>(); o(c%d);" % (T, x, x, x))
            for i, m in enumerate(c["multi"]):
                s.append("constexpr auto m%d = ce.template select<%s>(); for (auto x : m%d) o(x);" % (
                    i, ", ".join(map(str, m)), i))
            s.append("}")
        return "\n".join(s)

    def expect(self, c):
        p, v, r = c["sig"]
        dim = p + v + r
        conv = f32 if c["T"] == "float" else float
        vals = [conv(x) for x in c["vals"]]
        d = dict(zip(c["elems"], vals))
        out = [len(vals), len(vals)] + list(c["elems"])
        full = [d.get(x, 0.0) for x in range(1 << dim)]
        out += full + full
        for m in c["multi"]:
            out += [len(m)] + [d.get(x, 0.0) for x in m]
        out += vals
        if vals:
            out += vals + vals + [len(vals)]
        else:
            out += [1, 1, 0.0, 0.0]
        out.append(("text", " + ".join("%g%s" % (x, label(e)) for e, x in zip(c["elems"], vals)) or "0"))
        for x in range(1 << dim):
            out.append(1 if x in d else 0)
            if x in d:
                out.append(d[x])
        w = dict(d)
        for e, val in c["writes"]:
            if e in w:
                w[e] = conv(val)
        out += [w[e] for e in c["elems"]]
        if vals:
            out += [float(i + 1) for i in range(len(vals))] + [float(i + 3) for i in range(len(vals))]
        out += vals
        if all(x == x and not math.isinf(x) for x in c["vals"]):
            out += full[:16]
            for m in c["multi"]:
                out += [d.get(x, 0.0) for x in m]
        return out

    def same(self, g, w):
        if isinstance(w, tuple):
            return g == w[1]
        if isinstance(w, int):
            return g == str(w)
        try:
            x = float.fromhex(g)
        except ValueError:
            return False
        return x == w or (x != x and w != w)

    def nontrivial(self, c):
        return len(c["elems"]) >= 2

    def classes(self, c):
        return ("size:%s" % ("0" if not c["elems"] else "1" if len(c["elems"]) == 1 else "2-7" if len(c["elems"]) < 8 else "8-128" if len(c["elems"]) <= 128 else "129+"),
                "dim:%d" % sum(c["sig"]), "T:" + c["T"], "order:" + ("ascending" if c["elems"] == sorted(c["elems"]) else "other"))

    def smaller(self, c):
        for i in range(len(c["elems"])):
            yield dict(c, elems=c["elems"][:i] + c["elems"][i + 1:], vals=c["vals"][:i] + c["vals"][i + 1:])
        for i in range(len(c["multi"])):
            yield dict(c, multi=c["multi"][:i] + c["multi"][i + 1:])
        for i in range(len(c["writes"])):
            yield dict(c, writes=c["writes"][:i] + c["writes"][i + 1:])
        for i, x in enumerate(c["vals"]):
            if x != 1.0:
                yield dict(c, vals=c["vals"][:i] + [1.0] + c["vals"][i + 1:])


def gen_entity(rng, large=False):
    """large: algebras of seven and eight dimensions (elem_t has eight bits) with up to all of their elements stored"""
    while True:
        sig = [rng.randint(0, 6 if large else 4), rng.randint(0, 4 if large else 2), rng.randint(0, 4 if large else 2)]
        if (7 if large else 1) <= sum(sig) <= (8 if large or rng.random() < 0.2 else 6) and sig not in ([4, 1, 0], [3, 1, 0]):
            break
    n = 1 << sum(sig)
    k = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, n]) if rng.random() < 0.8 else rng.randint(0, n)
    if large:
        k = rng.choice([n, n - 1, rng.randint(129, 256), rng.randint(129, 256), rng.randint(40, 128), rng.randint(64, 256)])
    elems = sorted(rng.sample(range(n), min(k, n, n if large else 24)))
    if rng.random() < 0.25:
        rng.shuffle(elems)
    multi = [[rng.randrange(n) for _ in range(rng.randint(2, 5))] for _ in range(rng.randint(0, 2))]
    if len(elems) > 1 and rng.random() < 0.5:
        multi.append(rng.sample(elems, min(len(elems), rng.randint(2, 5))))
    writes = [[rng.choice(elems) if elems and rng.random() < 0.7 else rng.randrange(n), value(rng)] for _ in range(rng.randint(0, 4))]
    return {"sig": sig, "T": rng.choice(["float", "double"]), "elems": elems, "vals": [value(rng) for _ in elems],
            "multi": multi, "writes": writes}


# conversions into typed entities: name -> (C++ type, algebra, reading code, function of the element map)
def _hom(d, w):
    return 1.0 / d.get(w, 0.0)


TYPED = {
    "pga plane": ("gal::pga::plane<T>", "pga", 4, lambda d: [d(1), d(2), d(4), d(8)], None),
    "pga vector": ("gal::pga::vector<T>", "pga", 3, lambda d: [-d(0b1101), d(0b1011), -d(0b111)], None),
    "pga line": ("gal::pga::line<T>", "pga", 6,
                 lambda d: [-d(0b1100), d(0b1010), -d(0b110), -d(0b11), -d(0b101), -d(0b1001)], None),
    "pga motor": ("gal::pga::motor<T>", "pga", 8,
                  lambda d: [d(0), d(3), d(5), d(6), d(9), d(10), d(12), d(15)], None),
    "vga point": ("gal::vga::point<T>", "pga", 3,
                  lambda d: [-d(0b1101) / d(14), d(0b1011) / d(14), -d(0b111) / d(14)], 14),
    "vga vector": ("gal::vga::vector<T>", "vga", 3, lambda d: [d(1), d(2), d(4)], None),
    "pga2 line": ("gal::pga2::line<T>", "pga2", 3, lambda d: [d(1), d(2), d(4)], None),
    "pga2 vector": ("gal::pga2::vector<T>", "pga2", 2, lambda d: [-d(5), d(3)], None),
    "pga2 point": ("gal::pga2::point<T>", "pga2", 2, lambda d: [-d(5) / d(6), d(3) / d(6)], 6),
    "cga point": ("gal::cga::point<T>", "cga", 3, lambda d: [d(1), d(2), d(4)], None),
    "cga2 point": ("gal::cga2::point<T>", "cga2", 2, lambda d: [d(1), d(2)], None),
}
FIELDS = {
    "pga plane": "d x y z", "pga vector": "x y z", "pga line": "dx dy dz mx my mz", "vga point": "x y z",
    "vga vector": "x y z", "pga2 line": "d x y", "pga2 vector": "x y", "pga2 point": "x y", "cga point": "x y z",
    "pga motor": "", "cga2 point": "x y",
}
# other names of the same fields
ALIAS = {"vga vector": ["u v w"], "cga point": ["u v w"], "cga2 point": ["u v"], "pga2 point": ["u v", "s t"]}


@family
class Typed(Family):
    """case: {type, T, elems, vals}"""
    name = "typed"
    prelude = PRE

    def control(self):
        return {"type": "pga plane", "T": "double", "elems": [1, 2], "vals": [1.0, 2.0]}

    def emit(self, c):
        cpp, m, n, _, _ = TYPED[c["type"]]
        T = c["T"]
        A = models.model(m).algcpp
        s = ["using E = gal::entity<%s, %s%s>;" % (A, T, "".join(", %d" % e for e in c["elems"])),
             "using X = %s;" % cpp.replace("<T>", "<%s>" % T),
             "E e{%s};" % ", ".join(lit(x, T) for x in c["vals"]),
             "X x = e;", "X const k{e};", "n(X::size());",
             "for (int i = 0; i != %d; ++i) o(x[i]);" % n]
        s += ["o(k.%s);" % f for f in FIELDS[c["type"]].split()]
        s += ["x[%d] = %s(7); o(x[%d]); o(k[%d]);" % (n - 1, T, n - 1, n - 1)]
        if FIELDS[c["type"]]:
            s.append("o(x.%s);" % FIELDS[c["type"]].split()[-1])
        for i, f in enumerate(FIELDS[c["type"]].split()):
            s.append("x.%s = %s(%d); o(x[%d]);" % (f, T, i + 11, i))
        for al in ALIAS.get(c["type"], []):
            s += ["o(k.%s);" % f for f in al.split()]
        if c["type"] == "pga motor":
            s.append("X const a{std::array<%s, 8>{k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]}}; for (int i = 0; i != 8; ++i) o(a[i]);" % T)
            s.append("auto const b = k.bivector(); for (int i : {3, 5, 6, 9, 10, 12}) o(b.select((gal::elem_t)i));")
        if c["type"] == "pga line":
            s.append("X const a{std::array<%s, 6>{k[0], k[1], k[2], k[3], k[4], k[5]}}; for (int i = 0; i != 6; ++i) o(a[i]);" % T)
        if c["type"] == "vga point":
            s.append("gal::pga::point<%s> const q = k; for (int i = 0; i != 16; ++i) o(q.select((gal::elem_t)i));" % T)
        return "\n".join(s)

    def expect(self, c):
        cpp, m, n, f, w = TYPED[c["type"]]
        conv = f32 if c["T"] == "float" else float
        d = dict(zip(c["elems"], [conv(x) for x in c["vals"]]))
        v = f(lambda e: d.get(e, 0.0))
        self.tol = w is not None
        out = [n] + v
        if FIELDS[c["type"]]:
            out += v
        out += [7.0, v[-1]]
        if FIELDS[c["type"]]:
            out.append(7.0)
        out += [i + 11.0 for i, _ in enumerate(FIELDS[c["type"]].split())]
        out += v * len(ALIAS.get(c["type"], []))
        if c["type"] == "pga motor":
            out += v + v[1:7]
        if c["type"] == "pga line":
            out += v
        if c["type"] == "vga point":
            q = {0b111: -v[2], 0b1011: v[1], 0b1101: -v[0], 0b1110: 1.0}
            out += [q.get(i, 0.0) for i in range(16)]
        eps = (1e-5 if c["T"] == "float" else 1e-13) if w is not None else 0
        return [x if isinstance(x, int) else (x, eps) for x in out]

    def same(self, g, w):
        if isinstance(w, int):
            return g == str(w)
        try:
            x = float.fromhex(g)
        except ValueError:
            return False
        return abs(x - w[0]) <= w[1] * abs(w[0])

    def nontrivial(self, c):
        return len(c["elems"]) >= 2

    def classes(self, c):
        return ("type:" + c["type"],)

    def smaller(self, c):
        w = TYPED[c["type"]][4]
        for i in range(len(c["elems"])):
            if c["elems"][i] != w:
                yield dict(c, elems=c["elems"][:i] + c["elems"][i + 1:], vals=c["vals"][:i] + c["vals"][i + 1:])


def gen_typed(rng):
    name = rng.choice(sorted(TYPED))
    cpp, m, n, f, w = TYPED[name]
    dim = models.model(m).alg.dim if hasattr(models.model(m).alg, "dim") else {"pga": 4, "vga": 3, "pga2": 3, "cga": 5, "cga2": 4}[m]
    N = 1 << dim
    k = rng.choice([0, 1, 2, 3, 5, 8, N]) if rng.random() < 0.9 else rng.randint(0, N)
    elems = set(rng.sample(range(N), min(k, N)))
    if w is not None:
        elems.add(w)
    elems = sorted(elems)
    if rng.random() < 0.2:
        rng.shuffle(elems)
    vals = []
    for e in elems:
        x = rng.choice([float(rng.randint(-9, 9)), rng.randint(-400, 400) / 8.0, rng.uniform(-10, 10)])
        if e == w and x == 0:
            x = -0.5
        vals.append(x)
    return {"type": name, "T": rng.choice(["float", "double"]), "elems": elems, "vals": vals}


@family
class Scalars(Family):
    """case: {sig, T, val, write}"""
    name = "scalar"
    prelude = PRE

    def control(self):
        return {"sig": [2, 0, 0], "T": "double", "val": 2.0, "write": 3.0}

    def emit(self, c):
        T = c["T"]
        return """using X = gal::scalar<gal::algebra<gal::metric<%d,%d,%d>>, %s>;
X x{%s}; X const k = x; n(X::size()); o(k.value); o(k[0]); o(*k.data()); o((%s)k); %s y = k; o(y);
x[0] = %s; o(x.value); o((%s)x); o(*x.data()); o(k.value); n(std::is_same_v<X::value_t, %s>);""" % (*c["sig"], T, lit(c["val"], T), T, T, lit(c["write"], T), T, T)

    def expect(self, c):
        conv = f32 if c["T"] == "float" else float
        v, w = conv(c["val"]), conv(c["write"])
        return [1, v, v, v, v, v, w, w, w, v, 1]

    same = Entities.same

    def nontrivial(self, c):
        return c["val"] != c["write"]

    def classes(self, c):
        return ("type:scalar",)

    def smaller(self, c):
        if c["val"] != 1.0:
            yield dict(c, val=1.0)


def gen_scalar(rng):
    return {"sig": [rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 1)], "T": rng.choice(["float", "double"]),
            "val": value(rng), "write": value(rng)}


def c14(ctx):
    ctx.rule("a case is an entity type (algebra of 1-8 dimensions, element subset in ascending or arbitrary order, value "
             "type) with contents, selections and writes, all observations compared with a Python dictionary; or a "
             "conversion of such an entity into one of eleven typed entities or a scalar; non-trivial = at least two stored elements; "
             "distinct = different case")
    rng = ctx.rng("entity")
    n = ctx.n(700, 12000)
    check(ctx, Entities(), [gen_entity(rng) for _ in range(n)], group=10)
    check(ctx, Entities(), [gen_entity(rng, True) for _ in range(ctx.n(40, 300))], group=1)
    check(ctx, Scalars(), [gen_scalar(rng) for _ in range(ctx.n(60, 400))], group=30)
    f = Typed()
    check(ctx, f, [gen_typed(rng) for _ in range(ctx.n(700, 8000))], group=25)
    if ctx.quick is False:
        e = Entities()
        e.cxx, e.flags = "clang++", ("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all")
        check(ctx, e, [gen_entity(rng) for _ in range(800)], group=10)


# ------------------------------------------------------------------ C15: tuple programs
TPRE = r'''
#include <type_traits>
#include "gal/tuple.hpp"
struct P { int a; short b; };
struct Q { long a = 3; };
template <typename T> constexpr long tid() {
  using U = std::decay_t<T>;
  if constexpr (std::is_same_v<U, int>) return 1; else if constexpr (std::is_same_v<U, double>) return 2;
  else if constexpr (std::is_same_v<U, short>) return 3; else if constexpr (std::is_same_v<U, unsigned long>) return 4;
  else if constexpr (std::is_same_v<U, char>) return 5; else if constexpr (std::is_same_v<U, P>) return 6;
  else if constexpr (std::is_same_v<U, bool>) return 7; else return 0;
}
struct rec { long v[1600] = {}; int n = 0; constexpr void put(long x) { if (n < 1600) v[n++] = x; } };
template <typename T> constexpr void obs(rec& r, T const& x) {
  r.put(tid<T>());
  if constexpr (std::is_same_v<T, P>) { r.put(x.a); r.put(x.b); } else r.put(long(x));
}
template <typename TT, size_t... I> constexpr void dump(rec& r, TT const& t, std::index_sequence<I...>) {
  r.put(long(TT::size())); r.put(long(t.size()));
  (obs(r, t.template get<I>()), ...);
}
template <typename... T> constexpr void all(rec& r, gal::tuple<T...> const& t) { dump(r, t, std::make_index_sequence<sizeof...(T)>{}); }
template <typename T> struct add_to {
  using U = std::decay_t<T>;
  long k;
  constexpr U operator()(U x) const { if constexpr (std::is_same_v<U, P>) return P{int(x.a + k), x.b}; else return U(x + k); }
};
static void show(rec const& r) { for (int i = 0; i != r.n; ++i) std::printf("%ld|", r.v[i]); }
'''
TYPES = {"int": 1, "double": 2, "short": 3, "unsigned long": 4, "char": 5, "P": 6}


@family
class Tuples(Family):
    """case: {init:[[type, value]], ops:[...]}; every op yields the next tuple, contents are recorded after each"""
    name = "tuple"
    prelude = TPRE
    public = False

    def control(self):
        return {"init": [["int", 1], ["short", 2]], "ops": [["push", "int", 3], ["pop", 1], ["append", "char", 7], ["split", 1, 0],
                                                           ["set", 0, 5], ["apply"], ["mutate", 1]]}

    @staticmethod
    def val(t, v):
        return "P{int(%d + z), short(%d)}" % (v, v % 7) if t == "P" else "(%s)(%d + z)" % (t, v)

    def emit(self, c):
        def fn(body):
            return body
        s = ["struct prog { static constexpr rec run(long z) { rec r{}; (void)z;"]
        if c.get("braces") and c["init"]:
            s.append("auto t0 = gal::tuple{%s};" % ", ".join(self.val(t, v) for t, v in c["init"]))
        else:
            s.append("auto t0 = gal::make_tuple(%s);" % ", ".join(self.val(t, v) for t, v in c["init"]))
        s.append("all(r, t0);")
        cur = 0
        model = [tuple(x) for x in c["init"]]
        for op in c["ops"]:
            t = "t%d" % cur
            nxt = "t%d" % (cur + 1)
            k = op[0]
            if k in ("push", "append"):
                if op[2] % 3 == 0:
                    s.append("%s const lv%d = %s; auto %s = %s.%s(lv%d);" % (op[1], cur, self.val(op[1], op[2]), nxt, t, k, cur))
                else:
                    s.append("auto %s = %s.%s(%s);" % (nxt, t, k, self.val(op[1], op[2])))
                cur += 1
            elif k == "pop":
                s.append("auto p%d = %s.pop(); obs(r, p%d.first); auto %s = p%d.second;" % (cur, t, cur, nxt, cur))
                cur += 1
            elif k in ("split", "drop"):
                s.append("auto p%d = %s.template %s<%d>(); all(r, p%d.first); all(r, p%d.second); auto %s = p%d.%s;" % (
                    cur, t, "split" if k == "split" else "split_drop", op[1], cur, cur, nxt, cur, "first" if op[2] == 0 else "second"))
                cur += 1
            elif k == "at_type":
                s.append("r.put(long(decltype(%s)::template find_t<%s>()));" % (t, op[1]))
                s.append("auto p%d = %s.template split_at_type<%s>(); all(r, p%d.first); all(r, p%d.second); auto %s = p%d.%s;" % (
                    cur, t, op[1], cur, cur, nxt, cur, "first" if op[2] == 0 else "second"))
                cur += 1
            elif k == "set":
                ty = model[op[1]][0]
                s.append("auto %s = %s; %s.template set<%d>(%s);" % (nxt, t, nxt, op[1], self.val(ty, op[2])))
                s.append("all(r, %s);" % t)
                cur += 1
            elif k == "ref":
                ty = model[op[1]][0]
                s.append("auto %s = %s; %s.template get<%d>() = %s;" % (nxt, t, nxt, op[1], self.val(ty, op[2])))
                cur += 1
            elif k == "back":
                s.append("{ auto const& ct = %s; obs(r, ct.back()); obs(r, %s.back()); } auto %s = %s;" % (t, t, nxt, t))
                cur += 1
            elif k == "mutate":
                s.append("auto %s = %s; %s.template mutate<add_to>(%dl);" % (nxt, t, nxt, op[1]))
                cur += 1
            elif k == "apply":
                s.append("r.put(%s.apply([&r](auto... x) { (obs(r, x), ...); return long(sizeof...(x)); }));" % t)
                continue
            elif k == "rapply":
                s.append("r.put(%s.apply_reverse([&r](auto... x) { (obs(r, x), ...); return long(sizeof...(x)); }));" % t)
                continue
            model = self.step(model, op)[0]
            s.append("all(r, t%d);" % cur)
        s.append("return r; } };")
        s.append("constexpr rec cr = prog::run(0); show(cr); volatile long z = 0; rec rr = prog::run(z); show(rr);")
        return "\n".join(s)

    @staticmethod
    def ob(t, v):
        if t == "P":
            # (value, b) with b possibly tracked separately
            return [6, v[0], v[1]]
        return [TYPES[t], v]

    def norm(self, t, v):
        return (t, (v, v % 7)) if t == "P" else (t, v)

    def step(self, m, op):
        k = op[0]
        if k == "push":
            return [(op[1], op[2])] + m, None
        if k == "append":
            return m + [(op[1], op[2])], None
        if k == "pop":
            return m[1:], m[0]
        if k == "split":
            a, b = m[:op[1]], m[op[1]:]
            return (a if op[2] == 0 else b), (a, b)
        if k == "drop":
            a, b = m[:op[1]], m[op[1] + 1:]
            return (a if op[2] == 0 else b), (a, b)
        if k == "at_type":
            i = [t for t, _ in m].index(op[1])
            a, b = m[:i], m[i + 1:]
            return (a if op[2] == 0 else b), (i, a, b)
        if k in ("set", "ref"):
            return m[:op[1]] + [(m[op[1]][0], op[2])] + m[op[1] + 1:], None
        return m, None

    def expect(self, c):
        out = []

        def ob(x):
            t, v = x
            if t == "P":
                a, b = v if isinstance(v, tuple) else (v, v % 7)
                out.extend([6, a, b])
            else:
                out.extend([TYPES[t], v])

        def all_(m):
            out.extend([len(m), len(m)])
            for x in m:
                ob(x)
        m = [tuple(x) for x in c["init"]]
        all_(m)
        for op in c["ops"]:
            k = op[0]
            if k in ("apply", "rapply"):
                for x in (m if k == "apply" else m[::-1]):
                    ob(x)
                out.append(len(m))
                continue
            if k == "pop":
                ob(m[0])
            elif k in ("split", "drop"):
                _, (a, b) = self.step(m, op)
                all_(a)
                all_(b)
            elif k == "at_type":
                _, (i, a, b) = self.step(m, op)
                out.append(i)
                all_(a)
                all_(b)
            elif k == "set":
                all_(m)
            elif k == "back":
                ob(m[-1])
                ob(m[-1])
            if k == "mutate":
                n = []
                for t, v in m:
                    if t == "P":
                        a, b = v if isinstance(v, tuple) else (v, v % 7)
                        n.append((t, (a + op[1], b)))
                    else:
                        n.append((t, v + op[1]))
                m = n
            else:
                m = self.step(m, op)[0]
            all_(m)
        return [str(x) for x in out + out]

    def nontrivial(self, c):
        return len(c["ops"]) >= 2

    def classes(self, c):
        return tuple("op:" + o[0] for o in c["ops"])

    def valid(self, c):
        m = [tuple(x) for x in c["init"]]
        for op in c["ops"]:
            k = op[0]
            if k in ("pop", "back") and not m:
                return False
            if k == "split" and op[1] > len(m):
                return False
            if k in ("drop", "set", "ref") and op[1] >= len(m):
                return False
            if k == "at_type" and op[1] not in [t for t, _ in m]:
                return False
            m = self.step(m, op)[0]
        return True

    def smaller(self, c):
        for i in range(len(c["ops"])):
            x = dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
            if self.valid(x):
                yield x
        for i in range(len(c["init"])):
            x = dict(c, init=c["init"][:i] + c["init"][i + 1:])
            if self.valid(x):
                yield x


def gen_tuple(rng):
    ts = list(TYPES)
    few = rng.sample(ts, rng.randint(1, 4))

    def el():
        return [rng.choice(few if rng.random() < 0.7 else ts), rng.randint(0, 90)]
    c = {"init": [el() for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7]))], "ops": [], "braces": rng.random() < 0.5}
    if len(c["init"]) == 0:
        c["braces"] = False
    m = [tuple(x) for x in c["init"]]
    f = Tuples()
    for _ in range(rng.randint(1, 7)):
        ch = ["push", "append"]
        if m:
            ch += ["pop", "split", "drop", "set", "ref", "back", "mutate", "apply", "rapply", "at_type"]
        else:
            ch += ["apply"]
        k = rng.choice(ch)
        if k in ("push", "append"):
            op = [k] + el()
        elif k == "split":
            op = [k, rng.randint(0, len(m)), rng.randint(0, 1)]
        elif k == "drop":
            op = [k, rng.randrange(len(m)), rng.randint(0, 1)]
        elif k in ("set", "ref"):
            op = [k, rng.randrange(len(m)), rng.randint(0, 90)]
        elif k == "mutate":
            op = [k, rng.randint(1, 5)]
        elif k == "at_type":
            op = [k, rng.choice(m)[0], rng.randint(0, 1)]
        else:
            op = [k]
        c["ops"].append(op)
        m = f.step(m, op)[0]
    return c


@family
class ConstSort(Family):
    """case: {vals, order}: the sort evaluated by the compiler"""
    name = "constsort"
    public = False
    prelude = r'''
#include <array>
#include "gal/algorithm.hpp"
struct kv { int k = 0; int i = 0; };
constexpr bool operator<(kv a, kv b) { return a.k < b.k; }
template <size_t N> struct box { kv d[N]; };
'''

    def control(self):
        return {"vals": [2, 1], "order": 0}

    CMP = ["", ", [](kv a, kv b) { return a.k < b.k; }", ", [](kv const& a, kv const& b) { return b.k < a.k; }",
           ", [](kv const& a, kv const& b) { return a.k % 4 < b.k % 4; }"]
    KEY = [lambda k: k, lambda k: k, lambda k: -k, lambda k: k % 4]

    def emit(self, c):
        n = max(1, len(c["vals"]))
        body = ", ".join("kv{%d, %d}" % (v, i) for i, v in enumerate(c["vals"]))
        return ("struct f { static constexpr box<%d> run() { box<%d> b{{%s}}; gal::detail::sort(b.d, b.d + %d%s); return b; } };\n"
                "constexpr auto r = f::run(); for (int i = 0; i != %d; ++i) std::printf(\"%%d:%%d|\", r.d[i].k, r.d[i].i);"
                % (n, n, body, len(c["vals"]), self.CMP[c["order"]], len(c["vals"])))

    def judge(self, c, line):
        try:
            got = [tuple(map(int, g.split(":"))) for g in line.split("|") if g.strip()]
        except ValueError:
            return ("bad", "unreadable")
        if sorted(got) != sorted((v, i) for i, v in enumerate(c["vals"])):
            return ("bad", "not a permutation: %s" % line)
        key = self.KEY[c["order"]]
        for a, b in zip(got, got[1:]):
            if key(b[0]) < key(a[0]):
                return ("bad", "not ordered: %s" % line)
        return ("ok", "")

    def expect(self, c):
        return ["ordered permutation of %d" % len(c["vals"])]

    def nontrivial(self, c):
        return len(c["vals"]) >= 2 and sorted(c["vals"]) != c["vals"]

    def classes(self, c):
        return ("length:%s" % (len(c["vals"]) if len(c["vals"]) < 5 else "5-20" if len(c["vals"]) <= 20 else "21-99" if len(c["vals"]) < 100 else "100+"),)

    def smaller(self, c):
        n = len(c["vals"])
        for k in (n // 2, n // 4, n // 8):
            for i in range(0, n - k + 1, max(1, k)):
                if k > 1:
                    yield dict(c, vals=c["vals"][:i] + c["vals"][i + k:])
        for i in range(n):
            yield dict(c, vals=c["vals"][:i] + c["vals"][i + 1:])


def gen_const(rng):
    n = rng.choice([0, 1, 2, 3, 3, 3, 4, 4, 5, 6, 8, 12, 20, 33])
    if rng.random() < 0.06:
        n = rng.randint(34, 700)
    m = rng.choice([1, 2, 3, 10, 1000])
    v = [rng.randint(0, m) for _ in range(n)]
    k = rng.randrange(5)
    if k == 0:
        v.sort()
    elif k == 1:
        v.sort(reverse=True)
    return {"vals": v, "order": rng.randrange(4)}


def c15(ctx):
    ctx.rule("a case is an array with a comparator, a stack history, a tuple operation sequence (evaluated both by the "
             "compiler and at run time) compared with sequence models; non-trivial = unsorted array of at least two, "
             "history of at least two operations; distinct = different case")
    rng = ctx.rng("containers")
    h = Harness(ctx, "h_sort.cpp", flags=("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all")).build()
    h.fuzz(ctx.n(200000, 3000000))
    check(ctx, Tuples(), [gen_tuple(rng) for _ in range(ctx.n(1600, 10000))], group=16)
    check(ctx, ConstSort(), [gen_const(rng) for _ in range(ctx.n(1200, 10000))], group=50)
    if ctx.evaluations == 0:
        from ..core import Inconclusive
        raise Inconclusive("none of the containers is available under its name")


def c20(ctx):
    ctx.rule("a case is a history of up to 200 single or 7 bulk (up to 70000 identifiers) create/destroy/release/reset/move/assign/swap operations, run in a process "
             "of its own and checked after every operation against a set model; non-trivial = more than three "
             "operations with at least one move and one release; distinct = different history")
    base = os.path.join(REPO, "samples", "pudding")
    h = Harness(ctx, "h_uid.cpp", flags=("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"),
                sources=(os.path.join(base, "src", "uid.cpp"),), incs=(os.path.join(base, "public", "pudding"),),
                public=("pool",)).build()
    h.fuzz(ctx.n(9000, 400000))


def c21(ctx):
    ctx.rule("a case is a history of up to 600 operations on garbage chutes or on image views over a sequence of frames (create, "
             "default construct, move construct, move assign, destroy, send a swapchain, next frame), checked after every operation "
             "against a model of which handle has which owner and is due when; the destruction calls are stand-ins that "
             "record; non-trivial = at least one flush with two handles sent, or one move, one death and one frame; distinct = "
             "different history")
    base = os.path.join(REPO, "samples", "pudding")
    src = os.path.join(base, "src")
    h = Harness(ctx, "h_gc.cpp", flags=("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"),
                sources=tuple(os.path.join(src, f) for f in ("gc.cpp", "image_view.cpp", "uid.cpp")),
                incs=(os.path.join(HDIR, "stub"), os.path.join(base, "public", "pudding"), src)).build()
    if not h.exes:
        from ..core import Inconclusive
        raise Inconclusive("the chute and the image views no longer compile against the stand-in headers")
    h.fuzz(ctx.n(30000, 2000000))


CHECKS = {"C21": c21, "C14": c14, "C15": c15, "C20": c20}
