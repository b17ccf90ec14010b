"""The algebras ('models') the library ships, their input types and literals, described from
the documentation: how each C++ input type is constructed and which multivector (in the user's
basis) it denotes."""
import math
from .ga import Algebra, F, M, popcount


def num(ring, x):
    """Lift a python number into the coefficient ring."""
    return ring(x)


class InType:
    """One C++ input type: `n` numbers construct it, `embed` gives its multivector."""

    def __init__(self, key, cpp, n, embed, den=1, arity=None, kind="any", ctor=None):
        self.key, self.cpp, self.n, self.embed, self.den = key, cpp, n, embed, den
        self.kind = kind          # 'any' | 'angle' (first value is an angle) | 'scalar'
        self.ctor = ctor

    @property
    def nraw(self):
        """how many numbers the C++ constructor takes (a rotor takes angle + axis)"""
        return 4 if self.kind == "rotor" else self.n

    def expand(self, raw):
        """constructor arguments -> stored coordinates (rotors cache cos and sin)"""
        if self.kind == "rotor":
            return [math.cos(0.5 * raw[0]), math.sin(0.5 * raw[0])] + list(raw[1:])
        return list(raw)

    def make(self, T, args):
        t = self.cpp.replace("$T", T)
        return t, "%s{%s}" % (t, ", ".join(args))


def linear(spec):
    """spec: list of (blade, sign, index)"""
    def f(ring, vals):
        return {b: (vals[i] if s > 0 else -vals[i]) for b, s, i in spec}
    return f


class Model:
    def __init__(self, key, alg, ns, header, algcpp, types, lits, compute=None):
        self.key, self.alg, self.ns, self.header, self.algcpp = key, alg, ns, header, algcpp
        self.types = {t.key: t for t in types}
        self.lits = lits            # list of (suffix, blade, sign) in the user's basis
        self.compute = compute or (ns + "::compute")

    def entity(self, elems):
        elems = tuple(sorted(elems))
        cpp = "gal::entity<%s, $T%s>" % (self.algcpp, "".join(", %d" % e for e in elems))
        return InType("ent:" + ",".join(map(str, elems)), cpp, len(elems),
                      linear([(e, 1, i) for i, e in enumerate(elems)]))

    def type(self, key):
        if key.startswith("ent:"):
            body = key[4:]
            return self.entity([int(x) for x in body.split(",")] if body else [])
        return self.types[key]


def scalar_type(algcpp):
    return InType("scalar", "gal::scalar<%s, $T>" % algcpp, 1, linear([(0, 1, 0)]), kind="scalar")


def raw_type():
    # a bare floating point number
    return InType("raw", "$T", 1, linear([(0, 1, 0)]), kind="scalar")


def blade_suffix(b, names):
    return "".join(names[i] for i in range(len(names)) if b >> i & 1)


# ---------------------------------------------------------------- PGA (3D projective)
PGA_ALG = Algebra(3, 0, 1)
E0, E1, E2, E3 = 1, 2, 4, 8


def pga_rotor(ring, v):
    c, s, x, y, z = v
    return {0: c, E1 | E2: s * z, E1 | E3: -(s * y), E2 | E3: s * x}


def vga_rotor(ring, v):
    c, s, x, y, z = v
    return {0: c, 0b11: -(s * z), 0b101: s * y, 0b110: -(s * x)}


def pga_translator(ring, v):
    d, x, y, z = v
    one = num(ring, 1)
    return {0: one, E0 | E1: (d * x).scale(-1, 2), E0 | E2: (d * y).scale(-1, 2),
            E0 | E3: (d * z).scale(-1, 2)}


def vpoint_in_pga(ring, v):
    x, y, z = v
    return {0b111: -z, 0b1011: y, 0b1101: -x, 0b1110: num(ring, 1)}


PGA_A = "gal::pga::pga_algebra"
pga = Model(
    "pga", PGA_ALG, "gal::pga", "gal/pga.hpp", PGA_A,
    [scalar_type(PGA_A), raw_type(),
     InType("plane", "gal::pga::plane<$T>", 4, linear([(1, 1, 0), (2, 1, 1), (4, 1, 2), (8, 1, 3)])),
     InType("point", "gal::pga::point<$T>", 4,
            linear([(0b111, 1, 0), (0b1011, 1, 1), (0b1101, 1, 2), (0b1110, 1, 3)])),
     InType("vector", "gal::pga::vector<$T>", 3, linear([(0b111, -1, 2), (0b1011, 1, 1), (0b1101, -1, 0)])),
     InType("line", "gal::pga::line<$T>", 6,
            linear([(0b11, -1, 3), (0b101, -1, 4), (0b110, -1, 2), (0b1001, -1, 5), (0b1010, 1, 1), (0b1100, -1, 0)])),
     InType("motor", "gal::pga::motor<$T>", 8,
            linear([(0, 1, 0), (0b11, 1, 1), (0b101, 1, 2), (0b110, 1, 3), (0b1001, 1, 4), (0b1010, 1, 5),
                    (0b1100, 1, 6), (0b1111, 1, 7)])),
     InType("rotor", "gal::pga::rotor<$T>", 5, pga_rotor, kind="rotor"),
     InType("translator", "gal::pga::translator<$T>", 4, pga_translator, den=2),
     InType("vpoint", "gal::vga::point<$T>", 3, vpoint_in_pga),
     ],
    [("e" + blade_suffix(b, "0123"), b, 1) for b in range(1, 16)] + [("ps", 15, 1)])

# ---------------------------------------------------------------- PGA2
PGA2_ALG = Algebra(2, 0, 1)


def pga2_point(ring, v):
    x, y = v
    return {0b11: y, 0b101: -x, 0b110: num(ring, 1)}


PGA2_A = "gal::pga2::pga2_algebra"
pga2 = Model(
    "pga2", PGA2_ALG, "gal::pga2", "gal/pga2.hpp", PGA2_A,
    [scalar_type(PGA2_A), raw_type(),
     InType("line", "gal::pga2::line<$T>", 3, linear([(1, 1, 0), (2, 1, 1), (4, 1, 2)])),
     InType("vector", "gal::pga2::vector<$T>", 2, linear([(0b11, 1, 1), (0b101, -1, 0)])),
     InType("point", "gal::pga2::point<$T>", 2, pga2_point)],
    [("e" + blade_suffix(b, "012"), b, 1) for b in range(1, 8)] + [("ps", 7, 1)])

# ---------------------------------------------------------------- VGA
VGA_ALG = Algebra(3, 0, 0)
VGA_A = "gal::vga::vga_algebra"
vga = Model(
    "vga", VGA_ALG, "gal::vga", "gal/vga.hpp", VGA_A,
    [scalar_type(VGA_A), raw_type(),
     InType("vector", "gal::vga::vector<$T>", 3, linear([(1, 1, 0), (2, 1, 1), (4, 1, 2)])),
     InType("rotor", "gal::vga::rotor<$T>", 5, vga_rotor, kind="rotor")],
    [("e" + blade_suffix(b, "012"), b, 1) for b in range(1, 8)] + [("ps", 7, 1), ("ips", 7, -1)])

# ---------------------------------------------------------------- CGA
CGA_ALG = Algebra(4, 1, 0, null_basis=True)


def cga_point(ring, v):
    x, y, z = v
    return {1: x, 2: y, 4: z, 8: num(ring, 1), 16: (x * x + y * y + z * z).scale(1, 2)}


CGA_A = "gal::cga::cga_algebra"
cga = Model(
    "cga", CGA_ALG, "gal::cga", "gal/cga.hpp", CGA_A,
    [scalar_type(CGA_A), raw_type(),
     InType("point", "gal::cga::point<$T>", 3, cga_point, den=2)],
    [("e1", 1, 1), ("e2", 2, 1), ("e3", 4, 1), ("no", 8, 1), ("ni", 16, 1), ("ps", 31, 1), ("ips", 31, -1)])

# ---------------------------------------------------------------- CGA2
CGA2_ALG = Algebra(3, 1, 0, null_basis=True)


def cga2_point(ring, v):
    x, y = v
    return {1: x, 2: y, 4: num(ring, 1), 8: (x * x + y * y).scale(1, 2)}


CGA2_A = "gal::cga2::cga2_algebra"
cga2 = Model(
    "cga2", CGA2_ALG, "gal::cga2", "gal/cga2.hpp", CGA2_A,
    [scalar_type(CGA2_A), raw_type(),
     InType("point", "gal::cga2::point<$T>", 2, cga2_point, den=2)],
    [("e1", 1, 1), ("e2", 2, 1), ("no", 4, 1), ("ni", 8, 1), ("ps", 15, 1), ("ips", 15, -1)])

# the library gives metric<4,1,0> and metric<3,1,0> a null basis once cga.hpp / cga2.hpp are
# included, so those two signatures are not available as custom algebras
MODELS = {m.key: m for m in (pga, pga2, vga, cga, cga2)}


def custom(p, v, r):
    key = "m%d_%d_%d" % (p, v, r)
    if key not in MODELS:
        a = "gal::algebra<gal::metric<%d, %d, %d>>" % (p, v, r)
        MODELS[key] = Model(key, Algebra(p, v, r), "gal", "gal/engine.hpp", a,
                            [scalar_type(a), raw_type()], [], compute="gal::detail::compute<%s>" % a)
    return MODELS[key]


def model(key):
    if key in MODELS:
        return MODELS[key]
    p, v, r = map(int, key[1:].split("_"))
    return custom(p, v, r)
