// C09: incidence and coordinates in the projective model, public interface only
#include "geo.hpp"
#include "gal/pga.hpp"
#include "gal/vga.hpp"
namespace pga = gal::pga;
using gal::entity;
using PT = gal::vga::point<double>;
using LN = pga::line<double>;
using PL = pga::plane<double>;
using VC = pga::vector<double>;
static PT pt(v3 a) { return PT{D(a.x), D(a.y), D(a.z)}; }
static VC vc(v3 a) { return VC{D(a.x), D(a.y), D(a.z)}; }
static v3 at(PT const& p) { return {p.x, p.y, p.z}; }
struct ln
{
    v3 d, m;
};
static ln at(LN const& l) { return {{l.dx, l.dy, l.dz}, {l.mx, l.my, l.mz}}; }
static LN mk(ln l) { return LN{D(l.d.x), D(l.d.y), D(l.d.z), D(l.m.x), D(l.m.y), D(l.m.z)}; }
struct pl
{
    v3 n;
    R d;
};
static pl at(PL const& p) { return {{p.x, p.y, p.z}, p.d}; }
static PL mk(pl p) { return PL{D(p.d), D(p.n.x), D(p.n.y), D(p.n.z)}; }
static R big(v3 a) { return 1 + amax(a); }
static pl gen_plane(tape& t)
{
    pl p;
    p.n = vec(t);
    p.d = coord(t);
    return p;
}

//@section roundtrip
RELATION(point_roundtrip)
{
    v3 a = vec(t);
    PT p = pt(a);
    checker c;
    c.near("identity", at(PT(pga::compute([](auto x) { return x; }, p))), a, big(a));
    pga::point<double> e = p;
    c.near("dualised e012", e[0], -a.z, big(a));
    c.near("dualised e013", e[1], a.y, big(a));
    c.near("dualised e023", e[2], -a.x, big(a));
    c.near("weight", e[3], 1, 1);
    c.near("back", at(PT(e)), a, big(a));
    return c.done("point " + str(a), amax(a) != 0);
}
RELATION(homogeneous, 2)
{
    v3 a = vec(t);
    R w  = coord(t);
    if (w == 0) w = 1;
    pga::point<double> e{D(-a.z * w), D(a.y * w), D(-a.x * w), D(w)};
    checker c;
    c.near("direct", at(PT(e)), a, big(a));
    c.near("through compute", at(PT(pga::compute([](auto x) { return x; }, e))), a, big(a));
    gal::scalar<pga::pga_algebra, double> s{D(w)};
    c.near("scaled in compute", at(PT(pga::compute([](auto x, auto s) { return s * x; }, pt(a), s))), a, big(a));
    // entities that store further elements, or only some, convert the same way
    entity<pga::pga_algebra, double, 0, 0b1, 0b111, 0b1011, 0b1101, 0b1110, 0b1111> wide{7, 8, D(-a.z * w), D(a.y * w), D(-a.x * w), D(w), 9};
    c.near("wide entity", at(PT(wide)), a, big(a));
    entity<pga::pga_algebra, double, 0b1011, 0b1110> narrow{D(a.y * w), D(w)};
    c.near("narrow entity", at(PT(narrow)), v3{0, a.y, 0}, big(a));
    return c.done("point " + str(a) + " weight " + num(w), amax(a) != 0 && w != 1);
}
RELATION(entity_roundtrip, 2)
{
    checker c;
    v3 a = vec(t), b = vec(t);
    c.eps = 1e-15L;
    VC v = pga::compute([](auto x) { return x; }, vc(a));
    c.near("vector", v3{v.x, v.y, v.z}, a, big(a));
    LN l = pga::compute([](auto x) { return x; }, mk(ln{a, b}));
    c.near("line direction", at(l).d, a, big(a));
    c.near("line moment", at(l).m, b, big(b));
    LN la{std::array<double, 6>{D(a.x), D(a.y), D(a.z), D(b.x), D(b.y), D(b.z)}};
    c.near("line from array", at(la).m, b, big(b));
    PL p = pga::compute([](auto x) { return x; }, mk(pl{a, b.x}));
    c.near("plane normal", at(p).n, a, big(a));
    c.near("plane offset", p.d, b.x, big(b));
    pga::motor<double> m{1, D(a.x), D(a.y), D(a.z), D(b.x), D(b.y), D(b.z), D(a.x)};
    pga::motor<double> m2 = pga::compute([](auto x) { return x; }, m);
    for (int i = 0; i != 8; ++i) c.near("motor", m2[i], m[i], big(a) + big(b));
    auto bv = m.bivector();
    for (int i = 0; i != 6; ++i) c.near("bivector of motor", bv[i], m[i + 1], big(a) + big(b));
    for (int i = 0; i != 3; ++i) c.near("vector[]", vc(a)[i], i == 0 ? a.x : i == 1 ? a.y : a.z, big(a));
    for (int i = 0; i != 4; ++i) c.near("plane[]", mk(pl{a, b.x})[i], i == 0 ? b.x : i == 1 ? a.x : i == 2 ? a.y : a.z, big(a) + big(b));
    for (int i = 0; i != 6; ++i) c.near("line[]", mk(ln{a, b})[i], i == 0 ? a.x : i == 1 ? a.y : i == 2 ? a.z : i == 3 ? b.x : i == 4 ? b.y : b.z, big(a) + big(b));
    return c.done("coordinates " + str(a) + str(b), amax(a) != 0 && amax(b) != 0);
}
RELATION(to_entity, 2)
{
    // the multivectors the entities stand for
    checker c;
    v3 a = vec(t), b = vec(t);
    auto l = pga::compute([](auto x) { return x; }, mk(ln{a, b}));
    c.near("e23", l.template select<0b1100>(), -a.x, big(a));
    c.near("e13", l.template select<0b1010>(), a.y, big(a));
    c.near("e12", l.template select<0b110>(), -a.z, big(a));
    c.near("e01", l.template select<0b11>(), -b.x, big(b));
    c.near("e02", l.template select<0b101>(), -b.y, big(b));
    c.near("e03", l.template select<0b1001>(), -b.z, big(b));
    auto p = pga::compute([](auto x) { return x; }, mk(pl{a, b.x}));
    c.near("e0", p.template select<1>(), b.x, big(b));
    c.near("e1", p.template select<2>(), a.x, big(a));
    c.near("e2", p.template select<4>(), a.y, big(a));
    c.near("e3", p.template select<8>(), a.z, big(a));
    auto q = pga::compute([](auto x) { return x; }, pt(a));
    c.near("e123", q.template select<0b1110>(), 1, 1);
    c.near("e023", q.template select<0b1101>(), -a.x, big(a));
    auto v = pga::compute([](auto x) { return x; }, vc(a));
    c.near("ideal e023", v.template select<0b1101>(), -a.x, big(a));
    c.near("ideal e013", v.template select<0b1011>(), a.y, big(a));
    c.near("ideal e012", v.template select<0b111>(), -a.z, big(a));
    c.is("a vector has no weight", v.template select<0b1110>() == 0);
    return c.done("entities of " + str(a) + str(b), amax(a) != 0 && amax(b) != 0);
}
//@section join2
RELATION(join_points, 3)
{
    v3 p = vec(t), q = t.below(6) ? vec(t) : p;
    LN l = pga::compute([](auto p, auto q) { return p & q; }, pt(p), pt(q));
    checker c;
    R s = big(p) * big(q);
    c.near("direction", at(l).d, p - q, big(p) + big(q));
    c.near("moment", at(l).m, cross(q, p), s);
    c.near("Pluecker relation", dot(at(l).d, at(l).m), 0, s * (big(p) + big(q)));
    return c.done("join of " + str(p) + " and " + str(q), norm(p - q) != 0);
}
RELATION(join_point_direction, 2)
{
    v3 p = vec(t), v = vec(t);
    LN l = pga::compute([](auto p, auto v) { return p & v; }, pt(p), vc(v));
    checker c;
    c.near("direction", at(l).d, -v, big(v));
    c.near("moment", at(l).m, cross(v, p), big(p) * big(v));
    return c.done("line through " + str(p) + " along " + str(v), norm(v) != 0);
}
//@section join3
RELATION(join_three_points, 3)
{
    v3 p = vec(t), q = vec(t), r = point_near(t, p, q);
    PL e = pga::compute([](auto p, auto q, auto r) { return p & q & r; }, pt(p), pt(q), pt(r));
    checker c;
    R s = big(p) * big(q) * big(r);
    v3 n = cross(q - p, r - p);
    c.near("normal", at(e).n, -n, s);
    c.near("offset", at(e).d, dot(n, p), s * big(p));
    for (v3 x : {p, q, r}) c.near("plane contains its points", at(e).d + dot(at(e).n, x), 0, 4 * s * (big(p) + big(q) + big(r)));
    return c.done("plane through " + str(p) + str(q) + str(r), norm(n) != 0);
}
RELATION(join_line_point, 2)
{
    // a point given separately from the line through two others; zero exactly for collinear points
    v3 p = vec(t), q = vec(t), r = point_near(t, p, q);
    LN l = pga::compute([](auto p, auto q) { return p & q; }, pt(p), pt(q));
    PL e = pga::compute([](auto l, auto r) { return l & r; }, l, pt(r));
    checker c;
    R s = big(p) * big(q) * big(r);
    v3 n = cross(q - p, r - p);
    c.near("normal", at(e).n, -n, s);
    c.near("offset", at(e).d, dot(n, p), s * big(p));
    return c.done("join of line " + str(p) + str(q) + " and point " + str(r), norm(n) != 0);
}
//@section meet
RELATION(meet_three_planes, 3)
{
    pl a = gen_plane(t), b = gen_plane(t), e = gen_plane(t);
    R det = dot(a.n, cross(b.n, e.n));
    R s   = norm(a.n) * norm(b.n) * norm(e.n);
    if (std::fabs(det) < 0.01L * s || s == 0) return discard();
    PT x = pga::compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, mk(a), mk(b), mk(e));
    v3 w = (-1 / det) * (a.d * cross(b.n, e.n) + b.d * cross(e.n, a.n) + e.d * cross(a.n, b.n));
    R m  = (std::fabs(a.d) / norm(a.n) + std::fabs(b.d) / norm(b.n) + std::fabs(e.d) / norm(e.n)) * s / std::fabs(det);
    checker c;
    c.near("meet", at(x), w, 10 * m);
    for (pl y : {a, b, e}) c.near("plane equation", y.d + dot(y.n, at(x)), 0, 10 * (std::fabs(y.d) + norm(y.n) * m));
    return c.done("meet of planes " + str(a.n) + "," + num(a.d) + " " + str(b.n) + "," + num(b.d) + " " + str(e.n) + "," + num(e.d), amax(w) != 0);
}
RELATION(meet_two_planes, 2)
{
    pl a = gen_plane(t), b = gen_plane(t);
    LN l = pga::compute([](auto a, auto b) { return a ^ b; }, mk(a), mk(b));
    checker c;
    c.near("direction", at(l).d, -cross(a.n, b.n), big(a.n) * big(b.n));
    // every point x of the line satisfies x cross direction = moment
    c.near("moment", at(l).m, b.d * a.n - a.d * b.n, (big(a.n) + std::fabs(a.d)) * (big(b.n) + std::fabs(b.d)));
    return c.done("meet of planes " + str(a.n) + "," + num(a.d) + " " + str(b.n) + "," + num(b.d), norm(cross(a.n, b.n)) != 0);
}
RELATION(line_plane, 2)
{
    v3 p = vec(t), d = vec(t);
    pl e  = gen_plane(t);
    R den = dot(e.n, d);
    if (std::fabs(den) < 0.01L * norm(e.n) * norm(d) || norm(e.n) * norm(d) == 0) return discard();
    LN l = pga::compute([](auto p, auto v) { return p & v; }, pt(p), vc(d));
    PT x = pga::compute([](auto l, auto e) { return l ^ e; }, l, mk(e));
    R k  = -(e.d + dot(e.n, p)) / den;
    checker c;
    R m = (big(p) * norm(d) * norm(e.n) + std::fabs(e.d) * norm(d)) / std::fabs(den) + big(p) + std::fabs(k) * norm(d);
    c.near("intersection", at(x), p + k * d, 10 * m);
    return c.done("line " + str(p) + " along " + str(d) + " with plane " + str(e.n) + "," + num(e.d), true);
}
//@section incidence
RELATION(point_plane, 2)
{
    v3 p = vec(t);
    pl e = gen_plane(t);
    if (t.below(3) == 2) e.d = -dot(e.n, p); // incident (up to rounding)
    auto x = pga::compute([](auto p, auto e) { return p ^ e; }, pt(p), mk(e));
    checker c;
    R s = big(p) * big(e.n) + std::fabs(e.d);
    R w = static_cast<R>(D(e.d)) + D(e.n.x) * p.x + D(e.n.y) * p.y + D(e.n.z) * p.z;
    c.near("point ^ plane", x.template select<0b1111>(), -w, s);
    auto y = pga::compute([](auto p, auto e) { return e & p; }, pt(p), mk(e));
    c.near("plane & point", y.template select<0>(), w, s);
    return c.done("point " + str(p) + " and plane " + str(e.n) + "," + num(e.d), norm(e.n) != 0);
}
RELATION(two_lines, 2)
{
    v3 p = vec(t), q = vec(t), r = point_near(t, p, q), s = vec(t);
    auto x = pga::compute([](auto p, auto q, auto r, auto s) { return (p & q) ^ (r & s); }, pt(p), pt(q), pt(r), pt(s));
    // coplanar exactly when the four points are: the determinant of the four homogeneous points
    R det = dot(q - p, cross(r - p, s - p));
    R sc  = big(p) * big(q) * big(r) * big(s);
    checker c;
    c.near("line ^ line", std::fabs(static_cast<R>(x.template select<0b1111>())), std::fabs(det), sc);
    auto y = pga::compute([](auto p, auto q, auto r, auto s) { return p & q & r & s; }, pt(p), pt(q), pt(r), pt(s));
    c.near("point & point & point & point", std::fabs(static_cast<R>(y.template select<0>())), std::fabs(det), sc);
    c.near("both orders agree", x.template select<0b1111>() * y.template select<0>(), det * det * (x.template select<0b1111>() * y.template select<0>() < 0 ? -1 : 1), sc * sc);
    return c.done("lines " + str(p) + str(q) + " and " + str(r) + str(s), det != 0);
}
RELATION(angles, 2)
{
    pl a = gen_plane(t), b = gen_plane(t);
    auto x = pga::compute([](auto a, auto b) { return a | b; }, mk(a), mk(b));
    checker c;
    c.near("plane | plane", x.template select<0>(), dot(a.n, b.n), big(a.n) * big(b.n));
    ln l{vec(t), vec(t)}, k{vec(t), vec(t)};
    auto y = pga::compute([](auto a, auto b) { return a | b; }, mk(l), mk(k));
    c.near("line | line", y.template select<0>(), -dot(l.d, k.d), big(l.d) * big(k.d));
    return c.done("angles " + str(a.n) + str(b.n), norm(a.n) * norm(b.n) != 0);
}
RELATION(collinear, 2)
{
    // three collinear points join to nothing; a fourth point of the plane is incident
    v3 p{static_cast<R>(t.small(50)), static_cast<R>(t.small(50)), static_cast<R>(t.small(50))};
    v3 d{static_cast<R>(t.small(50)), static_cast<R>(t.small(50)), static_cast<R>(t.small(50))};
    v3 e{static_cast<R>(t.small(50)), static_cast<R>(t.small(50)), static_cast<R>(t.small(50))};
    R i = static_cast<R>(t.small(9)), j = static_cast<R>(t.small(9)), k = static_cast<R>(t.small(9));
    auto x = pga::compute([](auto a, auto b, auto c) { return a & b & c; }, pt(p), pt(p + i * d), pt(p + j * d));
    checker c;
    for (size_t n = 0; n != x.size(); ++n) c.is("join of collinear points is not zero", x[n] == 0);
    auto y = pga::compute([](auto a, auto b, auto c, auto e) { return a & b & c & e; }, pt(p), pt(p + i * d), pt(p + j * e), pt(p + k * d + i * e));
    for (size_t n = 0; n != y.size(); ++n) c.is("four coplanar points are not incident", y[n] == 0);
    auto z = pga::compute([](auto a, auto b, auto c, auto e) { return (a & b) & (c & e); }, pt(p), pt(p + i * d), pt(p + j * d), pt(p + e));
    (void)z;
    return c.done("collinear " + str(p) + " direction " + str(d), norm(d) != 0 && i != j && i * j != 0);
}
