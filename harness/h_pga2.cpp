// C12: the projective plane (public interface only)
#include "geo.hpp"
#include "gal/pga2.hpp"
namespace pga2 = gal::pga2;
using gal::entity;
using A  = pga2::pga2_algebra;
using PT = pga2::point<double>;
using LN = pga2::line<double>;
using VC = pga2::vector<double>;
struct v2
{
    R x, y;
};
static v2 operator-(v2 a, v2 b) { return {a.x - b.x, a.y - b.y}; }
static v2 operator+(v2 a, v2 b) { return {a.x + b.x, a.y + b.y}; }
static v2 operator*(R s, v2 a) { return {s * a.x, s * a.y}; }
static R amax(v2 a) { return std::max(std::fabs(a.x), std::fabs(a.y)); }
static R big(v2 a) { return 1 + amax(a); }
static std::string str(v2 a) { return "(" + num(a.x) + "," + num(a.y) + ")"; }
static v2 vec2(tape& t)
{
    v2 a;
    a.x = coord(t);
    a.y = coord(t);
    return a;
}
struct line
{
    R d;
    v2 n;
};
static line gen_line(tape& t)
{
    line l;
    l.n = vec2(t);
    l.d = coord(t);
    return l;
}
static std::string str(line l) { return num(l.n.x) + "x+" + num(l.n.y) + "y+" + num(l.d); }
static PT pt(v2 a) { return PT{D(a.x), D(a.y)}; }
static VC vc(v2 a) { return VC{D(a.x), D(a.y)}; }
static LN mk(line l) { return LN{D(l.d), D(l.n.x), D(l.n.y)}; }
static v2 at(PT const& p) { return {p.x, p.y}; }
static v2 at(VC const& p) { return {p.x, p.y}; }
static line at(LN const& l) { return {l.d, {l.x, l.y}}; }
static R eval(line l, v2 p) { return l.n.x * p.x + l.n.y * p.y + l.d; }
static void near(checker& c, const char* w, v2 g, v2 e, R s)
{
    c.near(w, g.x, e.x, s);
    c.near(w, g.y, e.y, s);
}

//@section roundtrip
RELATION(roundtrip, 3)
{
    v2 a = vec2(t);
    line l = gen_line(t);
    checker c;
    near(c, "point", at(PT(pga2::compute([](auto x) { return x; }, pt(a)))), a, big(a));
    near(c, "vector", at(VC(pga2::compute([](auto x) { return x; }, vc(a)))), a, big(a));
    line g = at(LN(pga2::compute([](auto x) { return x; }, mk(l))));
    near(c, "line normal", g.n, l.n, big(l.n));
    c.near("line offset", g.d, l.d, 1 + std::fabs(l.d));
    c.near("point[0]", pt(a)[0], a.x, big(a));
    c.near("point[1]", pt(a)[1], a.y, big(a));
    c.near("vector[0]", vc(a)[0], a.x, big(a));
    c.near("vector[1]", vc(a)[1], a.y, big(a));
    c.near("line[0]", mk(l)[0], l.d, 1 + std::fabs(l.d));
    c.near("line[1]", mk(l)[1], l.n.x, big(l.n));
    c.near("line[2]", mk(l)[2], l.n.y, big(l.n));
    PT p = pt(a);
    p[0] = 5;
    c.is("write through point[]", p.x == 5 && p.u == 5 && p.s == 5);
    c.near("aliases", p.v + p.t, 2 * a.y, big(a));
    return c.done("point " + str(a) + " line " + str(l), amax(a) != 0);
}
RELATION(homogeneous, 3)
{
    v2 a = vec2(t);
    R w = coord(t);
    if (w == 0) w = -2;
    checker c;
    gal::scalar<A, double> s{D(w)};
    near(c, "scaled", at(PT(pga2::compute([](auto p, auto s) { return s * p; }, pt(a), s))), a, big(a));
    near(c, "tripled", at(PT(pga2::compute([](auto p) { return 3 * p; }, pt(a)))), a, big(a));
    near(c, "negated", at(PT(pga2::compute([](auto p) { return -1 * p; }, pt(a)))), a, big(a));
    auto e = pga2::compute([](auto p, auto s) { return s * p; }, pt(a), s);
    near(c, "elements", {-e.template select<0b101>() / e.template select<0b110>(), e.template select<0b11>() / e.template select<0b110>()}, a, big(a));
    // midpoint of two points: weights add
    v2 b = vec2(t);
    near(c, "midpoint", at(PT(pga2::compute([](auto p, auto q) { return p + q; }, pt(a), pt(b)))), 0.5L * (a + b), big(a) + big(b));
    near(c, "point plus vector", at(PT(pga2::compute([](auto p, auto q) { return p + q; }, pt(a), vc(b)))), a + b, big(a) + big(b));
    near(c, "difference", at(VC(pga2::compute([](auto p, auto q) { return p - q; }, pt(a), pt(b)))), a - b, big(a) + big(b));
    return c.done("point " + str(a) + " weight " + num(w), amax(a) != 0 && w != 1);
}

//@section join
RELATION(join_points, 4)
{
    v2 p = vec2(t), q = t.below(6) ? vec2(t) : p;
    line l = at(LN(pga2::compute([](auto p, auto q) { return p & q; }, pt(p), pt(q))));
    R s = big(p) * big(q);
    checker c;
    c.near("first point on the line", eval(l, p), 0, s * big(p));
    c.near("second point on the line", eval(l, q), 0, s * big(q));
    // the normal has the length of the segment, so the line does not degenerate for distinct points
    c.near("normal x", std::fabs(l.n.x), std::fabs(p.y - q.y), big(p) + big(q));
    c.near("normal y", std::fabs(l.n.y), std::fabs(p.x - q.x), big(p) + big(q));
    v2 m = p + 0.5L * (q - p);
    c.near("midpoint on the line", eval(l, m), 0, s * (big(p) + big(q)));
    line r = at(LN(pga2::compute([](auto p, auto q) { return q & p; }, pt(p), pt(q))));
    near(c, "antisymmetric normal", r.n, -1.0L * l.n, s);
    c.near("antisymmetric offset", r.d, -l.d, s);
    return c.done("join of " + str(p) + " and " + str(q), amax(p - q) != 0);
}
RELATION(join_direction, 3)
{
    v2 p = vec2(t), v = vec2(t);
    line l = at(LN(pga2::compute([](auto p, auto v) { return p & v; }, pt(p), vc(v))));
    checker c;
    R s = big(p) * big(v);
    c.near("point on the line", eval(l, p), 0, s * big(p));
    c.near("point along the direction", eval(l, p + v), 0, s * (big(p) + big(v)));
    c.near("normal size", l.n.x * l.n.x + l.n.y * l.n.y, v.x * v.x + v.y * v.y, big(v) * big(v));
    return c.done("line through " + str(p) + " along " + str(v), amax(v) != 0);
}

//@section meet
RELATION(meet_lines, 4)
{
    line a = gen_line(t), b = gen_line(t);
    R w = a.n.x * b.n.y - a.n.y * b.n.x;
    R na = big(a.n), nb = big(b.n);
    checker c;
    auto e = pga2::compute([](auto a, auto b) { return a ^ b; }, mk(a), mk(b));
    R pw = e.template select<0b110>();
    c.near("weight", pw, w, na * nb);
    if (std::fabs(w) < 1e-6L * na * nb) return c.done("parallel lines " + str(a) + ", " + str(b), false);
    v2 want{(a.n.y * b.d - b.n.y * a.d) / w, (b.n.x * a.d - a.n.x * b.d) / w};
    v2 p = at(PT(e));
    R s = (1 + std::fabs(a.d) + std::fabs(b.d)) * na * nb / std::fabs(w);
    near(c, "intersection", p, want, s * (1 + na * nb / std::fabs(w)));
    PT back = pga2::compute([](auto a, auto b) { return a ^ b; }, mk(b), mk(a));
    near(c, "order does not matter", at(back), want, s * (1 + na * nb / std::fabs(w)));
    return c.done("meet of " + str(a) + " and " + str(b));
}
RELATION(join_then_meet, 3)
{
    // the lines p-q and p-r meet in p
    v2 p = vec2(t), q = vec2(t), r = vec2(t);
    R w = (p.y - q.y) * (r.x - p.x) - (p.y - r.y) * (q.x - p.x);
    R s = (big(p) + big(q)) * (big(p) + big(r));
    if (std::fabs(w) < 1e-5L * s) return discard();
    checker c;
    v2 g = at(PT(pga2::compute([](auto p, auto q, auto r) { return (p & q) ^ (p & r); }, pt(p), pt(q), pt(r))));
    R k = s / std::fabs(w);
    near(c, "common point", g, p, k * k * s * big(p));
    auto lp = pga2::compute([](auto p, auto q) { return p & q; }, pt(p), pt(q));
    auto lr = pga2::compute([](auto p, auto q) { return p & q; }, pt(p), pt(r));
    near(c, "in two steps", at(PT(pga2::compute([](auto a, auto b) { return a ^ b; }, lp, lr))), p, k * k * s * big(p));
    near(c, "in two steps through lines", at(PT(pga2::compute([](auto a, auto b) { return a ^ b; }, LN(lp), LN(lr)))), p, k * k * s * big(p));
    return c.done("triangle " + str(p) + str(q) + str(r));
}

//@section incidence
RELATION(point_line, 3)
{
    v2 p = vec2(t);
    line l = gen_line(t);
    checker c;
    auto e = pga2::compute([](auto p, auto l) { return p ^ l; }, pt(p), mk(l));
    R s = big(p) * (big(l.n) + std::fabs(l.d));
    c.near("|p ^ l| is the line equation at p", std::fabs(e.template select<0b111>()), std::fabs(eval(l, p)), s);
    auto j = pga2::compute([](auto p, auto l) { return p & l; }, pt(p), mk(l));
    c.near("|p & l| is the line equation at p", std::fabs(j.template select<0>()), std::fabs(eval(l, p)), s);
    // exact incidence with small integers
    v2 a{static_cast<R>(t.small(40)), static_cast<R>(t.small(40))}, d{static_cast<R>(t.small(40)), static_cast<R>(t.small(40))};
    R i = static_cast<R>(t.small(9)), k = static_cast<R>(t.small(9));
    auto z = pga2::compute([](auto p, auto q, auto r) { return p & q & r; }, pt(a), pt(a + i * d), pt(a + k * d));
    for (size_t n = 0; n != z.size(); ++n) c.is("three collinear points are not incident", z[n] == 0);
    return c.done("point " + str(p) + " line " + str(l), eval(l, p) != 0);
}
RELATION(area, 2)
{
    v2 p = vec2(t), q = vec2(t), r = vec2(t);
    checker c;
    auto z = pga2::compute([](auto p, auto q, auto r) { return p & q & r; }, pt(p), pt(q), pt(r));
    R area = (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x);
    R s = (big(p) + big(q)) * (big(p) + big(r)) * big(q);
    c.near("twice the triangle's area", std::fabs(z.template select<0>()), std::fabs(area), s);
    auto y = pga2::compute([](auto p, auto q, auto r) { return q & p & r; }, pt(p), pt(q), pt(r));
    c.near("orientation", y.template select<0>(), -z.template select<0>(), s);
    return c.done("triangle " + str(p) + str(q) + str(r), area != 0);
}
RELATION(angle, 2)
{
    line a = gen_line(t), b = gen_line(t);
    checker c;
    auto x = pga2::compute([](auto a, auto b) { return a | b; }, mk(a), mk(b));
    c.near("a | b", x.template select<0>(), a.n.x * b.n.x + a.n.y * b.n.y, big(a.n) * big(b.n));
    // reflecting the line b in the unit line a
    R n2 = a.n.x * a.n.x + a.n.y * a.n.y;
    if (n2 > 1e-3L)
    {
        line g = at(LN(pga2::compute([](auto a, auto b) { return a * b * a; }, mk(a), mk(b))));
        R dn = a.n.x * b.n.x + a.n.y * b.n.y;
        R s = (1 + n2) * (big(b.n) + std::fabs(b.d)) * (1 + std::fabs(a.d)) * big(a.n);
        near(c, "reflected normal", g.n, v2{2 * dn * a.n.x - n2 * b.n.x, 2 * dn * a.n.y - n2 * b.n.y}, s);
        c.near("reflected offset", g.d, 2 * dn * a.d - n2 * b.d, s);
    }
    return c.done("lines " + str(a) + " and " + str(b), amax(a.n) != 0 && amax(b.n) != 0);
}
