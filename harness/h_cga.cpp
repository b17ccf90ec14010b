// C08: points and null basis of the conformal models (public interface only)
#include "geo.hpp"
#include "gal/cga.hpp"
#include "gal/cga2.hpp"
using gal::entity;
namespace cga  = gal::cga;
namespace cga2 = gal::cga2;
using A   = cga::cga_algebra;
using A2  = cga2::cga2_algebra;
using PT  = cga::point<double>;
using PT2 = cga2::point<double>;
static PT pt(v3 a) { return PT{D(a.x), D(a.y), D(a.z)}; }
static v3 at(PT const& p) { return {p.x, p.y, p.z}; }
static PT2 p2(v3 a) { return PT2{D(a.x), D(a.y)}; }
static v3 at(PT2 const& p) { return {p.x, p.y, 0}; }
static v3 vec2(tape& t)
{
    v3 a;
    a.x = coord(t);
    a.y = coord(t);
    return a;
}
static R big(v3 a) { return 1 + amax(a); }
template <gal::elem_t E, typename X>
static R sel(X const& x)
{
    return x.template select<E>();
}

//@section points
RELATION(embedding, 2)
{
    v3 a = vec(t);
    checker c;
    c.eps = 1e-14L;
    auto p = cga::compute([](auto p) { return p; }, pt(a));
    c.is("a point stores five elements", p.size() == 5);
    c.near("position", v3{sel<1>(p), sel<2>(p), sel<4>(p)}, a, big(a));
    c.near("origin", sel<8>(p), 1, 1);
    c.near("infinity", sel<16>(p), dot(a, a) / 2, big(a) * big(a));
    c.near("back", at(PT(p)), a, big(a));
    v3 b{a.x, a.y, 0};
    auto q = cga2::compute([](auto p) { return p; }, p2(b));
    c.near("plane position", v3{sel<1>(q), sel<2>(q), 0}, b, big(b));
    c.near("plane origin", sel<4>(q), 1, 1);
    c.near("plane infinity", sel<8>(q), dot(b, b) / 2, big(b) * big(b));
    c.near("plane back", at(PT2(q)), b, big(b));
    for (int i = 0; i != 3; ++i) c.near("[]", pt(a)[i], i == 0 ? a.x : i == 1 ? a.y : a.z, big(a));
    PT w = pt(a);
    w[1] = 4;
    c.is("write through []", w.y == 4 && w.v == 4);
    return c.done("point " + str(a), amax(a) != 0);
}
RELATION(distance, 4)
{
    v3 a = vec(t), b = t.below(6) ? vec(t) : a;
    checker c;
    c.eps = 1e-13L;
    R s = (big(a) + big(b)) * (big(a) + big(b));
    auto e = cga::compute([](auto a, auto b) { return a | b; }, pt(a), pt(b));
    c.near("a | b", sel<0>(e), -dot(a - b, a - b) / 2, s);
    auto f = cga::compute([](auto a, auto b) { return a >> b; }, pt(a), pt(b));
    c.near("a >> b", sel<0>(f), -dot(a - b, a - b) / 2, s);
    auto g = cga::compute([](auto a, auto b) { return a * b; }, pt(a), pt(b));
    c.near("scalar part of a b", sel<0>(g), -dot(a - b, a - b) / 2, s);
    auto z = cga::compute([](auto a) { return a | a; }, pt(a));
    c.is("a | a is exactly zero", z.size() == 0);
    auto y = cga::compute([](auto a) { return a >> a; }, pt(a));
    c.is("a >> a is exactly zero", y.size() == 0);
    auto x = cga::compute([](auto a) { return a * a; }, pt(a));
    c.is("a a is exactly zero", x.size() == 0);
    auto w = cga::compute([](auto a) { return a ^ a; }, pt(a));
    c.is("a ^ a is exactly zero", w.size() == 0);
    // the same in the plane
    v3 a2{a.x, a.y, 0}, b2{b.x, b.y, 0};
    auto h = cga2::compute([](auto a, auto b) { return a | b; }, p2(a2), p2(b2));
    c.near("plane a | b", sel<0>(h), -dot(a2 - b2, a2 - b2) / 2, s);
    auto z2 = cga2::compute([](auto a) { return a | a; }, p2(a2));
    c.is("plane a | a is exactly zero", z2.size() == 0);
    auto x2 = cga2::compute([](auto a) { return a * a; }, p2(a2));
    c.is("plane a a is exactly zero", x2.size() == 0);
    return c.done("points " + str(a) + str(b), norm(a - b) != 0);
}
RELATION(spheres, 3)
{
    // the dual sphere with centre m and radius r: m - r^2/2 infinity
    v3 m = vec(t), p = vec(t), n = vec(t);
    R r = coord(t), q = coord(t);
    checker c;
    c.eps = 1e-13L;
    using namespace gal::cga;
    gal::scalar<A, double> rr{D(r)}, qq{D(q)};
    R s = (big(m) + big(p)) * (big(m) + big(p)) + r * r;
    auto e = cga::compute([](auto p, auto m, auto r) { return p | (m - r * r / 2 * 1_ni); }, pt(p), pt(m), rr);
    c.near("power of a point", sel<0>(e), (r * r - dot(p - m, p - m)) / 2, s);
    s = (big(m) + big(n)) * (big(m) + big(n)) + r * r + q * q;
    auto f = cga::compute([](auto m, auto r, auto n, auto q) { return (m - r * r / 2 * 1_ni) | (n - q * q / 2 * 1_ni); }, pt(m), rr, pt(n), qq);
    c.near("two spheres", sel<0>(f), (r * r + q * q - dot(m - n, m - n)) / 2, s * s);
    auto g = cga::compute([](auto m, auto r) { return (m - r * r / 2 * 1_ni) * (m - r * r / 2 * 1_ni); }, pt(m), rr);
    c.near("squared radius", sel<0>(g), r * r, s * s);
    auto h = cga::compute([](auto p, auto q) { return p | (1_ni); }, pt(p), pt(m));
    c.near("p | infinity", sel<0>(h), -1, 1);
    return c.done("sphere " + str(m) + " radius " + num(r) + " point " + str(p), r != 0);
}
//@section flats
RELATION(line_through, 3)
{
    using namespace gal::cga;
    v3 a = vec(t), b = vec(t), x = point_near(t, a, b);
    checker c;
    c.eps = 1e-12L;
    // a ^ b ^ infinity, wedged with x: the coefficients are those of the area of a, b, x
    auto e = cga::compute([](auto a, auto b, auto x) { return a ^ b ^ 1_ni ^ x; }, pt(a), pt(b), pt(x));
    v3 n = cross(b - a, x - a);
    R s = (big(a) + big(b)) * (big(a) + big(x)) * (big(b) + big(x));
    // coefficient of e_i e_j no ni is +-(the area component)
    c.near("e12 no ni", std::fabs(sel<0b11011>(e)), std::fabs(n.z), s);
    c.near("e13 no ni", std::fabs(sel<0b11101>(e)), std::fabs(n.y), s);
    c.near("e23 no ni", std::fabs(sel<0b11110>(e)), std::fabs(n.x), s);
    return c.done("line " + str(a) + str(b) + " and " + str(x), norm(n) != 0);
}
RELATION(plane_through, 2)
{
    using namespace gal::cga;
    v3 a = vec(t), b = vec(t), d = vec(t), x = point_near(t, a, b);
    checker c;
    c.eps = 1e-12L;
    auto e = cga::compute([](auto a, auto b, auto d, auto x) { return a ^ b ^ d ^ 1_ni ^ x; }, pt(a), pt(b), pt(d), pt(x));
    R vol = dot(cross(b - a, d - a), x - a);
    R s = (big(a) + big(b)) * (big(a) + big(d)) * (big(a) + big(x)) * (big(a) + big(b));
    c.near("volume", std::fabs(sel<0b11111>(e)), std::fabs(vol), s);
    return c.done("plane " + str(a) + str(b) + str(d) + " and " + str(x), vol != 0);
}
//@section motions
RELATION(translation, 3)
{
    using namespace gal::cga;
    v3 a = vec(t), d = vec(t);
    using V = entity<A, double, 1, 2, 4>;
    V v{D(d.x), D(d.y), D(d.z)};
    checker c;
    R s = (big(a) + big(d)) * (big(a) + big(d));
    c.eps = 1e-12L;
    auto e = cga::compute([](auto p, auto v) { return (1 - v * 1_ni / 2) * p * (1 + v * 1_ni / 2); }, pt(a), v);
    c.near("moved point", at(PT(e)), a + d, s * s);
    c.near("origin weight", sel<8>(e), 1, s * s);
    c.near("infinity weight", sel<16>(e), dot(a + d, a + d) / 2, s * s);
    auto f = cga::compute([](auto p, auto v) { return p % (1 - v * 1_ni / 2); }, pt(a), v);
    c.near("sandwich", at(PT(f)), a + d, s * s);
    // reflection of a point in the plane through the origin normal to v
    R n2 = dot(d, d);
    if (n2 > 1e-6L)
    {
        auto g = cga::compute([](auto p, auto v) { return -1 * (v * p * v); }, pt(a), v);
        v3 want = a - (2 * dot(a, d) / n2) * d;
        c.near("reflected", (1 / sel<8>(g)) * v3{sel<1>(g), sel<2>(g), sel<4>(g)}, want, s * s * (1 + 1 / n2) * (1 + n2));
    }
    return c.done("move " + str(a) + " by " + str(d), amax(d) != 0);
}
RELATION(inversion, 2)
{
    // reflection in the unit sphere about the origin: origin and infinity change places
    using namespace gal::cga;
    v3 a = vec(t);
    R n2 = dot(a, a);
    if (n2 < 1e-6L) return discard();
    checker c;
    auto e = cga::compute([](auto p) { return (1_no - 1_ni / 2) * p * (1_no - 1_ni / 2); }, pt(a));
    R w = sel<8>(e);
    c.near("inverse point", (1 / w) * v3{sel<1>(e), sel<2>(e), sel<4>(e)}, (1 / n2) * a, (1 + amax(a) * amax(a)) * (1 + 1 / n2));
    return c.done("invert " + str(a));
}
//@section general
using M32 = entity<A, double, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31>;
using M16 = entity<A2, double, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>;
RELATION(identity, 3)
{
    M32 m{};
    M16 n{};
    for (int i = 0; i != 32; ++i) m[i] = D(coord(t));
    for (int i = 0; i != 16; ++i) n[i] = D(coord(t));
    checker c;
    c.eps = 1e-14L;
    auto e = cga::compute([](auto m) { return m; }, m);
    auto f = cga2::compute([](auto m) { return m; }, n);
    c.is("all elements come back", e.size() == 32 && f.size() == 16);
    for (int i = 0; i != 32; ++i) c.near(("element " + std::to_string(i)).c_str(), e[i], m[i], 2000);
    for (int i = 0; i != 16; ++i) c.near(("plane element " + std::to_string(i)).c_str(), f[i], n[i], 2000);
    auto g = cga::compute([](auto m) { return ~~m; }, m);
    for (int i = 0; i != 32; ++i) c.near(("reversed twice " + std::to_string(i)).c_str(), g[i], m[i], 2000);
    auto h = cga::compute([](auto m) { return 3 * m - 2 * m; }, m);
    for (int i = 0; i != 32; ++i) c.near(("combination " + std::to_string(i)).c_str(), h[i], m[i], 10000);
    auto k = cga::compute([](auto m) { return m[24]; }, m);
    c.near("component no ni", sel<0>(k), m[24], 2000);
    return c.done("general multivector");
}
RELATION(null_vectors, 2)
{
    // x origin + y infinity squares to -2xy
    R x = coord(t), y = coord(t);
    checker c;
    using N = entity<A, double, 8, 16>;
    N n{D(x), D(y)};
    auto e = cga::compute([](auto n) { return n * n; }, n);
    c.near("square", sel<0>(e), -2 * x * y, 1 + std::fabs(x * y));
    c.is("square is a scalar", e.size() == 1);
    using O = entity<A, double, 8>;
    using I = entity<A, double, 16>;
    auto f = cga::compute([](auto o, auto i) { return o | i; }, O{D(x)}, I{D(y)});
    c.near("o | i", sel<0>(f), -x * y, 1 + std::fabs(x * y));
    c.is("o o vanishes", cga::compute([](auto o) { return o * o; }, O{D(x)}).size() == 0);
    c.is("i i vanishes", cga::compute([](auto i) { return i * i; }, I{D(y)}).size() == 0);
    auto g = cga::compute([](auto o, auto i) { return o * i; }, O{D(x)}, I{D(y)});
    c.near("scalar part of o i", sel<0>(g), -x * y, 1 + std::fabs(x * y));
    c.near("bivector part of o i", sel<24>(g), x * y, 1 + std::fabs(x * y));
    using O2 = entity<A2, double, 4>;
    using I2 = entity<A2, double, 8>;
    auto h = cga2::compute([](auto o, auto i) { return o * i; }, O2{D(x)}, I2{D(y)});
    c.near("plane: scalar part of o i", sel<0>(h), -x * y, 1 + std::fabs(x * y));
    c.near("plane: bivector part of o i", sel<12>(h), x * y, 1 + std::fabs(x * y));
    c.is("plane: o o vanishes", cga2::compute([](auto o) { return o * o; }, O2{D(x)}).size() == 0);
    return c.done("null vectors " + num(x) + ", " + num(y), x * y != 0);
}
