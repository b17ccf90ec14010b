// C10: rotors, translators and motors as rigid motions (public interface only)
#include "gal/pga.hpp"
#include "gal/vga.hpp"
#include "pgamul.hpp"
namespace pga = gal::pga;
namespace vga = gal::vga;
using gal::entity;
using PT = vga::point<double>;
using VC = pga::vector<double>;
using LN = pga::line<double>;
using PL = pga::plane<double>;
using RO = pga::rotor<double>;
using TR = pga::translator<double>;
using MO = pga::motor<double>;
static PT pt(v3 a) { return PT{D(a.x), D(a.y), D(a.z)}; }
static VC vc(v3 a) { return VC{D(a.x), D(a.y), D(a.z)}; }
static v3 at(PT const& p) { return {p.x, p.y, p.z}; }
static v3 at(VC const& p) { return {p.x, p.y, p.z}; }
static R big(v3 a) { return 1 + amax(a); }
// the projective rotor cos(t/2) + sin(t/2)(x e23 - y e13 + z e12) turns clockwise seen against its axis
static v3 turn(v3 p, v3 k, R t) { return rotate(p, k, -t); }
static RO ro(R t, v3 k) { return RO{D(t), D(k.x), D(k.y), D(k.z)}; }
static TR tr(R d, v3 k) { return TR{D(d), D(k.x), D(k.y), D(k.z)}; }
struct ln
{
    v3 d, m;
};
static LN mk(ln l) { return LN{D(l.d.x), D(l.d.y), D(l.d.z), D(l.m.x), D(l.m.y), D(l.m.z)}; }
static ln at(LN const& l) { return {{l.dx, l.dy, l.dz}, {l.mx, l.my, l.mz}}; }
// a rigid motion as a list of steps, applied left to right to plain coordinates
struct step
{
    bool rot;
    R a; // angle or distance
    v3 k;
};
static step gen_step(tape& t)
{
    step s;
    s.rot = t.below(2);
    s.k   = axis(t);
    s.a   = s.rot ? angle(t) : coord(t);
    return s;
}
static v3 act(step s, v3 p) { return s.rot ? turn(p, s.k, s.a) : p + s.a * s.k; }
static v3 act_dir(step s, v3 v) { return s.rot ? turn(v, s.k, s.a) : v; }
static R reach(step s) { return s.rot ? 1 : 1 + std::fabs(s.a); }
static std::string str(step s)
{
    return (s.rot ? "turn by " : "move by ") + num(s.a) + " about/along " + str(s.k);
}
// apply a step through the library
static PT apply(step s, PT p)
{
    if (s.rot) return pga::compute([](auto p, auto r) { return p % r; }, p, ro(s.a, s.k));
    return pga::compute([](auto p, auto r) { return p % r; }, p, tr(s.a, s.k));
}
// own multivector of a step, for building motors
static mv16 versor(step s)
{
    mv16 r;
    if (s.rot)
    {
        R c = std::cos(s.a / 2), n = std::sin(s.a / 2);
        r[0] = c, r[0b1100] = n * s.k.x, r[0b1010] = -n * s.k.y, r[0b110] = n * s.k.z;
    }
    else
    {
        r[0] = 1, r[0b11] = -s.a * s.k.x / 2, r[0b101] = -s.a * s.k.y / 2, r[0b1001] = -s.a * s.k.z / 2;
    }
    return r;
}
static MO motor(mv16 const& m)
{
    return MO{D(m[0]), D(m[0b11]), D(m[0b101]), D(m[0b110]), D(m[0b1001]), D(m[0b1010]), D(m[0b1100]), D(m[0b1111])};
}

//@section rotor
RELATION(rotor_point, 3)
{
    v3 p = vec(t), k = axis(t);
    R a = angle(t);
    checker c;
    c.near("point", at(PT(pga::compute([](auto p, auto r) { return p % r; }, pt(p), ro(a, k)))), turn(p, k, a), big(p));
    c.near("written out", at(PT(pga::compute([](auto p, auto r) { return r * p * ~r; }, pt(p), ro(a, k)))), turn(p, k, a), big(p));
    c.near("inverse", at(PT(pga::compute([](auto p, auto r) { return p % r % ~r; }, pt(p), ro(a, k)))), p, big(p));
    c.near("opposite angle", at(PT(pga::compute([](auto p, auto r, auto s) { return p % r % s; }, pt(p), ro(a, k), ro(-a, k)))), p, big(p));
    c.near("on its axis", at(PT(pga::compute([](auto p, auto r) { return p % r; }, pt(a * k), ro(a, k)))), a * k, 1 + std::fabs(a));
    return c.done("turn " + str(p) + " by " + num(a) + " about " + str(k), std::sin(a) != 0 && norm(cross(p, k)) != 0);
}
RELATION(rotor_objects, 3)
{
    v3 v = vec(t), n = vec(t), k = axis(t);
    R a = angle(t), d = coord(t);
    checker c;
    c.near("vector", at(VC(pga::compute([](auto p, auto r) { return p % r; }, vc(v), ro(a, k)))), turn(v, k, a), big(v));
    PL f = pga::compute([](auto p, auto r) { return p % r; }, PL{D(d), D(n.x), D(n.y), D(n.z)}, ro(a, k));
    c.near("plane normal", v3{f.x, f.y, f.z}, turn(n, k, a), big(n));
    c.near("plane offset", f.d, d, 1 + std::fabs(d));
    LN l = pga::compute([](auto p, auto r) { return p % r; }, mk({v, n}), ro(a, k));
    c.near("line direction", at(l).d, turn(v, k, a), big(v));
    c.near("line moment", at(l).m, turn(n, k, a), big(n));
    return c.done("turn " + str(v) + str(n) + " by " + num(a) + " about " + str(k), std::sin(a) != 0 && norm(cross(v, k)) != 0);
}
RELATION(rotor_normalize, 2)
{
    v3 p = vec(t), k = axis(t);
    R a = angle(t), s = factor(t);
    RO r = ro(a, s * k);
    r.normalize();
    checker c;
    c.near("axis", v3{r.x, r.y, r.z}, k, 1);
    c.near("half angle cos", r.cos_theta, std::cos(a / 2), 1);
    c.near("half angle sin", r.sin_theta, std::sin(a / 2), 1);
    c.near("point", at(PT(pga::compute([](auto p, auto r) { return p % r; }, pt(p), r))), turn(p, k, a), big(p));
    auto n = pga::compute([](auto r) { return r * ~r; }, r);
    c.near("unit", n.template select<0>(), 1, 1);
    return c.done("normalised axis " + str(s * k) + " turns " + str(p) + " by " + num(a), s != 1);
}
RELATION(rotor_storage)
{
    R a = angle(t);
    v3 k = axis(t);
    RO r = ro(a, k);
    checker c;
    c.near("[0]", r[0], std::cos(a / 2), 1);
    c.near("[1]", r[1], std::sin(a / 2), 1);
    c.near("[2..4]", v3{r[2], r[3], r[4]}, k, 1);
    r[2] = 0.5;
    c.is("write through []", r.x == 0.5);
    auto m = read(pga::compute([](auto r) { return r; }, ro(a, k)));
    near(c, "embedding", m, versor({true, a, k}), 1);
    c.is("size", RO::size() == 5);
    return c.done("rotor " + num(a) + str(k), std::sin(a) != 0);
}

//@section translator
RELATION(translate, 4)
{
    v3 p = vec(t), k = axis(t), v = vec(t);
    R d = coord(t);
    R s = big(p) + std::fabs(d);
    checker c;
    c.near("point", at(PT(pga::compute([](auto p, auto r) { return p % r; }, pt(p), tr(d, k)))), p + d * k, s);
    c.near("written out", at(PT(pga::compute([](auto p, auto r) { return r * p * ~r; }, pt(p), tr(d, k)))), p + d * k, s);
    c.near("vector", at(VC(pga::compute([](auto p, auto r) { return p % r; }, vc(v), tr(d, k)))), v, big(v));
    c.near("back", at(PT(pga::compute([](auto p, auto r) { return p % r % ~r; }, pt(p), tr(d, k)))), p, s);
    R o = coord(t);
    PL f = pga::compute([](auto p, auto r) { return p % r; }, PL{D(o), D(v.x), D(v.y), D(v.z)}, tr(d, k));
    c.near("plane normal", v3{f.x, f.y, f.z}, v, big(v));
    c.near("plane offset", f.d, o - d * dot(v, k), 1 + std::fabs(o) + std::fabs(d) * big(v));
    // the line through p and p + v moves with its points
    LN l  = pga::compute([](auto a, auto b, auto r) { return (a & b) % r; }, pt(p), pt(p + v), tr(d, k));
    LN l2 = pga::compute([](auto a, auto b) { return a & b; }, pt(p + d * k), pt(p + v + d * k));
    R ls = s * (s + big(v));
    c.near("line direction", at(l).d, at(l2).d, ls);
    c.near("line moment", at(l).m, at(l2).m, ls);
    c.near("line direction (coordinates)", at(l).d, -v, ls);
    return c.done("move " + str(p) + " by " + num(d) + " along " + str(k), d != 0);
}
RELATION(translator_normalize, 2)
{
    v3 p = vec(t), k = axis(t);
    R d = coord(t), s = factor(t);
    TR r = tr(d, s * k);
    r.normalize();
    checker c;
    c.near("axis", v3{r.x, r.y, r.z}, k, 1);
    c.near("distance", r.d, d, 1 + std::fabs(d));
    c.near("point", at(PT(pga::compute([](auto p, auto r) { return p % r; }, pt(p), r))), p + d * k, big(p) + std::fabs(d));
    c.near("[]", v3{r[1], r[2], r[3]}, k, 1);
    c.near("[0]", r[0], d, 1 + std::fabs(d));
    r[3] = 9;
    c.is("write through []", r.z == 9);
    auto m = read(pga::compute([](auto r) { return r; }, tr(d, k)));
    near(c, "embedding", m, versor({false, d, k}), 1 + std::fabs(d));
    auto n = read(pga::compute([](auto r) { return r * ~r; }, tr(d, k)));
    near(c, "unit", n, unit(), 1 + std::fabs(d));
    return c.done("normalised translator " + num(d) + str(s * k) + str(p), d != 0 && s != 1);
}

//@section compose
RELATION(two_steps, 5)
{
    v3 p = vec(t), v = vec(t);
    step a = gen_step(t), b = gen_step(t);
    v3 want = act(b, act(a, p));
    R s = (big(p) + reach(a)) * reach(b) + reach(a);
    checker c;
    c.near("one after the other", at(apply(b, apply(a, pt(p)))), want, s);
    v3 got, g2, gv, g3;
    auto run = [&](auto x, auto y) {
        got = at(PT(pga::compute([](auto p, auto a, auto b) { return p % (b * a); }, pt(p), x, y)));
        g2  = at(PT(pga::compute([](auto p, auto a, auto b) { return p % a % b; }, pt(p), x, y)));
        gv  = at(VC(pga::compute([](auto p, auto a, auto b) { return p % (b * a); }, vc(v), x, y)));
        MO m = pga::compute([](auto a, auto b) { return b * a; }, x, y);
        g3  = at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), m)));
        auto n = read(pga::compute([](auto m) { return m * ~m; }, m));
        near(c, "product is a unit", n, unit(), s * s);
    };
    if (a.rot && b.rot) run(ro(a.a, a.k), ro(b.a, b.k));
    else if (a.rot) run(ro(a.a, a.k), tr(b.a, b.k));
    else if (b.rot) run(tr(a.a, a.k), ro(b.a, b.k));
    else run(tr(a.a, a.k), tr(b.a, b.k));
    c.near("product", got, want, s * s);
    c.near("chained", g2, want, s * s);
    c.near("through a motor", g3, want, s * s);
    c.near("vector", gv, act_dir(b, act_dir(a, v)), s * big(v));
    return c.done("point " + str(p) + ": " + str(a) + ", then " + str(b), a.a != 0 && b.a != 0);
}
RELATION(many_steps, 4)
{
    v3 p = vec(t), q = vec(t), o = vec(t);
    int n = static_cast<int>(t.range(1, 6));
    mv16 m = unit();
    MO lib{1, 0, 0, 0, 0, 0, 0, 0};
    v3 wp = p, wq = q, wo = o;
    R s = big(p) + big(q) + big(o);
    std::string shown;
    for (int i = 0; i != n; ++i)
    {
        step x = gen_step(t);
        shown += str(x) + "; ";
        wp = act(x, wp), wq = act(x, wq), wo = act(x, wo);
        s += x.rot ? 0 : std::fabs(x.a);
        m = versor(x) * m;
        if (x.rot) lib = pga::compute([](auto m, auto r) { return r * m; }, lib, ro(x.a, x.k));
        else lib = pga::compute([](auto m, auto r) { return r * m; }, lib, tr(x.a, x.k));
    }
    checker c;
    s = s * s;
    near(c, "motor", read(pga::compute([](auto m) { return m; }, lib)), m, s);
    auto on = [&](v3 p) { return at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), lib))); };
    c.near("first point", on(p), wp, s);
    c.near("second point", on(q), wq, s);
    c.near("distance kept", norm(on(p) - on(q)), norm(p - q), s);
    c.near("angle kept", dot(on(p) - on(o), on(q) - on(o)), dot(p - o, q - o), s * s);
    LN l = pga::compute([](auto a, auto b, auto m) { return (a & b) % m; }, pt(p), pt(q), lib);
    c.near("line direction", at(l).d, wp - wq, s * s);
    c.near("line moment", at(l).m, cross(wq, wp), s * s);
    PL f = pga::compute([](auto a, auto b, auto c, auto m) { return (a & b & c) % m; }, pt(p), pt(q), pt(o), lib);
    v3 nn{f.x, f.y, f.z};
    for (v3 x : {wp, wq, wo}) c.near("plane holds the moved points", dot(nn, x) + f.d, 0, s * s * s);
    return c.done("points " + str(p) + str(q) + ": " + shown, n > 1);
}
RELATION(motor_entity, 3)
{
    // motors given by their coefficients
    v3 p = vec(t);
    step a = gen_step(t), b = gen_step(t);
    MO m = motor(versor(b) * versor(a));
    R s = (big(p) + reach(a)) * reach(b) + reach(a);
    checker c;
    c.near("sandwich", at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), m))), act(b, act(a, p)), s * s);
    c.near("reverse undoes", at(PT(pga::compute([](auto p, auto m) { return p % m % ~m; }, pt(p), m))), p, s * s * s);
    MO m2 = pga::compute([](auto m) { return m * m; }, m);
    c.near("square acts twice", at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), m2))),
           act(b, act(a, act(b, act(a, p)))), s * s * s);
    // a motor with opposite sign is the same motion
    MO mn{-m[0], -m[1], -m[2], -m[3], -m[4], -m[5], -m[6], -m[7]};
    c.near("opposite sign", at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), mn))), act(b, act(a, p)), s * s);
    return c.done("motor on " + str(p) + ": " + str(a) + ", " + str(b), a.a != 0 && b.a != 0);
}

//@section vga
static vga::vector<double> vv(v3 a) { return {D(a.x), D(a.y), D(a.z)}; }
static v3 av(vga::vector<double> const& a) { return {a.x, a.y, a.z}; }
RELATION(vga_rotor, 4)
{
    v3 p = vec(t), q = vec(t), k = axis(t), k2 = axis(t);
    R a = angle(t), b = angle(t);
    using V = vga::vector<double>;
    vga::rotor<double> r{D(a), D(k.x), D(k.y), D(k.z)}, r2{D(b), D(k2.x), D(k2.y), D(k2.z)};
    checker c;
    c.near("vector", av(V(vga::compute([](auto p, auto r) { return p % r; }, vv(p), r))), rotate(p, k, a), big(p));
    c.near("written out", av(V(vga::compute([](auto p, auto r) { return r * p * ~r; }, vv(p), r))), rotate(p, k, a), big(p));
    c.near("composition", av(V(vga::compute([](auto p, auto r, auto s) { return p % (s * r); }, vv(p), r, r2))),
           rotate(rotate(p, k, a), k2, b), big(p));
    c.near("chained", av(V(vga::compute([](auto p, auto r, auto s) { return p % r % s; }, vv(p), r, r2))),
           rotate(rotate(p, k, a), k2, b), big(p));
    c.near("inverse", av(V(vga::compute([](auto p, auto r) { return p % r % ~r; }, vv(p), r))), p, big(p));
    auto d = vga::compute([](auto p, auto q, auto r) { return (p % r) | (q % r); }, vv(p), vv(q), r);
    c.near("inner product kept", d.template select<0>(), dot(p, q), big(p) * big(q));
    auto w = vga::compute([](auto p, auto q, auto r) { return (p ^ q) % r; }, vv(p), vv(q), r);
    v3 n = rotate(cross(p, q), k, a);
    c.near("plane element", v3{w.template select<0b110>(), -w.template select<0b101>(), w.template select<0b11>()}, n, big(p) * big(q));
    auto u = vga::compute([](auto r) { return r * ~r; }, r);
    c.near("unit", u.template select<0>(), 1, 1);
    return c.done("turn " + str(p) + " by " + num(a) + " about " + str(k) + ", by " + num(b) + " about " + str(k2),
                  std::sin(a) != 0 && norm(cross(p, k)) != 0);
}
RELATION(vga_normalize, 2)
{
    v3 p = vec(t), k = axis(t);
    R a = angle(t), s = factor(t);
    using V = vga::vector<double>;
    vga::rotor<double> r{D(a), D(s * k.x), D(s * k.y), D(s * k.z)};
    r.normalize();
    checker c;
    c.near("axis", v3{r.x, r.y, r.z}, k, 1);
    c.near("[]", v3{r[2], r[3], r[4]}, k, 1);
    c.near("cos", r[0], std::cos(a / 2), 1);
    c.near("sin", r[1], std::sin(a / 2), 1);
    c.near("vector", av(V(vga::compute([](auto p, auto r) { return p % r; }, vv(p), r))), rotate(p, k, a), big(p));
    V w = vv(s * k);
    w.normalize();
    c.near("normalised vector", av(w), k, 1);
    c.near("aliases", v3{w.u, w.v, w.w}, k, 1);
    return c.done("normalised " + str(s * k) + " turns " + str(p) + " by " + num(a), s != 1);
}

//@section floats
RELATION(float_motion, 2)
{
    // single precision, generous tolerance
    v3 p = vec(t), k = axis(t), k2 = axis(t);
    R a = angle(t), d = coord(t);
    checker c;
    c.eps = 2e-5L;
    vga::point<float> fp{float(p.x), float(p.y), float(p.z)};
    pga::rotor<float> r{float(a), float(k.x), float(k.y), float(k.z)};
    pga::translator<float> s{float(d), float(k2.x), float(k2.y), float(k2.z)};
    vga::point<float> o = pga::compute([](auto p, auto r, auto s) { return p % (s * r); }, fp, r, s);
    c.near("point", v3{o.x, o.y, o.z}, turn(p, k, a) + d * k2, big(p) + std::fabs(d));
    vga::vector<float> fv{float(p.x), float(p.y), float(p.z)};
    vga::rotor<float> q{float(a), float(k.x), float(k.y), float(k.z)};
    vga::vector<float> w = vga::compute([](auto p, auto r) { return p % r; }, fv, q);
    c.near("vector", v3{w.x, w.y, w.z}, rotate(p, k, a), big(p));
    return c.done("float: turn " + str(p) + " by " + num(a) + " about " + str(k) + ", move " + num(d) + " along " + str(k2), d != 0);
}
