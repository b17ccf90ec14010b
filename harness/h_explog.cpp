// C11: exponential, logarithm and normalisation of motors (public interface only)
#include "gal/pga.hpp"
#include "gal/vga.hpp"
#include "pgamul.hpp"
namespace pga = gal::pga;
using gal::entity;
using A  = pga::pga_algebra;
using PT = gal::vga::point<double>;
using LN = pga::line<double>;
using MO = pga::motor<double>;
using BV = entity<A, double, 0b11, 0b101, 0b110, 0b1001, 0b1010, 0b1100>;
static PT pt(v3 a) { return PT{D(a.x), D(a.y), D(a.z)}; }
static v3 at(PT const& p) { return {p.x, p.y, p.z}; }
static mv16 bivec(v3 rot, v3 ideal)
{
    mv16 b;
    b[0b1100] = rot.x, b[0b1010] = rot.y, b[0b110] = rot.z;
    b[0b11] = ideal.x, b[0b101] = ideal.y, b[0b1001] = ideal.z;
    return b;
}
static BV lib(mv16 const& b) { return BV{D(b[0b11]), D(b[0b101]), D(b[0b110]), D(b[0b1001]), D(b[0b1010]), D(b[0b1100])}; }
static MO motor(mv16 const& m)
{
    return MO{D(m[0]), D(m[0b11]), D(m[0b101]), D(m[0b110]), D(m[0b1001]), D(m[0b1010]), D(m[0b1100]), D(m[0b1111])};
}
static mv16 read(MO const& m)
{
    mv16 r;
    r[0] = m[0], r[0b11] = m[1], r[0b101] = m[2], r[0b110] = m[3], r[0b1001] = m[4], r[0b1010] = m[5], r[0b1100] = m[6], r[0b1111] = m[7];
    return r;
}
// magnitude of the rotational part: from small to several turns
static R rotation(tape& t)
{
    static const double simple[] = {M_PI / 2, M_PI, M_PI / 4, 1, 2 * M_PI - 0.5, 3 * M_PI / 2, 0.1, 2, 3, 4};
    uint64_t k = t.below(24);
    if (k < 10) return simple[k];
    if (k < 14) return D(simple[t.below(10)] + static_cast<R>(t.small(9)) * power_of_ten(t, -9, -3));
    return static_cast<double>(50 + t.below(9000)) / 1000.0;
}
static v3 ideal(tape& t)
{
    v3 v = vec(t);
    while (amax(v) > 20) v = 0.1L * v;
    return {D(v.x), D(v.y), D(v.z)};
}

//@section exponential
RELATION(exp_series, 5)
{
    R w = rotation(t);
    v3 k = axis(t), i = ideal(t);
    mv16 b = rounded(bivec(w * k, i));
    mv16 want = expo(b);
    R s = (1 + w) * (1 + amax(i)) * (1 + 1 / w) * (1 + 1 / w);
    checker c;
    c.eps = 1e-12L;
    auto e = pga::compute([](auto b) { return exp(b); }, lib(b));
    near(c, "exp", read(e), want, s);
    auto n = pga::compute([](auto b) { return exp(b) * ~exp(b); }, lib(b));
    near(c, "exp(b) ~exp(b)", read(n), unit(), s * s);
    auto n2 = read(e) * rev(read(e));
    near(c, "unit", n2, unit(), s * s);
    auto inv = pga::compute([](auto b) { return exp(b) * exp(-1 * b); }, lib(b));
    near(c, "exp(b) exp(-b)", read(inv), unit(), s * s);
    return c.done("bivector " + str(b), amax(i) != 0);
}
RELATION(exp_scaled, 3)
{
    R w = rotation(t), f = coord(t);
    if (std::fabs(f) < 0.01 || std::fabs(f) > 4) f = f < 0 ? -0.5 : 2;
    v3 k = axis(t), i = ideal(t);
    mv16 b = rounded(bivec(w * k, i));
    R w2 = w * std::min<R>(1, std::fabs(f));
    R s = (1 + 4 * w) * (1 + 4 * amax(i)) * (1 + 1 / w2) * (1 + 1 / w2);
    checker c;
    c.eps = 1e-12L;
    gal::scalar<A, double> fs{D(f)};
    near(c, "exp(f b)", read(pga::compute([](auto b, auto f) { return exp(f * b); }, lib(b), fs)), expo(f * b), s);
    near(c, "exp(2 b)", read(pga::compute([](auto b) { return exp(2 * b); }, lib(b))), expo(2 * b), s);
    near(c, "exp(b / 2)", read(pga::compute([](auto b) { return exp(b / 2); }, lib(b))), expo(0.5L * b), 4 * s);
    near(c, "exp(-b)", read(pga::compute([](auto b) { return exp(-1 * b); }, lib(b))), expo(-1 * b), s);
    // a line of the model, and a sum
    LN l{D(w * k.x), D(w * k.y), D(w * k.z), D(i.x), D(i.y), D(i.z)};
    mv16 lb = read(pga::compute([](auto l) { return l; }, l));
    near(c, "exp of a line", read(pga::compute([](auto l) { return exp(l); }, l)), expo(lb), s);
    mv16 sum = lb + b;
    R wr = norm(v3{sum[0b1100], sum[0b1010], sum[0b110]});
    if (wr > 0.05)
        near(c, "exp of a sum", read(pga::compute([](auto l, auto b) { return exp(l + b); }, l, lib(b))), expo(sum), 4 * s * (1 + 1 / wr) * (1 + 1 / wr));
    return c.done("bivector " + str(b) + " factor " + num(f), amax(i) != 0);
}
RELATION(exp_moves, 3)
{
    // the exponential used as a motor moves points as the series does
    R w = rotation(t);
    v3 k = axis(t), i = ideal(t), p = vec(t);
    mv16 b = rounded(bivec(w * k, i));
    mv16 m = expo(b);
    v3 want = coords(m * point16(p) * rev(m));
    R s = (1 + w) * (1 + amax(i)) * (1 + 1 / w) * (1 + 1 / w);
    checker c;
    v3 got = at(PT(pga::compute([](auto p, auto b) { return p % exp(b); }, pt(p), lib(b))));
    c.near("moved point", got, want, s * s * (1 + amax(p)));
    MO mo = pga::compute([](auto b) { return exp(b); }, lib(b));
    got = at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), mo)));
    c.near("moved by the motor", got, want, s * s * (1 + amax(p)));
    return c.done("bivector " + str(b) + " point " + str(p), amax(i) != 0);
}

//@section logarithm
// half the angle of a motor: anything up to a full turn, but with a rotational part that is clearly not zero
static R half_angle(tape& t)
{
    static const double simple[] = {M_PI / 2, M_PI / 4, 1, 2, 3, 3 * M_PI / 4, -1, -M_PI / 2, 0.1, -3};
    uint64_t k = t.below(26);
    R u;
    if (k < 10) u = simple[k];
    else if (k < 16) u = D((k & 1 ? -M_PI / 2 : M_PI / 2) + static_cast<R>(t.small(9)) * power_of_ten(t, -9, -2));
    else u = static_cast<double>(t.small(3100)) / 1000.0;
    return std::fabs(std::sin(u)) < 0.02 ? 1 : u;
}
RELATION(exp_log, 6)
{
    // a unit motor: turn about a line through `o` along k by the angle 2u, and move along it by d
    R u = half_angle(t);
    v3 k = axis(t), i = ideal(t);
    mv16 rot;
    rot[0] = std::cos(u), rot[0b1100] = std::sin(u) * k.x, rot[0b1010] = std::sin(u) * k.y, rot[0b110] = std::sin(u) * k.z;
    if (std::fabs(rot[0]) < 1e-12L && t.below(2)) rot[0] = 0; // an exact half turn
    mv16 tr = unit();
    tr[0b11] = i.x / 2, tr[0b101] = i.y / 2, tr[0b1001] = i.z / 2;
    mv16 m  = t.below(2) ? tr * rot : rot * tr;
    MO mo   = motor(m);
    checker c;
    c.eps = 1e-12L;
    R s = (1 + amax(i)) * (1 + amax(i)) / (std::sin(u) * std::sin(u));
    auto lg = mo.log();
    mv16 l  = read(lg);
    for (int g : {0, 1, 2, 4, 7, 8, 11, 13, 14, 15}) c.near("logarithm is a bivector", l[g], 0, s);
    mv16 back = expo(l);
    R sign    = 0;
    for (int e = 0; e != 16; ++e) sign += back[e] * m[e];
    near(c, "exp(log m)", (sign < 0 ? -1.0L : 1.0L) * back, m, s);
    auto through = read(pga::compute([](auto b) { return exp(b); }, lib(l)));
    sign = 0;
    for (int e = 0; e != 16; ++e) sign += through[e] * m[e];
    near(c, "library exp of log m", (sign < 0 ? -1.0L : 1.0L) * through, m, s);
    return c.done("motor " + str(m), amax(i) != 0);
}
RELATION(log_exp, 2)
{
    // within the first half turn the logarithm recovers the bivector
    R w = static_cast<double>(100 + t.below(2900)) / 1000.0;
    if (t.below(4) == 0) w = D(M_PI / 2 + static_cast<R>(t.small(9)) * power_of_ten(t, -9, -2));
    if (std::fabs(std::sin(w)) < 0.02L) w = 1;
    v3 k = axis(t), i = ideal(t);
    mv16 b = rounded(bivec(w * k, i));
    MO mo  = motor(expo(b));
    R s = (1 + w) * (1 + amax(i)) * (1 + 1 / w) / std::fabs(std::sin(w));
    checker c;
    c.eps = 1e-11L;
    near(c, "log(exp b)", read(mo.log()), b, s * s);
    return c.done("bivector " + str(b), amax(i) != 0);
}

RELATION(log_single, 4)
{
    // the same in single precision
    R u = half_angle(t);
    v3 k = axis(t), i = ideal(t);
    while (amax(i) > 4) i = 0.25L * i;
    if (std::fabs(std::sin(u)) < 0.1L) u = 1;
    mv16 rot, tr = unit();
    rot[0] = std::cos(u), rot[0b1100] = std::sin(u) * k.x, rot[0b1010] = std::sin(u) * k.y, rot[0b110] = std::sin(u) * k.z;
    tr[0b11] = i.x / 2, tr[0b101] = i.y / 2, tr[0b1001] = i.z / 2;
    mv16 m = tr * rot;
    pga::motor<float> mo{float(m[0]), float(m[0b11]), float(m[0b101]), float(m[0b110]), float(m[0b1001]), float(m[0b1010]), float(m[0b1100]), float(m[0b1111])};
    checker c;
    c.eps = 1e-5L;
    R s = (1 + amax(i)) * (1 + amax(i)) / (std::sin(u) * std::sin(u));
    auto lg = mo.log();
    mv16 l;
    l[0b11] = lg.template select<0b11>(), l[0b101] = lg.template select<0b101>(), l[0b110] = lg.template select<0b110>();
    l[0b1001] = lg.template select<0b1001>(), l[0b1010] = lg.template select<0b1010>(), l[0b1100] = lg.template select<0b1100>();
    mv16 back = expo(l);
    R sign    = 0;
    for (int e = 0; e != 16; ++e) sign += back[e] * m[e];
    near(c, "exp(log m)", (sign < 0 ? -1.0L : 1.0L) * back, m, s);
    return c.done("single precision motor " + str(m), amax(i) != 0);
}

//@section normal
RELATION(normalize, 5)
{
    // any even element with positive norm (as produced by adding or scaling motors)
    mv16 m;
    static const int even[] = {0, 0b11, 0b101, 0b110, 0b1001, 0b1010, 0b1100, 0b1111};
    for (int e : even)
    {
        m[e] = coord(t);
        while (std::fabs(m[e]) > 20) m[e] *= 0.1L;
        m[e] = static_cast<double>(m[e]);
    }
    if (t.below(3) == 0) m[0b1111] = 0;
    R u = m[0] * m[0] + m[0b110] * m[0b110] + m[0b1010] * m[0b1010] + m[0b1100] * m[0b1100];
    if (u < 1e-3L) return discard();
    v3 p = vec(t);
    MO mo = motor(m);
    mo.normalize();
    R s = (1 + amax(m)) * (1 + amax(m)) * (1 + 1 / u);
    checker c;
    c.eps = 1e-11L;
    mv16 g = read(mo);
    near(c, "norm", g * rev(g), unit(), s * s);
    mv16 n2 = m * rev(m);
    // the unit motor m / sqrt(m ~m), with sqrt(u + v I) = sqrt(u) + v / (2 sqrt(u)) I
    mv16 inv;
    inv[0]      = 1 / std::sqrt(n2[0]);
    inv[0b1111] = -n2[0b1111] / (2 * n2[0] * std::sqrt(n2[0]));
    near(c, "normalised motor", g, m * inv, s * s);
    v3 want = coords(m * inv * point16(p) * rev(m * inv));
    v3 got  = at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), mo)));
    c.near("action", got, want, s * s * (1 + amax(p)));
    MO again = mo;
    again.normalize();
    near(c, "normalising twice", read(again), g, s * s);
    return c.done("even element " + str(m), m[0b1111] != 0);
}
RELATION(normalize_versor, 2)
{
    // scaled versors: the action is unchanged, also that of the element before it was normalised
    R w = rotation(t), f = t.below(2) ? factor(t) : coord(t);
    if (std::fabs(f) < 0.01) f = 3;
    v3 k = axis(t), i = ideal(t), p = vec(t);
    mv16 m = rounded(f * expo(bivec(w * k, i)));
    MO mo  = motor(m);
    checker c;
    R s = (1 + amax(m)) * (1 + amax(i)) * (1 + 1 / std::fabs(f)) * (1 + w);
    v3 before = coords(m * point16(p) * rev(m));
    v3 lib0   = at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), mo)));
    c.near("unnormalised action", lib0, before, s * s * s * (1 + amax(p)));
    mo.normalize();
    c.near("normalised action", at(PT(pga::compute([](auto p, auto m) { return p % m; }, pt(p), mo))), before, s * s * s * (1 + amax(p)));
    mv16 g = read(mo);
    near(c, "norm", g * rev(g), unit(), s * s * s);
    near(c, "direction", g, ((1.0L / std::fabs(f))) * m, s * s * s);
    return c.done("scaled motor " + str(m) + " point " + str(p), f != 1);
}
