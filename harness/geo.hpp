// Coordinate geometry the geometric-algebra results are compared with (plain long double vectors and matrices).
#pragma once
#include "vph.hpp"
#include <array>
using namespace vph;
typedef long double R;
struct v3
{
    R x = 0, y = 0, z = 0;
};
static v3 operator+(v3 a, v3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static v3 operator-(v3 a, v3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static v3 operator-(v3 a) { return {-a.x, -a.y, -a.z}; }
static v3 operator*(R s, v3 a) { return {s * a.x, s * a.y, s * a.z}; }
static R dot(v3 a, v3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static v3 cross(v3 a, v3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static R norm(v3 a) { return std::sqrt(dot(a, a)); }
static R amax(v3 a) { return std::max(std::fabs(a.x), std::max(std::fabs(a.y), std::fabs(a.z))); }
// right-handed rotation of p by the angle t about the unit axis k (Rodrigues)
static v3 rotate(v3 p, v3 k, R t)
{
    R c = std::cos(t), s = std::sin(t);
    return c * p + s * cross(k, p) + ((1 - c) * dot(k, p)) * k;
}
static std::string str(v3 a)
{
    std::ostringstream s;
    s << "(" << static_cast<double>(a.x) << "," << static_cast<double>(a.y) << "," << static_cast<double>(a.z) << ")";
    return s.str();
}
static std::string num(R a)
{
    std::ostringstream s;
    s.precision(12);
    s << static_cast<double>(a);
    return s.str();
}
// values that are exactly representable as double
static double D_(R x) { return static_cast<double>(x); }
static R power_of_ten(tape& t, int lo, int hi)
{
    R r = 1;
    for (int64_t k = t.range(lo, hi); k != 0; k += k < 0 ? 1 : -1) r = k < 0 ? r / 10 : r * 10;
    return r;
}
static R coord(tape& t)
{
    switch (t.below(8))
    {
    case 6: return static_cast<R>(D_(static_cast<R>(t.small(2)) + static_cast<R>(t.small(9)) * power_of_ten(t, -9, -1)));
    case 7: return static_cast<R>(D_(static_cast<R>(t.small(99)) * power_of_ten(t, -7, 3)));
    case 0: return static_cast<R>(t.small(3));
    case 1: return static_cast<R>(t.small(40)) / 4;
    case 2: return static_cast<R>(static_cast<double>(t.small(1000000)) / 100000.0);
    case 3: return static_cast<R>(static_cast<double>(t.small(1000000)) / 1000.0);
    case 4: return static_cast<R>(static_cast<double>(t.small(1000)) / 1000000.0);
    default: return 0;
    }
}
static v3 vec(tape& t)
{
    v3 a;
    a.x = coord(t);
    a.y = coord(t);
    a.z = coord(t);
    return a;
}
static v3 point_near(tape& t, v3 a, v3 b) // sometimes coincident or collinear with two given points
{
    switch (t.below(8))
    {
    case 6: return a;
    case 7: return a + static_cast<R>(t.small(4)) * (b - a);
    default: return vec(t);
    }
}
// unit axis, rounded to double
static v3 axis(tape& t)
{
    static const v3 simple[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
    uint64_t k = t.below(12);
    if (k < 6) return simple[k];
    v3 a;
    do
    {
        a.x = static_cast<R>(t.small(100)) / 10;
        a.y = static_cast<R>(t.small(100)) / 10;
        a.z = static_cast<R>(t.small(100)) / 10;
        if (dot(a, a) == 0) a = {0, 0, 1};
    } while (dot(a, a) == 0);
    a = (1 / norm(a)) * a;
    return {static_cast<double>(a.x), static_cast<double>(a.y), static_cast<double>(a.z)};
}
// positive factor, often close to one
static R factor(tape& t)
{
    switch (t.below(4))
    {
    case 0: return 2;
    case 1: return D_(1 + static_cast<R>(t.small(9)) * power_of_ten(t, -9, -2));
    case 2: return D_(static_cast<R>(t.range(1, 99)) * power_of_ten(t, -7, 5));
    default: return D_(static_cast<R>(t.range(1, 4000)) / 1000);
    }
}
static R angle(tape& t)
{
    static const double simple[] = {0, M_PI / 2, M_PI, -M_PI / 2, 2 * M_PI, M_PI / 4, 3 * M_PI / 2, -M_PI, 1, 3};
    uint64_t k = t.below(26);
    if (k < 10) return simple[k];
    if (k < 14) return D_(simple[t.below(10)] + static_cast<R>(t.small(9)) * power_of_ten(t, -9, -2));
    if (k == 14) return D_(static_cast<R>(t.small(900)) / 10);
    return static_cast<double>(t.small(7000)) / 1000.0;
}
#define D(x) static_cast<double>(x)
struct checker
{
    std::ostringstream out;
    bool failed = false;
    R eps       = 1e-11L;
    // |got - want| must be small relative to `scale`, the magnitude of the quantities that are summed
    void near(const char* what, R got, R want, R scale)
    {
        if (failed) return;
        if (!(std::fabs(got - want) <= eps * (scale + 1e-30L)))
        {
            failed = true;
            out << what << ": got " << num(got) << ", expected " << num(want);
        }
    }
    void near(const char* what, v3 got, v3 want, R scale)
    {
        if (failed) return;
        if (!(amax(got - want) <= eps * (scale + 1e-30L)))
        {
            failed = true;
            out << what << ": got " << str(got) << ", expected " << str(want);
        }
    }
    void is(const char* what, bool c)
    {
        if (!failed && !c)
        {
            failed = true;
            out << what;
        }
    }
    verdict done(std::string const& shown, bool nt = true) { return failed ? bad(out.str(), shown) : ok(shown, nt); }
};
