// An independent implementation of the 16-dimensional projective algebra (e0 null, e1 e2 e3 unit), used as the oracle
// for versors, exponentials and logarithms.  Blades are bit sets, coefficients are long double.
#pragma once
#include "geo.hpp"
struct mv16
{
    std::array<R, 16> c{};
    R& operator[](int i) { return c[i]; }
    R operator[](int i) const { return c[i]; }
};
static int swaps(int a, int b)
{
    int n = 0;
    for (a >>= 1; a; a >>= 1) n += __builtin_popcount(a & b);
    return n;
}
static mv16 operator*(mv16 const& a, mv16 const& b)
{
    mv16 r;
    for (int i = 0; i != 16; ++i)
    {
        if (a[i] == 0) continue;
        for (int j = 0; j != 16; ++j)
        {
            if (b[j] == 0 || (i & j & 1)) continue;
            r[i ^ j] += (swaps(i, j) & 1 ? -1 : 1) * a[i] * b[j];
        }
    }
    return r;
}
static mv16 operator+(mv16 a, mv16 const& b)
{
    for (int i = 0; i != 16; ++i) a[i] += b[i];
    return a;
}
static mv16 operator*(R s, mv16 a)
{
    for (auto& x : a.c) x *= s;
    return a;
}
static mv16 rev(mv16 a)
{
    for (int i = 0; i != 16; ++i)
    {
        int g = __builtin_popcount(i);
        if (g & 2) a[i] = -a[i];
    }
    return a;
}
static mv16 unit()
{
    mv16 r;
    r[0] = 1;
    return r;
}
static R amax(mv16 const& a)
{
    R m = 0;
    for (R x : a.c) m = std::max(m, std::fabs(x));
    return m;
}
// exponential by its power series (argument halving keeps the series short)
static mv16 expo(mv16 b)
{
    int k = 0;
    while (amax(b) > 0.5L && k < 40) b = 0.5L * b, ++k;
    mv16 sum = unit(), term = unit();
    for (int i = 1; i != 40; ++i)
    {
        term = (1.0L / i) * (term * b);
        sum  = sum + term;
    }
    while (k--) sum = sum * sum;
    return sum;
}
static mv16 point16(v3 p)
{
    mv16 r;
    r[0b111]  = -p.z;
    r[0b1011] = p.y;
    r[0b1101] = -p.x;
    r[0b1110] = 1;
    return r;
}
static v3 coords(mv16 const& m)
{
    R w = m[0b1110];
    return {-m[0b1101] / w, m[0b1011] / w, -m[0b111] / w};
}
static mv16 rounded(mv16 m)
{
    for (auto& x : m.c) x = static_cast<double>(x);
    return m;
}
static std::string str(mv16 const& m)
{
    std::string s = "[";
    for (int i = 0; i != 16; ++i)
        if (m[i] != 0) s += " " + std::to_string(i) + ":" + num(m[i]);
    return s + " ]";
}
template <typename A, typename T, gal::elem_t... E>
static mv16 read(gal::entity<A, T, E...> const& e)
{
    mv16 r;
    gal::elem_t es[] = {E..., 0};
    for (size_t i = 0; i != sizeof...(E); ++i) r[es[i]] += e[i];
    return r;
}
static void near(checker& c, const char* what, mv16 const& got, mv16 const& want, R scale)
{
    for (int i = 0; i != 16; ++i) c.near((std::string(what) + " element " + std::to_string(i)).c_str(), got[i], want[i], scale);
}
