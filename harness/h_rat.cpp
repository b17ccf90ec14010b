#include "vph.hpp"
#include "gal/numeric.hpp"
#include <numeric>
using namespace vph;
using gal::rat;
typedef __int128 wide;
static std::string str(rat r) { std::ostringstream s; s << r.num << "/" << r.den; return s.str(); }
static std::string cat(rat a, const char* o, rat b) { return str(a) + " " + o + " " + str(b); }

struct q
{
    wide n, d;
};
static wide wgcd(wide a, wide b)
{
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { wide r = a % b; a = b; b = r; }
    return a;
}
static q norm(wide n, wide d)
{
    if (d < 0) { n = -n; d = -d; }
    wide g = wgcd(n, d);
    if (g > 1) { n /= g; d /= g; }
    return {n, d};
}
static bool fits(wide x) { return x <= 2147483647 && x >= -2147483647; }

// magnitude classes: tiny, around the 1024 threshold, large
static int64_t mag(tape& t)
{
    switch (t.below(5))
    {
    case 0: return t.range(0, 12);
    case 1: return t.range(0, 200);
    case 2: return t.range(1000, 1060);
    case 3: return t.range(0, 46000);
    default: return t.range(0, 3000000);
    }
}
static rat gen(tape& t)
{
    int64_t n = mag(t), d = mag(t);
    if (t.below(2)) n = -n;
    if (d == 0) d = 1;
    q r = norm(n, d);
    return rat{static_cast<int32_t>(r.n), static_cast<int32_t>(r.d)};
}

// Is `got` an acceptable result for the exact value e?
static std::string judge(rat got, q e)
{
    if (got.den <= 0) return "denominator not positive: " + str(got);
    if (std::gcd(got.num, got.den) != 1) return "not in lowest terms: " + str(got);
    if (got.num == e.n && got.den == e.d) return "";
    if (e.d < 1024)
    {
        std::ostringstream s;
        s << "got " << str(got) << " expected " << static_cast<int64_t>(e.n) << "/" << static_cast<int64_t>(e.d);
        return s.str();
    }
    // |got - e| < 1e-7, decided in integers: |gn*ed - en*gd| * 1e7 < gd * ed
    wide diff = wide(got.num) * e.d - e.n * wide(got.den);
    if (diff < 0) diff = -diff;
    if (diff * 10000000 < wide(got.den) * e.d) return "";
    std::ostringstream s;
    s << "got " << str(got) << " which is more than 1e-7 away from " << static_cast<int64_t>(e.n) << "/"
      << static_cast<int64_t>(e.d);
    return s.str();
}
#define DONE(msg, shown, nt)                                                                       \
    {                                                                                              \
        std::string m_ = (msg);                                                                    \
        return m_.empty() ? ok(shown, nt) : bad(m_, shown);                                        \
    }

//@section arith
RELATION(add, 4)
{
    rat a = gen(t), b = gen(t);
    if (t.chance(10)) b = rat{-a.num, a.den};
    wide n = wide(a.num) * b.den + wide(b.num) * a.den;
    if (!fits(wide(a.num) * b.den) || !fits(wide(b.num) * a.den) || !fits(n) || (n != 0 && !fits(wide(a.den) * b.den))) return discard();
    DONE(judge(a + b, norm(n, wide(a.den) * b.den)), cat(a, "+", b), a.num && b.num);
}
RELATION(sub, 4)
{
    rat a = gen(t), b = gen(t);
    if (t.chance(10)) b = a;
    wide n = wide(a.num) * b.den - wide(b.num) * a.den;
    if (!fits(wide(a.num) * b.den) || !fits(wide(b.num) * a.den) || !fits(n) || (n != 0 && !fits(wide(a.den) * b.den))) return discard();
    DONE(judge(a - b, norm(n, wide(a.den) * b.den)), cat(a, "-", b), a.num && b.num);
}
RELATION(mul, 4)
{
    rat a = gen(t), b = gen(t);
    wide n = wide(a.num) * b.num, d = wide(a.den) * b.den;
    if (!fits(n) || !fits(d)) return discard();
    DONE(judge(a * b, norm(n, d)), cat(a, "*", b), a.num && b.num);
}
RELATION(div, 4)
{
    rat a = gen(t), b = gen(t);
    wide n = wide(a.num) * b.den, d = wide(a.den) * b.num;
    if (b.num == 0 || !fits(n) || !fits(d)) return discard();
    DONE(judge(a / b, norm(n, d)), cat(a, "/", b), a.num != 0);
}
RELATION(add_assign, 4)
{
    rat a = gen(t), b = gen(t), c = a;
    if (t.chance(10)) b = rat{-a.num, a.den};
    wide n = wide(a.num) * b.den + wide(b.num) * a.den;
    if (!fits(wide(a.num) * b.den) || !fits(wide(b.num) * a.den) || !fits(n) || (n != 0 && !fits(wide(a.den) * b.den))) return discard();
    c += b;
    DONE(judge(c, norm(n, wide(a.den) * b.den)), cat(a, "+=", b), a.num && b.num);
}
RELATION(mul_assign, 4)
{
    rat a = gen(t), b = gen(t), c = a;
    wide n = wide(a.num) * b.num, d = wide(a.den) * b.den;
    if (!fits(n) || !fits(d)) return discard();
    c *= b;
    DONE(judge(c, norm(n, d)), cat(a, "*=", b), a.num && b.num);
}
RELATION(div_assign, 4)
{
    rat a = gen(t), b = gen(t), c = a;
    wide n = wide(a.num) * b.den, d = wide(a.den) * b.num;
    if (b.num == 0 || !fits(n) || !fits(d)) return discard();
    c /= b;
    DONE(judge(c, norm(n, d)), cat(a, "/=", b), a.num != 0);
}
//@section integer
RELATION(int_mul, 2)
{
    rat a = gen(t);
    int k = static_cast<int>(t.small(3000));
    if (!fits(wide(a.num) * k)) return discard();
    DONE(judge(k * a, norm(wide(a.num) * k, a.den)), std::to_string(k) + " * " + str(a), a.num && k);
}
RELATION(int_div, 2)
{
    rat a = gen(t);
    int k = static_cast<int>(t.small(3000));
    if (k == 0 || !fits(wide(a.den) * k)) return discard();
    DONE(judge(a / k, norm(a.num, wide(a.den) * k)), str(a) + " / " + std::to_string(k), a.num != 0);
}
//@section unary
RELATION(negate, 1)
{
    rat a = gen(t);
    DONE(judge(-a, norm(-wide(a.num), a.den)), "-" + str(a), a.num != 0);
}
RELATION(negation, 1)
{
    rat a = gen(t);
    DONE(judge(a.negation(), norm(-wide(a.num), a.den)), "negation " + str(a), a.num != 0);
}
RELATION(reciprocal, 1)
{
    rat a = gen(t);
    if (a.num == 0) return discard();
    DONE(judge(a.reciprocal(), norm(a.den, a.num)), "reciprocal " + str(a), true);
}
RELATION(predicates, 1)
{
    rat a = gen(t);
    if (t.chance(20)) a = rat{a.den == 0 ? 1 : a.den, a.den};
    bool unit = a.num == a.den;
    if (a.is_zero() != (a.num == 0)) return bad("is_zero wrong", str(a));
    if (a.is_unit() != unit) return bad("is_unit wrong", str(a));
    return ok(str(a));
}
RELATION(convert, 1)
{
    rat a    = gen(t);
    double d = static_cast<double>(a);
    float f  = static_cast<float>(a);
    double e = static_cast<double>(a.num) / static_cast<double>(a.den);
    float g  = static_cast<float>(e);
    if (!(std::fabs(d - e) <= 4e-16 * std::fabs(e))) return bad("conversion to double", str(a));
    if (!(std::fabs(f - g) <= 4e-7f * std::fabs(g))) return bad("conversion to float", str(a));
    return ok(str(a), a.num != 0 && a.den != 1);
}
//@section constants
RELATION(constants, 1)
{
    // the named constants, used as operands
    rat a = gen(t);
    if (!fits(wide(a.den) * 2)) return discard();
    struct { const char* name; rat value; int n, d; } table[] = {{"one", gal::one, 1, 1}, {"minus_one", gal::minus_one, -1, 1},
        {"one_half", gal::one_half, 1, 2}, {"minus_one_half", gal::minus_one_half, -1, 2}, {"zero", gal::zero, 0, 1}};
    for (auto& e : table)
    {
        auto m = judge(a * e.value, norm(wide(a.num) * e.n, wide(a.den) * e.d));
        if (!m.empty()) return bad(m, str(a) + " * " + e.name);
    }
    return ok(str(a) + " * constants", a.num != 0);
}
//@section compare
static rat any(tape& t)
{
    if (t.chance(70)) return gen(t);
    int64_t n = t.chance(30) ? 2147483647 - t.range(0, 3) : t.range(0, 2147483647);
    int64_t d = t.chance(30) ? 2147483647 - t.range(0, 3) : t.range(1, 2147483647);
    q r = norm(t.below(2) ? -n : n, d);
    return rat{static_cast<int32_t>(r.n), static_cast<int32_t>(r.d)};
}
RELATION(compare, 4)
{
    rat a = any(t), b = any(t);
    switch (t.below(4))
    {
    case 1: b = a; break;
    case 2: // an unreduced copy of the same value
    {
        int64_t k = t.range(1, 9);
        if (!fits(wide(a.num) * k) || !fits(wide(a.den) * k)) return discard();
        b = rat{static_cast<int32_t>(a.num * k), static_cast<int32_t>(a.den * k)};
        break;
    }
    case 3:
    {
        int64_t n = a.num + t.small(1);
        if (!fits(n)) return discard();
        b = rat{static_cast<int32_t>(n), a.den};
        break;
    }
    default: break;
    }
    wide l = wide(a.num) * b.den, r = wide(b.num) * a.den;
    if ((a == b) != (l == r)) return bad("==", cat(a, "==", b));
    if ((a != b) != (l != r)) return bad("!=", cat(a, "!=", b));
    if ((a < b) != (l < r)) return bad("<", cat(a, "<", b));
    if ((a > b) != (l > r)) return bad(">", cat(a, ">", b));
    return ok(cat(a, "<=>", b));
}
RELATION(compare_int, 1)
{
    rat a = gen(t);
    int k = static_cast<int>(t.small(2000));
    if (t.chance(50)) { k = a.num; if (t.chance(50)) a.den = 1; }
    q n = norm(a.num, a.den);
    bool ne = !(n.d == 1 && n.n == k);
    if ((a != k) != ne) return bad("!= int", str(a) + " != " + std::to_string(k));
    return ok(str(a) + " != " + std::to_string(k));
}
//@section sequence
// chains of operations: the accumulated perturbation stays below the sum of the single ones and the invariants hold
RELATION(chain, 2)
{
    std::ostringstream s;
    rat a = gen(t);
    s << str(a);
    int n = static_cast<int>(t.range(2, 10));
    for (int i = 0; i != n; ++i)
    {
        rat b = rat{static_cast<int32_t>(t.small(20)), static_cast<int32_t>(t.range(1, 20))};
        q bn  = norm(b.num, b.den);
        b     = rat{static_cast<int32_t>(bn.n), static_cast<int32_t>(bn.d)};
        wide x, y;
        rat got;
        const char* o;
        int k = static_cast<int>(t.below(7));
        switch (k)
        {
        case 0: case 4: x = wide(a.num) * b.den + wide(b.num) * a.den; y = wide(a.den) * b.den; o = "+"; break;
        case 1: x = wide(a.num) * b.den - wide(b.num) * a.den; y = wide(a.den) * b.den; o = "-"; break;
        case 2: case 5: x = wide(a.num) * b.num; y = wide(a.den) * b.den; o = "*"; break;
        default: x = wide(a.num) * b.den; y = wide(a.den) * b.num; o = "/"; break;
        }
        if (y == 0 || !fits(x) || !fits(y) || !fits(wide(a.num) * b.den) || !fits(wide(b.num) * a.den)) break;
        switch (k)
        {
        case 0: got = a + b; break;
        case 1: got = a - b; break;
        case 2: got = a * b; break;
        case 3: got = a / b; break;
        case 4: got = a; got += b; break;
        case 5: got = a; got *= b; break;
        default: got = a; got /= b; break;
        }
        s << " " << o << " " << str(b);
        auto m = judge(got, norm(x, y));
        if (!m.empty()) return bad(m, s.str());
        a = got;
    }
    return ok(s.str());
}
//@section gate
RELATION(gate, 3)
{
    int64_t n = mag(t), d = mag(t);
    if (t.below(2)) n = -n;
    if (d == 0) d = 1;
    if (t.chance(20)) d = t.range(1000, 1050);
    rat a{static_cast<int32_t>(n), static_cast<int32_t>(d)};
    rat g = gal::detail::overflow_gate(a);
    DONE(judge(g, norm(n, d)), "overflow_gate " + str(a), d >= 1024);
}
