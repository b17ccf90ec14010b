#include "vph.hpp"
#include "gal/geometric_algebra.hpp"
#include "gal/null_algebra.hpp"
#include <map>
#include <numeric>
using namespace vph;
using gal::width_t;

// ------------------------------------------------------------------ exact reference
struct out_of_range
{};
struct Q
{
    int64_t n = 0, d = 1;
};
static int64_t worst = 1; // largest common denominator met in this case
static Q mk(int64_t n, int64_t d)
{
    if (d < 0) { n = -n; d = -d; }
    int64_t g = std::gcd(n < 0 ? -n : n, d);
    if (g > 1) { n /= g; d /= g; }
    if (n == 0) d = 1;
    // the library's 32-bit rationals are only claimed exact below these bounds (see C07)
    worst = std::lcm(worst, d);
    if (worst > 1000 || d >= 1000 || n > 200000 || n < -200000) throw out_of_range{};
    return {n, d};
}
static Q operator+(Q a, Q b) { return mk(a.n * b.d + b.n * a.d, a.d * b.d); }
static Q operator*(Q a, Q b) { return mk(a.n * b.n, a.d * b.d); }
static Q inv(Q a) { return mk(a.d, a.n); }
static bool operator==(Q a, Q b) { return a.n == b.n && a.d == b.d; }
static bool operator<(Q a, Q b) { return a.n * b.d < b.n * a.d; }

struct key
{
    Q degree;
    std::vector<std::pair<uint64_t, Q>> f; // (indeterminate, exponent), ascending
    bool operator<(key const& o) const
    {
        if (degree < o.degree || o.degree < degree) return degree < o.degree;
        for (size_t i = 0; i < f.size() && i < o.f.size(); ++i)
        {
            if (f[i].first != o.f[i].first) return f[i].first < o.f[i].first;
            if (f[i].second < o.f[i].second || o.f[i].second < f[i].second) return f[i].second < o.f[i].second;
        }
        return f.size() < o.f.size();
    }
};
using poly = std::map<key, Q>;
using pmv  = std::map<unsigned, poly>;

static void acc(pmv& m, unsigned e, key const& k, Q q)
{
    auto& p = m[e];
    Q s     = p.count(k) ? p[k] + q : q;
    if (s.n == 0)
    {
        p.erase(k);
        if (p.empty()) m.erase(e);
    }
    else p[k] = s;
}
static key join(key const& a, key const& b)
{
    std::map<uint64_t, Q> f;
    for (auto& x : a.f) f[x.first] = x.second;
    for (auto& x : b.f) f[x.first] = f.count(x.first) ? f[x.first] + x.second : x.second;
    key k;
    for (auto& x : f)
        if (x.second.n)
        {
            k.f.push_back(x);
            k.degree = k.degree + x.second;
        }
    return k;
}
static pmv add(pmv a, pmv const& b)
{
    for (auto& t : b)
        for (auto& m : t.second) acc(a, t.first, m.first, m.second);
    return a;
}
static pmv times(pmv const& a, Q q)
{
    pmv o;
    for (auto& t : a)
        for (auto& m : t.second) acc(o, t.first, m.first, m.second * q);
    return o;
}
template <typename F>
static pmv mul(pmv const& a, pmv const& b, F f)
{
    pmv o;
    for (auto& x : a)
        for (auto& y : b)
        {
            auto [e, s] = f(x.first, y.first);
            if (!s) continue;
            for (auto& m : x.second)
                for (auto& n : y.second) acc(o, e, join(m.first, n.first), m.second * n.second * Q{s, 1});
        }
    return o;
}
static int bits(unsigned x)
{
    int n = 0;
    for (; x; x >>= 1) n += x & 1;
    return n;
}
static int order_sign(unsigned a, unsigned b)
{
    int s = 0;
    for (a >>= 1; a; a >>= 1) s += bits(a & b);
    return s & 1 ? -1 : 1;
}
template <typename A>
static std::pair<unsigned, int> gp(unsigned a, unsigned b)
{
    int s = order_sign(a, b);
    for (unsigned i = 0; i != 8; ++i)
        if ((a & b) >> i & 1) s *= i < A::metric_t::r ? 0 : i < A::metric_t::r + A::metric_t::p ? 1 : -1;
    return {a ^ b, s};
}
template <typename A>
static std::pair<unsigned, int> blade(int op, unsigned a, unsigned b)
{
    auto g = gp<A>(a, b);
    if (op == 1 && (a & b)) g.second = 0;
    if (op == 1 && !(a & b)) g.second = order_sign(a, b);
    if (op == 2 && bits(g.first) != bits(b) - bits(a)) g.second = 0;
    if (op == 3 && (!a || !b || bits(g.first) != std::abs(bits(b) - bits(a)))) g.second = 0;
    return g;
}

static std::string show(pmv const& m)
{
    std::ostringstream s;
    for (auto& t : m)
    {
        s << "(";
        for (auto& n : t.second)
        {
            s << " " << n.second.n;
            if (n.second.d != 1) s << "/" << n.second.d;
            for (auto& f : n.first.f)
            {
                s << " x" << f.first;
                if (!(f.second == Q{1, 1})) s << "^" << f.second.n;
                if (f.second.d != 1) s << "/" << f.second.d;
            }
            s << " +";
        }
        s << ")e" << t.first << " ";
    }
    return s.str();
}

// ------------------------------------------------------------------ library values
constexpr width_t IC = 20, MC = 12, TC = 8;
template <typename A>
using M = gal::mv<A, IC, MC, TC>;

template <typename A, width_t I = IC, width_t MM = MC, width_t T = TC>
static gal::mv<A, I, MM, T> build(pmv const& p)
{
    gal::mv<A, I, MM, T> o{};
    width_t i = 0, m = 0, t = 0;
    for (auto& tm : p)
    {
        if (t == T) throw out_of_range{};
        o.terms[t].count      = static_cast<width_t>(tm.second.size());
        o.terms[t].mon_offset = m;
        o.terms[t].element    = tm.first;
        ++t;
        for (auto& mo : tm.second)
        {
            if (m == MM) throw out_of_range{};
            o.mons[m].q      = gal::rat{static_cast<int>(mo.second.n), static_cast<int>(mo.second.d)};
            o.mons[m].degree = gal::rat{static_cast<int>(mo.first.degree.n), static_cast<int>(mo.first.degree.d)};
            o.mons[m].count  = static_cast<width_t>(mo.first.f.size());
            o.mons[m].ind_offset = i;
            ++m;
            for (auto& f : mo.first.f)
            {
                if (i == I) throw out_of_range{};
                o.inds[i].id     = f.first;
                o.inds[i].degree = gal::rat{static_cast<int>(f.second.n), static_cast<int>(f.second.d)};
                ++i;
            }
        }
    }
    o.size.ind  = i;
    o.size.mon  = m;
    o.size.term = t;
    return o;
}

// Reads a multivector back, checking that it is in canonical form; returns an explanation if not.
template <typename V>
static std::string compare(V const& v, pmv const& want)
{
    std::ostringstream s;
    pmv got;
    if (v.size.term > V::term_capacity() || v.size.mon > V::mon_capacity() || v.size.ind > V::ind_capacity())
        return "sizes exceed the capacity";
    width_t mons = 0, inds = 0;
    long long last = -1;
    for (width_t t = 0; t != v.size.term; ++t)
    {
        auto const& tm = v.terms[t];
        if (static_cast<long long>(tm.element) <= last) return "terms are not in ascending order of their element";
        last = static_cast<long long>(tm.element);
        if (tm.count == 0) return "a term has no monomial";
        if (tm.mon_offset + tm.count > v.size.mon) return "a term's monomials lie outside the storage in use";
        mons += tm.count;
        key prev;
        for (width_t m = 0; m != tm.count; ++m)
        {
            auto const& mo = v.mons[tm.mon_offset + m];
            if (mo.ind_offset + mo.count > v.size.ind) return "a monomial's indeterminates lie outside the storage in use";
            inds += mo.count;
            if (mo.q.num == 0) return "a monomial has a zero coefficient";
            if (mo.q.den <= 0 || std::gcd(mo.q.num, mo.q.den) != 1) return "a coefficient is not in lowest terms";
            key k;
            for (width_t i = 0; i != mo.count; ++i)
            {
                auto const& x = v.inds[mo.ind_offset + i];
                if (x.degree.num == 0) return "an indeterminate has exponent zero";
                if (!k.f.empty() && k.f.back().first >= x.id) return "indeterminates are not ascending";
                k.f.push_back({x.id, Q{x.degree.num, x.degree.den}});
                k.degree = k.degree + k.f.back().second;
            }
            if (!(k.degree == Q{mo.degree.num, mo.degree.den})) return "the degree of a monomial is not the sum of its exponents";
            if (m && !(prev < k)) return "monomials are not distinct and ordered";
            prev             = k;
            got[tm.element][k] = Q{mo.q.num, mo.q.den};
        }
    }
    if (mons != v.size.mon) return "the number of monomials is inconsistent with the terms";
    if (inds != v.size.ind) return "the number of indeterminates is inconsistent with the monomials";
    bool same = got.size() == want.size();
    for (auto& t : want)
    {
        if (!same) break;
        auto f = got.find(t.first);
        same   = f != got.end() && f->second.size() == t.second.size();
        for (auto& m : t.second)
            if (same) same = f->second.count(m.first) && f->second[m.first] == m.second;
    }
    if (!same) return "got " + show(got) + " expected " + show(want);
    return "";
}

// ------------------------------------------------------------------ generators
struct params
{
    int terms, mons, inds, ids;
    bool frac, halves, negexp;
};
static params style(tape& t)
{
    params p;
    p.terms  = static_cast<int>(t.range(1, 5));
    p.mons   = static_cast<int>(t.range(1, 4));
    p.inds   = static_cast<int>(t.range(0, 3));
    p.ids    = static_cast<int>(t.range(1, 4));
    p.frac   = t.below(2);
    p.halves = t.below(4) == 3;
    p.negexp = t.below(2);
    return p;
}
static key gen_key(tape& t, params const& p)
{
    key k;
    std::map<uint64_t, Q> f;
    int n = static_cast<int>(t.below(p.inds + 1));
    for (int i = 0; i != n; ++i)
    {
        uint64_t id = t.below(p.ids);
        if (id == 3) id = 1000;
        int e = static_cast<int>(t.range(1, 3));
        if (p.negexp && t.below(3) == 2) e = -e;
        f[id] = p.halves ? mk(e, 2) : Q{e, 1};
    }
    for (auto& x : f)
    {
        k.f.push_back(x);
        k.degree = k.degree + x.second;
    }
    return k;
}
static Q gen_q(tape& t, params const& p)
{
    int64_t n = t.small(6);
    if (n == 0) n = 1;
    static const int den[] = {1, 2, 3, 6};
    return p.frac ? mk(n, den[t.below(4)]) : Q{n, 1};
}
static pmv gen(tape& t, unsigned dim, params const& p)
{
    pmv m;
    int n      = static_cast<int>(t.below(p.terms + 1));
    width_t mc = 0, ic = 0;
    for (int i = 0; i != n; ++i)
    {
        unsigned e = static_cast<unsigned>(t.below(1u << dim));
        int k      = 1 + static_cast<int>(t.below(p.mons));
        for (int j = 0; j != k; ++j)
        {
            key x = gen_key(t, p);
            if (mc + 1 > MC || ic + x.f.size() > IC) return m;
            ++mc;
            ic += static_cast<width_t>(x.f.size());
            acc(m, e, x, gen_q(t, p));
        }
    }
    return m;
}
// the second operand often repeats or cancels parts of the first
static pmv gen_like(tape& t, unsigned dim, params const& p, pmv const& a)
{
    pmv m = gen(t, dim, p);
    switch (t.below(4))
    {
    case 0: return m;
    case 1: // negated copy of some terms
        for (auto& x : a)
            if (t.below(2))
                for (auto& k : x.second)
                    if (t.below(4)) { m[x.first][k.first] = k.second * Q{-1, 1}; }
        break;
    case 2:
        for (auto& x : a)
            for (auto& k : x.second)
                if (t.below(2)) { m[x.first][k.first] = k.second; }
        break;
    default:
        for (auto& x : a)
            for (auto& k : x.second)
                if (t.below(3) == 0) { m[static_cast<unsigned>(t.below(1u << dim))][k.first] = gen_q(t, p); }
    }
    width_t mc = 0, ic = 0;
    pmv o;
    for (auto& x : m)
        for (auto& k : x.second)
            if (mc < MC && ic + k.first.f.size() <= IC && (o.count(x.first) || o.size() < TC))
            {
                o[x.first][k.first] = k.second;
                ++mc;
                ic += static_cast<width_t>(k.first.f.size());
            }
    return o;
}
static bool rich(pmv const& m)
{
    size_t n = 0;
    for (auto& t : m) n += t.second.size();
    return n > 1;
}
template <typename F>
static verdict guarded(F f)
{
    worst = 1;
    try
    {
        return f();
    }
    catch (out_of_range const&)
    {
        return discard();
    }
}
static verdict finish(std::string const& r, std::string const& what, bool nt) { return r.empty() ? ok(what, nt) : bad(r, what); }

using A0 = gal::algebra<gal::metric<3, 0, 1>>;
using A1 = gal::algebra<gal::metric<3, 0, 0>>;
using A2 = gal::algebra<gal::metric<1, 1, 1>>;
using A3 = gal::algebra<gal::metric<1, 2, 0>>;
using AC = gal::algebra<gal::metric<4, 1, 0>>;
template <typename A>
constexpr unsigned dim = A::metric_t::dimension;
#define FOR_ALGEBRA(...)                                                                           \
    switch (t.below(4))                                                                            \
    {                                                                                              \
    case 0: { using A = A0; return guarded([&]() -> verdict __VA_ARGS__); }                               \
    case 1: { using A = A1; return guarded([&]() -> verdict __VA_ARGS__); }                               \
    case 2: { using A = A2; return guarded([&]() -> verdict __VA_ARGS__); }                               \
    default: { using A = A3; return guarded([&]() -> verdict __VA_ARGS__); }                              \
    }

//@section sum
RELATION(sum, 6)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p), b = gen_like(t, dim<A>, p, a);
        return finish(compare(gal::detail::sum(build<A>(a), build<A>(b)), add(a, b)), show(a) + " + " + show(b), rich(a) && rich(b));
    })
}
//@section negate
RELATION(negate)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p);
        return finish(compare(gal::detail::negate(build<A>(a)), times(a, Q{-1, 1})), "- " + show(a), rich(a));
    })
}
RELATION(difference, 3)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p), b = gen_like(t, dim<A>, p, a);
        auto r = gal::detail::sum(build<A>(a), gal::detail::negate(build<A>(b)));
        return finish(compare(r, add(a, times(b, Q{-1, 1}))), show(a) + " - " + show(b), rich(a) && rich(b));
    })
}
//@section scale
RELATION(scale)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p);
        Q q   = gen_q(t, p);
        return finish(compare(gal::detail::scale(gal::rat{static_cast<int>(q.n), static_cast<int>(q.d)}, build<A>(a)), times(a, q)),
                      "scale " + show(a), rich(a));
    })
}
//@section shift
RELATION(shift)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p), one;
        Q q   = gen_q(t, p);
        if (t.below(3) == 2 && a.count(0) && a[0].count(key{})) q = a[0][key{}] * Q{-1, 1};
        acc(one, 0, key{}, q);
        return finish(compare(gal::detail::shift(gal::rat{static_cast<int>(q.n), static_cast<int>(q.d)}, build<A>(a)), add(a, one)),
                      "shift " + show(a), rich(a));
    })
}
//@section reverse
RELATION(reverse)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p), w;
        for (auto& x : a)
            for (auto& k : x.second) acc(w, x.first, k.first, k.second * Q{bits(x.first) * (bits(x.first) - 1) / 2 % 2 ? -1 : 1, 1});
        return finish(compare(gal::detail::reverse(build<A>(a)), w), "~ " + show(a), rich(a));
    })
}
//@section dual
RELATION(dual, 2)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p), w;
        for (auto& x : a)
        {
            unsigned c = ((1u << dim<A>)-1) ^ x.first;
            for (auto& k : x.second) acc(w, c, k.first, k.second * Q{order_sign(x.first, c), 1});
        }
        return finish(compare(gal::detail::poincare_dual(build<A>(a)), w), "! " + show(a), rich(a));
    })
}
//@section product
#define PRODUCT(NAME, STRUCT, OP)                                                                  \
    RELATION(NAME, 3)                                                                              \
    {                                                                                              \
        FOR_ALGEBRA({                                                                              \
            auto p = style(t);                                                                     \
            pmv a = gen(t, dim<A>, p), b = gen_like(t, dim<A>, p, a);                              \
            pmv w  = mul(a, b, [](unsigned x, unsigned y) { return blade<A>(OP, x, y); });         \
            auto r = gal::detail::product(typename A::STRUCT{}, build<A>(a), build<A>(b));         \
            return finish(compare(r, w), show(a) + " " #NAME " " + show(b), rich(a) && rich(b));   \
        })                                                                                         \
    }
PRODUCT(product_geometric, geometric, 0)
PRODUCT(product_exterior, exterior, 1)
PRODUCT(product_contract, contract, 2)
PRODUCT(product_inner, symmetric_inner, 3)
//@section divide
RELATION(divide, 2)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a = gen(t, dim<A>, p), b;
        key k = gen_key(t, p);
        Q c = gen_q(t, p), q = gen_q(t, p);
        acc(b, 0, k, c);
        key ik;
        ik.degree = k.degree * Q{-1, 1};
        for (auto& f : k.f) ik.f.push_back({f.first, f.second * Q{-1, 1}});
        pmv r;
        acc(r, 0, ik, inv(c) * q);
        pmv w  = mul(a, r, [](unsigned x, unsigned) { return std::make_pair(x, 1); });
        auto g = gal::detail::divide(build<A>(a), build<A, 4, 1, 1>(b), gal::rat{static_cast<int>(q.n), static_cast<int>(q.d)});
        return finish(compare(g, w), show(a) + " / " + show(b), rich(a) && !k.f.empty());
    })
}
//@section select
RELATION(component)
{
    FOR_ALGEBRA({
        auto p     = style(t);
        pmv a      = gen(t, dim<A>, p), w;
        unsigned e = static_cast<unsigned>(t.below(1u << dim<A>));
        if (t.below(4) && !a.empty()) e = std::next(a.begin(), t.below(a.size()))->first;
        if (a.count(e)) w[0] = a[e];
        return finish(compare(gal::detail::component(build<A>(a), e), w), show(a) + "[" + std::to_string(e) + "]", rich(a));
    })
}
RELATION(grade)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a  = gen(t, dim<A>, p), w;
        int g  = static_cast<int>(t.below(dim<A> + 1));
        for (auto& x : a)
            if (bits(x.first) == g) w.insert(x);
        return finish(compare(build<A>(a).select_grade(g), w), "grade " + std::to_string(g) + " of " + show(a), rich(a));
    })
}
//@section extract
RELATION(extract)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a  = gen(t, dim<A>, p), w;
        std::array<gal::elem_t, 3> es{};
        unsigned lim = 1u << dim<A>;
        unsigned x = static_cast<unsigned>(t.below(lim - 2)), y = x + 1 + static_cast<unsigned>(t.below(lim - 2 - x)),
                 z = y + 1 + static_cast<unsigned>(t.below(lim - 1 - y));
        es = {static_cast<gal::elem_t>(x), static_cast<gal::elem_t>(y), static_cast<gal::elem_t>(z)};
        for (auto e : es)
            if (a.count(e)) w[e] = a[e];
        return finish(compare(gal::detail::extract(build<A>(a), es), w), "extract from " + show(a), rich(a) && !w.empty());
    })
}
//@section resize
RELATION(resize)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a  = gen(t, dim<A>, p);
        auto v = build<A>(a);
        v.o    = static_cast<gal::mv_op>(t.below(5));
        auto r = v.template resize<IC + 3, MC + 5, TC + 7>();
        auto s = r.template resize<IC, MC, TC>();
        if (r.o != v.o || s.o != v.o) return bad("the pending scalar operation is lost", show(a));
        std::string m = compare(r, a);
        if (m.empty()) m = compare(s, a);
        return finish(m, "resize " + show(a), rich(a));
    })
}
//@section extent
RELATION(extent)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a  = gen(t, dim<A>, p);
        size_t mm = 0, ii = 0;
        for (auto& x : a)
        {
            mm = std::max(mm, x.second.size());
            for (auto& k : x.second) ii = std::max(ii, k.first.f.size());
        }
        auto e = build<A>(a).extent();
        if (e.ind != ii || e.mon != mm || e.term != a.size()) return bad("extent is wrong", show(a));
        return ok("extent " + show(a), rich(a));
    })
}
//@section regularize
RELATION(regularize)
{
    FOR_ALGEBRA({
        auto p = style(t);
        pmv a  = gen(t, dim<A>, p);
        auto d = build<A>(a).template regularize<4, MC, TC>();
        size_t i = 0;
        for (auto& x : a)
        {
            if (d.data[i].first.element != x.first || d.data[i].first.count != x.second.size()) return bad("term", show(a));
            size_t j = 0;
            for (auto& k : x.second)
            {
                auto const& dm = d.data[i].second[j];
                if (dm.first.q.num != k.second.n || dm.first.q.den != k.second.d || dm.first.count != k.first.f.size())
                    return bad("monomial", show(a));
                for (size_t l = 0; l != k.first.f.size(); ++l)
                    if (dm.second[l].id != k.first.f[l].first || dm.second[l].degree.num != k.first.f[l].second.n
                        || dm.second[l].degree.den != k.first.f[l].second.d)
                        return bad("indeterminate", show(a));
                ++j;
            }
            ++i;
        }
        return ok("regularize " + show(a), rich(a));
    })
}
//@section create_ref
template <typename A, width_t T>
static verdict ref_of(tape& t)
{
    auto p = style(t);
    pmv a;
    while (a.size() < T) acc(a, static_cast<unsigned>(a.size() + t.below(2)) + (a.empty() ? 0 : a.rbegin()->first), gen_key(t, p), gen_q(t, p));
    if (a.rbegin()->first >= (1u << dim<A>)) throw out_of_range{};
    unsigned id = static_cast<unsigned>(t.below(500));
    auto r      = build<A, 3 * T, T, T>(a).create_ref(id);
    pmv w;
    for (auto& x : a)
    {
        key k;
        k.degree = Q{1, 1};
        k.f      = {{id++, Q{1, 1}}};
        acc(w, x.first, k, Q{1, 1});
    }
    return finish(compare(r, w), "reference to " + show(a), T > 1);
}
RELATION(create_ref)
{
    FOR_ALGEBRA({
        switch (t.below(3))
        {
        case 0: return ref_of<A, 1>(t);
        case 1: return ref_of<A, 2>(t);
        default: return ref_of<A, 3>(t);
        }
    })
}
//@section null_basis
static pmv to_natural(pmv const& a, unsigned d)
{
    unsigned no = 1u << (d - 2), ni = 1u << (d - 1), both = no | ni;
    pmv o;
    for (auto& x : a)
        for (auto& k : x.second)
        {
            unsigned b = x.first & both;
            if (b == no)
            {
                acc(o, x.first, k.first, k.second * mk(1, 2));
                acc(o, x.first ^ both, k.first, k.second * mk(1, 2));
            }
            else if (b == ni)
            {
                acc(o, x.first, k.first, k.second);
                acc(o, x.first ^ both, k.first, k.second * Q{-1, 1});
            }
            else acc(o, x.first, k.first, k.second);
        }
    return o;
}
static pmv to_null(pmv const& a, unsigned d)
{
    unsigned ep = 1u << (d - 2), en = 1u << (d - 1), both = ep | en;
    pmv o;
    for (auto& x : a)
        for (auto& k : x.second)
        {
            unsigned b = x.first & both;
            if (b == ep)
            {
                acc(o, x.first, k.first, k.second);
                acc(o, x.first ^ both, k.first, k.second * mk(-1, 2));
            }
            else if (b == en)
            {
                acc(o, x.first ^ both, k.first, k.second);
                acc(o, x.first, k.first, k.second * mk(1, 2));
            }
            else acc(o, x.first, k.first, k.second);
        }
    return o;
}
// pairs of terms that merge under the change of basis
static pmv gen_null(tape& t, unsigned d, params const& p)
{
    pmv a = gen(t, d, p), b;
    unsigned both = 3u << (d - 2);
    if (t.below(2))
        for (auto& x : a)
            for (auto& k : x.second)
                if ((x.first & both) && (x.first & both) != both && t.below(2))
                    acc(b, x.first ^ both, k.first, t.below(2) ? k.second * mk(1, 2) : k.second * Q{-2, 1});
    pmv c = add(a, b), o;
    width_t mc = 0, ic = 0;
    for (auto& x : c)
        for (auto& k : x.second)
            if (mc < MC && ic + k.first.f.size() <= IC && (o.count(x.first) || o.size() < TC))
            {
                o[x.first][k.first] = k.second;
                ++mc;
                ic += static_cast<width_t>(k.first.f.size());
            }
    return o;
}
template <typename A>
static verdict basis_change(tape& t)
{
    auto p = style(t);
    pmv a  = gen_null(t, dim<A>, p);
    auto n = gal::detail::to_natural_basis(build<A>(a));
    pmv wn = to_natural(a, dim<A>);
    std::string r = compare(n, wn);
    if (!r.empty()) return bad("to_natural_basis: " + r, show(a));
    auto u  = gal::detail::to_null_basis(build<A>(a));
    r       = compare(u, to_null(a, dim<A>));
    if (!r.empty()) return bad("to_null_basis: " + r, show(a));
    r = compare(gal::detail::to_null_basis(n), a);
    if (!r.empty()) return bad("round trip: " + r, show(a));
    r = compare(gal::detail::to_natural_basis(u), a);
    if (!r.empty()) return bad("inverse round trip: " + r, show(a));
    return ok("basis change of " + show(a), rich(a));
}
RELATION(basis_change, 3)
{
    if (t.below(2)) return guarded([&] { return basis_change<AC>(t); });
    return guarded([&] { return basis_change<gal::algebra<gal::metric<3, 1, 0>>>(t); });
}
//@section history
// A sequence of operations on two registers; every intermediate result is compared.
template <typename A>
static verdict history(tape& t)
{
    auto p = style(t);
    p.terms = std::min(p.terms, 3);
    p.mons  = std::min(p.mons, 2);
    pmv a = gen(t, dim<A>, p), b = gen_like(t, dim<A>, p, a);
    auto x = build<A>(a);
    std::string log = show(a);
    int n = 2 + static_cast<int>(t.below(5));
    for (int i = 0; i != n; ++i)
    {
        auto y = build<A>(b);
        int op = static_cast<int>(t.below(9));
        std::string r;
        auto settle = [&](auto const& v, pmv const& w) {
            r = compare(v, w);
            if (!r.empty()) return;
            if (v.size.ind > IC || v.size.mon > MC || v.size.term > TC) throw out_of_range{};
            x = v.template resize<IC, MC, TC>();
            a = w;
        };
        static const char* names[] = {"+", "-", "*", "^", ">>", "|", "~", "!", "swap"};
        log += std::string(" ") + names[op] + " " + (op < 6 ? show(b) : "");
        switch (op)
        {
        case 0: settle(gal::detail::sum(x, y), add(a, b)); break;
        case 1: settle(gal::detail::sum(x, gal::detail::negate(y)), add(a, times(b, Q{-1, 1}))); break;
        case 2: settle(gal::detail::product(typename A::geometric{}, x, y), mul(a, b, [](unsigned u, unsigned v) { return blade<A>(0, u, v); })); break;
        case 3: settle(gal::detail::product(typename A::exterior{}, x, y), mul(a, b, [](unsigned u, unsigned v) { return blade<A>(1, u, v); })); break;
        case 4: settle(gal::detail::product(typename A::contract{}, x, y), mul(a, b, [](unsigned u, unsigned v) { return blade<A>(2, u, v); })); break;
        case 5: settle(gal::detail::product(typename A::symmetric_inner{}, x, y), mul(a, b, [](unsigned u, unsigned v) { return blade<A>(3, u, v); })); break;
        case 6:
        {
            pmv w;
            for (auto& m : a)
                for (auto& k : m.second) acc(w, m.first, k.first, k.second * Q{bits(m.first) * (bits(m.first) - 1) / 2 % 2 ? -1 : 1, 1});
            settle(gal::detail::reverse(x), w);
            break;
        }
        case 7:
        {
            pmv w;
            for (auto& m : a)
            {
                unsigned c = ((1u << dim<A>)-1) ^ m.first;
                for (auto& k : m.second) acc(w, c, k.first, k.second * Q{order_sign(m.first, c), 1});
            }
            settle(gal::detail::poincare_dual(x), w);
            break;
        }
        default: b = t.below(2) ? a : gen_like(t, dim<A>, p, a); break;
        }
        if (!r.empty()) return bad(r, log);
    }
    return ok(log, rich(a) && rich(b));
}
RELATION(history, 4)
{
    FOR_ALGEBRA({ return history<A>(t); })
}
