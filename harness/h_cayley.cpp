#include "vph.hpp"
#include "gal/geometric_algebra.hpp"
#include <utility>
using namespace vph;

// ---- reference: canonical reordering of generator lists, nothing shared with the library
struct blade
{
    unsigned e;
    int s;
};
static int bits(unsigned x)
{
    int n = 0;
    for (; x; x >>= 1) n += x & 1;
    return n;
}
// squares: degenerate first, then positive, then negative
static int square(int p, int, int r, int i) { return i < r ? 0 : i < r + p ? 1 : -1; }
static blade gp(int p, int v, int r, unsigned a, unsigned b)
{
    std::vector<int> w;
    for (int i = 0; i != 8; ++i) if (a >> i & 1) w.push_back(i);
    for (int i = 0; i != 8; ++i) if (b >> i & 1) w.push_back(i);
    int s = 1;
    bool again = true;
    while (again) // bubble sort, one sign per transposition
    {
        again = false;
        for (size_t i = 0; i + 1 < w.size(); ++i)
            if (w[i] > w[i + 1])
            {
                std::swap(w[i], w[i + 1]);
                s     = -s;
                again = true;
            }
    }
    unsigned e = 0;
    for (size_t i = 0; i < w.size();)
    {
        if (i + 1 < w.size() && w[i] == w[i + 1])
        {
            s *= square(p, v, r, w[i]);
            i += 2;
        }
        else
        {
            e |= 1u << w[i];
            ++i;
        }
    }
    return {e, s};
}
static blade ep(int p, int v, int r, unsigned a, unsigned b)
{
    if (a & b) return {0, 0};
    return gp(p, v, r, a, b);
}
static blade lc(int p, int v, int r, unsigned a, unsigned b)
{
    blade g = gp(p, v, r, a, b);
    if (bits(g.e) != bits(b) - bits(a)) g.s = 0;
    return g;
}
static blade ip(int p, int v, int r, unsigned a, unsigned b)
{
    if (!a || !b) return {0, 0};
    blade g = gp(p, v, r, a, b);
    if (bits(g.e) != std::abs(bits(b) - bits(a))) g.s = 0;
    return g;
}
static std::string sig(int p, int v, int r)
{
    std::ostringstream s;
    s << "metric<" << p << "," << v << "," << r << ">";
    return s.str();
}

template <size_t P, size_t V, size_t R>
struct probe
{
    using A = gal::algebra<gal::metric<P, V, R>>;
    constexpr static unsigned N = 1u << (P + V + R);

    // One case: a signature and a left blade; all right blades are enumerated
    template <typename F, typename G>
    static verdict pairs(tape& t, const char* name, F f, G ref)
    {
        unsigned a = static_cast<unsigned>(t.sweep(N));
        for (unsigned b = 0; b != N; ++b)
        {
            auto got = f(a, b);
            blade w  = ref(P, V, R, a, b);
            if (got.second != w.s || (w.s && static_cast<unsigned>(got.first) != w.e))
            {
                std::ostringstream s;
                s << name << " of blades " << a << " and " << b << " gives " << got.second << " * blade "
                  << static_cast<unsigned>(got.first) << ", expected " << w.s << " * blade " << w.e;
                return bad(s.str(), sig(P, V, R));
            }
        }
        std::ostringstream s;
        s << name << " " << sig(P, V, R) << " blade " << a << " with all " << N << " blades";
        verdict v = ok(s.str(), a != 0);
        v.evals   = N;
        return v;
    }
};

// index -> signature of dimension D
template <size_t D, typename F, size_t P, size_t V>
bool pick2(size_t& i, F& f)
{
    if (i-- == 0)
    {
        f(probe<P, V, D - P - V>{});
        return true;
    }
    if constexpr (P + V < D) return pick2<D, F, P, V + 1>(i, f);
    else if constexpr (P < D) return pick2<D, F, P + 1, 0>(i, f);
    else return false;
}
constexpr size_t nsig(size_t d) { return (d + 1) * (d + 2) / 2; }
template <size_t D, typename F>
verdict with(tape& t, F f)
{
    verdict out;
    auto g = [&](auto pr) { out = f(pr); };
    size_t i = t.sweep(nsig(D));
    pick2<D, decltype(g), 0, 0>(i, g);
    return out;
}
#define PRODUCT(NAME, D, STRUCT, REF)                                                              \
    RELATION(NAME##_dim##D, nsig(D) * (1 << D))                                                    \
    {                                                                                              \
        return with<D>(t, [&](auto pr) {                                                           \
            using A = typename decltype(pr)::A;                                                    \
            return pr.pairs(                                                                       \
                t, #NAME, [](unsigned a, unsigned b) { return A::STRUCT::product(a, b); }, REF);   \
        });                                                                                        \
    }
#define ALL(NAME, STRUCT, REF)                                                                     \
    PRODUCT(NAME, 1, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 2, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 3, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 4, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 5, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 6, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 7, STRUCT, REF)                                                                  \
    PRODUCT(NAME, 8, STRUCT, REF)

//@section geometric
ALL(geometric, geometric, gp)
//@section exterior
ALL(exterior, exterior, ep)
//@section contract
ALL(contract, contract, lc)
//@section inner
ALL(inner, symmetric_inner, ip)
//@section metric
#define DOT(D)                                                                                     \
    RELATION(dot_dim##D, nsig(D))                                                                       \
    {                                                                                              \
        return with<D>(t, [&](auto pr) {                                                           \
            using A = typename decltype(pr)::A;                                                    \
            using M = typename A::metric_t;                                                        \
            for (size_t i = 0; i != D; ++i)                                                        \
                for (size_t j = 0; j != D; ++j)                                                    \
                {                                                                                  \
                    int w = i == j ? square(M::p, M::v, M::r, i) : 0;                              \
                    if (M::dot(i, j) != w)                                                         \
                        return bad("dot(" + std::to_string(i) + "," + std::to_string(j) + ") is "  \
                                       + std::to_string(M::dot(i, j)),                             \
                                   sig(M::p, M::v, M::r));                                         \
                }                                                                                  \
            verdict v = ok("dot " + sig(M::p, M::v, M::r));                                        \
            v.evals   = D * D;                                                                     \
            return v;                                                                              \
        });                                                                                        \
    }
DOT(1) DOT(2) DOT(3) DOT(4) DOT(5) DOT(6) DOT(7) DOT(8)
//@section intercept
#define INTERCEPT(D)                                                                               \
    RELATION(intercept_dim##D, nsig(D))                                                                 \
    {                                                                                              \
        return with<D>(t, [&](auto pr) {                                                           \
            using M = typename decltype(pr)::A::metric_t;                                          \
            for (size_t i = 0; i != D; ++i)                                                        \
                for (size_t b = 0; b != (1u << D); ++b)                                            \
                {                                                                                  \
                    auto [x, d] = M::intercept(i, b);                                              \
                    bool in     = b >> i & 1;                                                      \
                    if (in ? (x != static_cast<int>(i) || d != square(M::p, M::v, M::r, i)) : x != -1) \
                        return bad("intercept(" + std::to_string(i) + "," + std::to_string(b)      \
                                       + ") is " + std::to_string(x) + "," + std::to_string(d),    \
                                   sig(M::p, M::v, M::r));                                         \
                }                                                                                  \
            verdict v = ok("intercept " + sig(M::p, M::v, M::r));                                  \
            v.evals   = D * (1u << D);                                                             \
            return v;                                                                              \
        });                                                                                        \
    }
INTERCEPT(1) INTERCEPT(2) INTERCEPT(3) INTERCEPT(4) INTERCEPT(5) INTERCEPT(6) INTERCEPT(7) INTERCEPT(8)
//@section complement
RELATION(complement, 8 * 256)
{
    unsigned d = 1 + static_cast<unsigned>(t.sweep(8));
    unsigned a = static_cast<unsigned>(t.sweep(256)) & ((1u << d) - 1);
    auto got   = gal::detail::poincare_complement(a, d);
    unsigned c = ((1u << d) - 1) ^ a;
    // right complement: a ^ c = pseudoscalar
    blade w = gp(8, 0, 0, a, c);
    std::ostringstream s;
    s << "complement of blade " << a << " in dimension " << d;
    if (got.first != c || got.second != w.s)
        return bad(s.str() + " gives " + std::to_string(got.second) + " * blade " + std::to_string(got.first), s.str());
    return ok(s.str(), a != 0);
}
//@section dual
template <size_t D>
static verdict dual_of(tape& t)
{
    using A    = gal::algebra<gal::metric<D, 0, 0>>;
    unsigned a = static_cast<unsigned>(t.sweep(256)) & ((1u << D) - 1);
    gal::mv<A, 0, 1, 1> m{gal::mv_size{0, 1, 1}, {}, {gal::mon{gal::rat{1}, gal::rat{0}, 0, 0}}, {gal::term{1, 0, a}}};
    auto got   = gal::detail::poincare_dual(m);
    unsigned c = ((1u << D) - 1) ^ a;
    blade w    = gp(8, 0, 0, a, c);
    std::ostringstream s;
    s << "dual of blade " << a << " in dimension " << D;
    if (got.size.term != 1 || got.terms[0].element != c || got.mons[0].q.num != w.s || got.mons[0].q.den != 1)
        return bad(s.str() + " is wrong", s.str());
    return ok(s.str(), a != 0);
}
RELATION(dual, 8 * 256)
{
    switch (t.sweep(8))
    {
    case 0: return dual_of<1>(t);
    case 1: return dual_of<2>(t);
    case 2: return dual_of<3>(t);
    case 3: return dual_of<4>(t);
    case 4: return dual_of<5>(t);
    case 5: return dual_of<6>(t);
    case 6: return dual_of<7>(t);
    default: return dual_of<8>(t);
    }
}
//@section reverse
RELATION(reverse, 256)
{
    using A    = gal::algebra<gal::metric<8, 0, 0>>;
    unsigned a = static_cast<unsigned>(t.sweep(256));
    gal::mv<A, 0, 1, 1> m{gal::mv_size{0, 1, 1}, {}, {gal::mon{gal::rat{1}, gal::rat{0}, 0, 0}}, {gal::term{1, 0, a}}};
    auto got = gal::detail::reverse(m);
    // reversing the list of generators and sorting it again
    int k = bits(a), s = 1;
    for (int i = 1; i < k; ++i)
        for (int j = 0; j < i; ++j) s = -s;
    std::ostringstream o;
    o << "reverse of blade " << a;
    if (got.size.term != 1 || got.terms[0].element != a || got.mons[0].q.num != s) return bad(o.str() + " is wrong", o.str());
    return ok(o.str(), k > 1);
}
//@section generic
template <typename A, typename M, typename Want>
static std::string generic(M const& m, unsigned id, Want want, const char* what)
{
    constexpr unsigned D = A::metric_t::dimension;
    std::vector<unsigned> es;
    for (unsigned b = 0; b != (1u << D); ++b)
        if (want(b)) es.push_back(b);
    std::ostringstream s;
    s << what << ": ";
    if (m.size.term != es.size() || m.size.mon != es.size() || m.size.ind != es.size())
    {
        s << m.size.term << " terms, expected " << es.size();
        return s.str();
    }
    for (size_t i = 0; i != es.size(); ++i)
    {
        auto const& tm = m.terms[i];
        auto const& mo = m.mons[tm.mon_offset];
        auto const& in = m.inds[mo.ind_offset];
        if (tm.element != es[i] || tm.count != 1 || mo.count != 1 || mo.q.num != 1 || mo.q.den != 1 || mo.degree.num != 1
            || mo.degree.den != 1 || in.id != id + i || in.degree.num != 1 || in.degree.den != 1)
        {
            s << "term " << i << " is blade " << tm.element << " of indeterminate " << in.id << ", expected blade " << es[i]
              << " of " << id + i;
            return s.str();
        }
    }
    return "";
}
template <typename M>
static bool constant_blade(M const& m, unsigned top)
{
    return m.size.term == 1 && m.size.mon == 1 && m.size.ind == 0 && m.terms[0].element == top && m.terms[0].count == 1
           && m.terms[0].mon_offset == 0 && m.mons[0].q.den == 1 && m.mons[0].degree.num == 0 && m.mons[0].count == 0;
}
#define GENERIC(D)                                                                                 \
    RELATION(generic_dim##D, nsig(D))                                                                   \
    {                                                                                              \
        return with<D>(t, [&](auto pr) {                                                           \
            unsigned id   = static_cast<unsigned>(t.below(1000));                                  \
            using A       = typename decltype(pr)::A;                                              \
            using M       = typename A::metric_t;                                                  \
            std::string g = sig(M::p, M::v, M::r);                                                 \
            std::string r = generic<A>(A::even_mv(id), id, [](unsigned b) { return bits(b) % 2 == 0; }, "even_mv"); \
            if (!r.empty()) return bad(r, g);                                                      \
            if constexpr (D > 1)                                                                   \
            {                                                                                      \
                r = generic<A>(A::bivector_mv(id), id, [](unsigned b) { return bits(b) == 2; }, "bivector_mv"); \
                if (!r.empty()) return bad(r, g);                                                  \
            }                                                                                      \
            auto ps = A::pseudoscalar;                                                             \
            auto pi = A::pseudoscalar_inv;                                                         \
            unsigned top = (1u << D) - 1;                                                          \
            if (!constant_blade(ps, top) || ps.mons[0].q.num != 1)                                 \
                return bad("pseudoscalar", g);                                                     \
            if (!constant_blade(pi, top) || (pi.mons[0].q.num != 1 && pi.mons[0].q.num != -1))     \
                return bad("pseudoscalar_inv", g);                                                 \
            if (M::r == 0 && gp(M::p, M::v, M::r, top, top).s * pi.mons[0].q.num != 1)             \
                return bad("pseudoscalar * pseudoscalar_inv is not one", g);                       \
            verdict v = ok("generic elements of " + g);                                            \
            v.evals   = 4;                                                                         \
            return v;                                                                              \
        });                                                                                        \
    }
GENERIC(1) GENERIC(2) GENERIC(3) GENERIC(4) GENERIC(5) GENERIC(6) GENERIC(7) GENERIC(8)
