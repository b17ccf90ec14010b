// C15: sorting and the compile-time stack, at run time
#include "vph.hpp"
#include "gal/algorithm.hpp"
#include "gal/stack.hpp"
using namespace vph;
struct kv
{
    int k = 0, i = 0;
};
static bool operator<(kv a, kv b) { return a.k < b.k; }
static std::vector<kv> gen(tape& t, std::string& shown)
{
    size_t n = 0;
    switch (t.below(5))
    {
    case 0: n = t.below(4); break;
    case 1: n = t.below(9); break;
    case 2: n = t.below(40); break;
    default: n = t.below(16);
    }
    if (t.below(60) == 59) n = 300;
    int64_t m = static_cast<int64_t>(1) << t.below(10);
    std::vector<kv> v(n);
    for (size_t i = 0; i != n; ++i)
    {
        v[i].k = static_cast<int>(t.small(m));
        v[i].i = static_cast<int>(i);
    }
    uint64_t shape = t.below(8);
    if (shape == 6) std::stable_sort(v.begin(), v.end(), [](kv a, kv b) { return a.k < b.k; });
    if (shape == 7) std::stable_sort(v.begin(), v.end(), [](kv a, kv b) { return b.k < a.k; });
    for (size_t i = 0; i != n && i < 24; ++i) shown += std::to_string(v[i].k) + " ";
    for (size_t i = 0; i != n; ++i) v[i].i = static_cast<int>(i);
    return v;
}
template <typename L>
static verdict judge(std::vector<kv> const& in, std::vector<kv> const& out, L less, std::string const& shown)
{
    if (in.size() != out.size()) return bad("length changed", shown);
    std::vector<int> seen(in.size(), 0);
    for (auto& x : out)
    {
        if (x.i < 0 || static_cast<size_t>(x.i) >= in.size() || seen[x.i]++ || in[x.i].k != x.k) return bad("not a permutation of the input", shown);
    }
    for (size_t i = 1; i < out.size(); ++i)
        if (less(out[i], out[i - 1])) return bad("not ordered at " + std::to_string(i), shown);
    return ok(shown, in.size() > 1);
}
//@section sort
RELATION(sort_default, 3)
{
    std::string s;
    auto v = gen(t, s);
    // guards on both sides: the sort must not touch what lies outside the range
    std::vector<kv> w;
    w.push_back({-777777, -1});
    w.insert(w.end(), v.begin(), v.end());
    w.push_back({-777777, -2});
    gal::detail::sort(w.data() + 1, w.data() + 1 + v.size());
    if (w.front().k != -777777 || w.front().i != -1 || w.back().k != -777777 || w.back().i != -2) return bad("wrote outside the range", s);
    return judge(v, {w.begin() + 1, w.end() - 1}, [](kv a, kv b) { return a.k < b.k; }, s);
}
RELATION(sort_comparator, 4)
{
    std::string s;
    auto v = gen(t, s);
    std::vector<kv> w;
    w.push_back({777777, -1});
    w.insert(w.end(), v.begin(), v.end());
    w.push_back({777777, -2});
    auto b = w.data() + 1, e = w.data() + w.size() - 1;
    verdict r;
    int kind = static_cast<int>(t.below(5));
    int calls = 0;
    auto up   = [&](kv const& a, kv const& b) { ++calls; return a.k < b.k; };
    auto down = [&](kv const& a, kv const& b) { ++calls; return b.k < a.k; };
    auto mod  = [&](kv const& a, kv const& b) { ++calls; return (a.k & 3) < (b.k & 3); };
    auto lex  = [&](kv const& a, kv const& b) { ++calls; return a.k != b.k ? a.k < b.k : a.i < b.i; };
    auto none = [&](kv const&, kv const&) { ++calls; return false; };
    auto fin  = [&] { return std::vector<kv>(w.begin() + 1, w.end() - 1); };
    switch (kind)
    {
    case 0: gal::detail::sort(b, e, up); r = judge(v, fin(), up, s); break;
    case 1: gal::detail::sort(b, e, down); r = judge(v, fin(), down, s); break;
    case 2: gal::detail::sort(b, e, mod); r = judge(v, fin(), mod, s); break;
    case 3: gal::detail::sort(b, e, lex); r = judge(v, fin(), lex, s); break;
    default: gal::detail::sort(b, e, none); r = judge(v, fin(), none, s);
    }
    if (w.front().i != -1 || w.back().i != -2) return bad("wrote outside the range", s);
    return r;
}
RELATION(sort_small_exhaustive, 2)
{
    // every arrangement with ties of up to 5 elements
    uint64_t n = 1 + t.sweep(5);
    std::vector<kv> v(n);
    std::string s;
    for (uint64_t i = 0; i != n; ++i)
    {
        v[i].k = static_cast<int>(t.sweep(n));
        v[i].i = static_cast<int>(i);
        s += std::to_string(v[i].k) + " ";
    }
    auto w = v;
    gal::detail::sort(w.data(), w.data() + w.size());
    auto r = judge(v, w, [](kv a, kv b) { return a.k < b.k; }, s);
    if (r.state == 1) return r;
    w = v;
    gal::detail::sort(w.data(), w.data() + w.size(), [](kv a, kv b) { return b.k < a.k; });
    return judge(v, w, [](kv a, kv b) { return b.k < a.k; }, s);
}
RELATION(sort_doubles)
{
    size_t n = t.below(30);
    std::vector<double> v(n);
    for (auto& x : v) x = t.real(10);
    auto w = v, x = v;
    gal::detail::sort(w.data(), w.data() + w.size());
    std::sort(x.begin(), x.end());
    for (size_t i = 0; i != n; ++i)
        if (w[i] != x[i]) return bad("differs from the sorted sequence at " + std::to_string(i));
    return ok(std::to_string(n) + " doubles", n > 1);
}
// long ranges: the keys come from a generator seeded by the tape
RELATION(sort_long)
{
    uint64_t shape = t.below(8);
    size_t n       = 30 + t.below(shape < 4 ? 3000 : 700);
    uint64_t m     = static_cast<uint64_t>(1) << t.below(20);
    uint64_t x     = 0x9E3779B97F4A7C15ull * (1 + t.below(1u << 20));
    std::vector<kv> v(n);
    for (size_t i = 0; i != n; ++i)
    {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v[i].k = static_cast<int>((x >> 20) % (m + (shape < 4 ? 1 : 1000)));
    }
    auto up   = [](kv const& a, kv const& b) { return a.k < b.k; };
    auto down = [](kv const& a, kv const& b) { return b.k < a.k; };
    if (shape == 6) std::stable_sort(v.begin(), v.end(), up);
    if (shape == 7) std::stable_sort(v.begin(), v.end(), down);
    for (size_t i = 0; i != n; ++i) v[i].i = static_cast<int>(i);
    std::string s = std::to_string(n) + " keys, shape " + std::to_string(shape);
    auto w        = v;
    switch (t.below(3))
    {
    case 0: gal::detail::sort(w.data(), w.data() + w.size()); return judge(v, w, up, s);
    case 1: gal::detail::sort(w.data(), w.data() + w.size(), up); return judge(v, w, up, s);
    default: gal::detail::sort(w.data(), w.data() + w.size(), down); return judge(v, w, down, s);
    }
}
//@section stack
RELATION(stack_history, 4)
{
    gal::detail::stack<int, 40> st;
    std::vector<int> m;
    std::string s;
    int n = static_cast<int>(t.range(1, 60));
    if (!st.empty() || st.count != 0) return bad("a new stack is not empty");
    for (int i = 0; i != n; ++i)
    {
        uint64_t op = t.below(10);
        if (m.empty() || (op < 4 && m.size() < 40))
        {
            int v = static_cast<int>(t.small(1000));
            st.push(v);
            m.push_back(v);
            s += "push " + std::to_string(v) + "; ";
        }
        else if (op == 4 || op == 0)
        {
            int v = st.pop();
            s += "pop; ";
            if (v != m.back()) return bad("pop returned " + std::to_string(v) + ", expected " + std::to_string(m.back()), s);
            m.pop_back();
        }
        else if (op == 5)
        {
            size_t k = 1 + t.below(m.size());
            int v = st.pop(k);
            s += "pop " + std::to_string(k) + "; ";
            int want = m[m.size() - k];
            if (v != want) return bad("pop(n) returned " + std::to_string(v) + ", expected the last popped " + std::to_string(want), s);
            m.resize(m.size() - k);
        }
        else if (op == 6)
        {
            size_t k = 1 + t.below(m.size());
            auto const& c = st;
            s += "peek " + std::to_string(k) + "; ";
            if (c.peek(k) != m[m.size() - k]) return bad("peek(i) is not the i-th from the top", s);
        }
        else if (op == 7)
        {
            s += "peek()=; ";
            auto const& c = st;
            if (c.peek() != m.back() || st.peek() != m.back()) return bad("peek is not the top", s);
            st.peek() = i;
            m.back()  = i;
        }
        else if (op == 8 && t.below(4) == 3)
        {
            s += "clear; ";
            st.clear();
            m.clear();
        }
        else
        {
            size_t k = t.below(m.size());
            s += "[" + std::to_string(k) + "]; ";
            auto const& c = st;
            if (c[k] != m[k] || st[k] != m[k]) return bad("operator[] counts from the bottom", s);
        }
        if (st.count != m.size() || st.empty() != m.empty()) return bad("count is " + std::to_string(st.count) + ", expected " + std::to_string(m.size()), s);
        for (size_t k = 0; k != m.size(); ++k)
            if (st[k] != m[k]) return bad("contents differ", s);
    }
    return ok(s, n > 1);
}
//@section nodes
#include "gal/geometric_algebra.hpp"
#include "gal/expr.hpp"
RELATION(node_history, 2)
{
    using A = gal::algebra<gal::metric<3, 0, 0>>;
    using gal::detail::node;
    gal::detail::rpne<A, 80> e;
    std::vector<node> m;
    std::string s;
    int n = static_cast<int>(t.range(1, 40));
    auto fresh = [&] {
        return node{static_cast<uint32_t>(t.below(12)), static_cast<gal::detail::crc_t>(t.below(1000)), static_cast<gal::width_t>(t.below(8)),
                    gal::rat{static_cast<gal::num_t>(1 + t.below(5))}};
    };
    for (int i = 0; i != n; ++i)
    {
        uint64_t op = t.below(8);
        if (m.empty() || (op < 3 && m.size() < 70))
        {
            node x = fresh();
            e.append(x);
            m.push_back(x);
            s += "append; ";
        }
        else if (op == 3 && m.size() < 60)
        {
            gal::detail::rpne<A, 8> f;
            size_t k = t.below(9);
            for (size_t j = 0; j != k; ++j)
            {
                node x = fresh();
                f.append(x);
                m.push_back(x);
            }
            e.append(f);
            s += "append " + std::to_string(k) + "; ";
        }
        else if (op == 4)
        {
            size_t k = t.below(m.size() + 1);
            e.pop(static_cast<gal::width_t>(k));
            m.resize(m.size() - k);
            s += "pop " + std::to_string(k) + "; ";
        }
        else if (op == 5)
        {
            if (!(e.back() == m.back())) return bad("back is not the last node", s);
        }
        else
        {
            node x = e.pop();
            s += "pop; ";
            if (!(x == m.back())) return bad("pop did not return the last node", s);
            m.pop_back();
        }
        if (e.count != m.size()) return bad("count is " + std::to_string(e.count) + ", expected " + std::to_string(m.size()), s);
        size_t k = 0;
        for (auto const& x : e)
        {
            if (x != m[k]) return bad("contents differ", s);
            ++k;
        }
    }
    return ok(s, n > 1);
}
