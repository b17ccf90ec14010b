#include "vph.hpp"
#include "gal/numeric.hpp"
#include "gal/crc.hpp"
#include <utility>
using namespace vph;

// the definition: reflected polynomial 0xEDB88320, initial value and final xor all ones
static uint32_t ref_crc(uint8_t const* p, size_t n)
{
    uint32_t c = ~0u;
    for (size_t i = 0; i != n; ++i)
    {
        c ^= p[i];
        for (int k = 0; k != 8; ++k)
        {
            c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1;
        }
    }
    return ~c;
}
static uint32_t ref32(uint32_t w)
{
    uint8_t b[4] = {uint8_t(w), uint8_t(w >> 8), uint8_t(w >> 16), uint8_t(w >> 24)};
    return ref_crc(b, 4);
}
static std::string hex(uint64_t x) { char b[32]; std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }

//@section crc
RELATION(crc_block, 1)
{
    // 256 consecutive words
    uint32_t base = static_cast<uint32_t>(t.below(1u << 24)) << 8;
    if (t.below(3) == 1) base = 0;
    for (uint32_t i = 0; i != 256; ++i)
    {
        uint32_t g = gal::detail::crc32(base + i);
        if (g != ref32(base + i)) return bad("crc32(" + hex(base + i) + ") = " + hex(g) + " expected " + hex(ref32(base + i)), hex(base));
    }
    auto v  = ok("crc32 of " + hex(base) + " .. +255");
    v.evals = 256;
    return v;
}
RELATION(crc_word, 4)
{
    uint32_t w = static_cast<uint32_t>(t.below(1ull << 32));
    if (t.below(4) == 1) w = 1u << t.below(32);
    if (gal::detail::crc32(w) != ref32(w)) return bad("crc32(" + hex(w) + ") = " + hex(gal::detail::crc32(w)), hex(w));
    return ok("crc32 " + hex(w));
}
//@section crc8
RELATION(crc_byte, 1)
{
    uint8_t b = static_cast<uint8_t>(t.below(256));
    if (gal::detail::crc32_8(b) != ref_crc(&b, 1)) return bad("crc32_8", hex(b));
    return ok("crc32_8 " + hex(b));
}
//@section pow
template <int N, int D>
static verdict pow_case(tape& t)
{
    double x = t.real(3);
    if (t.chance(15)) x = t.real(40);
    if (D > 1 || N < 0)
    {
        x = std::fabs(x);
        if (x < 1e-2) x = 1.5;
        if (D == 1 && t.chance(40)) x = -x;
    }
    long double e = 1;
    if (D == 1)
    {
        for (int i = 0; i < (N < 0 ? -N : N); ++i) e *= x;
        if (N < 0) e = 1 / e;
    }
    else
    {
        e = N == 0 ? 1.0L : std::pow(static_cast<long double>(x), static_cast<long double>(N) / D);
    }
    double g = gal::pow(x, std::integral_constant<int, N>{}, std::integral_constant<int, D>{});
    std::ostringstream s;
    s.precision(17);
    s << "pow(" << x << ", " << N << "/" << D << ")";
    if (!(std::fabs(static_cast<long double>(g) - e) <= 1e-13L * std::fabs(e) + 1e-300L))
    {
        std::ostringstream m;
        m.precision(17);
        m << "got " << g << " expected " << static_cast<double>(e);
        return bad(m.str(), s.str());
    }
    float f  = gal::pow(static_cast<float>(x), std::integral_constant<int, N>{}, std::integral_constant<int, D>{});
    if (std::fabs(e) < 1e30L && std::fabs(e) > 1e-30L && !(std::fabs(static_cast<long double>(f) - e) <= 5e-5L * std::fabs(e)))
    {
        return bad("float result differs", s.str());
    }
    return ok(s.str(), N != 0 && N != 1);
}
template <int D, int... I>
static verdict pow_pick(tape& t, std::integer_sequence<int, I...>)
{
    constexpr int half = sizeof...(I) / 2;
    using fn           = verdict (*)(tape&);
    static constexpr fn tab[] = {&pow_case<I - half, D>...};
    return tab[t.below(sizeof...(I))](t);
}
RELATION(pow_int, 6) { return pow_pick<1>(t, std::make_integer_sequence<int, 81>{}); }
RELATION(pow_half, 1) { return pow_pick<2>(t, std::make_integer_sequence<int, 25>{}); }
RELATION(pow_third, 1) { return pow_pick<3>(t, std::make_integer_sequence<int, 17>{}); }
RELATION(pow_quarter, 1) { return pow_pick<4>(t, std::make_integer_sequence<int, 13>{}); }
//@section powexact
template <int N>
static verdict powx(tape& t)
{
    // exact in a 64-bit integer ring
    uint64_t x = t.below(1ull << 20), e = 1;
    for (int i = 0; i < N; ++i) e *= x;
    uint64_t g = gal::pow(x, std::integral_constant<int, N>{}, std::integral_constant<int, 1>{});
    if (g != e) return bad("wrong power", std::to_string(x) + "^" + std::to_string(N));
    return ok(std::to_string(x) + "^" + std::to_string(N), N > 1);
}
template <int... I>
static verdict powx_pick(tape& t, std::integer_sequence<int, I...>)
{
    using fn = verdict (*)(tape&);
    static constexpr fn tab[] = {&powx<I>...};
    return tab[t.below(sizeof...(I))](t);
}
RELATION(pow_ring, 3) { return powx_pick(t, std::make_integer_sequence<int, 70>{}); }
//@section nextpow
RELATION(next_pow_2, 2)
{
    uint64_t k = t.below(65);
    if (t.below(2))
    {
        uint32_t w = static_cast<uint32_t>(k == 0 ? 0 : t.below(1ull << std::min<uint64_t>(k, 31)) + 1);
        if (t.below(3) == 1) { w = (1u << t.below(31)) + static_cast<uint32_t>(t.below(3)) - 1; }
        if (w > (1u << 31)) return discard();
        uint64_t e = 1;
        while (e < w) e <<= 1;
        if (w == 0) e = 0;
        if (gal::next_pow_2(w) != e) return bad("next_pow_2(" + std::to_string(w) + ") = " + std::to_string(gal::next_pow_2(w)), std::to_string(w));
        return ok("next_pow_2 " + std::to_string(w), w > 2);
    }
    uint64_t w = k == 0 ? 0 : t.below(1ull << std::min<uint64_t>(k, 63)) + 1;
    if (t.below(3) == 1) w = (1ull << t.below(63)) + t.below(3) - 1;
    if (w > (1ull << 63)) return discard();
    uint64_t e = 1;
    while (e < w) e <<= 1;
    if (w == 0) e = 0;
    if (gal::next_pow_2(w) != e) return bad("next_pow_2(" + std::to_string(w) + ") = " + std::to_string(gal::next_pow_2(w)), std::to_string(w));
    return ok("next_pow_2 " + std::to_string(w) + "ull", w > 2);
}
//@section bits
static uint32_t word(tape& t)
{
    switch (t.below(4))
    {
    case 0: return static_cast<uint32_t>(t.below(64));
    case 1: return 1u << t.below(32);
    case 2: return (1u << t.below(32)) - 1;
    default: return static_cast<uint32_t>(t.below(1ull << 32));
    }
}
RELATION(bit_helpers, 4)
{
    uint32_t w = word(t);
    uint32_t pc = 0;
    for (int i = 0; i != 32; ++i) pc += w >> i & 1;
    if (gal::pop_count(w) != pc) return bad("pop_count", hex(w));
    if (w)
    {
        uint32_t l = 31;
        while (!(w >> l & 1)) --l;
        if (gal::leading_set_index(w) != l) return bad("leading_set_index", hex(w));
    }
    return ok("bits of " + hex(w), w != 0);
}
//@section rot
RELATION(rotate, 1)
{
    uint32_t w = static_cast<uint32_t>(t.below(1ull << 32));
    uint8_t b[4] = {uint8_t(w), uint8_t(w >> 8), uint8_t(w >> 16), uint8_t(w >> 24)};
    uint32_t e = uint32_t(b[1]) | uint32_t(b[2]) << 8 | uint32_t(b[3]) << 16 | uint32_t(b[0]) << 24;
    if (gal::rot32(w) != e) return bad("rot32", hex(w));
    return ok("rot32 " + hex(w));
}
//@section even
RELATION(next_even, 2)
{
    uint32_t e = static_cast<uint32_t>(t.below(1u << t.range(1, 20)));
    uint32_t x = e + 1;
    while (__builtin_popcount(x) & 1) ++x;
    if (gal::next_even(e) != x) return bad("next_even(" + hex(e) + ") = " + hex(gal::next_even(e)) + " expected " + hex(x), hex(e));
    return ok("next_even " + hex(e));
}
