// Tape-driven property harness.  Every random decision of a case is read from a tape of 64-bit
// words; a tape shorter than needed continues with zeros, so deleting or lowering words always
// gives another valid (simpler) case.  Modes:
//   fuzz <relation|all> <seed> <count> <seconds>
//   tape <relation> <w0> <w1> ...
//   list
#pragma once
#include <algorithm>
#include <chrono>
#include <csignal>
#include <sys/time.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <cmath>

namespace vph
{
struct rng
{
    uint64_t s;
    explicit rng(uint64_t x) : s{x} {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

struct tape
{
    std::vector<uint64_t> words;
    size_t pos  = 0;
    rng* source = nullptr;
    uint64_t serial = 0; // index of the case, for sweeps

    uint64_t word()
    {
        if (pos < words.size())
        {
            return words[pos++];
        }
        uint64_t w = source ? source->next() : 0;
        words.push_back(w);
        ++pos;
        return w;
    }
    // The value drawn (not the raw word) is recorded, so that tapes are readable and shrink well
    uint64_t below(uint64_t n)
    {
        if (n == 0)
        {
            return 0;
        }
        uint64_t v       = word() % n;
        words[pos - 1] = v;
        return v;
    }
    // like below(), but consecutive cases enumerate the values (mixed radix): count >= product of the
    // radices makes the enumeration exhaustive
    uint64_t sweep(uint64_t n)
    {
        if (pos >= words.size() && source)
        {
            words.push_back(serial % n);
            serial /= n;
        }
        return below(n);
    }
    // inclusive range, zero word is lo
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
    }
    bool chance(int percent)
    {
        return static_cast<int>(below(100)) >= 100 - percent;
    }
    // small signed integer centred on zero: 0, 1, -1, 2, -2...
    int64_t small(int64_t m)
    {
        int64_t v = static_cast<int64_t>(below(2 * m + 1));
        return v & 1 ? (v + 1) / 2 : -(v / 2);
    }
    // real in [-m, m]; simple values are favoured, the zero word is `zero_value`
    double real(double m)
    {
        uint64_t k = below(8);
        if (k == 0)
        {
            return static_cast<double>(small(static_cast<int64_t>(m < 4 ? 1 : 3)));
        }
        if (k < 3)
        {
            return std::min(m, 0.25 * static_cast<double>(small(static_cast<int64_t>(4 * m))));
        }
        double u = static_cast<double>(below(2000001)) / 1000000.0 - 1.0;
        return u * m;
    }
};

struct verdict
{
    int state = 0; // 0 ok, 1 violated, 2 discarded
    std::string detail;
    std::string shown; // the case, written out
    bool nontrivial = true;
    uint64_t evals  = 1; // number of individual comparisons when one case enumerates many
};

inline verdict ok(std::string shown = "", bool nt = true)
{
    return {0, "", std::move(shown), nt};
}
inline verdict bad(std::string detail, std::string shown = "")
{
    return {1, std::move(detail), std::move(shown), true};
}
inline verdict discard()
{
    return {2, "", "", false};
}

struct relation
{
    const char* name;
    std::function<verdict(tape&)> run;
    int weight = 1;
};

inline std::vector<relation>& relations()
{
    static std::vector<relation> r;
    return r;
}

struct reg
{
    reg(const char* n, std::function<verdict(tape&)> f, int w = 1)
    {
        relations().push_back({n, std::move(f), w});
    }
};

inline tape*& current()
{
    static tape* t = nullptr;
    return t;
}
inline const char*& current_name()
{
    static const char* n = "";
    return n;
}

inline void print_tape(tape const& t)
{
    for (size_t i = 0; i != t.pos && i != t.words.size(); ++i)
    {
        std::printf(" %llu", static_cast<unsigned long long>(t.words[i]));
    }
}

inline void on_signal(int sig)
{
    std::printf("\nCRASH %s %d", current_name(), sig);
    if (current())
    {
        print_tape(*current());
    }
    std::printf("\n");
    std::fflush(stdout);
    _exit(99);
}

// Every case gets the processor time between two ticks of this timer at least; a case that is still running at its
// second tick is reported as a hang.
inline volatile uint64_t& case_counter()
{
    static volatile uint64_t n = 0;
    return n;
}

inline void on_tick(int sig)
{
    static uint64_t last = ~0ull;
    if (last == case_counter() && current())
    {
        on_signal(sig);
    }
    last = case_counter();
}

inline void watch()
{
    std::signal(SIGVTALRM, on_tick);
    itimerval v{};
    v.it_interval.tv_sec = v.it_value.tv_sec = 10;
    setitimer(ITIMER_VIRTUAL, &v, nullptr);
}

inline uint64_t hash(tape const& t)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i != t.pos && i != t.words.size(); ++i)
    {
        h = (h ^ t.words[i]) * 1099511628211ull;
        h ^= h >> 29;
    }
    return h;
}

inline std::string one_line(std::string s)
{
    for (auto& c : s)
    {
        if (c == '\n')
        {
            c = ' ';
        }
    }
    return s.substr(0, 600);
}

inline int main(int argc, char** argv)
{
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS})
    {
        std::signal(s, on_signal);
    }
    std::string mode = argc > 1 ? argv[1] : "list";
    if (mode == "list")
    {
        for (auto& r : relations())
        {
            std::printf("%s %d\n", r.name, r.weight);
        }
        return 0;
    }
    watch();
    std::string which = argc > 2 ? argv[2] : "all";
    if (mode == "tape")
    {
        for (auto& r : relations())
        {
            if (which == r.name)
            {
                tape t;
                for (int i = 3; i < argc; ++i)
                {
                    t.words.push_back(std::strtoull(argv[i], nullptr, 10));
                }
                current()      = &t;
                current_name() = r.name;
                auto v         = r.run(t);
                if (v.state == 1)
                {
                    std::printf("FAIL %s |", r.name);
                    print_tape(t);
                    std::printf(" | %s | %s\n", one_line(v.detail).c_str(), one_line(v.shown).c_str());
                    return 1;
                }
                std::printf("%s %s | %s\n", v.state == 0 ? "PASS" : "DISCARD", r.name, one_line(v.shown).c_str());
                return 0;
            }
        }
        std::printf("UNKNOWN\n");
        return 3;
    }
    uint64_t seed  = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 1;
    uint64_t count = argc > 4 ? std::strtoull(argv[4], nullptr, 10) : 1000;
    double secs    = argc > 5 ? std::strtod(argv[5], nullptr) : 1e9;
    auto t0        = std::chrono::steady_clock::now();
    int rc         = 0;
    for (auto& r : relations())
    {
        if (which != "all" && which != r.name)
        {
            continue;
        }
        uint64_t evals = 0, nt = 0, disc = 0;
        std::unordered_set<uint64_t> seen;
        int samples  = 0;
        uint64_t key = seed;
        for (const char* c = r.name; *c; ++c)
        {
            key = key * 1000003ull + static_cast<unsigned char>(*c);
        }
        rng top{key};
        for (uint64_t i = 0; i != count * static_cast<uint64_t>(r.weight); ++i)
        {
            if ((i & 63) == 0
                && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
            {
                std::printf("TIMEUP %s %llu\n", r.name, static_cast<unsigned long long>(i));
                break;
            }
            rng src{top.next()};
            tape t;
            t.source       = &src;
            t.serial       = i;
            current()      = &t;
            current_name() = r.name;
            case_counter() = case_counter() + 1;
            auto v         = r.run(t);
            if (v.state == 2)
            {
                ++disc;
                continue;
            }
            evals += v.evals;
            if (v.state == 1)
            {
                std::printf("FAIL %s |", r.name);
                print_tape(t);
                std::printf(" | %s | %s\n", one_line(v.detail).c_str(), one_line(v.shown).c_str());
                rc = 1;
                break;
            }
            if (v.nontrivial && seen.size() < 4000000 && seen.insert(hash(t)).second)
            {
                nt += v.evals;
                if (samples < 2 && i > 5 && !v.shown.empty())
                {
                    ++samples;
                    std::printf("SAMPLE %s | %s\n", r.name, one_line(v.shown).c_str());
                }
            }
        }
        std::printf("STAT %s %llu %llu %llu\n", r.name, static_cast<unsigned long long>(evals),
                    static_cast<unsigned long long>(nt), static_cast<unsigned long long>(disc));
        std::fflush(stdout);
    }
    std::printf("DONE\n");
    return rc;
}
} // namespace vph

#define VPH_CAT2(a, b) a##b
#define VPH_CAT(a, b) VPH_CAT2(a, b)
#define RELATION(name, ...)                                                                        \
    static vph::verdict VPH_CAT(rel_, name)(vph::tape & t);                                        \
    static vph::reg VPH_CAT(reg_, name){#name, VPH_CAT(rel_, name), ##__VA_ARGS__};                \
    static vph::verdict VPH_CAT(rel_, name)([[maybe_unused]] vph::tape & t)
