// C20: the identifier pool of the rendering sample, driven by random histories against a set model
#include "vph.hpp"
#include <map>
#include <memory>
#include <set>
#include <detail/uid.hpp>
#include <sys/wait.h>
using namespace vph;
using pd::detail::unique_id;
typedef unique_id::id_t id_t_;

// The pool is process-wide, so every history runs in a process of its own and starts with an empty pool.
static std::set<id_t_>& pool()
{
    static std::set<id_t_> s;
    return s;
}
struct history
{
    std::vector<std::unique_ptr<unique_id>> slots; // live objects (possibly released or moved from)
    std::vector<id_t_> model;                      // id each slot must hold, 0 when it holds none
    std::string why, shown;
    id_t_ high = 0;

    void say(std::string s) { shown += s + " "; }
    bool fail(std::string s)
    {
        if (why.empty()) why = s;
        return false;
    }
    bool invariant()
    {
        std::set<id_t_> live;
        for (size_t i = 0; i != slots.size(); ++i)
        {
            if (slots[i]->id != model[i])
                return fail("identifier " + std::to_string(i) + " is " + std::to_string(slots[i]->id) + ", expected " + std::to_string(model[i]));
            if (model[i] == 0) continue;
            if (!live.insert(model[i]).second) return fail("two live identifiers are both " + std::to_string(model[i]));
            if (pool().count(model[i])) return fail("live identifier " + std::to_string(model[i]) + " is also in the pool");
            if (slots[i]->hash != std::hash<id_t_>{}(model[i])) return fail("hash does not belong to identifier " + std::to_string(model[i]));
        }
        return true;
    }
    // a fresh identifier: non-zero, not live, taken from the pool when the pool has any
    bool fresh(id_t_ id)
    {
        if (id == 0) return fail("a new identifier is zero");
        for (auto m : model)
            if (m == id) return fail("a new identifier equals the live identifier " + std::to_string(id));
        if (!pool().empty())
        {
            if (!pool().count(id)) return fail("identifier " + std::to_string(id) + " was issued although released ones were available");
            pool().erase(id);
        }
        return true;
    }
    void freed(id_t_ id)
    {
        if (id) pool().insert(id);
    }
};

template <typename F>
static verdict isolated(tape& t, F f)
{
    int fd[2];
    if (pipe(fd)) return discard();
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return discard();
    auto put = [&](void const* p, size_t n) { if (write(fd[1], p, n) < 0) _exit(5); };
    auto puts = [&](std::string const& s) { size_t n = s.size(); put(&n, sizeof n); put(s.data(), n); };
    if (pid == 0)
    {
        close(fd[0]);
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) std::signal(s, SIG_DFL);
        verdict v = f(t);
        put(&v.state, sizeof v.state);
        put(&v.nontrivial, sizeof v.nontrivial);
        puts(v.detail.substr(0, 500));
        puts(v.shown.substr(0, 1500));
        size_t n = t.words.size();
        put(&n, sizeof n);
        put(t.words.data(), n * sizeof(uint64_t));
        _exit(0);
    }
    close(fd[1]);
    std::string all;
    char buf[4096];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) return bad("the history ends the process (status " + std::to_string(st) + ")");
    size_t pos = 0;
    auto get = [&](void* p, size_t n) { std::memcpy(p, all.data() + pos, n); pos += n; };
    auto gets = [&] { size_t n; get(&n, sizeof n); std::string s = all.substr(pos, n); pos += n; return s; };
    verdict v;
    get(&v.state, sizeof v.state);
    get(&v.nontrivial, sizeof v.nontrivial);
    v.detail = gets();
    v.shown  = gets();
    size_t n;
    get(&n, sizeof n);
    t.words.resize(n);
    get(t.words.data(), n * sizeof(uint64_t));
    t.pos = n;
    return v;
}

static verdict run(tape& t, int limit)
{
    history h;
    int n = static_cast<int>(t.range(1, limit));
    bool good = true;
    int moves = 0, releases = 0;
    for (int i = 0; i != n && good; ++i)
    {
        uint64_t op = t.below(9);
        size_t a = h.slots.empty() ? 0 : t.below(h.slots.size());
        size_t b = h.slots.empty() ? 0 : t.below(h.slots.size());
        if (h.slots.empty() || (op < 2 && h.slots.size() < 24))
        {
            auto u = std::make_unique<unique_id>();
            good = h.fresh(u->id);
            h.model.push_back(u->id);
            h.slots.push_back(std::move(u));
            h.say("new");
        }
        else if (op == 2)
        {
            h.freed(h.model[a]);
            h.model.erase(h.model.begin() + a);
            h.slots.erase(h.slots.begin() + a);
            h.say("destroy " + std::to_string(a));
            ++releases;
        }
        else if (op == 3)
        {
            h.slots[a]->release();
            h.freed(h.model[a]);
            h.model[a] = 0;
            h.say("release " + std::to_string(a));
            ++releases;
        }
        else if (op == 4)
        {
            id_t_ old = h.model[a];
            // the new identifier is acquired while the old one is still leased
            h.slots[a]->reset();
            id_t_ got = h.slots[a]->id;
            good = h.fresh(got);
            if (good && old && got == old) good = h.fail("reset kept the identifier");
            h.freed(old);
            h.model[a] = got;
            h.say("reset " + std::to_string(a));
        }
        else if (op == 5)
        {
            auto u = std::make_unique<unique_id>(std::move(*h.slots[a]));
            h.model.push_back(h.model[a]);
            h.model[a] = 0;
            h.slots.push_back(std::move(u));
            h.say("move-construct from " + std::to_string(a));
            ++moves;
        }
        else if (op == 6 || op == 7)
        {
            // assignment: the target holds the source's identifier; the target's old one is either swapped into the
            // source or released, both keep the invariant
            id_t_ ia = h.model[a], ib = h.model[b];
            *h.slots[a] = std::move(*h.slots[b]);
            if (a != b)
            {
                h.model[a] = ib;
                if (h.slots[b]->id == ia) h.model[b] = ia;
                else
                {
                    h.model[b] = 0;
                    h.freed(ia);
                }
            }
            h.say("assign " + std::to_string(a) + " = " + std::to_string(b));
            ++moves;
        }
        else
        {
            using std::swap;
            swap(*h.slots[a], *h.slots[b]);
            if (a != b) std::swap(h.model[a], h.model[b]);
            h.say("swap " + std::to_string(a) + " " + std::to_string(b));
            ++moves;
        }
        good = good && h.invariant();
    }
    std::string why = h.why;
    if (!good)
    {
        // leave the process: the pool no longer matches the model
        return bad(why, h.shown);
    }
    for (auto m : h.model) h.freed(m);
    h.slots.clear();
    verdict v = ok(h.shown, n > 3 && moves && releases);
    return v;
}
//@section pool
RELATION(short_history, 3) { return isolated(t, [](tape& t) { return run(t, 12); }); }
RELATION(long_history, 1) { return isolated(t, [](tape& t) { return run(t, 200); }); }
static verdict twice(tape& t)
{
    // releasing twice, resetting after release, destroying after release
    history h;
    auto a = std::make_unique<unique_id>();
    if (!h.fresh(a->id)) return bad(h.why);
    id_t_ id = a->id;
    int n = static_cast<int>(t.range(1, 3));
    for (int i = 0; i != n; ++i) a->release();
    h.freed(id);
    if (a->id != 0) return bad("a released identifier is not zero");
    bool re = t.below(2);
    if (re)
    {
        a->reset();
        if (!h.fresh(a->id)) return bad(h.why);
    }
    std::vector<std::unique_ptr<unique_id>> more;
    int k = static_cast<int>(t.range(1, 40));
    if (re) h.model.push_back(a->id);
    for (int i = 0; i != k; ++i)
    {
        more.push_back(std::make_unique<unique_id>());
        if (!h.fresh(more.back()->id)) return bad(h.why);
        h.model.push_back(more.back()->id);
    }
    for (auto m : h.model) h.freed(m);
    return ok("released " + std::to_string(n) + " times, then " + std::to_string(k) + " more");
}
RELATION(release_twice) { return isolated(t, twice); }
// Many identifiers at once, released in bulk in various orders; checked with sets instead of after every operation.
static verdict crowd(tape& t)
{
    std::vector<std::unique_ptr<unique_id>> live;
    std::set<id_t_> held, freed;
    std::string shown;
    int phases = static_cast<int>(t.range(2, 7));
    static const int sizes[] = {20, 100, 300, 1100, 5000, 70000};
    bool reused = false;
    for (int p = 0; p != phases; ++p)
    {
        int kind = static_cast<int>(t.below(5));
        size_t n = static_cast<size_t>(t.range(1, sizes[t.below(p == 0 && t.below(8) == 0 ? 6 : 5)]));
        if (kind <= 1 || live.empty())
        {
            for (size_t i = 0; i != n; ++i)
            {
                live.push_back(std::make_unique<unique_id>());
                id_t_ id = live.back()->id;
                if (id == 0) return bad("a new identifier is zero", shown);
                if (!held.insert(id).second) return bad("a new identifier equals the live identifier " + std::to_string(id), shown);
                if (!freed.empty())
                {
                    reused = true;
                    if (!freed.erase(id)) return bad("identifier " + std::to_string(id) + " was issued although released ones were available", shown);
                }
            }
            shown += "create " + std::to_string(n) + " ";
        }
        else if (kind == 2)
        {
            size_t step = static_cast<size_t>(t.range(1, 4)), gone = 0;
            bool by_release = t.below(2), back = t.below(2);
            std::vector<std::unique_ptr<unique_id>> keep;
            if (back) std::reverse(live.begin(), live.end());
            for (size_t i = 0; i != live.size(); ++i)
            {
                if (gone < n && i % step == 0)
                {
                    ++gone;
                    held.erase(live[i]->id);
                    freed.insert(live[i]->id);
                    if (by_release) live[i]->release();
                    live[i].reset();
                }
                else keep.push_back(std::move(live[i]));
            }
            live = std::move(keep);
            shown += "destroy " + std::to_string(gone) + " ";
        }
        else if (kind == 3)
        {
            for (size_t i = 0; i < live.size() && i < n; ++i)
            {
                id_t_ old = live[i]->id;
                live[i]->reset();
                id_t_ id = live[i]->id;
                if (id == 0) return bad("a reset identifier is zero", shown);
                if (!held.insert(id).second) return bad("a reset identifier equals the live identifier " + std::to_string(id), shown);
                if (!freed.empty() && !freed.erase(id)) return bad("identifier " + std::to_string(id) + " was issued although released ones were available", shown);
                held.erase(old);
                freed.insert(old);
            }
            shown += "reset up to " + std::to_string(n) + " ";
        }
        else
        {
            // a shift of all identifiers through move assignment and construction, as erasing from a vector does
            std::vector<unique_id> v;
            for (auto& u : live) v.push_back(std::move(*u));
            for (size_t i = 0; i != live.size(); ++i)
            {
                if (live[i]->id != 0) return bad("a moved-from identifier is still live", shown);
                *live[i] = std::move(v[i]);
            }
            shown += "move all ";
        }
        std::set<id_t_> now;
        for (auto& u : live)
        {
            if (!now.insert(u->id).second) return bad("two live identifiers are both " + std::to_string(u->id), shown);
            if (u->hash != std::hash<id_t_>{}(u->id)) return bad("hash does not belong to identifier " + std::to_string(u->id), shown);
        }
        if (now != held) return bad("the live identifiers changed", shown);
    }
    return ok(shown, reused);
}
RELATION(crowd_history) { return isolated(t, crowd); }
