// C21: deferred destruction in the rendering sample, driven by random histories against a model.  The destruction calls of
// the graphics interface are stand-ins that record what they were given.
#include "vph.hpp"
#include <image_view.hpp>
#include <map>
#include <memory>
#include <set>
#include <vulkan/vulkan.h>
#include "context.hpp"
using namespace vph;

struct call
{
    int kind; // 0 swapchain, 1 image view
    uintptr_t handle;
    bool device_ok;
    bool operator<(call const& o) const { return std::make_pair(kind, handle) < std::make_pair(o.kind, o.handle); }
};
static std::vector<call>& calls()
{
    static std::vector<call> v;
    return v;
}
static VkDevice the_device() { return reinterpret_cast<VkDevice>(uintptr_t(0xd0d0)); }
extern "C" void vkDestroySwapchainKHR(VkDevice d, VkSwapchainKHR h, const VkAllocationCallbacks* a)
{
    calls().push_back({0, reinterpret_cast<uintptr_t>(h), d == the_device() && a == vk_ac});
}
extern "C" void vkDestroyImageView(VkDevice d, VkImageView h, const VkAllocationCallbacks* a)
{
    calls().push_back({1, reinterpret_cast<uintptr_t>(h), d == the_device() && a == vk_ac});
}

struct model
{
    std::vector<std::multiset<std::pair<int, uintptr_t>>> pending; // per frame
    std::string why, shown;
    bool fail(std::string s)
    {
        if (why.empty()) why = s;
        return false;
    }
    // everything destroyed since the last look must be exactly `expected`
    bool settle(std::multiset<std::pair<int, uintptr_t>> expected)
    {
        std::multiset<std::pair<int, uintptr_t>> got;
        for (auto& c : calls())
        {
            got.insert({c.kind, c.handle});
            if (!c.device_ok) return fail("a handle was destroyed on another device or with other allocation callbacks");
        }
        calls().clear();
        if (got == expected) return true;
        for (auto& g : got)
        {
            if (got.count(g) > expected.count(g))
                return fail((g.first ? "image view " : "swapchain ") + std::to_string(g.second)
                            + (expected.count(g) ? " was destroyed twice" : " was destroyed although it was not due"));
        }
        for (auto& e : expected)
        {
            if (got.count(e) < expected.count(e))
                return fail((e.first ? "image view " : "swapchain ") + std::to_string(e.second) + " was not destroyed by the flush");
        }
        return true;
    }
};

static size_t frame_now() { return context.frame_index % frame_context_count; }

//@section chute
// the chute by itself: every handle sent to it is destroyed by its next flush, once, and nothing else ever is
RELATION(chute, 2)
{
    calls().clear();
    context.device = the_device();
    model m;
    m.pending.resize(3);
    std::unique_ptr<gc> chutes[3] = {std::make_unique<gc>(), std::make_unique<gc>(), std::make_unique<gc>()};
    uintptr_t next = 1;
    int n          = static_cast<int>(t.range(1, t.chance(10) ? 300 : 24));
    int flushes = 0, sent = 0;
    for (int i = 0; i != n && m.why.empty(); ++i)
    {
        size_t c = t.below(3);
        switch (t.below(5))
        {
        case 0:
            m.shown += "flush" + std::to_string(c) + " ";
            chutes[c]->flush();
            m.settle(m.pending[c]);
            m.pending[c].clear();
            ++flushes;
            break;
        case 1:
        case 2:
            m.shown += "swapchain" + std::to_string(c) + " ";
            chutes[c]->dispose(reinterpret_cast<VkSwapchainKHR>(next));
            m.pending[c].insert({0, next++});
            m.settle({});
            ++sent;
            break;
        default:
            m.shown += "view" + std::to_string(c) + " ";
            chutes[c]->dispose(reinterpret_cast<VkImageView>(next));
            m.pending[c].insert({1, next++});
            m.settle({});
            ++sent;
            break;
        }
    }
    for (int k = 0; k != 2 && m.why.empty(); ++k)
    {
        for (size_t c = 0; c != 3; ++c)
        {
            chutes[c]->flush();
            m.settle(m.pending[c]);
            m.pending[c].clear();
        }
    }
    return m.why.empty() ? ok(m.shown, flushes && sent > 1) : bad(m.why, m.shown);
}
//@section views
// image views over a sequence of frames: a handle has one owner, and goes to the chute of the frame its owner died in
struct owner
{
    std::unique_ptr<pd::image_view> view;
    uintptr_t handle = 0;
    int width = 0, height = 0;
    size_t hash = 0;
    bool sized  = false; // false when the dimensions are not specified (default constructed or moved from)
    bool hashed = true;  // false when the identifier has moved elsewhere
};
RELATION(views, 3)
{
    calls().clear();
    context.device = the_device();
    model m;
    m.pending.resize(frame_context_count);
    std::vector<owner> slots;
    uintptr_t next = 1;
    int n          = static_cast<int>(t.range(1, t.chance(10) ? 600 : 30));
    int moves = 0, dead = 0, frames = 0;
    context.frame_index = static_cast<uint8_t>(t.chance(30) ? 250 + t.below(6) : t.below(4));
    auto check          = [&]() {
        std::set<size_t> live;
        for (size_t i = 0; i != slots.size(); ++i)
        {
            auto& s = slots[i];
            auto h  = reinterpret_cast<uintptr_t>(s.view->handle());
            if (h != s.handle)
                return m.fail("view " + std::to_string(i) + " holds handle " + std::to_string(h) + ", expected " + std::to_string(s.handle));
            if (s.sized && (s.view->width() != s.width || s.view->height() != s.height))
                return m.fail("view " + std::to_string(i) + " has the wrong size");
            if (s.hashed)
            {
                if (s.view->hash() != s.hash) return m.fail("view " + std::to_string(i) + " changed its hash");
                if (!live.insert(s.hash).second) return m.fail("two views share a hash");
            }
        }
        return true;
    };
    auto put = [&](owner o) {
        o.hash = o.view->hash();
        slots.push_back(std::move(o));
    };
    for (int i = 0; i != n && m.why.empty(); ++i)
    {
        std::multiset<std::pair<int, uintptr_t>> due;
        switch (t.below(8))
        {
        case 0:
        case 1:
        {
            owner o;
            o.handle = t.chance(10) ? 0 : next++;
            o.width  = static_cast<int>(t.range(0, 4000));
            o.height = static_cast<int>(t.range(0, 4000));
            o.sized  = true;
            o.view   = std::make_unique<pd::image_view>(reinterpret_cast<void*>(o.handle), o.width, o.height);
            m.shown += "new ";
            put(std::move(o));
            break;
        }
        case 2:
        {
            owner o;
            if (t.chance(70)) break;
            o.view = std::make_unique<pd::image_view>();
            m.shown += "empty ";
            put(std::move(o));
            break;
        }
        case 3:
        {
            if (slots.empty()) break;
            size_t k = t.below(slots.size());
            owner o;
            o.view   = std::make_unique<pd::image_view>(std::move(*slots[k].view));
            o.handle = slots[k].handle;
            o.width = slots[k].width, o.height = slots[k].height, o.sized = slots[k].sized;
            if (slots[k].hashed && o.view->hash() != slots[k].hash) m.fail("a moved view changed its hash");
            o.hash          = o.view->hash();
            o.hashed        = slots[k].hashed;
            slots[k].handle = 0;
            slots[k].sized  = false;
            slots[k].hashed = false;
            m.shown += "move" + std::to_string(k) + " ";
            slots.push_back(std::move(o));
            ++moves;
            break;
        }
        case 4:
        {
            if (slots.empty()) break;
            size_t a = t.below(slots.size()), b = t.below(slots.size());
            if (a == b) break;
            m.shown += "assign" + std::to_string(a) + "<-" + std::to_string(b) + " ";
            *slots[a].view = std::move(*slots[b].view);
            // the destination is now what the source was; the handle it had before is still owned by the source or has
            // gone to the chute, but is destroyed once only
            auto left = reinterpret_cast<uintptr_t>(slots[b].view->handle());
            auto old  = slots[a].handle;
            if (left != old && left != 0) { m.fail("the source of an assignment owns a handle that is not the destination's old one"); break; }
            if (old && left == 0) m.pending[frame_now()].insert({1, old});
            slots[a].handle = slots[b].handle;
            slots[a].width = slots[b].width, slots[a].height = slots[b].height, slots[a].sized = slots[b].sized;
            std::swap(slots[a].hash, slots[b].hash);
            std::swap(slots[a].hashed, slots[b].hashed);
            slots[b].handle = left;
            slots[b].sized  = false;
            if (!left) slots[b].hashed = false;
            if (slots[b].hashed && slots[b].view->hash() != slots[b].hash) slots[b].hashed = false;
            ++moves;
            break;
        }
        case 5:
        {
            if (slots.empty()) break;
            size_t k = t.below(slots.size());
            m.shown += "destroy" + std::to_string(k) + " ";
            if (slots[k].handle)
            {
                m.pending[frame_now()].insert({1, slots[k].handle});
                ++dead;
            }
            slots.erase(slots.begin() + static_cast<long>(k));
            break;
        }
        case 6:
            m.shown += "swapchain ";
            vk_dispose(reinterpret_cast<VkSwapchainKHR>(next));
            m.pending[frame_now()].insert({0, next++});
            break;
        default:
            m.shown += "frame ";
            ++context.frame_index;
            vk_current_frame().garbage.flush();
            due = m.pending[frame_now()];
            m.pending[frame_now()].clear();
            ++frames;
            break;
        }
        if (m.why.empty() && m.settle(due)) check();
    }
    // the end of the history: every view dies, every frame comes round once more
    if (m.why.empty())
    {
        for (auto& s : slots)
        {
            if (s.handle) m.pending[frame_now()].insert({1, s.handle});
        }
        slots.clear();
        m.settle({});
    }
    slots.clear();
    for (int k = 0; k != frame_context_count; ++k)
    {
        ++context.frame_index;
        vk_current_frame().garbage.flush();
        if (m.why.empty()) m.settle(m.pending[frame_now()]);
        m.pending[frame_now()].clear();
    }
    return m.why.empty() ? ok(m.shown, moves && dead && frames) : bad(m.why, m.shown);
}
