#include "c28.hpp"

#include <SDL.h>

#include <lager/event_loop/sdl.hpp>

using namespace c28;

namespace {

Uint32 input_type()
{
    static auto t = [] {
        SDL_SetMainReady();
        SDL_Init(SDL_INIT_EVENTS | SDL_INIT_TIMER);
        return SDL_RegisterEvents(1);
    }();
    return t;
}

// inputs of every kind are the handler's
Uint32 type_of_input(int n)
{
    static const Uint32 types[] = {
        0, SDL_QUIT, SDL_KEYDOWN, SDL_MOUSEMOTION, SDL_USEREVENT};
    return n % 5 ? types[n % 5] : input_type();
}

void push_input(int n)
{
    auto e = SDL_Event{};
    SDL_zero(e);
    e.type      = type_of_input(n);
    e.user.code = n;
    SDL_PushEvent(&e);
}

// each loop takes one of SDL's 32k user events
void limit_loops()
{
    static int n = 0;
    if (++n > 30000)
        throw pbt::discarded{};
}

// What happens in one go, in order: the events as they are taken out of the
// queue, the calls of tick, and what they do.
struct game
{
    Case& c;
    lager::sdl_event_loop& loop;
    player p;
    bool ticking;
    // one queue of what was posted and pushed
    struct entry
    {
        int task  = -1;
        int input = -1;
        bool may_drop = false; // there was a pause while it was there
    };
    std::deque<entry> queue;
    int next_input = 0;
    bool paused = false, left = false;
    std::atomic<bool> finished{false};
    std::atomic<bool> over{false};
    bool keep_going = false; // nothing is ever paused
    std::atomic<int> ticks{0};
    int handled = 0, dropped = 0, deeds = 0, pauses = 0;
    std::vector<int> tick_deeds, handler_deeds;

    game(Case& c_, lager::sdl_event_loop& l, bool t)
        : c{c_}
        , loop{l}
        , p{c_}
        , ticking{t}
    {}

    void push()
    {
        queue.push_back({-1, next_input, paused});
        push_input(next_input++);
    }
    template <typename Loop>
    void deed(Loop& l, int d)
    {
        ++deeds;
        if (keep_going && d == 1)
            d = 2;
        switch (d) {
        case 1:
            paused = true;
            for (auto& e : queue)
                e.may_drop = true;
            ++pauses;
            l.pause();
            break;
        case 2:
            paused = false;
            l.resume();
            break;
        case 3:
            push();
            break;
        case 4:
            finished = true;
            l.finish();
            break;
        }
    }
    // something was taken: what is before it must be inputs that are ignored
    void taken(int task, int input)
    {
        while (!queue.empty() && queue.front().input >= 0 &&
               !(input >= 0 && queue.front().input == input)) {
            if (!queue.front().may_drop) {
                p.note("input " + std::to_string(queue.front().input) +
                       " was skipped");
                return;
            }
            ++dropped;
            queue.pop_front();
        }
        if (queue.empty() || queue.front().task != task ||
            queue.front().input != input) {
            p.note("took task " + std::to_string(task) + ", input " +
                   std::to_string(input) + " out of turn");
            return;
        }
        queue.pop_front();
    }
};

template <typename Loop>
void play(Case& c, lager::sdl_event_loop& sdl, Loop& loop, bool ticking)
{
    auto g   = game{c, sdl, ticking};
    auto& p  = g.p;
    auto ids = 0;
    auto fps = 500 + 500 * c.small(3);
    auto sim = 1 + c.small(40);
    p.post   = [&](auto fn, int form) {
        post_form(loop, fn, form);
    };
    // scripts
    auto draw = [&](int den) {
        auto v = std::vector<int>{};
        for (int i = 0; i < 12; ++i)
            v.push_back(c.chance(1, den) ? 1 + c.small(5) : 0);
        return v;
    };
    g.tick_deeds    = draw(4);
    g.handler_deeds = draw(4);
    auto show       = [&](const std::vector<int>& v) {
        static const char* names[] = {"-", "pause", "resume", "push", "finish", "leave"};
        auto r = std::string{};
        for (auto d : v)
            r += std::string{" "} + names[d];
        return r;
    };
    c.log("in handlers:", show(g.handler_deeds));
    if (ticking)
        c.log("in ticks:", show(g.tick_deeds));
    auto roots      = std::vector<task_ptr>{};
    while (roots.size() < 10 && c.more(4)) {
        roots.push_back(gen_task(c, ids, 2, {true, false, ticking ? 4 : 3}));
        c.log("post ", describe(*roots.back()));
    }
    auto inputs = c.small(5);
    c.log("inputs ", inputs, ticking ? ", ticking " : "");

    // the model's queue mirrors what player hands over
    auto post = p.post;
    p.post    = [&](auto fn, int form) {
        g.queue.push_back({p.queue.back()->id, -1, false});
        post(fn, form);
    };
    p.ran_hook = [&](int id) {
        g.taken(id, -1);
    };
    p.deed = [&](int d) {
        if (!ticking && d <= 2)
            d = 3;
        g.deed(loop, d);
    };
    auto n_handler = std::size_t{}, n_tick = std::size_t{};
    auto handler = [&](const SDL_Event& e) {
        if (e.user.code < 0 || e.type != type_of_input(e.user.code))
            return true;
        ++g.handled;
        if (g.paused && ticking)
            p.note("handled an input while paused");
        if (std::this_thread::get_id() != p.loop_thread)
            p.note("handled an input in another thread");
        g.taken(-1, e.user.code);
        auto d = n_handler < g.handler_deeds.size() ? g.handler_deeds[n_handler]
                                                    : 0;
        ++n_handler;
        if (!ticking && (d == 1 || d == 2))
            d = 0;
        if (d == 5) {
            g.left = true;
            return false;
        }
        if (d)
            p.deed(d);
        return true;
    };
    auto tick = [&](float dt) {
        if (g.paused)
            p.note("tick while paused");
        if (dt < 0 || dt > 1000.f / sim + .01f)
            p.note("tick of " + std::to_string(dt) + " ms");
        if (std::this_thread::get_id() != p.loop_thread)
            p.note("tick in another thread");
        if (p.depth)
            p.note("tick within a posted function");
        ++g.ticks;
        auto d = n_tick < g.tick_deeds.size() ? g.tick_deeds[n_tick] : 0;
        ++n_tick;
        if (d == 5) {
            g.left = true;
            return false;
        }
        if (d)
            p.deed(d);
        return true;
    };
    // the loop ends by itself at some point: a last thread finishes it, or
    // makes it go on if it is paused
    for (auto& t : roots)
        p.hand_over(t);
    for (int i = 0; i < inputs; ++i)
        g.push();
    auto from_thread = c.small(ticking ? 4 : 3); // how the outer thread ends it
    auto wake        = c.small(3) * 1500;
    static const char* ends[] = {
        "finish", "post finish", "post resume, finish", "finish after ticks"};
    g.keep_going = from_thread == 3;
    c.log("from another thread: ", ends[from_thread]);
    auto other       = std::thread([&] {
        std::this_thread::sleep_for(std::chrono::microseconds{3000 + wake});
        if (g.over)
            return;
        switch (from_thread) {
        case 3:
            for (int i = 0; i < 20000 && g.ticks < 3 && !g.over; ++i)
                std::this_thread::sleep_for(std::chrono::milliseconds{1});
            if (g.ticks < 3 && !g.over && !g.finished)
                p.note("there are no ticks");
            loop.finish();
            break;
        case 0:
            loop.finish();
            break;
        case 1:
            loop.post([&] { g.deed(loop, 4); });
            break;
        default:
            // both, one after the other
            loop.post([&] {
                g.deed(loop, 2);
                g.deed(loop, 4);
            });
        }
        // should be over soon
        for (int i = 0; i < 3000 && !g.over; ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds{1});
        if (!g.over) {
            p.note("the loop did not stop when it was finished");
            for (int i = 0; i < 100000 && !g.over; ++i) {
                loop.finish();
                loop.post([&] { loop.resume(); });
                std::this_thread::sleep_for(std::chrono::milliseconds{1});
            }
        }
    });
    if (ticking)
        sdl.run(handler, tick, fps, sim);
    else
        sdl.run(handler);
    g.over = true;
    other.join();
    SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT);
    p.ok();
    auto seen = std::vector<int>(ids);
    for (auto id : p.ran)
        P_EQ(++seen[id], 1, "runs of task " << id);
    if (!g.finished && !g.left && (from_thread == 1 || from_thread == 2))
        P_CHECK(g.queue.empty(), "left something in the queue");
    c.label("paused", g.pauses > 0);
    c.label("finished by a function", g.finished);
    c.label("inputs ignored while paused", g.dropped > 0);
    c.nontrivial(p.ran.size() + g.handled >= 4);
}

void sdl_case(Case& c, bool ticking)
{
    input_type();
    limit_loops();
    SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT);
    auto sdl = lager::sdl_event_loop{};
    switch (c.small(3)) {
    case 0:
        play(c, sdl, sdl, ticking);
        break;
    case 1: {
        auto l      = lager::with_sdl_event_loop{sdl};
        auto thrown = false;
        try {
            l.async([] {});
        } catch (const std::exception&) {
            thrown = true;
        }
        P_CHECK(thrown, "async is not supported");
        play(c, sdl, l, ticking);
        break;
    }
    default: {
        auto store = lager::make_store<int>(
            0,
            lager::with_sdl_event_loop{sdl},
            lager::with_reducer([](int m, int) { return m; }));
        auto ctx = lager::context<int>{store};
        play(c, sdl, ctx.loop(), ticking);
    }
    }
}

} // namespace

PBT_TARGET_N(sdl_events, 1, "four functions or inputs", 20)
{
    sdl_case(c, false);
}

PBT_TARGET_N(sdl_ticks, 2, "four functions or inputs", 20)
{
    sdl_case(c, true);
}
