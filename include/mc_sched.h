// A controlled scheduler: the threads of the code under test are fibers, every operation on a mutex, condition variable,
// atomic or thread is a scheduling point, and all schedules up to a number of deviations are enumerated.
//  deviation = preempting a thread that could have gone on, a spurious wake-up, or an early time-out.
// Choices that are not deviations (who runs when the running thread blocks or ends, which waiter a notify wakes) are
// always all explored.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <sys/mman.h>
#include <ucontext.h>

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
} // namespace __cxxabiv1

namespace mc {
// > 0: memory accesses are the scheduler's own and not reported to the race detector
inline int race_off = 0;
struct Off
{
    Off() { ++race_off; }
    ~Off() { --race_off; }
};

struct Fiber
{
    int off = 0;
    int id;
    ucontext_t ctx;
    void* stack = nullptr;
    std::function<void()> body;
    enum St { ready, blocked, sleeping, finished } st = ready;
    const void* wait_on = nullptr; // while blocked
    bool timed = false; // blocked with a time-out
    bool timed_out = false, woken = false;
    bool detached = false;
    uint64_t slept_at = 0;
    char eh[16] = {};
    std::string what; // last operation
    std::vector<uint32_t> vc; // vector clock
};

struct Choice
{
    std::vector<int> opts; // encoded options
    std::vector<int> cost;
    size_t idx = 0;
};

struct Abort
{};

inline constexpr size_t STACK = 1 << 20;

class Sched
{
    std::vector<std::unique_ptr<Fiber>> fibers_;
    std::vector<void*> stacks_; // free ones
    ucontext_t main_;
    Fiber* cur_ = nullptr;
    uint64_t step_ = 0;
    std::vector<Choice> path_;
    size_t depth_ = 0;
    int spent_ = 0;
    bool active_ = false;
    char main_eh_[16] = {};
    uint64_t solo_sleeps_ = 0;

public:
    int bound = 2; // deviations
    uint64_t max_steps = 200000;
    bool points = true; // false: only blocking operations are scheduling points
    bool spurious = true;
    bool delay = false; // delay bounding: every choice but the default one is a deviation, also when a thread blocks
    std::string error; // first violation of this execution
    std::string trace;
    bool tracing = false;
    uint64_t total_points = 0, total_execs = 0;
    std::function<void()> on_step; // called at each scheduling point, in the context of the scheduler's caller

    static Sched*& instance()
    {
        static Sched* s = nullptr;
        return s;
    }
    static bool on() { return instance() && instance()->active_ && instance()->cur_; }

    Fiber* cur() { return cur_; }
    uint64_t steps() const { return step_; }

    [[noreturn]] void violate(const std::string& m)
    {
        Off off;
        if (error.empty())
            error = m;
        // abandon the execution
        active_ = false;
        setcontext_main();
    }
    [[noreturn]] void setcontext_main()
    {
        // leave the fiber for good; its stack is not unwound
        memcpy(__cxxabiv1::__cxa_get_globals(), main_eh_, 16);
        setcontext(&main_);
        abort();
    }

    // ---- choices
    // cost[i] deviations for option i; returns the chosen option's position
    size_t choose(const std::vector<int>& opts, const std::vector<int>& cost)
    {
        if (opts.size() == 1)
            return 0;
        if (depth_ < path_.size())
        {
            Choice& c = path_[depth_++];
            if (c.opts != opts || c.cost != cost)
                violate("HARNESS: the execution is not deterministic under replay");
            spent_ += c.cost[c.idx];
            return c.idx;
        }
        Choice c { opts, cost, 0 };
        path_.push_back(c);
        ++depth_;
        spent_ += cost[0];
        return 0;
    }
    // next path in depth-first order; false if there is none
    bool next_path()
    {
        while (!path_.empty())
        {
            Choice& c = path_.back();
            int before = 0;
            for (size_t i = 0; i + 1 < path_.size(); ++i)
                before += path_[i].cost[path_[i].idx];
            while (++c.idx < c.opts.size())
                if (before + c.cost[c.idx] <= bound)
                    return true;
            path_.pop_back();
        }
        return false;
    }
    std::string path_string() const
    {
        std::string s;
        for (auto& c : path_)
            s += (s.empty() ? "" : ".") + std::to_string(c.idx);
        return s;
    }
    std::vector<Choice>& path() { return path_; }

    // ---- running
    // body runs as thread 0
    void execute(const std::function<void()>& body)
    {
        instance() = this;
        for (auto& f : fibers_)
            if (f->stack)
                stacks_.push_back(f->stack);
        fibers_.clear();
        step_ = 0;
        depth_ = 0;
        spent_ = 0;
        solo_sleeps_ = 0;
        error.clear();
        trace.clear();
        ++total_execs;
        race_off = 0;
        active_ = true;
        spawn(body);
        memcpy(main_eh_, __cxxabiv1::__cxa_get_globals(), 16);
        volatile bool started = false;
        getcontext(&main_);
        // comes back here when the execution is over
        if (!started)
        {
            started = true;
            schedule(nullptr);
        }
        cur_ = nullptr;
        active_ = false;
        race_off = 0;
        instance() = this;
    }
    int spawn(std::function<void()> body)
    {
        Off off;
        auto f = std::make_unique<Fiber>();
        f->id = (int)fibers_.size();
        f->body = std::move(body);
        if (!stacks_.empty())
        {
            f->stack = stacks_.back();
            stacks_.pop_back();
        }
        else
        {
            f->stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect(f->stack, 4096, PROT_NONE);
        }
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack;
        f->ctx.uc_stack.ss_size = STACK;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, (void (*)())&Sched::entry, 0);
        if (cur_)
        {
            f->vc = cur_->vc;
            tick(*cur_);
        }
        tick(*f);
        fibers_.push_back(std::move(f));
        return (int)fibers_.size() - 1;
    }
    static void tick(Fiber& f)
    {
        if (f.vc.size() <= (size_t)f.id)
            f.vc.resize(f.id + 1);
        ++f.vc[f.id];
    }
    static void join_vc(std::vector<uint32_t>& a, const std::vector<uint32_t>& b)
    {
        if (a.size() < b.size())
            a.resize(b.size());
        for (size_t i = 0; i < b.size(); ++i)
            if (b[i] > a[i])
                a[i] = b[i];
    }
    // synchronisation object clocks, for the race detector
    std::map<const void*, std::vector<uint32_t>> sync_vc;
    void acquire(const void* o)
    {
        Off off;
        if (auto it = sync_vc.find(o); it != sync_vc.end())
            join_vc(cur_->vc, it->second);
    }
    void release(const void* o)
    {
        Off off;
        join_vc(sync_vc[o], cur_->vc);
        tick(*cur_);
    }

    __attribute__((no_sanitize("thread"))) static void entry()
    {
        Sched& s = *instance();
        try
        {
            s.cur_->body();
        }
        catch (const std::exception& e)
        {
            s.violate("an exception left thread " + std::to_string(s.cur_->id) + ": " + e.what());
        }
        catch (...)
        {
            s.violate("an exception left thread " + std::to_string(s.cur_->id));
        }
        ++race_off;
        s.release(s.cur_);
        s.cur_->st = Fiber::finished;
        s.cur_->body = nullptr;
        s.wake_all(s.cur_);
        s.schedule(s.cur_);
        abort();
    }
    void wake_all(const void* o)
    {
        Off off;
        for (auto& f : fibers_)
            if (f->st == Fiber::blocked && f->wait_on == o)
            {
                f->st = Fiber::ready;
                f->wait_on = nullptr;
                f->woken = true;
            }
    }
    std::vector<Fiber*> waiters(const void* o)
    {
        Off off;
        std::vector<Fiber*> v;
        for (auto& f : fibers_)
            if (f->st == Fiber::blocked && f->wait_on == o)
                v.push_back(f.get());
        return v;
    }
    Fiber& fiber(int id) { return *fibers_[id]; }

    // picks the next thread; from == nullptr at the start
    void schedule(Fiber* from)
    {
        ++step_;
        ++total_points;
        if (step_ > max_steps)
            violate("no end after " + std::to_string(max_steps) + " steps (livelock)");
        bool can_go_on = from && from->st == Fiber::ready;
        std::vector<int> opts, cost;
        if (can_go_on)
        {
            opts.push_back(from->id);
            cost.push_back(0);
        }
        int alt = can_go_on ? 1 : 0;
        for (auto& f : fibers_)
            if (f.get() != from && f->st == Fiber::ready)
            {
                opts.push_back(f->id);
                cost.push_back(alt);
            }
        bool any_ready = !opts.empty();
        // a sleeper wakes when someone else has moved, or when nobody else can
        for (auto& f : fibers_)
            if (f->st == Fiber::sleeping && (!any_ready || step_ > f->slept_at + 1))
            {
                opts.push_back(f->id);
                cost.push_back(any_ready ? 1 : 0);
            }
        // time-outs: early ones are deviations
        bool any = !opts.empty();
        for (auto& f : fibers_)
            if (f->st == Fiber::blocked && f->timed)
            {
                opts.push_back(1000 + f->id);
                cost.push_back(any ? 1 : 0);
            }
        // spurious wake-ups of condition waits
        if (any && spurious)
            for (auto& f : fibers_)
                if (f->st == Fiber::blocked && f->wait_on && f->what == "cv.wait")
                {
                    opts.push_back(2000 + f->id);
                    cost.push_back(1);
                }
        if (opts.empty())
        {
            std::string w;
            bool all = true;
            for (auto& f : fibers_)
                if (f->st != Fiber::finished)
                {
                    all = false;
                    w += " thread " + std::to_string(f->id) + " in " + f->what + ";";
                }
            if (all)
            {
                active_ = false;
                setcontext_main();
            }
            violate("deadlock:" + w);
        }
        if (delay)
            for (size_t i = 1; i < cost.size(); ++i)
                cost[i] = 1;
        // options over the budget can never be taken
        size_t k = 0;
        {
            std::vector<int> o2, c2;
            for (size_t i = 0; i < opts.size(); ++i)
                if (spent_ + cost[i] <= bound)
                {
                    o2.push_back(opts[i]);
                    c2.push_back(cost[i]);
                }
            if (!points && can_go_on)
            {
                o2.resize(1);
                c2.resize(1);
            }
            if (o2.empty())
                o2 = { opts[0] }, c2 = { 0 };
            k = choose(o2, c2);
            int o = o2[k];
            Fiber* t = fibers_[o % 1000].get();
            if (t->st == Fiber::sleeping && !any_ready)
            {
                if (++solo_sleeps_ > 50)
                    violate("threads wait for each other forever (only sleepers left): " + t->what);
            }
            else
                solo_sleeps_ = 0;
            if (o >= 1000)
            {
                t->timed_out = o < 2000;
                t->woken = true;
                t->wait_on = nullptr;
            }
            t->st = Fiber::ready;
            t->timed = false;
            switch_to(from, t);
        }
    }
    __attribute__((no_sanitize("thread"))) void switch_to(Fiber* from, Fiber* to)
    {
        if (from == to)
            return;
        if (tracing)
            trace += " ->T" + std::to_string(to->id) + "[" + to->what + "]";
        void* g = __cxxabiv1::__cxa_get_globals();
        if (from)
        {
            memcpy(from->eh, g, 16);
            from->off = race_off;
        }
        race_off = to->off;
        memcpy(g, to->eh, 16);
        cur_ = to;
        if (from)
            swapcontext(&from->ctx, &to->ctx);
        else
            setcontext(&to->ctx);
    }
    // ---- operations
    void point(const char* what)
    {
        Off off;
        cur_->what = what;
        schedule(cur_);
    }
    void block(const void* o, const char* what, bool timed = false)
    {
        Off off;
        cur_->what = what;
        cur_->st = Fiber::blocked;
        cur_->wait_on = o;
        cur_->timed = timed;
        cur_->timed_out = false;
        schedule(cur_);
    }
    void sleep(const char* what = "sleep")
    {
        Off off;
        cur_->what = what;
        cur_->st = Fiber::sleeping;
        cur_->slept_at = step_ + 1;
        schedule(cur_);
    }
};

// Runs body under every schedule within the bound; after each execution, check(error) is called.
// Returns the number of executions.
template<typename Body, typename Check>
uint64_t explore(Sched& s, Body&& body, Check&& check, uint64_t limit = UINT64_MAX)
{
    s.path().clear();
    uint64_t n = 0;
    do
    {
        s.sync_vc.clear();
        s.execute(body);
        ++n;
        if (!check(s.error))
            break;
        if (n >= limit)
            break;
    } while (s.next_path());
    return n;
}

} // namespace mc
