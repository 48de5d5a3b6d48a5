// Forced into every translation unit of the "mc" flavour after all standard, ANTLR and JSON headers: the project's
// threads, mutexes, condition variables and atomics become operations of the controlled scheduler.
#pragma once
#include "mc_sched.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <shared_mutex>
#include <stdexcept>
#include <thread>

namespace std {
class mc_mutex
{
protected:
    int owner_ = -1; // thread id
    int depth_ = 0;
    uint32_t magic_ = 0x4d555458;
    bool recursive_ = false;

    void alive(const char* op) const
    {
        if (magic_ != 0x4d555458 && mc::Sched::on())
            mc::Sched::instance()->violate(std::string(op) + " of a destroyed mutex");
    }

public:
    using native_handle_type = void*;
    constexpr mc_mutex() = default;
    explicit mc_mutex(bool r)
        : recursive_(r)
    {}
    mc_mutex(const mc_mutex&) = delete;
    mc_mutex& operator=(const mc_mutex&) = delete;
    ~mc_mutex()
    {
        if (mc::Sched::on() && owner_ != -1)
            mc::Sched::instance()->violate("a locked mutex is destroyed");
        magic_ = 0xdead;
    }
    void lock()
    {
        mc::Off off;
        if (!mc::Sched::on())
        {
            owner_ = 0;
            return;
        }
        auto& s = *mc::Sched::instance();
        alive("lock");
        s.point("lock");
        alive("lock");
        while (owner_ != -1)
        {
            if (owner_ == s.cur()->id)
            {
                if (recursive_)
                {
                    ++depth_;
                    return;
                }
                s.violate("a thread locks a mutex it already holds");
            }
            s.block(this, "lock");
            alive("lock");
        }
        owner_ = s.cur()->id;
        s.acquire(this);
    }
    bool try_lock()
    {
        mc::Off off;
        if (!mc::Sched::on())
        {
            owner_ = 0;
            return true;
        }
        auto& s = *mc::Sched::instance();
        s.point("try_lock");
        if (owner_ != -1)
        {
            if (recursive_ && owner_ == s.cur()->id)
            {
                ++depth_;
                return true;
            }
            return false;
        }
        owner_ = s.cur()->id;
        s.acquire(this);
        return true;
    }
    void unlock()
    {
        mc::Off off;
        if (!mc::Sched::on())
        {
            owner_ = -1;
            return;
        }
        auto& s = *mc::Sched::instance();
        alive("unlock");
        if (owner_ != s.cur()->id)
            s.violate(owner_ == -1 ? "an unlocked mutex is unlocked" : "a mutex is unlocked by a thread that does not hold it");
        if (depth_)
        {
            --depth_;
            return;
        }
        s.release(this);
        owner_ = -1;
        s.wake_all(this);
    }
    // for condition variables
    void cv_release()
    {
        mc::Off off;
        auto& s = *mc::Sched::instance();
        if (owner_ != s.cur()->id)
            s.violate("a condition variable waits with a mutex the thread does not hold");
        s.release(this);
        owner_ = -1;
        s.wake_all(this);
    }
    void cv_acquire()
    {
        mc::Off off;
        auto& s = *mc::Sched::instance();
        while (owner_ != -1)
            s.block(this, "relock");
        owner_ = s.cur()->id;
        s.acquire(this);
    }
};
struct mc_recursive_mutex : mc_mutex
{
    mc_recursive_mutex()
        : mc_mutex(true)
    {}
};
struct mc_shared_mutex : mc_mutex
{
    // readers exclude each other as well: fewer behaviours, no new ones
    void lock_shared() { lock(); }
    void unlock_shared() { unlock(); }
    bool try_lock_shared() { return try_lock(); }
};

class mc_condition_variable
{
    uint32_t magic_ = 0x434f4e44;
    void alive() const
    {
        if (magic_ != 0x434f4e44 && mc::Sched::on())
            mc::Sched::instance()->violate("use of a destroyed condition variable");
    }
    template<typename L>
    bool wait_(L& l, bool timed)
    {
        mc::Off off;
        auto& s = *mc::Sched::instance();
        alive();
        s.point("cv.wait enter");
        if (!l.owns_lock())
            s.violate("a condition variable waits without a lock");
        l.mutex()->cv_release();
        s.cur()->woken = false;
        s.block(this, "cv.wait", timed);
        bool to = s.cur()->timed_out;
        s.cur()->what = "cv.woken";
        l.mutex()->cv_acquire();
        return !to;
    }

public:
    mc_condition_variable() = default;
    mc_condition_variable(const mc_condition_variable&) = delete;
    ~mc_condition_variable()
    {
        if (mc::Sched::on() && !mc::Sched::instance()->waiters(this).empty())
            mc::Sched::instance()->violate("a condition variable is destroyed while a thread waits on it");
        magic_ = 0xdead;
    }
    void notify_one() noexcept
    {
        mc::Off off;
        if (!mc::Sched::on())
            return;
        auto& s = *mc::Sched::instance();
        alive();
        s.point("notify_one");
        alive();
        auto w = s.waiters(this);
        if (w.empty())
            return;
        std::vector<int> o, c;
        for (auto* f : w)
        {
            o.push_back(3000 + f->id);
            c.push_back(0);
        }
        auto* f = w[s.choose(o, c)];
        f->st = mc::Fiber::ready;
        f->wait_on = nullptr;
        f->woken = true;
        f->timed = false;
    }
    void notify_all() noexcept
    {
        mc::Off off;
        if (!mc::Sched::on())
            return;
        auto& s = *mc::Sched::instance();
        alive();
        s.point("notify_all");
        alive();
        for (auto* f : s.waiters(this))
            f->timed = false;
        s.wake_all(this);
    }
    template<typename L>
    void wait(L& l)
    {
        if (!mc::Sched::on())
            return;
        wait_(l, false);
    }
    template<typename L, typename P>
    void wait(L& l, P p)
    {
        while (!p())
            wait(l);
    }
    template<typename L, typename D>
    std::cv_status wait_for(L& l, const D&)
    {
        return wait_(l, true) ? std::cv_status::no_timeout : std::cv_status::timeout;
    }
    template<typename L, typename D, typename P>
    bool wait_for(L& l, const D& d, P p)
    {
        while (!p())
            if (wait_for(l, d) == std::cv_status::timeout)
                return p();
        return true;
    }
    template<typename L, typename D>
    std::cv_status wait_until(L& l, const D& d)
    {
        return wait_for(l, d);
    }
    template<typename L, typename D, typename P>
    bool wait_until(L& l, const D& d, P p)
    {
        return wait_for(l, d, p);
    }
};

template<typename T>
class mc_atomic
{
    T v_ {};
    static void pt(const char* w)
    {
        if (mc::Sched::on())
            mc::Sched::instance()->point(w);
    }
    void sync() const
    {
        if (mc::Sched::on())
        {
            mc::Sched::instance()->acquire(this);
            mc::Sched::instance()->release(this);
        }
    }

public:
    using value_type = T;
    // every load of any atomic flag (used to enumerate cancellation points)
    static std::function<void(const mc_atomic*)>& on_load()
    {
        static std::function<void(const mc_atomic*)> f;
        return f;
    }
    mc_atomic() = default;
    constexpr mc_atomic(T v)
        : v_(v)
    {}
    mc_atomic(const mc_atomic&) = delete;
    mc_atomic& operator=(const mc_atomic&) = delete;
    T load(std::memory_order = std::memory_order_seq_cst) const
    {
        mc::Off off;
        if (on_load())
            on_load()(this);
        pt("atomic.load");
        sync();
        return v_;
    }
    void store(T v, std::memory_order = std::memory_order_seq_cst)
    {
        mc::Off off;
        pt("atomic.store");
        sync();
        v_ = v;
    }
    T exchange(T v, std::memory_order = std::memory_order_seq_cst)
    {
        mc::Off off;
        pt("atomic.exchange");
        sync();
        T o = v_;
        v_ = v;
        return o;
    }
    bool compare_exchange_strong(T& e, T v, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst)
    {
        mc::Off off;
        pt("atomic.cas");
        sync();
        if (v_ == e)
        {
            v_ = v;
            return true;
        }
        e = v_;
        return false;
    }
    bool compare_exchange_weak(T& e, T v, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst)
    {
        return compare_exchange_strong(e, v);
    }
    operator T() const { return load(); }
    T operator=(T v)
    {
        store(v);
        return v;
    }
    template<typename U = T>
    U fetch_add(U d, std::memory_order = std::memory_order_seq_cst)
    {
        mc::Off off;
        pt("atomic.add");
        sync();
        T o = v_;
        v_ = v_ + d;
        return o;
    }
    template<typename U = T>
    U fetch_sub(U d, std::memory_order = std::memory_order_seq_cst)
    {
        mc::Off off;
        pt("atomic.sub");
        sync();
        T o = v_;
        v_ = v_ - d;
        return o;
    }
    template<typename U = T>
    U operator++()
    {
        return fetch_add(U(1)) + 1;
    }
    template<typename U = T>
    U operator++(int)
    {
        return fetch_add(U(1));
    }
    template<typename U = T>
    U operator--()
    {
        return fetch_sub(U(1)) - 1;
    }
    template<typename U = T>
    U operator--(int)
    {
        return fetch_sub(U(1));
    }
    // without a scheduling point, for harnesses
    T peek() const
    {
        mc::Off off;
        return v_;
    }
    void poke(T v)
    {
        mc::Off off;
        v_ = v;
    }
};
using mc_atomic_bool = mc_atomic<bool>;
using mc_atomic_int = mc_atomic<int>;

class mc_thread
{
    int id_ = -1;

public:
    using id = int;
    mc_thread() = default;
    template<typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, mc_thread>>>
    explicit mc_thread(F&& f, A&&... a)
    {
        if (!mc::Sched::on())
            throw std::runtime_error("thread outside of the scheduler");
        auto& s = *mc::Sched::instance();
        // arguments are copied, as std::thread does
        auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
        id_ = s.spawn([t = std::move(t)]() {
            std::apply([](auto&&... x) { std::invoke(std::move(x)...); }, *t);
        });
        s.point("thread started");
    }
    mc_thread(const mc_thread&) = delete;
    mc_thread(mc_thread&& o) noexcept
        : id_(o.id_)
    {
        o.id_ = -1;
    }
    mc_thread& operator=(mc_thread&& o) noexcept
    {
        if (id_ != -1)
            die("a joinable thread object is overwritten");
        id_ = o.id_;
        o.id_ = -1;
        return *this;
    }
    ~mc_thread()
    {
        if (id_ != -1)
            die("a joinable thread object is destroyed");
    }
    static void die(const char* m)
    {
        if (mc::Sched::on())
            mc::Sched::instance()->violate(m);
    }
    bool joinable() const { return id_ != -1; }
    void join()
    {
        mc::Off off;
        auto& s = *mc::Sched::instance();
        s.point("join");
        if (id_ == -1)
            s.violate("join of a thread that is not joinable");
        if (id_ == s.cur()->id)
            s.violate("a thread joins itself");
        auto& f = s.fiber(id_);
        while (f.st != mc::Fiber::finished)
            s.block(&f, "join");
        s.acquire(&f);
        id_ = -1;
    }
    void detach() { id_ = -1; }
    id get_id() const { return id_; }
    static unsigned hardware_concurrency() { return 4; }
};
namespace mc_this_thread {
inline int get_id() { return mc::Sched::on() ? mc::Sched::instance()->cur()->id : -1; }
inline void yield()
{
    if (mc::Sched::on())
        mc::Sched::instance()->sleep("yield");
}
template<typename D>
void sleep_for(const D&)
{
    if (mc::Sched::on())
        mc::Sched::instance()->sleep();
}
template<typename D>
void sleep_until(const D&)
{
    if (mc::Sched::on())
        mc::Sched::instance()->sleep();
}
} // namespace mc_this_thread
} // namespace std

#define mutex mc_mutex
#define recursive_mutex mc_recursive_mutex
#define shared_mutex mc_shared_mutex
#define condition_variable mc_condition_variable
#define condition_variable_any mc_condition_variable
#define atomic mc_atomic
#define atomic_bool mc_atomic_bool
#define atomic_int mc_atomic_int
#define thread mc_thread
#define this_thread mc_this_thread
