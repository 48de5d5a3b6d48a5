// Runtime of the "mcr" flavour: the compiler's thread-sanitizer instrumentation calls these functions; they check every
// access for a happens-before race and for use after free in the schedule being explored (vector clocks of mc_sched.h).
// This file itself is compiled without instrumentation.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>

#include <execinfo.h>
#include <malloc.h>

#include "mc_sched.h"
#undef mutex
#undef thread
#undef atomic

namespace {
constexpr size_t N = 1 << 21;
struct Cell
{
    uintptr_t addr; // 8-byte granule
    uint32_t epoch; // execution this cell belongs to
    uint16_t freed;
    uint8_t wmask, rmask; // bytes
    int16_t wtid;
    uint32_t wclk;
    int16_t rtid[4];
    uint32_t rclk[4];
    void* wpc;
    void* rpc;
};
Cell* table = nullptr;
uint64_t last_exec = 0;
uint32_t epoch = 1;
std::vector<void*>* quarantine = nullptr;
size_t used = 0;
thread_local bool inside = false;
bool enabled_ = false;

Cell* find(uintptr_t g, bool create)
{
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 43;
    for (size_t k = 0; k < 64; ++k)
    {
        Cell& c = table[(h + k) & (N - 1)];
        if (c.epoch != epoch)
        {
            if (!create)
                return nullptr;
            if (++used > N / 2)
                return nullptr;
            memset(&c, 0, sizeof c);
            c.addr = g;
            c.epoch = epoch;
            c.wtid = -1;
            for (auto& t : c.rtid)
                t = -1;
            return &c;
        }
        if (c.addr == g)
            return &c;
    }
    return nullptr;
}
bool start(bool any = false)
{
    if ((mc::race_off && !any) || inside || !mc::Sched::on())
        return false;
    auto& s = *mc::Sched::instance();
    if (!table)
        table = (Cell*)calloc(N, sizeof(Cell));
    if (s.total_execs != last_exec)
    {
        last_exec = s.total_execs;
        ++epoch;
        used = 0;
        if (quarantine)
        {
            for (void* p : *quarantine)
                free(p);
            quarantine->clear();
        }
        else
            quarantine = new std::vector<void*>();
    }
    return true;
}
bool ordered(mc::Fiber& f, int tid, uint32_t clk) { return tid == f.id || ((size_t)tid < f.vc.size() && f.vc[tid] >= clk); }

void report(const char* what, void* pc, void* other)
{
    std::string m = what;
    void* a[2] = { pc, other };
    inside = true;
    char** n = backtrace_symbols(a, 2);
    if (n)
    {
        m += std::string(" at ") + n[0] + " and " + (other ? n[1] : "?");
    }
    inside = false;
    mc::Sched::instance()->violate(m);
}

void access(uintptr_t a, size_t size, bool write, void* pc)
{
    if (a == (uintptr_t)&mc::race_off || !start())
        return;
    auto& f = *mc::Sched::instance()->cur();
    // the own stack
    if (a >= (uintptr_t)f.stack && a < (uintptr_t)f.stack + mc::STACK)
    {
        // other threads may look at it, so it is recorded like anything else
    }
    uintptr_t e = a + size;
    for (uintptr_t g = a & ~7ull; g < e; g += 8)
    {
        uint8_t mask = 0;
        for (int b = 0; b < 8; ++b)
            if (g + b >= a && g + b < e)
                mask |= 1 << b;
        Cell* c = find(g, true);
        if (!c)
            return;
        if (c->freed)
            report("use after free", pc, c->wpc);
        if (c->wtid >= 0 && (c->wmask & mask) && !ordered(f, c->wtid, c->wclk))
            report(write ? "data race: write and write" : "data race: read and write", pc, c->wpc);
        uint32_t clk = f.vc[f.id];
        if (write)
        {
            if (c->rmask & mask)
                for (int i = 0; i < 4; ++i)
                    if (c->rtid[i] >= 0 && !ordered(f, c->rtid[i], c->rclk[i]))
                        report("data race: write and read", pc, c->rpc);
            if (c->wtid == f.id && c->wclk == clk)
                c->wmask |= mask;
            else
                c->wmask = mask;
            c->wtid = f.id;
            c->wclk = clk;
            c->wpc = pc;
            if ((c->rmask & ~mask) == 0)
            {
                c->rmask = 0;
                for (auto& t : c->rtid)
                    t = -1;
            }
        }
        else
        {
            c->rmask |= mask;
            c->rpc = pc;
            int slot = -1;
            for (int i = 0; i < 4; ++i)
                if (c->rtid[i] == f.id)
                    slot = i;
            if (slot < 0)
                for (int i = 0; i < 4; ++i)
                    if (c->rtid[i] < 0 || ordered(f, c->rtid[i], c->rclk[i]))
                    {
                        slot = i;
                        break;
                    }
            if (slot < 0)
                slot = 3;
            c->rtid[slot] = f.id;
            c->rclk[slot] = clk;
        }
    }
}
void fresh(void* p, size_t n)
{
    if (!start(true))
        return;
    for (uintptr_t g = (uintptr_t)p & ~7ull; g < (uintptr_t)p + n; g += 8)
        if (Cell* c = find(g, false))
        {
            c->freed = 0;
            c->wtid = -1;
            c->wmask = c->rmask = 0;
            for (auto& t : c->rtid)
                t = -1;
        }
}
void* alloc(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    fresh(p, malloc_usable_size(p));
    return p;
}
void release(void* p, void* pc)
{
    if (!p)
        return;
    if (!start())
    {
        free(p);
        return;
    }
    size_t n = malloc_usable_size(p);
    bool oversized = n > 65536;
    if (!oversized)
    {
        auto& f = *mc::Sched::instance()->cur();
        for (uintptr_t g = (uintptr_t)p; g < (uintptr_t)p + n; g += 8)
        {
            Cell* c = find(g, false);
            if (!c)
                continue;
            if (c->freed)
                report("double free", pc, c->wpc);
            if (c->wtid >= 0 && !ordered(f, c->wtid, c->wclk))
                report("data race: free and write", pc, c->wpc);
            for (int i = 0; i < 4; ++i)
                if (c->rtid[i] >= 0 && !ordered(f, c->rtid[i], c->rclk[i]))
                    report("data race: free and read", pc, c->rpc);
            c->freed = 1;
            c->wpc = pc;
        }
    }
    inside = true;
    quarantine->push_back(p);
    inside = false;
}
} // namespace

void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { release(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { release(p, __builtin_return_address(0)); }

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); }                                               \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); }                                               \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); }                                     \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); }                                     \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); }                                      \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
static void sync_(const volatile void* a)
{
    if (start())
    {
        inside = true;
        auto& s = *mc::Sched::instance();
        s.acquire((const void*)a);
        s.release((const void*)a);
        inside = false;
    }
}
#define AT(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { sync_(a); return __atomic_load_n(a, 5); }                 \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sync_(a); __atomic_store_n(a, v, 5); }                 \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sync_(a); return __atomic_exchange_n(a, v, 5); }       \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sync_(a); return __atomic_fetch_add(a, v, 5); }       \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sync_(a); return __atomic_fetch_sub(a, v, 5); }       \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sync_(a); return __atomic_fetch_and(a, v, 5); }       \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sync_(a); return __atomic_fetch_or(a, v, 5); }         \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sync_(a); return __atomic_fetch_xor(a, v, 5); }       \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int)                              \
    { sync_(a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); }                                            \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int)                                \
    { sync_(a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); }                                            \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int)                                    \
    { sync_(a); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void __real___cxa_guard_release(uint64_t* g);
void __wrap___cxa_guard_release(uint64_t* g)
{
    sync_(g);
    __real___cxa_guard_release(g);
}
}
// reference counts are to use their multi-threaded form
extern "C" char __libc_single_threaded;
static bool multi_threaded = (__libc_single_threaded = 0, true);
