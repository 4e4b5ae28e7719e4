// Controllable stand-in for the oneTBB API subset used by ericw-tools, so the monitors can pick the
// schedule (env VP_SCHED) and ThreadSanitizer sees every synchronisation.  Every schedule it produces
// is one TBB is allowed to produce (unordered loop bodies, unordered independent tasks).
//   VP_SCHED = serial | reverse | shuffle:SEED | threads:N[:SEED]     (default threads:8)
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <vector>
namespace tbb
{
namespace vp
{
enum class mode { serial, reverse, shuffle, threads };
struct config
{
    mode m = mode::threads;
    int n = 8;
    uint64_t seed = 0;
    config() { set(getenv("VP_SCHED")); }
    void set(const char *s)
    {
        m = mode::threads, n = 8, seed = 0;
        if (!s || !*s)
            return;
        if (!strncmp(s, "serial", 6))
            m = mode::serial;
        else if (!strncmp(s, "reverse", 7))
            m = mode::reverse;
        else if (!strncmp(s, "shuffle:", 8))
            m = mode::shuffle, seed = strtoull(s + 8, nullptr, 10) * 2654435761u + 1;
        else if (!strncmp(s, "threads:", 8)) {
            char *e;
            n = std::max(1, (int)strtol(s + 8, &e, 10));
            if (*e == ':')
                seed = strtoull(e + 1, nullptr, 10) * 2654435761u + 1;
        }
    }
};
inline config &cfg() { static config c; return c; }
inline std::atomic<int> &limit() { static std::atomic<int> l{1 << 20}; return l; }
inline std::atomic<int> &live() { static std::atomic<int> l{1}; return l; }
inline std::atomic<uint64_t> &counter() { static std::atomic<uint64_t> c{0}; return c; }
inline uint64_t rnd()
{
    uint64_t z = cfg().seed + counter().fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline void jitter()
{
    if (!cfg().seed || cfg().m != mode::threads)
        return;
    auto r = rnd() % 64;
    if (r == 0)
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    else if (r < 12)
        std::this_thread::yield();
}
inline int max_threads() { return cfg().m == mode::threads ? std::min(cfg().n, limit().load()) : 1; }
inline bool take()
{
    int l = live().load();
    while (l < max_threads())
        if (live().compare_exchange_weak(l, l + 1))
            return true;
    return false;
}
inline void give() { live().fetch_sub(1); }

// run body(0..n-1) in any order / concurrently
template<class F>
void run_all(size_t n, F &&body)
{
    if (!n)
        return;
    auto &c = cfg();
    std::vector<size_t> order;
    bool ordered = true;
    if (c.m == mode::reverse || c.m == mode::shuffle || (c.m == mode::threads && c.seed)) {
        ordered = false;
        order.resize(n);
        for (size_t i = 0; i < n; i++)
            order[i] = i;
        if (c.m == mode::reverse)
            std::reverse(order.begin(), order.end());
        else
            for (size_t i = n; i > 1; i--)
                std::swap(order[i - 1], order[rnd() % i]);
    }
    std::atomic<size_t> next{0};
    std::atomic<bool> stop{false};
    std::mutex m;
    std::exception_ptr err;
    auto work = [&] {
        try {
            for (size_t k; !stop.load(std::memory_order_relaxed) && (k = next.fetch_add(1)) < n;) {
                jitter();
                body(ordered ? k : order[k]);
            }
        } catch (...) {
            std::lock_guard g(m);
            if (!err)
                err = std::current_exception();
            stop = true;
        }
    };
    std::vector<std::thread> ts;
    while (ts.size() + 1 < n && take())
        ts.emplace_back([&] { work(); });
    work();
    for (auto &t : ts)
        t.join(), give();
    if (err)
        std::rethrow_exception(err);
}
} // namespace vp

template<class Index, class F>
void parallel_for(Index first, Index last, const F &f)
{
    if (last > first)
        vp::run_all(static_cast<size_t>(last - first), [&](size_t i) { f(static_cast<Index>(first + static_cast<Index>(i))); });
}
template<class C, class F>
void parallel_for_each(C &c, const F &f)
{
    using R = decltype(*std::begin(c));
    std::vector<std::remove_reference_t<R> *> ptrs;
    for (auto &x : c)
        ptrs.push_back(std::addressof(x));
    vp::run_all(ptrs.size(), [&](size_t i) { f(*ptrs[i]); });
}
template<class C, class F>
void parallel_for_each(const C &c, const F &f)
{
    std::vector<std::remove_reference_t<decltype(*std::begin(c))> *> ptrs;
    for (auto &x : c)
        ptrs.push_back(std::addressof(x));
    vp::run_all(ptrs.size(), [&](size_t i) { f(*ptrs[i]); });
}
class task_group
{
    std::vector<std::function<void()>> pending;
    std::vector<std::thread> ts;
    std::mutex m;
    std::exception_ptr err;
    void call(const std::function<void()> &f)
    {
        try {
            vp::jitter();
            f();
        } catch (...) {
            std::lock_guard g(m);
            if (!err)
                err = std::current_exception();
        }
    }

public:
    template<class F>
    void run(F &&f)
    {
        if (vp::cfg().m == vp::mode::threads && vp::take()) {
            std::function<void()> fn = f;
            ts.emplace_back([this, fn] { call(fn); });
        } else
            pending.emplace_back(f);
    }
    void wait()
    {
        auto &c = vp::cfg();
        if (c.m == vp::mode::reverse || ((c.m == vp::mode::shuffle || c.seed) && (vp::rnd() & 1)))
            std::reverse(pending.begin(), pending.end());
        for (auto &f : pending)
            call(f);
        pending.clear();
        for (auto &t : ts)
            t.join(), vp::give();
        ts.clear();
        if (err)
            std::rethrow_exception(err);
    }
    ~task_group()
    {
        for (auto &t : ts)
            t.join(), vp::give();
    }
};
template<class T>
class concurrent_vector
{
    std::deque<T> d;
    mutable std::mutex m;

public:
    using iterator = typename std::deque<T>::iterator;
    concurrent_vector() = default;
    concurrent_vector(const concurrent_vector &o) : d(o.d) { }
    concurrent_vector(concurrent_vector &&o) : d(std::move(o.d)) { }
    concurrent_vector &operator=(concurrent_vector &&o) { d = std::move(o.d); return *this; }
    struct handle
    {
        T *p;
        T &operator*() const { return *p; }
        T *operator->() const { return p; }
    };
    template<class... A>
    handle emplace_back(A &&...a)
    {
        std::lock_guard g(m);
        return {std::addressof(d.emplace_back(std::forward<A>(a)...))};
    }
    handle grow_by(size_t n)
    {
        std::lock_guard g(m);
        T *first = nullptr;
        for (size_t i = 0; i < n; i++) {
            T &t = d.emplace_back();
            if (!first)
                first = &t;
        }
        return {first};
    }
    handle push_back(const T &t) { return emplace_back(t); }
    handle push_back(T &&t) { return emplace_back(std::move(t)); }
    size_t size() const { std::lock_guard g(m); return d.size(); }
    bool empty() const { return size() == 0; }
    void clear() { d.clear(); }
    void reserve(size_t) { }
    T &operator[](size_t i) { std::lock_guard g(m); return d[i]; }
    auto begin() { return d.begin(); }
    auto end() { return d.end(); }
    auto begin() const { return d.begin(); }
    auto end() const { return d.end(); }
};
template<class T>
using scalable_allocator = std::allocator<T>;
class global_control
{
    int old;

public:
    enum parameter { max_allowed_parallelism };
    global_control(parameter, size_t n) : old(vp::limit().exchange((int)n)) { }
    ~global_control() { vp::limit() = old; }
};
} // namespace tbb
