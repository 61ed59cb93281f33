// Controlled OpenMP runtime, see omp_rt.hpp.  Compiled without instrumentation.
#include "omp_rt.hpp"
#include <alloca.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>

extern "C" char __libc_single_threaded;

namespace
{
    using u64 = std::uint64_t;
    using namespace omprt;

    struct Acc
    {
        // last segment (number of tasks created before) of the accesses; -1 none
        int r = -1, w = -1, ar = -1, aw = -1;
        unsigned locks = ~0u;
    };

    struct Actor
    {
        bool task = false;
        int thread = 0, created = 0; // tasks: index of creation
        std::unordered_map<std::uintptr_t, Acc> acc;
    };

    struct Task
    {
        void (*fn)(void*);
        char* arg;
        bool done = false;
        int phase = 0;
    };

    struct Range
    {
        const char* p;
        std::size_t n;
        std::string name;
    };

    Plan plan;
    std::vector<Range>& ranges()
    {
        static std::vector<Range> r;
        return r;
    }
    std::vector<int>& ntasks()
    {
        static std::vector<int> r;
        return r;
    }
    std::vector<u64>& hsh()
    {
        static std::vector<u64> r;
        return r;
    }
    std::vector<std::string>& conf()
    {
        static std::vector<std::string> r;
        return r;
    }
    std::vector<Task>& pend()
    {
        static std::vector<Task> r;
        return r;
    }
    std::vector<Actor*>& actors()
    {
        static std::vector<Actor*> r;
        return r;
    }

    // plain state read by the hooks
    bool in_region      = false;
    bool recording      = false;
    Actor* cur          = nullptr;
    char* task_base     = nullptr; // stack of the running task begins here
    char* region_base   = nullptr;
    int cur_thread      = 0;
    int team            = 1;
    int guard_depth     = 0;
    unsigned locks      = 0;
    bool single_free    = false;
    bool single_here    = false;
    int cur_region      = -1;
    std::size_t ev_pos  = 0;
    int n_unsupported   = 0;
    u64 n_rec           = 0;
    Actor* creator      = nullptr;
    int phase           = 0;
    std::size_t live    = 0; // actors of earlier regions

    bool busy           = false; // inside the runtime

    struct Busy
    {
        bool old = busy;
        Busy()
        {
            busy = true;
        }
        ~Busy()
        {
            busy = old;
        }
    };

    // memory allocated inside a region is not reused before the region ends
    char* arena      = nullptr;
    std::size_t used = 0;
    constexpr std::size_t arena_size = std::size_t(1) << 28;
    struct Own
    {
        char *lo, *hi;
        Actor* who;
    };
    Own own[1 << 16];
    int n_own = 0;

    bool in_arena(const void* p)
    {
        return arena && p >= arena && p < arena + arena_size;
    }

    void* arena_alloc(std::size_t n, std::size_t al)
    {
        if (!arena)
        {
            arena = static_cast<char*>(std::malloc(arena_size));
        }
        used = (used + al - 1) / al * al;
        if (used + n + 64 > arena_size || n_own >= (1 << 16) - 1)
        {
            std::fprintf(stderr, "controlled runtime: arena exhausted\n");
            std::abort();
        }
        char* p = arena + used;
        used += n + 64;
        if (n_own && own[n_own - 1].who == cur && p - own[n_own - 1].hi < 256)
        {
            own[n_own - 1].hi = p + n;
        }
        else
        {
            own[n_own++] = {p, p + n, cur};
        }
        return p;
    }

    Actor* owner(const char* p)
    {
        int lo = 0, hi = n_own;
        while (lo < hi)
        {
            int m = (lo + hi) / 2;
            if (own[m].hi <= p)
            {
                lo = m + 1;
            }
            else
            {
                hi = m;
            }
        }
        return lo < n_own && own[lo].lo <= p ? own[lo].who : nullptr;
    }

    void access(const void* a, std::size_t n, bool write, bool atomic)
    {
        if (!recording || !cur || guard_depth || busy)
        {
            return;
        }
        char* p = static_cast<char*>(const_cast<void*>(a));
        if (cur->task && p < task_base && p > static_cast<char*>(__builtin_frame_address(0)) - 65536)
        {
            return; // own stack
        }
        if (in_arena(p) && owner(p) == cur && (cur->task || cur != creator))
        {
            return; // own heap
        }
        busy    = true;
        int seg = cur->task ? 0 : static_cast<int>(pend().size());
        for (std::size_t i = 0; i < n; ++i)
        {
            auto& x = cur->acc[reinterpret_cast<std::uintptr_t>(p + i)];
            (write ? (atomic ? x.aw : x.w) : (atomic ? x.ar : x.r)) = seg;
            x.locks &= locks;
        }
        ++n_rec;
        busy = false;
    }

    // compare-and-swap loops read the value before the exchange
    void rmw(const void* a, std::size_t n)
    {
        if (recording && cur && !busy && !guard_depth)
        {
            busy = true;
            for (std::size_t i = 0; i < n; ++i)
            {
                auto it = cur->acc.find(reinterpret_cast<std::uintptr_t>(a) + i);
                if (it != cur->acc.end() && it->second.w < 0)
                {
                    it->second.r = -1;
                }
            }
            busy = false;
        }
        access(a, n, true, true);
    }

    std::string name(std::uintptr_t x)
    {
        for (auto& r : ranges())
        {
            auto lo = reinterpret_cast<std::uintptr_t>(r.p);
            if (x >= lo && x < lo + r.n)
            {
                return r.name + "+" + std::to_string(x - lo);
            }
        }
        char* p = reinterpret_cast<char*>(x);
        if (in_arena(p))
        {
            return "memory allocated in the region";
        }
        if (p < region_base && p > region_base - (1 << 20))
        {
            return "the stack of the region";
        }
        if (p >= region_base && p < region_base + (1 << 20))
        {
            return "a variable of the caller";
        }
        return "shared memory";
    }

    bool clash(const Acc& a, const Acc& b)
    {
        if (a.locks & b.locks)
        {
            return false;
        }
        bool aw = a.w >= 0, aa = a.aw >= 0, ar = a.r >= 0, aar = a.ar >= 0;
        bool bw = b.w >= 0, ba = b.aw >= 0, br = b.r >= 0, bar = b.ar >= 0;
        return (aw && (bw || ba || br || bar)) || (bw && (aa || ar || aar)) || (aa && br) || (ba && ar);
    }

    void report(const std::string& s)
    {
        if (conf().size() < 20)
        {
            conf().push_back("parallel region " + std::to_string(cur_region) + ": " + s);
        }
    }

    void analyse()
    {
        auto& A = actors();
        // pairs of tasks on different threads, implicit tasks of different threads
        for (std::size_t i = live; i < A.size(); ++i)
        {
            for (std::size_t j = i + 1; j < A.size(); ++j)
            {
                auto *a = A[i], *b = A[j];
                if (a->thread == b->thread && !(a->task != b->task))
                {
                    continue;
                }
                if (a->acc.size() > b->acc.size())
                {
                    std::swap(a, b);
                }
                for (auto& [x, ra] : a->acc)
                {
                    auto it = b->acc.find(x);
                    if (it == b->acc.end())
                    {
                        continue;
                    }
                    Acc p = ra, q = it->second;
                    char* ptr = reinterpret_cast<char*>(x);
                    bool stk  = ptr < region_base && ptr > region_base - (1 << 20);
                    if (a->task != b->task)
                    {
                        auto* t = a->task ? a : b;
                        auto* m = a->task ? b : a;
                        auto& s = a->task ? q : p;
                        if (m == creator)
                        {
                            // only what the creating task does after the creation is concurrent
                            auto cut = [&](int& v)
                            {
                                if (v <= t->created)
                                {
                                    v = -1;
                                }
                            };
                            cut(s.r), cut(s.w), cut(s.ar), cut(s.aw);
                        }
                        else if (stk || m->thread == t->thread)
                        {
                            continue;
                        }
                    }
                    else if (!a->task && stk)
                    {
                        continue; // implicit tasks have stacks of their own
                    }
                    if (clash(p, q))
                    {
                        auto who = [&](Actor* z)
                        {
                            return z->task ? "task " + std::to_string(z->created) : z == creator ? std::string("the task-creating thread") : "thread " + std::to_string(z->thread);
                        };
                        report("unordered conflicting accesses of " + who(A[i]) + " and " + who(A[j]) + " to " + name(x));
                        return;
                    }
                }
            }
        }
    }

    __attribute__((noinline)) void scribble()
    {
        volatile char* p = static_cast<volatile char*>(alloca(200000));
        for (int i = 0; i < 200000; ++i)
        {
            p[i] = static_cast<char>(0xA5);
        }
    }

    __attribute__((noinline)) void run_task(std::size_t k)
    {
        auto& v = pend();
        if (k >= v.size() || v[k].done)
        {
            return;
        }
        v[k].done = true;
        int th    = cur_region == plan.region && k < plan.thr.size() ? plan.thr[k] : static_cast<int>(k >> plan.pattern) % team;
        auto* old = cur;
        auto ob = task_base;
        auto ot = cur_thread;
        bool os = single_here;
        if (recording)
        {
            Busy b_;
            auto* a    = new Actor;
            a->task    = true;
            a->thread  = th;
            a->created = static_cast<int>(k);
            actors().push_back(a);
            cur = a;
        }
        else
        {
            cur = nullptr;
        }
        task_base  = static_cast<char*>(__builtin_frame_address(0));
        cur_thread = th;
        Task t     = v[k];
        t.fn(t.arg);
        cur         = old;
        task_base   = ob;
        cur_thread  = ot;
        single_here = os;
    }

    bool inside_task()
    {
        return task_base != nullptr;
    }

    void advance() // executes planned tasks up to the next creation
    {
        if (cur_region != plan.region || inside_task())
        {
            return;
        }
        while (ev_pos < plan.ev.size() && plan.ev[ev_pos] >= 0)
        {
            run_task(static_cast<std::size_t>(plan.ev[ev_pos++]));
        }
    }

    void drain()
    {
        if (cur_region == plan.region)
        {
            for (; ev_pos < plan.ev.size(); ++ev_pos)
            {
                if (plan.ev[ev_pos] >= 0)
                {
                    run_task(static_cast<std::size_t>(plan.ev[ev_pos]));
                }
            }
        }
        for (std::size_t k = 0; k < pend().size(); ++k)
        {
            run_task(k);
        }
    }
}

namespace omprt
{
    void reset(const Plan& p)
    {
        plan = p;
        for (auto* a : actors())
        {
            delete a;
        }
        actors().clear();
        live  = 0;
        used  = 0;
        n_own = 0;
        ntasks().clear();
        hsh().clear();
        conf().clear();
        cur_region    = -1;
        n_unsupported = 0;
    }

    void watch(const void* p, std::size_t n, const std::string& nm)
    {
        ranges().push_back({static_cast<const char*>(p), n, nm});
    }

    void unwatch()
    {
        ranges().clear();
    }

    const std::vector<int>& tasks()
    {
        return ntasks();
    }

    const std::vector<u64>& hashes()
    {
        return hsh();
    }

    const std::vector<std::string>& conflicts()
    {
        return conf();
    }

    u64 recorded()
    {
        return n_rec;
    }

    int unsupported()
    {
        return n_unsupported;
    }
}

void* operator new(std::size_t n)
{
    if (in_region && cur && !busy && !guard_depth)
    {
        return arena_alloc(n, 64);
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
    {
        throw std::bad_alloc();
    }
    return p;
}

void* operator new(std::size_t n, std::align_val_t a)
{
    if (in_region && cur && !busy && !guard_depth)
    {
        return arena_alloc(n, std::max<std::size_t>(64, static_cast<std::size_t>(a)));
    }
    void* p = std::aligned_alloc(static_cast<std::size_t>(a), (n + static_cast<std::size_t>(a)) / static_cast<std::size_t>(a) * static_cast<std::size_t>(a));
    if (!p)
    {
        throw std::bad_alloc();
    }
    return p;
}

void operator delete(void* p) noexcept
{
    if (p && !in_arena(p))
    {
        std::free(p);
    }
}
void operator delete(void* p, std::size_t) noexcept
{
    operator delete(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    operator delete(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept
{
    operator delete(p);
}

extern "C"
{
    int omp_get_thread_num()
    {
        return cur_thread;
    }
    int omp_get_max_threads()
    {
        return in_region ? team : plan.threads;
    }
    int omp_get_num_threads()
    {
        return team;
    }
    int omp_get_num_procs()
    {
        return plan.threads;
    }
    int omp_in_parallel()
    {
        return in_region && team > 1;
    }
    void omp_set_num_threads(int)
    {
    }
    double omp_get_wtime()
    {
        return 0;
    }

    __attribute__((noinline)) static void call(void (*fn)(void*), void* data)
    {
        fn(data);
    }

    void GOMP_parallel(void (*fn)(void*), void* data, unsigned nthreads, unsigned)
    {
        if (in_region) // nested region: one thread
        {
            bool f = single_free, h = single_here;
            single_free = true;
            fn(data);
            single_free = f;
            single_here = h;
            return;
        }
        __libc_single_threaded = 0;
        ++cur_region;
        team      = nthreads ? static_cast<int>(nthreads) : plan.threads;
        in_region = true;
        recording = plan.record && team > 1;
        pend().clear();
        pend().reserve(4096);
        ev_pos      = 0;
        single_free = true;
        region_base = static_cast<char*>(__builtin_frame_address(0));
        creator     = nullptr;
        phase       = 0;
        static Actor dummy; // makes allocations inside regions recognisable
        for (int k = 0; k < team; ++k)
        {
            int t      = (plan.single + k) % team;
            cur_thread = t;
            cur        = &dummy;
            if (recording)
            {
                Busy b_;
                cur         = new Actor;
                cur->thread = t;
                actors().push_back(cur);
                creator = creator ? creator : cur;
            }
            single_here = false;
            call(fn, data);
            cur = nullptr;
        }
        if (plan.scribble)
        {
            scribble();
        }
        cur_thread = plan.single;
        drain();
        ntasks().push_back(static_cast<int>(pend().size()));
        if (recording)
        {
            Busy b_;
            analyse();
            live = actors().size(); // kept: they own memory of the execution
        }
        u64 h = 1469598103934665603ull;
        for (auto& r : ranges())
        {
            for (std::size_t i = 0; i < r.n; ++i)
            {
                h = (h ^ static_cast<unsigned char>(r.p[i])) * 1099511628211ull;
            }
        }
        hsh().push_back(h);
        for (auto& t : pend())
        {
            std::free(t.arg);
        }
        pend().clear();
        recording  = false;
        in_region  = false;
        cur        = nullptr;
        cur_thread = 0;
        team       = 1;
    }

    bool GOMP_single_start()
    {
        bool r      = single_free;
        single_free = false;
        return r;
    }

    void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned, void** dep, int, void*)
    {
        if (dep)
        {
            ++n_unsupported;
        }
        char* arg = static_cast<char*>(std::malloc(static_cast<std::size_t>(size + align + 64)));
        // keep the malloc'ed address for free: alignment of malloc is enough unless asked for more
        char* al = arg;
        if (align > 16)
        {
            al = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(arg) + static_cast<std::uintptr_t>(align) - 1) / static_cast<std::uintptr_t>(align) * static_cast<std::uintptr_t>(align));
        }
        if (cpy)
        {
            cpy(al, data);
        }
        else
        {
            std::memcpy(al, data, static_cast<std::size_t>(size));
        }
        if (!if_clause || !in_region || team == 1)
        {
            bool r    = recording;
            auto* c   = cur;
            if (in_region && team == 1)
            {
                {
                    Busy b_;
                    pend().push_back({fn, arg, true});
                }
                fn(al);
            }
            else
            {
                fn(al);
                std::free(arg);
            }
            recording = r;
            cur       = c;
            return;
        }
        {
            Busy b_;
            pend().push_back({fn, al, false});
        }
        if (al != arg)
        {
            n_unsupported += 1; // would need a separate base for free
        }
        if (!inside_task())
        {
            if (cur_region == plan.region && ev_pos < plan.ev.size() && plan.ev[ev_pos] == -1)
            {
                ++ev_pos;
            }
            advance();
        }
    }

    void GOMP_barrier()
    {
        if (!inside_task() && cur_thread == plan.single)
        {
            drain();
        }
    }
    void GOMP_taskwait()
    {
        if (!inside_task())
        {
            drain();
        }
        else
        {
            ++n_unsupported;
        }
    }
    void GOMP_taskyield()
    {
    }
    void GOMP_taskgroup_start()
    {
    }
    void GOMP_taskgroup_end()
    {
        GOMP_taskwait();
    }
    void GOMP_atomic_start()
    {
        locks |= 1;
    }
    void GOMP_atomic_end()
    {
        locks &= ~1u;
    }
    void GOMP_critical_start()
    {
        locks |= 2;
    }
    void GOMP_critical_end()
    {
        locks &= ~2u;
    }
    void GOMP_critical_name_start(void** p)
    {
        locks |= 4u << (reinterpret_cast<std::uintptr_t>(p) / 8 % 24);
    }
    void GOMP_critical_name_end(void** p)
    {
        locks &= ~(4u << (reinterpret_cast<std::uintptr_t>(p) / 8 % 24));
    }

    // dynamic worksharing loops: chunk c belongs to thread c modulo the team
    static long l_end, l_incr, l_chunk, l_start;
    static long l_next[64];
    static bool l_open[64];

    static bool next_chunk(long* a, long* b)
    {
        long lo = l_start + l_next[cur_thread] * l_chunk * l_incr;
        if (l_incr > 0 ? lo >= l_end : lo <= l_end)
        {
            l_open[cur_thread] = false;
            return false;
        }
        l_next[cur_thread] += team;
        long hi = lo + l_chunk * l_incr;
        *a      = lo;
        *b      = l_incr > 0 ? (hi < l_end ? hi : l_end) : (hi > l_end ? hi : l_end);
        return true;
    }
    bool GOMP_loop_dynamic_start(long s, long e, long inc, long chunk, long* a, long* b)
    {
        l_start = s, l_end = e, l_incr = inc, l_chunk = chunk ? chunk : 1;
        l_next[cur_thread] = cur_thread;
        return next_chunk(a, b);
    }
    bool GOMP_loop_dynamic_next(long* a, long* b)
    {
        return next_chunk(a, b);
    }
    bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long inc, long chunk, long* a, long* b)
    {
        return GOMP_loop_dynamic_start(s, e, inc, chunk, a, b);
    }
    bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b)
    {
        return next_chunk(a, b);
    }
    bool GOMP_loop_guided_start(long s, long e, long inc, long chunk, long* a, long* b)
    {
        return GOMP_loop_dynamic_start(s, e, inc, chunk, a, b);
    }
    bool GOMP_loop_guided_next(long* a, long* b)
    {
        return next_chunk(a, b);
    }
    bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long inc, long chunk, long* a, long* b)
    {
        return GOMP_loop_dynamic_start(s, e, inc, chunk, a, b);
    }
    bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b)
    {
        return next_chunk(a, b);
    }
    void GOMP_loop_end()
    {
    }
    void GOMP_loop_end_nowait()
    {
    }
    static void par_loop(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long chunk, unsigned fl)
    {
        l_start = s, l_end = e, l_incr = inc, l_chunk = chunk ? chunk : 1;
        for (int t = 0; t < 64; ++t)
        {
            l_next[t] = t;
        }
        GOMP_parallel(fn, data, nt, fl);
    }
    void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long chunk, unsigned fl)
    {
        par_loop(fn, data, nt, s, e, inc, chunk, fl);
    }
    void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long chunk, unsigned fl)
    {
        par_loop(fn, data, nt, s, e, inc, chunk, fl);
    }
    void GOMP_parallel_loop_guided(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long chunk, unsigned fl)
    {
        par_loop(fn, data, nt, s, e, inc, chunk, fl);
    }
    void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long chunk, unsigned fl)
    {
        par_loop(fn, data, nt, s, e, inc, chunk, fl);
    }

    //----------------------------------------------------------------------------------------------------------------
    // instrumentation
    void __tsan_init()
    {
    }
    void __tsan_func_entry(void*)
    {
    }
    void __tsan_func_exit(void*)
    {
    }
#define RW(n)                                        \
    void __tsan_read##n(void* a)                     \
    {                                                \
        access(a, n, false, false);                  \
    }                                                \
    void __tsan_write##n(void* a)                    \
    {                                                \
        access(a, n, true, false);                   \
    }                                                \
    void __tsan_unaligned_read##n(void* a)           \
    {                                                \
        access(a, n, false, false);                  \
    }                                                \
    void __tsan_unaligned_write##n(void* a)          \
    {                                                \
        access(a, n, true, false);                   \
    }                                                \
    void __tsan_volatile_read##n(void* a)            \
    {                                                \
        access(a, n, false, false);                  \
    }                                                \
    void __tsan_volatile_write##n(void* a)           \
    {                                                \
        access(a, n, true, false);                   \
    }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_read_range(void* a, std::size_t n)
    {
        access(a, n, false, false);
    }
    void __tsan_write_range(void* a, std::size_t n)
    {
        access(a, n, true, false);
    }
    void __tsan_vptr_update(void** a, void*)
    {
        access(a, 8, true, false);
    }
    void __tsan_vptr_read(void** a)
    {
        access(a, 8, false, false);
    }
    void __tsan_atomic_thread_fence(int)
    {
    }
    void __tsan_atomic_signal_fence(int)
    {
    }

#define AT(bits, T)                                                                                      \
    T __tsan_atomic##bits##_load(const volatile T* a, int)                                               \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), false, true);                                         \
        return *a;                                                                                       \
    }                                                                                                    \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int)                                            \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        *a = v;                                                                                          \
    }                                                                                                    \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int)                                            \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        T o = *a;                                                                                        \
        *a  = v;                                                                                         \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int)                                           \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        T o = *a;                                                                                        \
        *a  = static_cast<T>(o + v);                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int)                                           \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        T o = *a;                                                                                        \
        *a  = static_cast<T>(o - v);                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int)                                            \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        T o = *a;                                                                                        \
        *a  = static_cast<T>(o | v);                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int)                                           \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        T o = *a;                                                                                        \
        *a  = static_cast<T>(o & v);                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int)                                           \
    {                                                                                                    \
        access(const_cast<const T*>(a), sizeof(T), true, true);                                          \
        T o = *a;                                                                                        \
        *a  = static_cast<T>(o ^ v);                                                                     \
        return o;                                                                                        \
    }                                                                                                    \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int)                      \
    {                                                                                                    \
        rmw(const_cast<const T*>(a), sizeof(T));                                                         \
        T o = *a;                                                                                        \
        if (o == e)                                                                                      \
        {                                                                                                \
            *a = v;                                                                                      \
        }                                                                                                \
        return o;                                                                                        \
    }                                                                                                    \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int)                \
    {                                                                                                    \
        rmw(const_cast<const T*>(a), sizeof(T));                                                         \
        if (*a == *e)                                                                                    \
        {                                                                                                \
            *a = v;                                                                                      \
            return 1;                                                                                    \
        }                                                                                                \
        *e = *a;                                                                                         \
        return 0;                                                                                        \
    }                                                                                                    \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int x, int y)              \
    {                                                                                                    \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, x, y);                             \
    }
    AT(8, std::uint8_t)
    AT(16, std::uint16_t)
    AT(32, std::uint32_t)
    AT(64, std::uint64_t)

    // block copies that stay calls
    void* __real_memcpy(void*, const void*, std::size_t);
    void* __wrap_memcpy(void* d, const void* s, std::size_t n)
    {
        access(s, n, false, false);
        access(d, n, true, false);
        return __real_memcpy(d, s, n);
    }
    void* __real_memmove(void*, const void*, std::size_t);
    void* __wrap_memmove(void* d, const void* s, std::size_t n)
    {
        access(s, n, false, false);
        access(d, n, true, false);
        return __real_memmove(d, s, n);
    }
    void* __real_memset(void*, int, std::size_t);
    void* __wrap_memset(void* d, int v, std::size_t n)
    {
        access(d, n, true, false);
        return __real_memset(d, v, n);
    }

    // function-local statics: the initialisation is ordered before every later use
    int __real___cxa_guard_acquire(void*);
    int __wrap___cxa_guard_acquire(void* g)
    {
        int r = __real___cxa_guard_acquire(g);
        guard_depth += r ? 1 : 0;
        return r;
    }
    void __real___cxa_guard_release(void*);
    void __wrap___cxa_guard_release(void* g)
    {
        __real___cxa_guard_release(g);
        --guard_depth;
    }
    void __real___cxa_guard_abort(void*);
    void __wrap___cxa_guard_abort(void* g)
    {
        __real___cxa_guard_abort(g);
        --guard_depth;
    }
}
