// A deterministic scheduler: threads are fibers, every operation on a (shimmed) atomic,
// mutex or condition variable is a scheduling point decided by a seeded policy.
// Include all std headers the code under test uses first, then this, then the code with
// SHIM_BEGIN / SHIM_END around it.
#pragma once
#include <cstdint>
#include <cstring>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <functional>
#include <memory>
#include <ucontext.h>
#include <sys/mman.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include "common.hpp"

namespace sched {

struct Fiber {
    ucontext_t ctx {}; std::function<void()> fn; char* stack = nullptr;
    enum St { READY, BLOCKED_MUTEX, BLOCKED_CV, DONE } st = READY;
    const void* on = nullptr; bool daemon = false; int prio = 0; long frozen_until = 0;
};

static constexpr size_t STACK = 256 * 1024;

enum Policy { RANDOM, STICKY, PRIO, FREEZE, N_POLICIES };

struct S {
    static inline std::vector<std::unique_ptr<Fiber>> fibers;
    static inline ucontext_t main_ctx {};
    static inline Fiber* cur = nullptr;
    static inline Rng rng { 1 };
    static inline Policy policy = RANDOM;
    static inline int spurious_pct = 0, sticky_pct = 70;
    static inline long steps = 0, switches = 0, limit = 0, change_in = 0;
    static inline uint64_t hash = 0;
    static inline int live = 0;    // non-daemon fibers not finished
    static inline bool stuck = false, runaway = false;
    static inline const char* what = "";

    static void tramp() {
        cur->fn(); cur->st = Fiber::DONE; if (!cur->daemon) live--;
        swapcontext(&cur->ctx, &main_ctx);
        abort();
    }
    static Fiber* spawn(std::function<void()> fn, bool daemon) {
        Fiber* f = new Fiber; f->fn = std::move(fn); f->daemon = daemon;
        if (!spare.empty()) { f->stack = spare.back(); spare.pop_back(); } else f->stack = (char*) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, (void (*)()) tramp, 0);
        f->prio = (int) rng.below(1000);
        fibers.emplace_back(f); if (!daemon) live++;
        return f;
    }
    static void point() { if (cur) { Fiber* f = cur; swapcontext(&f->ctx, &main_ctx); } }
    static void block(Fiber::St st, const void* on) { cur->st = st; cur->on = on; point(); }

    static Fiber* pick() {
        Fiber* ready[512]; int n = 0;
        for (auto& p : fibers) if (p->st == Fiber::READY && n < 512) ready[n++] = p.get();
        if (spurious_pct && rng.chance(spurious_pct))
            for (auto& p : fibers) if (p->st == Fiber::BLOCKED_CV && rng.chance(30)) { p->st = Fiber::READY; H::stats["spurious_wakeups"]++; }
        if (!n) return nullptr;
        switch (policy) {
        case STICKY: if (cur && cur->st == Fiber::READY && rng.chance(sticky_pct)) return cur; break;
        case PRIO: {
            if (--change_in <= 0) { change_in = 1 + (long) rng.below(40); ready[rng.below((uint64_t) n)]->prio = (int) rng.below(1000); }
            // a fair share, or a spinning loop would never end
            if (rng.chance(6)) break;
            Fiber* b = ready[0]; for (int i = 1; i < n; i++) if (ready[i]->prio > b->prio) b = ready[i]; return b; }
        case FREEZE: {
            if (--change_in <= 0) { change_in = 20 + (long) rng.below(120); ready[rng.below((uint64_t) n)]->frozen_until = steps + 10 + (long) rng.below(150); }
            Fiber* a[512]; int m = 0; for (int i = 0; i < n; i++) if (ready[i]->frozen_until <= steps) a[m++] = ready[i];
            if (m) return a[rng.below((uint64_t) m)]; break; }
        default: break;
        }
        return ready[rng.below((uint64_t) n)];
    }
    // runs until every non-daemon fiber is done
    static void run() {
        steps = 0; stuck = runaway = false;
        while (live > 0) {
            Fiber* f = pick();
            if (!f) {
                if (spurious_pct) { bool any = false; for (auto& p : fibers) if (p->st == Fiber::BLOCKED_CV) any = true; if (any) { if (++steps > limit) { runaway = true; return; } continue; } }
                stuck = true; return;
            }
            if (++steps > limit) { runaway = true; return; }
            if (f != cur) switches++;
            hash = H::mix(hash, (uint64_t)(f - (Fiber*) nullptr) ? (uint64_t) index(f) : 0);
            cur = f; swapcontext(&main_ctx, &f->ctx);
            Fiber* was = cur; cur = nullptr; if (unmap && was->st == Fiber::DONE) munmap(was->stack, STACK); if (policy == STICKY) cur = was->st == Fiber::READY ? was : nullptr;
        }
        cur = nullptr;
        // finished fibers go away, daemons stay
        for (size_t i = fibers.size(); i-- > 0; ) if (fibers[i]->st == Fiber::DONE) { if (!unmap) spare.push_back(fibers[i]->stack); fibers.erase(fibers.begin() + (long) i); }
    }
    // an ended thread's stack stays mapped, unless asked otherwise
    static inline std::vector<char*> spare; static inline bool unmap = false;
    static int index(Fiber* f) { for (size_t i = 0; i < fibers.size(); i++) if (fibers[i].get() == f) return (int) i; return -1; }
};

struct vmutex {
    Fiber* owner = nullptr; bool held = false;
    void lock() { S::point(); while (held) S::block(Fiber::BLOCKED_MUTEX, this); held = true; owner = S::cur; }
    bool try_lock() { S::point(); if (held) return false; held = true; owner = S::cur; return true; }
    void unlock() {
        if (!held) H::fail("sched", "unlock of a mutex nobody holds");
        held = false; owner = nullptr;
        for (auto& p : S::fibers) if (p->st == Fiber::BLOCKED_MUTEX && p->on == this) p->st = Fiber::READY;
        S::point();
    }
};
struct vcv {
    char pad = 0;
    void notify(bool all) {
        S::point();
        Fiber* w[512]; int n = 0;
        for (auto& p : S::fibers) if (p->st == Fiber::BLOCKED_CV && p->on == this && n < 512) w[n++] = p.get();
        if (!n) { H::stats["notified_nobody"]++; return; }
        if (all) { for (int i = 0; i < n; i++) w[i]->st = Fiber::READY; }
        else w[S::rng.below((uint64_t) n)]->st = Fiber::READY;
        H::stats["notified"]++;
    }
    void notify_one() { notify(false); }
    void notify_all() { notify(true); }
    template <typename L> void wait(L& lk) {
        S::point();
        // releasing the mutex and starting to wait is one step
        vmutex* m = lk.mutex(); m->held = false; m->owner = nullptr;
        for (auto& p : S::fibers) if (p->st == Fiber::BLOCKED_MUTEX && p->on == m) p->st = Fiber::READY;
        H::stats["cv_waits"]++;
        S::block(Fiber::BLOCKED_CV, this);
        while (m->held) S::block(Fiber::BLOCKED_MUTEX, m);
        m->held = true; m->owner = S::cur;
    }
    template <typename L, typename P> void wait(L& lk, P p) { while (!p()) wait(lk); }
};

template <typename T> struct vatomic {
    T v;
    vatomic() noexcept : v() {}
    vatomic(T x) noexcept : v(x) {}
    vatomic(const vatomic&) = delete;
    typedef std::memory_order mo;
    T load(mo = std::memory_order_seq_cst) const { S::point(); return v; }
    void store(T x, mo = std::memory_order_seq_cst) { S::point(); v = x; }
    T exchange(T x, mo = std::memory_order_seq_cst) { S::point(); T o = v; v = x; return o; }
    bool cas(T& e, T d, bool weak) { S::point(); if (v == e && !(weak && S::rng.chance(3))) { v = d; return true; } e = v; return false; }
    bool compare_exchange_weak(T& e, T d, mo = std::memory_order_seq_cst, mo = std::memory_order_seq_cst) { return cas(e, d, true); }
    bool compare_exchange_strong(T& e, T d, mo = std::memory_order_seq_cst, mo = std::memory_order_seq_cst) { return cas(e, d, false); }
    template <typename D> T fetch_add(D d, mo = std::memory_order_seq_cst) { S::point(); T o = v; v = (T)(v + d); return o; }
    template <typename D> T fetch_sub(D d, mo = std::memory_order_seq_cst) { S::point(); T o = v; v = (T)(v - d); return o; }
    template <typename D> T fetch_or(D d, mo = std::memory_order_seq_cst) { S::point(); T o = v; v = (T)(v | d); return o; }
    template <typename D> T fetch_and(D d, mo = std::memory_order_seq_cst) { S::point(); T o = v; v = (T)(v & d); return o; }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; } T operator--(int) { return fetch_sub(1); }
};

inline int vpthread_create(pthread_t*, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    S::spawn([fn, arg] { fn(arg); }, true); return 0;
}

} // namespace sched

namespace std {
    template <typename T> using verif_atomic = ::sched::vatomic<T>;
    using verif_atomic_int = ::sched::vatomic<int>;
    using verif_atomic_uint64_t = ::sched::vatomic<uint64_t>;
    using verif_mutex = ::sched::vmutex;
    using verif_cv = ::sched::vcv;
}
