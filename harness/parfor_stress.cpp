// C06 on real threads, with delays injected where waits and wake-ups race.
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/types.h>
#include <alloca.h>
#include <limits.h>
#include "common.hpp"
#include <fu/export.h>
static std::atomic<int> DELAY { 0 };
static thread_local uint64_t TLR = 0;
static inline uint64_t tlr() { if (!TLR) TLR = (uint64_t) &TLR | 1; TLR ^= TLR << 13; TLR ^= TLR >> 7; TLR ^= TLR << 17; return TLR; }
static inline void delay(int pct) { int d = DELAY.load(std::memory_order_relaxed); if (!d || (int)(tlr() % 100) >= pct) return; uint64_t k = tlr() % 4; if (k == 0) usleep((useconds_t)(tlr() % (unsigned) d)); else if (k == 1) std::this_thread::yield(); else for (volatile int i = (int)(tlr() % 2000); i > 0; i = i - 1) {} }
#ifdef SHIMS
namespace std {
    struct verif_dmutex : mutex { void lock() { delay(20); mutex::lock(); } void unlock() { mutex::unlock(); delay(20); } };
    struct verif_dcv { condition_variable_any cv; void notify_one() noexcept { delay(20); cv.notify_one(); } void notify_all() noexcept { delay(30); cv.notify_all(); }
        template <typename L> void wait(L& l) { delay(40); cv.wait(l); } template <typename L, typename P> void wait(L& l, P p) { while (!p()) wait(l); } };
    // the successor of a node already taken by someone else is read and then thrown away:
    // that read is not judged as a race
    template <typename T> struct verif_qatomic : std::atomic<T> { using std::atomic<T>::atomic; using std::atomic<T>::operator=; };
    template <typename T> struct verif_qatomic<T*> { T* v;
        __attribute__((no_sanitize("thread"), noinline)) T* load(memory_order = memory_order_seq_cst) const { return *(T* const volatile*) &v; }
        void store(T* x, memory_order = memory_order_seq_cst) { *(T* volatile*) &v = x; } };
}
#define atomic verif_qatomic
#define mutex verif_dmutex
#define condition_variable verif_dcv
#include <par/parfor.cpp>
#undef atomic
#undef mutex
#undef condition_variable
#else
#include <par/parfor.cpp>
#endif

struct Cell { uint64_t v; };
static std::atomic<int> inside { 0 };
static void one_call(Rng& r, int depth, size_t maxn) {
    size_t n = r.chance(5) ? 0 : (size_t) r.range(1, (int) (r.chance(70) ? 60 : maxn)), mn = r.chance(60) ? 1 : (size_t) r.range(1, 20); uint64_t key = r.next(); uint64_t sub = r.next();
    std::vector<Cell> out(n); std::vector<std::atomic<int>> cnt(n); for (auto& c : cnt) c.store(0, std::memory_order_relaxed); std::atomic<int> active { 0 }; bool returned = false; // plain on purpose
    std::vector<Cell> in(n); for (size_t i = 0; i < n; i++) in[i].v = key + i;   // published to the workers
    int nest = depth == 0 ? 6 : 0; int slow = r.range(0, 3);
    fu::parallel_for(n, mn, [&](size_t a, size_t b) {
        active.fetch_add(1, std::memory_order_relaxed);
        if (returned) H::fail("late", "a batch ran after its parallel_for returned");
        if (a > b || b > n) H::fail("range", "batch [%zu,%zu) of %zu", a, b, n);
        if (b - a < std::min(mn, n)) H::fail("min", "batch of %zu, at least %zu asked for, %zu in all", b - a, mn, n);
        for (size_t i = a; i < b; i++) { if (cnt[i].fetch_add(1, std::memory_order_relaxed)) H::fail("twice", "index %zu visited twice", i); out[i].v = in[i].v * 3 + 1; }
        if (slow == 1) delay(30); else if (slow == 2) for (volatile int z = (int)(tlr() % 3000); z > 0; z = z - 1) {}
        if (nest) { Rng q(H::mix(sub, a)); if (q.chance(nest)) one_call(q, depth + 1, 200); }
        active.fetch_add(-1, std::memory_order_relaxed);
    });
    if (active.load(std::memory_order_relaxed)) H::fail("early", "parallel_for returned with %d batches running", active.load());
    for (size_t i = 0; i < n; i++) { if (cnt[i].load(std::memory_order_relaxed) != 1) H::fail("once", "index %zu of %zu visited %d times", i, n, cnt[i].load()); if (out[i].v != (key + i) * 3 + 1) H::fail("results", "what the body wrote for index %zu is not there after return", i); }
    for (auto& o : out) o.v = 0; returned = true;
    __atomic_fetch_add(&H::evals, (long) 1, __ATOMIC_RELAXED);
}
// the threads that issue loops live as long as the process
static std::mutex POOL_M; static std::condition_variable POOL_C; static std::atomic<int> POOL_LEFT { 0 };
static int POOL_GEN = 0, POOL_N = 0; static uint64_t POOL_SEED; static int POOL_CALLS; static size_t POOL_MAX;
static void master_job(int m) { Rng r(H::mix(POOL_SEED, (uint64_t) m)); for (int k = 0; k < POOL_CALLS; k++) one_call(r, 0, POOL_MAX); }
static void masters(uint64_t seed, int nm, int calls, size_t maxn) {
    static bool up = false;
    if (!up) { up = true; for (int m = 1; m < 4; m++) std::thread([m] { int gen = 0; for (;;) { { std::unique_lock<std::mutex> l(POOL_M); POOL_C.wait(l, [&] { return POOL_GEN != gen; }); gen = POOL_GEN; if (m >= POOL_N) continue; } master_job(m); POOL_LEFT.fetch_add(-1, std::memory_order_acq_rel); } }).detach(); }
    { std::unique_lock<std::mutex> l(POOL_M); POOL_SEED = seed; POOL_N = nm; POOL_CALLS = calls; POOL_MAX = maxn; POOL_LEFT = nm - 1; POOL_GEN++; }
    POOL_C.notify_all(); master_job(0); while (POOL_LEFT.load(std::memory_order_acquire)) std::this_thread::yield();
}
int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); int n = (int) opt_i(argc, argv, "--episodes", 40); int calls = (int) opt_i(argc, argv, "--calls", 150); H::where = "parallel_for stress";
    long keep = opt_i(argc, argv, "--quiet", 0); (void) keep;
    for (int e = 0; e < n; e++) { Rng r(H::mix(seed, (uint64_t) e)); DELAY = r.chance(50) ? r.range(1, 60) : 0; int nm = r.range(1, 4); masters(r.next(), nm, calls / nm + 1, r.chance(20) ? 20000 : 300); H::sigof(seed, e, nm, (int) DELAY); H::stats["episodes"]++; }
    H::sample_text = "1..4 masters, nested, with delays around waits"; H::done(); _exit(0);
}
