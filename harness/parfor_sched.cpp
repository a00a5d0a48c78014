// C06 under a deterministic scheduler: workers, masters and the task stack as fibers.
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include "sched.hpp"
#include <fu/export.h>
#define atomic verif_atomic
#define atomic_int verif_atomic_int
#define atomic_uint64_t verif_atomic_uint64_t
#define mutex verif_mutex_or_member
#define condition_variable verif_cv
#define pthread_create ::sched::vpthread_create
namespace std { using verif_mutex_or_member = ::sched::vmutex; }
#include <par/parfor.cpp>
#undef atomic
#undef atomic_int
#undef atomic_uint64_t
#undef mutex
#undef condition_variable
#undef pthread_create
using namespace sched;

struct Call {
    size_t size, min; std::vector<int> count; int active = 0; bool returned = false; int batches = 0;
};

static void on_segv(int, siginfo_t* si, void*) {
    char* a = (char*) si->si_addr; (void) a;
    static const char m[] = "\nVIOL stale-read-of-ended-thread | a worker suspended inside try_pop reads the task of a thread that has ended: SIGSEGV\n";
    (void) !write(1, m, sizeof m - 1); _exit(3);
}

static int NEST = 0;
static void one_call(Rng& r, int depth, const char* who) {
    Call c; c.size = r.chance(8) ? 0 : r.chance(75) ? (size_t) r.range(1, 8) : (size_t) r.range(1, 150);
    c.min = r.chance(60) ? 1 : (size_t) r.range(1, 9);
    c.count.assign(c.size, 0);
    uint64_t sub = r.next(); int nest_pct = depth == 0 ? 25 : depth == 1 ? 10 : 0;
    H::step("%s: parallel_for(size %zu, at least %zu per batch) depth %d", who, c.size, c.min, depth);
    fu::parallel_for(c.size, c.min, [&](size_t a, size_t b) {
        if (c.returned) H::fail("late", "a batch started after its parallel_for returned");
        if (a > b || b > c.size) H::fail("range", "batch [%zu, %zu) of %zu", a, b, c.size);
        if (b - a < std::min(c.min, c.size)) H::fail("min", "batch of %zu items, at least %zu asked for, %zu in all", b - a, c.min, c.size);
        c.active++; c.batches++; H::evals++;
        for (size_t i = a; i < b; i++) { if (c.count[i]++) H::fail("twice", "index %zu visited twice", i); }
        Rng q(H::mix(sub, a)); int pts = q.chance(80) ? q.range(0, 3) : q.range(0, 40); for (int i = 0; i < pts; i++) S::point();
        if (NEST > 0 && q.chance(nest_pct)) { NEST--; one_call(q, depth + 1, "nested"); }
        if (c.returned) H::fail("late", "parallel_for returned while batch [%zu, %zu) was running", a, b);
        c.active--;
    });
    c.returned = true;
    if (c.active) H::fail("early", "parallel_for returned with %d batches running", c.active);
    for (size_t i = 0; i < c.size; i++) if (c.count[i] != 1) H::fail("once", "index %zu of %zu visited %d times", i, c.size, c.count[i]);
    H::stats["calls"]++; H::stats["batches"] += c.batches; if (depth) H::stats["nested_calls"]++;
}

static __attribute__((noinline)) void run_master(uint64_t s, int m) { Rng q(H::mix(s, (uint64_t) m + 100)); int calls = q.range(1, 3); for (int k = 0; k < calls; k++) one_call(q, 0, m == 0 ? "master 0" : m == 1 ? "master 1" : "master 2"); }

int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); long n = opt_i(argc, argv, "--episodes", 3000); long only = opt_i(argc, argv, "--only", -1);
    if (opt_i(argc, argv, "--unmap", 0)) {
        S::unmap = true; static char alt[65536]; stack_t ss {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa {}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    }
    int workers = (int) S::fibers.size();
    const char* e0 = getenv("fu_NUM_WORKER_THREADS"); if (e0 && atoi(e0) != workers) H::fail("workers", "%d workers started, fu_NUM_WORKER_THREADS=%s", workers, e0);
    for (long e = 0; e < n; e++) {
        uint64_t s = H::mix(seed, (uint64_t) e); Rng r(s); S::rng = Rng(s ^ 0x77); S::policy = (Policy) r.below(N_POLICIES); S::sticky_pct = r.range(30, 97);
        S::spurious_pct = r.chance(30) ? r.range(1, 10) : 0; S::limit = 3000000; S::hash = 1; for (auto& f : S::fibers) { f->frozen_until = 0; } S::change_in = 0;
        int masters = r.range(1, 3); NEST = r.range(0, 6); bool same = r.chance(50); char w[160]; snprintf(w, sizeof w, "seed %llu episode %ld: %d workers %d masters policy %d spurious %d%%", (unsigned long long) seed, e, workers, masters, (int) S::policy, S::spurious_pct); H::where = w; H::log.clear();
        for (int m = 0; m < masters; m++) S::spawn([s, m, same] {
            // stacks laid out alike modulo 99: masters then share one mutex and condition variable
            volatile char* pad = (volatile char*) alloca(16); size_t off = same ? (((uintptr_t) pad) % 99) : 0;
            size_t k = 0; while (same && (k * 16) % 99 != off) k++; if (!same) k = Rng(s + (uint64_t) m).below(90);
            pad = (volatile char*) alloca(k * 16 + 16); pad[0] = 1; run_master(s, m); }, false);
        S::run();
        if (S::stuck) H::fail("deadlock", "every thread waits for another; the loop never returns (after %ld steps)", S::steps);
        if (S::runaway) H::fail("hang", "no end after %ld steps of a fair schedule", S::steps);
        H::stats["episodes"]++; H::stats["steps"] += S::steps; H::stats["switches"] += S::switches; S::switches = 0; H::stats["policy_" + std::to_string((int) S::policy)]++; H::sig(S::hash);
        if (H::sample_text.empty() && masters == 3) H::sample_text = std::string(w) + ": " + std::to_string(S::steps) + " steps";
    }
    H::done(); _exit(0);
}
