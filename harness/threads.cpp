// Storage shared between threads: every thread owns its handles; the blocks behind
// them are shared. Handles migrate through locked mailboxes. Every handle is compared
// with its own model; elements and blocks must all be gone at the end.
#include <cassert>
#include <atomic>
#include <thread>
#include <mutex>
#include <memory>
#include "common.hpp"
#include <fu/_fulib.cpp>
#include <fu/vec.h>
#include <fu/str.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/LEGACY_slice.h>

static std::atomic<long> LIVE { 0 }, BAD { 0 };
struct TT {     // non-trivial element, survives memcpy relocation, zero = empty
    int* tok = nullptr; uint64_t v = 0;
    TT() = default;
    explicit TT(uint64_t x) : tok((int*) malloc(8)), v(x) { tok[0] = (int) x; tok[1] = 7; LIVE.fetch_add(1, std::memory_order_relaxed); }
    TT(TT&& o) noexcept : tok(o.tok), v(o.v) { o.tok = nullptr; o.v = 0; }
    TT(const TT& o) noexcept : tok(nullptr), v(o.v) { if (o.tok) { if (o.tok[0] != (int) o.v || o.tok[1] != 7) BAD.fetch_add(1, std::memory_order_relaxed); tok = (int*) malloc(8); tok[0] = (int) v; tok[1] = 7; LIVE.fetch_add(1, std::memory_order_relaxed); } }
    TT& operator=(TT&& o) noexcept { std::swap(tok, o.tok); std::swap(v, o.v); return *this; }
    ~TT() { if (tok) { if (tok[0] != (int) v || tok[1] != 7) BAD.fetch_add(1, std::memory_order_relaxed); tok[1] = 0; free(tok); LIVE.fetch_add(-1, std::memory_order_relaxed); tok = nullptr; } }
};
struct EI { typedef int T; static T make(uint64_t v) { return (int) v; } static bool eq(const T& t, uint64_t v) { return t == (int) v; } static const char* name() { return "int"; } };
struct EC { typedef char T; static T make(uint64_t v) { return (char) v; } static bool eq(const T& t, uint64_t v) { return t == (char) v; } static const char* name() { return "char"; } };
struct ET { typedef TT T; static T make(uint64_t v) { return v ? TT(v) : TT(); } static bool eq(const T& t, uint64_t v) { return t.v == v && (!v || (t.tok && t.tok[0] == (int) v && t.tok[1] == 7)); } static const char* name() { return "tracked"; } };
struct ES { typedef fu::str T; static std::string s(uint64_t v) { return v ? "value number " + std::to_string(v) + (v & 1 ? " and a bit more to be out of line" : "") : ""; }
    static T make(uint64_t v) { std::string x = s(v); T t; t.append_copy(fu_ZERO(), x.data(), (int) x.size()); return t; }
    static bool eq(const T& t, uint64_t v) { std::string x = s(v); return t.size() == (int) x.size() && !memcmp(t.data(), x.data(), x.size()); } static const char* name() { return "str"; } };

static std::mutex FAILM;
#define TFAIL(key, ...) do { std::lock_guard<std::mutex> g_(FAILM); H::fail(key, __VA_ARGS__); } while (0)

template <typename E> struct World {
    typedef typename E::T T; typedef fu::vec<T> V; typedef std::vector<uint64_t> M;
    struct Slot { std::mutex mx; V v; M m; };
    int nthreads; uint64_t seed; int steps; bool common; int regime;
    std::vector<std::unique_ptr<Slot>> mail;
    std::atomic<long> ops { 0 }, shared_seen { 0 }, unshared_seen { 0 }, exchanges { 0 };
    V base; M base_m;

    static void spin(Rng& r, int pct) { if (r.chance(pct)) { if (r.chance(50)) std::this_thread::yield(); else for (volatile int q = r.range(0, 300); q > 0; q = q - 1) {} } }

    void thread(int id, std::vector<V>& mine, std::vector<M>& model) {
        Rng r(H::mix(seed, (uint64_t) id * 977 + 5)); uint64_t ctr = (uint64_t) id * 100000 + 1;
        const int N = (int) mine.size();
        auto check = [&](int i, const char* what) {
            const V& a = mine[(size_t) i]; const M& b = model[(size_t) i];
            if ((size_t) a.size() != b.size()) TFAIL("size", "%s: thread %d handle %d has size %d, model %zu", what, id, i, a.size(), b.size());
            const T* d = a.data(); for (size_t k = 0; k < b.size(); k++) if (!E::eq(d[k], b[k])) TFAIL("content", "%s: thread %d handle %d item %zu of %zu", what, id, i, k, b.size());
        };
        for (int s = 0; s < steps; s++) {
            int i = r.range(0, N - 1), j = r.range(0, N - 2); if (j >= i) j++;
            V& a = mine[(size_t) i]; M& x = model[(size_t) i]; int n = (int) x.size();
            spin(r, 15);
            switch (r.range(0, 15)) {
            case 0: case 1: { uint64_t e = ctr++; const T* d0 = a.data(); a.push(E::make(e)); if (a.data() == d0) unshared_seen.fetch_add(1, std::memory_order_relaxed); else shared_seen.fetch_add(1, std::memory_order_relaxed); x.push_back(e); break; }
            case 2: if (n) { int q = r.range(0, n - 1); uint64_t e = ctr++; const T* d0 = a.data(); a.mutref(q) = E::make(e); if (a.data() == d0) unshared_seen.fetch_add(1, std::memory_order_relaxed); else shared_seen.fetch_add(1, std::memory_order_relaxed); x[(size_t) q] = e; } break;
            case 3: mine[(size_t) j] = V(a); model[(size_t) j] = x; break;
            case 4: if (n) { a.pop(); x.pop_back(); } break;
            case 5: { int c = r.range(0, n); a.shrink(c); x.resize((size_t) c); break; }
            case 6: { a = V(); x.clear(); break; }
            case 7: case 8: case 9: { // exchange with a mailbox
                Slot& m = *mail[r.below(mail.size())]; { std::lock_guard<std::mutex> g(m.mx); a.swap(m.v); x.swap(m.m); } exchanges.fetch_add(1, std::memory_order_relaxed); break; }
            case 10: { // leave a copy in a mailbox, keep one: a block now shared across threads
                V c(a); M y = x; Slot& m = *mail[r.below(mail.size())]; { std::lock_guard<std::mutex> g(m.mx); c.swap(m.v); y.swap(m.m); } break; }
            case 11: { int q = r.range(0, n); uint64_t e = ctr++; a.insert(q, E::make(e)); x.insert(x.begin() + q, e); break; }
            case 12: { int s0 = r.range(0, n), e0 = r.range(s0, n); mine[(size_t) j] = fu::slice((const V&) a, s0, e0); M y(x.begin() + s0, x.begin() + e0); model[(size_t) j] = y; break; }
            case 13: { V c(a); M y = x; M& z = model[(size_t) j]; mine[(size_t) j].append(fu_ZERO(), static_cast<V&&>(c)); z.insert(z.end(), y.begin(), y.end()); break; }
            case 14: if (common) { // several threads copy one and the same handle
                mine[(size_t) i] = V(base); model[(size_t) i] = base_m; } else { int c = n + r.range(0, 20); a.reserve(c); } break;
            case 15: { int c = r.range(0, 200); a.resize(c); x.resize((size_t) c, 0); break; }
            }
            if (x.size() > 600) { a.clear(); x.clear(); }
            check(i, "own"); check(j, "other"); ops.fetch_add(1, std::memory_order_relaxed);
        }
        mine.clear();
    }

    void run() {
        char w[160]; snprintf(w, sizeof w, "%s %d threads seed %llu%s", E::name(), nthreads, (unsigned long long) seed, common ? " common" : ""); H::where = w;
        Rng r(seed);
        {
            int n0 = r.range(1, 300); for (int q = 0; q < n0; q++) { uint64_t e = (uint64_t) q + 1; base.push(E::make(e)); base_m.push_back(e); }
            for (int q = 0; q < 3; q++) { mail.emplace_back(new Slot); mail.back()->v = V(base); mail.back()->m = base_m; }
            std::vector<std::vector<V>> mine((size_t) nthreads); std::vector<std::vector<M>> model((size_t) nthreads);
            for (int t = 0; t < nthreads; t++) for (int q = 0; q < 4; q++) { mine[(size_t) t].push_back(V(base)); model[(size_t) t].push_back(base_m); }
            if (!common) { base = V(); base_m.clear(); }
            std::vector<std::thread> th; for (int t = 0; t < nthreads; t++) th.emplace_back([&, t] { thread(t, mine[(size_t) t], model[(size_t) t]); });
            for (auto& t : th) t.join();
            for (auto& m : mail) { if ((size_t) m->v.size() != m->m.size()) H::fail("size", "mailbox"); for (size_t k = 0; k < m->m.size(); k++) if (!E::eq(((const V&) m->v)[(int) k], m->m[k])) H::fail("content", "mailbox item"); }
            if (common) { for (size_t k = 0; k < base_m.size(); k++) if (!E::eq(((const V&) base)[(int) k], base_m[k])) H::fail("content", "common handle changed"); }
            mail.clear(); base = V();
        }
        if (LIVE.load()) H::fail("live", "%ld elements alive after every handle is gone", LIVE.load());
        if (BAD.load()) H::fail("bad", "%ld damaged elements seen", BAD.load());
        H::evals += ops.load(); H::stats["ops"] += ops.load(); H::stats["exchanges"] += exchanges.load(); H::stats["writes_in_place"] += unshared_seen.load(); H::stats["writes_that_moved"] += shared_seen.load();
        H::sigof(nthreads, seed, ops.load(), shared_seen.load(), unshared_seen.load());
    }
};

// the narrowest window: the last two holders of one block, on two threads, one reading
// the block for the last time and letting go, the other reclaiming it and writing
template <typename E> static void duel(uint64_t seed, int rounds) {
    typedef typename E::T T; typedef fu::vec<T> V; Rng r(seed);
    H::where = std::string("duel ") + E::name();
    std::atomic<int> phase { 0 };
    std::vector<std::unique_ptr<V>> left((size_t) rounds), right((size_t) rounds); std::vector<int> len((size_t) rounds);
    for (int k = 0; k < rounds; k++) { int n = 16 + r.range(0, 60); len[(size_t) k] = n; left[(size_t) k].reset(new V()); for (int q = 0; q < n; q++) left[(size_t) k]->push(E::make((uint64_t) q + 1)); right[(size_t) k].reset(new V(*left[(size_t) k])); }
    std::atomic<int> at { 0 }; std::atomic<long> reclaimed { 0 };
    std::thread a([&] { Rng q(seed + 1); for (int k = 0; k < rounds; k++) { while (at.load(std::memory_order_relaxed) < k) std::this_thread::yield(); V& v = *left[(size_t) k]; int n = len[(size_t) k]; for (int z = 0; z < n; z++) if (!E::eq(((const V&) v)[z], (uint64_t) z + 1)) TFAIL("duel", "reader sees item %d changed", z); v = V(); } });
    std::thread b([&] { Rng q(seed + 2); for (int k = 0; k < rounds; k++) { at.store(k, std::memory_order_relaxed); for (volatile int z = q.range(0, 400); z > 0; z = z - 1) {} V& v = *right[(size_t) k]; int n = len[(size_t) k]; const T* d0 = v.data(); v.mutref(0) = E::make(77); v.mutref(n - 1) = E::make(78); if (v.data() == d0) reclaimed.fetch_add(1, std::memory_order_relaxed); if (!E::eq(((const V&) v)[1], 2) || !E::eq(((const V&) v)[0], 77)) TFAIL("duel", "writer sees the wrong items"); v.push(E::make(79)); if (v.size() != n + 1) TFAIL("duel", "size"); } });
    a.join(); b.join();
    H::evals += rounds; H::stats["duels"] += rounds; H::stats["duels_reclaimed_in_place"] += reclaimed.load(); H::sigof(99, seed, reclaimed.load());
    left.clear(); right.clear();
    if (LIVE.load()) H::fail("live", "%ld elements alive after every handle is gone", LIVE.load());
    if (BAD.load()) H::fail("bad", "%ld damaged elements seen", BAD.load());
}

int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); int ep = (int) opt_i(argc, argv, "--episodes", 6); int steps = (int) opt_i(argc, argv, "--steps", 1500); bool common = opt_i(argc, argv, "--common", 0);
    // inner handles of a shared block are themselves copied by several threads at once
    bool nested = opt_i(argc, argv, "--nested", 1);
    setenv("fu_NUM_WORKER_THREADS", "0", 1);
    static const int NT[] = { 2, 3, 4, 8, 2, 6, 5, 3 };
    for (int e = 0; e < ep; e++) {
        uint64_t s = H::mix(seed, (uint64_t) e); int nt = NT[e % 8];
        { World<EI> w; w.nthreads = nt; w.seed = s; w.steps = steps; w.common = common; w.run(); }
        { World<EC> w; w.nthreads = nt; w.seed = s + 1; w.steps = steps; w.common = common; w.run(); }
        { World<ET> w; w.nthreads = nt; w.seed = s + 2; w.steps = steps; w.common = common; w.run(); }
        if (nested) { World<ES> w; w.nthreads = nt; w.seed = s + 3; w.steps = steps; w.common = common; w.run(); }
        if (!common) { duel<EI>(s + 4, 1500); duel<EC>(s + 5, 1500); duel<ET>(s + 6, 800); if (nested) duel<ES>(s + 7, 500); }
    }
    H::sample_text = "8 threads x 4 handles of one int block, exchanged through 3 mailboxes";
    H::done();
}
