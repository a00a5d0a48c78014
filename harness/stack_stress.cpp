// C07 on real threads: ownership, conservation and publication of what nodes carry.
#include <cassert>
#include <thread>
#include "common.hpp"
#include <lockfree/stack.hpp>
struct alignas(16) N { void* next; uint64_t a, b, stamp; int owner_dbg; std::atomic<int> owned; };
typedef lockfree::stack<3> ST3; typedef lockfree::stack<4> ST4;
template <typename ST> static void episode(uint64_t seed, int nt, long per, int nn) {
    static ST* st; st = new ST(); static std::vector<N>* pool; pool = new std::vector<N>((size_t) nn);
    char w[100]; snprintf(w, sizeof w, "%d threads %d nodes seed %llu", nt, nn, (unsigned long long) seed); H::where = w;
    auto fill = [](N& n, uint64_t v) { n.a = v; n.b = ~v; n.stamp = v * 31; };
    auto good = [](N& n) { return n.b == ~n.a && n.stamp == n.a * 31; };
    for (auto& n : *pool) { fill(n, 1); n.owned.store(0, std::memory_order_relaxed); st->push((char*) &n, (char*) &n); }
    std::atomic<long> pops { 0 }, empties { 0 }, pushes { 0 }; std::atomic<int> bad { 0 };
    std::vector<std::vector<N*>> held((size_t) nt);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
        Rng r(H::mix(seed, (uint64_t) t)); auto& mine = held[(size_t) t]; long p = 0, e = 0, u = 0;
        for (long k = 0; k < per; k++) {
            if (mine.empty() || (mine.size() < 8 && r.chance(50))) {
                N* n = (N*) st->try_pop(); if (!n) { e++; if (nn < nt) std::this_thread::yield(); continue; }
                if (n < pool->data() || n >= pool->data() + nn || ((char*) n - (char*) pool->data()) % sizeof(N)) { bad = 1; return; }
                if (n->owned.fetch_add(1, std::memory_order_relaxed) != 0) { bad = 2; return; }
                if (!good(*n)) { bad = 3; return; }
                fill(*n, r.next() | 1); p++; mine.push_back(n);
            } else {
                size_t c = 1 + r.below(std::min<size_t>(mine.size(), 4)); N* first = mine.back(); N* last = first;
                for (size_t z = 0; z < c; z++) { N* n = mine.back(); mine.pop_back(); fill(*n, r.next() | 1); n->owned.fetch_add(-1, std::memory_order_relaxed); if (z) __atomic_store_n(&last->next, (void*) n, __ATOMIC_RELAXED); last = n; }
                st->push((char*) first, (char*) last); u++;
            }
            if (r.chance(2)) std::this_thread::yield();
        }
        pops += p; empties += e; pushes += u;
    });
    for (auto& t : th) t.join();
    if (bad) H::fail(bad == 1 ? "pop" : bad == 2 ? "twice" : "publication", bad == 1 ? "popped something never pushed" : bad == 2 ? "two threads own one node" : "a popped node does not carry what its pusher wrote");
    size_t left = 0, h = 0; for (auto& v : held) h += v.size(); while (N* n = (N*) st->try_pop()) { left++; if (!good(*n) || n->owned) H::fail("publication", "drained node damaged"); if (left > (size_t) nn) H::fail("cycle", "more nodes than exist"); }
    if (left + h != (size_t) nn) H::fail("lost", "%zu in the stack, %zu held, of %d", left, h, nn);
    H::evals += pops + pushes + empties; H::stats["pops"] += pops; H::stats["empty_pops"] += empties; H::stats["pushes"] += pushes; H::sigof(nt, nn, seed, pops.load(), empties.load());
    delete st; delete pool;
}
int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); int n = (int) opt_i(argc, argv, "--episodes", 12); long per = opt_i(argc, argv, "--steps", 40000);
    static const int NT[] = { 2, 4, 3, 8, 6, 2 }; static const int NN[] = { 1, 2, 3, 8, 40, 400 };
    for (int e = 0; e < n; e++) { int nt = NT[e % 6], nn = NN[(e / 2) % 6]; if (e & 1) episode<ST3>(H::mix(seed, (uint64_t) e), nt, per, nn); else episode<ST4>(H::mix(seed, (uint64_t) e), nt, per, nn); }
    H::done();
}
