// C07: every short history of the lock-free stack is linearizable to a LIFO stack.
#include <cassert>
#include "sched.hpp"
#define atomic verif_atomic
#define atomic_int verif_atomic_int
#define atomic_uint64_t verif_atomic_uint64_t
#include <lockfree/stack.hpp>
#undef atomic
#undef atomic_int
#undef atomic_uint64_t
using namespace sched;

typedef lockfree::stack<3> ST3;
typedef lockfree::stack<4> ST4;

struct alignas(16) N { void* next; uint64_t id; };
struct Op { int kind; /* 0 push 1 pop */ std::vector<int> nodes; /* first..last */ int got; long inv, ret; int who; };

// does some order of the operations, respecting real time, make a LIFO stack answer so?
static bool lin(const std::vector<Op>& ops, std::vector<bool>& used, std::vector<int>& st, size_t left, long& budget) {
    if (!left) return true;
    if (--budget < 0) return true;
    long min_ret = INT64_MAX;
    for (size_t i = 0; i < ops.size(); i++) if (!used[i]) min_ret = std::min(min_ret, ops[i].ret);
    for (size_t i = 0; i < ops.size(); i++) {
        if (used[i] || ops[i].inv > min_ret) continue;
        const Op& o = ops[i];
        if (o.kind == 0) {
            used[i] = true; for (size_t k = o.nodes.size(); k-- > 0; ) st.push_back(o.nodes[k]);
            if (lin(ops, used, st, left - 1, budget)) return true;
            st.resize(st.size() - o.nodes.size()); used[i] = false;
        } else if (o.got < 0) {
            if (!st.empty()) continue;
            used[i] = true; if (lin(ops, used, st, left - 1, budget)) return true; used[i] = false;
        } else {
            if (st.empty() || st.back() != o.got) continue;
            used[i] = true; st.pop_back(); if (lin(ops, used, st, left - 1, budget)) return true; st.push_back(o.got); used[i] = false;
        }
    }
    return false;
}

template <typename ST> static void episode(uint64_t seed) {
    Rng r(seed); S::rng = Rng(seed ^ 0x5555); S::hash = seed % 7; S::limit = 400000;
    S::policy = (Policy) r.below(N_POLICIES); S::sticky_pct = r.range(30, 95); S::spurious_pct = 0;
    static N pool[16]; auto st = std::make_unique<ST>(); memset(pool, 0, sizeof pool);
    int nf = r.range(2, 4), nn = r.range(2, 6), per = r.range(1, nf == 2 ? 6 : nf == 3 ? 4 : 3);
    std::vector<Op> ops; ops.reserve(64); long clock = 0; std::vector<int> initial;
    // the initial content, pushed by nobody in particular
    int pre = r.range(0, nn); for (int i = 0; i < pre; i++) { Op o { 0, { i }, -1, clock, clock + 1, -1 }; clock += 2; st->push((char*) &pool[i], (char*) &pool[i]); ops.push_back(o); }
    std::vector<std::vector<int>> own((size_t) nf); for (int i = pre; i < nn; i++) own[r.below((uint64_t) nf)].push_back(i);
    char w[120]; snprintf(w, sizeof w, "seed %llu: %d fibers, %d nodes, policy %d", (unsigned long long) seed, nf, nn, (int) S::policy); H::where = w; H::log.clear();
    for (int f = 0; f < nf; f++) S::spawn([&, f] {
        Rng q(H::mix(seed, (uint64_t) f)); auto& mine = own[(size_t) f];
        for (int k = 0; k < per; k++) {
            size_t id = ops.size();
            if (!mine.empty() && q.chance(50)) {
                int c = 1 + (int) q.below(std::min<size_t>(mine.size(), 3)); Op o { 0, {}, -1, clock++, INT64_MAX, f };
                for (int z = 0; z < c; z++) { size_t at = q.below(mine.size()); o.nodes.push_back(mine[at]); mine.erase(mine.begin() + (long) at); }
                for (int z = 0; z + 1 < c; z++) pool[o.nodes[(size_t) z]].next = &pool[o.nodes[(size_t) z + 1]];
                pool[o.nodes[(size_t) c - 1]].next = (void*) 0x10; // whatever was there
                auto nodes = o.nodes; ops.push_back(o); H::step("%d: push %d..%d (%d)", f, nodes.front(), nodes.back(), c);
                st->push((char*) &pool[nodes.front()], (char*) &pool[nodes.back()]);
                ops[id].ret = clock++; H::step("%d: pushed", f);
            } else {
                ops.push_back(Op { 1, {}, -1, clock++, INT64_MAX, f }); H::step("%d: pop", f);
                char* p = st->try_pop(); int got = p ? (int) ((N*) p - pool) : -1;
                if (p && (got < 0 || got >= nn || (char*) &pool[got] != p)) H::fail("pop", "popped something never pushed: %p", (void*) p);
                ops[id].got = got; ops[id].ret = clock++; H::step("%d: popped %d", f, got);
                if (got >= 0) { for (auto& o : own) for (int x : o) if (x == got) H::fail("twice", "node %d popped while held by a popper", got); mine.push_back(got); pool[got].next = (void*) 0x20; }
            }
            H::evals++;
        }
    }, false);
    S::run();
    if (S::stuck) H::fail("stuck", "operations of a lock-free stack blocked each other");
    if (S::runaway) H::fail("hang", "an operation never finished under a fair schedule");
    // empty it: the rest of the history
    int guard = 0; for (;;) { Op o { 1, {}, -1, clock++, 0, -1 }; char* p = st->try_pop(); o.got = p ? (int) ((N*) p - pool) : -1; o.ret = clock++; ops.push_back(o);
        if (!p) break; if (o.got < 0 || o.got >= nn) H::fail("pop", "drained something never pushed"); for (auto& z : own) for (int x : z) if (x == o.got) H::fail("twice", "node %d is held by a popper and still in the stack", o.got);
        if (++guard > nn) H::fail("cycle", "more nodes in the stack than exist"); own[0].push_back(o.got); }
    size_t held = 0; for (auto& z : own) held += z.size(); if (held != (size_t) nn) H::fail("lost", "%zu of %d nodes left", held, nn);
    std::vector<bool> used(ops.size(), false); std::vector<int> model; long budget = 3000000;
    if (!lin(ops, used, model, ops.size(), budget)) {
        std::string s; for (auto& o : ops) { s += o.kind ? " pop=" + std::to_string(o.got) : " push"; for (int x : o.nodes) s += "." + std::to_string(x); s += "[" + std::to_string(o.inv) + "," + std::to_string(o.ret) + ")@" + std::to_string(o.who); }
        H::fail("linearizability", "no order explains:%s", s.c_str()); }
    if (budget < 0) H::stats["undecided_histories"]++;
    H::stats["histories"]++; H::stats["steps"] += S::steps; H::stats["policy_" + std::to_string((int) S::policy)]++; H::sig(S::hash);
    if (H::sample_text.empty() && nf == 3 && per >= 3) { for (auto& o : ops) { H::sample_text += o.kind ? "pop=" + std::to_string(o.got) + " " : "push "; } }
}

// sequential use, long, against a plain vector; tags wrap many times
template <typename ST> static void sequential(uint64_t seed, long n) {
    Rng r(seed); static N pool[300]; ST st; std::vector<int> model, free_; for (int i = 0; i < 300; i++) free_.push_back(i);
    H::where = "sequential";
    for (long k = 0; k < n; k++) {
        if (!free_.empty() && r.chance(50)) { int c = 1 + (int) r.below(std::min<size_t>(free_.size(), 5)); std::vector<int> v; for (int z = 0; z < c; z++) { size_t at = r.below(free_.size()); v.push_back(free_[at]); free_[at] = free_.back(); free_.pop_back(); }
            for (int z = 0; z + 1 < c; z++) pool[v[(size_t) z]].next = &pool[v[(size_t) z + 1]]; st.push((char*) &pool[v[0]], (char*) &pool[v[(size_t) c - 1]]); for (size_t z = v.size(); z-- > 0; ) model.push_back(v[z]); }
        else { char* p = st.try_pop(); int got = p ? (int)((N*) p - pool) : -1, want = model.empty() ? -1 : model.back(); if (got != want) H::fail("lifo", "operation %ld: popped %d, expected %d", k, got, want); if (got >= 0) { model.pop_back(); free_.push_back(got); } }
        H::evals++;
    }
    H::stats["sequential_ops"] += n;
}

// one popper suspended after its j-th step while exactly K other operations bring the same
// node back to the top with another successor: its stale view must not be accepted
template <typename ST> static void aba(long K, int j) {
    static N pool[4]; ST st; N* A = &pool[0]; N* B = &pool[1]; N* C = &pool[2];
    char w[80]; snprintf(w, sizeof w, "popper suspended at step %d for %ld operations", j, K); H::where = w; H::log.clear();
    auto push = [&](N* n) { st.push((char*) n, (char*) n); }; auto pop = [&](N* want) { N* g = (N*) st.try_pop(); if (g != want) H::fail("lifo", "popped %p, expected %p", (void*) g, (void*) want); };
    push(B); push(A);
    char* got = nullptr; S::limit = 100000; S::policy = RANDOM; Fiber* v = S::spawn([&] { got = st.try_pop(); }, false);
    auto resume = [&] { if (v->st != Fiber::DONE) { S::cur = v; swapcontext(&S::main_ctx, &v->ctx); S::cur = nullptr; } };
    for (int i = 0; i < j; i++) resume();
    N* g = v->st == Fiber::DONE ? nullptr : (N*) st.try_pop();
    if (g && g != A && g != B) H::fail("lifo", "popped %p", (void*) g);
    if (g == A) {   // the popper has not taken it yet
        pop(B); long left; N* next; if (K & 1) { next = nullptr; push(A); left = K - 3; } else { next = C; push(C); push(A); left = K - 4; }
        N* D = &pool[3]; for (; left > 0; left -= 2) { push(D); pop(D); }
        S::run();
        if (got != (char*) A) H::fail("aba", "the suspended popper got %p, expected %p", got, (void*) A);
        pop(next); if (next) pop(nullptr);
        H::stats["aba_probes"]++;
    } else { S::run(); while (st.try_pop()) {} }
    H::evals++; H::sigof(77, K, j);
}

int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); long n = opt_i(argc, argv, "--episodes", 20000);
    long only = opt_i(argc, argv, "--only", -1);
    for (long e = 0; e < n; e++) { if (only >= 0 && e != only) continue; uint64_t s = H::mix(seed, (uint64_t) e); if (e & 1) episode<ST3>(s); else episode<ST4>(s); }
    sequential<ST3>(seed, 1500000); sequential<ST4>(seed + 1, 400000);
    for (int j = 1; j <= 4; j++) {
        for (long k = 3; k < 300; k++) { aba<ST3>(k, j); aba<ST4>(k, j); }
        for (int b = 8; b <= 18; b++) for (int d = -1; d <= 1; d++) { aba<ST3>((1l << b) + d, j); aba<ST4>((1l << b) + d, j); }
    }
    H::done();
}
