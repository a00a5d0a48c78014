// C11: blocks are as large as they claim, distinct, aligned; what cannot be satisfied ends
// the program with exit code 101.
#include <cassert>
#include <sys/wait.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include "common.hpp"
#include <fu/_fulib.cpp>
#include <fu/vec.h>
#include <fu/str.h>
#include <fu/vec_range.h>
struct Blk { char* p; size_t bytes; uint64_t key; bool arc; };
static void paint(Blk& b) { Rng r(b.key); for (size_t i = 0; i < b.bytes; i += b.bytes > 65536 ? 509 : 1) b.p[i] = (char) (b.key + i * 7); b.p[b.bytes - 1] = (char) b.key; }
static void verify(Blk& b) { for (size_t i = 0; i < b.bytes; i += b.bytes > 65536 ? 509 : 1) if (i != b.bytes - 1 && b.p[i] != (char) (b.key + i * 7)) H::fail("content", "byte %zu of a %zu byte block changed", i, b.bytes); if (b.p[b.bytes - 1] != (char) b.key) H::fail("content", "last byte of a %zu byte block changed", b.bytes); }
static Blk get(size_t want, bool arc, uint64_t key) {
    size_t n = want; char* p = arc ? fu_ARC_ALLOC(&n) : fu_UNIQ_ALLOC(&n); if (!p) H::fail("null", "null block for %zu bytes", want);
    if (n < want) H::fail("short", "%zu bytes asked for, %zu given", want, n); if (n > 0x7fffffffu) H::fail("i32", "capacity %zu does not fit", n);
    if ((uintptr_t) p & 15) H::fail("align", "block at %p", p); if (n > 256 && n > want * 4 + 4096) H::fail("waste", "%zu bytes asked for, %zu given", want, n);
    Blk b { p, n, key, arc }; paint(b); H::evals++; H::sigof(1, arc, n); return b;
}
static void put(Blk& b, Rng& r, size_t want) { verify(b); // the size handed back may be any size rounding to the same block
    if (b.arc) fu_ARC_DEALLOC((fu_ARC*) (b.p - sizeof(fu_ARC)), b.bytes + 0); else fu_UNIQ_DEALLOC(b.p, b.bytes); }
static void blocks(Rng& r, long n) {
    std::vector<Blk> live; H::where = "blocks";
    for (long k = 0; k < n; k++) {
        if (live.size() < 40 && r.chance(55)) { size_t want = r.chance(50) ? (size_t) r.range(1, 600) : r.chance(80) ? (size_t) r.range(1, 70000) : ((size_t) 1 << r.range(7, 22)) + (size_t) r.range(0, 40) - 20; live.push_back(get(want, r.chance(60), r.next())); }
        else if (!live.empty()) { size_t i = r.below(live.size()); put(live[i], r, 0); live[i] = live.back(); live.pop_back(); }
    }
    for (auto& b : live) put(b, r, 0);
}
template <typename T> static void vecs(Rng& r, int max_bits) {
    char w[60]; snprintf(w, sizeof w, "vec of %zu byte items", sizeof(T)); H::where = w;
    for (int bit = 0; bit <= max_bits; bit++) for (int d = -1; d <= 1; d++) {
        int n = (int) ((1l << bit) + d); if (n < 1) continue; if (n > 300000 && d == 0 && r.chance(50)) continue;
        fu::vec<T> v; int how = r.range(0, 3);
        if (how == 0) v.grow(n); else if (how == 1) { v.reserve(n); v.grow(n); } else if (how == 2) { v.grow(n / 2 + 1); v.grow(n < n / 2 + 1 ? n / 2 + 1 : n); } else { v.resize(n); }
        n = v.size(); T* p = v.data_mut(); p[0] = (T) 11; p[n - 1] = (T) 22; if (n > 2) p[n / 2] = (T) 33;
        auto look = [&](const fu::vec<T>& x, const char* what) { if (x.size() < n) H::fail("size", "%s: size %d, expected %d", what, x.size(), n); const T* q = x.data(); if (n > 2 && (q[0] != (T) 11 || q[n - 1] != (T) 22 || q[n / 2] != (T) 33)) H::fail("content", "%s: items of %d changed", what, n); };
        look(v, "fresh"); { fu::vec<T> c(v); look(c, "copy"); c.push((T) 44); look(c, "copy+push"); if (c[n] != (T) 44) H::fail("content", "pushed item"); look(v, "original"); if (v.size() != n) H::fail("size", "original grew"); }
        for (int z = 0; z < 5; z++) v.push((T) 55); look(v, "push"); if (v.size() != n + 5) H::fail("size", "after 5 pushes: %d, expected %d", v.size(), n + 5); fu::vec<T> m((fu::vec<T>&&) v); look(m, "moved"); m.shrink(n); look(m, "shrunk"); m.pop(); if (m.size() != n - 1) H::fail("size", "after pop");
        H::evals++; H::sigof(2, sizeof(T), bit, d, how);
    }
}
// a request too big to satisfy, in a child: the program must end with 101
enum What { W_ARC, W_UNIQ, W_GROW_C, W_GROW_L, W_RESERVE_L, W_APPEND, W_DOUBLE, W_N };
static void refuse(What what, size_t n, long limit_mb, bool must, const char* txt) {
    int pp[2]; if (pipe(pp)) return; fflush(stdout); pid_t p = fork();
    if (!p) {
        alarm(60); if (limit_mb) { rlimit rl { (rlim_t) limit_mb << 20, (rlim_t) limit_mb << 20 }; setrlimit(RLIMIT_AS, &rl); }
        size_t m = n; char* q = nullptr; size_t have = 0; int rc = 0;
        switch (what) {
        case W_ARC: q = fu_ARC_ALLOC(&m); have = m; break; case W_UNIQ: q = fu_UNIQ_ALLOC(&m); have = m; break;
        case W_GROW_C: { static fu::vec<char> v; v.grow((int) n); q = v.data_mut(); have = (size_t) v.size(); break; }
        case W_GROW_L: { static fu::vec<long> v; v.grow((int) n); q = (char*) v.data_mut(); have = (size_t) v.size() * 8; n *= 8; break; }
        case W_RESERVE_L: { static fu::vec<long> v; v.reserve((int) n); v.resize((int) n); q = (char*) v.data_mut(); have = (size_t) v.size() * 8; n *= 8; break; }
        case W_APPEND: { static fu::vec<int> v; v.grow((int) n); fu::vec<int> w(v); v.append(fu_ZERO(), (fu::vec<int>&&) w); q = (char*) v.data_mut(); have = (size_t) v.size() * 4; n *= 8; break; }
        case W_DOUBLE: { static fu::vec<int> v; v.grow(1000); for (int k = 0; k < 64 && (size_t) v.size() < n; k++) { fu::vec<int> w(v); v.append(fu_ZERO(), (fu::vec<int>&&) w); } q = (char*) v.data_mut(); have = (size_t) v.size() * 4; n *= 4; break; }
        default: break;
        }
        if (have < n) rc = 1; else if (!q) rc = 2; else { q[0] = 1; q[n - 1] = 2; q[n / 2] = 3; }
        char c = (char) rc; (void) !write(pp[1], &c, 1); _exit(50);
    }
    close(pp[1]); char c = 77; ssize_t got = read(pp[0], &c, 1); close(pp[0]); int st; waitpid(p, &st, 0); H::evals++; H::sigof(3, what, n, limit_mb); H::where = txt;
    if (got == 1) { if (c == 1) H::fail("short", "%s of %zu: fewer bytes than asked for", txt, n); if (c == 2) H::fail("null", "%s of %zu: null", txt, n); if (must) H::fail("oversize", "%s of %zu: satisfied, though it cannot be", txt, n); H::stats["satisfied"]++; return; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 101) { H::stats["refused_101"]++; return; }
    #if !fu_RETAIL
    // std::exit runs the leak detector of such builds, which aborts: the program ended, which is what counts
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { H::stats["refused_leak_abort"]++; return; }
    #endif
    H::fail("badalloc", "%s of %zu%s: ended by %s %d, expected exit code 101", txt, n, limit_mb ? " with little memory" : "", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
}
int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); long n = opt_i(argc, argv, "--episodes", 20000); int bits = (int) opt_i(argc, argv, "--bits", 22); bool big = opt_i(argc, argv, "--big", 0); Rng r(seed);
    blocks(r, n);
    for (int w = 1; w < 3000; w++) { Blk a = get((size_t) w, true, r.next()), b = get((size_t) w, false, r.next()); verify(a); put(b, r, 0); put(a, r, 0); }
    vecs<char>(r, bits + 3); vecs<short>(r, bits + 1); vecs<int>(r, bits); vecs<long>(r, bits - 1); vecs<double>(r, bits - 1);
    if (big) {
        for (size_t d = 0; d < 40; d++) { refuse(W_ARC, 0x80000000ull - 16 + d, 0, d > 0, "fu_ARC_ALLOC"); refuse(W_UNIQ, 0x80000000ull - 20 + d, 0, d > 20, "fu_UNIQ_ALLOC"); }
        for (size_t x : { 0x80000001ull, 0xc0000000ull, 0xfffffff0ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000080ull, 0x180000000ull, 0x200000010ull, 0x7fffffffffull, 0x3ffffffff8ull }) { refuse(W_ARC, x, 0, true, "fu_ARC_ALLOC"); refuse(W_UNIQ, x, 0, true, "fu_UNIQ_ALLOC"); }
        for (size_t x : { 0x7fffffffull, 0x7ffffff0ull, 0x60000000ull, 0x40000001ull }) { refuse(W_GROW_C, x, 0, false, "vec<char>.grow"); refuse(W_GROW_L, x, 0, true, "vec<long>.grow"); refuse(W_RESERVE_L, x, 0, true, "vec<long>.reserve"); }
        refuse(W_GROW_L, 0x10000000ull, 0, true, "vec<long>.grow"); refuse(W_GROW_L, 0x20000000ull, 0, true, "vec<long>.grow"); refuse(W_GROW_L, 0x20000010ull, 0, true, "vec<long>.grow");
        refuse(W_APPEND, 0x10000000ull, 0, true, "vec<int> doubled by append"); refuse(W_DOUBLE, 0x20000000ull, 0, true, "vec<int> doubled until too big");
        for (size_t x : { 200ull << 20, 400ull << 20, 800ull << 20 }) { refuse(W_ARC, x, 150, true, "fu_ARC_ALLOC"); refuse(W_UNIQ, x, 150, true, "fu_UNIQ_ALLOC"); refuse(W_GROW_C, x, 150, true, "vec<char>.grow"); refuse(W_GROW_L, x / 8, 150, true, "vec<long>.grow"); }
    }
    H::sample_text = "sizes around every power of two, allocations above 2 GB, allocations with little memory"; H::done();
}
