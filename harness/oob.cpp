// Accesses outside a container: an index is always stopped at once, a cursor is
// either stopped (debug) or clamped into the container (release); nothing else is touched.
#include <cassert>
#include <csetjmp>
#include <csignal>
#include "common.hpp"

static sigjmp_buf JB; static volatile int armed = 0; static volatile uintptr_t fault_at = 0; static volatile int how = 0;
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
    if (armed) { how = SIGABRT; siglongjmp(JB, 1); }
    printf("\nVIOL assert | assertion %s failed at %s:%u during a valid operation\n", e, f, l); fflush(stdout); _exit(3);
}
static void on_sig(int s, siginfo_t* si, void*) {
    if (armed) { how = s; fault_at = (uintptr_t) si->si_addr; siglongjmp(JB, 1); }
    printf("\nVIOL crash | signal %d at %p during a valid operation (%s)\n", s, si->si_addr, H::where.c_str()); H::dump_log(stdout); fflush(stdout); _exit(3);
}

#include <fu/_fulib.cpp>
#include <fu/vec.h>
#include <fu/str.h>
#include <fu/vec_range.h>
#include <fu/vec/LEGACY_slice.h>
#include "elems.hpp"

#ifdef NDEBUG
static constexpr bool REL = true;
#else
static constexpr bool REL = false;
#endif

template <typename F> bool stopped(F f) {
    how = 0; fault_at = 0; armed = 1;
    if (sigsetjmp(JB, 1) == 0) { f(); armed = 0; return false; }
    armed = 0;
    return true;
}

template <typename T> static void touch(const T& t) {
    // force a real read of the item
    const volatile unsigned char* p = (const volatile unsigned char*) &t; volatile unsigned char c = *p; (void) c;
}
template <typename T> static void poke(T& t) { volatile unsigned char* p = (volatile unsigned char*) &t; *p = 0x55; }

// what: short name; the operation must not come back, and must fault near address zero
#define MUST_STOP(what, idx, n, ...) do { \
    bool st = stopped([&] { __VA_ARGS__; }); \
    if (!st) H::fail("unstopped", "%s index %d of %d was not stopped", what, (int)(idx), (int)(n)); \
    if (how == SIGSEGV || how == SIGBUS) { if (fault_at > 65536) H::fail("wild", "%s index %d of %d touched address %p", what, (int)(idx), (int)(n), (void*) fault_at); } \
    H::evals++; H::stats[what]++; H::sigof((int) H::bucket(n), idx < 0 ? 1 : idx == n ? 2 : idx < 2 * n + 3 ? 3 : 4, sizeof(what), sizeof(T), how); } while (0)

static int bad_index(Rng& r, int n) {
    switch (r.range(0, 9)) {
    case 0: return n; case 1: return -1; case 2: return n + 1; case 3: return INT32_MIN; case 4: return INT32_MAX;
    case 5: return -1 - r.range(0, n + 5); case 6: return n + r.range(0, 40); case 7: return INT32_MIN + r.range(0, 1000); case 8: return INT32_MAX - r.range(0, 1000);
    default: { int v; do v = (int) r.next(); while (v >= 0 && v < n); return v; }
    }
}

template <typename E> void indexing(Rng& r, int rounds) {
    typedef typename E::T T; typedef fu::vec<T> V;
    for (int k = 0; k < rounds; k++) {
        int n = r.chance(25) ? 0 : r.chance(60) ? r.range(0, 20) : r.range(0, 300);
        H::where = std::string(E::name()) + " size " + std::to_string(n);
        V a; std::vector<uint64_t> x; for (int q = 0; q < n; q++) { uint64_t e = E::mask(r.next() | 1); x.push_back(e); a.push(E::make(e)); }
        if (r.chance(30)) { a.reserve(n + r.range(0, 60)); }
        V keep; bool sh = false; if constexpr (E::COPY) if (r.chance(40)) { keep = V(a); sh = true; }
        int b = bad_index(r, n);
        MUST_STOP("vec[]", b, n, touch(((const V&) a)[b]));
        MUST_STOP("vec.mutref", b, n, poke(a.mutref(b)));
        int s = r.range(0, n), e = r.range(s, n), w = e - s; int c = bad_index(r, w);
        { auto g = fu::get_view((const V&) a, s, e); MUST_STOP("view[]", c, w, touch(g[c])); }
        { auto g = fu::get_view_mut(a, s, e); MUST_STOP("view_mut[]", c, w, touch(((const fu::view_mut<T>&) g)[c])); MUST_STOP("view_mut.mutref", c, w, poke(g.mutref(c))); }
        { auto g = fu::get_range((const V&) a, s, e); MUST_STOP("range[]", c, w, touch(g[c])); }
        { auto g = fu::get_range_mut(a, s, e); MUST_STOP("range_mut[]", c, w, touch(((const fu::vec_range_mut<T>&) g)[c])); MUST_STOP("range_mut.mutref", c, w, poke(g.mutref(c))); }
        { fu::view<T> g; int z = bad_index(r, 0); MUST_STOP("empty view[]", z, 0, touch(g[z])); }
        { V g; int z = bad_index(r, 0); MUST_STOP("empty vec[]", z, 0, touch(((const V&) g)[z])); MUST_STOP("empty vec.mutref", z, 0, poke(g.mutref(z))); }
        // nothing in range is ever stopped, and nothing was damaged by the attempts
        for (int q = 0; q < n; q++) { if (!E::eq(((const V&) a)[q], x[(size_t) q])) H::fail("damage", "item %d of %d damaged", q, n); }
        if (n) { int q = r.range(0, n - 1); uint64_t f = E::mask(r.next() | 1); a.mutref(q) = E::make(f); if (!E::eq(a[q], f)) H::fail("valid", "valid write lost"); }
        if (sh) for (int q = 0; q < n; q++) if (!E::eq(((const V&) keep)[q], x[(size_t) q])) H::fail("damage", "item %d of another holder damaged", q);
    }
}
static void literals(Rng& r) {
    typedef int T; (void) sizeof(T);
    for (int k = 0; k < 400; k++) {
        fu::slate<3, int> s { { 1, 2, 3 } }; int b = bad_index(r, 3); H::where = "slate";
        MUST_STOP("slate[]", b, 3, touch(((const fu::slate<3, int>&) s)[b])); MUST_STOP("slate.mutref", b, 3, poke(s.mutref(b)));
        if (s[0] != 1 || s[1] != 2 || s[2] != 3) H::fail("damage", "slate damaged");
        auto lit = "some text"_fu; int c = bad_index(r, 9); MUST_STOP("strlit[]", c, 9, touch(lit[c]));
        auto lv = "some text"_view; MUST_STOP("literal view[]", c, 9, touch(lv[c]));
    }
}

static int cl(long x, long lo, long hi) { return (int)(x < lo ? lo : x > hi ? hi : x); }

// cursors
template <typename E> void cursors(Rng& r, int rounds) {
    typedef typename E::T T; typedef fu::vec<T> V; typedef std::vector<uint64_t> M;
    for (int k = 0; k < rounds; k++) {
        int n = r.chance(30) ? r.range(0, 3) : r.chance(60) ? r.range(0, 20) : r.range(0, 200);
        M x; for (int q = 0; q < n; q++) x.push_back(E::mask(r.next() | 1));
        V a; for (uint64_t e : x) a.push(E::make(e));
        V keep; if constexpr (E::COPY) if (r.chance(40)) keep = V(a);
        M x0 = x;
        auto any = [&]() -> int { int t = r.range(0, 9); return t < 4 ? r.range(0, n) : t < 6 ? n + r.range(1, 30) : t < 8 ? -r.range(1, 30) : r.chance(50) ? 1000000 + r.range(0, 99) : -1000000; };
        int p = any(), q = any(), d = any(); int op = r.range(0, 21); bool valid = true; uint64_t f = E::mask(r.next() | 1);
        M y; int c = r.range(0, 20); for (int z = 0; z < c; z++) y.push_back(E::mask(r.next() | 1));
        V src; for (uint64_t e : y) src.push(E::make(e));
        H::where = std::string(E::name()); H::log.clear(); H::step("op %d on size %d with %d %d %d, %d new", op, n, p, q, d, c);
        int P = cl(p, 0, n), D = cl(d, 0, n - P);
        auto del = [&](int at, int cnt) { x.erase(x.begin() + at, x.begin() + at + cnt); };
        bool st = false; M got; bool have = false;
        #define TAKE(...) do { auto w_ = __VA_ARGS__; have = true; for (int z = 0; z < w_.size(); z++) { bool ok_ = false; for (uint64_t e : x0) if (E::eq(w_.data()[z], e)) { ok_ = true; got.push_back(e); break; } if (!ok_) H::fail("clamp", "a slice yields something that is not an item of the container"); } } while (0)
        switch (op) {
        case 0: valid = p >= 0 && p <= n; st = stopped([&] { a.insert(p, E::make(f)); }); x.insert(x.begin() + P, f); break;
        case 1: valid = p >= 0 && p <= n && d >= 0 && d <= n - p; st = stopped([&] { a.splice(p, d); }); del(P, D); break;
        case 2: valid = p >= 0 && p <= n && d >= 0 && d <= n - p; st = stopped([&] { a.splice(p, d, static_cast<V&&>(src)); }); del(P, D); x.insert(x.begin() + P, y.begin(), y.end()); break;
        case 3: valid = d >= 0 && d <= n; D = cl(d, 0, n); st = stopped([&] { a.append(d, static_cast<V&&>(src)); }); del(n - D, D); x.insert(x.end(), y.begin(), y.end()); break;
        case 4: valid = n > 0; st = stopped([&] { a.pop(); }); if (n) x.pop_back(); break;
        case 5: valid = n > 0; st = stopped([&] { a.shift(); }); if (n) x.erase(x.begin()); break;
        case 6: valid = p >= 0 && p <= n; st = stopped([&] { a.shift(p); }); del(0, P); break;
        case 7: valid = p >= 0 && d >= 0 && p + d <= n; st = stopped([&] { a.shift_pop(p, d); }); del(n - D, D); del(0, P); break;
        case 8: valid = p >= 0 && p <= n; st = stopped([&] { a.shrink(p); }); x.resize((size_t) P); break;
        case 9: if (p > 999999) p = n + 50; valid = p >= n; st = stopped([&] { a.grow(p); }); x.resize((size_t) std::max(p, n), 0); break;
        case 10: if (p > 999999) p = n + 50; valid = p >= 0; st = stopped([&] { a.resize(p); }); x.resize((size_t) std::max(p, 0), 0); break;
        case 11: { int b0 = cl(q, 0, n), a0 = cl(p, 0, b0); valid = p >= 0 && p <= q && q <= n; st = stopped([&] { TAKE(fu::get_view((const V&) a, p, q)); }); if (have && got != M(x.begin() + a0, x.begin() + b0)) H::fail("clamp", "get_view(%d, %d) of %d", p, q, n); break; }
        case 12: { valid = p >= 0 && p <= n; st = stopped([&] { TAKE(fu::get_view((const V&) a, p)); }); if (have && got != M(x.begin() + P, x.end())) H::fail("clamp", "get_view(%d) of %d", p, n); break; }
        case 13: { valid = p >= 0 && p <= n; st = stopped([&] { TAKE(fu::get_view_start0((const V&) a, p)); }); if (have && got != M(x.begin(), x.begin() + P)) H::fail("clamp", "get_view(..%d) of %d", p, n); break; }
        case 14: { int b0 = cl(q, 0, n), a0 = cl(p, 0, b0); valid = p >= 0 && p <= q && q <= n; bool mu = r.chance(50); st = stopped([&] { if (mu) TAKE(fu::get_range_mut(a, p, q)); else TAKE(fu::get_range((const V&) a, p, q)); }); if (have && got != M(x.begin() + a0, x.begin() + b0)) H::fail("clamp", "get_range(%d, %d) of %d", p, q, n); break; }
        case 15: { valid = p >= 0 && p <= n; bool mu = r.chance(50); st = stopped([&] { if (mu) TAKE(fu::get_range_mut(a, p)); else TAKE(fu::get_range((const V&) a, p)); }); if (have && got != M(x.begin() + P, x.end())) H::fail("clamp", "get_range(%d) of %d", p, n); break; }
        case 16: { valid = p >= 0 && p <= n; bool mu = r.chance(50); st = stopped([&] { if (mu) TAKE(fu::get_range_start0_mut(a, p)); else TAKE(fu::get_range_start0((const V&) a, p)); }); if (have && got != M(x.begin(), x.begin() + P)) H::fail("clamp", "get_range(..%d) of %d", p, n); break; }
        case 17: { int b0 = cl(q, 0, n), a0 = cl(p, 0, b0); valid = p >= 0 && p <= q && q <= n; bool mu = r.chance(50); st = stopped([&] { if (mu) TAKE(fu::get_view_mut(a, p, q)); else TAKE(fu::get_view_start0_mut(a, q)); }); if (!mu) { a0 = 0; valid = q >= 0 && q <= n; } if (have && got != M(x.begin() + a0, x.begin() + b0)) H::fail("clamp", "get_view_mut(%d, %d) of %d", p, q, n); break; }
        case 18: valid = p >= 0 && p <= n && d >= 0 && d <= n - p; st = stopped([&] { a.splice_empty(p, d, c); }); del(P, D); x.insert(x.begin() + P, (size_t) c, 0); break;
        case 19: { // through a range of the vector
            int s = r.range(0, n), e = r.range(s, n); int w = e - s; int rp = cl(p, 0, w); valid = p >= 0 && p <= w; auto g = fu::get_range_mut(a, s, e); int sub = r.range(0, 3);
            if (sub == 0) { st = stopped([&] { g.insert(p, E::make(f)); }); x.insert(x.begin() + s + rp, f); }
            else if (sub == 1) { st = stopped([&] { g.shrink(p); }); x.erase(x.begin() + s + rp, x.begin() + e); }
            else if (sub == 2) { int rd = cl(d, 0, w - rp); valid = p >= 0 && p < w && d >= 0 && d <= w - p; if (p == w) { valid = true; break; } st = stopped([&] { g.splice(p, d); }); x.erase(x.begin() + s + rp, x.begin() + s + rp + rd); }
            else { valid = w > 0; st = stopped([&] { g.pop(); }); if (w) x.erase(x.begin() + e - 1); }
            break; }
        default:
            if constexpr (E::COPY) {
                if (op == 20) { valid = p >= 0 && p <= n && d >= 0 && d <= n - p; st = stopped([&] { a.splice(p, d, fu::get_view((const V&) src, 0)); }); del(P, D); x.insert(x.begin() + P, y.begin(), y.end()); }
                else { D = cl(d, 0, n); valid = d >= 0 && d <= n; st = stopped([&] { a.append(d, fu::get_view((const V&) src, 0)); }); del(n - D, D); x.insert(x.end(), y.begin(), y.end()); }
            }
        }
        if (valid && st) H::fail("refused", "a valid operation was stopped (signal %d)", how);
        if (!REL && !valid && !st) H::fail("unstopped", "an out-of-range cursor went unnoticed in a checked build");
        if (st && how != SIGABRT && fault_at > 65536) H::fail("wild", "touched address %p", (void*) fault_at);
        if (st) x = x0;     // stopped: nothing changed
        if ((REL && !st) || (st && !REL) || valid) {
            if ((size_t) a.size() != x.size()) H::fail("clamp", "size %d, expected %zu", a.size(), x.size());
            for (size_t z = 0; z < x.size(); z++) if (!E::eq(((const V&) a).data()[z], x[z])) H::fail("clamp", "item %zu of %zu is wrong", z, x.size());
        }
        for (int z = 0; z < keep.size(); z++) if (!E::eq(((const V&) keep)[z], x0[(size_t) z])) H::fail("damage", "another holder's item %d changed", z);
        H::evals++; H::stats["cursor"]++; H::sigof(77, op, valid, st, H::bucket(n), p < 0 ? 0 : p > n ? 2 : 1, d < 0 ? 0 : d > n ? 2 : 1, sizeof(T));
    }
}

int main(int argc, char** argv) {
    Rng r((uint64_t) opt_i(argc, argv, "--seed", 1)); int n = (int) opt_i(argc, argv, "--episodes", 2000);
    struct sigaction sa {}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
    indexing<e_char>(r, n); indexing<e_int>(r, n); indexing<e_long>(r, n); indexing<e_p3>(r, n); indexing<e_p24>(r, n); indexing<e_track>(r, n / 2); indexing<e_str>(r, n / 2);
    literals(r);
    cursors<e_char>(r, 6 * n); cursors<e_int>(r, 6 * n); cursors<e_p24>(r, 4 * n); 
    cursors<e_track>(r, 4 * n); cursors<e_uniq>(r, 4 * n); cursors<e_str>(r, 2 * n);
    H::sample_text = "vec<int> of 3: index 3, -1, INT_MIN, INT_MAX stopped; insert at 30 clamped to the end";
    H::done(); fflush(stdout); _exit(0);
}
