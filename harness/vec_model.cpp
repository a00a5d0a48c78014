// Random operation histories on pools of fu::vec handles, every handle compared with
// an independent std::vector model after every operation.
// NDEBUG or not, and the sanitizers, are the caller's choice.
#define TODO_FIX_REMOVE_copying_push    // what compiled programs may ask for: items passed by reference
#include <cassert>
#include "common.hpp"
#include <fu/_fulib.cpp>
#include <fu/vec.h>
#include <fu/str.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/LEGACY_slice.h>
#include <fu/vec/view_swap.h>
#include "elems.hpp"

typedef std::vector<uint64_t> M;

template <typename E> struct Sim {
    typedef typename E::T T;
    typedef fu::vec<T> V;
    static constexpr int N = 6;
    static constexpr bool COPY = E::COPY;

    Rng r;
    alignas(V) unsigned char raw[N][sizeof(V)];
    M m[N];
    uint64_t ctr = 1;
    int big;        // size regime of this episode

    V& v(int i) { return *(V*) raw[i]; }

    explicit Sim(uint64_t seed) : r(seed) {
        for (int i = 0; i < N; i++) new (raw[i]) V();
        big = r.range(0, 9);
    }
    ~Sim() { for (int i = 0; i < N; i++) v(i).~V(); }

    uint64_t fresh() { ctr += 1 + r.below(3); uint64_t x = E::mask(ctr * 2654435761u >> 3); return x; }

    int len() {     // a length, biased to representation boundaries
        static const int edges[] = { 0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 30, 31, 32, 47, 48, 63, 64, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 239, 240, 241, 255, 256, 495, 496, 497, 1007, 1008, 1009 };
        int k = r.range(0, 99);
        if (big < 4) return k < 70 ? r.range(0, 6) : k < 90 ? r.range(0, 20) : edges[r.range(0, 21)];
        if (big < 8) return k < 50 ? r.range(0, 20) : k < 85 ? edges[r.range(0, 26)] : r.range(0, 140);
        return k < 40 ? r.range(0, 64) : k < 80 ? edges[r.range(0, (int)(sizeof edges / sizeof *edges) - 1)] : r.range(0, 1200);
    }

    void verify(int i, const char* op) {
        const V& a = v(i);
        const M& b = m[i];
        if ((size_t) a.size() != b.size()) H::fail("size", "after %s: handle %d has size %d, model %zu", op, i, a.size(), b.size());
        if ((bool) a != !b.empty()) H::fail("truth", "after %s: handle %d truth value wrong", op, i);
        const T* d = a.data();
        for (size_t k = 0; k < b.size(); k++)
            if (!E::eq(d[k], b[k])) H::fail("content", "after %s: handle %d item %zu of %zu is not the model's %llu", op, i, k, b.size(), (unsigned long long) b[k]);
        if (!b.empty()) {
            size_t k = r.below(b.size());
            if (!E::eq(a[(int) k], b[k])) H::fail("index", "after %s: handle %d [%zu] wrong", op, i, k);
            if (a.begin() != d || a.end() != d + b.size()) H::fail("iter", "after %s: begin/end wrong", op);
        }
        H::evals++;
    }

    M mk(int n) { M x; for (int i = 0; i < n; i++) x.push_back(fresh()); return x; }
    V build(const M& x) {
        V t;
        int how = r.range(0, 2);
        if (how == 0) t.reserve((int) x.size());
        if (how == 1) t.reserve((int) x.size() + r.range(0, 40));
        for (uint64_t e : x) t.push(E::make(e));
        return t;
    }
    bool inl(int i) { const char* d = (const char*) v(i).data(); const char* p = (const char*) raw[i]; return d >= p && d < p + sizeof(V); }
    int shared(int i) { int n = 0; for (int j = 0; j < N; j++) if (j != i && v(j).data() && v(j).data() == v(i).data()) n++; return n; }

    static void ins(M& a, int at, int del, const M& b) {
        a.erase(a.begin() + at, a.begin() + at + del);
        a.insert(a.begin() + at, b.begin(), b.end());
    }

    const char* step() {
        int i = r.range(0, N - 1), j = r.range(0, N - 2); if (j >= i) j++;
        int k = r.range(0, N - 1);
        V& a = v(i); M& x = m[i]; int n = (int) x.size();
        if (n > (big < 4 ? 60 : big < 8 ? 400 : 3000)) {
            a.clear(); x.clear(); H::step("clear h%d (was %d)", i, n); return "clear";
        }
        int st = (inl(i) ? 0 : a.data() ? 1 : 2) * 2 + (shared(i) ? 1 : 0);
        int op = r.range(0, 51);
        // how full the block is, as far as it can be seen from outside
        #define LOG(...) do { H::step(__VA_ARGS__); H::sigof(op, H::bucket(n), st, (int) sizeof(T), COPY); } while (0)
        switch (op) {
        case 0: case 1: { uint64_t e = fresh(); LOG("push h%d(%d)", i, n); a.push(E::make(e)); x.push_back(e); return "push"; }
        case 2: { int c = r.range(1, 20); LOG("push*%d h%d(%d)", c, i, n); while (c--) { uint64_t e = fresh(); a.push(E::make(e)); x.push_back(e); } return "pushes"; }
        case 3: { uint64_t e = fresh(); int at = r.range(0, n); LOG("insert h%d(%d) at %d", i, n, at); a.insert(at, E::make(e)); x.insert(x.begin() + at, e); return "insert"; }
        case 4: { uint64_t e = fresh(); LOG("unshift h%d(%d)", i, n); a.unshift(E::make(e)); x.insert(x.begin(), e); return "unshift"; }
        case 5: if (n) { LOG("pop h%d(%d)", i, n); a.pop(); x.pop_back(); } return "pop";
        case 6: if (n) { LOG("shift h%d(%d)", i, n); a.shift(); x.erase(x.begin()); } return "shift";
        case 7: { int c = r.range(0, n); LOG("shift(%d) h%d(%d)", c, i, n); a.shift(c); x.erase(x.begin(), x.begin() + c); return "shift(n)"; }
        case 8: { int c = r.range(0, n), p = r.range(0, n - c); LOG("shift_pop(%d,%d) h%d(%d)", c, p, i, n); a.shift_pop(c, p); x.erase(x.end() - p, x.end()); x.erase(x.begin(), x.begin() + c); return "shift_pop"; }
        case 9: { int at = r.range(0, n), d = r.chance(30) ? r.range(0, std::min(2, n - at)) : r.range(0, n - at); LOG("splice(%d,%d) h%d(%d)", at, d, i, n); a.splice(at, d); x.erase(x.begin() + at, x.begin() + at + d); return "splice-del"; }
        case 10: { int at = r.range(0, n), d = r.range(0, n - at); M y = mk(len()); LOG("splice(%d,%d,vec&&[%zu]) h%d(%d)", at, d, y.size(), i, n);
            V t = build(y); a.splice(at, d, static_cast<V&&>(t)); ins(x, at, d, y);
            // the moved-from vector must at least be destructible; nothing else is promised
            return "splice-move"; }
        case 11: { M y = mk(len()); int d = r.chance(50) ? 0 : r.range(0, n); LOG("append(%d,vec&&[%zu]) h%d(%d)", d, y.size(), i, n);
            V t = build(y); if (d) a.append(d, static_cast<V&&>(t)); else a.append(fu_ZERO(), static_cast<V&&>(t)); ins(x, n - d, d, y); return "append-move"; }
        case 12: { int s = len(); LOG("resize(%d) h%d(%d)", s, i, n); a.resize(s); x.resize((size_t) s, 0); return "resize"; }
        case 13: { int s = n + r.range(0, 30); LOG("grow(%d) h%d(%d)", s, i, n); a.grow(s); x.resize((size_t) s, 0); return "grow"; }
        case 14: { int s = r.range(0, n); LOG("shrink(%d) h%d(%d)", s, i, n); a.shrink(s); x.resize((size_t) s); return "shrink"; }
        case 15: { LOG("clear h%d(%d)", i, n); a.clear(); x.clear(); return "clear"; }
        case 16: { int s = n + r.range(0, 40); LOG("grow_junk(%d) h%d(%d)", s, i, n); a.template grow<false>(s);
            for (int q = n; q < s; q++) { uint64_t e = fresh(); a.mutref(q) = E::make(e); x.push_back(e); } return "grow-junk"; }
        case 17: { int c = r.chance(50) ? len() : n + r.range(0, 30); LOG("reserve(%d) h%d(%d)", c, i, n); a.reserve(c); verify(i, "reserve");
            if (c > n && r.chance(60)) {    // room that was asked for must be there: no relocation
                const T* d0 = a.data(); int add = c - n;
                while (add--) { uint64_t e = fresh(); a.push(E::make(e)); x.push_back(e); }
                if (a.data() != d0) H::fail("reserve", "reserve(%d) on size %d did not leave room for %d items", c, n, c);
            }
            return "reserve"; }
        case 18: if (n) { int q = r.range(0, n - 1); uint64_t e = fresh(); LOG("mutref(%d) h%d(%d)", q, i, n); a.mutref(q) = E::make(e); x[(size_t) q] = e; } return "mutref";
        case 19: { uint64_t e = fresh(); LOG("data_mut h%d(%d)", i, n); T* d = a.data_mut(); if (n) { int q = r.range(0, n - 1); d[q] = E::make(e); x[(size_t) q] = e; } 
            if (d != a.data()) H::fail("data_mut", "data_mut() is not data()"); return "data_mut"; }
        case 20: { LOG("h%d = move h%d", j, i); v(j) = static_cast<V&&>(a); m[j] = x; a.~V(); new (&a) V(); x.clear(); return "move-assign"; }
        case 21: { LOG("swap h%d h%d", i, j); a.swap(v(j)); x.swap(m[j]); return "swap"; }
        case 22: { LOG("move-ctor h%d(%d)", i, n); V t(static_cast<V&&>(a)); if (a.size()) H::fail("moved", "moved-from vector not empty"); new (&a) V(); a = static_cast<V&&>(t); return "move-ctor"; }
        case 23: { LOG("destructive_move_or_default h%d(%d)", i, n); V t = a.destructive_move_or_default(); if (a.size()) H::fail("moved", "moved-out vector not empty");
            V u = a.destructive_move_or_default(); if (u.size()) H::fail("moved", "moved-out vector yields items"); a = static_cast<V&&>(t); return "move-or-default"; }
        case 24: { int s = r.range(0, n), e = r.range(s, n); LOG("h%d = slice(move h%d, %d, %d) of %d", i, i, s, e, n); a = fu::slice(static_cast<V&&>(a).destructive_move_or_default(), s, e);
            x = M(x.begin() + s, x.begin() + e); return "slice-move"; }
        case 25: { uint64_t p = fresh(), q = fresh(), s = fresh(); LOG("literal -> h%d", i); if (r.chance(50)) a = V { { E::make(p), E::make(q), E::make(s) } }; else a = V(fu::slate<3, T> { { E::make(p), E::make(q), E::make(s) } }); x = M { p, q, s }; return "literal"; }
        case 26: { int at = r.range(0, n), d = r.range(0, n - at), c = r.range(0, 30); LOG("splice_empty(%d,%d,%d) h%d(%d)", at, d, c, i, n); a.splice_empty(at, d, c); ins(x, at, d, M((size_t) c, 0)); return "splice-empty"; }
        case 27: { uint64_t e = fresh(); LOG("h%d += item (%d)", i, n); a += E::make(e); x.push_back(e); return "+=item"; }
        case 28: { uint64_t e = fresh(); bool f = r.chance(50); LOG("h%d = %s", i, f ? "move + item" : "item + move"); T it = E::make(e); V t = a.destructive_move_or_default();
            if (f) a = static_cast<V&&>(t) + static_cast<T&&>(it); else a = static_cast<T&&>(it) + static_cast<V&&>(t);
            x.insert(f ? x.end() : x.begin(), e); return "item-concat"; }
        case 29: { LOG("h%d = move h%d + move h%d", i, i, j); V t = a.destructive_move_or_default(), u = v(j).destructive_move_or_default(); a = static_cast<V&&>(t) + static_cast<V&&>(u);
            x.insert(x.end(), m[j].begin(), m[j].end()); m[j].clear(); return "move+move"; }
        case 30: if (n > 1) { int p = r.range(0, n - 1), q = r.range(0, n - 1); LOG("view_swap(%d,%d) h%d(%d)", p, q, i, n); fu::view_swap(a, p, q); std::swap(x[(size_t) p], x[(size_t) q]); } return "view_swap";
        default: break;
        }
        if constexpr (COPY) switch (op) {
        case 31: case 32: case 33: { LOG("h%d = copy h%d(%d)", j, i, n); v(j) = V(a); m[j] = x; return "copy"; }
        case 34: { LOG("h%d = h%d (%d)", j, i, n); v(j) = a; m[j] = x; return "copy-assign"; }
        case 35: { int s = r.range(0, n), e = r.chance(30) ? n : r.range(s, n); if (r.chance(30)) s = 0; LOG("h%d = slice(h%d,%d,%d) of %d", j, i, s, e, n); v(j) = fu::slice((const V&) a, s, e); m[j] = M(x.begin() + s, x.begin() + e); return "slice-copy"; }
        case 36: { int s = r.range(0, n), e = r.range(s, n), d = r.chance(60) ? 0 : r.range(0, n); LOG("append(%d, own [%d,%d)) h%d(%d)", d, s, e, i, n); M y(x.begin() + s, x.begin() + e);
            a.append(d, fu::get_view((const V&) a, s, e)); ins(x, n - d, d, y); return "append-self"; }
        case 37: { int s = r.range(0, n), e = r.range(s, n), at = r.range(0, n), d = r.range(0, n - at); LOG("splice(%d,%d, own [%d,%d)) h%d(%d)", at, d, s, e, i, n); M y(x.begin() + s, x.begin() + e);
            a.splice(at, d, fu::get_view((const V&) a, s, e)); ins(x, at, d, y); return "splice-self"; }
        case 38: { int s = r.range(0, n), e = r.range(s, n); V& b = v(j); int bn = (int) m[j].size(); int at = r.range(0, bn), d = r.range(0, bn - at); LOG("h%d(%d).splice(%d,%d, view h%d [%d,%d))", j, bn, at, d, i, s, e);
            M y(x.begin() + s, x.begin() + e); b.splice(at, d, fu::get_view((const V&) a, s, e)); ins(m[j], at, d, y); return "splice-view"; }
        case 39: { V& b = v(j); int bn = (int) m[j].size(); int d = r.chance(60) ? 0 : r.range(0, bn); LOG("h%d(%d).append(%d, h%d(%d))", j, bn, d, i, n); b.append(d, (const V&) a); ins(m[j], bn - d, d, x); return "append-vec"; }
        case 40: { LOG("h%d += h%d", i, k); M y = m[k]; a += (const V&) v(k); x.insert(x.end(), y.begin(), y.end()); return "+=vec"; }
        case 41: { LOG("h%d = h%d + h%d", j, i, k); M y = x; y.insert(y.end(), m[k].begin(), m[k].end()); v(j) = (const V&) a + (const V&) v(k); m[j] = y; return "vec+vec"; }
        case 42: { LOG("h%d = h%d + move(copy h%d)", j, i, k); M y = x; y.insert(y.end(), m[k].begin(), m[k].end()); V t(v(k)); v(j) = (const V&) a + static_cast<V&&>(t); m[j] = y; return "vec+move"; }
        case 43: { LOG("h%d = move(copy h%d) + h%d", j, i, k); M y = x; y.insert(y.end(), m[k].begin(), m[k].end()); V t(a); v(j) = static_cast<V&&>(t) + (const V&) v(k); m[j] = y; return "move+vec"; }
        case 44: { int s = r.range(0, n), e = r.range(s, n); LOG("h%d = view + view / vec + view / view + vec", j); M y(x.begin() + s, x.begin() + e); auto w = fu::get_view((const V&) a, s, e); M z = m[k];
            int how = r.range(0, 3); V t;
            if (how == 0) { t = w + fu::get_view((const V&) v(k), 0); y.insert(y.end(), z.begin(), z.end()); }
            if (how == 1) { t = (const V&) v(k) + w; z.insert(z.end(), y.begin(), y.end()); y = z; }
            if (how == 2) { t = w + (const V&) v(k); y.insert(y.end(), z.begin(), z.end()); }
            if (how == 3) { uint64_t f = fresh(); t = w + E::make(f); y.push_back(f); }
            v(j) = static_cast<V&&>(t); m[j] = y; return "view-concat"; }
        case 45: { LOG("h%d.splice(.., move(copy h%d)) ", j, i); V t(a); V& b = v(j); int bn = (int) m[j].size(); int at = r.range(0, bn), d = r.range(0, bn - at); M y = x; b.splice(at, d, static_cast<V&&>(t)); ins(m[j], at, d, y); return "splice-shared-move"; }
        case 46: { LOG("h%d.append(move(copy self|other h%d))", j, i); V t(r.chance(50) ? a : v(j)); M y = (t.data() == a.data() && t.size() == n) ? x : m[j]; 
            y.clear(); for (int q = 0; q < t.size(); q++) y.push_back(0); 
            const M& src = (size_t) t.size() == x.size() && same(t, x) ? x : m[j]; y = src;
            V& b = v(j); int bn = (int) m[j].size(); int d = r.chance(60) ? 0 : r.range(0, bn); b.append(d, static_cast<V&&>(t)); ins(m[j], bn - d, d, y); return "append-shared-move"; }
        // a vector's own item as the argument
        case 47: if (n) { int q = r.range(0, n - 1); LOG("push own [%d] h%d(%d)", q, i, n); uint64_t e = x[(size_t) q]; a.push(((const V&) a)[q]); x.push_back(e); } return "push-own";
        case 48: if (n) { int q = r.range(0, n - 1), at = r.range(0, n); LOG("insert own [%d] at %d h%d(%d)", q, at, i, n); uint64_t e = x[(size_t) q]; a.insert(at, ((const V&) a)[q]); x.insert(x.begin() + at, e); } return "insert-own";
        case 49: if (n) { int q = r.range(0, n - 1); LOG("unshift own [%d] h%d(%d)", q, i, n); uint64_t e = x[(size_t) q]; a.unshift(((const V&) a)[q]); x.insert(x.begin(), e); } return "unshift-own";
        case 50: if (n) { int q = r.range(0, n - 1); LOG("h%d += own [%d] (%d)", i, q, n); uint64_t e = x[(size_t) q]; a += ((const V&) a)[q]; x.push_back(e); } return "+=own";
        case 51: { LOG("h%d = h%d", i, i); const V& same_one = a; a = same_one; return "self-assign"; }
        }
        return "nothing";
    }
    bool same(const V& t, const M& y) { for (size_t q = 0; q < y.size(); q++) if (!E::eq(t[(int) q], y[q])) return false; return true; }

    // every element that exists is owned by exactly one block; handles share blocks
    void lifetime(const char* op) {
        if constexpr (std::is_same<E, e_track>::value || std::is_same<E, e_uniq>::value) {
            if (Cnt::bad) H::fail("destroy", "after %s: an element was destroyed that had been damaged, or destroyed before", op);
            long want = 0, most = 0; std::map<const void*, std::vector<int>> blocks;
            for (int i = 0; i < N; i++) { most += (long) m[i].size(); if (!m[i].empty()) blocks[v(i).data()].push_back(i); }
            most = 0; want = 0;
            for (auto& b : blocks) { long w = 0; for (int i : b.second) { long nz = 0; for (uint64_t e : m[i]) nz += e != 0; w = std::max(w, nz); } want += w; }
            if (Cnt::live != want) H::fail("live", "after %s: %ld elements alive, %ld reachable", op, Cnt::live, want);
        }
    }

    void episode(int steps) {
        for (int s = 0; s < steps; s++) {
            const char* op = step();
            H::stats[std::string("op:") + op]++;
            for (int i = 0; i < N; i++) verify(i, op);
            lifetime(op);
        }
    }
};

template <typename E> void drive(uint64_t seed, long episodes, int steps, long only) {
    for (long e = 0; e < episodes; e++) {
        if (only >= 0 && e != only) continue;
        char w[128]; snprintf(w, sizeof w, "%s seed %llu episode %ld", E::name(), (unsigned long long) seed, e);
        H::where = w; H::log.clear();
        long live0 = Cnt::live;
        {
            Sim<E> sim(H::mix(seed, (uint64_t) e * 7919 + 13));
            sim.episode(steps);
        }
        if (Cnt::live != live0) H::fail("leak", "%ld elements alive after every handle is gone", Cnt::live - live0);
        if (Cnt::bad) H::fail("destroy", "an element was destroyed that had been damaged, or destroyed before");
        if (e == 0) { H::sample_text = std::string(E::name()) + ": "; for (size_t q = 0; q < H::log.size() && q < 8; q++) H::sample_text += H::log[q] + "; "; }
    }
}

int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1);
    long ep = opt_i(argc, argv, "--episodes", 20);
    int steps = (int) opt_i(argc, argv, "--steps", 150);
    long only = opt_i(argc, argv, "--only", -1);
    std::string t = opt(argc, argv, "--type", "");
    H::seed = seed;
    bool ran = false;
    #define D(E) if (t.empty() || t == #E) { drive<E>(H::mix(seed, sizeof(typename E::T) * 131 + sizeof(#E)), ep, steps, only); ran = true; }
#ifdef GROUP_A
    D(e_char) D(e_short) D(e_int) D(e_p3) D(e_u8)
#endif
#ifdef GROUP_B
    D(e_long) D(e_double) D(e_p6) D(e_p12) D(e_p16) D(e_p24) D(e_a16) D(e_bool)
#endif
#ifdef GROUP_C
    D(e_track) D(e_uniq) D(e_str)
#endif
#ifdef GROUP_D
    D(e_vecs) D(e_mix)
#endif
    if (!ran) { puts("no such type"); return 2; }
    H::done();
    return 0;
}
