// Views and ranges: random operations through nested ranges/views of pooled vectors,
// compared with the same operation done on a model at the translated position.
#include <cassert>
#include "common.hpp"
#include <fu/_fulib.cpp>
#include <fu/vec.h>
#include <fu/str.h>
#include <fu/vec_range.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/LEGACY_slice.h>
#include <fu/vec/view_swap.h>
#include <fu/vec/view_assign.h>
#include <fu/move_or_default.h>
#include "elems.hpp"

typedef std::vector<uint64_t> M;

template <typename E> struct Sim {
    typedef typename E::T T;
    typedef fu::vec<T> V;
    typedef fu::vec_range_mut<T> RM;
    typedef fu::vec_range<T> RC;
    static constexpr int N = 5;
    Rng r; int big; uint64_t ctr = 1;
    alignas(V) unsigned char raw[N][sizeof(V)];
    M m[N];
    V& v(int i) { return *(V*) raw[i]; }

    explicit Sim(uint64_t seed) : r(seed) { for (int i = 0; i < N; i++) new (raw[i]) V(); big = r.range(0, 3); }
    ~Sim() { for (int i = 0; i < N; i++) v(i).~V(); }
    uint64_t fresh() { ctr += 1 + r.below(3); return E::mask(ctr * 2654435761u >> 3); }
    int len() { return big == 0 ? r.range(0, 8) : big == 1 ? r.range(0, 24) : big == 2 ? r.range(0, 140) : r.range(0, 500); }
    M mk(int n) { M x; while (n-- > 0) x.push_back(fresh()); return x; }
    V build(const M& x) { V t; if (r.chance(50)) t.reserve((int) x.size() + r.range(0, 20)); for (uint64_t e : x) t.push(E::make(e)); return t; }
    static void ins(M& a, int at, int del, const M& b) { a.erase(a.begin() + at, a.begin() + at + del); a.insert(a.begin() + at, b.begin(), b.end()); }

    void verify(int i, const char* op) {
        const V& a = v(i); const M& b = m[i];
        if ((size_t) a.size() != b.size()) H::fail("size", "after %s: vector %d has size %d, model %zu", op, i, a.size(), b.size());
        const T* d = a.data();
        for (size_t k = 0; k < b.size(); k++) if (!E::eq(d[k], b[k])) H::fail("content", "after %s: vector %d item %zu of %zu is not the model's %llu", op, i, k, b.size(), (unsigned long long) b[k]);
        H::evals++;
    }
    template <typename R> void same(const R& g, const M& x, int s, int e, const char* what) {
        if (g.size() != e - s) H::fail("rsize", "%s: size %d, expected %d", what, g.size(), e - s);
        if ((bool) g != (e > s)) H::fail("rtruth", "%s: truth value", what);
        for (int q = s; q < e; q++) if (!E::eq(g[q - s], x[(size_t) q])) H::fail("rcontent", "%s: item %d is not the model's", what, q - s);
        const T* d = g.data();
        for (int q = s; q < e; q++) if (!E::eq(d[q - s], x[(size_t) q])) H::fail("rdata", "%s: data()[%d] is not the model's", what, q - s);
        H::evals++;
    }

    // a range of vector i, possibly by way of nested ranges
    RM pick(int i, int& s, int& e) {
        int n = (int) m[i].size(); s = 0; e = n;
        RM g(v(i));
        int depth = r.range(0, 3);
        while (depth--) {
            int a = r.chance(30) ? 0 : r.range(0, e - s), b = r.chance(30) ? e - s : r.range(a, e - s);
            switch (r.range(0, 2)) {
            case 0: g.ptr_reassign(fu::get_range_mut(g, a, b)); e = s + b; s = s + a; break;
            case 1: g.ptr_reassign(fu::get_range_mut(g, a)); s = s + a; break;
            case 2: g.ptr_reassign(fu::get_range_start0_mut(g, b)); e = s + b; break;
            }
        }
        H::step("range v%d(%d) [%d,%d)", i, n, s, e);
        return g;
    }

    const char* step() {
        int i = r.range(0, N - 1), j = r.range(0, N - 2); if (j >= i) j++;
        M& x = m[i];
        if (x.size() > 900) { v(i).clear(); x.clear(); H::step("clear v%d", i); return "clear"; }
        if (r.chance(10)) { M y = mk(len()); v(i) = build(y); x = y; H::step("v%d = fresh(%zu)", i, y.size()); return "refill"; }
        if constexpr (E::COPY) if (r.chance(12)) { H::step("v%d = copy v%d", i, j); v(i) = V(v(j)); x = m[j]; return "copy"; }
        int s, e; int op = r.range(0, 33);
        RM g = pick(i, s, e);
        int n = e - s;
        H::sigof(op, H::bucket(n), s == 0, e == (int) x.size(), (int) sizeof(T), E::COPY, v(i).data() == v(j).data());
        switch (op) {
        case 0: same(g, x, s, e, "mut range"); return "read";
        case 1: { uint64_t q = fresh(); H::step("push"); g.push(E::make(q)); x.insert(x.begin() + e, q); same(g, x, s, e + 1, "after push"); return "push"; }
        case 2: { uint64_t q = fresh(); int at = r.range(0, n); H::step("insert %d", at); g.insert(at, E::make(q)); x.insert(x.begin() + s + at, q); same(g, x, s, e + 1, "after insert"); return "insert"; }
        case 3: { uint64_t q = fresh(); H::step("unshift"); g.unshift(E::make(q)); x.insert(x.begin() + s, q); same(g, x, s, e + 1, "after unshift"); return "unshift"; }
        case 4: if (n) { H::step("pop"); g.pop(); x.erase(x.begin() + e - 1); same(g, x, s, e - 1, "after pop"); } return "pop";
        case 5: { int t = r.range(0, n + 20); H::step("resize %d", t); g.resize(t); if (t < n) x.erase(x.begin() + s + t, x.begin() + e); else x.insert(x.begin() + e, (size_t)(t - n), 0); same(g, x, s, s + t, "after resize"); return "resize"; }
        case 6: { int t = n + r.range(0, 20); H::step("grow %d", t); g.grow(t); x.insert(x.begin() + e, (size_t)(t - n), 0); same(g, x, s, s + t, "after grow"); return "grow"; }
        case 7: { int t = r.range(0, n); H::step("shrink %d", t); g.shrink(t); x.erase(x.begin() + s + t, x.begin() + e); same(g, x, s, s + t, "after shrink"); return "shrink"; }
        case 8: { H::step("clear"); g.clear(); x.erase(x.begin() + s, x.begin() + e); same(g, x, s, s, "after clear"); return "rclear"; }
        case 9: { int at = r.range(0, n), d = r.range(0, n - at); H::step("splice %d %d", at, d); g.splice(at, d); x.erase(x.begin() + s + at, x.begin() + s + at + d); same(g, x, s, e - d, "after splice"); } return "splice";
        case 10: { int at = r.range(0, n), d = r.range(0, n - at); M y = mk(len()); H::step("splice %d %d vec&&[%zu]", at, d, y.size()); V t = build(y); g.splice(at, d, static_cast<V&&>(t)); ins(x, s + at, d, y); } return "splice-move";
        case 11: { int d = r.chance(60) ? 0 : r.range(0, n); M y = mk(len()); H::step("append %d vec&&[%zu]", d, y.size()); V t = build(y); g.append(d, static_cast<V&&>(t)); ins(x, e - d, d, y); same(g, x, s, e - d + (int) y.size(), "after append"); return "append-move"; }
        case 12: { M y = mk(len()); H::step("= vec&&[%zu]", y.size()); g = build(y); ins(x, s, n, y); return "assign-move"; }
        case 13: { H::step("swap with vec v%d(%zu)", j, m[j].size()); M y(x.begin() + s, x.begin() + e), z = m[j]; g.swap(v(j)); ins(x, s, n, z); m[j] = y; return "swap-vec"; }
        case 14: { int s2, e2; RM h = pick(j, s2, e2); H::step("swap ranges"); M y(x.begin() + s, x.begin() + e), z(m[j].begin() + s2, m[j].begin() + e2); if (r.chance(50)) g.swap(h); else g.swap(static_cast<RM&&>(h)); ins(x, s, n, z); ins(m[j], s2, e2 - s2, y); return "swap-range"; }
        case 15: { H::step("vec.swap(range)"); M y(x.begin() + s, x.begin() + e), z = m[j]; if (r.chance(50)) v(j).swap(g); else v(j).swap(RM(g)); ins(x, s, n, z); m[j] = y; return "vec-swap-range"; }
        case 16: if (n > 1) { int p = r.range(0, n - 1), q = r.range(0, n - 1); H::step("view_swap %d %d", p, q); fu::view_swap(g, p, q); std::swap(x[(size_t)(s + p)], x[(size_t)(s + q)]); } return "view_swap";
        case 17: if (n) { int p = r.range(0, n - 1); uint64_t q = fresh(); H::step("mutref %d", p); g.mutref(p) = E::make(q); x[(size_t)(s + p)] = q; } return "mutref";
        case 18: if (n) { int p = r.range(0, n - 1); uint64_t q = fresh(); H::step("data_mut %d", p); g.data_mut()[p] = E::make(q); x[(size_t)(s + p)] = q; } return "data_mut";
        case 19: { H::step("move out of range"); V t = g.const_cast_mut().destructive_move(); M y(x.begin() + s, x.begin() + e); v(i).~V(); new (&v(i)) V(); x.clear(); v(j) = static_cast<V&&>(t); m[j] = y; return "move-out"; }
        case 20: { // equal length disjoint ranges of one vector
            int t = (int) x.size(); if (t < 2) return "nothing"; int w = r.range(0, t / 2), p = r.range(0, t - 2 * w), q = r.range(p + w, t - w);
            H::step("swap own [%d,+%d) [%d,+%d)", p, w, q, w); RM a = fu::get_range_mut(v(i), p, p + w), b = fu::get_range_mut(v(i), q, q + w); if (p || p + w != t) if (q || q + w != t) { a.swap(b); for (int k = 0; k < w; k++) std::swap(x[(size_t)(p + k)], x[(size_t)(q + k)]); } return "swap-own"; }
        case 21: { // mutable views
            int how = r.range(0, 2), a = r.range(0, n), b = r.range(a, n); H::step("view_mut %d", how);
            fu::view_mut<T> w = how == 0 ? fu::get_view_mut(g, a, b) : how == 1 ? fu::get_view_mut(g, a) : fu::get_view_start0_mut(g, b);
            if (how == 1) b = n; if (how == 2) a = 0;
            same(w, x, s + a, s + b, "view_mut"); if (b > a) { int p = r.range(0, b - a - 1); uint64_t q = fresh(); w.mutref(p) = E::make(q); x[(size_t)(s + a + p)] = q; 
                int y = r.range(0, b - a - 1); q = fresh(); w.data_mut()[y] = E::make(q); x[(size_t)(s + a + y)] = q; }
            int k = 0; for (T& it : w) { if (!E::eq(it, x[(size_t)(s + a + k)])) H::fail("iter", "view_mut iteration"); k++; }
            if (k != b - a) H::fail("iter", "view_mut iteration count"); return "view_mut"; }
        case 22: { int how = r.range(0, 2), a = r.range(0, n), b = r.range(a, n); H::step("view %d [%d,%d)", how, a, b); const RM& cg = g; RC c(g);
            fu::view<T> w = how == 0 ? (r.chance(50) ? fu::get_view(cg, a, b) : fu::get_view(c, a, b)) : how == 1 ? fu::get_view(c, a) : fu::get_view_start0(c, b); if (how == 1) b = n; if (how == 2) a = 0;
            same(w, x, s + a, s + b, "view"); fu::view<T> u; u.ptr_reassign(w); same(u, x, s + a, s + b, "view reassigned"); return "view"; }
        case 23: { int how = r.range(0, 2), a = r.range(0, n), b = r.range(a, n); H::step("const range %d", how); const RM& cg = g; 
            RC w = how == 0 ? (r.chance(50) ? fu::get_range(cg, a, b) : fu::get_range(RC(g), a, b)) : how == 1 ? fu::get_range(cg, a) : fu::get_range_start0(cg, b); if (how == 1) b = n; if (how == 2) a = 0;
            same(w, x, s + a, s + b, "const range"); return "range"; }
        case 24: { int a = r.range(0, (int) x.size()), b = r.range(a, (int) x.size()); const V& c = v(i); same(fu::get_range(c, a, b), x, a, b, "get_range(vec)"); same(fu::get_range(c, a), x, a, (int) x.size(), "get_range(vec,s)"); same(fu::get_range_start0(c, b), x, 0, b, "get_range_start0(vec)");
            same(fu::get_range_mut(v(i), a, b), x, a, b, "get_range_mut(vec)"); same(fu::get_range_mut(v(i), a), x, a, (int) x.size(), "get_range_mut(vec,s)"); same(fu::get_range_start0_mut(v(i), b), x, 0, b, "get_range_start0_mut(vec)"); return "range-of-vec"; }
        default: break;
        }
        if constexpr (E::COPY) switch (op) {
        case 25: if (n) { int at = r.range(0, n - 1), d = r.range(0, n - at); int s2, e2; bool own = r.chance(30); RM h = pick(own ? i : j, s2, e2); const M& o = own ? x : m[j]; M y(o.begin() + s2, o.begin() + e2);
            H::step("splice %d %d from range", at, d); g.splice(at, d, RC(h)); ins(x, s + at, d, y); } return "splice-range";
        case 26: { int d = r.chance(60) ? 0 : r.range(0, n); int s2, e2; bool own = r.chance(30); RM h = pick(own ? i : j, s2, e2); const M& o = own ? x : m[j]; M y(o.begin() + s2, o.begin() + e2);
            H::step("append %d from range", d); g.append(d, RC(h)); ins(x, e - d, d, y); return "append-range"; }
        case 27: { int s2, e2; bool own = r.chance(30); RM h = pick(own ? i : j, s2, e2); const M& o = own ? x : m[j]; M y(o.begin() + s2, o.begin() + e2);
            H::step("range = range"); if (r.chance(50)) g = h; else g = RC(h); ins(x, s, n, y); return "assign-range"; }
        case 28: { H::step("range = vec v%d", j); g = (const V&) v(j); ins(x, s, n, M(m[j])); return "assign-vec"; }
        case 29: { H::step("v%d = range", j); M y(x.begin() + s, x.begin() + e); if (r.chance(50)) v(j) = V(g); else v(j) = RC(g); m[j] = y; return "vec-from-range"; }
        case 30: { H::step("range += vec / item / view"); uint64_t q = fresh(); g += E::make(q); x.insert(x.begin() + e, q); e++; M y = m[j]; g += (const V&) v(j); ins(x, e, 0, y); same(g, x, s, e + (int) y.size(), "after +="); return "+="; }
        case 31: { H::step("range + range"); M y(x.begin() + s, x.begin() + e); M z = m[j]; V t = g + (const V&) v(j); y.insert(y.end(), z.begin(), z.end()); v(j) = static_cast<V&&>(t); m[j] = y; return "range+vec"; }
        case 32: { // the const range keeps denoting the same part while the vector moves its storage
            RC c(g); int k = r.range(0, 40); M y = mk(k); H::step("unrelated growth at the end"); if (e == (int) x.size()) return "nothing"; 
            // grow to the right of the range's right trim: the right trim is kept
            same(c, x, s, e, "const range"); V& a = v(i); a.reserve((int) x.size() + k + 200); same(c, x, s, e, "const range after reallocation"); return "realloc"; }
        case 33: if constexpr (!E::MANAGED) {
            // view_assign: equal size, disjoint
            int w = std::min(n, (int) m[j].size()); if (v(i).data() == v(j).data()) w = 0; if (!w) return "nothing"; int q = r.range(0, (int) m[j].size() - w), p = r.range(0, n - w);
            H::step("view_assign %d", w); M y(m[j].begin() + q, m[j].begin() + q + w); 
            if (r.chance(50)) fu::view_assign(fu::get_view_mut(g, p, p + w), fu::get_view((const V&) v(j), q, q + w)); else { RM d = fu::get_range_mut(g, p, p + w); fu::view_assign(d, fu::get_range((const V&) v(j), q, q + w)); }
            for (int k = 0; k < w; k++) x[(size_t)(s + p + k)] = y[(size_t) k];
            // same vector, disjoint halves
            int t = (int) x.size() / 2; if (t) { H::step("view_assign own halves"); v(i).data_mut(); auto dst = fu::get_view_mut(v(i), 0, t); auto src = fu::get_view((const V&) v(i), (int) x.size() - t, (int) x.size()); fu::view_assign(dst, src); for (int k = 0; k < t; k++) x[(size_t) k] = x[x.size() - (size_t) t + (size_t) k]; }
            return "view_assign"; }
            return "nothing";
        }
        return "nothing";
    }
    void lifetime(const char* op) {
        if constexpr (std::is_same<E, e_track>::value || std::is_same<E, e_uniq>::value) {
            if (Cnt::bad) H::fail("destroy", "after %s: an element was destroyed that had been damaged, or destroyed before", op);
            long want = 0; std::map<const void*, long> blocks;
            for (int i = 0; i < N; i++) { long nz = 0; for (uint64_t e : m[i]) nz += e != 0; if (!m[i].empty()) { long& b = blocks[v(i).data()]; b = std::max(b, nz); } }
            for (auto& b : blocks) want += b.second;
            if (Cnt::live != want) H::fail("live", "after %s: %ld elements alive, %ld reachable", op, Cnt::live, want);
        }
    }
    void episode(int steps) {
        for (int s = 0; s < steps; s++) { const char* op = step(); H::stats[std::string("op:") + op]++; for (int i = 0; i < N; i++) verify(i, op); lifetime(op); }
    }
};

template <typename E> void drive(uint64_t seed, long episodes, int steps, long only) {
    for (long e = 0; e < episodes; e++) {
        if (only >= 0 && e != only) continue;
        char w[128]; snprintf(w, sizeof w, "%s seed %llu episode %ld", E::name(), (unsigned long long) seed, e);
        H::where = w; H::log.clear();
        { Sim<E> sim(H::mix(seed, (uint64_t) e * 7919 + 13)); sim.episode(steps); }
        if (Cnt::live) H::fail("leak", "%ld elements alive after every handle is gone", Cnt::live);
        if (Cnt::bad) H::fail("destroy", "an element was destroyed that had been damaged, or destroyed before");
        if (e == 0) { H::sample_text = std::string(E::name()) + ": "; for (size_t q = 0; q < H::log.size() && q < 10; q++) H::sample_text += H::log[q] + "; "; }
    }
}

// views reinterpreted as other trivial types, slates, string literals
static void statics(Rng& r) {
    H::where = "statics";
    for (int k = 0; k < 3000; k++) {
        int n = r.range(0, 40);
        fu::vec<int> a; std::vector<int> x;
        for (int q = 0; q < n; q++) { int e = (int) r.next(); x.push_back(e); a.push(int(e)); }
        fu::vec<int> other(a);
        auto b = fu::view_of<unsigned char>(a);
        if (b.size() != n * 4 || (n && memcmp(b.data(), x.data(), (size_t) n * 4))) H::fail("view_of", "bytes of an int vector of %d", n);
        auto bm = fu::view_of_mut<unsigned char>(a);
        if (bm.size() != n * 4) H::fail("view_of_mut", "size");
        if (n) { int p = r.range(0, n * 4 - 1); bm.mutref(p) ^= 0x5a; ((unsigned char*) x.data())[p] ^= 0x5a; }
        for (int q = 0; q < n; q++) if (a[q] != x[(size_t) q]) H::fail("view_of_mut", "write through reinterpreted view");
        for (int q = 0; q < n; q++) { int w = x[(size_t) q]; if (q * 4 <= 0) {} (void) w; }
        if (n & 1) {} else { auto l = fu::view_of<uint64_t>(a); if (l.size() != n / 2 || (n && memcmp(l.data(), x.data(), (size_t) n * 4))) H::fail("view_of", "longs of an int vector of %d", n); }
        int p3 = r.range(-9, 9), q3 = r.range(-9, 9), s3 = r.range(-9, 9);
        fu::slate<3, int> sl { { p3, q3, s3 } };
        if (sl.size() != 3 || sl[0] != p3 || sl[1] != q3 || sl[2] != s3) H::fail("slate", "content");
        auto sv = fu::get_view(sl, 1); if (sv.size() != 2 || sv[0] != q3 || sv[1] != s3) H::fail("slate", "view");
        auto sm = fu::get_view_mut(sl, 0, 2); sm.mutref(1) = 77; if (sl[1] != 77 || sl[0] != p3 || sl[2] != s3) H::fail("slate", "mutable view");
        auto lit = "hello, world: 0123456789"_fu; auto lv = "hello, world: 0123456789"_view; int i0 = r.range(0, 24), i1 = r.range(i0, 24);
        auto w1 = fu::get_view(lit, i0, i1); auto w2 = fu::get_view(lv, i0, i1);
        if (std::string(w1.data(), (size_t) w1.size()) != std::string("hello, world: 0123456789").substr((size_t) i0, (size_t)(i1 - i0)) || w1.size() != w2.size() || memcmp(w1.data(), w2.data(), (size_t) w1.size())) H::fail("strlit", "slice");
        // widening view_assign
        if (n) { fu::vec<uint64_t> w; w.resize(n); fu::vec<int> d; d.resize(2 * n); for (int q = 0; q < n; q++) w.mutref(q) = r.next(); fu::view_assign(d, w); if (memcmp(d.data(), w.data(), (size_t) n * 8)) H::fail("view_assign", "differently sized items"); }
        fu::str mv = "some text that is longer than fits inline"_fu; fu::str got = fu::move_or_default(mv); if (got.size() != 41 || mv.size() != 0) H::fail("move_or_default", "move");
        fu::str nil = fu::move_or_default(*(fu::str*) fu::NIL); if (nil.size()) H::fail("move_or_default", "default");
        fu::vec_range<int> er; fu::vec_range_mut<int> erm; if (er.size() || erm.size() || er || erm) H::fail("empty-range", "default constructed range is not empty");
        H::evals += 8; H::sigof(n, i0, i1);
    }
}

// writing into spare room and then growing the size, as buffered IO does
static void spare(Rng& r) {
    H::where = "spare";
    for (int k = 0; k < 2000; k++) {
        std::string base; int n = r.range(0, 60); for (int q = 0; q < n; q++) base += (char) r.range(32, 120);
        fu::str a; a.append_copy(fu_ZERO(), base.data(), n);
        fu::str holder(a);
        int left = r.range(0, n), add = r.range(0, 200);
        fu::vec_range_mut<char> g = fu::get_range_mut(a, left);
        a.reserve(n + add);
        if (g.capa() < n - left + add) H::fail("capa", "capacity %d after reserving room for %d", g.capa(), n - left + add);
        char* d = g.data_mut(); for (int q = 0; q < add; q++) d[n - left + q] = (char)('A' + q % 26);
        g.UNSAFE__WriteSize(n - left + add);
        std::string want = base; for (int q = 0; q < add; q++) want += (char)('A' + q % 26);
        if (std::string(a.data(), (size_t) a.size()) != want) H::fail("spare", "content after filling spare room, size %d + %d", n, add);
        if (std::string(holder.data(), (size_t) holder.size()) != base) H::fail("spare", "another holder changed, size %d + %d", n, add);
        H::evals += 2; H::sigof(n, left, add);
    }
}

int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1);
    long ep = opt_i(argc, argv, "--episodes", 20);
    int steps = (int) opt_i(argc, argv, "--steps", 150);
    long only = opt_i(argc, argv, "--only", -1);
    std::string t = opt(argc, argv, "--type", "");
    Rng r(seed);
    #define D(E) if (t.empty() || t == #E) drive<E>(H::mix(seed, sizeof(typename E::T) * 131 + sizeof(#E)), ep, steps, only);
#ifdef GROUP_A
    statics(r); spare(r);
    D(e_char) D(e_short) D(e_int) D(e_p3)
#endif
#ifdef GROUP_B
    D(e_double) D(e_p16) D(e_p24)
#endif
#ifdef GROUP_C
    D(e_track) D(e_uniq) D(e_str)
#endif
#ifdef GROUP_D
    D(e_mix)
#endif
    H::done();
    return 0;
}
