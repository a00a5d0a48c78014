// C09: what runs when a scope is left, by any way of leaving it.
#include <cassert>
#include "common.hpp"
#include <fu/defer.h>
struct Err { int id; };
static std::vector<int> GOT, WANT;
static Rng* R; static int ID, DEPTH_LIMIT;
enum Exit { FALL, RET, THROW, BRK, CONT };
static void got(int x) { GOT.push_back(x); }
static Exit body(int depth, int id);

// what the model expects of one scope: entries in registration order, kind 0 always, 1 on error, 2 on success
struct Model { std::vector<std::pair<int, int>> reg; void leave(bool err) { for (size_t i = reg.size(); i-- > 0; ) if (reg[i].first == 0 || (reg[i].first == 1) == err) WANT.push_back(reg[i].second); } };

// A deferred statement may itself enter scopes, which may throw and catch inside.
static void deferred(int tag, uint64_t sub, int depth);

// The model is computed on a separate, purely interpretive walk with the same random stream.
static Exit model_scope(Rng& r, int depth, bool inside_defer);
static Exit real_scope(Rng& r, int depth, bool inside_defer);

static Exit choose(Rng& r, int depth) { int k = r.range(0, 9); return k < 4 ? FALL : k < 6 ? RET : k < 8 ? THROW : k == 8 ? BRK : CONT; }

// deferred statement: logs, and sometimes runs a whole scope of its own, containing its errors
static void m_def(int tag, uint64_t sub, int depth) { WANT.push_back(tag); Rng q(sub); if (depth < DEPTH_LIMIT && q.chance(25)) { Exit e = model_scope(q, depth + 1, true); if (e == THROW) WANT.push_back(-tag); } }
static void r_def(int tag, uint64_t sub, int depth) { got(tag); Rng q(sub); if (depth < DEPTH_LIMIT && q.chance(25)) { try { real_scope(q, depth + 1, true); } catch (Err&) { got(-tag); } } }

static int tag_of(Rng& r) { return 100000 + (int) r.below(800000); }
struct Plan { int k[5]; int tag[5]; uint64_t sub[5]; int children; Exit ex; bool guard; int loops; };
static Plan plan(Rng& r, int depth) { Plan p; for (int i = 0; i < 5; i++) { p.k[i] = r.range(0, 5); p.tag[i] = tag_of(r); p.sub[i] = r.next(); } p.children = depth < DEPTH_LIMIT ? r.range(0, 2) : 0; p.ex = choose(r, depth); p.guard = r.chance(40); p.loops = r.range(1, 3); return p; }

static Exit model_once(Rng& r, int depth) {
    Plan p = plan(r, depth); struct E { int kind, tag; uint64_t sub; }; std::vector<E> reg; Exit ex = FALL;
    auto add = [&](int i) { if (p.k[i] < 3) reg.push_back({ p.k[i], p.tag[i], p.sub[i] }); };
    auto leave = [&](bool err) { for (size_t i = reg.size(); i-- > 0; ) if (reg[i].kind == 0 || (reg[i].kind == 1) == err) m_def(reg[i].tag, reg[i].sub, depth); };
    add(0); add(1);
    for (int c = 0; c < p.children; c++) { Exit e = model_scope(r, depth + 1, false); if (e == THROW) { if (p.guard) { WANT.push_back(1); r.next(); } else { leave(true); return THROW; } } }
    add(2); add(3); add(4); WANT.push_back(p.tag[0] / 2);
    ex = p.ex; leave(ex == THROW); return ex;
}
static Exit model_scope(Rng& r, int depth, bool) { int n = r.range(1, 3); for (int i = 0; i < n; i++) { WANT.push_back(2); Exit e = model_once(r, depth); if (e == THROW || e == RET) return e; if (e == BRK) { WANT.push_back(3); return FALL; } if (e == CONT) continue; WANT.push_back(4); } return FALL; }

// The same with the real macros. Every kind/position combination is spelled out, as macros declare.
#define SLOT(i) switch_##i
static bool real_once(Rng& r, int depth, Exit& out);
template <int A, int B> static Exit with2(Rng& r, int depth, const Plan& p);
#define D0(i) fu_DEFER(r_def(p.tag[i], p.sub[i], depth))
#define D1(i) fu_DEFER_IF_ERR(r_def(p.tag[i], p.sub[i], depth))
#define D2(i) fu_DEFER_IF_OK(r_def(p.tag[i], p.sub[i], depth))
static Exit finish(const Plan& p, Exit ex) { if (ex == THROW) throw Err { 1 }; return ex; }
static void kids(Rng& r, int depth, const Plan& p) { for (int c = 0; c < p.children; c++) { if (p.guard) { try { real_scope(r, depth + 1, false); } catch (Err&) { got(1); r.next(); } } else real_scope(r, depth + 1, false); } }
// tails: slots 2, 3, 4
#define TAIL_END got(p.tag[0] / 2); return finish(p, p.ex);
static Exit tail4(int depth, const Plan& p, bool) { switch (p.k[4]) { case 0: { D0(4) TAIL_END } case 1: { D1(4) TAIL_END } case 2: { D2(4) TAIL_END } default: { TAIL_END } } }
static Exit tail3(int depth, const Plan& p, bool) { switch (p.k[3]) { case 0: { D0(3) return tail4(depth, p, 0); } case 1: { D1(3) return tail4(depth, p, 0); } case 2: { D2(3) return tail4(depth, p, 0); } default: return tail4(depth, p, 0); } }
// two and three statements in one scope
static Exit same_scope(int depth, const Plan& p) {
    switch (p.k[2] * 100 + p.k[3] * 10 + p.k[4]) {
    case 0: { D0(2) D0(3) D0(4) TAIL_END } case 12: { D0(2) D1(3) D2(4) TAIL_END } case 21: { D0(2) D2(3) D1(4) TAIL_END }
    case 102: { D1(2) D0(3) D2(4) TAIL_END } case 120: { D1(2) D2(3) D0(4) TAIL_END } case 201: { D2(2) D0(3) D1(4) TAIL_END } case 210: { D2(2) D1(3) D0(4) TAIL_END }
    case 111: { D1(2) D1(3) D1(4) TAIL_END } case 222: { D2(2) D2(3) D2(4) TAIL_END } case 112: { D1(2) D1(3) D2(4) TAIL_END } case 221: { D2(2) D2(3) D1(4) TAIL_END }
    default: switch (p.k[2]) { case 0: { D0(2) return tail3(depth, p, 0); } case 1: { D1(2) return tail3(depth, p, 0); } case 2: { D2(2) return tail3(depth, p, 0); } default: return tail3(depth, p, 0); } }
}
static Exit real_1(Rng& r, int depth, const Plan& p) { switch (p.k[1]) {
    case 0: { D0(1) kids(r, depth, p); return same_scope(depth, p); } case 1: { D1(1) kids(r, depth, p); return same_scope(depth, p); }
    case 2: { D2(1) kids(r, depth, p); return same_scope(depth, p); } default: kids(r, depth, p); return same_scope(depth, p); } }
static Exit real_1_once(Rng& r, int depth) { Plan p = plan(r, depth); switch (p.k[0]) { case 0: { D0(0) return real_1(r, depth, p); } case 1: { D1(0) return real_1(r, depth, p); } case 2: { D2(0) return real_1(r, depth, p); } default: return real_1(r, depth, p); } }
static Exit real_scope(Rng& r, int depth, bool) { int n = r.range(1, 3); for (int i = 0; i < n; i++) { got(2); Exit e = real_1_once(r, depth); if (e == RET) return e; if (e == BRK) { got(3); break; } if (e == CONT) continue; got(4); } return FALL; }

// loops left by break / continue / goto / return with statements deferred in their bodies
static int jumps(Rng& r) {
    int n = r.range(1, 5); std::vector<int> w;
    for (int i = 0; i < n; i++) { int how = r.range(0, 3), t = tag_of(r);
        fu_DEFER(got(t + 1))
        fu_DEFER_IF_OK(got(t + 2))
        fu_DEFER_IF_ERR(got(t + 3))
        got(t); WANT.push_back(t); WANT.push_back(t + 2); WANT.push_back(t + 1);
        if (how == 0) continue; if (how == 1) break; if (how == 2) { goto out; } }
    out: { fu_DEFER(got(5)) WANT.push_back(5); return (got(6), WANT.insert(WANT.end() - 1, 6), 7); }
}
// captured by reference: the deferred statement sees the last value
static void captures(Rng& r) { int x = r.range(0, 1000), y = x; { fu_DEFER(got(x)) x += r.range(1, 9); y = x; } WANT.push_back(y); }

int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); long n = opt_i(argc, argv, "--episodes", 20000);
    for (long e = 0; e < n; e++) {
        uint64_t s = H::mix(seed, (uint64_t) e); GOT.clear(); WANT.clear(); DEPTH_LIMIT = 1 + (int) (s % 4); char w[80]; snprintf(w, sizeof w, "seed %llu", (unsigned long long) s); H::where = w;
        bool in_flight = (s >> 9) % 3 == 0;    // run it all while another exception is already being handled
        Exit m; { Rng r(s); m = model_scope(r, 0, false); } bool thrown = false; Rng r(s);
        auto go = [&] { try { real_scope(r, 0, false); } catch (Err&) { thrown = true; } };
        if (in_flight) { struct G { decltype(go)& g; ~G() { g(); } }; try { G g { go }; throw Err { 2 }; } catch (Err&) {} } else go();
        if (thrown != (m == THROW)) H::fail("exit", "scope %s an exception", thrown ? "threw" : "did not throw");
        jumps(r); captures(r);
        if (GOT != WANT) { size_t i = 0; while (i < GOT.size() && i < WANT.size() && GOT[i] == WANT[i]) i++; H::fail("order", "event %zu of %zu is %d, expected %d (of %zu)", i, GOT.size(), i < GOT.size() ? GOT[i] : 0, i < WANT.size() ? WANT[i] : 0, WANT.size()); }
        H::evals += (long) GOT.size(); uint64_t h = 1; for (int x : WANT) h = H::mix(h, x < 10 ? (uint64_t) x : 11); H::sig(h); if (m == THROW) H::stats["left_by_exception"]++; else H::stats["left_normally"]++; if (in_flight) H::stats["during_unwinding"]++;
    }
    H::sample_text = "nested scopes with always / on error / on success statements, deferred statements that enter scopes themselves"; H::done();
}
