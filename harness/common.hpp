// Shared by the C++ harnesses: PRNG, op log, verdict lines, coverage signatures.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <unordered_set>
#include <map>
#include <unistd.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo >= hi ? lo : lo + (int) below((uint64_t)(hi - lo) + 1); }
    bool chance(int pct) { return (int) below(100) < pct; }
};

struct H {
    static inline std::string pid = "?";
    static inline uint64_t seed = 1;
    static inline long evals = 0;
    static inline std::unordered_set<uint64_t> sigs;
    static inline std::map<std::string, long> stats;
    static inline std::vector<std::string> log;
    static inline std::string where;      // type, scenario
    static inline std::string sample_text;

    static void step(const char* fmt, ...) {
        char b[512];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        log.emplace_back(b);
        if (log.size() > 4000) log.erase(log.begin(), log.begin() + 2000);
    }
    static void dump_log(FILE* f, size_t n = 40) {
        size_t a = log.size() > n ? log.size() - n : 0;
        for (size_t i = a; i < log.size(); i++) fprintf(f, "    %s\n", log[i].c_str());
    }
    [[noreturn]] static void fail(const char* key, const char* fmt, ...) {
        char b[2048];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        fflush(stdout);
        printf("\nVIOL %s | %s: %s\n", key, where.c_str(), b);
        printf("  last operations:\n");
        dump_log(stdout);
        fflush(stdout);
        _exit(3);
    }
    static void sig(uint64_t h) { sigs.insert(h); }
    static uint64_t mix(uint64_t a, uint64_t b) {
        a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
        return a * 0xff51afd7ed558ccdull;
    }
    template <typename... A> static void sigof(A... a) {
        uint64_t h = 7; ((h = mix(h, (uint64_t) a)), ...); sig(h);
    }
    static int bucket(long n) {
        if (n < 0) return -1;
        if (n < 20) return (int) n;
        int b = 20; for (long m = 32; m <= n; m *= 2) b += 2;
        return b + ((n & 15) == 0);
    }
    static void done() {
        printf("\nEVALS %ld\n", evals);
        printf("SIGS %zu", sigs.size());
        // a stable digest list would be large; send at most 60000 of them
        size_t k = 0;
        for (uint64_t s : sigs) { if (k++ > 60000) break; printf(" %llx", (unsigned long long)(s & 0xffffffffffull)); }
        printf("\n");
        for (auto& kv : stats) printf("STAT %s %ld\n", kv.first.c_str(), kv.second);
        if (!sample_text.empty()) printf("SAMPLE %s\n", sample_text.c_str());
        printf("DONE\n");
        fflush(stdout);
    }
};

inline const char* opt(int argc, char** argv, const char* name, const char* def) {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}
inline long opt_i(int argc, char** argv, const char* name, long def) {
    const char* s = opt(argc, argv, name, nullptr);
    return s ? strtol(s, nullptr, 0) : def;
}

// --------------------------------------------------------------- element types

struct Cnt {
    static inline long live = 0, made = 0, gone = 0, bad = 0;
};

#include <set>
#include <mutex>

// A non-trivial element owning a heap token. All-zero bytes is a valid empty value
// (the containers zero-fill defaults). Survives relocation by memcpy.
template <bool COPY> struct Tracked {
    int* token = nullptr;
    uint32_t v = 0;
    uint32_t chk = 0;

    static int* mk(uint32_t v) { Cnt::live++; Cnt::made++; int* t = (int*) malloc(sizeof(int) * 2); t[0] = (int) v; t[1] = 0x600d; return t; }
    void rm() {
        if (!token) { if (v || chk) Cnt::bad++; return; }
        if (token[1] != 0x600d || token[0] != (int) v || chk != ~v) { Cnt::bad++; }
        token[1] = 0xdead; free(token); token = nullptr; Cnt::live--; Cnt::gone++; v = 0; chk = 0;
    }
    Tracked() = default;
    explicit Tracked(uint32_t x) : token(mk(x)), v(x), chk(~x) {}
    Tracked(Tracked&& o) noexcept : token(o.token), v(o.v), chk(o.chk) { o.token = nullptr; o.v = 0; o.chk = 0; }
    Tracked(const Tracked& o) noexcept : token(o.token ? mk(o.v) : nullptr), v(o.v), chk(o.chk) {}
    Tracked& operator=(Tracked&& o) noexcept { if (this != &o) { rm(); token = o.token; v = o.v; chk = o.chk; o.token = nullptr; o.v = 0; o.chk = 0; } return *this; }
    Tracked& operator=(const Tracked& o) noexcept { if (this != &o) { Tracked c(o); *this = (Tracked&&) c; } return *this; }
    ~Tracked() { rm(); }
};
template <> struct Tracked<false> {
    int* token = nullptr;
    uint32_t v = 0;
    uint32_t chk = 0;
    void rm() {
        if (!token) { if (v || chk) Cnt::bad++; return; }
        if (token[1] != 0x600d || token[0] != (int) v || chk != ~v) { Cnt::bad++; }
        token[1] = 0xdead; free(token); token = nullptr; Cnt::live--; Cnt::gone++; v = 0; chk = 0;
    }
    Tracked() = default;
    explicit Tracked(uint32_t x) : token(Tracked<true>::mk(x)), v(x), chk(~x) {}
    Tracked(Tracked&& o) noexcept : token(o.token), v(o.v), chk(o.chk) { o.token = nullptr; o.v = 0; o.chk = 0; }
    Tracked(const Tracked&) = delete;
    Tracked& operator=(Tracked&& o) noexcept { if (this != &o) { rm(); token = o.token; v = o.v; chk = o.chk; o.token = nullptr; o.v = 0; o.chk = 0; } return *this; }
    Tracked& operator=(const Tracked&) = delete;
    ~Tracked() { rm(); }
};
