// Numbers to text, against an independent digit-by-digit decoder and printf.
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <cfloat>
#include <limits>
#include "common.hpp"
#include <fu/_fulib.cpp>
#include <fu/decstr.h>
#include <fu/print.h>

static std::string S(const fu::str& s) { return std::string(s.data(), (size_t) s.size()); }

static void u64(uint64_t n) {
    std::string s = S(fu::u64dec(n));
    // decode it back: canonical, and the same number
    unsigned __int128 v = 0;
    if (s.empty()) H::fail("u64dec", "empty text for %" PRIu64, n);
    for (char c : s) { if (c < '0' || c > '9') H::fail("u64dec", "%" PRIu64 " printed as %s", n, s.c_str()); v = v * 10 + (unsigned)(c - '0'); }
    if (v != n || (s.size() > 1 && s[0] == '0')) H::fail("u64dec", "%" PRIu64 " printed as %s", n, s.c_str());
    H::evals++; H::sigof(1, s.size(), 64 - (n ? __builtin_clzll(n) : 64));
}
static void i64(int64_t n) {
    std::string s = S(fu::i64dec(n));
    char b[40]; snprintf(b, sizeof b, "%" PRId64, n);
    if (s != b) H::fail("i64dec", "%s printed as %s", b, s.c_str());
    H::evals++; H::sigof(2, s.size(), n < 0);
}
static void f64(double d) {
    std::string s = S(fu::f64dec(d));
    char b[600]; int n = snprintf(b, sizeof b, "%f", d);
    if (s != std::string(b, (size_t) n)) H::fail("f64dec", "%s printed as %s", b, s.c_str());
    // and it reads back to within half a unit of the sixth decimal
    if (std::isfinite(d)) { double r = strtod(s.c_str(), nullptr); if (!(std::fabs(r - d) <= 5.1e-7 + std::fabs(d) * 1e-15)) H::fail("f64dec", "%.17g reads back as %.17g", d, r); }
    H::evals++; int e = 0; if (std::isfinite(d)) frexp(d, &e); H::sigof(3, e, std::signbit(d), s.size());
}
static void f32(float f) {
    std::string s = S(fu::f32dec(f));
    char b[600]; int n = snprintf(b, sizeof b, "%f", (double) f);
    if (s != std::string(b, (size_t) n)) H::fail("f32dec", "%s printed as %s", b, s.c_str());
    H::evals++; H::sigof(4, s.size());
}

int main(int argc, char** argv) {
    Rng r((uint64_t) opt_i(argc, argv, "--seed", 1));
    long n = opt_i(argc, argv, "--episodes", 200000);
    H::where = "dec";
    for (uint64_t k = 0; k < 2000; k++) { u64(k); i64((int64_t) k); i64(-(int64_t) k); u64(~k); i64(INT64_MAX - (int64_t) k); i64(INT64_MIN + (int64_t) k); }
    for (int b = 0; b < 64; b++) for (int d = -3; d <= 3; d++) { u64((1ull << b) + (uint64_t) d); i64((int64_t)((1ull << b) + (uint64_t) d)); i64((int64_t)(0 - ((1ull << b) + (uint64_t) d))); }
    { uint64_t p = 1; for (int k = 0; k < 20; k++) { for (int d = -3; d <= 3; d++) { u64(p + (uint64_t) d); i64((int64_t)(p + (uint64_t) d)); i64((int64_t)(0 - (p + (uint64_t) d))); u64(p * 9 + (uint64_t) d); } p *= 10; } }
    for (long k = 0; k < n; k++) { uint64_t x = r.next() >> r.range(0, 63); u64(x); i64((int64_t) x); i64((int64_t)(0 - x)); }
    double sp[] = { 0.0, -0.0, 1, -1, 0.5, 1e-7, 5e-7, 4.9e-7, 1e15, 1e16, 1e22, 1e23, 1e55, 1e56, 1e57, 1e62, 1e63, 1e64, 1e100, -1e56, -1e57, 1e300, DBL_MAX, -DBL_MAX, DBL_MIN, std::numeric_limits<double>::denorm_min(), INFINITY, -INFINITY, NAN, 0.1, 0.2, 0.3, 123456.789, 2147483648.0, 1e-300, 9007199254740993.0 };
    for (double d : sp) { f64(d); f32((float) d); }
    for (int e = -1074; e < 1024; e++) { f64(ldexp(1.0, e)); f64(-ldexp(1.9999999, e)); }
    for (int e = -149; e < 128; e++) f32(ldexpf(1.5f, e));
    for (long k = 0; k < n / 4; k++) { uint64_t x = r.next(); double d; memcpy(&d, &x, 8); f64(d); uint32_t y = (uint32_t) r.next(); float f; memcpy(&f, &y, 4); f32(f); f64((double)(int64_t) r.next() / 1000003.0); f64((double)(int)(r.below(2000001) - 1000000) / 1000.0); }
    if (S(fu::booldec(true)) != "1" || S(fu::booldec(false)) != "0") H::fail("booldec", "booleans");
    H::evals += 2;
    // results are independent strings
    { std::vector<fu::str> keep; for (uint64_t k = 0; k < 500; k++) keep.push_back(fu::u64dec(k * 1000000007ull)); for (uint64_t k = 0; k < 500; k++) if (S(keep[k]) != std::to_string(k * 1000000007ull)) H::fail("u64dec", "kept result changed"); }
    // println writes exactly the bytes, then one newline
    {
        const char* td = getenv("TMPDIR"); char path[512]; snprintf(path, sizeof path, "%s/verif-dec-XXXXXX", td && *td ? td : "/tmp"); int fd = mkstemp(path); fflush(stdout); int keep = dup(1); dup2(fd, 1);
        std::string want;
        for (int k = 0; k < 400; k++) {
            int c = r.range(0, 5); std::vector<fu::str> parts; 
            for (int q = 0; q < c; q++) { std::string t; int l = r.chance(80) ? r.range(0, 40) : r.range(0, 9000); for (int z = 0; z < l; z++) t += (char) r.range(0, 255); fu::str s; s.append_copy(fu_ZERO(), t.data(), l); parts.push_back((fu::str&&) s); want += t; }
            want += '\n'; fu::println(fu::view<fu::str>(parts.data(), c)); H::evals++; H::sigof(5, c, H::bucket((long) want.size()));
        }
        fflush(stdout); dup2(keep, 1); close(keep);
        std::string got; char buf[65536]; lseek(fd, 0, SEEK_SET); for (ssize_t z; (z = read(fd, buf, sizeof buf)) > 0; ) got.append(buf, (size_t) z); close(fd); unlink(path);
        if (got != want) H::fail("println", "printed %zu bytes, expected %zu, or they differ", got.size(), want.size());
    }
    H::sample_text = "f64dec(1e300) = " + S(fu::f64dec(1e300)).substr(0, 30) + "...";
    H::done();
}
