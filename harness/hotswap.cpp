// C10: what the slots of a hot-swappable program point at, after any sequence of library
// replacements, signals and safe points.
#include <cassert>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <alloca.h>
#include "common.hpp"
#include <fu/_fulib.cpp>
#include <dl/hotswap.hpp>
typedef int Fn();
static const int K = 4;
static int fb0() { return -1; } static int fb1() { return -2; } static int fb2() { return -3; } static int fb3() { return -4; }
static Fn* const FB[K] = { fb0, fb1, fb2, fb3 };
static Fn* slot[K];
static const char* const SYM[K] = { "verif_f0", "verif_f1", "verif_f2", "verif_f3" };
static int cb_count = 0; static void on_swap(void* p) { cb_count += *(int*) p; }
static int own_count = 0; static void own_handler(int) { own_count++; }
static std::string DIR_;
struct Ver { int id, mask; std::string path; };
static std::vector<Ver> VERS;

static void copy_file(const std::string& a, const std::string& b) {
    std::string t = b + ".new"; int i = open(a.c_str(), O_RDONLY), o = open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755); char buf[65536]; for (ssize_t n; (n = read(i, buf, sizeof buf)) > 0; ) if (write(o, buf, (size_t) n) != n) _exit(9); close(i); close(o); if (rename(t.c_str(), b.c_str())) _exit(9);
}
static void put_text(const std::string& b, const char* s) { std::string t = b + ".new"; FILE* f = fopen(t.c_str(), "w"); fputs(s, f); fclose(f); if (rename(t.c_str(), b.c_str())) _exit(9); }

static int scenario(uint64_t seed, const std::string& dir, const char* self) {
    H::evals = 0; Rng r(seed); H::log.clear(); mkdir(dir.c_str(), 0755);
    bool manual = false, signalled = false; int cur[K]; for (int k = 0; k < K; k++) cur[k] = -(k + 1);
    int style = r.range(0, 3); // 0,1: absolute path; 2: relative path; 3: beside the executable
    std::string lib = dir + "/lib.so"; if (style == 3) lib = std::string(self).substr(0, std::string(self).rfind('/')) + "/hotswap";
    if (style == 2) { if (chdir(dir.c_str())) _exit(9); setenv("FU_HOTSWAP_LIB", "./lib.so", 1); } else if (style == 3) unsetenv("FU_HOTSWAP_LIB"); else setenv("FU_HOTSWAP_LIB", lib.c_str(), 1);
    unlink(lib.c_str());
    bool foreign = r.chance(8); if (foreign) signal(SIGUSR1, own_handler);
    char w[160]; snprintf(w, sizeof w, "seed %llu style %d%s", (unsigned long long) seed, style, foreign ? " foreign handler" : ""); H::where = w;
    int step_cb = 7; bool cb = false; int want_cb = 0, want_own = 0;
    for (int k = 0; k < K; k++) { Fn* f = fu::hotswap<Fn>(SYM[k], slot[k], FB[k]); if (f != FB[k] || slot[k] != FB[k]) H::fail("init", "slot %d does not start at its fallback", k); }
    enum { MISSING, BROKEN, GOOD } state = MISSING; int at = -1; bool loaded_any = false;
    auto reload = [&] { if (state != GOOD) return; const Ver& v = VERS[(size_t) at]; loaded_any = true; for (int k = 0; k < K; k++) if (v.mask & (1 << k)) cur[k] = v.id * 10 + k; };
    int n = r.range(6, 26);
    for (int s = 0; s < n; s++) {
        switch (r.range(0, 9)) {
        case 0: case 1: case 2: { at = (int) r.below(VERS.size()); while (!loaded_any && !VERS[(size_t) at].mask) at = (int) r.below(VERS.size()); copy_file(VERS[(size_t) at].path, lib); state = GOOD; H::step("library is version %d (symbols %x)", VERS[(size_t) at].id, VERS[(size_t) at].mask); break; }
        case 3: if (r.chance(50)) { unlink(lib.c_str()); state = MISSING; H::step("library removed"); } else { put_text(lib, "not a library\n"); state = BROKEN; H::step("library is garbage"); } break;
        case 4: case 5: case 6: H::step("SIGUSR1"); raise(SIGUSR1); if (foreign) { want_own++; break; } if (manual) signalled = true; else reload(); if (cb) want_cb += step_cb; break;
        case 7: case 8: if (!manual && r.chance(60)) break; H::step("here()"); fu::hotswap_here(); manual = true; if (signalled) { signalled = false; reload(); } break;
        case 9: if (cb) { H::step("callback removed"); fu::hotswap_callback_remove(on_swap, &step_cb); cb = false; } else { H::step("callback added"); fu::hotswap_callback_add(on_swap, &step_cb); cb = true; } break;
        }
        for (int k = 0; k < K; k++) { if (!slot[k]) H::fail("null", "slot %d is null", k); int g = slot[k](); if (g != cur[k]) H::fail("version", "after step %d: slot %d answers %d, expected %d", s, k, g, cur[k]); }
        if (cb_count != want_cb) H::fail("callback", "callback called %d times, expected %d", cb_count / 7, want_cb / 7);
        if (own_count != want_own) H::fail("foreign", "the handler installed before saw %d of %d signals", own_count, want_own);
        // the library file itself stays where it is
        struct stat st; bool there = !lstat(lib.c_str(), &st); if (there != (state != MISSING)) H::fail("file", "library file %s", there ? "came back" : "went missing");
        H::evals++;
    }
    if (style != 3) { DIR* d = opendir(dir.c_str()); int left = 0; while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && strcmp(e->d_name, "lib.so")) left++; closedir(d); if (left) H::fail("litter", "%d files left behind beside the library", left); }
    return (int) H::evals;
}
int main(int argc, char** argv) {
    uint64_t seed = (uint64_t) opt_i(argc, argv, "--seed", 1); int n = (int) opt_i(argc, argv, "--episodes", 150); long only = opt_i(argc, argv, "--only", -1);
    const char* td = getenv("TMPDIR"); char tmpl[512]; snprintf(tmpl, sizeof tmpl, "%s/verif-hotswap-XXXXXX", td && *td ? td : "/tmp"); if (!mkdtemp(tmpl)) return 9; DIR_ = tmpl; Rng r(seed);
    for (int v = 1; v <= 14; v++) { int mask = v < 6 ? 15 : v == 6 ? 0 : r.range(1, 15); std::string p = DIR_ + "/v" + std::to_string(v) + ".so"; std::string src; for (int k = 0; k < K; k++) if (mask & (1 << k)) src += "int " + std::string(SYM[k]) + "(void){return " + std::to_string(v * 10 + k) + ";}\n"; src += "int verif_other(void){return 1;}\n";
        std::string c = DIR_ + "/v.c"; FILE* f = fopen(c.c_str(), "w"); fputs(src.c_str(), f); fclose(f); std::string cmd = "gcc -shared -fPIC -o " + p + " " + c; if (system(cmd.c_str())) { printf("gcc failed\n"); return 9; } VERS.push_back({ v, mask, p }); }
    // a private copy of this program, so that "beside the executable" is a scratch folder
    if (!opt_i(argc, argv, "--child", 0)) {
        char self[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); self[l] = 0; std::string exe = DIR_ + "/prog"; copy_file(self, exe);
        pid_t p = fork(); if (!p) { std::string a = std::to_string(seed), b = std::to_string(n); execl(exe.c_str(), exe.c_str(), "--seed", a.c_str(), "--episodes", b.c_str(), "--child", "1", nullptr); _exit(9); }
        int st; waitpid(p, &st, 0); std::string rm = "rm -rf " + DIR_; if (!strstr(tmpl, "/verif-hotswap-") || system(rm.c_str())) return 9;
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } _exit(WEXITSTATUS(st));
    }
    int rc = 0;
    for (int e = 0; e < n && !rc; e++) {
        if (only >= 0 && e != only) continue;
        uint64_t s = H::mix(seed, (uint64_t) e); fflush(stdout); int pp[2]; if (pipe(pp)) return 9;
        pid_t p = fork(); if (!p) { alarm(60); int ev = scenario(s, DIR_ + "/s" + std::to_string(e), argv[0]); (void) !write(pp[1], &ev, sizeof ev); fflush(stdout); _exit(0); }
        close(pp[1]); int ev = 0; (void) !read(pp[0], &ev, sizeof ev); close(pp[0]); int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { printf("\nVIOL crash | hotswap seed %llu: scenario ended by signal %d\n", (unsigned long long) s, WTERMSIG(st)); rc = 3; } else if (WEXITSTATUS(st)) rc = WEXITSTATUS(st);
        H::evals += ev; H::sigof(e, ev, s); H::stats["scenarios"]++;
    }
    std::string rm = "rm -rf " + DIR_; if (strstr(tmpl, "/verif-hotswap-")) (void) !system(rm.c_str());
    if (!rc) { H::sample_text = "library replaced / removed / garbage, SIGUSR1, here(), callback: every slot asked after every step"; H::done(); }
    fflush(stdout); _exit(rc);
}
