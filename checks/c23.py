import os
import random
import struct
from vlib import core, fuprog, libs

MIN_EVALUATIONS, MIN_DISTINCT = 600, 250

EXTRA = """
#include <dirent.h>
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>
static int T_fds()
{
    DIR* d = opendir("/proc/self/fd");
    int n = 0;
    while (d && readdir(d)) n++;
    if (d) closedir(d);
    return n;
}
static int T_child() { int st; pid_t p = waitpid(-1, &st, WNOHANG); return p == -1 && errno == ECHILD ? 0 : 1; }
"""
ARGV_CPP = "fu::vec<fu::str> argv; for (int i = %d; i < (int) T_args.size(); i++) argv.push(A(i));"
ARGV_FU = "mut argv: string[];\nfor (mut i = %d; i < count(); i++) argv ~= A(i);"
END = " put(T_fds()); put(T_child());"
CPP = {
    "exec": "int st = 77; fu::str out = A(2); int e = %(exec)s(A(1), st, out); put(e); put(st); put(out);" + END,
    "quiet": ARGV_CPP % 1 + " int st = 77; int e = %(spawn2)s(static_cast<fu::vec<fu::str>&&>(argv), st); put(e); put(st);" + END,
    "spawn": ARGV_CPP % 3 + " int st = 77; fu::str out = A(1), err = A(2); int e = %(spawn4)s(static_cast<fu::vec<fu::str>&&>(argv), out, err, st);"
             " put(e); put(st); put(out); put(err);" + END,
}
FU_END = "\nput_int(fds().i64);\nput_int(left().i64);"
FU = {
    "exec": "mut st: spawn::ExitStatus;\nmut out = A(2);\nlet e = exec::exec(A(1), status: st, stdout: out);\nput_int(e.i64);\nput_int(st.i64);\nput(out);" + FU_END,
    "quiet": ARGV_FU % 1 + "\nmut st: spawn::ExitStatus;\nlet e = spawn::spawn(argv, status: st);\nput_int(e.i64);\nput_int(st.i64);" + FU_END,
    "spawn": ARGV_FU % 3 + "\nmut st: spawn::ExitStatus;\nmut out = A(1);\nmut err = A(2);\n"
             "let e = spawn::spawn(argv, stdout: out, stderr: err, status: st);\nput_int(e.i64);\nput_int(st.i64);\nput(out);\nput(err);" + FU_END,
}
FU_EXTRA = """
pragma emit_top(`%s`);
fn fds(): i32
{
    mut n: i32;
    pragma input(n` = T_fds();`);
    return n;
}
fn left(): i32
{
    mut n: i32;
    pragma input(n` = T_child();`);
    return n;
}
fn count(): i32
{
    mut n: i32;
    pragma input(n` = (int) T_args.size();`);
    return n;
}
"""


def stream(fd, n):
    return bytes(((x * 167 + (x >> 8) * 13 + fd) & 255) for x in range(n))


STREAM = {}


def bytes_of(fd, n):
    if (fd, n) not in STREAM:
        big = STREAM.get(fd)
        if big is None or len(big) < n:
            STREAM[fd] = big = stream(fd, max(n, 1 << 20))
        return big[:n]
    return STREAM[fd, n]


SIZES = [0, 1, 10, 100, 511, 512, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072, 200000, 500000]


def script(rng):
    """(arguments of the child, bytes on stdout, on stderr, wait status)"""
    args, o, e, open_ = [], 0, 0, {"o": True, "e": True}
    for _ in range(rng.choice((0, 1, 2, 3, 5, 9))):
        x = rng.random()
        n = rng.choice(SIZES) if rng.random() < .5 else rng.randint(0, 3000)
        if o + e > 700000:
            n = 10
        if x < .35 and open_["o"]:
            args.append("o%d" % n)
            o += n
        elif x < .65 and open_["e"]:
            args.append("e%d" % n)
            e += n
        elif x < .72 and open_["o"]:
            args.append("sO")
            open_["o"] = False
        elif x < .79 and open_["e"]:
            args.append("sE")
            open_["e"] = False
        elif x < .95:
            args.append("w%d" % rng.choice((1, 3, 10, 30)))
    r = rng.random()
    st = 0
    if r < .5:
        n = rng.choice((0, 1, 2, 3, 7, 42, 113, 127, 128, 255))
        args.append("x%d" % n)
        st = n << 8
    elif r < .7:
        k = rng.choice((1, 2, 9, 13, 15))
        args.append("k%d" % k)
        st = k
    return args, o, e, st


WORDS = ["", " ", "a", "a b", "$HOME", "`id`", "*", "'", '"', "\\", "\n", "--", "-x", "\xc3\xa9", "x" * 500, ";", "&&", "|", ">f", "#"]


def cases(rng, n, child):
    out = []
    for _ in range(n):
        x = rng.random()
        pre = rng.randbytes(rng.choice((0, 0, 0, 1, 16, 3000)))
        pre2 = rng.randbytes(rng.choice((0, 0, 5)))
        if x < .06:
            words = [rng.choice(WORDS) for _ in range(rng.randint(1, 8))]
            words = [w.encode("latin1") for w in words]
            out.append((("spawn", pre, pre2, child, "a") + tuple(words), (0, 0, pre + b"".join(struct.pack("q", len(w)) + w for w in words), pre2)))
        elif x < .10:
            out.append((("spawn", pre, pre2, "/nonexistent/%d" % rng.randint(0, 9), "x"), (2, None, pre, pre2)))
        elif x < .12:
            out.append((("quiet", "/nonexistent/x"), (2, None)))
        elif x < .25:
            a, _, _, st = script(rng)
            out.append((("quiet", child) + tuple(a), (0, st)))
        elif x < .45:
            a, o, e, st = script(rng)
            if st and st < 256:         # the shell tells of signals in its own way: let it be the child
                cmd = "exec %s %s 2>/dev/null" % (child, " ".join(a))
            else:
                cmd = "%s %s 2>/dev/null" % (child, " ".join(a))
            out.append((("exec", cmd, pre), (0, st, pre + bytes_of(1, o))))
        else:
            a, o, e, st = script(rng)
            out.append((("spawn", pre, pre2, child) + tuple(a), (0, st, pre + bytes_of(1, o), pre2 + bytes_of(2, e))))
    return out


def text(who):
    if who == "tree":
        f = {"exec": libs.find("lib/exec.fu.cpp", "exec", "fu::str", "int", "fu::str"),
             "spawn2": libs.find("lib/spawn.fu.cpp", "spawn", "fu::vec<fu::str>", "int"),
             "spawn4": libs.find("lib/spawn.fu.cpp", "spawn", "fu::vec<fu::str>", "fu::str", "fu::str", "int")}
        return libs.cpp_text(["lib/exec.fu.cpp", "lib/spawn.fu.cpp"], {k: v % f for k, v in CPP.items()}, EXTRA)
    return libs.fu_text(FU, FU_EXTRA % EXTRA.replace("\\", "\\\\"))


def child_exe():
    src = os.path.join(core.VERIF, "harness", "child.c")
    exe = os.path.join(core.WORK, "bin", "child-" + core.digest(open(src).read()))
    with core.lock("child"):
        if not os.path.exists(exe):
            r = core.run(["gcc", "-O1", "-w", src, "-o", exe + ".t"])
            if r.rc != 0:
                raise core.HarnessError("child.c: " + core.text(r.err))
            os.rename(exe + ".t", exe)
    return exe


def show(x):
    return "%d bytes %r" % (len(x), x[:20]) if isinstance(x, bytes) else repr(x)


def main(c):
    c.rule = "distinct child behaviours (compiler, function, script); evaluations are children run to their end"
    c.assumptions = ["children are local processes that end on their own"]
    core.build_fu()
    flavours = core.tier(["asan"], ["asan", "opt", "asan-opt"])
    for fl in flavours:
        fuprog.prepared(fl)
    child = child_exe()
    bytes_of(1, 1), bytes_of(2, 1)
    n = core.tier(300, 1800)
    lanes = core.tier(3, 4)
    exes = {}

    def make(a):
        who, fl = a
        d = os.path.join(core.WORK, "tmp", "lx-%s-%s-%d" % (who, fl, os.getpid()))
        os.makedirs(d, exist_ok=True)
        return a, d, libs.build_cpp(fl, d, text(who)) if who == "tree" else libs.build_fu(who, fl, d, text(who))

    for a, d, (exe, bad) in core.pmap(make, [(w, fl) for fl in flavours for w in ("tree", "boot", "fu")]):
        exes[a] = exe, d
        if not exe:
            c.unclear("%s (%s build) does not build: %s" % (whose(a[0]), a[1], core.text(fuprog.plain(bad.out + bad.err), 900)))

    def one(x):
        (who, fl), lane = x
        exe, d = exes[who, fl]
        todo = cases(random.Random("%s %s %s %d" % (core.SEED, who, fl, lane)), n, child)
        got, r = libs.drive(exe, [t for t, _ in todo], d, timeout=core.tier(120, 400))
        bad, seen, counts, base = [], set(), {}, None
        name = "%s (%s build)" % (whose(who), fl)
        for (t, want), v in zip(todo, got):
            key = "%s-%s" % (t[0], who)
            said = "%s: %s" % (name, " ".join(show(y) if isinstance(y, bytes) else str(y) for y in t if y != child)[:300])
            try:
                nums = int(v[0]), int(v[1])
                fds, left = int(v[-2]), int(v[-1])
                res = v[2:-2]
            except (IndexError, ValueError):
                bad.append((key, "%s: an answer without the expected parts" % said))
                continue
            why = None
            if nums[0] != want[0]:
                why = "error %d, expected %d" % (nums[0], want[0])
            elif want[1] is not None and nums[1] != want[1]:
                why = "wait status %d, the child ended with %d" % (nums[1], want[1])
            for y, z, s in zip(res, want[2:], ("stdout", "stderr")):
                if y != z:
                    same = next((i for i, (p, q) in enumerate(zip(y, z)) if p != q), min(len(y), len(z)))
                    why = why or "%s: %s, the child wrote %s (the same for %d bytes)" % (s, show(y), show(z), same)
            if base is None:
                base = fds
            if fds != base:
                why = why or "%d open files, %d before" % (fds, base)
                base = fds
            if left:
                why = why or "a child is left behind"
            if why:
                bad.append((key, "%s: %s" % (said, why)))
            seen.add((who, t[0]) + tuple(str(y)[:40] for y in t[1:]))
            counts[t[0]] = counts.get(t[0], 0) + 1
        if r.rc != 0 or len(got) != len(todo):
            t = todo[len(got)][0] if len(got) < len(todo) else ("end",)
            bad.append(("end-%s-%s" % (t[0], who), "%s: %s at %s\n%s" % (
                name, r.how(), " ".join(str(y) for y in t)[:300], core.text(fuprog.plain(r.err), 2000))))
        return bad, seen, counts

    for bad, seen, counts in core.pmap(one, [(a, k) for a in exes if exes[a][0] for k in range(lanes)], jobs=core.tier(8, 12)):
        for k, why in bad:
            c.violation(k, why, why)
        c.note_distinct(seen)
        for k, v in counts.items():
            c.saw(v)
            c.count(k, v)
    import shutil
    for exe, d in exes.values():
        shutil.rmtree(d, ignore_errors=True)


def whose(who):
    return "lib/*.fu.cpp" if who == "tree" else "lib/*.fu compiled by " + who


def prime():
    core.build_fu()
    fuprog.prepared("asan")
    child_exe()
