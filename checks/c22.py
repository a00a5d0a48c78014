import os
import random
import stat
from vlib import core, fuprog, libs

MIN_EVALUATIONS, MIN_DISTINCT = 5000, 300

EXTRA = """
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
static fu::str T_truth(const std::string& p)
{
    struct stat sb;
    fu::str r;
    if (lstat(p.c_str(), &sb)) { r.append_copy(fu_ZERO(), "none", 4); return r; }
    if (S_ISDIR(sb.st_mode)) { r.append_copy(fu_ZERO(), "dir", 3); return r; }
    r.append_copy(fu_ZERO(), "file", 4);
    FILE* f = fopen(p.c_str(), "rb");
    static char buf[1 << 16];
    for (size_t n; f && (n = fread(buf, 1, sizeof buf, f)) > 0; ) r.append_copy(fu_ZERO(), buf, (int) n);
    if (f) fclose(f);
    return r;
}
static int T_mode(const std::string& p) { struct stat sb; return stat(p.c_str(), &sb) ? -1 : int(sb.st_mode & 07777); }
static int T_fds()
{
    DIR* d = opendir("/proc/self/fd");
    int n = 0;
    while (d && readdir(d)) n++;
    if (d) closedir(d);
    return n;
}
"""

# the same operations over the C++ of the tree and over the fu source
CPP = {
    "write": "put(%(write)s(A(1), A(2), 0644u));",
    "read": "put(%(read1)s(A(1)));",
    "readinto": "{ fu::str s = A(2); put(%(read)s(A(1), s, (int64_t) N(3))); put(s); }",
    "readtwice": "{ fu::str s = A(3); put(%(read)s(A(1), s, (int64_t) 0)); put(%(read)s(A(2), s, (int64_t) 0)); put(s); }",
    "shared": "{ fu::str s = A(2); fu::str t(s); put(%(read)s(A(1), s, (int64_t) 0)); put(s); put(t); }",
    "chmod": "put(%(chmod)s(A(1), (unsigned) N(2)));",
    "unlink": "put(%(unlink)s(A(1)));",
    "rename": "put(%(rename)s(A(1), A(2)));",
    "size": "put((long long) %(size)s(A(1)));",
    "mkdir_p": "put(%(mkdir_p)s(A(1), 0755u));",
    "cwd": "put(%(cwd)s());",
    "env": "put(%(env)s(A(1)));",
    "truth": "put(T_truth(T_arg(1))); put(T_mode(T_arg(1)));",
    "fds": "put(T_fds());",
}
FU = {
    "write": "put_int(file::write(A(1), A(2), 0x1a4).i64);",
    "read": "put(file::read(A(1), else: \"\"));",
    "readinto": "mut s = A(2);\nlet e = file::read(A(1), into: s, size: N(3));\nput_int(e.i64);\nput(s);",
    "readtwice": "mut s = A(3);\nlet e = file::read(A(1), into: s);\nput_int(e.i64);\nlet f = file::read(A(2), into: s);\nput_int(f.i64);\nput(s);",
    "shared": "mut s = A(2);\nlet t = s;\nlet e = file::read(A(1), into: s);\nput_int(e.i64);\nput(s);\nput(t);",
    "chmod": "put_int(file::chmod(A(1), N(2).u32).i64);",
    "unlink": "put_int(file::unlink(A(1)).i64);",
    "rename": "put_int(file::rename(A(1), A(2)).i64);",
    "size": "put_int(file::size(A(1)));",
    "mkdir_p": "put_int(fs::mkdir_p(A(1)).i64);",
    "cwd": "put(fs::cwd());",
    "env": "put(env::get(A(1)));",
    "truth": "put(truth(A(1)));\nput_int(mode_of(A(1)).i64);",
    "fds": "put_int(fds().i64);",
}
FU_MORE = {
    "stat": "mut st: file::Stat;\nlet e = file::stat(A(1), into: st);\nput_int(e.i64);\nput_int(st.size);\nput_int(st.mtime.sec.i64);\nput_int(st.mtime.nsec.i64);",
    "exe": "put(fs::executable());",
    "list": "let e = fs::readdir(A(1), |name, path|\n{\n    put(name);\n    put(path);\n});\nput_int(e.i64);",
}
FU_EXTRA = """
pragma emit_top(`%s`);
fn truth(p: string): string
{
    mut s: string;
    pragma input(s` = T_truth(std::string(`p`.data(), (size_t) `p`.size()));`);
    return s;
}
fn mode_of(p: string): i32
{
    mut n: i32;
    pragma input(n` = T_mode(std::string(`p`.data(), (size_t) `p`.size()));`);
    return n;
}
fn fds(): i32
{
    mut n: i32;
    pragma input(n` = T_fds();`);
    return n;
}
"""

FAULTS = {
    "none": {},
    "short": {"IOF_CHUNK": 7},
    "short-big": {"IOF_CHUNK": 5000},
    "eio": {"IOF_CHUNK": 3000, "IOF_FAIL_AFTER": 60000, "IOF_ERRNO": 5},
    "enospc": {"IOF_FAIL_AFTER": 9000, "IOF_ERRNO": 28},
    "close": {"IOF_FAIL_CLOSE": 1},
}
SIZES = [0, 1, 2, 15, 16, 17, 31, 32, 33, 100, 255, 256, 1000, 4095, 4096, 4097, 9000, 65535, 65536, 65537, 130000]


def plan(rng, root, n, more):
    """[(case, what must hold of its answer, given the answers so far)]"""
    names = [os.path.join(root, x) for x in ("a", "b", "c.txt", "sub/d", "sub/e", "f g", "h\xc3\xa9", "n" * 100)]
    dirs = [os.path.join(root, "m%d" % i) for i in range(4)]
    out = [("fds",), ("mkdir_p", root + "/sub"), ("cwd",), ("env", "C22_MARK"), ("env", "C22_NONE"), ("write", root + "/blk", b"x")]
    for _ in range(n):
        p, q = rng.choice(names), rng.choice(names)
        x = rng.random()
        data = rng.randbytes(rng.choice(SIZES) if rng.random() < .6 else rng.randint(0, 300))
        if x < .30:
            out += [("write", p, data), ("truth", p)]
        elif x < .40:
            out += [("truth", p), ("read", p)]
        elif x < .58:
            hint = 0 if rng.random() < .6 else -2       # -2: the right size
            if rng.random() < .1:
                hint = rng.choice((1, 5, 100, 70000))
            out += [("truth", p), ("readinto", p, rng.randbytes(rng.choice((0, 0, 1, 10, 15, 16, 40, 5000))), hint)]
        elif x < .64:
            out += [("truth", p), ("truth", q), ("readtwice", p, q, rng.randbytes(rng.choice((0, 3, 16))))]
        elif x < .69:
            out += [("truth", p), ("shared", p, rng.randbytes(rng.choice((1, 16, 40, 3000))))]
        elif x < .73:
            out += [("truth", p), ("unlink", p), ("truth", p)]
        elif x < .78:
            out += [("truth", p), ("truth", q), ("rename", p, q), ("truth", p), ("truth", q)]
        elif x < .82:
            out += [("truth", p), ("size", p)]
        elif x < .86:
            out += [("truth", p), ("chmod", p, rng.choice((0o600, 0o644, 0o755, 0o400))), ("truth", p)]
        elif x < .96 or not more:
            d = rng.choice(dirs)
            for _ in range(rng.randint(0, 5)):
                d += rng.choice(("/", "/", "/", "//")) + rng.choice("xyz")
            d += rng.choice(("", "", "/"))
            if rng.random() < .06:
                d = root + "/blk/u/v"
            out += [("truth", d.rstrip("/") or "/"), ("mkdir_p", d), ("truth", d.rstrip("/"))]
        elif x < .98:
            out += [("truth", p), ("stat", p)]
        else:
            out.append(("list", rng.choice((root, root + "/sub", dirs[0], root + "/nothing"))))
    return out + [("exe",)] * bool(more) + [("fds",)]


class World:
    """Holds the answers against each other; files only ever change by the driver."""

    def __init__(self, root, fault, exe):
        self.root, self.fault, self.exe = root, fault, exe
        self.truth, self.mode, self.fds, self.made = {}, {}, None, set()

    def judge(self, case, v):
        op, a = case[0], case[1] if len(case) > 1 else None
        hard = "IOF_ERRNO" in FAULTS[self.fault]
        bad_close = "IOF_FAIL_CLOSE" in FAULTS[self.fault]
        failing = hard or bad_close
        txt = lambda i: v[i]
        num = lambda i: int(v[i])
        old = self.truth.get(a)
        isfile = old is not None and old.startswith(b"file")
        if op == "truth":
            want = self.truth.get(a)
            self.truth[a], self.mode[a] = txt(0), num(1)
            if want is not None and want != txt(0):
                return "is %s, and must be %s" % (show(txt(0)), show(want))
        elif op == "fds":
            if self.fds is None:
                self.fds = num(0)
            elif self.fds != num(0):
                return "%d open files at the end, %d at the start" % (num(0), self.fds)
        elif op == "cwd":
            if txt(0).decode() != os.path.realpath(self.root + "/.."):
                return "is %r" % txt(0)
        elif op == "exe":
            if txt(0).decode("latin1") != os.path.realpath(self.exe):
                return "is %r" % txt(0)[:300]
        elif op == "env":
            if txt(0) != (b"mark =1" if a == "C22_MARK" else b""):
                return "is %r" % txt(0)
        elif op == "write":
            data = case[2]
            if num(0) == 0:
                self.truth[a] = b"file" + data
                if bad_close:
                    return "reports success, and closing the file failed"
            else:
                self.truth.pop(a, None)
                if not failing:
                    return "error %d" % num(0)
        elif op == "read":
            want = old[4:] if isfile else b""
            if txt(0) != want and not (txt(0) == b"" and failing):
                return "read %s from %s" % (show(txt(0)), show(old))
        elif op in ("readinto", "shared"):
            pre = case[2]
            want = old[4:] if isfile else b""
            hint = case[3] if op == "readinto" else 0
            if op == "shared" and txt(2) != pre:
                return "changed another string that had the same value: %s" % show(txt(2))
            if txt(1)[:len(pre)] != pre:
                return "what the string held before is lost: %s" % show(txt(1))
            got = txt(1)[len(pre):]
            if num(0) == 0:
                if not isfile and old != b"dir":
                    return "no error for a file that is not there"
                if got != want and not (0 < hint < len(want) and got == want[:hint]) and isfile:
                    return "no error, and %s instead of %s" % (show(got), show(want))
                if bad_close:
                    return "reports success, and closing the file failed"
            else:
                if isfile and not failing and (hint <= 0 or hint == len(want)):
                    return "error %d for a file that is there (%d bytes)" % (num(0), len(want))
                if isfile and not want.startswith(got):
                    return "error, and %s which are not the start of %s" % (show(got), show(want))
        elif op == "readtwice":
            t = [self.truth.get(case[1]), self.truth.get(case[2])]
            if num(0) == 0 and num(1) == 0 and all(x and x.startswith(b"file") for x in t):
                if txt(2) != case[3] + t[0][4:] + t[1][4:]:
                    return "two files read into one string: %s" % show(txt(2))
        elif op == "unlink":
            there = old is not None and old != b"none"
            if (num(0) == 0) != (isfile or False) and there != (old == b"dir"):
                return "error %d for %s" % (num(0), show(old))
            if num(0) == 0:
                self.truth[a] = b"none"
        elif op == "rename":
            b = case[2]
            if (num(0) == 0) != (old != b"none"):
                return "error %d for %s" % (num(0), show(old))
            if num(0) == 0 and a != b:
                self.truth[b], self.truth[a] = self.truth[a], b"none"
        elif op == "size":
            if old == b"none" and num(0) != -1 or isfile and num(0) != len(old) - 4:
                return "is %d for %s" % (num(0), show(old))
        elif op == "stat":
            if old == b"none" and num(0) == 0 or isfile and (num(0) != 0 or num(1) != len(old) - 4):
                return "error %d, size %d for %s" % (num(0), num(1), show(old))
        elif op == "chmod":
            if (num(0) == 0) != (old != b"none"):
                return "error %d for %s" % (num(0), show(old))
            self.want_mode = (a, case[2]) if num(0) == 0 else None
        elif op == "mkdir_p":
            d = a.rstrip("/")
            was = self.truth.get(d)
            blocked = "/u/v" in d
            for k in [k for k in self.truth if (d.replace("//", "/") + "/").startswith(k.replace("//", "/") + "/")]:
                if self.truth[k] == b"none":
                    del self.truth[k]
            self.truth.pop(d, None)
            if num(0) == 0:
                if blocked and self.fault == "none":
                    return "reports success below a file"
                if was == b"dir":
                    return "reports that it made a directory that was there"
                self.truth[d] = b"dir"
            elif was == b"dir":
                if num(0) != 17:
                    return "error %d for a directory that is there" % num(0)
                self.truth[d] = b"dir"
            elif was == b"none" and not blocked:
                return "error %d with nothing in the way" % num(0)
        elif op == "list":
            return None     # judged by the caller, from the file system
        if op == "truth" and getattr(self, "want_mode", None) and self.want_mode[0] == a:
            m, self.want_mode = self.want_mode[1], None
            if self.mode[a] != m:
                return "has mode %o after chmod %o" % (self.mode[a], m)
        return None


def show(b):
    if b is None:
        return "(unknown)"
    return "%d bytes %r%s" % (len(b), b[:24], "..." if len(b) > 24 else "")


def shim():
    so = os.path.join(core.WORK, "bin", "iofault-%s.so" % core.digest(open(os.path.join(core.VERIF, "harness", "iofault.c")).read()))
    with core.lock("iofault"):
        if not os.path.exists(so):
            r = core.run(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(core.VERIF, "harness", "iofault.c"), "-o", so + ".t", "-ldl"])
            if r.rc != 0:
                raise core.HarnessError("iofault.c: " + core.text(r.err))
            os.rename(so + ".t", so)
    return so


def text(who):
    if who == "tree":
        f = {"read": libs.find("lib/file.fu.cpp", "read", "fu::str", "fu::str", "int64_t"),
             "read1": libs.find("lib/file.fu.cpp", "read", "fu::str"),
             "mkdir_p": libs.find("lib/fs.fu.cpp", "mkdir_p", "fu::str", "unsigned"),
             "cwd": libs.find("lib/fs.fu.cpp", "cwd"),
             "env": libs.find("lib/env.fu.cpp", "get", "fu::str"),
             "write": libs.find("lib/file.fu.cpp", "write", "fu::str", "fu::view<char>", "unsigned"),
             "chmod": libs.find("lib/file.fu.cpp", "chmod", "fu::str", "unsigned"),
             "unlink": libs.find("lib/file.fu.cpp", "unlink", "fu::str"),
             "rename": libs.find("lib/file.fu.cpp", "rename", "fu::str", "fu::str"),
             "size": libs.find("lib/file.fu.cpp", "size", "fu::str")}
        return libs.cpp_text(["lib/file.fu.cpp", "lib/fs.fu.cpp", "lib/env.fu.cpp"], {k: v % f for k, v in CPP.items()}, EXTRA)
    ops = dict(FU, **(FU_MORE if who == "fu" else {}))
    return libs.fu_text(ops, FU_EXTRA % EXTRA.replace("\\", "\\\\"))


def main(c):
    c.rule = "distinct (subject, fault, operation); evaluations are answers of the file functions held against what is on disk"
    c.assumptions = ["regular files on a local file system", "the shim of harness/iofault.c stands for a kernel that reads and writes in parts or fails"]
    core.build_fu()
    flavours = core.tier(["asan"], ["asan", "opt", "asan-opt"])
    for fl in flavours:
        fuprog.prepared(fl)
    so = shim()
    n = core.tier(600, 4000)
    rounds = core.tier(1, 6)

    def one(a):
        who, fl = a
        done = []
        with fuprog.scratch("lf") as d:
            exe, bad = libs.build_cpp(fl, d, text(who)) if who == "tree" else libs.build_fu(who, fl, d, text(who))
            if not exe:
                return a, None, bad
            for fault in FAULTS:
                for k in range(rounds):
                    root = os.path.realpath(os.path.join(d, "w-%s-%d" % (fault, k), "r"))
                    os.makedirs(root)
                    rng = random.Random("%s %s %s %s %d" % (core.SEED, who, fl, fault, k))
                    todo = plan(rng, root, n, who == "fu")
                    # the right size is only known once the truth has been told: sizes are fixed from the plan
                    know, fixed = {}, []
                    for x in todo:
                        if x[0] == "write":
                            know[x[1]] = len(x[2])
                        if x[0] == "readinto" and x[3] == -2:
                            x = x[:3] + (know.get(x[1], 0),)
                        fixed.append(x)
                    env = {"IOF_DIR": root + "/", "IOF_TOLD": d + "/told", "IOF_SEED": str(core.SEED + k), "C22_MARK": "mark =1", "LD_PRELOAD": so}
                    env.update({k2: str(v) for k2, v in FAULTS[fault].items()})
                    if fl.startswith("asan"):
                        env["ASAN_OPTIONS"] = core.base_env().get("ASAN_OPTIONS", "") + ":verify_asan_link_order=0"
                    got, r = libs.drive(exe, fixed, root + "/..", env=env)
                    told = [0, 0]
                    if os.path.exists(d + "/told"):
                        for l in open(d + "/told"):
                            told = [x + int(y) for x, y in zip(told, l.split())]
                        os.unlink(d + "/told")
                    done.append(judged(who, fl, fault, root, exe, fixed, got, r, told))
        return a, done, None

    for (who, fl), done, bad in core.pmap(one, [(w, fl) for fl in flavours for w in ("tree", "boot", "fu")]):
        if done is None:
            c.unclear("%s (%s build) does not build: %s" % (whose(who), fl, core.text(fuprog.plain(bad.out + bad.err), 900)))
            continue
        for told, counts, seen, bad in done:
            c.count("files opened", told[0])
            c.count("faults injected", told[1])
            for k, v in counts.items():
                c.count(k, v)
                c.saw(v if k not in ("truth", "fds") else 0)
            c.note_distinct(seen)
            for v in bad:
                c.violation(*v)


def whose(who):
    return "lib/*.fu.cpp" if who == "tree" else "lib/*.fu compiled by " + who


def judged(who, fl, fault, root, exe, cases, got, r, told):
    name, w, counts, seen, bad = whose(who), World(root, fault, exe), {}, set(), []
    for i, (case, v) in enumerate(zip(cases, got)):
        try:
            why = judge_list(case[1], v) if case[0] == "list" else w.judge(case, v)
        except (IndexError, ValueError):
            why = "an answer without the expected parts: %r" % (v,)
        if why:
            bad.append(("%s-%s-%s" % (case[0], who, fault),
                        "%s (%s build), faults: %s: %s of %s: %s" % (name, fl, fault, case[0], short(case[1:], root), why),
                        "\n".join("%s -> %s" % (short(x, root), short(y, root)) for x, y in list(zip(cases, got))[max(0, i - 30):i + 1])))
        seen.add((who, fault, case[0], len(case[2]) if case[0] in ("write", "readinto", "shared") else 0))
        counts[case[0]] = counts.get(case[0], 0) + 1
    if r.rc != 0 or len(got) != len(cases):
        at = cases[len(got)] if len(got) < len(cases) else ("end",)
        bad.append(("end-%s-%s" % (who, at[0]), "%s (%s build), faults: %s: %s at %s\n%s" % (
            name, fl, fault, r.how(), short(at, root), core.text(fuprog.plain(r.err), 2500))))
    return told, counts, seen, bad[:20]


def judge_list(path, v):
    if not v or int(v[-1]) != 0:
        return None if path.endswith("/nothing") or not v or int(v[-1]) == 2 else "error %s" % v[-1]
    names, paths = v[0:-1:2], v[1:-1:2]
    if len(set(names)) != len(names) or b"." in names or b".." in names:
        return "names twice, or the directory itself: %r" % names
    for a, b in zip(names, paths):
        if b.replace(b"//", b"/") != path.encode("latin1").replace(b"//", b"/").rstrip(b"/") + b"/" + a:
            return "entry %r has path %r" % (a, b)
    return None


def short(xs, root):
    out = []
    for x in xs:
        x = x.encode("latin1") if isinstance(x, str) else x if isinstance(x, bytes) else str(x).encode()
        x = x.replace(root.encode(), b"$")
        out.append(repr(x[:40])[1:] + ("...(%d bytes)" % len(x) if len(x) > 40 else ""))
    return "(%s)" % ", ".join(out)


def prime():
    core.build_fu()
    fuprog.prepared("asan")
    shim()
