import concurrent.futures
import glob
import os
import random
import re
import shutil
from vlib import borrowgen, borrowrun, core, fuprog, illformed, progen, snippets

MIN_EVALUATIONS, MIN_DISTINCT = 3000, 400

# Fills variables nobody gave a value, and evaluates arguments in the other order than g++.
CLANG = ["clang++", "--std=c++17", "-O1", "-ftrivial-auto-var-init=pattern", "-w"]


def _kept(name, key, make):
    exe = os.path.join(core.WORK, "bin", "%s-%s" % (name, key))
    with core.lock(name):
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(core.WORK, "bin", name + "-*")):
                os.unlink(old)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            make(exe + ".tmp")
            os.replace(exe + ".tmp", exe)
    return exe


def other_boot():
    """The compiler of the C++ snapshot, built by clang."""
    core.build_bootstrap()

    def make(out):
        r = core.run(CLANG + ["-I", "include", "-Dfu_UNITY_FULIB", "-o", out, "src/cli.fu.unity.cpp", "-ldl", "-pthread"],
                     timeout=600, env=core.base_env(), cwd=core.T, mem_gb=0)
        if r.rc != 0:
            raise core.HarnessError("clang does not compile the snapshot: " + fuprog.plain(r.err)[-1500:])
    return _kept("clang-boot", core.digest(core.tree_hash(core._is_boot), CLANG), make)


def self_fu():
    """The compiler of src/*.fu as it compiles itself, built by clang."""
    core.build_fu()

    def make(out):
        d = out + ".d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/c")
        try:
            r = core.run([core.FU, "--cpp", d + "/o", "--src", core.T, core.T + "/src/cli.fu"], timeout=120, cwd=d + "/c", env=fuprog.cc_env(d), mem_gb=0)
            srcs = [p for p in glob.glob(d + "/o/**/*.cpp", recursive=True) if not p.endswith(".unity.cpp")]
            if r.rc != 0 or not srcs:
                raise core.HarnessError("the compiler does not compile itself: " + fuprog.plain(r.out + r.err)[-1500:])

            def one(p):
                o = p[:-4] + ".o"
                return o, core.run(CLANG + ["-I", core.T + "/include", "-c", "-o", o, p], timeout=600, env=core.base_env(), mem_gb=0)
            core.write(d + "/rt.cpp", "#include <fu/_fulib.cpp>\n")
            srcs.append(d + "/rt.cpp")
            srcs.sort(key=lambda p: -os.path.getsize(p))
            with concurrent.futures.ThreadPoolExecutor(core.JOBS) as ex:
                rs = list(ex.map(one, srcs))
            for o, r in rs:
                if r.rc != 0:
                    raise core.HarnessError("clang does not compile what the compiler makes of itself: " + fuprog.plain(r.err)[-1500:])
            r = core.run(["clang++", "-o", out] + [o for o, _ in rs] + ["-ldl", "-pthread"], timeout=120, env=core.base_env(), mem_gb=0)
            if r.rc != 0:
                raise core.HarnessError("what the compiler makes of itself does not link: " + fuprog.plain(r.err)[-1500:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _kept("self-fu", core.digest(core.tree_hash(), CLANG), make)


def report(r, s):
    """The part of the output that is about the program."""
    t = fuprog.plain(r.out + r.err).replace(s, "<src>")
    out = []
    for l in t.split("\n"):
        if not l.strip() or re.match(r"\s*(STAT|COMPILE|WROTE|BUILD|OK|LINK|RUN|UNLINK|lex|parse|solve|codegen|sloc|fns|types)\b|\s*-{5,}|\s*[\d.]+s\s*$", l):
            continue
        out.append(re.sub(r"\d+\.\d+s", "<time>", l))
    return "\n".join(out).strip()


# How the run differs from the plain one; each is (name, what it changes).
HOW = ("plain", "again", "elsewhere", "environment", "memory filled", "other stack", "other build", "used home")


def compile_(cmd, comp, files, main, how):
    """(exit code, report, {file: text}) of one compilation, or None when it did not end."""
    with fuprog.scratch("dt" if how != "elsewhere" else "dt-with-a-rather-longer-name") as d:
        s, o = d + "/s", d + "/o"
        os.makedirs(s)
        order = sorted(files, reverse=how == "elsewhere")
        for n in order:
            core.write(os.path.join(s, n), files[n])
        os.makedirs(o)
        cwd = d + ("/c" if how != "elsewhere" else "/c/deep/er")
        os.makedirs(cwd)
        if comp == "boot":
            fuprog.boot_cwd(cwd)
        env = fuprog.cc_env(d)
        if how == "environment":
            env.update(LANG="tr_TR.UTF-8", LC_ALL="C", TZ="Asia/Kathmandu", COLUMNS="20", TERM="dumb", USER="x", NO_COLOR="1")
            env["fu_NUM_WORKER_THREADS"] = "5"
        elif how == "memory filled":
            env.update(MALLOC_PERTURB_="165", MALLOC_ARENA_MAX="1", MALLOC_TOP_PAD_="0")
        elif how == "other stack":
            env["PAD"] = "x" * 30011
        elif how == "used home":
            for sub in ("cpp", "obj", "bin", "tmp", "out"):
                core.write("%s/.fu/cache/%s/0000000000000000-1.cpp" % (env["HOME"], sub), "int main() { return 3; }\n")
            core.write(o + "/other.fu.cpp", "// left from before\n")
        r = core.run(cmd + ["--cpp", o + "/", "--src", s + "/", os.path.join(s, main)], cwd=cwd, env=env, timeout=90, mem_gb=0)
        if r.timed_out:
            return None
        got = {}
        for p in glob.glob(o + "/**/*.cpp", recursive=True):
            k = os.path.relpath(p, o)
            if k != "other.fu.cpp":
                got[k] = open(p, "rb").read().replace(s.encode(), b"<src>").replace(cwd.encode(), b"<cwd>")
        return r.rc, report(r, s), got


def inputs(r, scale):
    """(kind, files, main)"""
    out = []
    for p in sorted(glob.glob(os.path.join(core.VERIF, "corpus", "*.fu"))):
        out.append(("corpus", {"main.fu": open(p, encoding="utf8").read()}, "main.fu"))
    for i in range(int(40 * scale)):
        p = progen.make_program(r.randrange(10 ** 9), progen.Opt(old=True, alias=True), fns=4)
        out.append(("generated", {"main.fu": progen.program_text(p.gen, p.calls)}, "main.fu"))
    for i in range(int(40 * scale)):
        fns = []
        for k in range(2):
            f, ordered = borrowgen.function(r.randrange(10 ** 9))
            fns.append((k, f))
        out.append(("references", {"main.fu": borrowrun.program(fns)}, "main.fu"))
    snips = snippets.load()
    for s in (r.sample(snips, int(150 * scale)) if len(snips) > 150 * scale else snips):
        out.append(("snippet", s["files"], s["main"]))
    for e in r.sample(illformed.BODY, min(len(illformed.BODY), int(60 * scale))):
        for v in illformed.variants(e[1])[:1]:
            c = illformed.contexts(v)
            fs, m = c[r.choice(sorted(c))][:2]
            out.append(("ill-formed", fs, m))
    libs = {os.path.basename(p): open(p, encoding="utf8").read() for p in sorted(glob.glob(core.REPO + "/lib/*.fu"))}
    for k in sorted(libs):
        out.append(("library", libs, k))
    return [x for x in out if all(x[1].values())]


def difference(a, b):
    """What differs between two outcomes, or None."""
    if a[0] != b[0]:
        return "exit code %d and %d" % (a[0], b[0])
    if a[1] != b[1]:
        return "reports differ:\n--- %s\n--- %s" % (a[1][:700], b[1][:700])
    if set(a[2]) != set(b[2]):
        return "files %r and %r" % (sorted(a[2]), sorted(b[2]))
    for k in sorted(a[2]):
        if a[2][k] != b[2][k]:
            x, y = a[2][k].split(b"\n"), b[2][k].split(b"\n")
            for i, (p, q) in enumerate(zip(x + [b"<end>"], y + [b"<end>"])):
                if p != q:
                    return "%s, line %d:\n--- %s\n--- %s" % (k, i + 1, p.decode("latin1")[:300], q.decode("latin1")[:300])
    return None


def main(c):
    c.rule = "distinct (compiler, input); evaluations are compilations compared with the plain one"
    c.assumptions = ["the compiler is not changed while it runs", "clang and gcc both follow the C++ standard where the standard is clear"]
    core.build_fu()
    subjects = {"boot": [core.BOOT], "fu": [core.FU]}
    others = dict(core.pmap(lambda f: f(), [lambda: ("boot", [other_boot()]), lambda: ("fu", [self_fu()])]))
    r = random.Random(core.SEED * 911 + 7)
    work = [(comp, k, fs, m) for k, fs, m in inputs(r, core.tier(1, 12)) for comp in ("boot", "fu")]
    src = {}
    for sub in ("src", "lib"):
        for p in glob.glob(core.REPO + "/%s/**/*.fu" % sub, recursive=True):
            src[os.path.relpath(p, core.REPO)] = open(p, encoding="utf8").read()
    own = [(comp, "the compiler", src, "src/cli.fu") for comp in ("boot", "fu")]
    r.shuffle(work)

    def one(w):
        comp, kind, files, main_ = w
        plain = compile_(subjects[comp], comp, files, main_, "plain")
        if plain is None:
            return w, None, []
        out = []
        for how in HOW[1:]:
            if how in ("again", "used home") and kind not in ("the compiler", "corpus") and hash_(main_, files) % 3:
                continue
            got = compile_(others[comp] if how == "other build" else subjects[comp], comp, files, main_, how)
            out.append((how, "no end within 90 s" if got is None else difference(plain, got)))
        return w, (plain[0], sum(len(t) for t in plain[2].values())), out

    for w, plain, out in core.pmap(one, own + work):
        comp, kind, files, main_ = w
        if plain is None:
            c.count("did not end")
            continue
        c.count("%s, %s" % (kind, "accepted" if plain[0] == 0 else "refused"))
        c.count("bytes of C++ compared", plain[1] * len(out))
        c.note_distinct([core.digest(comp, main_, sorted(files.items()))])
        for how, bad in out:
            c.saw(1)
            c.count("run: " + how)
            if bad:
                c.violation("%s-%s" % (comp, how.replace(" ", "-")),
                            "%s compiles the same %s differently (%s): %s\n%s" % (
                                comp, kind, how, bad, "\n".join("//file %s\n%s" % kv for kv in sorted(files.items()))[:3000] if kind != "the compiler" else ""))


def hash_(m, files):
    return int(core.digest(m, sorted(files.items())), 16)


def prime():
    core.build_fu()
    other_boot()
    self_fu()
