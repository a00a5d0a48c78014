import contextlib
import os
import random
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from vlib import buildproj, core, fuprog

MIN_EVALUATIONS, MIN_DISTINCT = 250, 60

SCHEMES = ("", "--debug", "--reldeb", "--retail")
FLAGS = (None, 1, 2)

# Stands for g++: without optimisation, notes what it was asked, and fails when the plan says so.
STUB = r"""#!/bin/sh
kind=link
case " $* " in *" -c "*) kind=compile;; esac
i=1
while ! mkdir "$STUB_DIR/$kind.$i" 2>/dev/null; do i=$((i+1)); done
[ -n "$STUB_SLEEP" ] && sleep $STUB_SLEEP
if [ "$STUB_FAIL" = "$kind.$i" ]; then
    : > "$STUB_DIR/hit"
    prev=
    for a in "$@"; do
        [ "$prev" = "-o" ] && [ "$STUB_MODE" != "exit" ] && printf 'not an object' > "$a"
        prev="$a"
    done
    [ "$STUB_MODE" = "kill" ] && kill -9 $$
    exit 1
fi
exec %s "$@" -O0
"""


class History:
    """One project, one cache, one compiler; a sequence of edits and builds."""

    def __init__(self, c, comp, exe, seed, d, other=None):
        self.other = other                  # a directory on another file system
        self.c, self.comp, self.exe, self.d = c, comp, exe, d
        self.r = random.Random(seed)
        self.log = ["compiler %s, history %s" % (comp, seed)]
        self.p = buildproj.Project(self.r, headers=comp == "fu")
        self.src = d + "/src"
        self.n = 0
        self.bins = {}                      # name -> bytes it had after the last build that touched it
        self.edits = []
        self.saved = []
        for x in ("stub", "cwd", "out"):
            os.makedirs(d + "/" + x)
        core.mk_home(d + "/home")
        fuprog.boot_cwd(d + "/cwd")
        core.write(d + "/stub/g++", STUB % shutil.which("g++", path="/usr/local/bin:/usr/bin"))
        os.chmod(d + "/stub/g++", 0o755)
        self.p.write(self.src)
        self.bad = False

    def bad_thing(self, key, text):
        self.bad = True
        self.c.violation("%s-%s" % (self.comp, key), text, "\n".join(self.log) + "\n\n" + text + "\n\n" + "\n".join(
            "----- %s\n%s" % (f, t) for f, t in sorted(self.p.texts().items())))

    def env(self, tag, **more):
        sd = "%s/stub.%s" % (self.d, tag)
        os.makedirs(sd)
        return core.base_env(HOME=self.d + "/home", TMPDIR=self.d, FU_ROOT=core.T + "/", STUB_DIR=sd,
                             PATH=self.d + "/stub:/usr/local/bin:/usr/bin:/bin", **more), sd

    def command(self, scheme, flag, bin=None, run=False, cpp=None):
        return ([self.exe] + ([scheme] if scheme else []) + (["--bin", bin] if bin else []) + (["--run"] if run else []) +
                (["--cpp", cpp, "--src", self.src] if cpp else []) + [self.src + "/main.fu"] +
                (["--cflags", "-DXFLAG=%d" % flag] if flag is not None else []))

    def note(self, s):
        self.log.append("%3d %s" % (self.n, s))

    def shape(self, action):
        self.c.saw(1, "%s %s after %s" % (self.comp, action, "+".join(sorted(set(self.edits))) or "nothing"))
        self.c.count("%s: %s" % (self.comp, action))
        for e in self.edits:
            self.c.count("edit: " + e)
        self.edits = []

    def content(self, path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except OSError:
            return None

    def check_bin(self, path, scheme, flag, what):
        want, ret = self.p.expect(scheme, flag)
        if not os.access(path, os.X_OK):
            return self.bad_thing("no-binary", "%s: success, yet there is no executable at the place asked for (%s)" % (
                what, "missing" if self.content(path) is None else "%d bytes" % len(self.content(path))))
        r = core.run([path], timeout=30, cwd=self.d)
        got = core.text(fuprog.STAT.sub(b"", r.out), 20000)
        if got.strip() != want.strip() or r.rc != ret:
            self.bad_thing("wrong-binary", "%s: the binary does not do what the sources say\nexpected (exit %d):\n%s\ngot (%s):\n%s" % (
                what, ret, want, r.how(), got))

    def place(self):
        """Where the next binary goes: twice the same, a directory yet to be made, another file system."""
        k = self.r.choice("xxyyyno")
        if k == "n":
            return "%s/new%d/dir/n" % (self.d, self.r.randint(0, 3))
        if k == "o" and self.other:
            return self.other + "/o"
        return "%s/out/%s" % (self.d, k)

    # -- actions
    def build(self, scheme, flag, fail=None, mode="exit"):
        path = self.place()
        before = self.content(path)
        more = dict(STUB_FAIL=fail, STUB_MODE=mode) if fail else {}
        env, sd = self.env("b%d" % self.n, **more)
        run = self.r.random() < .15
        what = "build %s %s%s%s" % (scheme or "release", flag, " and run" if run else "", " with g++ failing at %s (%s)" % (fail, mode) if fail else "")
        self.note(what + " to " + path[len(self.d):] if path.startswith(self.d) else what + " to " + path)
        if path[-1] in "no":
            self.c.count("binary in a new directory" if path[-1] == "n" else "binary on another file system")
        r = core.run(self.command(scheme, flag, bin=path, run=run), timeout=120, env=env, cwd=self.d + "/cwd")
        text = fuprog.plain(r.out + r.err)
        hit = os.path.exists(sd + "/hit")
        self.note("   -> %s, g++ calls %s%s" % (r.how(), ",".join(sorted(x for x in os.listdir(sd) if "." in x)), ", failed" if hit else ""))
        self.shape("build with failing g++" if hit else "build and run" if run else "build")
        if r.timed_out:
            return self.c.unclear("a build took more than 120 s")
        should = not self.p.broken() and not hit and not (run and self.p.ret)
        if r.rc not in (0, 1):
            return self.bad_thing("crash", "%s: the compiler ended by %s\n%s" % (what, r.how(), text[-1500:]))
        if (r.rc == 0) != should:
            return self.bad_thing("wrong-status", "%s: exit status %d, expected %s\n%s" % (what, r.rc, "0" if should else "1", text[-1500:]))
        if r.rc:
            if self.content(path) != before and not (run and self.p.ret and not hit and not self.p.broken()):
                self.bad_thing("touched", "%s: the build failed, yet the binary was replaced or removed" % what)
            return
        if run:
            self.check_run(text, scheme, flag, what)
        self.check_bin(path, scheme, flag, what)

    def check_run(self, text, scheme, flag, what):
        if self.comp == "fu":
            for line in self.p.expect(scheme, flag)[0].splitlines():
                if line not in text:
                    return self.bad_thing("wrong-run", "%s: the program run did not print %r\n%s" % (what, line, text[-1500:]))

    def run_only(self, scheme, flag):
        env, sd = self.env("r%d" % self.n)
        what = "run %s %s" % (scheme or "release", flag)
        self.note(what)
        r = core.run(self.command(scheme, flag, run=True), timeout=120, env=env, cwd=self.d + "/cwd")
        text = fuprog.plain(r.out + r.err)
        self.shape("run")
        if r.timed_out:
            return self.c.unclear("a run took more than 120 s")
        should = not self.p.broken() and not self.p.ret
        if r.rc not in (0, 1) or (r.rc == 0) != should:
            return self.bad_thing("wrong-status", "%s: %s, expected %s\n%s" % (what, r.how(), "0" if should else "1", text[-1500:]))
        if not self.p.broken():
            self.check_run(text, scheme, flag, what) if not self.p.ret else None

    def emit(self):
        """C++ written over what an earlier emission left is what a first emission writes."""
        env, _ = self.env("e%d" % self.n)
        self.note("emit C++ to %s" % ("another file system" if self.other and self.n % 3 == 0 else "the same"))
        base = self.other if self.other and self.n % 3 == 0 else self.d
        at, older = base + "/emitted/", base + "/emitted.older/"
        for again in (False, True):
            if again:                       # to the same place, which is empty now
                os.rename(at, older)
            os.makedirs(at, exist_ok=True)
            r = core.run(self.command("", None, cpp=at), timeout=120, env=env, cwd=self.d + "/cwd")
            if r.timed_out:
                return self.c.unclear("an emission took more than 120 s")
            if (r.rc == 0) != (not self.p.broken()):
                return self.bad_thing("wrong-status", "emission: %s\n%s" % (r.how(), fuprog.plain(r.out + r.err)[-1500:]))
        self.shape("emit")
        fresh = [os.path.relpath(os.path.join(a, f), at) for a, _, fs in os.walk(at) for f in fs]
        for f in fresh:
            if self.content(older + f) != self.content(at + f):
                self.bad_thing("stale-emission", "emitted over older output, %s differs from a fresh emission\n--- over older\n%s\n--- fresh\n%s" % (
                    f, core.text(self.content(older + f) or b"", 4000), core.text(self.content(at + f) or b"", 4000)))
        if self.p.broken() and fresh:
            self.bad_thing("emission", "refused, yet C++ was written: %s" % fresh)
        shutil.rmtree(at)
        os.rename(older, at)

    def killed(self, scheme, flag):
        path = self.place()
        before = self.content(path)
        delay = self.r.choice((.01, .03, .08, .15, .25, .4, .6)) * self.r.uniform(.5, 1.5)
        alone = self.r.random() < .5
        env, sd = self.env("k%d" % self.n, STUB_SLEEP="0.05")
        self.note("build %s %s to %s, killed after %.3f s%s" % (scheme, flag, path, delay, ", g++ living on" if alone else ""))
        p = subprocess.Popen(self.command(scheme, flag, bin=path), env=env, cwd=self.d + "/cwd", stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(delay)
        except subprocess.TimeoutExpired:
            pass
        done = p.poll() is not None
        try:
            p.kill() if alone else os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        self.note("   -> %s" % ("had ended" if done else "killed"))
        self.shape("build ended before the kill" if done else "killed build" + (" with g++ living on" if alone else ""))
        if self.content(path) != before:
            self.check_bin(path, scheme, flag, "a build killed after %.3f s replaced the binary" % delay)
        return p.pid if alone else None

    def together(self):
        """Several builds at once, sharing the cache."""
        jobs = []
        for i in range(self.r.choice((2, 2, 3))):
            jobs.append((self.r.choice(SCHEMES[:2]), self.r.choice(FLAGS[:2]), "%s/out/t%d" % (self.d, i)))
        if self.r.random() < .6:
            jobs = [(jobs[0][0], jobs[0][1], j[2]) for j in jobs]
        res = [None] * len(jobs)
        self.note("at once: " + "; ".join("%s %s to %s" % (j[0] or "release", j[1], j[2][-2:]) for j in jobs))

        def go(i):
            env, sd = self.env("t%d.%d" % (self.n, i))
            res[i] = core.run(self.command(jobs[i][0], jobs[i][1], bin=jobs[i][2]), timeout=180, env=env, cwd=self.d + "/cwd")
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.shape("%d builds at once" % len(jobs))
        for j, r in zip(jobs, res):
            if r is None or r.timed_out:
                self.c.unclear("builds at once took more than 180 s")
                continue
            should = not self.p.broken()
            if r.rc not in (0, 1) or (r.rc == 0) != should:
                self.bad_thing("at-once", "one of several builds at once: %s, expected %s\n%s" % (
                    r.how(), "0" if should else "1", fuprog.plain(r.out + r.err)[-1500:]))
            elif r.rc == 0:
                self.check_bin(j[2], j[0], j[1], "one of several builds at once")

    def step(self):
        self.n += 1
        r = self.r
        keep = r.random() < .3
        x = r.random()
        if self.p.broken() and x < .7:
            self.p.mend()
            self.edits.append("mend")
        elif x < .08:
            self.edits.append("spoil")
            self.note("spoil " + self.p.spoil())
        elif x < .18 and self.saved:
            self.p.restore(r.choice(self.saved))
            self.edits.append("revert")
        elif x < .24:
            new = self.d + "/src%d" % self.n
            os.rename(self.src, new)
            self.src = new
            self.edits.append("move")
        elif x < .28:
            for sub in (("home/.fu/cache/obj", "home/.fu/cache/cpp", "home/.fu/cache/bin", "cwd/build-cpp")):
                q = os.path.join(self.d, sub)
                if os.path.isdir(q) and r.random() < .5:
                    for f in os.listdir(q):
                        os.unlink(os.path.join(q, f))
            self.edits.append("cache emptied")
        elif x < .85:
            for _ in range(r.choice((1, 1, 1, 2, 3))):
                self.edits.append(self.p.edit())
        self.p.write(self.src, keep)
        if self.edits:
            self.note("edit: " + ", ".join(self.edits) + (" (times kept)" if keep else ""))
        if not self.p.broken() and r.random() < .5:
            self.saved.append(self.p.state())
        scheme, flag = r.choice(SCHEMES + ("",) * 3), r.choice(FLAGS + (None,) * 2)
        y = r.random()
        if y < .42:
            self.build(scheme, flag)
        elif y < .55:
            self.build(scheme, flag, fail=r.choice(("compile.1", "compile.2", "compile.3", "link.1", "link.1")),
                       mode=r.choice(("exit", "partial", "kill")))
        elif y < .65:
            self.run_only(scheme, flag)
        elif y < .75:
            self.emit()
        elif y < .87:
            left = self.killed(scheme, flag)
            if not self.bad:
                self.build(scheme, flag)
            if left:
                try:
                    os.killpg(left, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        else:
            self.together()


@contextlib.contextmanager
def elsewhere(d):
    o = None
    try:
        if os.stat("/dev/shm").st_dev != os.stat(d).st_dev:
            o = tempfile.mkdtemp(prefix="verif-c19-", dir="/dev/shm")
    except OSError:
        pass
    try:
        yield o
    finally:
        if o:
            shutil.rmtree(o, ignore_errors=True)


def boot_headers(c):
    """The snapshot does not look into the headers a module includes; see known_findings.json."""
    with fuprog.scratch("bp") as d:
        h = History(c, "boot", core.BOOT, "headers", d)
        h.build("", None)
        h.p.deep = h.p.deep % 90 + 10 + (h.p.deep == 10)
        h.p.write(h.src)
        want, _ = h.p.expect("", None)
        env, _ = h.env("h")
        path = d + "/out/h"
        r = core.run(h.command("", None, bin=path), timeout=120, env=env, cwd=d + "/cwd")
        c.saw(1, "boot build after header")
        got = core.text(core.run([path], timeout=30, cwd=d).out, 4000) if r.rc == 0 else ""
        if r.rc == 0 and [l for l in want.splitlines() if l not in got]:
            c.violation("boot-header-edit", "after an edit of an included C++ header the snapshot's build delivers the old binary",
                        "edit of deep.h, build, run\nexpected\n%s\ngot\n%s" % (want, got))


def main(c):
    c.rule = ("every action is a build, run or emission of a project after random edits, cache states, failing C++ compilers, kills and "
              "builds at once; distinct: (compiler, action, kinds of edits before it)")
    c.assumptions = ["g++ is replaced by a wrapper which drops optimisation; its faults are exits, signals and partial outputs",
                     "the file system is not damaged: files in the cache are removed, never altered"]
    core.build_bootstrap()
    fu = core.build_fu()
    seconds = core.tier(40, 420)
    end = time.time() + seconds
    boot_headers(c)

    def go(k):
        j = 0
        while time.time() < end:
            comp = ("boot", "fu")[(k + j) % 2]
            with fuprog.scratch("bp") as d, elsewhere(d) as o:
                h = History(c, comp, core.BOOT if comp == "boot" else fu, "%d/%d/%d" % (core.SEED, k, j), d, o)
                for _ in range(24):
                    if h.bad or time.time() > end + 20:
                        break
                    h.step()
                c.count("histories")
                if j == 0 and k < 2:
                    c.sample("; ".join(h.log[:14]))
            j += 1

    core.pmap(go, range(core.JOBS))
