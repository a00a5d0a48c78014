"""Shared machinery of all checks: scratch space, builds of /repo's current tree,
running things under watchdogs, reporting verdicts and evidence.

Verdict discipline: a check ends with exit 0 (held on everything explored), exit 1
with a VIOLATION line, or exit 2 (the check itself could not do its work: nothing is
claimed either way)."""

import contextlib
import fcntl
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

T = os.path.join(WORK, "T")            # mirror of the working tree; compilers live here
BOOT = os.path.join(T, "bin", "fu.bootstrap")
FU = os.path.join(T, "bin", "fu")

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=0:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4",
}


class HarnessError(Exception):
    """The check cannot do its work; says nothing about the property."""


def base_env(**more):
    env = {
        "PATH": "/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "HOME": os.path.join(WORK, "home"),
        "TMPDIR": os.path.join(WORK, "tmp"),
        "CCACHE_DIR": os.path.join(WORK, "ccache"),
        "CCACHE_MAXSIZE": "3G", "CCACHE_COMPILERCHECK": "content",
        "CCACHE_NOHASHDIR": "1",
        "FU_ROOT": T + "/",
    }
    env.update(SAN_ENV)
    env.update({k: str(v) for k, v in more.items()})
    return env


for _d in ("", "tmp", "home", "ccache", "bin", "replay", "log"):
    os.makedirs(os.path.join(WORK, _d), exist_ok=True)


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick


# ---------------------------------------------------------------- running things

class Ran:
    __slots__ = ("rc", "out", "err", "timed_out", "wall", "cmd")

    def __init__(self, rc, out, err, timed_out, wall, cmd):
        self.rc, self.out, self.err = rc, out, err
        self.timed_out, self.wall, self.cmd = timed_out, wall, cmd

    @property
    def sig(self):
        return -self.rc if self.rc is not None and self.rc < 0 else 0

    def how(self):
        if self.timed_out:
            return "still running after %.0f s" % self.wall
        return "signal %d" % self.sig if self.sig else "exit %d" % self.rc


def _limits(mem_gb, core=0):
    def fn():
        resource.setrlimit(resource.RLIMIT_CORE, (core, core))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
    return fn


def run(cmd, timeout=120, env=None, cwd=None, stdin=None, mem_gb=8, merge=False):
    """Runs cmd in its own process group; kills the group at the end."""
    t0 = time.time()
    p = subprocess.Popen(
        cmd, env=env or base_env(), cwd=cwd,
        stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT if merge else subprocess.PIPE,
        start_new_session=True, preexec_fn=_limits(mem_gb))
    to = False
    try:
        out, err = p.communicate(input=stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        try:
            out, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(p.pid, signal.SIGKILL)
    return Ran(p.returncode, out or b"", err or b"", to, time.time() - t0, cmd)


def pmap(fn, items, jobs=None):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- the tree under test

def _files(root, sub):
    base = os.path.join(root, sub)
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for n in sorted(files):
            yield os.path.join(d, n)


_SUBS = ("include", "lib", "src")


def tree_hash(pred=lambda rel: True, subs=_SUBS):
    h = hashlib.sha256()
    for s in subs:
        for p in _files(REPO, s):
            rel = os.path.relpath(p, REPO)
            if not pred(rel):
                continue
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(rel.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


@contextlib.contextmanager
def lock(name):
    with open(os.path.join(WORK, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def sync():
    """Mirror /repo/{include,lib,src} into T, touching only what differs."""
    want = set()
    for s in _SUBS:
        for p in _files(REPO, s):
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            rel = os.path.relpath(p, REPO)
            want.add(rel)
            q = os.path.join(T, rel)
            data = open(p, "rb").read()
            try:
                if open(q, "rb").read() == data:
                    continue
            except OSError:
                os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(data)
    for s in _SUBS:
        for p in list(_files(T, s)):
            if os.path.relpath(p, T) not in want:
                os.unlink(p)


def _stamp(name):
    try:
        return open(os.path.join(T, name + ".stamp")).read()
    except OSError:
        return ""


def _set_stamp(name, val):
    with open(os.path.join(T, name + ".stamp"), "w") as f:
        f.write(val)


def mk_home(path):
    for d in ("cpp", "obj", "bin", "out", "tmp"):
        os.makedirs(os.path.join(path, ".fu/cache", d), exist_ok=True)
    return path


def _is_boot(rel):
    return rel.startswith("include/") or rel.endswith((".cpp", ".h", ".hpp"))


def build_bootstrap():
    """fu.bootstrap: the compiler built from the committed C++ snapshot."""
    with lock("tree"):
        os.makedirs(os.path.join(T, "bin"), exist_ok=True)
        want = tree_hash(_is_boot)
        sync()
        if _stamp("boot") == want and os.path.exists(BOOT):
            return BOOT
        _set_stamp("boot", "")
        env = base_env()
        r = run(["g++", "--std=c++17", "-Og", "-g", "-I", "include", "-Dfu_UNITY_FULIB",
                 "-c", "-o", "bin/bootstrap.o", "src/cli.fu.unity.cpp"],
                timeout=400, env=env, cwd=T)
        if r.rc != 0:
            raise HarnessError("bootstrap does not compile: " + r.err.decode("utf8", "replace")[-2000:])
        r = run(["g++", "-o", "bin/fu.bootstrap.tmp", "bin/bootstrap.o", "-ldl", "-pthread"],
                timeout=100, env=env, cwd=T)
        if r.rc != 0:
            raise HarnessError("bootstrap does not link: " + r.err.decode("utf8", "replace")[-2000:])
        os.replace(BOOT + ".tmp", BOOT)
        _set_stamp("boot", want)
        return BOOT


def build_fu():
    """bin/fu: the compiler compiled from src/*.fu by the bootstrap."""
    build_bootstrap()
    with lock("tree"):
        want = tree_hash()
        sync()
        if _stamp("fu") == want and os.path.exists(FU):
            return FU
        _set_stamp("fu", "")
        shutil.rmtree(os.path.join(T, "build-cpp"), ignore_errors=True)
        home = mk_home(os.path.join(WORK, "home-build"))
        r = run([BOOT, "--bin", FU + ".new", T + "/src/cli.fu"], timeout=600,
                env=base_env(HOME=home), cwd=T, mem_gb=0)
        if r.rc != 0 or not os.path.exists(FU + ".new"):
            raise HarnessError("bootstrap cannot build src/cli.fu: " +
                               (r.out + r.err).decode("utf8", "replace")[-2000:])
        os.replace(FU + ".new", FU)
        shutil.rmtree(os.path.join(T, "build-cpp"), ignore_errors=True)
        _set_stamp("fu", want)
        return FU


# ---------------------------------------------------------------- C++ harnesses

VARIANTS = {
    # assertions on, undefined behaviour and address errors fatal
    "asan-debug":   ["g++", "-Og", "-g", "-fsanitize=address,undefined", "-fno-sanitize=shift-base",
                     "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # what a release build runs (no assertions)
    "asan-release": ["g++", "-O2", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=shift-base",
                     "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "clang-asan":   ["clang++", "-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=shift-base",
                     "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # address errors only; crashes are left to the harness
    "asan-oob":     ["g++", "-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan":         ["g++", "-O1", "-g", "-DNDEBUG", "-fsanitize=thread"],
    "tsan-debug":   ["g++", "-O1", "-g", "-fsanitize=thread"],
    "release":      ["g++", "-O3", "-g1", "-DNDEBUG", "-fno-math-errno"],
    "debug":        ["g++", "-Og", "-g"],
    "retail":       ["g++", "-O3", "-g1", "-DNDEBUG", "-Dfu_RETAIL"],
}


def include_hash():
    return tree_hash(subs=("include",))


def build_harness(src, variant, extra=(), tag="", libs=("-pthread", "-ldl"), dep=""):
    """Compiles /verif/harness/<src> against /repo's include/ as it is now."""
    path = src if src.startswith("/") else os.path.join(VERIF, "harness", src)
    h = hashlib.sha256()
    h.update(include_hash().encode())
    h.update(open(path, "rb").read())
    for p in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if p.endswith(".hpp"):
            h.update(open(os.path.join(VERIF, "harness", p), "rb").read())
    cmd = VARIANTS[variant] + ["-std=c++17", "-w", "-I", os.path.join(REPO, "include"),
                               "-I", os.path.join(VERIF, "harness")] + list(extra)
    h.update(repr((cmd, libs, dep)).encode())
    name = "%s.%s%s.%s" % (os.path.basename(path).rsplit(".", 1)[0], variant, tag, h.hexdigest()[:16])
    out = os.path.join(WORK, "bin", name)
    with lock("bin-" + name):
        if os.path.exists(out):
            return out
        r = run(cmd + [path, "-o", out + ".tmp"] + list(libs), timeout=400, mem_gb=0)
        if r.rc != 0:
            raise HarnessError("%s does not compile (%s):\n%s" % (src, variant, r.err.decode("utf8", "replace")[:3000]))
        os.replace(out + ".tmp", out)
    return out


# ---------------------------------------------------------------- verdicts

def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(path))
    except FileNotFoundError:
        return {"known": [], "fixed": []}


class Check:
    """Collects what was observed and the violations of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []       # (key, text)
        self.known_hit = {}
        self.assumptions = []
        self.rule = ""
        self.inconclusive = []
        self.lock = threading.Lock()
        self.known = [k for k in known_findings().get("known", []) if k["property"] == pid]

    # -- observation
    def saw(self, n=1, key=None):
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.distinct.add(key)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s if isinstance(s, (str, dict, list)) else str(s))

    def note_distinct(self, keys):
        with self.lock:
            self.distinct.update(keys)

    # -- verdicts
    def violation(self, key, text, replay=None):
        """key identifies the failing input/site/history; matched with known findings."""
        for k in self.known:
            if k["key"] == key:
                with self.lock:
                    self.known_hit[key] = k["what"]
                return
        with self.lock:
            self.violations.append((key, text, replay))

    def unclear(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def finish(self, min_evaluations=1, min_distinct=2):
        wall = time.time() - self.t0
        distinct = len(self.distinct)
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": int(distinct),
            "rule": self.rule or "see DESIGN.md",
            "samples": self.samples or ["(none)"],
            "counters": self.counters,
            "inconclusive": self.inconclusive[:20],
            "known_findings_seen": sorted(self.known_hit),
        }
        ev = {
            "property": self.pid, "tier": "thorough" if TIER == "thorough" else "quick",
            "seed": SEED, "level": "exploration", "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)

        for key, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        print("%s %s: %d evaluations, %d distinct, %.1f s; %s" % (
            self.pid, TIER, self.evaluations, distinct, wall,
            " ".join("%s=%s" % kv for kv in sorted(self.counters.items()))[:1500]))
        for w in self.inconclusive[:10]:
            print("inconclusive: " + w)
        if self.violations:
            d = os.path.join(WORK, "replay")
            for i, (key, text, replay) in enumerate(self.violations[:5]):
                p = os.path.join(d, "%s-%d.txt" % (self.pid, i))
                with open(p, "wb") as f:
                    body = "property %s\nseed %d tier %s\nkey %s\n\n%s\n" % (self.pid, SEED, TIER, key, text)
                    f.write(body.encode("utf8", "surrogateescape"))
                    if replay:
                        f.write(b"\n--- replay ---\n")
                        f.write(replay if isinstance(replay, bytes) else replay.encode("utf8", "surrogateescape"))
                print("  " + text[:600].replace("\n", "\n  "))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.stdout.flush()
            return 1
        if self.evaluations < min_evaluations or distinct < min_distinct:
            print("nothing observed: %d evaluations, %d distinct (need %d, %d)" % (
                self.evaluations, distinct, min_evaluations, min_distinct))
            return 2
        return 0


def text(b, n=3000):
    s = b.decode("utf8", "replace") if isinstance(b, bytes) else b
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def digest(*xs):
    return hashlib.sha1(repr(xs).encode()).hexdigest()[:16]


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
