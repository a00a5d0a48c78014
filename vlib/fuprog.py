"""Compiling and running fu programs with the two compilers of the tree under test."""
import contextlib
import fcntl
import glob
import os
import re
import shutil
import tempfile

from . import core

PCH = """#include <cstdint>
#include <fu/int.h>
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/view.h>
#include <fu/defer.h>
#include <fu/never.h>
#include <fu/print.h>
#include <fu/decstr.h>
#include <fu/vec/concat.h>
#include <fu/vec/view_swap.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/LEGACY_slice.h>
"""

OLD_HEAD = "#define TODO_FIX_REMOVE_copying_push"

# how emitted C++ is compiled here: fast, what the compiler itself uses, and instrumented
FLAVOURS = {
    "fast": ["g++", "-O0", "-DNDEBUG"],
    "opt": ["g++", "-O3", "-DNDEBUG", "-fno-math-errno"],
    "asan": ["clang++", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base,function,vptr",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "asan-opt": ["clang++", "-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined",
                 "-fno-sanitize=shift-base,function,vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["g++", "-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"],
}
LINK = {"tsan": ["-Wl,--wrap=parallel_for"]}
STAT = re.compile(rb"(?m)^\x1b\[36m  STAT: .*\n")
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def plain(b):
    return ANSI.sub("", b.decode("utf8", "replace") if isinstance(b, bytes) else b)


def flags(fl):
    return FLAVOURS[fl] + ["-std=c++1z", "-w", "-I", os.path.join(core.REPO, "include")]


def prepared(fl):
    """(directory with the precompiled header, runtime object) of one flavour, for the current tree."""
    # precompiled headers go by the time stamps of what they include
    times = [(p, os.stat(p).st_mtime_ns) for p in core._files(core.REPO, "include")]
    d = os.path.join(core.WORK, "bin", "rt-%s-%s" % (fl, core.digest(core.tree_hash(subs=("include",)), times, FLAVOURS[fl], PCH)))
    with core.lock("rt-" + fl):
        if os.path.exists(d + "/ok"):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/pch.hpp", "w") as f:
            f.write(PCH)
        fs = flags(fl)
        ext = ".gch" if fs[0] == "g++" else ".pch"
        # the older compiler asks for this before its first include
        shutil.copy(d + "/pch.hpp", d + "/pch_old.hpp")
        with open(d + "/pch_old.hpp", "w") as f:
            f.write(OLD_HEAD + "\n" + PCH)
        open(d + "/rt.cpp", "w").write("#include <fu/_fulib.cpp>\n")
        for cmd in (fs + ["-x", "c++-header", d + "/pch.hpp", "-o", d + "/pch.hpp" + ext],
                    fs + ["-x", "c++-header", d + "/pch_old.hpp", "-o", d + "/pch_old.hpp" + ext],
                    fs + ["-c", d + "/rt.cpp", "-o", d + "/rt.o"]):
            r = core.run(cmd, timeout=300, mem_gb=0)
            if r.rc != 0:
                raise core.HarnessError("runtime does not compile (%s): %s" % (fl, plain(r.err)[-1500:]))
        open(d + "/ok", "w").close()
    return d


def use_pch(fl, d, src):
    """The precompiled header, unless the source asks for something else before its first include."""
    head = open(src, "rb").read(4000).split(b"#include")[0].decode("utf8", "replace").strip()
    if head and head != OLD_HEAD:
        return []
    h = "/pch_old.hpp" if head else "/pch.hpp"
    return ["-include", d + h] if FLAVOURS[fl][0] == "g++" else ["-include-pch", d + h + ".pch"]


@contextlib.contextmanager
def scratch(tag):
    d = tempfile.mkdtemp(prefix=tag + "-", dir=os.path.join(core.WORK, "tmp"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def boot_cwd(d):
    for x in ("include", "lib", "src"):
        p = os.path.join(d, x)
        if not os.path.islink(p):
            os.symlink(os.path.join(core.T, x), p)
    return d


class Out:
    """How far a program came: 'refused' (by the fu compiler), 'cxx' (emitted C++ does not compile),
    'crash' (the compiler crashed or hung), 'ran'."""

    def __init__(self, stage, msg="", ran=None):
        self.stage, self.msg, self.ran = stage, msg, ran


def cc_env(d):
    return core.base_env(HOME=core.mk_home(os.path.join(d, "home")), fu_NUM_WORKER_THREADS=0, TMPDIR=d)


def compiler(comp):
    return core.BOOT if comp == "boot" else core.FU


def sanitized_boot():
    """The compiler of the C++ snapshot, under sanitizers, assertions on."""
    core.build_bootstrap()
    fl = ["clang++", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base,function,vptr",
          "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "--std=c++17", "-w"]
    exe = os.path.join(core.WORK, "bin", "asan-boot-" + core.digest(core.tree_hash(core._is_boot), fl))
    with core.lock("asan-boot"):
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(core.WORK, "bin", "asan-boot-*")):
                os.unlink(old)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            r = core.run(fl + ["-I", "include", "-Dfu_UNITY_FULIB", "-o", exe + ".tmp", "src/cli.fu.unity.cpp", "-ldl", "-pthread"],
                         timeout=600, env=core.base_env(), cwd=core.T, mem_gb=0)
            if r.rc != 0:
                raise core.HarnessError("sanitized bootstrap does not compile: " + plain(r.err)[-1500:])
            os.replace(exe + ".tmp", exe)
    return exe


def classify(r):
    t = plain(r.out + r.err)
    if r.timed_out or r.sig or (r.rc not in (0, 1, 101) and "error" not in t.lower()):
        return "crash"
    return "refused"


def emit(comp, d, files, main="main.fu", timeout=60):
    """files {name: text} -> (Ran, directory with the emitted C++)."""
    s, o = d + "/s", d + "/o"
    for n, t in files.items():
        p = os.path.join(s, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t.encode() if isinstance(t, str) else t)
    os.makedirs(o, exist_ok=True)
    cwd = d + "/c"
    os.makedirs(cwd, exist_ok=True)
    if comp == "boot":
        boot_cwd(cwd)
    r = core.run([compiler(comp), "--cpp", o + "/", "--src", s + "/", os.path.join(s, main)],
                 cwd=cwd, env=cc_env(d), timeout=timeout)
    return r, o


def cxx(fl, d, srcs, timeout=240):
    rt = prepared(fl)
    exe = d + "/exe"
    objs = []
    for i, s in enumerate(srcs):
        obj = d + "/x%d.o" % i
        r = core.run(flags(fl) + use_pch(fl, rt, s) + ["-c", s, "-o", obj], env=cc_env(d), timeout=timeout, mem_gb=0)
        if r.rc != 0:
            return r, None
        objs.append(obj)
    r = core.run(FLAVOURS[fl] + LINK.get(fl, []) + objs + [rt + "/rt.o", "-o", exe, "-ldl", "-pthread"], env=cc_env(d), timeout=timeout, mem_gb=0)
    return r, exe


def build_and_run(comp, fl, files, main="main.fu", timeout=20, tag="p", args=(), stdin=None, env=None, extra_cpp=()):
    """fl: a flavour, or 'product' for the compiler's own way to a binary."""
    with scratch(tag) as d:
        if fl == "product":
            s = d + "/s"
            for n, t in files.items():
                p = os.path.join(s, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t.encode() if isinstance(t, str) else t)
            cwd = d + "/c"
            os.makedirs(cwd)
            if comp == "boot":
                boot_cwd(cwd)
            exe = d + "/exe"
            r = core.run([compiler(comp), "--bin", exe, os.path.join(s, main)], cwd=cwd, env=cc_env(d), timeout=240, mem_gb=0)
            if r.rc != 0 or not os.path.exists(exe):
                t = plain(r.out + r.err)
                if re.search(r"\.cpp:\d+:\d+: error|undefined reference|cc1plus", t):
                    return Out("cxx", t, r)
                return Out(classify(r), t, r)
        else:
            r, o = emit(comp, d, files, main)
            srcs = []
            for dd, _, fs in os.walk(o):
                srcs += [os.path.join(dd, f) for f in fs if f.endswith(".cpp") and not f.endswith(".unity.cpp")]
            if r.rc != 0 or not srcs:
                return Out(classify(r), plain(r.out + r.err), r)
            r, exe = cxx(fl, d, sorted(srcs) + list(extra_cpp))
            if r.rc != 0:
                return Out("cxx", plain(r.err), r)
        e = core.base_env(**{"fu_NUM_WORKER_THREADS": 0, **(env or {})})
        r = core.run([exe] + list(args), timeout=timeout, env=e, cwd=d, stdin=stdin,
                     mem_gb=0 if fl.startswith(("asan", "tsan")) else 4)
        r.out = STAT.sub(b"", r.out)
        return Out("ran", "", r)
