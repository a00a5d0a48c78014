"""Drives the library modules (lib/*): the C++ the tree carries for them, and what the two compilers make of
their fu source. Both kinds of driver read cases from standard input and print what they got, in hexadecimal."""
import glob
import os
import re

from . import core, fuprog

IO = os.path.join(core.VERIF, "harness", "fuio.hpp")
DEF = re.compile(r"(?m)^((?:static |inline |constexpr |const )*)([A-Za-z_][\w:<>,&* ]*?[ &*])(\w+)\(([^;{}]*)\)\s*\n\{")


def _type(param):
    p = re.sub(r"/\*.*?\*/|\bconst\b", "", param).strip()
    p = re.sub(r"(?<=[\s&*>])\w+$", "", p)
    return re.sub(r"[&\s]", "", p)


def definitions(path):
    """[(base name, mangled name, parameter types)] of the functions a C++ file of the tree defines."""
    try:
        s = open(os.path.join(core.REPO, path), encoding="latin1").read()
    except OSError:
        return []
    out = []
    for m in DEF.finditer(s):
        n = m.group(3)
        b = re.sub(r"_[A-Za-z0-9]{8}$", "", n)
        ps, depth, cur = [], 0, ""
        for ch in m.group(4):
            depth += (ch == "<") - (ch == ">")
            if ch == "," and not depth:
                ps.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            ps.append(cur)
        ps = [_type(p) for p in ps]
        out.append((b, n, ps))
    return out


def find(path, base, *params):
    """Mangled name of a function of the C++ file, by name and parameter types without const and reference."""
    want = [_type(p + " x") for p in params]
    got = [(n, ps) for b, n, ps in definitions(path) if b == base]
    for n, ps in got:
        if not params and len(got) == 1 or ps == want:
            return n
    got = [n for n, ps in got if len(ps) == len(want)]
    if len(got) == 1:
        return got[0]
    raise core.HarnessError("%s no longer defines %s(%s)" % (path, base, ", ".join(params)))


CPP_HEAD = """
#define TODO_FIX_REMOVE_copying_push
%(includes)s
#include "%(io)s"
static fu::str A(int i)
{
    const auto& s = T_arg(i);
    fu::str r;
    if (s.size()) r.append_copy(fu_ZERO(), s.data(), (int) s.size());
    return r;
}
static long long N(int i) { return (long long) strtoull(T_arg(i).c_str(), nullptr, 10); }
static void put(const fu::str& s) { T_put(s.data(), s.size()); }
static void put(long long n) { auto s = std::to_string(n); T_put(s.data(), (long) s.size()); }
static void put(int n) { put((long long) n); }
static void put(unsigned n) { put((long long) n); }
static void put(long n) { put((long long) n); }
static void put(unsigned long n) { auto s = std::to_string(n); T_put(s.data(), (long) s.size()); }
static void put(char c) { T_put(&c, 1); }
%(extra)s
int main()
{
    while (T_next())
    {
        const std::string op = T_arg(0);
%(ops)s
        T_end();
    }
}
"""

FU_HEAD = """
pragma emit_top(`%s`);
fn next_case(): bool
{
    mut ok = false;
    pragma input(ok` = T_next();`);
    return ok;
}
fn A(i: i32): string
{
    mut s: string;
    pragma input(`if (T_arg(`i`).size()) `s`.UNSAFE__init_copy(T_arg(`i`).data(), (int) T_arg(`i`).size());`);
    return s;
}
fn N(i: i32): i64
{
    mut n: i64;
    pragma input(n` = (long long) strtoull(T_arg(`i`).c_str(), nullptr, 10);`);
    return n;
}
fn put(s: string): void
{
    pragma output(`T_put(`s`.data(), `s`.size());`);
}
fn put_int(n: i64): void
{
    pragma output(`auto t = std::to_string(`n`); T_put(t.data(), (long) t.size());`);
}
fn put_end(): void
{
    pragma output(`T_end();`);
}
%s
fn main(): i32
{
%s
    while (next_case())
    {
        let op = A(0);
%s
        put_end();
    }
    return 0;
}
"""


def line(*fields):
    return b" ".join((f if isinstance(f, bytes) else str(f).encode()).hex().encode() for f in fields) + b"\n"


def cpp_text(files, ops, extra=""):
    """ops {name: C++ statements}"""
    inc = "\n".join('#include "%s"' % os.path.join(core.REPO, f) for f in files)
    body = "\n".join('        if (op == "%s") { %s }' % kv for kv in ops.items())
    return CPP_HEAD % dict(includes=inc, io=IO, extra=extra, ops=body)


def fu_text(ops, extra="", state=""):
    io = open(IO).read().replace("\\", "\\\\").replace("`", "")
    body = "\n".join('        if (op == "%s")\n        {\n%s\n        }' % (
        k, "\n".join("            " + x for x in v.strip().split("\n"))) for k, v in ops.items())
    return FU_HEAD % (io, extra, "\n".join("    " + x for x in state.strip().split("\n")), body)


def library():
    return {os.path.basename(p): open(p, "rb").read() for p in sorted(glob.glob(core.REPO + "/lib/*.fu"))}


def build_cpp(fl, d, text):
    """Executable of a driver over the C++ of the tree, or a Ran of the compiler."""
    p = d + "/drv.cpp"
    core.write(p, text)
    r, exe = fuprog.cxx(fl, d, [p])
    return (exe, None) if r.rc == 0 else (None, r)


def build_fu(comp, fl, d, text):
    r, o = fuprog.emit(comp, d, dict(library(), **{"main.fu": text}))
    srcs = []
    for dd, _, fs in os.walk(o):
        srcs += [os.path.join(dd, f) for f in fs if f.endswith(".cpp") and not f.endswith(".unity.cpp")]
    if r.rc != 0 or not srcs:
        return None, r
    r, exe = fuprog.cxx(fl, d, sorted(srcs))
    return (exe, None) if r.rc == 0 else (None, r)


def drive(exe, cases, d, env=None, timeout=200):
    """cases: tuples of fields -> (list of lists of byte strings, Ran)"""
    r = core.run([exe], stdin=b"".join(line(*c) for c in cases), timeout=timeout, cwd=d,
                 env=core.base_env(fu_NUM_WORKER_THREADS=0, **(env or {})), mem_gb=0)
    out = []
    r.out = fuprog.STAT.sub(b"", r.out)
    for l in r.out.split(b"\n"):
        try:
            out.append([bytes.fromhex(x.decode()) for x in l.split(b" ")[:-1]])
        except ValueError:
            break
    return out[:-1] if r.out.endswith(b"\n") else out, r
