import ctypes
import math
import os
import random
import struct
import time
from vlib import core, fuprog, libs

MIN_EVALUATIONS, MIN_DISTINCT = 20000, 3000

TEA, ASCII, UTF8, ENV, RAND, NOW = ["lib/%s.fu.cpp" % x for x in ("tea", "ascii", "utf8", "env", "rand", "now")]
M32 = 0xffffffff
ENVS = {"C25_A": b"x", "C25_EMPTY": b"", "C25_LONG": b"y" * 5000, "C25_U": "é\n ü=;".encode(), "C25": b"short name", "C25_A_": b"longer name"}

# ---------------------------------------------------------------- what the answers must be


def tea_rounds(v0, v1, n):
    s = 0
    for _ in range(n):
        s = (s + 0x9e3779b9) & M32
        v0 = (v0 + (((v1 << 4) + 0xA341316C) ^ (v1 + s) ^ ((v1 >> 5) + 0xC8013EA4))) & M32
        v1 = (v1 + (((v0 << 4) + 0xAD90777D) ^ (v0 + s) ^ ((v0 >> 5) + 0x7E95761E))) & M32
    return v0, v1


def tea_bytes(b, v0=0, v1=0):
    n = len(b) & ~3
    w = struct.unpack("<%dI" % (n // 4), b[:n])
    for i in range(1, len(w), 2):
        v0, v1 = tea_rounds(v0 ^ w[i - 1], v1 ^ w[i], 16)
    if len(b) & 7:
        if len(w) & 1:
            v0 ^= w[-1]
        v0, v1 = tea_rounds(v0, v1 ^ int.from_bytes(b[n:], "big"), 16)
    return v0, v1


def digest(v, base, chars):
    full = 11 if base == 62 else 16
    chars = chars if 0 < chars < full else full
    out = b""
    for _ in range(chars):
        v, d = divmod(v, base)
        out += b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[d:d + 1]
    return out


def up(b):
    return bytes(x - 32 if 97 <= x <= 122 else x for x in b)


def low(b):
    return bytes(x + 32 if 65 <= x <= 90 else x for x in b)


def utf8(cp):
    if cp > 0x10ffff:
        return b""
    return chr(cp).encode("utf8", "surrogatepass")


def f32(x):
    return ctypes.c_float(x).value


def bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def unbits(n):
    return struct.unpack("<f", struct.pack("<I", n))[0]


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
    return a / b


ARITH = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": div}


def same(a, b, tol=0.0):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol


# ---------------------------------------------------------------- programs

CPP_OPS = {
    "hash16": "put(%(hash16)s(A(1), (int) N(2)));",
    "hash62": "put(%(hash62)s(A(1), (int) N(2)));",
    # the same bytes somewhere in the middle of others
    "hash_part": "{ fu::str s = A(1); int i = (int) N(2), n = (int) N(3); put(%(hash16)s(fu::get_view(s, i, i + n), 16)); }",
    "hash_tea": "{ s_TEA t {}; t.v0 = (unsigned) N(1); t.v1 = (unsigned) N(2); s_TEA o {}; o.v0 = (unsigned) N(3); o.v1 = (unsigned) N(4); "
                "%(hash_tea)s(t, o); put(t.v0); put(t.v1); }",
    "hash_u64": "{ s_TEA t {}; t.v0 = (unsigned) N(1); t.v1 = (unsigned) N(2); %(hash_u64)s(t, (uint64_t) N(3)); put(t.v0); put(t.v1); }",
    "hash_u32": "{ s_TEA t {}; t.v0 = (unsigned) N(1); t.v1 = (unsigned) N(2); %(hash_u32)s(t, (unsigned) N(3)); put(t.v0); put(t.v1); }",
    "digest62": "put(%(digest62)s((uint64_t) N(1), (int) N(2)));",
    "digest16": "put(%(digest16)s((uint64_t) N(1), (int) N(2)));",
    "upper": "put(%(upper)s(A(1)));",
    "lower": "put(%(lower)s(A(1)));",
    "utf8": "put(%(utf8)s((unsigned) N(1)));",
    "env": "put(%(env)s(A(1)));",
    "clock": "{ double a = %(hr)s(), u = %(utc)s(), b = %(hr)s(); put((long long)((b - a) * 1e9)); put((long long)(u * 1e6)); }",
    "rand": "T_draw((int) N(1), (int) N(2));",
}
CPP_EXTRA = """
#include <thread>
#include <vector>
#include <atomic>
#include <algorithm>
static void T_draw(int threads, int n)
{
    std::vector<std::vector<uint64_t>> got(threads);
    std::vector<std::thread> ts;
    std::atomic<int> ready { 0 };
    for (int i = 0; i < threads; i++) ts.emplace_back([&, i]
    {
        auto& g = got[i];
        g.reserve(n);
        for (ready++; ready < threads;) {}
        for (int k = 0; k < n; k++) g.push_back(%s());
    });
    for (auto& t : ts) t.join();
    std::vector<uint64_t> all;
    for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
    put((unsigned long) all[0]);
    std::sort(all.begin(), all.end());
    put((unsigned long) (std::unique(all.begin(), all.end()) - all.begin()));
}
"""

FU_OPS = {
    "hash16": "put(tea::hash16(A(1), N(2).i32));",
    "hash62": "put(tea::hash62(A(1), N(2).i32));",
    "hash_part": "let s = A(1);\nput(tea::hash16(s[N(2).i32 .. (N(2) + N(3)).i32], 16));",
    "hash_tea": "mut t: tea::TEA;\nt.v0 = N(1).u32;\nt.v1 = N(2).u32;\nmut o: tea::TEA;\no.v0 = N(3).u32;\no.v1 = N(4).u32;\nt.hash(o);\nput_int(t.v0.i64);\nput_int(t.v1.i64);",
    "hash_u64": "mut t: tea::TEA;\nt.v0 = N(1).u32;\nt.v1 = N(2).u32;\nt.hash(N(3).u64);\nput_int(t.v0.i64);\nput_int(t.v1.i64);",
    "hash_u32": "mut t: tea::TEA;\nt.v0 = N(1).u32;\nt.v1 = N(2).u32;\nt.hash(N(3).u32);\nput_int(t.v0.i64);\nput_int(t.v1.i64);",
    "digest62": "put(tea::digest62(N(1).u64, chars: N(2).i32));",
    "digest16": "put(tea::digest16(N(1).u64, chars: N(2).i32));",
    "upper": "put(ascii::upper(A(1)));",
    "lower": "put(ascii::lower(A(1)));",
    "upper_c": "mut r: string;\nfor (mut i = 0; i < A(1).len; i++)\n    r ~= ascii::upper(A(1)[i]);\nput(r);",
    "lower_c": "mut r: string;\nfor (mut i = 0; i < A(1).len; i++)\n    r ~= ascii::lower(A(1)[i]);\nput(r);",
    "to_upper": "mut s = A(1);\nascii::to_upper(s);\nput(s);",
    "to_lower": "mut s = A(1);\nascii::to_lower(s);\nput(s);",
    "trim": "let s = A(1);\nmut r: string;\nr ~= ascii::trim(s);\nput(r);",
    "utf8": "put(unicode::utf8(codepoint: N(1).u32));",
    "codepoints": "let s = A(1);\nmut r: string;\ns.codepoints(each: |codepoint, i| { r ~= codepoint.str; r ~= \"@\"; r ~= i.str; r ~= \" \"; }, error: |i| { r ~= \"!\"; r ~= i.str; r ~= \" \"; });\nput(r);",
    "env": "put(env::get(A(1)));",
    "clock": "let a = now::hr();\nlet u = now::utc();\nlet b = now::hr();\nput_int(((b - a) * 1000000000.0).i64);\nput_int((u * 1000000.0).i64);",
    "popcount": "put_int(bit::popcount(N(1).u64).i64);\nput_int(bit::popcount(N(1).u32).i64);",
    "zeros": "put_int(bit::clz(N(1).u64).i64);\nput_int(bit::ctz(N(1).u64).i64);\nput_int(bit::clz(N(2).u32).i64);\nput_int(bit::ctz(N(2).u32).i64);",
    "shuffle": "mut a: i32[];\nfor (mut i = 0; i < N(1).i32; i++)\n    a ~= i;\nmut seed = N(2).u32;\na.shuffle(:seed);\nmut r: string;\n"
               "for (mut i = 0; i < a.len; i++)\n{\n    r ~= a[i].str;\n    r ~= \" \";\n}\nput(r);\nput_int(seed.i64);",
    "rand": "mut n: i64;\nfor (mut i = 0; i < N(2).i32; i++)\n    n = rand::next_u64().i64;\nput_int(n);",
}
FU_EXTRA = "import tea;\nimport ascii;\nimport unicode;\nimport env;\nimport now;\nimport bit;\nimport shuffle;\nimport rand;\n"

VEC_EXTRA = """
import vec;
fn F(i: i32): f32
{
    mut x: f32;
    pragma input(`{ uint32_t u = (uint32_t) strtoull(T_arg(`i`).c_str(), nullptr, 10); memcpy(&`x`, &u, 4); }`);
    return x;
}
fn putf(x: f32): void
{
    pragma output(`{ uint32_t u; memcpy(&u, &`x`, 4); auto t = std::to_string(u); T_put(t.data(), (long) t.size()); }`);
}
fn V2(i: i32): vec::vec2 { return vec::vec2(F(i), F(i + 1)); }
fn V3(i: i32): vec::vec3 { return vec::vec3(F(i), F(i + 1), F(i + 2)); }
fn V4(i: i32): vec::vec4 { return vec::vec4(F(i), F(i + 1), F(i + 2), F(i + 3)); }
fn putv(v: vec::vec2): void { putf(v.x); putf(v.y); }
fn putv(v: vec::vec3): void { putf(v.x); putf(v.y); putf(v.z); }
fn putv(v: vec::vec4): void { putf(v.x); putf(v.y); putf(v.z); putf(v.w); }
"""
NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div"}


def vec_ops():
    ops = {}
    for n in (2, 3, 4):
        a, b = "V%d(1)" % n, "V%d(%d)" % (n, n + 1)
        for o, w in NAMES.items():
            ops["%s%d" % (w, n)] = "putv(%s %s %s);" % (a, o, b)
            ops["%s%ds" % (w, n)] = "putv(%s %s F(%d));" % (a, o, n + 1)
            ops["s%s%d" % (w, n)] = "putv(F(1) %s V%d(2));" % (o, n)
            ops["%s%da" % (w, n)] = "mut v = %s;\nv %s= %s;\nputv(v);" % (a, o, b)
            ops["%s%dsa" % (w, n)] = "mut v = %s;\nv %s= F(%d);\nputv(v);" % (a, o, n + 1)
        ops["neg%d" % n] = "putv(-%s);" % a
        ops["pos%d" % n] = "putv(+%s);" % a
        ops["dot%d" % n] = "putf(vec::dot(%s, %s));" % (a, b)
        ops["len%d" % n] = "putf(vec::len(%s));" % a
        ops["unit%d" % n] = "putv(vec::unit(%s));" % a
        ops["normalize%d" % n] = "mut v = %s;\nlet l = vec::normalize(v);\nputv(v);\nputf(l);" % a
        ops["fill%d" % n] = "putv(vec::vec%d(fill: F(1)));" % n
        if n < 4:
            ops["abs%d" % n] = "putv(vec::abs(%s));" % a
    ops["cross"] = "putv(vec::cross(V3(1), V3(4)));"
    ops["perp"] = "putv(vec::perp(V3(1)));"
    ops["parts"] = "putv(vec::xy(V4(1)));\nputv(vec::xyz(V4(1)));\nputv(vec::xy(V3(1)));\nputv(vec::vec4(V3(1), F(4)));\nputv(vec::vec4(F(1), V3(2)));"
    ops["axes"] = "putv(vec::vec3(x: F(1), y: F(2)));\nputv(vec::vec3(x: F(1), z: F(2)));\nputv(vec::vec3(y: F(1), z: F(2)));\nputv(vec::vec3(z: F(1)));"
    return ops


def vec_want(op, x):
    """(expected f32s, tolerance) or None when there is nothing to say"""
    base = op.rstrip("as")
    for o, w in NAMES.items():
        if op.startswith(w):
            n = int(op[3])
            a, b = x[:n], x[n:2 * n] if "s" not in op[3:] else [x[n]] * n
            return [f32(ARITH[o](p, q)) for p, q in zip(a, b)], 0
        if op.startswith("s" + w) and op[-1].isdigit():
            n = int(op[-1])
            return [f32(ARITH[o](x[0], q)) for q in x[1:n + 1]], 0
    n = int(op[-1]) if op[-1].isdigit() else 3
    if op == "cross":
        a, b = x[:3], x[3:6]
        if not tame(x[:6]):
            return None
        m = max(abs(p) for p in a) * max(abs(p) for p in b)
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], m * 1e-5
    if op == "perp":
        if any(p != p for p in x[:3]):
            return None
        return "perp", x[:3]
    if op == "parts":
        return x[:2] + x[:3] + x[:2] + x[:4] + x[:4], 0
    if op == "axes":
        return [x[0], x[1], 0.0, x[0], 0.0, x[1], 0.0, x[0], x[1], 0.0, 0.0, x[0]], 0
    if base.startswith("neg"):
        return [-p for p in x[:n]], 0
    if op.startswith("pos"):
        return x[:n], 0
    if op.startswith("abs"):
        return [abs(p) for p in x[:n]], 0
    if op.startswith("fill"):
        return [x[0]] * n, 0
    if not tame(x[:2 * n]):
        return None
    if op.startswith("dot"):
        t = [p * q for p, q in zip(x[:n], x[n:2 * n])]
        return [sum(t)], 1e-5 * sum(abs(p) for p in t)
    l = math.sqrt(sum(p * p for p in x[:n]))
    if op.startswith("len"):
        return [l], 1e-5 * l
    u = [p / l for p in x[:n]] if l else [0.0] * n
    if op.startswith("unit"):
        return u, 1e-5
    return u + [l], 1e-5 * max(1, l)


def tame(x):
    return all(p == p and (p == 0 or 1e-6 < abs(p) < 1e6) for p in x)


# ---------------------------------------------------------------- cases

def blob(rng, n):
    k = rng.random()
    if k < .3:
        return bytes(rng.choice(b" \t\nabzAZ@[`{~/019\x7f\x80\xc3\xa9\xff\x00") for _ in range(n))
    if k < .5:
        return "".join(chr(rng.choice((65, 97, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, rng.randrange(0x20, 0xd800)))) for _ in range(n)).encode()
    return rng.randbytes(n)


def numbers(rng, hi):
    return rng.choice((0, 1, 2, 3, hi, hi - 1, hi >> 1, (hi >> 1) + 1, 1 << rng.randrange(hi.bit_length()), rng.randrange(hi + 1), rng.randrange(70000) & hi))


def broken(rng):
    """bytes that are not a text, or only partly"""
    s = bytearray("".join(chr(rng.choice((65, 0xe9, 0x4e2d, 0x1f3c0))) for _ in range(rng.randint(1, 6))).encode())
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < .4:
            del s[rng.randrange(len(s) + 1):]
        elif k < .7 and s:
            s[rng.randrange(len(s))] = rng.choice((0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xf8, 0xff, 65))
        elif s:
            del s[rng.randrange(len(s))]
        s += bytes(rng.choice(((), (0xc3,), (0xe4, 0xb8), (0xf0, 0x9f, 0x8f), (0xe4,), (0xf0, 0x9f), (0xf0,))))
    return bytes(s)


def text_cases(rng, n, ops):
    out = []
    for k in range(0, 40):
        out += [("hash16", blob(rng, k), 16), ("hash62", blob(rng, k), 11)]
    for cp in (0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, M32):
        out.append(("utf8", cp))
    for k in range(33):
        out += [("digest62", (1 << 64) - 1 >> k, k), ("digest16", (1 << 64) - 1 >> k, k)]
    for name in list(ENVS) + ["C25_", "C25_NONE", "", "=", "C25_A=x", "c25_a"]:
        out.append(("env", name))
    out += [("clock",)] * 5
    for _ in range(n):
        b = blob(rng, rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, rng.randint(0, 60), rng.randint(0, 400))))
        out.append((rng.choice(("hash16", "hash62")), b, rng.choice((16, 11, 0, -1, 1, 5, 10, 12, 15, 17, 100))))
        k = rng.randint(0, len(b))
        out.append(("hash_part", b, k, rng.randint(0, len(b) - k)))
        st = [numbers(rng, M32) for _ in range(4)]
        out.append(("hash_tea", *st))
        out.append(("hash_u64", st[0], st[1], numbers(rng, (1 << 64) - 1)))
        out.append(("hash_u32", st[0], st[1], st[2]))
        out.append((rng.choice(("digest62", "digest16")), numbers(rng, (1 << 64) - 1), rng.randint(-1, 18)))
        b = blob(rng, rng.randint(0, 30))
        for op in ("upper", "lower", "upper_c", "lower_c", "to_upper", "to_lower"):
            out.append((op, b))
        out.append(("trim", rng.choice((b"", b" ", b"\n\t ", b"\x00")) + rng.choice((b, "é x ü".encode(), b"", b"  ")) + rng.choice((b"", b" ", b"\r\n"))))
        out.append(("utf8", numbers(rng, 0x10ffff)))
        out.append(("codepoints", "".join(chr(c) for c in (numbers(rng, 0x10ffff) for _ in range(rng.randint(0, 12))) if not 0xd800 <= c < 0xe000)))
        out.append(("codepoints", broken(rng)))
        out.append(("popcount", numbers(rng, (1 << 64) - 1)))
        out.append(("zeros", max(1, numbers(rng, (1 << 64) - 1)), max(1, numbers(rng, M32))))
        if rng.random() < .3:
            out.append(("shuffle", rng.choice((0, 1, 2, 3, 7, 52, rng.randint(0, 200))), numbers(rng, M32)))
    return [c for c in out if c[0] in ops]


def floats(rng, special):
    if special:
        return rng.choice((0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 1e-45, -1e-40, 3.4e38, -3.4e38, 1e20, unbits(rng.getrandbits(32))))
    return f32(rng.choice((0.0, 1.0, -2.0, .5, rng.uniform(-10, 10), rng.uniform(-1e5, 1e5), rng.uniform(-.01, .01))))


def vec_cases(rng, n, ops):
    out = []
    for _ in range(n):
        for op in ops:
            sp = rng.random() < .25
            out.append((op,) + tuple(bits(floats(rng, sp)) for _ in range(8)))
    return out


# ---------------------------------------------------------------- judging

def judge_text(case, v):
    """What is wrong with the answers v to a case, or None."""
    op, a = case[0], case[1:]
    enc = [x.encode() if isinstance(x, str) else x for x in a]
    n = [int(x) for x in v] if op in ("hash_tea", "hash_u64", "hash_u32", "popcount", "zeros", "clock") else None
    want = None
    if op in ("hash16", "hash62"):
        t = tea_bytes(enc[0])
        want = [digest(t[0] | t[1] << 32, int(op[4:]), a[1])]
    elif op == "hash_part":
        t = tea_bytes(enc[0][a[1]:a[1] + a[2]])
        want = [digest(t[0] | t[1] << 32, 16, 16)]
    elif op == "hash_tea":
        want = list(tea_rounds(a[0] ^ a[3], a[1] ^ a[2], 16))
    elif op == "hash_u64":
        want = list(tea_rounds(a[0] ^ a[2] >> 32, a[1] ^ a[2] & M32, 16))
    elif op == "hash_u32":
        want = list(tea_rounds(a[0] ^ a[2], a[1], 16))
    elif op in ("digest62", "digest16"):
        want = [digest(a[0], int(op[6:]), a[1])]
    elif "upper" in op:
        want = [up(enc[0])]
    elif "lower" in op:
        want = [low(enc[0])]
    elif op == "trim":
        want = [enc[0].strip(bytes(range(33)))]
    elif op == "utf8":
        want = [utf8(a[0])]
    elif op == "env":
        want = [ENVS.get(a[0], b"")]
    elif op == "popcount":
        want = [bin(a[0]).count("1"), bin(a[0] & M32).count("1")]
    elif op == "zeros":
        x, y = a
        want = [64 - x.bit_length(), (x & -x).bit_length() - 1, 32 - y.bit_length(), (y & -y).bit_length() - 1]
    elif op == "clock":
        if n[0] < 0 or n[0] > 100e9:
            return "the clock moved by %d ns between two readings" % n[0]
        if abs(n[1] / 1e6 - time.time()) > 600:
            return "the time of day is %.1f, the answer %.1f" % (time.time(), n[1] / 1e6)
        return None
    elif op == "shuffle":
        got = sorted(int(x) for x in v[0].split())
        return None if got == list(range(a[0])) else "not a permutation of the elements"
    elif op == "codepoints":
        toks = v[0].split()
        try:
            want_cp = [ord(x) for x in enc[0].decode("utf8")]
        except UnicodeDecodeError:
            want_cp = None
        ends, at = [], -1
        for t in toks:
            if t[:1] == b"!":
                i = int(t[1:])
                if i <= at or i >= len(enc[0]):
                    return "an error at byte %d, after byte %d" % (i, at)
                at = i
            else:
                cp, i = (int(x) for x in t.split(b"@"))
                k = len(utf8(cp)) if not 0xd800 <= cp < 0xe000 and cp <= 0x10ffff else 0
                if i <= at or i >= len(enc[0]):
                    return "a code point up to byte %d, after byte %d" % (i, at)
                if k and enc[0][i + 1 - k:i + 1] != utf8(cp) and want_cp is not None:
                    return "code point %d is not what ends at byte %d" % (cp, i)
                ends.append((cp, i))
                at = i
        if want_cp is not None:
            if [c for c, _ in ends] != want_cp or len(toks) != len(want_cp):
                return "a valid text is reported as %r" % v[0]
            return None
        # what is certainly no part of a text must have been reported
        bad = not any(t[:1] == b"!" for t in toks)
        lax = decodes_laxly(enc[0])
        return "bytes that are no text are taken without an error: %r" % v[0] if bad and not lax else None
    if n is not None:
        return None if n == want else "should be %r" % want
    return None if v == want else "should be %r" % want


def decodes_laxly(b):
    """Whether the bytes are well formed apart from overlong forms, surrogates and too large numbers."""
    i = 0
    while i < len(b):
        c = b[i]
        k = 0 if c < 0x80 else 1 if c & 0xe0 == 0xc0 else 2 if c & 0xf0 == 0xe0 else 3 if c & 0xf8 == 0xf0 else -1
        if k < 0 or i + k >= len(b) or any(x & 0xc0 != 0x80 for x in b[i + 1:i + 1 + k]):
            return False
        i += k + 1
    return True


def judge_vec(case, v):
    op, x = case[0], [unbits(b) for b in case[1:]]
    got = [unbits(int(b)) for b in v]
    w = vec_want(op, x)
    if w is None:
        return None
    if w[0] == "perp":
        a = w[1]
        if not tame(a):
            return None
        d = sum(p * q for p, q in zip(a, got))
        if abs(d) > 1e-5 * max(abs(p) for p in a) ** 2:
            return "not perpendicular to %r" % a
        return "zero for %r" % a if any(a) and not any(got) else None
    want, tol = w
    if len(got) != len(want) or not all(same(p, f32(q), tol) for p, q in zip(got, want)):
        return "should be %r, is %r" % (want, got)
    return None


# ---------------------------------------------------------------- the check

CLOCK = """
#include <sys/time.h>
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1700000000; tv->tv_usec = 123456; return 0; }
"""


def main(c):
    c.rule = "distinct (function, arguments); evaluations are answers held against a second calculation"
    c.assumptions = ["the environment is not changed while it is read", "f32 arithmetic follows IEEE 754"]
    core.build_fu()
    todo = [("tree", fl, "text") for fl in core.tier(["asan"], ["asan", "opt", "asan-opt"])]
    todo += [(comp, fl, k) for comp in ("boot", "fu") for k in ("text", "vec") for fl in core.tier(["asan"], ["asan", "opt"])]
    # two processes that start within one tick of the clock, and threads drawing at once
    todo += [("tree", "opt", "rand"), ("boot", "opt", "rand"), ("fu", "opt", "rand")]
    for fl in {t[1] for t in todo}:
        fuprog.prepared(fl)
    rng = random.Random(core.SEED * 131 + 5)
    n = core.tier(600, 20000)

    def cpp():
        f = {o: libs.find(TEA, o, "fu::view<char>", "int") for o in ("hash16", "hash62")}
        f.update({o: libs.find(TEA, o, "uint64_t", "int") for o in ("digest62", "digest16")})
        f.update(hash_tea=libs.find(TEA, "hash", "s_TEA", "s_TEA"), hash_u64=libs.find(TEA, "hash", "s_TEA", "uint64_t"),
                 hash_u32=libs.find(TEA, "hash", "s_TEA", "unsigned"))
        f.update({o: libs.find(ASCII, o, "fu::str") for o in ("upper", "lower")})
        f.update(utf8=libs.find(UTF8, "bytes"), env=libs.find(ENV, "get"), hr=libs.find(NOW, "hr"), utc=libs.find(NOW, "utc"))
        nxt = libs.find(RAND, "next_u64")
        return libs.cpp_text([TEA, ASCII, UTF8, ENV, RAND, NOW], {k: v % f if "%(" in v else v for k, v in CPP_OPS.items()}, CPP_EXTRA % nxt)

    vops = vec_ops()
    cases = []
    for who, fl, kind in todo:
        r = random.Random(rng.random())
        if kind == "text":
            ops = CPP_OPS if who == "tree" else FU_OPS
            cases.append(text_cases(r, n, ops))
        elif kind == "vec":
            cases.append(vec_cases(r, core.tier(12, 400), vops))
        else:
            cases.append([("rand", 8 if who == "tree" else 1, core.tier(40000, 400000))] * 3)

    def one(i):
        who, fl, kind = todo[i]
        with fuprog.scratch("lt") as d:
            if who == "tree":
                exe, bad = libs.build_cpp(fl, d, cpp())
            else:
                exe, bad = libs.build_fu(who, fl, d, libs.fu_text(vops, VEC_EXTRA) if kind == "vec" else libs.fu_text(FU_OPS, FU_EXTRA))
            if not exe:
                return i, None, bad, None
            env = {k: v.decode() for k, v in ENVS.items()}
            twins = None
            if kind == "rand":
                core.write(d + "/clock.cpp", CLOCK)
                so = core.run(["g++", "-shared", "-fPIC", "-o", d + "/clock.so", d + "/clock.cpp"], timeout=60)
                if so.rc == 0:
                    twins = []
                    for _ in range(core.tier(6, 40)):
                        got, r = libs.drive(exe, [("rand", 1, 1)], d, env=dict(LD_PRELOAD=d + "/clock.so"))
                        twins.append(got[0][0] if r.rc == 0 and got else None)
            got, r = libs.drive(exe, cases[i], d, env=env)
            return i, got, r, twins

    for i, got, r, twins in core.pmap(one, range(len(todo))):
        who, fl, kind = todo[i]
        name = "the C++ of lib/" if who == "tree" else "lib/ compiled by " + who
        if got is None:
            c.unclear("%s (%s build) does not build: %s" % (name, fl, core.text(fuprog.plain(r.out + r.err), 600)))
            continue
        seen = {}
        for case, v in zip(cases[i], got):
            op = case[0]
            if op == "rand":
                c.saw(1)
                c.count("rand")
                if who == "tree":
                    k = case[1] * case[2]
                    c.count("numbers drawn by threads", k)
                    if int(v[1]) != k:
                        c.violation("rand-repeats", "%s: %d threads drew %d random numbers, only %d distinct ones" % (name, case[1], k, int(v[1])))
                if v[0] in seen:
                    c.violation("rand-same-" + who, "%s: the same random number drawn twice" % name)
                seen[v[0]] = 1
                continue
            try:
                why = (judge_vec if kind == "vec" else judge_text)(case, v)
            except (ValueError, IndexError) as e:
                why = "not the form of an answer (%s)" % e
            if why:
                shown = case if kind == "text" else (op,) + tuple(unbits(b) for b in case[1:])
                c.violation("%s-%s" % (op, who), "%s (%s build): %s(%s) = %r: %s" % (name, fl, op, ", ".join(repr(x)[:400] for x in shown[1:]), v, str(why)[:1500]))
            c.saw(1, case if kind == "vec" or len(str(case)) < 60 else None)
            c.count(op)
        if twins:
            c.saw(len(twins))
            c.count("processes in one tick", len(twins))
            real = [t for t in twins if t is not None]
            if len(set(real)) != len(real):
                c.violation("rand-twins-" + who, "%s: %d processes started at the same time drew %d distinct first random numbers: %r" % (
                    name, len(real), len(set(real)), real[:4]))
        if r.rc != 0 or len(got) != len(cases[i]):
            at = cases[i][len(got)] if len(got) < len(cases[i]) else ("end",)
            c.violation("end-%s-%s" % (kind, who), "%s (%s build): %s at %r\n%s" % (name, fl, r.how(), at, core.text(fuprog.plain(r.err), 2500)))


def prime():
    core.build_fu()
    fuprog.prepared("asan")
    fuprog.prepared("opt")
