"""The operations of the prelude, each with its meaning: fu text on one side, python on the other.

Both sides draw the same arguments from the same little generator, so the whole output of the
program is known in advance, line by line."""
import struct as _struct

LONG = "a long enough string"


class Rng:
    def __init__(self, s):
        self.s = s & 0xffffffff

    def rnd(self, n):
        self.s = (self.s * 1664525 + 1013904223) & 0xffffffff
        return (self.s >> 8) % n


COMMON = """fn rnd(mut ref s: u32, n: i32): i32 {
    s = s * 1664525.u32 + 1013904223.u32;
    return ((s >> 8.u32) % n.u32).i32;
}

struct P {
    n: i32;
    t: string;
}

struct Q {
    x: u8;
    y: i64;
}

enum Colour {
    red = 0;
    green;
    blue = 7;
    violet;
}

flags Sides {
    top;
    right;
    bottom;
    left;
}
"""


class Ty:
    def __init__(self, tag, fu, item, draw, show, pshow, key=None, zero=None, flags=()):
        self.tag, self.fu, self.item, self.draw = tag, fu, item, draw
        self.show, self.pshow = show, pshow
        self.key = key or (lambda x: x)          # total order of items as the language has it
        self.zero = zero
        self.flags = set(flags)

    def text(self):
        d = dict(t=self.tag, T=self.fu, item=self.item, show=self.show)
        return """
fn item_%(t)s(mut ref s: u32): %(T)s {
%(item)s
}

fn arr_%(t)s(mut ref s: u32, max: i32): %(T)s[] {
    mut n = rnd(s, 4) ? rnd(s, max + 1) : rnd(s, max * 5 + 1);
    mut res: %(T)s[];
    while (n --> 0)
        res ~= item_%(t)s(s);

    return res;
}

fn show1_%(t)s(x: %(T)s): string {
    return %(show)s;
}

fn show_%(t)s(a: %(T)s[..]): string {
    mut res = "[";
    for (mut i = 0; i < a.len; i++) {
        if (i)
            res ~= ",";

        res ~= show1_%(t)s(a[i]);
    }

    return res ~ "]";
}

fn show2_%(t)s(a: %(T)s[][..]): string {
    mut res = "{";
    for (mut i = 0; i < a.len; i++)
        res ~= show_%(t)s(a[i]);

    return res ~ "}";
}

fn arr2_%(t)s(mut ref s: u32, max: i32): %(T)s[][] {
    mut n = rnd(s, max + 1);
    mut res: %(T)s[][];
    while (n --> 0)
        res ~= arr_%(t)s(s, 3);

    return res;
}
""" % d

    def arr(self, r, mx):
        n = r.rnd(mx + 1) if r.rnd(4) else r.rnd(mx * 5 + 1)
        return [self.draw(r) for _ in range(n)]

    def arr2(self, r, mx):
        n = r.rnd(mx + 1)
        return [self.arr(r, 3) for _ in range(n)]

    def s(self, a):
        return "[" + ",".join(self.pshow(x) for x in a) + "]"

    def s2(self, a):
        return "{" + "".join(self.s(x) for x in a) + "}"

    def seqkey(self, a):                         # sequences order by length first
        return (len(a), [self.key(x) for x in a])


def cmpk(x, y):
    return -1 if x < y else 1 if x > y else 0


def pick(tag, fu, vals, show, pshow, **kw):
    """A type with listed values (fu literal, python value)."""
    body = "    let k = rnd(s, %d);\n" % len(vals)
    for i, (l, _) in enumerate(vals[:-1]):
        body += "    if (k == %d)\n        return %s;\n\n" % (i, l)
    body += "    return %s;" % vals[-1][0]
    return Ty(tag, fu, body, lambda r: vals[r.rnd(len(vals))][1], show, pshow, **kw)


def f64bits(x):
    return _struct.unpack("<Q", _struct.pack("<d", x))[0]


I32 = Ty("i32", "i32", "    return rnd(s, 4) ? rnd(s, 5) - 2 : rnd(s, 60000) - 30000;",
         lambda r: r.rnd(5) - 2 if r.rnd(4) else r.rnd(60000) - 30000, "x.str", str, zero=0, flags=("num", "trivial"))
U8 = Ty("u8", "u8", "    return rnd(s, 4) ? rnd(s, 3).u8 : rnd(s, 256).u8;",
        lambda r: r.rnd(3) if r.rnd(4) else r.rnd(256), "x.str", str, zero=0, flags=("num", "trivial"))
I64 = pick("i64", "i64", [("9223372036854775807", 2**63 - 1), ("-9223372036854775807", -2**63 + 1), ("0.i64", 0), ("1.i64", 1), ("(-1).i64", -1), ("4294967296", 2**32)],
           "x.str", str, zero=0, flags=("num", "trivial"))
U64 = pick("u64", "u64", [("9223372036854775808", 2**63), ("18446744073709551615", 2**64 - 1), ("0.u64", 0), ("1.u64", 1), ("4294967296", 2**32), ("4294967295", 2**32 - 1)],
           "x.str", str, zero=0, flags=("num", "trivial"))
BYTE = Ty("byte", "byte", "    return rnd(s, 5) ? \"abc\"[rnd(s, 3)] : \"abcdefghijklmnop\"[rnd(s, 16)];",
          lambda r: "abc"[r.rnd(3)] if r.rnd(5) else "abcdefghijklmnop"[r.rnd(16)], "\"\" ~ x", lambda x: x, key=ord, zero="\0", flags=("trivial",))
STR = pick("string", "string", [("\"\"", ""), ("\"a\"", "a"), ("\"b\"", "b"), ("\"ab\"", "ab"), ("\"%s\"" % LONG, LONG), ("\"%s \" ~ rnd(s, 3)" % LONG, None)],
           "x", lambda x: x, key=lambda x: (len(x), x), zero="")
STR.draw = lambda r: (lambda k: ["", "a", "b", "ab", LONG][k] if k < 5 else LONG + " %d" % r.rnd(3))(r.rnd(6))
P_ = Ty("P", "P", "    let n = rnd(s, 3);\n    return P(n, item_string(s));", lambda r: (r.rnd(3), STR.draw(r)),
        "x.n ~ \"/\" ~ x.t", lambda x: "%d/%s" % x, key=lambda x: (x[0], (len(x[1]), x[1])), zero=(0, ""))
Q_ = Ty("Q", "Q", "    let x = rnd(s, 3).u8;\n    return Q(x, item_i64(s));", lambda r: (r.rnd(3), I64.draw(r)),
        "x.x ~ \"/\" ~ x.y", lambda x: "%d/%d" % x, zero=(0, 0), flags=("trivial",))
I16 = Ty("i16", "i16", "    return (rnd(s, 65536) - 32768).i16;", lambda r: r.rnd(65536) - 32768, "x.str", str, zero=0, flags=("num", "trivial"))
U32 = pick("u32", "u32", [("2147483648.u32", 2**31), ("4294967295.u32", 2**32 - 1), ("0.u32", 0), ("1.u32", 1), ("65536.u32", 2**16), ("65535.u32", 2**16 - 1), ("(rnd(s, 65536) * 97).u32", None)],
           "x.str", str, zero=0, flags=("num", "trivial"))
U32.draw = lambda r: (lambda k: [2**31, 2**32 - 1, 0, 1, 2**16, 2**16 - 1][k] if k < 6 else r.rnd(65536) * 97)(r.rnd(7))
F64 = Ty("f64", "f64", "    return rnd(s, 400).f64 / 16.0;", lambda r: r.rnd(400) / 16.0, "x.str", lambda x: "%f" % x, zero=0.0, flags=("num", "trivial", "real"))
F32 = Ty("f32", "f32", "    return rnd(s, 400).f32 / 16.0;", lambda r: r.rnd(400) / 16.0, "x.str", lambda x: "%f" % x, zero=0.0, flags=("num", "trivial", "real"))
WIDTH = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}


def wrap(fu, v):
    w = WIDTH[fu]
    v &= (1 << w) - 1
    return v - (1 << w) if fu[0] == "i" and v >> (w - 1) else v


def conv(src, dst, v):
    """A signed value goes to a wider unsigned type by way of its own width's unsigned."""
    if src[0] == "i" and dst[0] == "u":
        v = wrap("u" + src[1:], v)
    return wrap(dst, v)


for _t in (I32, U8, I64, U64, I16, U32):
    _t.flags |= {"int"} | ({"bits"} if _t.fu[0] == "u" else {"signed"})
TYPES = [I32, U8, I64, U64, BYTE, STR, Q_, P_, I16, U32, F64, F32]


# ---------------------------------------------------------------- the operations
# (name, arguments, fu body returning a string, python meaning, restriction)
# arguments: "a=arr:8 b=arr:3 x=item i=pos:a j=pos:a:i k=int:5 s2=arr2:4"
#   pos:a     0..len(a)       pos:a:i   i..len(a)       at:a  0..len(a)-1 (the case is skipped if empty)
OPS = []


def op(name, args, fu, py, only=None, comp=None):
    OPS.append((name, args, fu, py, only, comp))


def _find(a, b, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    a = a[:hi]
    n = len(b)
    for i in range(lo, len(a) - n + 1):
        if a[i:i + n] == b:
            return i
    return -1


op("find item", "a=arr:9 x=item", "return a.find(x).str;", lambda t, a, x: str(_find(a, [x])))
op("find seq", "a=arr:9 b=arr:2", "return a.find(b).str;", lambda t, a, b: str(_find(a, b)))
op("find own part", "a=arr:9 i=pos:a j=pos:a:i", "let b = a.slice(i, j);\nreturn a.find(b).str;", lambda t, a, i, j: str(_find(a, a[i:j])))
op("find item from", "a=arr:9 x=item i=pos:a", "return a.find(x, start: i).str;", lambda t, a, x, i: str(_find(a, [x], i)))
op("find seq from", "a=arr:9 b=arr:2 i=pos:a", "return a.find(b, start: i).str;", lambda t, a, b, i: str(_find(a, b, i)))
op("find in part", "a=arr:9 b=arr:2 i=pos:a j=pos:a:i", "return a.find(b, start: i, end: j).str;", lambda t, a, b, i, j: str(_find(a, b, i, j)))
op("has", "a=arr:9 b=arr:2 x=item", "return a.has(b).str ~ a.has(x).str;", lambda t, a, b, x: "%d%d" % (_find(a, b) >= 0, x in a))
op("starts", "a=arr:9 b=arr:1 x=item", "return a.starts(b).str ~ a.starts(x).str;", lambda t, a, b, x: "%d%d" % (a[:len(b)] == b, a[:1] == [x]))
op("ends", "a=arr:9 b=arr:1 x=item", "return a.ends(b).str ~ a.ends(x).str;",
   lambda t, a, b, x: "%d%d" % (len(b) <= len(a) and a[len(a) - len(b):] == b, a[-1:] == [x]))
op("starts and ends with parts", "a=arr:9 i=pos:a",
   "let b = a.slice(0, i);\nlet c = a.slice(i, a.len);\nreturn a.starts(b).str ~ a.ends(c).str ~ (b ~ c == a).str;", lambda t, a, i: "111")


def _join(parts, sep):
    out = []
    for i, p in enumerate(parts):
        out += (sep if i else []) + p
    return out


def _split(a, sep):
    if not sep:
        return [a]
    out, at = [], 0
    while True:
        k = _find(a, sep, at)
        if k < 0:
            return out + [a[at:]]
        out.append(a[at:k])
        at = k + len(sep)


op("join", "p=arr2:5", "return show_T(p.join());", lambda t, p: t.s(_join(p, [])), only="copy")
op("join item", "p=arr2:5 x=item", "return show_T(p.join(x));", lambda t, p, x: t.s(_join(p, [x])), only="copy")
op("join seq", "p=arr2:5 b=arr:2", "return show_T(p.join(b));", lambda t, p, b: t.s(_join(p, b)), only="copy")
op("split seq", "a=arr:12 b=arr:1", "return show2_T(a.split(b));", lambda t, a, b: t.s2(_split(a, b)))
op("split item", "a=arr:12 x=item", "return show2_T(a.split(x));", lambda t, a, x: t.s2(_split(a, [x])))
op("split join", "a=arr:12 b=arr:1", "return show_T(a.split(b).join(b));", lambda t, a, b: t.s(a), only="copy")
op("replace seq", "a=arr:12 b=arr:1 c=arr:2", "return show_T(a.replace(all: b, with: c));", lambda t, a, b, c: t.s(_join(_split(a, b), c)))
op("replace item", "a=arr:12 x=item c=arr:2", "return show_T(a.replace(all: x, with: c));", lambda t, a, x, c: t.s(_join(_split(a, [x]), c)))
op("replace keeps", "a=arr:12 x=item y=item", "mut k = a;\nlet r = a.replace(all: x, with: y);\nk ~= x;\nreturn show_T(r) ~ show_T(a) ~ show_T(k);",
   lambda t, a, x, y: t.s([y if q == x else q for q in a]) + t.s(a) + t.s(a + [x]))

op("sort down", "a=arr:14", "mut b = a;\nb.sort(|p, q| p > q);\nreturn show_T(b) ~ show_T(a);", lambda t, a: t.s(sorted(a, key=t.key, reverse=True)) + t.s(a), only="num")
op("sort up", "a=arr:14", "mut b = a;\nb.sort();\nreturn show_T(b) ~ show_T(a);", lambda t, a: t.s(sorted(a, key=t.key)) + t.s(a), only="num")
op("sort strings", "a=arr:14", "mut b = a;\nb.sort(|p, q| p < q);\nreturn show_T(b) ~ show_T(a);", lambda t, a: t.s(sorted(a, key=t.key)) + t.s(a), only="string")
op("sort structs", "a=arr:14", "mut b = a;\nb.sort(|p, q| p <> q < 0);\nreturn show_T(b) ~ show_T(a);", lambda t, a: t.s(sorted(a, key=t.key)) + t.s(a), only="P Q")
op("sort part", "a=arr:14 i=pos:a j=pos:a:i", "mut b = a;\nb[i .. j].sort(|p, q| p < q);\nreturn show_T(b);",
   lambda t, a, i, j: t.s(a[:i] + sorted(a[i:j], key=t.key) + a[j:]), only="num")
op("reverse", "a=arr:9", "mut b = a;\nb.reverse();\nreturn show_T(b) ~ show_T(a);", lambda t, a: t.s(a[::-1]) + t.s(a))
op("reverse part", "a=arr:9 i=pos:a j=pos:a:i", "mut b = a;\nb[i .. j].reverse();\nreturn show_T(b) ~ show_T(a);", lambda t, a, i, j: t.s(a[:i] + a[i:j][::-1] + a[j:]) + t.s(a))


def _partition(a, pred):
    a, keep = list(a), 0
    for i in range(len(a)):
        if not pred(a[i]):
            a[i], a[keep] = a[keep], a[i]
            keep += 1
    return a, keep


op("partition", "a=arr:9 x=item", "mut b = a;\nlet n = b.partition(|y| y == x);\nlet kept = b.slice(0, n);\nreturn n ~ show_T(kept) ~ b.len ~ show_T(a);",
   lambda t, a, x: "%d%s%d%s" % (len([y for y in a if y != x]), t.s([y for y in a if y != x]), len(a), t.s(a)))
op("partition keeps items", "a=arr:9 x=item", "mut b = a;\nb.partition(|y| y == x);\nb.sort(|p, q| p < q);\nreturn show_T(b);", lambda t, a, x: t.s(sorted(a, key=t.key)), only="num")
op("remove", "a=arr:9 x=item", "mut b = a;\nb.remove(|y| y == x);\nreturn show_T(b) ~ show_T(a);", lambda t, a, x: t.s([y for y in a if y != x]) + t.s(a))
op("map", "a=arr:9", "return show_i32(a.map(|y, i| show1_T(y).len * 100 + i));", lambda t, a: I32.s([len(t.pshow(y)) * 100 + i for i, y in enumerate(a)]))
op("map to strings", "a=arr:9", "return show_string(a.map(|y| show1_T(y) ~ \"!\"));", lambda t, a: STR.s([t.pshow(y) + "!" for y in a]))
op("map to same", "a=arr:9", "return show_T(a.map(|y| y));", lambda t, a: t.s(a))
op("each", "a=arr:9", "mut r = \"\";\na.each(|y, i| r ~= i ~ show1_T(y) ~ \";\");\nreturn r;", lambda t, a: "".join("%d%s;" % (i, t.pshow(y)) for i, y in enumerate(a)))
op("each writes", "a=arr:9 x=item", "mut b = a;\nb.each: |mut ref y, i|\n    if (i & 1)\n        y = x;\n\nreturn show_T(b) ~ show_T(a);", lambda t, a, x: t.s([x if i & 1 else y for i, y in enumerate(a)]) + t.s(a))
op("all and some", "a=arr:4 x=item", "return a.all(|y| y == x).str ~ a.some(|y| y == x).str;", lambda t, a, x: "%d%d" % (all(y == x for y in a), any(y == x for y in a)))

op("slices", "a=arr:9 i=pos:a j=pos:a:i", "return show_T(a[i .. j]) ~ show_T(a[i ..]) ~ show_T(a[.. j]) ~ show_T(a.slice(i)) ~ show_T(a.slice(i, j));",
   lambda t, a, i, j: t.s(a[i:j]) + t.s(a[i:]) + t.s(a[:j]) + t.s(a[i:]) + t.s(a[i:j]))
op("slice of slice", "a=arr:9 i=pos:a j=pos:a:i", "let b = a[i .. j];\nlet n = b.len >> 1;\nreturn show_T(b[n ..]) ~ show_T(b[.. n]) ~ b.len;",
   lambda t, a, i, j: t.s(a[i:j][(j - i) >> 1:]) + t.s(a[i:j][:(j - i) >> 1]) + str(j - i))
KEEP = "mut b = a;\n%s\nreturn show_T(b) ~ show_T(a);"


def mut(name, args, fu, py, **kw):
    op(name, args, KEEP % fu, lambda t, a, **k: t.s(py(list(a), **k)) + t.s(a), **kw)


def _do(f):
    def g(a, **k):
        f(a, **k)
        return a
    return g


mut("push", "a=arr:9 x=item", "b.push(x);", lambda a, x: a + [x])
mut("unshift", "a=arr:9 x=item", "b.unshift(x);", lambda a, x: [x] + a)
mut("insert", "a=arr:9 x=item i=pos:a", "b.insert(i, x);", lambda a, x, i: a[:i] + [x] + a[i:])
mut("push twice", "a=arr:9 x=item y=item", "b.push(x);\nb.push(y);", lambda a, x, y: a + [x, y])
mut("splice out", "a=arr:9 i=pos:a j=pos:a:i", "b.splice(i, j - i);", lambda a, i, j: a[:i] + a[j:])
mut("splice", "a=arr:9 i=pos:a j=pos:a:i c=arr:4", "b.splice(i, j - i, c);", lambda a, i, j, c: a[:i] + c + a[j:])
mut("splice own", "a=arr:9 i=pos:a j=pos:a:i", "b.splice(i, j - i, a);", lambda a, i, j: a[:i] + a + a[j:])
mut("pop", "a=arr:9", "if (b) b.pop();", lambda a: a[:-1])
mut("shift", "a=arr:9", "if (b) b.shift();", lambda a: a[1:])
mut("clear", "a=arr:9", "b.clear();", lambda a: [])
mut("shrink", "a=arr:9 i=pos:a", "b.shrink(i);", lambda a, i: a[:i])
op("resize", "a=arr:9 k=int:30", "mut b = a;\nb.resize(k);\nreturn show_T(b) ~ show_T(a);", lambda t, a, k: t.s((a + [t.zero] * 30)[:k] if k > len(a) else a[:k]) + t.s(a), only="zero")
op("grow", "a=arr:9 k=int:30", "mut b = a;\nb.grow(b.len + k);\nreturn show_T(b) ~ show_T(a);", lambda t, a, k: t.s(a + [t.zero] * k) + t.s(a), only="zero")
mut("resize with", "a=arr:9 k=int:30 x=item", "b.resize(k, x);", lambda a, k, x: a[:k] + [x] * (k - len(a)), comp="fu")
op("resize junk", "a=arr:9 k=int:30", "mut b = a;\nlet n = b.len;\nb.resize_junk(k);\nreturn b.len ~ show_T(b.slice(0, n.min(k))) ~ show_T(a);", lambda t, a, k: str(k) + t.s(a[:k]) + t.s(a))
mut("swap items", "a=arr:9 i=at:a j=at:a", "b.swap(i, j);", _do(lambda a, i, j: a.__setitem__(slice(None), [a[j] if q == i else a[i] if q == j else a[q] for q in range(len(a))])))
op("swap arrays", "a=arr:9 c=arr:9", "mut b = a;\nmut d = c;\nswap(b, d);\nreturn show_T(b) ~ show_T(d) ~ show_T(a);", lambda t, a, c: t.s(c) + t.s(a) + t.s(a))
op("swap values", "x=item y=item", "mut p = x;\nmut q = y;\nswap(p, q);\nreturn show1_T(p) ~ \" \" ~ show1_T(q);", lambda t, x, y: t.pshow(y) + " " + t.pshow(x))
mut("assign part", "a=arr:12 i=pos:a j=pos:a:i", "let c = a.slice(0, j - i);\nb[i .. j] .= c;", lambda a, i, j: a[:i] + a[:j - i] + a[j:], only="copy")
mut("set item", "a=arr:12 i=at:a x=item", "b[i] = x;", lambda a, i, x: a[:i] + [x] + a[i + 1:])
mut("append to part", "a=arr:9 i=pos:a j=pos:a:i x=item", "b[i .. j] ~= x;", lambda a, i, j, x: a[:j] + [x] + a[j:], comp="fu")
mut("append seq to part", "a=arr:9 i=pos:a j=pos:a:i c=arr:3", "b[i .. j] ~= c;", lambda a, i, j, c: a[:j] + c + a[j:], comp="fu")
mut("push pop in part", "a=arr:9 i=pos:a j=pos:a:i x=item", "b[i ..].push(x);\nb[i .. j].unshift(x);", lambda a, i, j, x: (a[:i] + [x] + a[i:] + [x]), comp="fu")

op("concat", "a=arr:6 b=arr:6", "return show_T(a ~ b) ~ show_T(b ~ a ~ b);", lambda t, a, b: t.s(a + b) + t.s(b + a + b))
op("concat item", "a=arr:6 x=item", "return show_T(a ~ x) ~ show_T(x ~ a) ~ show_T(x ~ a ~ x);", lambda t, a, x: t.s(a + [x]) + t.s([x] + a) + t.s([x] + a + [x]), only="noarr")
mut("append", "a=arr:6 c=arr:6", "b ~= c;\nb ~= c;", lambda a, c: a + c + c)
mut("append item", "a=arr:6 x=item", "b ~= x;\nb ~= x;", lambda a, x: a + [x, x])
mut("append itself", "a=arr:6", "b ~= b;", lambda a: a + a)
mut("append own part", "a=arr:6 i=pos:a j=pos:a:i", "b ~= a[i .. j];", lambda a, i, j: a + a[i:j])
mut("append own item", "a=arr:6 i=at:a", "b ~= a[i];", lambda a, i: a + [a[i]])

op("compare", "a=arr:4 b=arr:4", "return (a <> b) ~ \" \" ~ (a == b) ~ (a != b) ~ (b <> a);",
   lambda t, a, b: "%d %d%d%d" % (cmpk(t.seqkey(a), t.seqkey(b)), a == b, a != b, cmpk(t.seqkey(b), t.seqkey(a))))
op("compare near", "a=arr:9 i=at:a x=item", "mut b = a;\nb[i] = x;\nreturn (a <> b) ~ \" \" ~ (a == b) ~ (a != b);",
   lambda t, a, i, x: (lambda b: "%d %d%d" % (cmpk(t.seqkey(a), t.seqkey(b)), a == b, a != b))(a[:i] + [x] + a[i + 1:]))
op("compare items", "x=item y=item", "return (x <> y) ~ \" \" ~ (x == y) ~ (x != y);", lambda t, x, y: "%d %d%d" % (cmpk(t.key(x), t.key(y)), x == y, x != y))
op("order", "a=arr:4 b=arr:4", "return (a < b) ~ \"\" ~ (a > b) ~ (a <= b) ~ (a >= b);",
   lambda t, a, b: (lambda k: "%d%d%d%d" % (k < 0, k > 0, k <= 0, k >= 0))(cmpk(t.seqkey(a), t.seqkey(b))), only="byte")
op("order items", "x=item y=item", "return (x < y) ~ \"\" ~ (x > y) ~ (x <= y) ~ (x >= y);",
   lambda t, x, y: (lambda k: "%d%d%d%d" % (k < 0, k > 0, k <= 0, k >= 0))(cmpk(t.key(x), t.key(y))), only="num byte string")
op("views of the same", "a=arr:6 i=pos:a", "return (a[.. i] <> a) ~ \" \" ~ (a[.. i] == a) ~ (a == a) ~ (a[i ..] == a);", lambda t, a, i: "%d %d1%d" % (cmpk(i, len(a)), i == len(a), i == 0))
op("compare parts", "p=arr2:3 q=arr2:3", "return (p == q) ~ \" \" ~ (p <> q);",
   lambda t, p, q: "%d %d" % (p == q, cmpk((len(p), [t.seqkey(x) for x in p]), (len(q), [t.seqkey(x) for x in q]))))

op("steal item", "a=arr:9 i=at:a", "mut b = a;\nlet x = steal(b[i]);\nreturn show1_T(x) ~ show_T(b) ~ show_T(a);", lambda t, a, i: t.pshow(a[i]) + t.s(a[:i] + [t.zero] + a[i + 1:]) + t.s(a), only="zero")
op("steal tail", "a=arr:9 i=pos:a", "mut b = a;\nlet c = b.steal(start: i);\nreturn show_T(c) ~ show_T(b) ~ show_T(a);", lambda t, a, i: t.s(a[i:]) + t.s(a[:i]) + t.s(a))
op("steal part", "a=arr:9 i=pos:a j=pos:a:i", "mut b = a;\nlet c = b.steal(start: i, end: j);\nreturn show_T(c) ~ show_T(b) ~ show_T(a);", lambda t, a, i, j: t.s(a[i:j]) + t.s(a[:i] + a[j:]) + t.s(a))
op("first and last", "a=arr:9 i=at:a", "return i ~ show1_T(a.first) ~ show1_T(a.last) ~ (a.len == 1 ? show1_T(a.only) : \"\");", lambda t, a, i: str(i) + t.pshow(a[0]) + t.pshow(a[-1]) + (t.pshow(a[0]) if len(a) == 1 else ""))
mut("ensure", "a=arr:9 i=at:a x=item", "b.ensure(exists: i) = x;", lambda a, i, x: a[:i] + [x] + a[i + 1:], comp="fu")
op("ensure beyond", "a=arr:9 k=int:9 x=item", "mut b = a;\nb.ensure(exists: b.len + k) = x;\nreturn show_T(b) ~ show_T(a);", lambda t, a, k, x: t.s(a + [t.zero] * k + [x]) + t.s(a), only="zero", comp="fu")
mut("remove at", "a=arr:9 i=at:a", "b.remove(at: i);", lambda a, i: a[:i] + a[i + 1:], comp="fu")
op("nested", "p=arr2:4 x=item", "mut q = p;\nfor (mut i = 0; i < q.len; i++)\n    if (i & 1) q[i] ~= x;\n\nreturn show2_T(q) ~ show2_T(p);",
   lambda t, p, x: t.s2([y + [x] if i & 1 else y for i, y in enumerate(p)]) + t.s2(p))

op("min max", "x=item y=item", "return show1_T(x.min(y)) ~ \" \" ~ show1_T(x.max(y));", lambda t, x, y: "%s %s" % (t.pshow(min(x, y)), t.pshow(max(x, y))), only="num")


op("convert", "x=item", "return " + " ~ \" \" ~ ".join("x.%s.str" % w for w in WIDTH) + ";", lambda t, x: " ".join(str(conv(t.fu, w, x)) for w in WIDTH), only="int")
op("signedness", "x=item", "return x.unsigned.str ~ \" \" ~ x.signed.str ~ \" \" ~ x.f64;",
   lambda t, x: "%d %d %f" % (wrap("u" + t.fu[1:], x), wrap("i" + t.fu[1:], x), float(x)), only="int")
op("bits", "x=item y=item", "return (x & y) ~ \" \" ~ (x | y) ~ \" \" ~ (x ^ y) ~ \" \" ~ ~x;",
   lambda t, x, y: "%d %d %d %d" % (x & y, x | y, x ^ y, wrap(t.fu, ~x)), only="bits")
op("bits assigned", "x=item y=item", "mut z = x;\nz &= y;\nmut w = x;\nw |= y;\nmut v = x;\nv ^= y;\nreturn z ~ \" \" ~ w ~ \" \" ~ v;",
   lambda t, x, y: "%d %d %d" % (x & y, x | y, x ^ y), only="bits")
op("shifts", "x=item k=int:8", "return (x << k.%(T)s) ~ \" \" ~ (x >> k.%(T)s);", lambda t, x, k: "%d %d" % (wrap(t.fu, x << k), x >> k), only="bits")
op("shift right", "x=item k=int:8", "return (x >> k.%(T)s) ~ \"\";", lambda t, x, k: "%d" % (x >> k), only="signed")
op("wrapping", "x=item y=item", "mut z = x;\nz +%%= y;\nreturn (x +%% y) ~ \" \" ~ (x -%% y) ~ \" \" ~ (x *%% y) ~ \" \" ~ z;".replace("%%", "%"),
   lambda t, x, y: "%d %d %d %d" % (wrap(t.fu, x + y), wrap(t.fu, x - y), wrap(t.fu, x * y), wrap(t.fu, x + y)), only="bits", comp="fu")
op("divide", "x=item y=item", "return y ? (x / y) ~ \" \" ~ (x % y) : \"-\";", lambda t, x, y: (lambda q: "%d %d" % (q, x - q * y))(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) if y else "-", only="int")
op("arithmetic", "x=item y=item", "return (x + y) ~ \" \" ~ (x - y) ~ \" \" ~ x * y;", lambda t, x, y: "%d %d %d" % (wrap(t.fu, x + y), wrap(t.fu, x - y), wrap(t.fu, x * y)), only="bits")
op("steps", "x=item", "mut p = x;\nlet a = p++;\nlet b = ++p;\nlet c = p--;\nlet d = --p;\nreturn a ~ \" \" ~ b ~ \" \" ~ c ~ \" \" ~ d ~ \" \" ~ p;",
   lambda t, x: " ".join(str(wrap(t.fu, x + k)) for k in (0, 2, 2, 0, 0)), only="bits")
op("limits", "x=item", "return %(T)s.MIN ~ \" \" ~ %(T)s.MAX ~ \" \" ~ (x == x);",
   lambda t, x: "%d %d 1" % ((-(1 << WIDTH[t.fu] - 1), (1 << WIDTH[t.fu] - 1) - 1) if t.fu[0] == "i" else (0, (1 << WIDTH[t.fu]) - 1)), only="int")
op("abs", "x=item k=int:3", "return (x - x.%(T)s * k.%(T)s).abs.str;", lambda t, x, k: t.pshow(abs(x - x * k)), only="i32 i16x real")
op("clamp", "x=item y=item z=item", "let lo = y.min(z);\nlet hi = y.max(z);\nreturn show1_T(x.clamp(gteq: lo, lteq: hi));", lambda t, x, y, z: t.pshow(min(max(x, min(y, z)), max(y, z))), only="num", comp="fu")


def _half(v):                                   # round half away from zero
    import math
    return math.copysign(math.floor(abs(v) + .5), v)


def _f(v):
    return "%f" % v


op("rounding", "k=int:400", "let v = (k - 200).%(T)s / 16.0;\nreturn v.floor ~ \" \" ~ v.ceil ~ \" \" ~ v.trunc ~ \" \" ~ v.round ~ \" \" ~ v.abs ~ \" \" ~ -v;",
   lambda t, k: (lambda v: " ".join(_f(q) for q in (__import__("math").floor(v), -__import__("math").floor(-v) if v > -1 and v <= 0 and False else __import__("math").copysign(__import__("math").ceil(v), v), __import__("math").copysign(__import__("math").trunc(v), v), _half(v), abs(v), -v)))((k - 200) / 16.0), only="real")
op("real arithmetic", "x=item k=int:64", "let y = (k + 1).%(T)s / 4.0;\nreturn (x + y) ~ \" \" ~ (x - y) ~ \" \" ~ x * y ~ \" \" ~ x % y ~ \" \" ~ (x * x).sqrt;",
   lambda t, x, k: (lambda y: " ".join(_f(q) for q in (x + y, x - y, x * y, __import__("math").fmod(x, y), x)))((k + 1) / 4.0), only="real")
op("real to integer", "k=int:4000", "let v = (k - 2000).%(T)s / 16.0;\nreturn v.i32 ~ \" \" ~ v.i64 ~ \" \" ~ v.abs.u64 ~ \" \" ~ v.f64 ~ \" \" ~ v.f32;",
   lambda t, k: (lambda v: "%d %d %d %f %f" % (int(v), int(v), int(abs(v)), v, v))((k - 2000) / 16.0), only="real")
op("real classes", "x=item", "let z = x - x;\nlet n = z / z;\nlet f = (x + 1.0) / z;\nreturn n.nan ~ \"\" ~ n.inf ~ n.finite ~ f.nan ~ f.inf ~ f.finite ~ x.nan ~ x.inf ~ x.finite;", lambda t, x: "100010001", only="real")
op("assign or", "x=item y=item", "mut p = x;\np ||= y;\nmut q = x;\nq &&= y;\nreturn show1_T(p) ~ \" \" ~ show1_T(q);", lambda t, x, y: "%s %s" % (t.pshow(x or y), t.pshow(x and y)), only="int string")
op("truth", "x=item a=arr:3", "return !x ~ \"\" ~ !a;", lambda t, x, a: "%d%d" % (not x, not a), only="int string")
op("enum text", "k=int:4", "let e = k == 0 ? Colour.red : k == 1 ? Colour.green : k == 2 ? Colour.blue : Colour.violet;\nreturn e.str ~ e.i32;",
   lambda t, k: ["red0", "green1", "blue7", "violet8"][k], only="i32", comp="fu")
op("flags text", "k=int:16", "mut f: Sides;\nif (k & 1) f |= Sides.top;\nif (k & 2) f |= Sides.right;\nif (k & 4) f |= Sides.bottom;\nif (k & 8) f |= Sides.left;\nreturn f.str;",
   lambda t, k: ", ".join(n for i, n in enumerate(("top", "right", "bottom", "left")) if k >> i & 1), only="i32", comp="fu")
op("bool text", "x=item y=item", "return (x == y).str ~ true ~ false;", lambda t, x, y: "%d10" % (x == y), only="i32")


def applies(o, t, comp):
    name, args, fu, py, only, c = o
    if c and c != comp:
        return False
    if not only:
        return True
    ok = False
    for w in only.split():
        ok |= w == t.tag or w in t.flags or (w == "copy" and "trivial" in t.flags) or (w == "zero" and t.tag != "byte") or (w == "noarr" and t.tag != "string")
    return ok


def fu_of(o, t):
    name, args, fu, py, only, c = o
    out = ["fn %s(mut ref s: u32): string {" % fname(o, t)]
    for a in args.split():
        k, v = a.split("=")
        w = v.split(":")
        T = t.tag
        if w[0] == "arr":
            e = "arr_%s(s, %s)" % (T, w[1])
        elif w[0] == "arr2":
            e = "arr2_%s(s, %s)" % (T, w[1])
        elif w[0] == "item":
            e = "item_%s(s)" % T
        elif w[0] == "int":
            e = "rnd(s, %s)" % w[1]
        elif w[0] == "pos":
            e = "rnd(s, %s.len + 1)" % w[1] if len(w) == 2 else "%s + rnd(s, %s.len - %s + 1)" % (w[2], w[1], w[2])
        elif w[0] == "at":
            out.append("    if !(%s)\n        return \"-\";\n" % w[1])
            e = "rnd(s, %s.len)" % w[1]
        out.append("    let %s = %s;" % (k, e))
    for l in fu.replace("_T", "_" + t.tag).replace("%(T)s", t.fu).split("\n"):
        out.append("    " + l if l else "")
    out.append("}\n")
    return "\n".join(out)


def fname(o, t):
    return "op_%s_%s" % (t.tag, o[0].replace(" ", "_"))


def draw(o, t, r):
    k = {}
    for a in o[1].split():
        n, v = a.split("=")
        w = v.split(":")
        if w[0] == "arr":
            k[n] = t.arr(r, int(w[1]))
        elif w[0] == "arr2":
            k[n] = t.arr2(r, int(w[1]))
        elif w[0] == "item":
            k[n] = t.draw(r)
        elif w[0] == "int":
            k[n] = r.rnd(int(w[1]))
        elif w[0] == "pos":
            k[n] = r.rnd(len(k[w[1]]) + 1) if len(w) == 2 else k[w[2]] + r.rnd(len(k[w[1]]) - k[w[2]] + 1)
        elif w[0] == "at":
            if not k[w[1]]:
                return None
            k[n] = r.rnd(len(k[w[1]]))
    return k


def program(t, ops, rounds, seed):
    """A program that runs every operation `rounds` times; all types' helpers are there."""
    needed = {"i32": I32, "string": STR, t.tag: t}
    if t is P_ or t is Q_:
        needed["i64"] = I64
    text = COMMON
    for k in ("i32", "string", "i64", t.tag):
        if k in needed:
            text += needed.pop(k).text()
    for o in ops:
        text += "\n" + fu_of(o, t)
    text += "\nfn main(): i32 {\n    mut s: u32;\n"
    for n, o in enumerate(ops):
        text += "    for (mut i = 0; i < %d; i++) {\n        s = %d.u32 + i.u32 * 2654435761;\n        println(\"%s \", i, \" \", %s(s));\n    }\n" % (
            rounds, (seed * 7919 + n * 104729) & 0x7fffffff, o[0], fname(o, t))
    return text + "    return 0;\n}\n"


def expected(t, ops, rounds, seed):
    out = []
    for n, o in enumerate(ops):
        for i in range(rounds):
            r = Rng(((seed * 7919 + n * 104729) & 0x7fffffff) + i * 2654435761)
            k = draw(o, t, r)
            out.append("%s %d %s" % (o[0], i, "-" if k is None else o[3](t, **k)))
    return out
