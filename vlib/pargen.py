"""Random programs with parallel loops, and what they must print.

Every loop body works on its own element, its index, and values from outside which it only
reads, so the order in which a parallel loop visits the indices cannot matter. The arrays'
elements share storage on purpose: whole elements are copied from one another, taken from
outside arrays and then written to by many threads at once. An expression is a pair of a
text and a python function of the environment, so the expected output is computed while
the text is built."""

import random

M = 1009
HEAD = """import par;

struct P {
    a: i32;
    s: string;
    v: i32[];
};

fn cut(s: string): string {
    if (s.len <= 24)
        return s;

    mut r: string;
    for (mut i = s.len - 24; i < s.len; i++)
        r ~= s[i];

    return r;
}

fn cutv(v: i32[]): i32[] {
    if (v.len <= 12)
        return v;

    mut r: i32[];
    for (mut i = v.len - 12; i < v.len; i++)
        r ~= v[i];

    return r;
}

fn at(v: i32[], k: i32): i32 {
    return v.len ? v[k % v.len] : k % 1009;
}

fn sum(v: i32[]): i32 {
    mut r = 0;
    for (mut i = 0; i < v.len; i++)
        r = (r + v[i]) % 1009;

    return r;
}

fn spread(n: i32, k: i32): i32[] {
    mut r: i32[];
    for (mut i = 0; i < n; i++)
        r ~= (k + i * 7) % 1009;

    return r;
}

fn bump(ref v: i32[], k: i32): i32 {
    for (mut i = 0; i < v.len; i++)
        v[i] = (v[i] + k) % 1009;

    return v.len;
}

fn dig(n: i32): i32 {
    return n;
}

fn dig(s: string): i32 {
    mut r = s.len;
    for (mut i = 0; i < s.len; i++)
        r = (r * 31 + s[i].i32) % 1000003;

    return r;
}

fn dig(v: i32[]): i32 {
    mut r = v.len;
    for (mut i = 0; i < v.len; i++)
        r = (r * 31 + v[i]) % 1000003;

    return r;
}

fn dig(p: P): i32 {
    return (p.a * 31 + p.s.dig * 7 + p.v.dig) % 1000003;
}

"""
SHOW = """fn show(n: string, a: %s[]): void {
    mut r = 0;
    for (mut i = 0; i < a.len; i++)
        r = (r * 31 + a[i].dig) %% 1000003;

    println(n ~ " " ~ a.len ~ " " ~ r);
}

"""
TYPES = {"i": "i32", "s": "string", "v": "i32[]", "p": "P"}


def dig(t, x):
    if t == "i":
        return x
    if t == "p":
        return (x["a"] * 31 + dig("s", x["s"]) * 7 + dig("v", x["v"])) % 1000003
    r = len(x)
    for c in x:
        r = (r * 31 + (ord(c) if t == "s" else c)) % 1000003
    return r


def copy(t, x):
    return dict(x, v=list(x["v"])) if t == "p" else list(x) if t == "v" else x


class Gen:
    def __init__(self, seed, big=False, foreign=True):
        self.r = random.Random(seed)
        self.foreign = foreign   # whether loops copy handles which other threads copy too
        self.big = big
        self.arrays = {}     # name -> (elem type, python list)
        self.ints = {}
        self.strs = {}
        self.text = []
        self.n = 0
        self.inside = False
        self.kinds = set()

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---------------- expressions: (text, function of the environment)
    # env: dict of local names -> values; ro: whether outside values may be used (always)

    def const(self):
        k = self.r.randrange(M)
        return str(k), lambda e: k

    def e_int(self, loc, depth):
        r = self.r
        opts = ["const", "outer"] + ["local"] * 3
        if depth > 0:
            opts += ["add", "mul", "len", "at", "sum", "cond", "elem", "field", "chr"]
        k = r.choice(opts)
        if k == "outer" and self.ints:
            n = r.choice(list(self.ints))
            v = self.ints[n]
            return n, lambda e: v
        if k == "local":
            ls = [n for n, t in loc.items() if t == "i"]
            if ls:
                n = r.choice(ls)
                return n, lambda e: e[n]
        if k in ("add", "mul"):
            (a, fa), (b, fb) = self.e_int(loc, depth - 1), self.e_int(loc, depth - 1)
            if k == "add":
                return "((%s + %s) %% 1009)" % (a, b), lambda e: (fa(e) + fb(e)) % M
            return "(%s * %s %% 1009)" % (a, b), lambda e: fa(e) * fb(e) % M
        if k == "cond":
            (a, fa), (b, fb), (c, fc) = [self.e_int(loc, depth - 1) for _ in range(3)]
            return "(%s %% 2 ? %s : %s)" % (c, a, b), lambda e: fa(e) if fc(e) % 2 else fb(e)
        if k == "len":
            t = r.choice("sv")
            a, fa = self.expr(t, loc, depth - 1, view=True)
            return "(%s).len" % a, lambda e: len(fa(e))
        if k == "at":
            (a, fa), (b, fb) = self.expr("v", loc, depth - 1, view=True), self.e_int(loc, depth - 1)

            def at(e):
                v, i = fa(e), fb(e)
                return v[i % len(v)] if v else i % M
            return "at(%s, %s)" % (a, b), at
        if k == "sum":
            a, fa = self.expr("v", loc, depth - 1, view=True)
            return "sum(%s)" % a, lambda e: sum(fa(e)) % M
        if k == "elem":
            x = self.elem("i", loc, depth)
            if x:
                return x
        if k == "field":
            ls = [n for n, t in loc.items() if t == "p"]
            if ls:
                n = r.choice(ls)
                return n + ".a", lambda e: e[n]["a"]
        if k == "chr":
            a, fa = self.expr("s", loc, depth - 1, view=True)
            return "(dig(%s) %% 1009)" % a, lambda e: dig("s", fa(e)) % M
        return self.const()

    def elem(self, t, loc, depth):
        """an element of an array from outside which the loop does not write to"""
        c = [n for n, (u, v) in self.arrays.items() if u == t and v and n not in self.busy]
        if not c or (t != "i" and self.inside and not self.foreign):
            return None
        n = self.r.choice(c)
        v = self.arrays[n][1]
        i, fi = self.e_int(loc, depth - 1) if depth > 0 else self.const()
        self.kinds.add("outside-" + t)
        return "%s[%s %% %d]" % (n, i, len(v)), lambda e: v[fi(e) % len(v)]

    def expr(self, t, loc, depth, view=False):
        """view: only looked at, so that a string from outside may be named"""
        r = self.r
        if t == "i":
            return self.e_int(loc, depth)
        ls = [n for n, u in loc.items() if u == t]
        ps = [n for n, u in loc.items() if u == "p"]
        k = r.choice(["local"] * 3 + ["field", "elem", "elem", "make", "cat", "lit", "str"])
        if k == "local" and ls:
            n = r.choice(ls)
            return n, lambda e: e[n]
        if k == "field" and ps and t in "sv":
            n = r.choice(ps)
            return "%s.%s" % (n, t), lambda e: e[n][t]
        if k == "elem":
            x = self.elem(t, loc, depth)
            if x:
                return x
        if t == "p":
            if depth <= 0 and ls:
                n = r.choice(ls)
                return n, lambda e: e[n]
            (a, fa), (s, fs), (v, fv) = [self.expr(u, loc, depth - 1) for u in "isv"]
            return "P(%s, %s, %s)" % (a, s, v), lambda e: {"a": fa(e), "s": fs(e), "v": list(fv(e))}
        if t == "s":
            if k == "str" and view and self.strs:
                n = r.choice(list(self.strs))
                v = self.strs[n]
                self.kinds.add("outside-view")
                return n, lambda e: v
            if depth > 0 and k in ("cat", "make", "str"):
                a, fa = self.expr("s", loc, depth - 1, view=True)
                if r.random() < .5:
                    b, fb = self.e_int(loc, depth - 1)
                    return "cut(%s ~ (%s))" % (a, b), lambda e: (fa(e) + str(fb(e)))[-24:]
                b, fb = self.expr("s", loc, depth - 1, view=True)
                return "cut(%s ~ %s)" % (a, b), lambda e: (fa(e) + fb(e))[-24:]
            s = "".join(r.choice("abcxyz") for _ in range(r.choice([0, 1, 3, 20 if self.foreign or not self.inside else 3])))
            return '"%s"' % s, lambda e: s
        if depth > 0 and k in ("cat",):
            (a, fa), (b, fb) = self.expr("v", loc, depth - 1, view=True), self.expr("v", loc, depth - 1, view=True)
            return "cutv(%s ~ %s)" % (a, b), lambda e: (list(fa(e)) + list(fb(e)))[-12:]
        if depth > 0 and ls and k == "local":
            n = r.choice(ls)
            return n, lambda e: e[n]
        n, (b, fb) = r.choice([1, 2, 9]), self.e_int(loc, max(0, depth - 1))
        return "spread(%d, %s)" % (n, b), lambda e: [(fb(e) + j * 7) % M for j in range(n)]

    # ---------------- statements: (lines, function of the environment)

    def stmt(self, loc, mut, depth, ind):
        r = self.r
        pad = "    " * ind
        tgt = r.choice(sorted(mut))
        t = loc[tgt]
        k = r.choice(["set", "set", "op", "op", "op", "local", "if", "for", "try", "swap", "nest"])
        if k == "local" and depth > 0:
            u = r.choice("isvp")
            a, fa = self.expr(u, loc, 2)
            n = self.name("l")
            loc[n] = u
            mut.add(n)

            def f(e):
                e[n] = copy(u, fa(e))
            s2, f2 = self.stmt(loc, mut, depth - 1, ind)
            # what is declared must be written as well as read
            w, fw = self.op(n, u, loc, ind)
            x, fx = self.use(tgt, t, n, u, ind)
            del loc[n]
            mut.discard(n)
            self.kinds.add("local-" + u)
            return ["%smut %s: %s = %s;" % (pad, n, TYPES[u], a)] + w + s2 + x, lambda e: (f(e), fw(e), f2(e), fx(e))
        if k == "if" and depth > 0:
            c, fc = self.e_int(loc, 2)
            s, f = self.block(loc, mut, depth - 1, ind + 1)
            return ["%sif (%s %% 3) {" % (pad, c)] + s + [pad + "}", ""], lambda e: f(e) if fc(e) % 3 else None
        if k == "for" and depth > 0:
            n, m = self.name("j"), r.randint(1, 3)
            loc[n] = "i"
            s, f = self.block(loc, mut, depth - 1, ind + 1)
            w, fw = self.use(tgt, t, n, "i", ind + 1)
            del loc[n]

            def g(e):
                for j in range(m):
                    e[n] = j
                    f(e)
                    fw(e)
            return ["%sfor (mut %s = 0; %s < %d; %s++) {" % (pad, n, n, m, n)] + s + w + [pad + "}", ""], g
        if k == "try" and depth > 0:
            c, fc = self.e_int(loc, 1)
            s, f = self.block(loc, mut, 0, ind + 1)
            x, fx = self.use(tgt, t, "e.len", "i", ind + 1)
            self.kinds.add("try")

            def g(e):
                f(e)
                if fc(e) % 2:
                    e["e.len"] = 3
                    fx(e)
            return ([pad + "try {"] + s + ["%s    (%s) %% 2 && throw(\"odd\");" % (pad, c), pad + "}", pad + "catch (e) {"] + x
                    + [pad + "}", ""]), g
        if k == "nest" and depth > 0 and t in "vp" and not self.nested:
            # the element is itself an array: a loop in the loop
            what = tgt if t == "v" else tgt + ".v"
            n = self.name("z")
            self.nested = True
            inner = {n: "i"}
            w, f = self.op(n, "i", inner, ind + 1)
            self.nested = False
            self.kinds.add("nested")

            def g(e):
                v = e[tgt] if t == "v" else e[tgt]["v"]
                for j in range(len(v)):
                    e2 = {n: v[j]}
                    f(e2)
                    v[j] = e2[n]
            return ["%spar::each(%s): |ref %s|" % (pad, what, n), pad + "{"] + w + [pad + "}", ""], g
        if k == "swap":
            o = [n for n in sorted(mut) if loc[n] == t and n != tgt]
            if o:
                n = r.choice(o)

                def g(e):
                    e[n], e[tgt] = e[tgt], e[n]
                return ["%sswap(%s, %s);" % (pad, tgt, n)], g
        if k == "set":
            a, fa = self.expr(t, loc, 3)

            def g(e):
                e[tgt] = copy(t, fa(e))
            return ["%s%s = %s;" % (pad, tgt, a)], g
        return self.op(tgt, t, loc, ind)

    def use(self, tgt, t, n, u, ind):
        """fold local n into the target"""
        pad = "    " * ind
        d = n if u == "i" else "dig(%s)" % n
        def val(e):
            return dig(u, e[n]) % M
        return self.fold(tgt, t, "(%s %% 1009)" % d, val, pad)

    def fold(self, tgt, t, a, fa, pad):
        if t == "i":
            def g(e):
                e[tgt] = (e[tgt] + fa(e)) % M
            return ["%s%s = (%s + %s) %% 1009;" % (pad, tgt, tgt, a)], g
        if t == "s":
            def g(e):
                e[tgt] = (e[tgt] + str(fa(e)))[-24:]
            return ["%s%s ~= %s;" % (pad, tgt, a), "%s%s = cut(%s);" % (pad, tgt, tgt)], g
        if t == "v":
            def g(e):
                e[tgt] = (e[tgt] + [fa(e)])[-12:]
            return ["%s%s ~= %s;" % (pad, tgt, a), "%s%s = cutv(%s);" % (pad, tgt, tgt)], g

        def g(e):
            e[tgt]["a"] = (e[tgt]["a"] + fa(e)) % M
        return ["%s%s.a = (%s.a + %s) %% 1009;" % (pad, tgt, tgt, a)], g

    def op(self, tgt, t, loc, ind):
        r = self.r
        pad = "    " * ind
        if t in "vp" and r.random() < .6:
            what = tgt if t == "v" else tgt + ".v"
            get = (lambda e: e[tgt]) if t == "v" else (lambda e: e[tgt]["v"])
            k = r.choice(["put", "bump", "one"])
            a, fa = self.e_int(loc, 2)
            self.kinds.add("write-" + t + "-" + k)
            if k == "bump":
                def g(e):
                    v = get(e)
                    x = fa(e)
                    for j in range(len(v)):
                        v[j] = (v[j] + x) % M
                    if t == "p":
                        e[tgt]["a"] = (e[tgt]["a"] + len(v)) % M
                if t == "p":
                    return ["%s%s.a = (%s.a + bump(%s, %s)) %% 1009;" % (pad, tgt, tgt, what, a)], lambda e: self.bump_p(e, tgt, fa)
                return ["%sbump(%s, %s);" % (pad, what, a)], g
            if k == "one":
                def g(e):
                    v = get(e)
                    if v:
                        x = fa(e)
                        v[len(v) // 2] = x
                return ["%sif (%s.len) {" % (pad, what), "%s    %s[%s.len / 2] = %s;" % (pad, what, what, a), pad + "}", ""], g

            def g(e):
                v = get(e)
                x = fa(e)
                v.append(x)
                del v[:-12]
            return ["%s%s ~= %s;" % (pad, what, a), "%s%s = cutv(%s);" % (pad, what, what)], g
        if t == "p" and r.random() < .5:
            a, fa = self.expr("s", loc, 2)
            self.kinds.add("write-p-s")

            def g(e):
                e[tgt]["s"] = (e[tgt]["s"] + fa(e))[-24:]
            return ["%s%s.s ~= %s;" % (pad, tgt, a), "%s%s.s = cut(%s.s);" % (pad, tgt, tgt)], g
        if t == "s" and r.random() < .3:
            self.kinds.add("write-s-one")

            def g(e):
                s = e[tgt]
                if s:
                    e[tgt] = s[:len(s) // 2] + "Q" + s[len(s) // 2 + 1:]
            return ["%sif (%s.len) {" % (pad, tgt), "%s    %s[%s.len / 2] = 'Q';" % (pad, tgt, tgt), pad + "}", ""], g
        self.kinds.add("write-" + t)
        a, fa = self.e_int(loc, 2)
        return self.fold(tgt, t, a, fa, pad)

    @staticmethod
    def bump_p(e, tgt, fa):
        p = e[tgt]
        x, a = fa(e), p["a"]
        p["v"][:] = [(y + x) % M for y in p["v"]]
        p["a"] = (a + len(p["v"])) % M

    def block(self, loc, mut, depth, ind):
        lines, fs = [], []
        for _ in range(self.r.randint(1, 3)):
            s, f = self.stmt(loc, mut, depth, ind)
            lines += s
            fs.append(f)

        def g(e):
            for f in fs:
                f(e)
        return lines, g

    # ---------------- programs

    def out(self, *lines):
        self.text += ["    " + x if x else "" for x in lines]

    def array(self, t, n):
        self.inside = False
        name = self.name({"i": "ai", "s": "as", "v": "av", "p": "ap"}[t])
        r, loc = self.r, {"i": "i"}
        self.busy = set()
        base = self.name("b")
        (b, fb) = self.expr(t, {}, 1)
        (x, fx) = self.expr(t, {"i": "i"}, 2)
        m = r.choice([1, 2, 5])
        self.out("let %s: %s = %s;" % (base, TYPES[t], b), "mut %s: %s[];" % (name, TYPES[t]),
                 "for (mut i = 0; i < %d; i++)" % n, "    %s ~= i %% %d ? %s : %s;" % (name, m, x, base) if m > 1
                 else "    %s ~= i %% 7 == 6 ? %s : %s;" % (name, x, base), "")
        v = []
        k = m if m > 1 else None
        for i in range(n):
            use_x = (i % k != 0) if k else (i % 7 == 6)
            v.append(copy(t, fx({"i": i}) if use_x else fb({})))
        self.arrays[name] = (t, v)
        return name

    def loop(self):
        r = self.r
        kind = r.choice(["each", "each", "zip", "map", "map"])
        name = r.choice(list(self.arrays))
        t, v = self.arrays[name]
        self.busy, self.nested, self.inside = {name}, False, True
        mn = r.choice([None, None, 1, 2, 50, 100000])
        tail = ", min: %d" % mn if mn is not None else ""
        if kind == "map":
            tail = tail[2:] + ", " if tail else ""
        part = None
        if kind == "each" and r.random() < .3 and len(v) > 2:
            part = (r.randrange(len(v) // 2), r.randrange(len(v) // 2, len(v) + 1))
        what = "%s[%d .. %d]" % ((name,) + part) if part else name
        lo, hi = part or (0, len(v))
        self.kinds.add("%s-%s%s" % (kind, t, "-part" if part else ""))
        if kind == "each":
            s, f = self.block({"x": t, "i": "i"}, {"x"}, 2, 2)
            w, fw = self.use("x", t, "i", "i", 2)
            for i in range(lo, hi):
                e = {"x": v[i], "i": i - lo}
                f(e)
                fw(e)
                v[i] = e["x"]
            self.out("par::each(%s%s): |ref x, i|" % (what, tail), "{")
            self.text += s + w
            self.out("}", "")
        elif kind == "zip":
            o = r.choice([n for n in self.arrays if n != name] or [self.array(r.choice("isvp"), len(v))])
            u, w = self.arrays[o]
            self.busy, self.inside = {name, o}, True
            s, f = self.block({"x": t, "y": u, "i": "i"}, {"x", "y"}, 2, 2)
            a, fa = self.use("x", t, "y", u, 2)
            b, fb = self.use("y", u, "i", "i", 2)
            for i in range(min(len(v), len(w))):
                e = {"x": v[i], "y": w[i], "i": i}
                f(e)
                fa(e)
                fb(e)
                v[i], w[i] = e["x"], e["y"]
            self.out("par::zip(%s, %s%s): |ref x, ref y, i|" % (name, o, tail), "{")
            self.text += s + a + b
            self.out("}", "")
        else:
            u = r.choice("isvp")
            new = self.name("am")
            l = {"x": t, "i": "i", "res": u}
            x, fx = self.expr(u, {"x": t, "i": "i"}, 2)
            s, f = self.block(l, {"res"}, 2, 2)
            a, fa = self.use("res", u, "x", t, 2)
            b, fb = self.use("res", u, "i", "i", 2)
            out = []
            for i, y in enumerate(v):
                e = {"x": y, "i": i}
                e["res"] = copy(u, fx(e))
                f(e)
                fa(e)
                fb(e)
                out.append(e["res"])
            self.out("mut %s = %s.par::map(%s|x, i|" % (new, name, tail), "{", "    mut res: %s = %s;" % (TYPES[u], x))
            self.text += s + a + b
            self.out("    continue res;", "});", "")
            self.arrays[new] = (u, out)

    def alias(self):
        """copies of whole arrays and of elements: more handles of the same storage"""
        n = self.r.choice(list(self.arrays))
        t, v = self.arrays[n]
        m = self.name("ac")
        self.out("mut %s = %s;" % (m, n))
        w = [copy(t, x) for x in v]
        if v and self.r.random() < .5:
            self.out("for (mut i = 0; i < %d; i++)" % min(3, len(v)), "    %s[i] = %s[%d];" % (m, n, len(v) - 1), "")
            for i in range(min(3, len(v))):
                w[i] = copy(t, v[-1])
        self.arrays[m] = (t, w)

    def program(self):
        r = self.r
        self.out("mut seed = 0;")
        for _ in range(2):
            n, k = self.name("k"), r.randrange(M)
            self.out("let %s = %d + seed;" % (n, k))
            self.ints[n] = k
        for _ in range(2):
            n, s = self.name("t"), "".join(r.choice("klmn") for _ in range(r.choice([1, 5, 30])))
            self.out('mut %s = "%s";' % (n, s), "seed += %s.len * 0;" % n)
            self.strs[n] = s
        sizes = [0, 1, 2, 7, 33, 64] + ([300, 1000] if self.big else [])
        for t in r.sample("isvp", r.randint(2, 4)):
            self.array(t, r.choice(sizes[2:] if r.random() < .85 else sizes))
        for _ in range(r.randint(2, 5)):
            if r.random() < .4:
                self.alias()
            self.loop()
        text = HEAD + "".join(SHOW % t for t in TYPES.values()) + "fn main(): i32 {\n" + "\n".join(self.text) + "\n"
        exp = ""
        for n, k in self.ints.items():
            text += '    println("%s " ~ %s);\n' % (n, n)
            exp += "%s %d\n" % (n, k)
        for n, (t, v) in self.arrays.items():
            text += '    show("%s", %s);\n' % (n, n)
            h = 0
            for x in v:
                h = (h * 31 + dig(t, x)) % 1000003
            exp += "%s %d %d\n" % (n, len(v), h)
        return text + "    return 0;\n}\n", exp


def make(seed, big=False, foreign=True):
    g = Gen(seed, big, foreign)
    t, e = g.program()
    return t, e, g.kinds


# ---------------------------------------------------------------- loops which touch what is not theirs

SEQ = """
pub fn each(ref arr: $T[..], visit)
    for (mut i = 0; i < arr.len; i++)
        visit(arr[i], i?: i);

pub fn zip(ref arr: $T[..], ref barr: $U[..], visit)
    for (mut i = 0; i < arr.len; i++)
        visit(arr[i], barr[i], i?: i);

pub fn map(ref arr: $T[..], visit)
{
    mut result: typeof( visit(arr[0], i?: 0) )[];
    for (mut i = 0; i < arr.len; i++)
        result ~= visit(arr[i], i?: i);

    return result;
}
"""
LOOP_HEAD = """import par;

struct P {
    a: i32;
    s: string;
    v: i32[];
};

fn add(ref t: i32, x: i32) {
    t += x;
}

fn put(ref v: i32[], x: i32) {
    v ~= x;
}

fn set(ref v: i32[], x: i32) {
    v[0] = x;
}

fn pick(ref a: i32, ref b: i32, c: i32) {
    return c > 2 ? a : b;
}

fn runs(f) {
    return f();
}

"""
DECL = {
    "n": "mut n = 1;", "m": "mut m = 2;", "o": "mut o = [ 5, 6, 7, 8, 9, 10, 11, 12 ];", "s": 'mut s = "text";',
    "p": 'mut p = P(1, "b", [ 4, 5 ]);', "q": 'mut q = [ P(1, "b", [ 4, 5 ]), P(2, "c", [ 6, 7 ]) ];',
    "c": "mut c = [ [ 1, 2 ], [ 3, 4 ] ];",
}
ARGT = {"n": "i32", "m": "i32", "o": "i32[]", "s": "string", "p": "P", "q": "P[]", "c": "i32[][]"}
SHOWN = {"n": "n", "m": "m", "o": "o[0] + o.len", "s": "s", "p": "p.a + p.v.len + p.s.len", "q": "q[0].a + q[0].v[0] + q.len", "c": "c[0][0] + c.len"}
WRITES = {
    "assign": ("n", ["n = x;"]), "add": ("n", ["n += x;"]), "increment": ("n", ["n++;"]), "method": ("n", ["n.add(x);"]),
    "one of two": ("nm", ["pick(n, m, x) += x;"]), "conditional": ("nm", ["(x > 2 ? n : m) += x;"]),
    "alias": ("nm", ["ref w = x > 2 ? n : m;", "w += x;"]), "plain alias": ("n", ["ref w = n;", "w += x;"]),
    "element": ("o", ["o[0] = x;"]), "element at index": ("o", ["o[i] = x;"]), "element add": ("o", ["o[x % 3] += x;"]),
    "element alias": ("o", ["ref w = o[0];", "w += x;"]), "element by method": ("o", ["o[1].add(x);"]),
    "append": ("o", ["o ~= x;"]), "append by method": ("o", ["o.put(x);"]), "set by method": ("o", ["o.set(x);"]),
    "swap elements": ("o", ["swap(o[0], o[1]);"]), "replace": ("o", ["o = [ x, x ];"]),
    "text": ("s", ["s ~= x;"]), "text replaced": ("s", ["s = \"a\" ~ x;"]), "byte": ("s", ["s[0] = 'x';"]),
    "field": ("p", ["p.a += x;"]), "field text": ("p", ["p.s ~= x;"]), "field array": ("p", ["p.v[0] = x;"]),
    "field append": ("p", ["p.v ~= x;"]), "field alias": ("p", ["ref w = p.a;", "w += x;"]), "struct": ("p", ["p = P(x, \"\", [ x ]);"]),
    "record": ("q", ["q[0].a += x;"]), "record text": ("q", ["q[1].s ~= x;"]), "record array": ("q", ["q[0].v[1] = x;"]),
    "record append": ("q", ["q[0].v ~= x;"]), "record alias": ("q", ["ref w = q[0].v[0];", "w += x;"]),
    "row": ("c", ["c[0][1] = x;"]), "row append": ("c", ["c[1] ~= x;"]), "row alias": ("c", ["ref w = c[0];", "w[0] += x;"]),
}
READS = {
    "own array, first": "x += %s[0];", "own array, next": "x += %s[(i + 1) %% 8];", "own array, sum": "for (mut k = 0; k < %s.len; k++)\n    x += %s[k] %% 3;",
}
WRAPS = {
    "plain": ["$W"],
    "if": ["if (x > 1) {", "    $W", "}", ""],
    "for": ["for (mut k = 0; k < 2; k++) {", "    $W", "}", ""],
    "defer": ["defer {", "    $W", "}", ""],
    "try": ["try {", "    $W", "    x > 1000 && throw(\"a\");", "}", "catch (e) {", "    println(e);", "}", ""],
    "catch": ["try {", "    x >= 0 && throw(\"a\");", "}", "catch (e) {", "    if (e.len) {", "        $W", "    }", "}", ""],
    "function": ["fn inner() {", "    $W", "}", "", "inner();"],
    "closure": ["runs(|| {", "    $W", "    continue 1;", "});"],
    "nested": ["par::each([ 1, 2 ]): |z|", "{", "    if (z) {", "        $W", "    }", "}", ""],
    "nested map": ["let r = [ 1, 2 ].par::map(|z|", "{", "    if (z) {", "        $W", "    }", "", "    continue z;", "});", "", "if (r[0] > 9) println(\"never\");"],
}
OPS = {
    "each": ("par::each(arr): |x, i|", None), "each ref": ("par::each(arr): |ref x, i|", "x += 1;"),
    "zip": ("par::zip(arr, arr2): |x, y, i|", "if (y > 1000) println(\"never\");"),
    "zip ref": ("par::zip(arr, arr2): |ref x, ref y, i|", "x += y;"),
    "map": (None, None), "part": ("par::each(arr[0 .. 7]): |x, i|", None),
}
PLACES = ("local", "argument", "implicit")
LEAVES = {
    "break out": ["if (x > 3)", "    break;", ""], "return": ["if (x > 3)", "    return;", ""],
    "break to a label": ["if (x > 3)", "    break :out;", ""],
    "throw": ["x > 3 && throw(\"a\");"], "throw in a function": ["checked(x);"],
    "throw in defer": ["defer checked(x);"], "throw in catch": ["try {", "    checked(x);", "}", "catch (e) {", "    throw(e);", "}", ""],
}


def put(lines, w, pad):
    out = []
    for l in lines:
        if "$W" in l:
            out += [pad + l.replace("$W", k) for k in w]
        else:
            out.append(pad + l if l else "")
    return out


def loop(op, body, pad):
    head, extra = OPS[op]
    b = put(body, [], pad + "    ") + [pad + "    if (x + i > 100000)", pad + "        println(\"never\");", ""]
    if op == "map":
        return [pad + "let out = arr.par::map(|x, i|", pad + "{"] + b + [pad + "    continue x;", pad + "});", "", pad + "println(out[0]);"]
    if extra:
        b.append(pad + "    " + extra)
    return [pad + head, pad + "{"] + b + [pad + "}", ""]


def whole(op, vars, body, place, before=()):
    text = LOOP_HEAD
    pad = "    "
    arrs = ["mut arr = [ 1, 2, 3, 4, 5, 6, 7, 8 ];"] + (["mut arr2 = [ 8, 7, 6, 5, 4, 3, 2, 1 ];"] if "zip" in op else [])
    shows = ["println(arr[0]);"] + (["println(arr2[0]);"] if "zip" in op else []) + ["println(%s);" % SHOWN[v] for v in vars]
    l = loop(op, body, pad)
    if place == "local":
        lines = put(arrs, [], pad) + [pad + DECL[v] for v in vars] + put(list(before), [], pad) + l + put(shows, [], pad)
        return text + "fn main(): i32 {\n" + "\n".join(lines) + "\n    return 0;\n}\n"
    args = ["%s: %s" % (("implicit mut " if place == "implicit" else "ref ") + v, ARGT[v]) for v in vars]
    args += ["ref arr: i32[]"] + (["ref arr2: i32[]"] if "zip" in op else [])
    names = ([] if place == "implicit" else list(vars)) + ["arr"] + (["arr2"] if "zip" in op else [])
    text += "fn work(%s): void {\n" % ", ".join(args) + "\n".join(put(list(before), [], pad) + l) + "\n    println(arr[0]);\n}\n\n"
    decl = [DECL[v].replace("mut ", "let implicit mut ", 1) if place == "implicit" else DECL[v] for v in vars]
    return text + "fn main(): i32 {\n" + "\n".join(put(arrs + decl + ["work(%s);" % ", ".join(names)] + shows, [], pad)) + "\n    return 0;\n}\n"


def twin(t):
    return t.replace("import par;", "import seq;").replace("par::", "seq::")


def shapes(rnd, n):
    """(name, class, text): loops whose bodies write to, read or leave what the other indices share."""
    out = []
    for w, (vars, lines) in WRITES.items():
        for k, wrap in WRAPS.items():
            for op in OPS:
                for place in PLACES:
                    out.append((w, k, op, place))
    rnd.shuffle(out)
    # every write and every wrapping at least once
    seen, first, rest = set(), [], []
    for x in out:
        new = {("w", x[0], x[3]), ("k", x[1], x[2]), ("p", x[1], x[3])} - seen
        (first if new else rest).append(x)
        seen |= new
    for w, k, op, place in (first + rest)[:max(n, len(first))]:
        vars, lines = WRITES[w]
        yield "%s/%s/%s/%s" % (w, k, op, place), "write", whole(op, vars, put(WRAPS[k], lines, ""), place)
    for w, line in READS.items():
        for op in ("each ref", "zip ref"):
            for place in ("local", "argument"):
                l = (line % (("arr",) * line.count("%s"))).split("\n")
                yield "%s/%s/%s" % (w, op, place), "read", whole(op, "", l, place)
    for w, lines in LEAVES.items():
        for op in OPS:
            pre = "fn checked(x: i32): void {\n    x > 3 && throw(\"b\");\n}\n\n"
            t = whole(op, "", lines, "argument")
            if "label" in w:
                t = t.replace("par::each(", ":out par::each(").replace("par::zip(", ":out par::zip(")
                if op == "map":
                    continue
            if "checked" in "".join(lines):
                t = t.replace("fn add(", pre + "fn add(", 1)
            yield "%s/%s" % (w, op), "leave", t
