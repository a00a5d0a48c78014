"""Random small functions full of references, mutations and jumps.

They are generated without regard for the borrow checker, so most are refused. What is accepted must
be free of memory errors: those are compiled together and run under the sanitizers.
Every array stays non-empty and every index is 0, so an out-of-bounds access cannot be the program's fault."""
import random

DECLS = """
struct Box { items: i32[]; sub: i32; }

fn mk(n: i32): i32[] {
    mut a: i32[];
    for (mut i = 0; i < n; i++)
        a ~= i;
    return a;
}
fn mkn(n: i32): i32[][] {
    mut a: i32[][];
    for (mut i = 0; i < n; i++)
        a ~= mk(n);
    return a;
}
fn mkb(n: i32): Box {
    mut b: Box;
    b.items = mk(n);
    b.sub = n;
    return b;
}
fn mkw(n: i32): Box[] {
    mut a: Box[];
    for (mut i = 0; i < n; i++)
        a ~= mkb(n);
    return a;
}
fn thr(d: u32) { if ((d & 3) == 3) throw("t"); }
fn coin(ref d: u32): bool {
    d = d * 1103515245.u32 + 12345.u32;
    return ((d >> 16.u32) & 1.u32) != 0.u32;
}
fn big(ref a: i32[]) { a.grow(a.len + 40); }
fn fresh(ref a: i32[]) { a = mk(5); }
fn at(ref a: i32[]): &mut i32 = a[0];
fn pick(ref a: i32[], ref b: i32[]): &mut i32[] = a.len > b.len ? a : b;
fn two(ref x: i32, ref y: i32[]) { y = mk(4); x += 1; }
fn owt(ref y: i32[], ref x: i32) { y = mk(4); x += 1; }
fn bot(ref x: i32[], ref y: i32[]) { x ~= 1; y.grow(y.len + 30); x[0] += 1; y[0] += 1; }
fn blo(ref b: Box, ref x: i32[]) { b = mkb(2); x ~= 1; }
fn add(ref x: i32, y: i32) { x += y; }
fn sum(x: i32[..], ref y: i32[]): i32 { y = mk(3); return x[0] + y[0]; }
fn len2(ref y: i32[]): i32 { y = mk(6); return y.len; }
"""

OWNERS = [("a", "mk", "A"), ("n", "mkn", "N"), ("b", "mkb", "B"), ("w", "mkw", "W")]


class Gen:
    def __init__(self, seed):
        self.R = random.Random(seed)
        self.k = 0
        self.scope = []      # list of lists of (kind, expr, writable)
        self.loops = 0
        self.labels = []
        self.intry = 0
        self.depth = 0
        self.budget = 0
        self.unordered = False   # the result depends on an order of evaluation the language leaves open

    def name(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def vars(self, kind):
        return [e for fr in self.scope for (k, e) in fr if k == kind]

    def A(self, d=0):
        R = self.R
        opts = list(self.vars("A")) * 2
        opts += ["%s[0]" % x for x in self.vars("N")]
        opts += ["%s.items" % x for x in self.vars("B")]
        opts += ["%s[0].items" % x for x in self.vars("W")]
        x = R.choice(opts)
        if d < 1 and R.random() < 0.12:
            return R.choice(["pick(%s, %s)" % (x, self.A(1)), "%s.items()" % self.B() if False else x])
        return x

    def B(self):
        return self.R.choice(self.vars("B") * 2 + ["%s[0]" % x for x in self.vars("W")])

    def i(self):
        R = self.R
        opts = list(self.vars("i")) * 3 + ["%s[0]" % x for x in self.vars("V")] * 2
        opts += ["%s[0]" % self.A(), "%s.sub" % self.B(), "%s[0][0]" % R.choice(self.vars("N")), "at(%s)" % self.A()]
        return R.choice(opts)

    def ref(self):
        """a new reference: (kind, statement, name)"""
        R = self.R
        k = R.choice("iiiiAAVVBN")
        q = self.name("q")
        if k == "i":
            e = self.i()
            if R.random() < 0.15:
                e = "coin(d) ? %s : %s" % (e, self.i())
        elif k == "A":
            e = self.A()
            if R.random() < 0.15:
                e = "coin(d) ? %s : %s" % (e, self.A())
        elif k == "V":
            e = "%s[0 .. 1]" % self.A()
        elif k == "B":
            e = self.B()
        else:
            e = R.choice(self.vars("N"))
        return k, "lax ref %s = %s;" % (q, e), q

    def mutate(self):
        R = self.R
        k = R.choice("AAAAAANNWWBi")
        if k == "A":
            a = self.A()
            s = R.choice([
                "big(%s);" % a, "fresh(%s);" % a, "%s = mk(3);" % a, "%s ~= mk(9);" % a, "%s ~= 4;" % a,
                "%s.insert(0, 7);" % a, "%s = %s;" % (a, self.A()), "swap(%s, %s);" % (a, self.A()),
                "%s.grow(%s.len + 30);" % (a, a), "%s ~= %s;" % (a, self.i()), "r += len2(%s);" % a,
                "two(%s, %s);" % (self.i(), a), "owt(%s, %s);" % (a, self.i()), "bot(%s, %s);" % (a, self.A()),
                "r += sum(%s, %s);" % (self.A(), a), "%s = len2(%s);" % (self.i(), a), "add(%s, len2(%s));" % (self.i(), a),
                "%s += len2(%s);" % (self.i(), a), "%s[0] = len2(%s);" % (a, a),
                "%s ~= %s;" % (a, a if not self.loops and self.depth < 2 else "mk(2)")])
            if "len2" in s and not s.startswith("r +="):
                self.unordered = True
            return s
        if k == "N":
            n = R.choice(self.vars("N"))
            return R.choice(["%s ~= mk(2);" % n, "%s = mkn(2);" % n, "%s[0] = mk(1);" % n, "%s.unshift(mk(1));" % n,
                             "%s ~= %s;" % (n, self.A()), "%s[0] = %s;" % (n, self.A()), "%s ~= %s[0];" % (n, n)])
        if k == "W":
            w = R.choice(self.vars("W"))
            return R.choice(["%s ~= mkb(2);" % w, "%s = mkw(1);" % w, "%s.unshift(mkb(1));" % w, "%s[0] = mkb(3);" % w,
                             "%s ~= %s;" % (w, self.B())])
        if k == "B":
            b = self.B()
            return R.choice(["%s = mkb(2);" % b, "%s.items = mk(4);" % b, "%s = %s;" % (b, self.B()),
                             "blo(%s, %s);" % (b, self.A()), "swap(%s, %s);" % (b, self.B())])
        return "%s += 1;" % self.i()

    def use(self):
        R = self.R
        loc = [(k, e) for fr in self.scope for (k, e) in fr if e[0] == "q"]
        if not loc or R.random() < 0.2:
            return "r += %s;" % self.i()
        k, e = R.choice(loc[-4:])
        if R.random() < 0.15:
            loc = [(k, e) for fr in self.scope for (k, e) in fr if k in "KU"]
            if loc:
                k, e = R.choice(loc)
                return "r += %s;" % (e if k == "U" else e + "[0]")
        if k == "i":
            return R.choice(["r += %s;" % e, "%s += 1;" % e, "add(%s, 3);" % e])
        if k == "A":
            return R.choice(["r += %s[0];" % e, "%s[0] += 1;" % e, "%s ~= 1;" % e, "r += %s.len;" % e])
        if k == "V":
            return R.choice(["r += %s[0];" % e, "%s[0] += 1;" % e])
        if k == "B":
            return R.choice(["r += %s.sub;" % e, "%s.items ~= 1;" % e, "r += %s.items[0];" % e])
        return R.choice(["r += %s[0][0];" % e, "%s[0] ~= 1;" % e])

    def cond(self):
        R = self.R
        c = R.choice(["coin(d)", "coin(d)", "coin(d)", "%s > 1" % self.i(), "%s.len > 6" % self.A(),
                      "coin(d) && %s > 0" % self.i(), "coin(d) || %s > 0" % self.i()])
        if R.random() < 0.08:
            c = "coin(d) %s len2(%s) > 0 %s %s > 0" % (R.choice(["&&", "||"]), self.A(), R.choice(["&&", "||"]), self.i())
        return c

    def jump(self):
        R = self.R
        o = ["return r;"]
        if self.loops:
            o += ["break;", "continue;"] * 2
        if self.labels:
            o += ["break :%s;" % R.choice(self.labels)] * 2
        if self.intry:
            o += ["throw(\"x\");", "thr(d);", "thr(d);"]
        return R.choice(o)

    def block(self, n, ind):
        self.scope.append([])
        out = []
        for _ in range(n):
            out += self.stmt(ind)
        self.scope.pop()
        return out or [ind + "r += 1;"]

    def stmt(self, ind):
        R = self.R
        self.budget -= 1
        p = R.random()
        deep = self.depth >= 3 or self.budget <= 0
        if p < 0.24:
            k, s, q = self.ref()
            self.scope[-1].append((k, q))
            return [ind + s]
        if p < 0.45 or (deep and p < 0.65):
            return [ind + self.mutate()]
        if p < 0.65 or deep:
            return [ind + self.use()]
        self.depth += 1
        try:
            return self.compound(ind)
        finally:
            self.depth -= 1

    def compound(self, ind):
        R = self.R
        i2 = ind + "    "
        kind = R.choice(["if", "if", "if", "ifelse", "jump", "jump", "for", "while", "label", "try", "try", "defer", "defer1", "fn", "each", "and", "let", "const", "inner"])
        if kind == "jump":
            return [ind + "if (%s) %s" % (self.cond(), self.jump())]
        if kind == "if":
            return [ind + "if (%s) {" % self.cond()] + self.block(R.randint(1, 3), i2) + [ind + "}"]
        if kind == "ifelse":
            return ([ind + "if (%s) {" % self.cond()] + self.block(R.randint(1, 2), i2) + [ind + "}", ind + "else {"]
                    + self.block(R.randint(1, 2), i2) + [ind + "}"])
        if kind in ("for", "while"):
            v = self.name("i_")
            head = "for (mut %s = 0; %s < 3; %s++) {" % (v, v, v)
            self.loops += 1
            if kind == "for":
                out = [ind + head] + self.block(R.randint(1, 4), i2) + [ind + "}"]
            else:
                out = [ind + "mut %s = 0;" % v, ind + "while (%s < 3) {" % v, i2 + "%s++;" % v] + self.block(R.randint(1, 4), i2) + [ind + "}"]
            self.loops -= 1
            return out
        if kind == "label":
            lb = self.name("l")
            self.labels.append(lb)
            lp, self.loops = self.loops, 0
            out = [ind + ":%s {" % lb] + self.block(R.randint(1, 4), i2) + [i2 + "if (coin(d)) break :%s;" % lb] + self.block(1, i2) + [ind + "}"]
            self.labels.pop()
            self.loops = lp
            return out
        if kind == "try":
            self.intry += 1
            out = [ind + "try {"] + self.block(R.randint(1, 4), i2)
            if R.random() < 0.7:
                out.append(i2 + "thr(d);")
            if R.random() < 0.3:
                out.append(i2 + self.jump())
            self.intry -= 1
            e = self.name("e")
            out += [ind + "}", ind + "catch (%s) {" % e, i2 + "r += %s.len;" % e] + self.block(R.randint(0, 2), i2) + [ind + "}"]
            return out
        if kind == "defer1":
            return [ind + "defer %s" % R.choice([self.mutate, self.use])()]
        if kind == "const":
            q = self.name("c")
            k, e = R.choice([("K", self.A()), ("K", self.A()), ("U", self.i()), ("K", "%s[0 .. 1]" % self.A())])
            if ".." in e:
                self.unordered = True
            self.scope[-1].append((k, q))
            return [ind + "lax let %s = %s;" % (q, e)]
        if kind == "inner":
            # a value computed by a block that mutates, inside a larger expression
            m = self.mutate()
            self.unordered = True
            return [ind + R.choice(["r += %s + { %s %s };" % (self.i(), m, self.i()),
                                    "%s += { %s 1 };" % (self.i(), m),
                                    "add(%s, { %s 2 });" % (self.i(), m),
                                    "r += { %s %s } + %s;" % (m, self.i(), self.i()),
                                    "r += sum(%s, %s);" % (self.A(), self.A()),
                                    "%s ~= { %s %s };" % (self.A(), m, self.i()),
                                    "r += { lax ref z = %s; %s z };" % (self.i(), m)])]
        if kind == "defer":
            return [ind + "{", i2 + "defer %s" % R.choice([self.mutate, self.use])()] + self.block(R.randint(1, 3), i2) + [ind + "}"]
        if kind == "fn":
            f = self.name("f")
            st = (self.loops, self.labels, self.intry)
            self.loops, self.labels, self.intry = 0, [], 0
            par = R.choice(["", "lax ref %s: i32", "lax ref %s: i32[]"])
            p = self.name("q")
            self.scope.append([])
            if par:
                self.scope[-1].append(("i" if par.endswith("i32") else "A", p))
            body = self.block(R.randint(1, 3), i2)
            self.scope.pop()
            body = [x for x in body]
            self.loops, self.labels, self.intry = st
            arg = "" if not par else self.i() if par.endswith("i32") else self.A()
            rt = [i2 + "return 1;"]
            return ([ind + "fn %s(%s): i32 {" % (f, par % p if par else "")] + body + rt + [ind + "}"]
                    + [ind + "r += %s(%s);" % (f, arg)] + (self.stmt(ind) if R.random() < 0.7 else []) + [ind + "r += %s(%s);" % (f, arg)])
        if kind == "each":
            q = self.name("q")
            a = self.A()
            self.scope.append([("i", q)])
            lp = (self.loops, self.labels)
            self.loops, self.labels = 0, []
            t = self.intry
            self.intry = 1
            body = [R.choice([self.mutate, self.use])() for _ in range(R.randint(1, 2))]
            self.intry = t
            self.loops, self.labels = lp
            self.scope.pop()
            body.insert(R.randint(0, len(body)), "%s += 1;" % q)
            return [ind + "%s.each: |mut ref %s|" % (a, q), i2 + "{"] + [i2 + "    " + s for s in body] + [i2 + "};"]
        if kind == "and":
            return [ind + "%s %s { %s %s };" % (self.cond(), R.choice(["&&", "||"]), self.mutate(), R.choice(["return r;", "%s" % self.use()]))]
        q = self.name("c")
        k = R.choice("ANBV")
        if k == "V":
            k = "A"
        src = {"A": self.A, "N": lambda: R.choice(self.vars("N")), "B": self.B}[k]()
        self.scope[-1].append((k, q))
        return [ind + "lax mut %s = %s;" % (q, src)]


def function(seed):
    """(text of one function `fn NAME(start: u32): i32`, with NAME for its name; whether its result is determined)"""
    g = Gen(seed)
    R = g.R
    own = [("A", "a1", "mk(3)"), ("A", "a2", "mk(2)"), ("N", "n1", "mkn(2)"), ("B", "b1", "mkb(2)"), ("W", "w1", "mkw(2)")]
    g.scope = [[(k, n) for k, n, _ in own]]
    g.budget = R.randint(5, 22)
    body = []
    n = R.randint(4, 9)
    for _ in range(n):
        body += g.stmt("    ")
    lines = ["fn NAME(start: u32): i32 {", "    lax mut d = start;", "    mut r = 0;"]
    lines += ["    mut %s = %s;" % (nm, e) for _, nm, e in own]
    lines += body
    lines += ["    return r + a1.len + a2.len + n1.len + b1.sub + w1.len;", "}"]
    return "\n".join(lines) + "\n", not g.unordered
