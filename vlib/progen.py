"""Random fu programs together with what they must print.

A program is a tree of nodes; every node knows its fu text and how to run itself in a
small reference interpreter (strict left-to-right evaluation, value semantics: assigning,
passing by value, returning and storing copy; `ref` names the original). Executions which
leave the defined part of the language (signed overflow, division by zero, index out of
range, runaway loops) are discarded while generating, so the text which is emitted has
exactly one meaning."""

import random

INTS = {"i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True),
        "u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False)}
SCALARS = list(INTS) + ["bool"]


class Discard(Exception):
    pass


class Thrown(Exception):
    def __init__(self, msg):
        self.msg = msg


class Ret(Exception):
    def __init__(self, val, frame):
        self.val, self.frame = val, frame


class Jump(Exception):
    def __init__(self, kind, target):
        self.kind, self.target = kind, target


# ------------------------------------------------------------------ values

class St(list):
    __slots__ = ()


def cp(v):
    if isinstance(v, list):
        return type(v)([cp(x) for x in v])
    return v


def wrap(t, v, strict=True):
    bits, signed = INTS[t]
    if signed:
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if lo <= v <= hi:
            return v
        if strict and bits >= 32:
            raise Discard("signed overflow")
        v &= (1 << bits) - 1
        return v - (1 << bits) if v > hi else v
    return v & ((1 << bits) - 1)


def is_arr(t):
    return isinstance(t, tuple) and t[0] == "arr"


def is_st(t):
    return isinstance(t, tuple) and t[0] == "st"


def tname(t):
    if t == "str":
        return "string"
    if is_arr(t):
        return tname(t[1]) + "[]"
    if is_st(t):
        return t[1].name
    return t


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields      # [(name, type)]

    def decl(self):
        return "struct %s { %s }" % (self.name, " ".join("%s: %s;" % (n, tname(t)) for n, t in self.fields))


def zero(t):
    if t in INTS:
        return 0
    if t == "bool":
        return False
    if t == "str":
        return b""
    if is_arr(t):
        return []
    return St([zero(ft) for _, ft in t[1].fields])


def lt(a, b):
    """What <> says about strings: length first, then bytes."""
    return (len(a), a) < (len(b), b)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# ------------------------------------------------------------------ machine

class Machine:
    LIMIT = 60000

    def __init__(self):
        self.steps = 0
        self.out = []
        self.depth = 0

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.LIMIT:
            raise Discard("too long")

    def keep(self, v):
        if isinstance(v, (bytes, list)) and len(v) > 3000:
            raise Discard("too big")
        return v


class Frame:
    __slots__ = ("vars", "m", "fn")

    def __init__(self, m, fn, parent=None):
        self.m, self.fn = m, fn
        self.vars = {}


class Slot:
    """A place: container and key."""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        try:
            return self.c[self.k]
        except IndexError:
            raise Discard("stale place")

    def set(self, v):
        try:
            self.c[self.k] = v
        except IndexError:
            raise Discard("stale place")


class FieldSlot:
    """A field stays the field of whatever the struct in that place becomes."""
    __slots__ = ("base", "i")

    def __init__(self, base, i):
        self.base, self.i = base, i

    def get(self):
        return self.base.get()[self.i]

    def set(self, v):
        self.base.get()[self.i] = v


class StrSlot:
    def __init__(self, base, i):
        self.base, self.i = base, i

    def get(self):
        s = self.base.get()
        if not 0 <= self.i < len(s):
            raise Discard("oob")
        return s[self.i]

    def set(self, v):
        s = self.base.get()
        if not 0 <= self.i < len(s):
            raise Discard("oob")
        self.base.set(s[:self.i] + bytes([v & 255]) + s[self.i + 1:])


# ------------------------------------------------------------------ expressions
# each: .t type, .fu() text (always safe to embed as an operand), .ev(f) value

class E:
    def place(self, f):
        raise NotImplementedError


class Lit(E):
    def __init__(self, t, v):
        self.t, self.v = t, v

    def fu(self):
        t, v = self.t, self.v
        if t == "bool":
            return "true" if v else "false"
        if t == "str":
            return '"' + "".join(_esc(c) for c in v) + '"'
        if t == "i32":
            return str(v) if v >= 0 else "(%d)" % v
        return "%d.%s" % (v, t) if v >= 0 else "(%d).%s" % (v, t)

    def ev(self, f):
        return self.v


def _esc(c):
    if c == 10:
        return "\\n"
    if c in (34, 92):
        return "\\" + chr(c)
    return chr(c)


class Var(E):
    def __init__(self, name, t):
        self.name, self.t = name, t

    def fu(self):
        return self.name

    def place(self, f):
        return f.vars[self.name]

    def ev(self, f):
        return f.vars[self.name].get()


class Field(E):
    def __init__(self, base, i):
        self.base, self.i = base, i
        self.t = base.t[1].fields[i][1]

    def fu(self):
        return "%s.%s" % (self.base.fu(), self.base.t[1].fields[self.i][0])

    def place(self, f):
        return FieldSlot(self.base.place(f), self.i)

    def ev(self, f):
        return self.base.ev(f)[self.i]


class Index(E):
    """base[i] where base is a place."""

    def __init__(self, base, i):
        self.base, self.i = base, i
        self.t = "u8" if base.t == "str" else base.t[1]

    def fu(self):
        return "%s[%s]" % (self.base.fu(), self.i.fu())

    def place(self, f):
        p = self.base.place(f)
        i = self.i.ev(f)
        v = p.get()
        if not 0 <= i < len(v):
            raise Discard("oob")
        return Slot(v, i)

    def ev(self, f):
        v = self.base.ev(f)
        i = self.i.ev(f)
        if not 0 <= i < len(v):
            raise Discard("oob")
        return v[i]


class Len(E):
    t = "i32"

    def __init__(self, base):
        self.base = base

    def fu(self):
        return self.base.fu() + ".len"

    def ev(self, f):
        return len(self.base.ev(f))


class Bin(E):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.t = "bool" if op in ("<", ">", "<=", ">=", "==", "!=") else a.t

    def fu(self):
        return "(%s %s %s)" % (self.a.fu(), self.op, self.b.fu())

    def ev(self, f):
        f.m.tick()
        t = self.a.t
        x = self.a.ev(f)
        if isinstance(x, list):
            x = cp(x)
        y = self.b.ev(f)
        return binop(self.op, t, x, y)


def binop(op, t, x, y):
    if op == "==":
        return x == y
    if op == "!=":
        return x != y
    if op in ("<", ">", "<=", ">="):
        if t == "str":
            a, b = (len(x), x), (len(y), y)
        else:
            a, b = x, y
        return a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b
    bits, signed = INTS[t]
    if op == "+":
        return wrap(t, x + y)
    if op == "-":
        return wrap(t, x - y)
    if op == "*":
        if bits < 32 and abs(x * y) >= 1 << 31:
            raise Discard("promoted overflow")
        return wrap(t, x * y)
    if op in ("/", "%"):
        if y == 0:
            raise Discard("div0")
        q = cdiv(x, y)
        if op == "/":
            return wrap(t, q)
        wrap(t, q)
        return wrap(t, x - q * y)
    if op == "&":
        return x & y
    if op == "|":
        return x | y
    if op == "^":
        return x ^ y
    if op in ("<<", ">>"):
        if not 0 <= y < bits:
            raise Discard("shift")
        if op == ">>":
            return x >> y
        if signed and (x < 0 or (x << y) >= 1 << (max(bits, 32) - 1)):
            raise Discard("shift")
        return wrap(t, x << y)
    raise AssertionError(op)


class Un(E):
    def __init__(self, op, a):
        self.op, self.a = op, a
        self.t = "bool" if op == "!" else a.t

    def fu(self):
        a = self.a.fu()
        return "(%s%s)" % (self.op, a if self.op == "!" or isinstance(self.a, Var) else "(" + a + ")")

    def ev(self, f):
        v = self.a.ev(f)
        if self.op == "!":
            return not truthy(v)
        if self.op == "-":
            return wrap(self.t, -v)
        return wrap(self.t, ~v)


def truthy(v):
    return bool(len(v)) if isinstance(v, (bytes, list)) else bool(v)


class Logic(E):
    t = "bool"

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def fu(self):
        return "(%s %s %s)" % (self.a.fu(), self.op, self.b.fu())

    def ev(self, f):
        x = truthy(self.a.ev(f))
        if self.op == "&&":
            return x and truthy(self.b.ev(f))
        return x or truthy(self.b.ev(f))


class Conv(E):
    def __init__(self, t, a):
        self.t, self.a = t, a

    def fu(self):
        return "%s.%s" % (self.a.fu(), self.t)

    def ev(self, f):
        v = int(self.a.ev(f))
        ft = self.a.t
        if INTS[self.t][0] > INTS.get(ft, (0,))[0] and v < 0 and not INTS[self.t][1]:
            v = wrap(("u" + ft[1:]), v)     # widening to unsigned does not extend the sign
        return wrap(self.t, v, strict=False)


class Ternary(E):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.t = a.t

    def fu(self):
        return "(%s ? %s : %s)" % (self.c.fu(), self.a.fu(), self.b.fu())

    def ev(self, f):
        f.m.tick()
        return cp((self.a if truthy(self.c.ev(f)) else self.b).ev(f))


class ToStr(E):
    """n.str of an integer or bool."""
    t = "str"

    def __init__(self, a):
        self.a = a

    def fu(self):
        return self.a.fu() + ".str"

    def ev(self, f):
        return (b"1" if self.a.ev(f) else b"0") if self.a.t == "bool" else str(self.a.ev(f)).encode()


class Cat(E):
    """a ~ b: strings, or arrays; either side may be one item."""

    def __init__(self, a, b, t):
        self.a, self.b, self.t = a, b, t

    def fu(self):
        return "(%s ~ %s)" % (self.a.fu(), self.b.fu())

    def ev(self, f):
        f.m.tick()
        x = cp(self.a.ev(f))
        y = cp(self.b.ev(f))
        if self.t != "str":
            x = x if self.a.t == self.t else [x]
            y = y if self.b.t == self.t else [y]
        return f.m.keep(x + y)


class Slice(E):
    """A part of a string or array, only inside a guard: form 0 [a .. b], 1 [a ..], 2 [.. b]."""

    def __init__(self, base, form, a, b):
        self.base, self.form, self.a, self.b = base, form, a, b
        self.t = base.t

    def fu(self):
        a = "" if self.form == 2 else self.a.fu()
        b = "" if self.form == 1 else self.b.fu()
        return "%s[%s .. %s]" % (self.base.fu(), a, b)

    def ev(self, f):
        s = self.base.ev(f)
        a = 0 if self.form == 2 else self.a.ev(f)
        b = len(s) if self.form == 1 else self.b.ev(f)
        if not 0 <= a <= b <= len(s):
            raise Discard("slice")
        return cp(s[a:b])


class ArrLit(E):
    def __init__(self, t, items):
        self.t, self.items = t, items

    def fu(self):
        return "[" + ", ".join(i.fu() for i in self.items) + "]"

    def ev(self, f):
        return [cp(i.ev(f)) for i in self.items]


class New(E):
    def __init__(self, t, items):
        self.t, self.items = t, items

    def fu(self):
        return "%s(%s)" % (self.t[1].name, ", ".join(i.fu() for i in self.items))

    def ev(self, f):
        return St([cp(i.ev(f)) for i in self.items])


class CallE(E):
    """Call of a generated function; style 0 positional, 1 method-like on the first argument,
    2 named arguments in another order (only with effect-free arguments)."""

    def __init__(self, fn, args, style=0, order=None):
        self.fn, self.args, self.style, self.order = fn, args, style, order
        self.t = fn.ret

    def fu(self):
        a = [x.fu() for x in self.args]
        if self.style == 1 and a:
            return "%s.%s(%s)" % (a[0], self.fn.name, ", ".join(a[1:]))
        if self.style == 2:
            ps = [p[1] for p in self.fn.params]
            a = ["%s: %s" % (ps[i], a[i]) for i in self.order]
        return "%s(%s)" % (self.fn.name, ", ".join(a))

    def bind(self, f):
        m = f.m
        m.tick(3)
        g = Frame(m, self.fn)
        for (kind, name, t), a in zip(self.fn.params, self.args):
            if kind == "ref":
                g.vars[name] = a.place(f)
            else:
                g.vars[name] = Slot([cp(a.ev(f))], 0)
        for kind, name, t, dflt in self.fn.defaults[len(self.args) - len(self.fn.params):] if len(self.args) > len(self.fn.params) else []:
            pass
        return g

    def ev(self, f):
        m = f.m
        g = self.bind(f)
        m.depth += 1
        if m.depth > 60:
            raise Discard("deep")
        try:
            return self.fn.run(g)
        finally:
            m.depth -= 1


class PickE(E):
    """pick(c, a, b): reference to one of two places."""

    def __init__(self, c, a, b, mutates):
        self.c, self.a, self.b, self.mutates = c, a, b, mutates
        self.t = a.t

    def fu(self):
        return "%s(%s, %s, %s)" % ("pick_mut" if self.mutates else "pick", self.a.fu(), self.b.fu(), self.c.fu())

    def place(self, f):
        a, b = self.a.place(f), self.b.place(f)
        return a if truthy(self.c.ev(f)) else b

    def ev(self, f):
        return cp(self.place(f).get())


class MutE(E):
    """x++, ++x, (x += e): value of the place before or after."""

    def __init__(self, form, p, op=None, e=None):
        self.form, self.p, self.op, self.e = form, p, op, e
        self.t = p.t

    def fu(self):
        if self.form == "post":
            return "%s%s" % (self.p.fu(), self.op)
        if self.form == "pre":
            return "(%s%s)" % (self.op, self.p.fu())
        return "(%s %s= %s)" % (self.p.fu(), self.op, self.e.fu())

    def ev(self, f):
        p = self.p.place(f)
        if self.form == "op":
            e = self.e.ev(f)
            v = binop(self.op, self.t, p.get(), e)
            p.set(v)
            return v
        old = p.get()
        new = wrap(self.t, old + (1 if self.op == "++" else -1))
        p.set(new)
        return old if self.form == "post" else new


class MapE(E):
    """a.map(|x| expr)"""

    def __init__(self, a, var, body):
        self.a, self.var, self.body = a, var, body
        self.t = ("arr", body.t)

    def fu(self):
        return "%s.map(|%s| %s)" % (self.a.fu(), self.var, self.body.fu())

    def ev(self, f):
        res = []
        for x in list(self.a.ev(f)):
            f.vars[self.var] = Slot([x], 0)
            res.append(cp(self.body.ev(f)))
            f.m.tick()
        return res


class QuantE(E):
    """a.all(|x| c), a.some(|x| c)"""
    t = "bool"

    def __init__(self, which, a, var, body):
        self.which, self.a, self.var, self.body = which, a, var, body

    def fu(self):
        return "%s.%s(|%s| %s)" % (self.a.fu(), self.which, self.var, self.body.fu())

    def ev(self, f):
        for x in list(self.a.ev(f)):
            f.vars[self.var] = Slot([x], 0)
            f.m.tick()
            if truthy(self.body.ev(f)) != (self.which == "all"):
                return self.which != "all"
        return self.which == "all"


class FindE(E):
    """s.find(x) / has / starts / ends."""

    def __init__(self, which, a, b):
        self.which, self.a, self.b = which, a, b
        self.t = "i32" if which == "find" else "bool"

    def fu(self):
        return "%s.%s(%s)" % (self.a.fu(), self.which, self.b.fu())

    def ev(self, f):
        s = self.a.ev(f)
        x = self.b.ev(f)
        f.m.tick()
        if self.a.t == "str":
            i = s.find(x)
        else:
            i = s.index(x) if x in s else -1
        if self.which == "find":
            return i
        if self.which == "has":
            return i >= 0
        if self.which == "starts":
            return s.startswith(x) if self.a.t == "str" else bool(s) and s[0] == x
        return s.endswith(x) if self.a.t == "str" else bool(s) and s[-1] == x


class JoinE(E):
    t = "str"

    def __init__(self, a, sep):
        self.a, self.sep = a, sep

    def fu(self):
        return "%s.join(%s)" % (self.a.fu(), self.sep.fu())

    def ev(self, f):
        return f.m.keep(self.sep.ev(f).join(self.a.ev(f)))


class ReplE(E):
    t = "str"

    def __init__(self, a, x, y):
        self.a, self.x, self.y = a, x, y

    def fu(self):
        return "%s.replace(all: %s, with: %s)" % (self.a.fu(), self.x.fu(), self.y.fu())

    def ev(self, f):
        return f.m.keep(self.a.ev(f).replace(self.x.ev(f), self.y.ev(f)))


class MinMax(E):
    def __init__(self, which, a, b):
        self.which, self.a, self.b, self.t = which, a, b, a.t

    def fu(self):
        return "%s.%s(%s)" % (self.a.fu(), self.which, self.b.fu())

    def ev(self, f):
        x = self.a.ev(f)
        y = self.b.ev(f)
        return (max if self.which == "max" else min)(x, y)


# ------------------------------------------------------------------ statements

IND = "    "


class S:
    pass


class Block(S):
    def __init__(self, items):
        self.items = items

    def lines(self):
        out = []
        for s in self.items:
            out += s.lines()
        return out

    def run(self, f):
        defers = []
        try:
            for s in self.items:
                f.m.tick()
                if isinstance(s, DeferS):
                    defers.append(s)
                else:
                    s.run(f)
        except (Thrown, Ret, Jump) as e:
            err = isinstance(e, Thrown)
            for d in reversed(defers):
                if d.kind == "" or (d.kind == ":err") == err:
                    d.body.run(f)
            raise
        for d in reversed(defers):
            if d.kind != ":err":
                d.body.run(f)


def braces(head, block):
    return [head + " {"] + [IND + l for l in block.lines()] + ["}"]


class DeferS(S):
    def __init__(self, kind, body):
        self.kind, self.body = kind, body

    def lines(self):
        return braces("defer" + self.kind, self.body)


class Let(S):
    """mut/let/ref/mut ref name[: T] = e"""

    def __init__(self, kw, name, t, e, annot=False, init=True):
        self.kw, self.name, self.t, self.e, self.annot, self.init = kw, name, t, e, annot, init

    def lines(self):
        a = ": " + tname(self.t) if self.annot else ""
        if not self.init:
            return ["%s %s%s;" % (self.kw, self.name, a)]
        return ["%s %s%s = %s;" % (self.kw, self.name, a, self.e.fu())]

    def run(self, f):
        if not self.init:
            f.vars[self.name] = Slot([zero(self.t)], 0)
        elif self.kw.endswith("ref"):
            f.vars[self.name] = self.e.place(f)
        else:
            f.vars[self.name] = Slot([cp(self.e.ev(f))], 0)


class Assign(S):
    def __init__(self, p, e):
        self.p, self.e = p, e

    def lines(self):
        return ["%s = %s;" % (self.p.fu(), self.e.fu())]

    def run(self, f):
        p = self.p.place(f)
        v = cp(self.e.ev(f))
        p.set(v)


class OpAssign(S):
    def __init__(self, p, op, e):
        self.p, self.op, self.e = p, op, e

    def lines(self):
        return ["%s %s= %s;" % (self.p.fu(), self.op, self.e.fu())]

    def run(self, f):
        p = self.p.place(f)
        v = cp(self.e.ev(f))
        if self.op == "~":
            old = p.get()
            if isinstance(old, list):
                add = v if self.e.t == self.p.t else [v]
                f.m.keep(old)
                old.extend(add)
            else:
                p.set(f.m.keep(old + v))
        else:
            p.set(binop(self.op, self.p.t, p.get(), v))


class ExprS(S):
    def __init__(self, e):
        self.e = e

    def lines(self):
        s = self.e.fu()
        if s.startswith("(") and isinstance(self.e, MutE):
            s = s[1:-1]
        return [s + ";"]

    def run(self, f):
        self.e.ev(f)


class ArrOp(S):
    """push, unshift, insert, splice, pop, shift, clear, shrink, resize, swap, reverse, sort, remove"""

    def __init__(self, op, p, args):
        self.op, self.p, self.args = op, p, args

    def lines(self):
        return ["%s.%s(%s);" % (self.p.fu(), self.op, ", ".join(a.fu() for a in self.args))]

    def run(self, f):
        p = self.p.place(f)
        a = [cp(x.ev(f)) for x in self.args]
        v = p.get()
        n = len(v)
        s = isinstance(v, bytes)
        w = bytearray(v) if s else v
        op = self.op
        f.m.keep(v)
        if op == "push":
            w.append(a[0])
        elif op == "unshift":
            w.insert(0, a[0])
        elif op == "insert":
            if not 0 <= a[0] <= n:
                raise Discard("oob")
            w.insert(a[0], a[1])
        elif op == "splice":
            if not (0 <= a[0] <= n and 0 <= a[1] <= n - a[0]):
                raise Discard("oob")
            w[a[0]:a[0] + a[1]] = a[2] if len(a) > 2 else []
        elif op in ("pop", "shift"):
            if not n:
                raise Discard("empty")
            w.pop(-1 if op == "pop" else 0)
        elif op == "clear":
            w.clear()
        elif op == "shrink":
            if not 0 <= a[0] <= n:
                raise Discard("oob")
            del w[a[0]:]
        elif op == "resize":
            if not 0 <= a[0] <= 200:
                raise Discard("size")
            if a[0] < n:
                del w[a[0]:]
            else:
                w.extend(zero(self.p.t[1]) for _ in range(a[0] - n))
        elif op == "swap":
            if not (0 <= a[0] < n and 0 <= a[1] < n):
                raise Discard("oob")
            w[a[0]], w[a[1]] = w[a[1]], w[a[0]]
        elif op == "reverse":
            w.reverse()
        elif op == "sort":
            if self.p.t == ("arr", "str"):
                w.sort(key=lambda x: (len(x), x))
            else:
                w.sort()
        if s:
            p.set(bytes(w))


class If(S):
    def __init__(self, c, a, b=None):
        self.c, self.a, self.b = c, a, b

    def lines(self):
        c = self.c.fu()
        head = "if " + c if c.startswith("(") and isinstance(self.c, (Bin, Logic)) else "if (%s)" % c
        out = braces(head, self.a)
        if self.b is not None:
            out += braces("else", self.b)
        return out

    def run(self, f):
        if truthy(self.c.ev(f)):
            self.a.run(f)
        elif self.b is not None:
            self.b.run(f)


class For(S):
    """for (mut i = 0; i < n; i++), forms up/down/while/array."""

    def __init__(self, form, var, n, body, label=None):
        self.form, self.var, self.n, self.body, self.label = form, var, n, body, label

    def lines(self):
        l = ":%s " % self.label if self.label else ""
        v, n = self.var, self.n.fu()
        if self.form == "up":
            return braces("%sfor (mut %s = 0; %s < %s; %s++)" % (l, v, v, n, v), self.body)
        if self.form == "down":
            return braces("%sfor (mut %s = %s; %s --> 0; )" % (l, v, n, v), self.body)
        return ["mut %s = %s;" % (v, n)] + braces("%swhile (%s --> 0)" % (l, v), self.body)

    def run(self, f):
        box = Slot([0 if self.form == "up" else self.n.ev(f)], 0)
        f.vars[self.var] = box
        while True:
            f.m.tick()
            if self.form == "up":
                if not box.get() < self.n.ev(f):
                    return
            else:
                v = box.get()
                box.set(v - 1)
                if not v > 0:
                    return
            try:
                self.body.run(f)
            except Jump as j:
                if j.target is not self:
                    raise
                if j.kind == "break":
                    return
            if self.form == "up":
                box.set(box.get() + 1)


class Each(S):
    """a.each: |mut? ref x| { } - the lambda's `return` leaves the enclosing function."""

    def __init__(self, a, var, body, label=None, isref=False):
        self.a, self.var, self.body, self.label, self.isref = a, var, body, label, isref

    def lines(self):
        l = ":%s " % self.label if self.label else ""
        r = "mut ref " if self.isref else ""
        return braces("%s%s.each: |%s%s|" % (l, self.a.fu(), r, self.var), self.body)

    def run(self, f):
        v = self.a.ev(f)
        i = 0
        while i < len(v):
            f.m.tick()
            f.vars[self.var] = Slot(v, i) if isinstance(v, list) else Slot([v[i]], 0)
            try:
                self.body.run(f)
            except Jump as j:
                if j.target is not self:
                    raise
                if j.kind == "break":
                    return
            i += 1


class Twice(S):
    """times(n): |i| { }: a generated higher-order function, labelled."""

    def __init__(self, n, var, body, label=None):
        self.n, self.var, self.body, self.label = n, var, body, label

    def lines(self):
        l = ":%s " % self.label if self.label else ""
        return braces("%stimes(%s): |%s|" % (l, self.n.fu(), self.var), self.body)

    def run(self, f):
        n = self.n.ev(f)
        for i in range(max(0, n)):
            f.m.tick()
            f.vars[self.var] = Slot([i], 0)
            try:
                self.body.run(f)
            except Jump as j:
                if j.target is not self:
                    raise
                if j.kind == "break":
                    return


class Scope(S):
    def __init__(self, body, label=None):
        self.body, self.label = body, label

    def lines(self):
        l = ":%s" % self.label if self.label else ""
        return [l + " {" if l else "{"] + [IND + x for x in self.body.lines()] + ["}"]

    def run(self, f):
        try:
            self.body.run(f)
        except Jump as j:
            if j.target is not self:
                raise


class JumpS(S):
    def __init__(self, kind, target, named):
        self.kind, self.target, self.named = kind, target, named

    def lines(self):
        return ["%s%s;" % (self.kind, " :" + self.target.label if self.named else "")]

    def run(self, f):
        raise Jump(self.kind, self.target)


class ReturnS(S):
    def __init__(self, e):
        self.e = e

    def lines(self):
        return ["return %s;" % self.e.fu()]

    def run(self, f):
        raise Ret(cp(self.e.ev(f)), f)


class ThrowS(S):
    def __init__(self, e):
        self.e = e

    def lines(self):
        return ["throw(%s);" % self.e.fu()]

    def run(self, f):
        raise Thrown(self.e.ev(f))


class Try(S):
    def __init__(self, a, var, b):
        self.a, self.var, self.b = a, var, b

    def lines(self):
        return braces("try", self.a) + braces("catch (%s)" % self.var, self.b)

    def run(self, f):
        try:
            self.a.run(f)
        except Thrown as e:
            f.vars[self.var] = Slot([e.msg], 0)
            self.b.run(f)


class Print(S):
    def __init__(self, items):
        self.items = items          # str or E

    def lines(self):
        return ["println(%s);" % ", ".join('"%s"' % i if isinstance(i, str) else i.fu() for i in self.items)]

    def run(self, f):
        f.m.out.append(b"".join(
            i.encode() if isinstance(i, str) else show_scalar(i.t, i.ev(f)) for i in self.items))


def show_scalar(t, v):
    if t == "str":
        return v
    if t == "bool":
        return b"1" if v else b"0"
    return str(v).encode()


class Show(E):
    """Text of any value through the generated show functions."""
    t = "str"

    def __init__(self, e):
        self.e = e

    def fu(self):
        return "show(%s)" % self.e.fu()

    def ev(self, f):
        return show(self.e.t, self.e.ev(f))


def show(t, v):
    if t == "str":
        return b"'" + v + b"'"
    if t in INTS or t == "bool":
        return show_scalar(t, v)
    if is_arr(t):
        return b"[" + b"".join(show(t[1], x) + b" " for x in v) + b"]"
    return b"{" + b"".join(show(ft, x) + b"," for (_, ft), x in zip(t[1].fields, v)) + b"}"


# ------------------------------------------------------------------ functions

class Fn:
    def __init__(self, name, params, ret, body, annot=True, ann_ret=True, kw=""):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.annot, self.ann_ret, self.kw = annot, ann_ret, kw
        self.defaults = []
        self.effects = any(k == "ref" for k, _, _ in params)
        self.throws = False
        self.prints = False
        self.calls = set()

    def lines(self):
        ps = []
        for k, n, t in self.params:
            pre = {"val": "", "mut": "mut ", "ref": "mut ref ", "cref": "ref "}[k]
            ps.append(pre + n + (": " + tname(t) if self.annot else ""))
        r = ": " + tname(self.ret) if self.ann_ret else ""
        return braces("%sfn %s(%s)%s" % (self.kw, self.name, ", ".join(ps), r), self.body)

    def run(self, g):
        try:
            self.body.run(g)
        except Ret as r:
            if r.frame is not g:
                raise
            return r.val
        raise Discard("no return in " + self.name)


# ------------------------------------------------------------------ generator

class Opt:
    """What the generated text may use (the two compilers differ in age)."""

    def __init__(self, old, alias=False):
        self.old, self.alias = old, alias


WORDS = [b"", b"a", b"b", b"ab", b"ba", b"aab", b"hello", b"some words here", b"fourteen chars",
         b"fifteen chars !", b"sixteen chars !!", b"a string well beyond any small capacity"]


class Gen:
    def __init__(self, rng, opt):
        self.r, self.opt = rng, opt
        self.structs = []
        self.fns = []
        self.uid = 0
        self.features = set()

    # -- small helpers
    def chance(self, p):
        return self.r.random() < p

    def name(self, p="v"):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def pick(self, xs):
        return self.r.choice(xs)

    def rtype(self, depth=0, weights=None):
        r = self.r.random()
        if r < .34:
            return "i32"
        if r < .50:
            return self.pick(["u32", "u8", "i64", "u64", "bool", "i16", "u16", "i8"])
        if r < .70:
            return "str"
        if r < .84 or depth > 0:
            return ("arr", self.pick(["i32", "i32", "str", "u8", "u32"]))
        if self.structs:
            s = ("st", self.pick(self.structs))
            return s if self.chance(.6) or depth > 0 else ("arr", s)
        return ("arr", "i32")

    def make_structs(self):
        for _ in range(self.r.randint(1, 3)):
            n = self.name("S")
            fs = []
            for i in range(self.r.randint(1, 4)):
                fs.append(("f%d" % i, self.rtype(1) if self.chance(.75) or not self.structs
                           else ("st", self.pick(self.structs))))
            self.structs.append(Struct(n, fs))

    def lit(self, t):
        r = self.r
        if t == "bool":
            return Lit(t, self.chance(.5))
        if t == "str":
            return Lit(t, self.pick(WORDS))
        if t in INTS:
            bits, signed = INTS[t]
            v = self.pick([0, 1, 2, 3, 5, 7, 10, 100, 127, r.randint(0, 50)])
            if self.chance(.1):
                v = r.randint(0, (1 << min(bits - 1, 31)) - 1)
            if signed and self.chance(.25):
                v = -v
            return Lit(t, wrap(t, v))
        if is_arr(t):
            n = self.pick([1, 2, 3, 3, 5])
            return ArrLit(t, [self.lit(t[1]) for _ in range(n)])
        return New(t, [self.lit(ft) for _, ft in t[1].fields])


class Ctx:
    """What is in scope at one point of a function under construction."""

    def __init__(self, gen, fn_ret, parent=None):
        self.gen, self.ret = gen, fn_ret
        self.vars = list(parent.vars) if parent else []        # (name, type, mutable)
        self.loops = list(parent.loops) if parent else []      # jump targets
        self.refs = list(parent.refs) if parent else []
        self.in_lambda = parent.in_lambda if parent else False
        self.in_defer = parent.in_defer if parent else False
        self.in_try = parent.in_try if parent else False
        self.depth = parent.depth + 1 if parent else 0
        self.fn = parent.fn if parent else None
        self.frozen = set(parent.frozen) if parent else set()  # names not to be written (iterated, guards)

    def find(self, t, mut=False):
        return [v for v in self.vars if v[1] == t and (not mut or (v[2] and v[0] not in self.frozen))]


class Builder:
    """Builds one function body."""

    def __init__(self, gen, fn):
        self.g, self.r, self.opt, self.fn = gen, gen.r, gen.opt, fn
        self.budget = 0

    # -- places
    def places(self, c, t, mut=True):
        out = []
        for n, vt, m in c.vars:
            if mut and (not m or n in c.frozen):
                continue
            self._paths(Var(n, vt), t, out, 2)
        return out

    def _paths(self, e, t, out, d):
        if e.t == t:
            out.append(e)
        if d and is_st(e.t):
            for i in range(len(e.t[1].fields)):
                self._paths(Field(e, i), t, out, d - 1)

    def arrays(self, c, t=None, mut=False):
        out = []
        for n, vt, m in c.vars:
            if mut and (not m or n in c.frozen):
                continue
            self._arrs(Var(n, vt), t, out, 2)
        return out

    def _arrs(self, e, t, out, d):
        if is_arr(e.t) and (t is None or e.t[1] == t):
            out.append(e)
        if d and is_st(e.t):
            for i in range(len(e.t[1].fields)):
                self._arrs(Field(e, i), t, out, d - 1)

    # -- expressions; pure: no calls with effects, no mutation
    def expr(self, c, t, d=3, pure=False):
        r = self.r.random()
        g = self.g
        if d <= 0:
            ps = self.places(c, t, mut=False)
            return self.pick(ps) if ps and g.chance(.75) else g.lit(t)
        if t in INTS:
            return self.int_expr(c, t, d, pure)
        if t == "bool":
            return self.cond(c, d, pure)
        if t == "str":
            return self.str_expr(c, d, pure)
        if is_arr(t):
            return self.arr_expr(c, t, d, pure)
        if r < .55:
            ps = self.places(c, t, mut=False)
            if ps:
                return self.pick(ps)
        if r < .70 and not pure:
            e = self.call(c, t, d)
            if e:
                return e
        if r < .78:
            return Ternary(self.cond(c, d - 1, pure), self.expr(c, t, d - 2, pure), self.expr(c, t, d - 2, pure))
        g.features.add("struct value")
        return New(t, [self.expr(c, ft, d - 2, pure) for _, ft in t[1].fields])

    def pick(self, xs):
        return self.r.choice(xs)

    def int_expr(self, c, t, d, pure):
        g = self.g
        r = self.r.random()
        if r < .22:
            ps = self.places(c, t, mut=False)
            if ps:
                return self.pick(ps)
        if r < .30:
            return g.lit(t)
        if r < .52:
            op = self.pick(["+", "+", "-", "*", "&", "|", "^"])
            a, b = self.expr(c, t, d - 1, pure), self.expr(c, t, d - 1, pure)
            if INTS[t][1] and op == "*":
                a = Bin("&", a, Lit(t, 63))
                b = Bin("&", b, Lit(t, 15))
            return Bin(op, a, b)
        if r < .58:
            op = self.pick(["/", "%", "<<", ">>"])
            a = self.expr(c, t, d - 1, pure)
            if op == "<<" and INTS[t][1]:
                a = Bin("&", a, Lit(t, 63))
            b = Lit(t, self.r.randint(1, 7)) if g.chance(.6) else Bin("|", Bin("&", self.expr(c, t, d - 2, pure), Lit(t, 7)), Lit(t, 1))
            return Bin(op, a, b)
        if r < .63:
            return Un(self.pick(["-", "~"]), self.expr(c, t, d - 1, pure))
        if r < .70:
            src = self.pick([x for x in INTS if x != t])
            return Conv(t, self.paren(self.expr(c, src, d - 2, pure)))
        if r < .77:
            ars = self.arrays(c, t)
            if ars:
                a = self.pick(ars)
                k = Lit("i32", self.r.randint(0, 4))
                g.features.add("guarded index")
                return Ternary(Bin(">", Len(a), k), Index(a, k), self.expr(c, t, d - 2, pure))
        if r < .81 and t == "i32":
            xs = self.arrays(c) + self.places(c, "str", mut=False)
            if xs:
                return Len(self.pick(xs))
        if r < .83 and t == "i32":
            a = self.places(c, "str", mut=False)
            if a:
                g.features.add("find")
                return FindE("find", self.pick(a), self.nonempty(c, d))
        if r < .92 and not pure:
            e = self.call(c, t, d)
            if e:
                return e
        if r < .96 and not pure:
            ps = [p for p in self.places(c, t)]
            if ps and not INTS[t][0] < 32:
                p = self.pick(ps)
                g.features.add("mutation inside expression")
                f = self.pick(["post", "pre", "op"])
                if f == "op":
                    return MutE("op", p, self.pick(["^", "&", "|"]), self.expr(c, t, d - 2, True))
                return MutE(f, p, self.pick(["++", "--"]))
        if r < .98:
            return MinMax(self.pick(["min", "max"]), self.paren(self.expr(c, t, d - 1, pure)), self.expr(c, t, d - 2, pure))
        return Ternary(self.cond(c, d - 1, pure), self.expr(c, t, d - 1, pure), self.expr(c, t, d - 1, pure))

    def paren(self, e):
        return e

    def nonempty(self, c, d):
        return Lit("str", self.pick([w for w in WORDS[1:6]]))

    def cond(self, c, d, pure=False):
        g = self.g
        r = self.r.random()
        if r < .5 or d <= 0:
            t = self.pick(["i32", "i32", "u32", "i64", "u8"])
            a = self.nonlit(c, t, d - 1, pure)
            b = self.expr(c, t, d - 2, pure)
            op = self.pick(["<", ">", "<=", ">=", "==", "!="])
            if b.fu() in a.fu() or a.fu() in b.fu() or (t[0] == "u" and isinstance(b, Lit)):
                b = Lit(t, self.r.randint(1, 60))
            return Bin(op, a, b)
        if r < .62:
            return Logic(self.pick(["&&", "||"]), self.cond(c, d - 1, pure), self.cond(c, d - 2, pure))
        if r < .68:
            return Un("!", self.cond(c, d - 1, pure))
        if r < .80:
            ps = self.places(c, "str", mut=False)
            if ps:
                k = self.pick(["==", "!=", "<", ">", "has", "starts", "ends"])
                a = self.pick(ps)
                if k in ("has", "starts", "ends"):
                    g.features.add(k)
                    return FindE(k, a, self.nonempty(c, d))
                b = self.expr(c, "str", d - 2, True)
                return Bin(k, a, b if b.fu() != a.fu() else self.g.lit("str"))
        if r < .88:
            ars = self.arrays(c, "i32")
            if ars:
                v = g.name("q")
                a = self.pick(ars)
                cc = Ctx(g, c.ret, c)
                cc.vars.append((v, "i32", False))
                g.features.add("all/some")
                return QuantE(self.pick(["all", "some"]), a, v, Bin(self.pick(["<", ">", "!="]), Var(v, "i32"), self.expr(cc, "i32", 1, True)))
        if r < .92:
            ars = [a for a in self.arrays(c) if a.t[1] in INTS or a.t[1] == "str"]
            if ars:
                a = self.pick(ars)
                g.features.add("array compare")
                b = [x for x in ars if x.t == a.t]
                b = [x for x in b if x.fu() != a.fu()]
                if b:
                    return Bin(self.pick(["==", "!="]), a, self.pick(b))
        ps = self.places(c, "bool", mut=False)
        if ps:
            return self.pick(ps)
        return self.cond(c, 0, pure)

    def nonlit(self, c, t, d, pure):
        for _ in range(6):
            e = self.expr(c, t, max(d, 0), pure)
            if not isinstance(e, Lit):
                return e
        ps = self.places(c, t, mut=False)
        if ps:
            return self.pick(ps)
        return Conv(t, self.places(c, "i32", mut=False)[0])

    def str_expr(self, c, d, pure):
        g = self.g
        r = self.r.random()
        if r < .28:
            ps = self.places(c, "str", mut=False)
            if ps:
                return self.pick(ps)
        if r < .36:
            return g.lit("str")
        if r < .58:
            a = self.expr(c, "str", d - 1, pure)
            b = self.expr(c, "str", d - 1, pure)
            return Cat(a, b, "str")
        if r < .66:
            return ToStr(self.paren(self.expr(c, self.pick(["i32", "u32", "i64", "u64", "u8", "bool"]), d - 2, pure)))
        if r < .76:
            ps = self.places(c, "str", mut=False)
            if ps:
                a = self.pick(ps)
                k = self.r.randint(0, 6)
                form = self.r.randint(0, 2)
                lo, hi = Lit("i32", self.r.randint(0, k)), Lit("i32", k)
                need = hi if form != 1 else lo
                g.features.add("slice")
                # a slice is a view: concatenating makes it a string of its own
                s = Cat(Slice(a, form, lo, hi), g.lit("str"), "str")
                return Ternary(Bin(">=", Len(a), need), s, self.expr(c, "str", d - 2, pure))
        if r < .82:
            ars = self.arrays(c, "str")
            if ars:
                a = self.pick(ars)
                if g.chance(.5):
                    g.features.add("join")
                    return JoinE(a, Lit("str", self.pick([b", ", b"-", b"", b"sep"])))
                k = Lit("i32", self.r.randint(0, 3))
                return Ternary(Bin(">", Len(a), k), Index(a, k), self.expr(c, "str", d - 2, pure))
        if r < .85:
            ps = self.places(c, "str", mut=False)
            if ps:
                g.features.add("replace")
                return ReplE(self.pick(ps), self.nonempty(c, d), g.lit("str"))
        if r < .95 and not pure:
            e = self.call(c, "str", d)
            if e:
                return e
        return Ternary(self.cond(c, d - 1, pure), self.expr(c, "str", d - 1, pure), self.expr(c, "str", d - 1, pure))

    def arr_expr(self, c, t, d, pure):
        g = self.g
        r = self.r.random()
        if r < .35:
            ps = self.places(c, t, mut=False)
            if ps:
                return self.pick(ps)
        if r < .55:
            a = self.expr(c, t, d - 1, pure)
            if g.chance(.5):
                b = self.expr(c, t, d - 1, pure)
            else:
                b = self.expr(c, t[1], d - 1, pure)
            if is_arr(a.t) and (isinstance(a, ArrLit) and isinstance(b, ArrLit)):
                return a
            g.features.add("array concat")
            if b.t == t and g.chance(.5):
                a, b = b, a
            return Cat(a, b, t)
        if r < .65 and t == ("arr", "i32"):
            ars = self.arrays(c, "i32")
            if ars:
                v = g.name("m")
                cc = Ctx(g, c.ret, c)
                cc.vars.append((v, "i32", False))
                g.features.add("map")
                return MapE(self.pick(ars), v, Bin(self.pick(["^", "&", "|"]), Var(v, "i32"), self.expr(cc, "i32", 1, True)))
        if r < .75 and not pure:
            e = self.call(c, t, d)
            if e:
                return e
        if r < .80:
            return Ternary(self.cond(c, d - 1, pure), self.expr(c, t, d - 2, pure), self.expr(c, t, d - 2, pure))
        n = self.pick([1, 2, 3])
        return ArrLit(t, [self.expr(c, t[1], d - 2, pure) for _ in range(n)])

    def call(self, c, t, d):
        g = self.g
        cands = [f for f in g.fns if f.ret == t and self.callable(c, f)]
        if not cands:
            return None
        f = self.pick(cands)
        args = self.args(c, f, d)
        if args is None:
            return None
        self.note_call(f)
        pure = not f.effects
        style = 0
        if args and g.chance(.2) and not isinstance(args[0], (ArrLit, New)) and not (isinstance(args[0], Lit) and args[0].t not in ("str",)):
            style = 1
            g.features.add("method call")
        elif len(args) > 1 and f.annot and pure and g.chance(.15):
            order = list(range(len(args)))
            self.r.shuffle(order)
            if all(simple(a) for a in args):
                style = 2
                g.features.add("named args")
                return CallE(f, args, 2, order)
        return CallE(f, args, style)

    def note_call(self, f):
        self.fn.calls.add(f.name)
        self.fn.throws |= f.throws
        self.fn.prints |= f.prints

    def callable(self, c, f):
        if f.throws and c.in_defer:
            return False
        if f.throws and not (c.in_try or self.fn.may_throw):
            return False
        return True

    def args(self, c, f, d):
        g = self.g
        out = []
        used = []
        for k, n, t in f.params:
            if k == "ref":
                ps = self.places(c, t)
                if not self.opt.alias:
                    ps = [p for p in ps if root(p) not in used]
                if not ps:
                    return None
                p = self.pick(ps)
                used.append(root(p))
                out.append(p)
            else:
                out.append(None)
        for i, (k, n, t) in enumerate(f.params):
            if out[i] is None:
                cc = c
                if used and not self.opt.alias:
                    # what is passed by reference is not read by the other arguments
                    cc = Ctx(g, c.ret, c)
                    cc.vars = [v for v in c.vars if v[0] not in used]
                    if not [v for v in cc.vars if v[1] == "i32"]:
                        out[i] = g.lit(t)
                        continue
                out[i] = self.expr(cc, t, d - 2, pure=not self.opt.alias and bool(used))
        return out

    # -- statements
    def block(self, c, n):
        items = []
        cc = Ctx(self.g, c.ret, c)
        mine = len(cc.vars)
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            s = self.stmt(cc)
            if s is None:
                continue
            items += s if isinstance(s, list) else [s]
            if isinstance(items[-1], (ReturnS, JumpS, ThrowS)):
                break
        jumped = items and isinstance(items[-1], (ReturnS, JumpS, ThrowS))
        # what was declared here is shown, or at least used
        if not jumped:
            items += self.uses(cc, mine)
        else:
            items = items[:-1] + self.uses(cc, mine) + items[-1:]
        if not items:
            items = [self.use_one(cc, self.pick(cc.vars))]
        return Block(items)

    def uses(self, cc, mine):
        out = []
        for v in cc.vars[mine:]:
            out.append(self.use_one(cc, v))
        return out

    def use_one(self, c, v):
        """Reads v into the trace."""
        self.fn.prints = True
        return Print(["%s=" % v[0], Show(Var(v[0], v[1]))])

    def stmt(self, c):
        g = self.g
        r = self.r.random()
        if r < .22:
            return self.decl(c)
        if r < .40:
            return self.assign(c)
        if r < .54:
            return self.arrop(c)
        if r < .64:
            return self.if_(c)
        if r < .78 and c.depth < 5:
            return self.loop(c)
        if r < .83:
            return self.call_stmt(c)
        if r < .87:
            return self.try_(c)
        if r < .905:
            return self.defer(c)
        if r < .93:
            return self.jump(c)
        if r < .945 and c.depth > 1 and not c.in_defer:
            return [If(self.cond(c, 2), Block([ReturnS(self.expr(c, c.ret, 2))]))]
        if r < .955 and (self.fn.may_throw or c.in_try) and not c.in_defer and c.depth > 1:
            self.fn.throws = self.fn.throws or not c.in_try
            g.features.add("throw")
            return [If(self.cond(c, 2), Block([ThrowS(self.expr(c, "str", 2, True))]))]
        if r < .97:
            s = Scope(None, g.name("B"))
            cc = Ctx(g, c.ret, c)
            cc.loops.append(s)
            s.body = self.block(cc, self.r.randint(1, 3))
            s.label = g.name("B")
            if not uses_label(s.body, s):
                return If(self.cond(c, 2), s.body)
            return s
        if c.vars:
            return self.use_one(c, self.pick(c.vars))
        return None

    def decl(self, c):
        g = self.g
        t = g.rtype()
        n = g.name()
        r = self.r.random()
        if r < .12:
            v = (n, t, True)
            c.vars.append(v)
            return Let("mut", n, t, None, annot=True, init=False)
        if r < .26 and not c.in_lambda:
            # a reference to a part of something
            ps = [p for p in self.places(c, t) if not isinstance(p, Var)]
            ps2 = self.places(c, t) if self.opt.alias else ps
            if ps2:
                p = self.pick(ps2)
                g.features.add("ref")
                if self.opt.alias:
                    c.vars.append((n, t, True))
                    return Let("ref", n, t, p)
        e = self.expr(c, t, 3)
        if isinstance(e, ArrLit) or t not in ("i32", "bool", "str"):
            annot = g.chance(.4) or has_empty(e) or isinstance(e, (ArrLit, Cat))
        else:
            annot = g.chance(.3)
        mut = g.chance(.7)
        c.vars.append((n, t, mut))
        return Let("mut" if mut else "let", n, t, e, annot=annot)

    def assign(self, c):
        g = self.g
        muts = [v for v in c.vars if v[2] and v[0] not in c.frozen]
        if not muts:
            return self.decl(c)
        v = self.pick(muts)
        cands = []
        e = Var(v[0], v[1])
        self._all_places(e, cands, 2)
        p = self.pick(cands)
        t = p.t
        r = self.r.random()
        if t in INTS and r < .45:
            op = self.pick(["+", "-", "^", "|", "&"])
            rhs = self.expr(c, t, 2)
            return OpAssign(p, op, rhs)
        if t in INTS and r < .55:
            return ExprS(MutE("post", p, self.pick(["++", "--"])))
        if (t == "str" or is_arr(t)) and r < .5:
            if is_arr(t) and g.chance(.5):
                rhs = self.expr(c, t[1], 2)
            else:
                rhs = self.expr(c, t, 2)
            g.features.add("append")
            return OpAssign(p, "~", rhs)
        ars = self.arrays(c, mut=True)
        if ars and r < .75:
            a = self.pick(ars)
            k = Lit("i32", self.r.randint(0, 4))
            el = Index(a, k)
            et = el.t
            g.features.add("element write")
            if is_st(et) and g.chance(.6):
                el = Field(el, self.r.randrange(len(et[1].fields)))
            if el.t in INTS and g.chance(.4):
                st = OpAssign(el, self.pick(["+", "^", "-"]), self.expr(c, el.t, 2, pure=True))
            else:
                st = Assign(el, self.expr(c, el.t, 2, pure=True))
            return If(Bin(">", Len(a), k), Block([st]))
        return Assign(p, self.expr(c, t, 3))

    def _all_places(self, e, out, d):
        out.append(e)
        if d and is_st(e.t):
            for i in range(len(e.t[1].fields)):
                self._all_places(Field(e, i), out, d - 1)

    def arrop(self, c):
        g = self.g
        ars = self.arrays(c, mut=True)
        if not ars:
            return self.assign(c)
        a = self.pick(ars)
        t = a.t[1]
        op = self.pick(["push", "push", "unshift", "insert", "splice", "pop", "shift", "clear", "shrink",
                        "resize", "swap", "reverse", "sort", "splice3"])
        g.features.add(op)
        K = lambda n: Lit("i32", self.r.randint(0, n))
        if op in ("push", "unshift"):
            return ArrOp(op, a, [self.expr(c, t, 2)])
        if op == "insert":
            k = K(3)
            return If(Bin(">=", Len(a), k), Block([ArrOp("insert", a, [k, self.expr(c, t, 2, True)])]))
        if op in ("splice", "splice3"):
            k, n = self.r.randint(0, 3), self.r.randint(0, 3)
            args = [Lit("i32", k), Lit("i32", n)]
            if op == "splice3":
                others = [x for x in self.places(c, a.t, mut=False) if root(x) != root(a)]
                if not others:
                    return None
                args.append(self.pick(others))
            return If(Bin(">=", Len(a), Lit("i32", k + n + 1)), Block([ArrOp("splice", a, args)]))
        if op in ("pop", "shift"):
            return If(Len(a), Block([ArrOp(op, a, [])]))
        if op == "clear":
            return ArrOp(op, a, [])
        if op == "shrink":
            k = K(4)
            return If(Bin(">", Len(a), k), Block([ArrOp("shrink", a, [k])]))
        if op == "resize":
            return ArrOp("resize", a, [Lit("i32", self.r.randint(0, 9))])
        if op == "swap":
            i, j = K(3), K(3)
            return If(Bin(">", Len(a), Lit("i32", max(i.v, j.v))), Block([ArrOp("swap", a, [i, j])]))
        if op == "sort":
            if t in INTS or t == "str":
                return ArrOp("sort", a, [])
            return ArrOp("reverse", a, [])
        return ArrOp("reverse", a, [])

    def if_(self, c):
        a = self.block(c, self.r.randint(1, 3))
        b = self.block(c, self.r.randint(1, 2)) if self.g.chance(.45) else None
        return If(self.cond(c, 3), a, b)

    def loop(self, c):
        g = self.g
        r = self.r.random()
        label = g.name("L")
        cc = Ctx(g, c.ret, c)
        if r < .5:
            form = self.pick(["up", "up", "down", "while"])
            v = g.name("k")
            if form == "up" and g.chance(.3) and self.arrays(c):
                a = self.pick(self.arrays(c))
                n = Len(a)
                cc.frozen.add(root(a))
            else:
                n = Lit("i32", self.r.randint(1, 5))
            cc.vars.append((v, "i32", False))
            s = For(form, v, n, None, label)
            if form == "while":
                c.vars.append((v, "i32", False))
            g.features.add("for " + form)
        elif r < .8:
            ars = self.arrays(c)
            if not ars:
                return None
            a = self.pick(ars)
            v = g.name("x")
            cc.frozen.add(root(a))
            cc.vars.append((v, a.t[1], False))
            cc.in_lambda = True
            s = Each(a, v, None, label)
            g.features.add("each")
        else:
            v = g.name("n")
            cc.vars.append((v, "i32", False))
            cc.in_lambda = True
            s = Twice(Lit("i32", self.r.randint(1, 4)), v, None, label)
            g.features.add("higher order")
        cc.loops.append(s)
        s.body = self.block(cc, self.r.randint(1, 4))
        if isinstance(s, (Each, Twice)) and not reads(s.body, s.var):
            s.body.items.insert(0, self.use_one(cc, (s.var, dict((x[0], x[1]) for x in cc.vars)[s.var], False)))
        if not uses_label(s.body, s):
            s.label = None
        return s

    def jump(self, c):
        g = self.g
        if not c.loops or c.in_defer:
            return None
        target = self.pick(c.loops)
        plain = [x for x in c.loops if isinstance(x, For)]
        kind = "break" if isinstance(target, Scope) else self.pick(["break", "continue"])
        named = not (target is c.loops[-1] and isinstance(target, For)) or g.chance(.3)
        if c.loops[-1] is not target or not isinstance(target, For):
            named = True
        g.features.add(kind + (" label" if named else ""))
        return [If(self.cond(c, 2), Block([JumpS(kind, target, named)]))]

    def call_stmt(self, c):
        g = self.g
        cands = [f for f in g.fns if f.effects and self.callable(c, f)]
        if not cands:
            return None
        f = self.pick(cands)
        args = self.args(c, f, 3)
        if args is None:
            return None
        self.note_call(f)
        n = g.name()
        c.vars.append((n, f.ret, g.chance(.5)))
        g.features.add("call by reference")
        return Let("mut" if c.vars[-1][2] else "let", n, f.ret, CallE(f, args))

    def try_(self, c):
        g = self.g
        if c.in_defer or c.in_lambda:
            return None
        cc = Ctx(g, c.ret, c)
        cc.in_try = True
        before = self.fn.throws
        a = self.block(cc, self.r.randint(1, 3))
        if not can_throw(a):
            a.items.insert(0, If(self.cond(c, 2, True), Block([ThrowS(self.expr(c, "str", 2, True))])))
            self.g.features.add("throw")
        self.fn.throws = before
        v = g.name("e")
        c2 = Ctx(g, c.ret, c)
        c2.vars.append((v, "str", False))
        b = self.block(c2, self.r.randint(1, 2))
        b.items.insert(0, self.use_one(c2, (v, "str", False)))
        g.features.add("try")
        return Try(a, v, b)

    def defer(self, c):
        g = self.g
        if c.in_defer or c.in_lambda:
            return None
        cc = Ctx(g, c.ret, c)
        cc.in_defer = True
        cc.loops = []
        cc.in_try = False
        save = self.fn.may_throw
        self.fn.may_throw = False
        b = self.block(cc, self.r.randint(1, 2))
        self.fn.may_throw = save
        kind = self.pick(["", "", ":ok", ":err"])
        if kind == ":err" and not (self.fn.may_throw or c.in_try):
            kind = ""
        g.features.add("defer" + kind)
        return DeferS(kind, b)


def simple(e):
    return isinstance(e, (Lit, Var, Field, Len))


def root(e):
    while isinstance(e, (Field, Index)):
        e = e.base
    return e.name if isinstance(e, Var) else None


def has_empty(e):
    return isinstance(e, ArrLit) and not e.items


def walk(n):
    yield n
    for v in vars(n).values() if hasattr(n, "__dict__") else ():
        if isinstance(v, (E, S)):
            if isinstance(n, JumpS):
                continue
            yield from walk(v)
        elif isinstance(v, (list, tuple)):
            for x in v:
                if isinstance(x, (E, S)):
                    yield from walk(x)


class Effects:
    """What evaluating an expression reads, writes and shows; `clash` says that two parts of one
    expression, which the language evaluates in no promised order, would be told apart by the order."""

    def __init__(self, alias=None):
        self.alias = alias or {}

    def root(self, e):
        r = root(e)
        return self.alias.get(r, r)

    def of(self, e):
        """(reads, writes, loud, clash): loud means prints or throws."""
        if isinstance(e, (Var, Field)):
            r = self.root(e)
            if r is not None:
                return {r}, set(), False, False
        kids = [k for k in vars(e).values() if isinstance(k, E)]
        for v in vars(e).values():
            if isinstance(v, (list, tuple)):
                kids += [k for k in v if isinstance(k, E)]
        parts = [self.of(k) for k in kids]
        rd, wr, loud, clash = set(), set(), False, False
        ordered = isinstance(e, (Logic, Ternary))
        own = set()
        if isinstance(e, MutE):
            own = {self.root(e.p)}
        elif isinstance(e, CallE):
            own = {self.root(a) for (k, _, _), a in zip(e.fn.params, e.args) if k == "ref"}
            # the parts passed by reference are written by the call, after its arguments
            if len(own) != sum(k == "ref" for k, _, _ in e.fn.params):
                clash = clash or not self.alias.get("*")
        for i, (r, w, l, c) in enumerate(parts):
            clash = clash or c
            for r2, w2, l2, _ in parts[:i]:
                if ordered:
                    continue
                if w & (r2 | w2) or w2 & r or (l and (l2 or w2)) or (l2 and w):
                    clash = True
            rd |= r
            wr |= w
            loud = loud or l
        if wr & own:
            clash = True
        if own and isinstance(e, MutE) and e.e is not None and self.root(e.p) in self.of(e.e)[0]:
            clash = True
        if isinstance(e, CallE):
            loud = loud or e.fn.prints or e.fn.throws
            # a value argument that reads what is passed by reference: copied first, or read later?
            for (k, _, _), a in zip(e.fn.params, e.args):
                if k != "ref" and own & self.of(a)[0]:
                    clash = clash or not self.alias.get("*")
        return rd | own, wr | own, loud, clash


def order_matters(fn, alias_mode=False):
    """Does any statement of fn's body depend on an order of evaluation that is not promised?"""
    al = {}
    if alias_mode:
        al["*"] = True
        for k, n, t in fn.params:
            if k == "ref":
                al[n] = "&"
        for n in walk(fn.body):
            if isinstance(n, Let) and n.init and n.kw.endswith("ref"):
                al[n.name] = "&"
        # what a reference may denote: be conservative, every name of a referred root is that reference
        for n in walk(fn.body):
            if isinstance(n, Let) and n.init and n.kw.endswith("ref") and root(n.e):
                al[root(n.e)] = "&"
    ef = Effects(al)
    for n in walk(fn.body):
        if not isinstance(n, S):
            continue
        es = [x for x in vars(n).values() if isinstance(x, E)]
        for v in vars(n).values():
            if isinstance(v, (list, tuple)):
                es += [x for x in v if isinstance(x, E)]
        parts = [ef.of(x) for x in es]
        if any(c for _, _, _, c in parts):
            return True
        for i, (r, w, l, _) in enumerate(parts):
            for r2, w2, l2, _ in parts[:i]:
                if isinstance(n, Assign) and isinstance(n.p, Var):
                    continue
                if w & (r2 | w2) or w2 & r or (l and (l2 or w2)) or (l2 and w):
                    return True
    return False


def writes_in(block):
    """Roots of what the statements of a block may write."""
    out = set()
    for n in walk(block):
        if isinstance(n, (Assign, OpAssign, ArrOp, MutE)):
            out.add(root(n.p))
        elif isinstance(n, CallE):
            out |= {root(a) for (k, _, _), a in zip(n.fn.params, n.args) if k == "ref"}
    return out


def returns_deferred(fn):
    """Does fn return something that a deferred block goes on to write? A known defect (see
    known_findings.json): what is returned by reference is read after the deferred write."""
    w = set()
    for n in walk(fn.body):
        if isinstance(n, DeferS):
            w |= writes_in(n.body)
    if not w:
        return False
    lets = {n.name: n for n in walk(fn.body) if isinstance(n, Let) and n.init}
    for n in walk(fn.body):
        if isinstance(n, ReturnS):
            todo = [n.e]
            seen = set()
            while todo:
                for m in walk(todo.pop()):
                    if isinstance(m, Var) and m.name not in seen:
                        seen.add(m.name)
                        if m.name in lets:
                            todo.append(lets[m.name].e)
            if seen & w:
                return True
    return False


def uses_label(body, target):
    return any(isinstance(n, JumpS) and n.target is target and n.named for n in walk(body))


def reads(body, name):
    return any(isinstance(n, Var) and n.name == name for n in walk(body))


def can_throw(body):
    return any(isinstance(n, ThrowS) or (isinstance(n, CallE) and n.fn.throws) for n in walk(body))


# ------------------------------------------------------------------ whole programs

def show_fns(structs):
    """show() for everything that can be shown, in fu."""
    out = ["fn show(x: string): string { return \"'\" ~ x ~ \"'\"; }",
           "fn show(x: bool): string { return x.str; }"]
    for t in INTS:
        out.append("fn show(x: %s): string { return x.str; }" % t)
    arrs = ["i32", "string", "u8", "u32"]

    def arr(t):
        out.append("fn show(x: %s[]): string { mut res = \"[\"; for (mut i = 0; i < x.len; i++) res ~= show(x[i]) ~ \" \"; return res ~ \"]\"; }" % t)
    for t in arrs:
        arr(t)
    for s in structs:
        body = " ~ ".join('show(x.%s) ~ ","' % n for n, _ in s.fields)
        out.append("fn show(x: %s): string { return \"{\" ~ %s ~ \"}\"; }" % (s.name, body))
        arr(s.name)
    return out


HEAD = ["fn times(n: i32, visit) { for (mut i = 0; i < n; i++) visit(i); }"]


class Program:
    def __init__(self, gen, calls):
        self.gen, self.calls = gen, calls


def evaluate(call):
    m = Machine()
    f = Frame(m, None)
    try:
        v = call.ev(f)
        m.out.append(v)
    except Thrown as e:
        m.out.append(b"threw " + e.msg)
    except (Ret, Jump):
        raise Discard("escape")
    except RecursionError:
        raise Discard("recursion")
    return b"".join(x + b"\n" for x in m.out)


def make_fn(g, i):
    r = g.r
    params = []
    for _ in range(r.randint(1, 4)):
        t = g.rtype()
        k = r.choices(["val", "mut", "ref"], [5, 2, 3])[0]
        params.append((k, g.name("p"), t))
    if not any(t == "i32" and k != "ref" for k, _, t in params):
        params.append(("val", g.name("p"), "i32"))
    ret = g.rtype()
    fn = Fn("fn%d" % i, params, ret, None)
    fn.may_throw = g.chance(.35)
    fn.annot = not g.chance(.2)
    fn.ann_ret = not g.chance(.25) or not fn.annot
    fn.kw = g.r.choices(["", "inline ", "noinline "], [7, 1, 2])[0]
    b = Builder(g, fn)
    b.budget = r.randint(4, 22)
    c = Ctx(g, ret)
    c.fn = fn
    c.vars = [(n, t, k != "val") for k, n, t in params]
    body = b.block(c, r.randint(3, 9))
    # parameters must be used
    pre = []
    for k, n, t in params:
        if not reads(body, n):
            pre.append(b.use_one(c, (n, t, k)))
    # a mutable reference is written through, at one end of the body or the other
    post = []
    for k, n, t in params:
        if k == "ref":
            v = Var(n, t)
            w = Assign(v, g.lit(t))
            if t in INTS:
                w = OpAssign(v, g.pick(["+", "-", "*"]) if t[0] == "i" else "+", Lit(t, r.randint(1, 9)))
            elif is_arr(t) or t == "str":
                w = OpAssign(v, "~", g.lit("str") if t == "str" else g.lit(t[1]))
            (pre if is_arr(t) or t in INTS or g.chance(.4) else post).append(w)
    body.items = pre + body.items
    if post:
        if isinstance(body.items[-1], (ReturnS, ThrowS)):
            body.items = body.items[:-1] + post + body.items[-1:]
        else:
            body.items += post
    if not (body.items and isinstance(body.items[-1], (ReturnS, ThrowS))):
        body.items.append(ReturnS(b.expr(c, ret, 2)))
    fn.body = body
    return fn


def make_program(seed, opt, fns=12, ok=None):
    """ok(gen, fn, call): is this function acceptable to the compiler (optional filter)."""
    rng = random.Random(seed)
    g = Gen(rng, opt)
    g.make_structs()
    calls = []
    i = 0
    while len(g.fns) < fns and i < fns * 6:
        i += 1
        try:
            fn = make_fn(g, i)
        except RecursionError:
            continue
        fn.prints = any(isinstance(n, Print) for n in walk(fn.body)) or fn.prints
        if order_matters(fn, opt.alias) or returns_deferred(fn):
            continue
        got = []
        for _ in range(3):
            call, out = main_call(g, fn)
            if call is not None:
                got.append((call, out))
        if not got:
            continue
        if ok is not None and not ok(g, fn, got):
            continue
        g.fns.append(fn)
        calls += got
    return Program(g, calls)


def main_call(g, fn):
    args = []
    for k, n, t in fn.params:
        args.append(g.lit(t) if not (is_arr(t) and g.chance(.3)) else ArrLit(t, [g.lit(t[1]) for _ in range(g.r.randint(1, 8))]))
    # the driver declares every argument, calls, then shows what became of the references
    drv = Fn("drv_" + fn.name + "_%d" % g.r.getrandbits(20), [], "str", None)
    items = []
    vs = []
    for (k, n, t), a in zip(fn.params, args):
        v = g.name("a")
        vs.append(Var(v, t))
        items.append(Let("mut" if k == "ref" else "let", v, t, a, annot=True))
    call = CallE(fn, vs)
    rv = g.name("r")
    items.append(Let("let", rv, fn.ret, call))
    items += [Print(["%s=" % v.name, Show(v)]) for (k, _, _), v in zip(fn.params, vs) if k == "ref"]
    items.append(ReturnS(Show(Var(rv, fn.ret))))
    drv.body = Block(items)
    drv.calls.add(fn.name)
    drv.prints = True
    c = CallE(drv, [])
    try:
        out = evaluate(c)
    except (Discard, RecursionError):
        return None, None
    return c, out


def program_text(g, calls):
    by = {f.name: f for f in g.fns}
    need = set()
    todo = [n for c, _ in calls for n in c.fn.calls]
    while todo:
        n = todo.pop()
        if n not in need:
            need.add(n)
            todo += list(by[n].calls)
    out = [s.decl() for s in g.structs] + show_fns(g.structs) + HEAD
    for f in g.fns:
        if f.name in need:
            out += [""] + f.lines()
    for c, _ in calls:
        out += [""] + c.fn.lines()
    out.append("")
    out.append("fn main(): i32 {")
    for i, (c, _) in enumerate(calls):
        out.append('    try { println("== %d"); println(%s); } catch (e) { println("threw ", e); }' % (i, c.fu()))
    out += ["    return 0;", "}"]
    return "\n".join(out) + "\n"


def expected_of(calls):
    return b"".join(b"== %d\n" % i + o for i, (_, o) in enumerate(calls))
