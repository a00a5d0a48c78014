"""Reference interpreter for the subset of fu that vlib/borrowgen.py writes.

Values are copied whenever they are stored, references are places (container, key): what the
source says, with none of the sharing, moving and borrowing of the implementation."""
import re

TOK = re.compile(r'\s+|("(?:[^"\\]|\\.)*")|(\d+)|([A-Za-z_]\w*)|(&mut|\.\.|~=|\+=|-=|\+\+|&&|\|\||==|!=|<=|>=|[-+*/&|^<>=!?:;,.(){}\[\]~])')
BIN = [("||",), ("&&",), ("==", "!=", "<", ">", "<=", ">="), ("+", "-"), ("*", "&")]


class Throw(Exception):
    pass


class Jump(Exception):
    def __init__(self, what, label=None, value=None):
        self.what, self.label, self.value = what, label, value


class Budget(Exception):
    pass


class Stuck(Exception):
    """the text is not in the subset"""


class Box:
    __slots__ = ("items", "sub")

    def __init__(self):
        self.items, self.sub = [], 0


class Ref:
    """a place"""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        c = self.c
        return getattr(c, self.k) if isinstance(c, Box) else c[self.k]

    def set(self, v):
        if isinstance(v, Box):
            # the storage of the fields stays where it is
            b = self.get()
            b.items, b.sub = v.items, v.sub
        elif isinstance(self.c, Box):
            setattr(self.c, self.k, v)
        else:
            self.c[self.k] = v


class View:
    __slots__ = ("l", "a", "b")

    def __init__(self, l, a, b):
        self.l, self.a, self.b = l, a, b


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, Box):
        b = Box()
        b.items, b.sub = list(v.items), v.sub
        return b
    if isinstance(v, View):
        return [copy(x) for x in v.l[v.a:v.b]]
    return v


def val(x):
    return x.get() if isinstance(x, Ref) else x


# ------------------------------------------------------------------ parsing

class Parser:
    def __init__(self, text):
        self.t = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise Stuck("token at " + text[i:i + 20])
            i = m.end()
            if m.lastindex:
                self.t.append((m.lastindex, m.group(m.lastindex)))
        self.t.append((0, ""))
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def eat(self, s):
        if self.peek() == s and self.t[self.i][0] != 1:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise Stuck("expected %s, got %s %s" % (s, self.peek(), self.peek(1)))

    def type(self):
        self.eat("&mut")
        n = self.next()
        k = 0
        while self.peek() == "[":
            self.need("[")
            self.eat("..")
            self.need("]")
            k += 1
        return n if not k else "[]"

    def fn(self):
        self.need("fn")
        name = self.next()
        self.need("(")
        ps = []
        while not self.eat(")"):
            self.eat("lax")
            self.eat("mut")
            r = self.eat("ref")
            n = self.next()
            self.need(":")
            self.type()
            ps.append((n, r))
            self.eat(",")
        byref = False
        if self.eat(":"):
            byref = self.peek() == "&mut"
            self.type()
        if self.eat("="):
            e = self.expr()
            self.need(";")
            return ("fn", name, ps, [("return", e)], byref)
        return ("fn", name, ps, self.block(), byref)

    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.stmt(True))
        return out

    def body(self):
        return self.block() if self.peek() == "{" else [self.stmt()]

    def stmt(self, tail=False):
        p = self.peek()
        if p == "{":
            b = ("block", None, self.block())
            self.eat(";")
            return b
        if p == ":":
            self.next()
            n = self.next()
            return ("block", n, self.block())
        if p == "fn":
            return self.fn()
        if p in ("lax", "mut", "let", "ref"):
            self.eat("lax")
            k = self.next()
            n = self.next()
            ty = None
            if self.eat(":"):
                ty = self.type()
            e = self.expr() if self.eat("=") else None
            self.need(";")
            return ("let", k, n, e, ty)
        if p == "return":
            self.next()
            e = self.expr()
            self.need(";")
            return ("return", e)
        if p in ("break", "continue"):
            self.next()
            lb = self.next() if self.eat(":") else None
            self.need(";")
            return (p, lb)
        if p == "if":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.body()
            b = self.body() if self.eat("else") else []
            return ("if", c, a, b)
        if p == "while":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("for", None, c, None, self.body())
        if p == "for":
            self.next()
            self.need("(")
            i = self.stmt()
            c = self.expr()
            self.need(";")
            s = self.expr()
            self.need(")")
            return ("for", i, c, s, self.body())
        if p == "try":
            self.next()
            b = self.body()
            self.need("catch")
            self.need("(")
            n = self.next()
            self.need(")")
            return ("try", b, n, self.body())
        if p == "defer":
            self.next()
            return ("defer", self.stmt())
        e = self.expr()
        if self.eat(":"):
            # P.each: |mut ref q| { ... };
            if e[0] != "field" or e[2] != "each":
                raise Stuck("a colon after " + repr(e))
            self.need("|")
            self.need("mut")
            self.need("ref")
            n = self.next()
            self.need("|")
            b = self.block()
            self.eat(";")
            return ("each", e[1], n, b)
        if not self.eat(";") and not (tail and self.peek() == "}"):
            raise Stuck("expected ; at " + self.peek())
        return ("expr", e)

    def expr(self):
        a = self.tern()
        if self.peek() in ("=", "+=", "~="):
            op = self.next()
            return ("assign", op, a, self.expr())
        return a

    def tern(self):
        c = self.bin(0)
        if self.eat("?"):
            a = self.tern()
            self.need(":")
            return ("tern", c, a, self.tern())
        return c

    def bin(self, l):
        if l == len(BIN):
            return self.post()
        a = self.bin(l + 1)
        while self.peek() in BIN[l] and self.t[self.i][0] == 4:
            op = self.next()
            a = ("bin", op, a, self.bin(l + 1))
        return a

    def post(self):
        k, s = self.t[self.i]
        if s == "(":
            self.next()
            e = self.expr()
            self.need(")")
        elif s == "{":
            e = ("blockexpr", self.block())
        else:
            self.next()
            if k == 1:
                e = ("lit", s[1:-1])
            elif k == 2:
                e = ("lit", int(s))
            elif k == 3:
                e = ("name", s)
            else:
                raise Stuck("unexpected " + s)
        while True:
            if self.eat("("):
                args = []
                while not self.eat(")"):
                    args.append(self.expr())
                    self.eat(",")
                if e[0] == "field":
                    e = ("call", e[2], [e[1]] + args)
                elif e[0] == "name":
                    e = ("call", e[1], args)
                else:
                    raise Stuck("call")
            elif self.eat("."):
                e = ("field", e, self.next())
            elif self.eat("["):
                a = self.expr()
                if self.eat(".."):
                    b = self.expr()
                    self.need("]")
                    e = ("slice", e, a, b)
                else:
                    self.need("]")
                    e = ("index", e, a)
            elif self.eat("++"):
                e = ("inc", e)
            else:
                return e


# ------------------------------------------------------------------ running

class Env:
    __slots__ = ("v", "up")

    def __init__(self, up=None):
        self.v, self.up = {}, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e
            e = e.up
        raise Stuck("no " + n)


class Machine:
    def __init__(self, fns, budget=200000):
        self.glob = Env()
        for f in fns:
            self.glob.v[f[1]] = ("closure", f, self.glob)
        self.budget = budget

    def call(self, clo, args):
        _, f, up = clo
        if up is not self.glob:
            self.check_known(f, up, args)
        env = Env(up)
        for (n, r), a in zip(f[2], args):
            env.v[n] = a if r and isinstance(a, (Ref, View)) else copy(val(a))
        outer, self.byref = getattr(self, "byref", False), f[4]
        try:
            self.run(f[3], env)
        except Jump as j:
            if j.what != "return":
                raise
            return j.value
        finally:
            self.byref = outer
        return None

    def check_known(self, f, up, args):
        """Give no answer where a nested function is handed a primitive it also captures: a known
        finding (corpus/primitive_ref_argument_aliased.fu), the captured one may be stale."""
        text = repr(f[3])
        for a in args:
            if isinstance(a, Ref) and isinstance(a.get(), int):
                e = up
                while e is not None and e is not self.glob:
                    for n, v in e.v.items():
                        if repr(n) in text and (a.c is e.v and a.k == n or isinstance(v, Ref) and v.c is a.c and v.k == a.k):
                            raise Budget()
                    e = e.up

    def run(self, stmts, env):
        """one scope"""
        defers = []
        last = None
        try:
            for s in stmts:
                if s[0] == "defer":
                    defers.append(s[1])
                else:
                    last = self.stmt(s, env)
            return last
        finally:
            for d in reversed(defers):
                self.stmt(d, env)

    def stmt(self, s, env):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        k = s[0]
        if k == "expr":
            return self.ev(s[1], env)
        if k == "let":
            _, q, n, e, ty = s
            if e is None:
                env.v[n] = [] if ty == "[]" else Box() if ty == "Box" else 0
            else:
                v = self.ev(e, env)
                if q == "ref":
                    if not isinstance(v, (Ref, View)):
                        raise Stuck("ref to a value")
                    env.v[n] = v
                else:
                    env.v[n] = copy(val(v))
            return None
        if k == "block":
            try:
                self.run(s[2], Env(env))
            except Jump as j:
                if j.what != "break" or j.label is None or j.label != s[1]:
                    raise
            return None
        if k == "if":
            self.run(s[2] if self.truth(s[1], env) else s[3], Env(env))
            return None
        if k == "return":
            # what is returned by value is read now, before the deferred statements run
            v = self.ev(s[1], env)
            raise Jump("return", None, v if self.byref else copy(val(v)))
        if k in ("break", "continue"):
            raise Jump(k, s[1])
        if k == "for":
            e2 = Env(env)
            if s[1]:
                self.stmt(s[1], e2)
            while self.truth(s[2], e2):
                self.budget -= 1
                if self.budget < 0:
                    raise Budget()
                try:
                    self.run(s[4], Env(e2))
                except Jump as j:
                    if j.what == "return" or j.label is not None:
                        raise
                    if j.what == "break":
                        break
                if s[3]:
                    self.ev(s[3], e2)
            return None
        if k == "try":
            try:
                self.run(s[1], Env(env))
            except Throw as t:
                e2 = Env(env)
                e2.v[s[2]] = str(t.args[0])
                self.run(s[3], e2)
            return None
        if k == "fn":
            env.v[s[1]] = ("closure", s, env)
            return None
        if k == "each":
            p = self.ev(s[1], env)
            i = 0
            while True:
                l = p if isinstance(p, View) else val(p)
                if isinstance(l, View):
                    if i >= l.b - l.a:
                        break
                    r = Ref(l.l, l.a + i)
                else:
                    if i >= len(l):
                        break
                    r = Ref(l, i)
                e2 = Env(env)
                e2.v[s[2]] = r
                self.run(s[3], e2)
                i += 1
                self.budget -= 1
                if self.budget < 0:
                    raise Budget()
            return None
        raise Stuck(k)

    def truth(self, e, env):
        v = val(self.ev(e, env))
        return bool(v)

    def place_or_value(self, n, env):
        e = env.find(n)
        v = e.v[n]
        if isinstance(v, (Ref, View)):
            return v
        return Ref(e.v, n)

    def ev(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "name":
            return self.place_or_value(e[1], env)
        if k == "index":
            b = self.ev(e[1], env)
            b = val(b)
            i = val(self.ev(e[2], env))
            if isinstance(b, View):
                return Ref(b.l, b.a + i)
            return Ref(b, i)
        if k == "slice":
            b = val(self.ev(e[1], env))
            i, j = val(self.ev(e[2], env)), val(self.ev(e[3], env))
            if isinstance(b, View):
                return View(b.l, b.a + i, b.a + j)
            return View(b, i, j)
        if k == "field":
            if e[2] == "len":
                v = val(self.ev(e[1], env))
                return v.b - v.a if isinstance(v, View) else len(v)
            return Ref(val(self.ev(e[1], env)), e[2])
        if k == "tern":
            return self.ev(e[2] if self.truth(e[1], env) else e[3], env)
        if k == "inc":
            p = self.ev(e[1], env)
            p.set(p.get() + 1)
            return p.get() - 1
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                a = self.truth(e[2], env)
                if a == (op == "||"):
                    return a
                x = self.ev(e[3], env)
                return bool(val(x)) if x is not None else None
            a = val(self.ev(e[2], env))
            b = val(self.ev(e[3], env))
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
                    "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
        if k == "blockexpr":
            return self.run(e[1], Env(env))
        if k == "assign":
            op = e[1]
            p = self.ev(e[2], env)
            v = copy(val(self.ev(e[3], env)))
            if op == "=":
                p.set(v)
            elif op == "+=":
                p.set(p.get() + v)
            else:
                l = p.get()
                if isinstance(v, list) and not (l and isinstance(l[0], list)):
                    l.extend(v)
                else:
                    l.append(v)
            return p
        if k == "call":
            return self.builtin(e[1], e[2], env)
        raise Stuck(k)

    def builtin(self, n, args, env):
        if n == "coin":
            p = self.ev(args[0], env)
            d = (p.get() * 1103515245 + 12345) & 0xffffffff
            p.set(d)
            return bool((d >> 16) & 1)
        if n == "thr":
            if (val(self.ev(args[0], env)) & 3) == 3:
                raise Throw("t")
            return None
        if n in ("mk", "mkn", "mkb", "mkw"):
            k = val(self.ev(args[0], env))
            mk = lambda: list(range(k))
            def mkb():
                b = Box()
                b.items, b.sub = mk(), k
                return b
            return mk() if n == "mk" else mkb() if n == "mkb" else [mk() if n == "mkn" else mkb() for _ in range(k)]
        if n == "throw":
            raise Throw(val(self.ev(args[0], env)))
        vs = [self.ev(a, env) for a in args]
        if n == "swap":
            a, b = vs
            x, y = copy(a.get()), copy(b.get())
            a.set(y)
            b.set(x)
            return None
        if n in ("insert", "unshift", "grow"):
            l = val(vs[0])
            if n == "grow":
                m = val(vs[1])
                if m > len(l):
                    l.extend([0] * (m - len(l)))
                if m > 1000000:
                    raise Budget()
            elif n == "insert":
                l.insert(val(vs[1]), copy(val(vs[2])))
            else:
                l.insert(0, copy(val(vs[1])))
            return None
        return self.call(env.find(n).v[n], vs)


def parse(text):
    p = Parser(text)
    fns = []
    while p.peek():
        if p.peek() == "struct":
            while p.next() != "}":
                pass
        else:
            fns.append(p.fn())
    return fns


NATIVE = re.compile(r"(?s)\nfn (?:thr|coin|mk|mkn|mkb|mkw)\(.*?\n(?=fn)")


def run(text, name, starts, budget=60000):
    """[result of name(start) for each start]: an int, ("throws", message), or None when it takes too long."""
    while True:
        text, n = NATIVE.subn("\n", text)
        if not n:
            break
    fns = parse(text)
    out = []
    for s in starts:
        m = Machine(fns, budget)
        try:
            out.append(m.call(m.glob.v[name], [s]))
        except Throw as t:
            out.append(("throws", str(t.args[0])))
        except Budget:
            out.append(None)
    return out
