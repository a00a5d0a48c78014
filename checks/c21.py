import itertools
import os
import random
from vlib import core, fuprog, libs

MIN_EVALUATIONS, MIN_DISTINCT = 30000, 2000

FILE = "lib/path.fu.cpp"
PARTS = ["", ".", "..", "a", "b.c", ".d", "e..f", "...", "g h", "\xc3\xa9", "a.b.c", "x"]
UNARY = ["ext", "noext", "dirname", "filename", "normalize"]


def place(p, cwd=tuple("w%d" % i for i in range(30))):
    """Where a path leads, by its text alone."""
    at = [] if p.startswith("/") else list(cwd)
    for x in p.split("/"):
        if x == "..":
            at = at[:-1]
        elif x not in ("", "."):
            at.append(x)
    return at


def laws(op, a, b, r, rec):
    """What is wrong with the answer r to op(a, b), or None. rec: answers so far."""
    last = a.rsplit("/", 1)[-1]
    if op == "ext":
        if r and (r[0] != "." or "." in r[1:] or "/" in r):
            return "not an extension"
        if not a.endswith(r) or (("." in last) != bool(r)):
            return "the last part of the path is %r" % last
    if op == "noext" and r + rec("ext", a) != a:
        return "without the extension and the extension %r do not make up the path" % rec("ext", a)
    if op == "dirname":
        if r and not r.endswith("/") or not a.startswith(r):
            return "not a leading directory"
    if op == "filename":
        if "/" in r or not a.endswith(r):
            return "not the last part of the path"
        if not a.endswith("/") and rec("dirname", a) + r != a:
            return "directory %r and file name do not make up the path" % rec("dirname", a)
        if a.endswith("/") and r:
            return "a path ending in a slash names no file"
    if op == "normalize" or op == "join":
        src = a if op == "normalize" else b if b.startswith("/") else a + "/" + b if a else b
        if place(r) != place(src):
            return "%r leads to %r, the answer to %r" % (src, "/".join(place(src)), "/".join(place(r)))
        if r.startswith("/") != src.startswith("/"):
            return "a relative path became absolute, or the other way round"
        parts = r.split("/")
        if "." in parts or "" in parts[1:-1]:
            return "not in normal form"
        up = [x == ".." for x in parts]
        if any(up) and (r.startswith("/") or up != sorted(up, reverse=True) and up[:-1] + [parts[-1] == ""] != sorted(up[:-1], reverse=True) + [True]):
            return "not in normal form"
        if op == "normalize" and src.endswith("/") and r and not r.endswith("/"):
            return "the trailing slash is lost"
    if op == "relative":
        back = rec("dirname", a) + r if not rec("dirname", a) or rec("dirname", a).endswith("/") else None
        if back is None or place(back) != place(b):
            return "from the directory of %r it leads to %r" % (a, back and "/".join(place(back)))
    return None


def gen(rng):
    n = rng.choice((1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12))
    p = "/".join(rng.choice(PARTS if rng.random() < .5 else PARTS[:4]) for _ in range(n))
    return rng.choice(("", "", "/", "//", "./", "../")) + p + rng.choice(("", "", "", "/", "/.", "/.."))


def clean(rng, absolute, big=False):
    p = "/".join(rng.choice(["a", "b.c", "x", "aa", "ab", "a.b"]) for _ in range(rng.randint(1, 6)))
    return ("/" if absolute else "") + p


def cases(rng, n):
    out = []
    for k in range(1, 5 if n < 5000 else 6):
        for parts in itertools.product(PARTS[:5], repeat=k):
            out += [(op, "/".join(parts), "") for op in UNARY]
    for _ in range(n):
        out += [(op, gen(rng), "") for op in UNARY]
        out.append(("join", gen(rng), gen(rng)))
        ab = rng.random() < .5
        a, b = clean(rng, ab), clean(rng, ab)
        if rng.random() < .5:       # share a stretch
            k = rng.randint(0, len(a))
            b = a[:k] + b.lstrip("/") if a[:k] or not ab else b
            b = b.replace("//", "/")
        out.append(("relative", a, b + rng.choice(("", "", "/"))))
    return out


def main(c):
    c.rule = "distinct (function, path); evaluations are answers held against the laws of paths"
    c.assumptions = ["paths are resolved by their text alone, without links", "relative() is asked for paths in normal form"]
    core.build_fu()
    todo = [("tree", fl) for fl in core.tier(["asan"], ["asan", "opt", "asan-opt"])]
    todo += [(comp, fl) for comp in ("boot", "fu") for fl in core.tier(["asan"], ["asan", "opt"])]
    for fl in {f for _, f in todo}:
        fuprog.prepared(fl)
    rng = random.Random(core.SEED * 77 + 1)
    n = core.tier(1500, 60000)

    def cpp():
        f = {o: libs.find(FILE, o) for o in UNARY}
        f["relative"] = libs.find(FILE, "relative", "fu::view<char>", "fu::str")
        f["join"] = libs.find(FILE, "join", "fu::view<char>", "fu::str")
        ops = {o: "put(%s(A(1)%s));" % (f[o], "" if o in UNARY else ", A(2)") for o in f}
        return libs.cpp_text([FILE], ops)

    fu = libs.fu_text({o: "put(path::%s(A(1)%s));" % (o, "" if o in UNARY else ", A(2)") for o in UNARY + ["relative", "join"]})
    sets = [cases(random.Random(rng.random()), n) for _ in todo]

    def one(i):
        who, fl = todo[i]
        with fuprog.scratch("lp") as d:
            exe, bad = libs.build_cpp(fl, d, cpp()) if who == "tree" else libs.build_fu(who, fl, d, fu)
            if not exe:
                return i, None, bad
            got, r = libs.drive(exe, sets[i], d)
            return i, got, r

    for i, got, r in core.pmap(one, range(len(todo))):
        who, fl = todo[i]
        name = "lib/path.fu.cpp" if who == "tree" else "lib/path.fu compiled by " + who
        if got is None:
            c.unclear("%s (%s build) does not build: %s" % (name, fl, core.text(fuprog.plain(r.out + r.err), 600)))
            continue
        known = {}
        for (op, a, b), v in zip(sets[i], got):
            known[op, a, b] = v[0].decode("utf8", "surrogateescape") if v else None
        for (op, a, b), v in zip(sets[i], got):
            if not v:
                continue

            def rec(o, x):
                k = known.get((o, x, ""))
                if k is None:
                    raise KeyError
                return k
            try:
                why = laws(op, a, b, known[op, a, b], rec)
            except KeyError:
                # the other half was not asked for: take the plain meaning
                def rec(o, x):
                    l = x.rsplit("/", 1)[-1]
                    if o == "ext":
                        return "." + l.rsplit(".", 1)[1] if "." in l else ""
                    return x[:len(x) - len(l)]
                why = laws(op, a, b, known[op, a, b], rec)
            if why:
                c.violation("%s-%s" % (op, who), "%s (%s build): %s(%s) = %r: %s" % (
                    name, fl, op, ", ".join(repr(x) for x in ((a, b) if op in ("join", "relative") else (a,))), known[op, a, b], why))
            c.saw(1, (op, a, b) if len(a) + len(b) < 12 else None)
            c.count(op)
        if r.rc != 0 or len(got) != len(sets[i]):
            at = sets[i][len(got)] if len(got) < len(sets[i]) else ("end",)
            c.violation("end-" + who, "%s (%s build): %s at %r\n%s" % (name, fl, r.how(), at, core.text(fuprog.plain(r.err), 2500)))


def prime():
    core.build_fu()
    fuprog.prepared("asan")
