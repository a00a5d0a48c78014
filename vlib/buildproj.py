"""A small fu project whose output says exactly which text of which file went into the binary."""

import copy
import os
import random

NAMES = ("m1", "m2", "m3", "sub/s1", "sub/s2")
# who may import whom: down the list only, and below sub/ only within it
MAY = {"main": ("m1", "m2", "m3", "sub/s1"), "m1": ("m2", "m3", "sub/s1"), "m2": ("m3", "sub/s2"), "m3": (),
       "sub/s1": ("sub/s2",), "sub/s2": ()}


def ident(n):
    return n.replace("/", "_")


class Project:
    def __init__(self, r, headers):
        self.r, self.headers = r, headers
        self.deep = r.randint(10, 99)
        self.ret = 0
        self.main_deps = tuple(n for n in MAY["main"])
        self.m = {}
        for n in NAMES:
            self.m[n] = dict(c=r.randint(100, 999), k=r.randint(10, 99), a=r.randint(100, 999), b=r.randint(100, 999), g=r.randint(100, 999),
                             swapped=False, wide=r.random() < .5, h=r.randint(10, 99), note=0, rows=0, broken=None,
                             deps=tuple(d for d in MAY[n] if r.random() < .7))

    # -- texts
    def import_line(self, frm, to):
        if frm.startswith("sub/"):
            to = to[4:]
        return "import %s;\n" % to.replace("/", "::")

    def module(self, n):
        m, i = self.m[n], ident(n)
        fields = ["    a: i32;\n", "    b: %s;\n" % ("i64" if m["wide"] else "i32")]
        if m["swapped"]:
            fields.reverse()
        t = "".join(self.import_line(n, d) for d in m["deps"])
        t += "".join("// note %d\n" % j for j in range(m["note"]))
        t += "\nstruct S_%s\n{\n%s%s};\n" % (i, "".join(fields), "".join("    pad%d: i64;\n" % j for j in range(m["rows"])))
        t += "\nfn mk_%s(): S_%s\n{\n    mut s: S_%s;\n    s.a = %d;\n    s.b = %d;\n    return s;\n}\n" % (i, i, i, m["a"], m["b"])
        t += "\nlet G_%s = %d;\n" % (i, m["g"])
        t += "\nfn tw_%s(x: $T): $T\n{\n    return x * 1000 + %d;\n}\n" % (i, m["k"])
        t += "\nfn val_%s(): i32\n{\n    return %s;\n}\n" % (i, " + ".join([str(m["c"])] + ["val_%s()" % ident(d) for d in m["deps"]]))
        up = "../" if "/" in n else ""
        t += ("\nfn h_%s(): i32\n{\n    mut r = 0;\n    pragma include(\"%sh_%s.h\");\n    pragma emit(`\n        `r` = hv_%s() * 100 + opted();`);\n"
              "    return r;\n}\n" % (i, up, i, i))
        if m["broken"]:
            t += m["broken"]
        return t

    def texts(self):
        f = {n + ".fu": self.module(n) for n in NAMES}
        for n in NAMES:
            i = ident(n)
            f["h_%s.h" % i] = "#pragma once\n#include \"deep.h\"\nstatic inline int hv_%s() { return %d + deep(); }\n" % (i, self.m[n]["h"])
        f["deep.h"] = ("#pragma once\nstatic inline int deep() { return %d; }\n#ifndef XFLAG\n#define XFLAG 0\n#endif\n"
                       "#ifdef NDEBUG\n#define XND 1\n#else\n#define XND 0\n#endif\n#ifdef fu_RETAIL\n#define XRT 1\n#else\n#define XRT 0\n#endif\n"
                       "static inline int opted() { return XFLAG * 10 + XND * 2 + XRT; }\n" % self.deep)
        main = "".join(self.import_line("main", d) for d in self.main_deps)
        main += "\nfn main(): i32\n{\n"
        for d in self.main_deps:
            i = ident(d)
            main += ("    println(\"%s \", val_%s(), \" \", tw_%s(2), \" \", mk_%s().a, \" \", mk_%s().b, \" \", G_%s, \" \", h_%s());\n"
                     % (i, i, i, i, i, i, i))
        main += "    return %d;\n}\n" % self.ret
        f["main.fu"] = main
        return f

    # -- what the program says
    def value(self, n):
        return self.m[n]["c"] + sum(self.value(d) for d in self.m[n]["deps"])

    def expect(self, scheme, flag):
        x = (flag or 0) * 10 + (0 if scheme == "--debug" else 2) + (1 if scheme == "--retail" else 0)
        out = ""
        for d in self.main_deps:
            m = self.m[d]
            out += "%s %d %d %d %d %d %d\n" % (ident(d), self.value(d), 2000 + m["k"], m["a"], m["b"], m["g"],
                                             (m["h"] + self.deep) * 100 + x)
        return out, self.ret

    def broken(self):
        return any(self.m[n]["broken"] for n in self.reached())

    def reached(self):
        seen, todo = set(), list(self.main_deps)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo += self.m[n]["deps"]
        return seen

    # -- edits; each returns its name
    def edit(self):
        r = self.r
        n = r.choice(NAMES)
        m = self.m[n]
        kinds = ["const", "template", "field", "global", "layout", "width", "rows", "note", "import", "swap", "exit", "main"]
        if self.headers:
            kinds += ["header", "deep"] * 2
        k = r.choice(kinds)
        if k == "const":
            m["c"] = r.randint(100, 999)
        elif k == "template":
            m["k"] = r.randint(10, 99)
        elif k == "field":
            m[r.choice("ab")] = r.randint(100, 999)
        elif k == "global":
            m["g"] = r.randint(100, 999)
        elif k == "layout":
            m["swapped"] = not m["swapped"]
        elif k == "width":
            m["wide"] = not m["wide"]
        elif k == "rows":
            m["rows"] = r.randint(0, 3)
        elif k == "note":
            m["note"] = r.randint(0, 3)
        elif k == "import":
            m["deps"] = tuple(d for d in MAY[n] if r.random() < .6)
        elif k == "swap":
            o = r.choice(NAMES)
            for x in "cab":
                m[x], self.m[o][x] = self.m[o][x], m[x]
        elif k == "exit":
            self.ret = r.choice((0, 0, 3))
        elif k == "main":
            self.main_deps = tuple(d for d in MAY["main"] if r.random() < .8) or ("m1",)
        elif k == "header":
            m["h"] = r.randint(10, 99)
        elif k == "deep":
            self.deep = r.randint(10, 99)
        return k

    def spoil(self):
        n = self.r.choice(sorted(self.reached()))
        self.m[n]["broken"] = self.r.choice((
            "\nfn lost(): i32\n{\n    return nowhere;\n}\n", "\nfn lost(): i32\n{\n    return \"text\";\n}\n", "\nfn lost( {\n", "\n`\n"))
        return n

    def mend(self):
        for m in self.m.values():
            m["broken"] = None

    def state(self):
        return copy.deepcopy((self.m, self.deep, self.ret, self.main_deps))

    def restore(self, s):
        self.m, self.deep, self.ret, self.main_deps = copy.deepcopy(s)

    def write(self, d, keep_times=False):
        for f, t in self.texts().items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            try:
                old = open(p).read()
            except OSError:
                old = None
            if old == t:
                continue
            st = os.stat(p) if old is not None else None
            with open(p, "w") as fh:
                fh.write(t)
            if keep_times and st:
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
