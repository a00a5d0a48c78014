"""The repository's own language snippets (src/tests.fu), expanded into single programs: accepted
forms, refused forms, alternatives, module splits. Used as programs and as seeds for mutation."""
import os
import re

from . import core


def literals(src):
    """The first argument of every ZERO / ZERO_SAME call: [[text, ...], ...] (several = modules)."""
    out = []
    for m in re.finditer(r"(?m)^    ZERO(_SAME)?\(\[?\s*`", src):
        at = m.end() - 1
        parts = []
        while True:
            j = at + 1
            buf = []
            while src[j] != "`":
                if src[j] == "\\" and src[j + 1] in "`\\":
                    buf.append(src[j + 1])
                    j += 2
                    continue
                buf.append(src[j])
                j += 1
            parts.append("".join(buf))
            k = re.compile(r"\s*,\s*`").match(src, j + 1)
            if not k:
                break
            at = k.end() - 1
        out.append((parts, bool(m.group(1)), src[j + 1:j + 120].split("\n")[0]))
    return out


def unindent(s, i0):
    i1 = i0
    while i1:
        i1 -= 1
        if s[i1] != " ":
            return i1 + 1 if s[i1] == "\n" else i0
    return i0


def _block(s, a, b):
    i = s.find(a)
    if i < 0:
        return None
    j = s.find(b, i)
    return None if j < 0 else (i, j)


def expand(parts, limit=40):
    """[(sources, refused message or None)]"""
    out = []

    def go(srcs, fail):
        if len(out) >= limit:
            return
        for i, s in enumerate(srcs):
            m = re.search(r"<fail([^>]*)>", s)
            if m:
                e = s.find("</fail>", m.start())
                if e < 0:
                    return
                pre, suf = s[:unindent(s, m.start())], s[e + 7:]
                body = s[m.end():unindent(s, e)].split("<pass/>")
                if len(body) != 2:
                    return
                for f in body[0].split("<fail/>"):
                    go(srcs[:i] + [pre + f[:unindent(f, len(f))] + suf] + srcs[i + 1:], m.group(1).strip())
                p = body[1]
                return go(srcs[:i] + [pre + p[:unindent(p, len(p))] + suf] + srcs[i + 1:], fail)
        for i, s in enumerate(srcs):
            b = _block(s, "<alt>", "</alt>")
            if b:
                body = s[b[0] + 5:unindent(s, b[1])].split("<alt/>")
                if len(body) < 2:
                    body.append("")
                for p in body:
                    go(srcs[:i] + [s[:unindent(s, b[0])] + p[:unindent(p, len(p))] + s[b[1] + 6:]] + srcs[i + 1:], fail)
                return
        for i, s in enumerate(srcs):
            b = _block(s, "<flip>", "</flip>")
            if b:
                body = [p[:unindent(p, len(p))] for p in s[b[0] + 6:unindent(s, b[1])].split("<flip/>")]
                if len(body) != 2:
                    return
                for x, y in (body, body[::-1]):
                    go(srcs[:i] + [s[:unindent(s, b[0])] + x + y + s[b[1] + 7:]] + srcs[i + 1:], fail)
                return
        for i, s in enumerate(srcs):
            k = s.find("<split/>")
            if k >= 0:
                st = k
                while st and s[st - 1] == " ":
                    st -= 1
                go(srcs[:i] + [s[:st] + s[k + 8:]] + srcs[i + 1:], fail)
                return go(srcs[:i] + [s[:st], s[st:k] + "pub import _%d;" % i + s[k + 8:]] + srcs[i + 1:], fail)
        out.append((srcs, fail))

    go(list(parts), None)
    return out


def files(srcs):
    """{file name: text}, main file last in dependency order."""
    fs = {}
    for i, s in enumerate(srcs):
        s = re.sub(r" ;; ", " // ", s)
        if i == len(srcs) - 1 and "fn main" not in s:
            s = "\n\nfn main(): i32 {\n" + s + "\n}\n"
        m = re.match(r"//file (\S+)", s)
        fs[m.group(1) if m else "_%d.fu" % i] = s
    return fs, list(fs)[-1]


def load(repo=None):
    src = open(os.path.join(repo or core.REPO, "src", "tests.fu"), encoding="utf8").read()
    i = src.find("// Mutation & references")
    out = []
    for n, (parts, same, tail) in enumerate(literals(src)):
        for k, (srcs, fail) in enumerate(expand(parts)):
            fs, main = files(srcs)
            out.append(dict(id="%d.%d" % (n, k), files=fs, main=main, fail=fail, raw="\n".join(parts)))
    return out
