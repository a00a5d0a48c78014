import hashlib
import json
import os
import re
from vlib import core, fuprog, illformed, snippets
MIN_EVALUATIONS, MIN_DISTINCT = 1200, 250
SKIP = os.path.join(core.VERIF, "corpus", "accepted_variants.json")


def digest(s):
    return hashlib.sha256("\0".join("%s\n%s" % kv for kv in sorted(s["files"].items())).encode()).hexdigest()[:16]


def compile_(comp, files, main):
    with fuprog.scratch("il") as d:
        r, o = fuprog.emit(comp, d, files, main)
        cpp = [f for dd, _, fs in os.walk(o) for f in fs if f.endswith(".cpp")]
        return r, fuprog.plain(r.out + r.err), cpp


def product(comp, files, main):
    """The way to a binary: (Ran, text, binary exists)"""
    with fuprog.scratch("il") as d:
        for n, t in files.items():
            core.write(d + "/s/" + n, t)
        os.makedirs(d + "/c")
        fuprog.boot_cwd(d + "/c")
        r = core.run([fuprog.compiler(comp), "--bin", d + "/exe", d + "/s/" + main], cwd=d + "/c",
                     env=fuprog.cc_env(d), timeout=240, mem_gb=0)
        return r, fuprog.plain(r.out + r.err), ["exe"] if os.path.exists(d + "/exe") else []


def place(text):
    m = re.search(r"ERROR\s+\S*?([\w.]+)\.fu (\d+):(\d+)", text)
    return (m.group(1), int(m.group(2))) if m else None


def show(files):
    return "\n".join("--- %s\n%s" % kv for kv in files.items())


def refused(r):
    return not r.timed_out and r.rc == 1


def main(c):
    c.rule = "distinct faults (pair name and context, or snippet) which both compilers were asked to refuse; evaluations are compilations"
    c.assumptions = ["each pair of vlib/illformed.py differs in just the fault: the twin must be accepted where the other is refused",
                     "the refused forms in src/tests.fu are ill-formed, except those listed in corpus/accepted_variants.json for the older compiler"]
    core.build_fu()
    jobs = []
    for text_kind, table in (("body", illformed.BODY), ("top", illformed.TOP)):
        for name, text, only, loose, skip in table:
            bad, good, line = illformed.variants(text)
            if text_kind == "top":
                ctx = {"top": (({"main.fu": bad}, "main.fu", "main.fu", 0), ({"main.fu": good}, "main.fu", "main.fu", 0))}
            else:
                b, g = illformed.contexts(bad), illformed.contexts(good)
                ctx = {k: (b[k], g[k]) for k in b if k not in skip}
            for k, (b, g) in ctx.items():
                for comp in ([only] if only else ["boot", "fu"]):
                    jobs.append((comp, name, k, b, g, line, loose))

    def one(j):
        comp, name, k, b, g, line, loose = j
        return j, compile_(comp, b[0], b[1]), compile_(comp, g[0], g[1])

    lost = 0
    for (comp, name, k, b, g, line, loose), (rb, tb, ob), (rg, tg, og) in core.pmap(one, jobs):
        c.saw(2)
        if rg.rc != 0 or not og:
            # without its twin the pair says nothing
            lost += 1
            c.count("twins not accepted")
            continue
        key = "%s-%s-%s" % (name.replace(" ", "-"), k.replace(" ", "-"), comp)
        what = "%s (%s), compiled by %s" % (name, k, comp)
        if not refused(rb):
            c.violation(key, "%s: an ill-formed program is not refused (%s):\n%s\n%s" % (what, rb.how(), show(b[0]), tb[-800:]), show(b[0]))
        elif ob:
            c.violation(key, "%s: refused, yet C++ was emitted: %s\n%s" % (what, ob, show(b[0])), show(b[0]))
        else:
            at, want = place(tb), (b[2][:-3], b[3] + line + 1)
            if at is None or at[0] != want[0] or (at[1] != want[1] and not loose):
                c.violation(key, "%s: the fault is in %s.fu line %d, the report names %s\n%s\n%s" % (
                    what, want[0], want[1], at, show(b[0]), tb[:1200]), show(b[0]))
            c.saw(0, "%s %s" % (name, k))
            c.count("refused by " + comp)
    if lost > len(jobs) / 3:
        c.unclear("most twins are not accepted")

    # the way to a binary refuses too, and leaves none
    pairs = illformed.BODY[core.SEED % 3::core.tier(12, 3)]

    def prod(a):
        comp, (name, text, only, loose, skip) = a
        if only not in ("", comp):
            return None
        b = illformed.contexts(illformed.variants(text)[0])["main"]
        return a, b, product(comp, b[0], b[1])

    for x in core.pmap(prod, [(comp, p) for comp in ("boot", "fu") for p in pairs]):
        if x:
            (comp, p), b, (r, t, o) = x
            c.saw(1)
            c.count("refused on the way to a binary")
            if not refused(r) or o:
                c.violation("binary-%s-%s" % (p[0].replace(" ", "-"), comp), "%s, built by %s: %s%s\n%s\n%s" % (
                    p[0], comp, r.how(), ", and a binary is left" if o else "", show(b[0]), t[-800:]), show(b[0]))

    # the refused forms of the repository's own snippets
    skip = json.load(open(SKIP))
    snips = [s for s in snippets.load() if s["fail"]]
    if len(snips) < 150:
        c.unclear("only %d refused snippets found in src/tests.fu" % len(snips))

    def snip(a):
        comp, s = a
        return a, compile_(comp, s["files"], s["main"])

    todo = [(comp, s) for comp in ("boot", "fu") for s in snips if digest(s) not in skip[comp]]
    for (comp, s), (r, t, o) in core.pmap(snip, todo):
        c.saw(1)
        if not refused(r) or o:
            c.violation("snippet-%s-%s" % (digest(s), comp), "a snippet of src/tests.fu that has to be refused (%s), compiled by %s: %s\n%s" % (
                s["fail"][:200], comp, r.how(), show(s["files"])), show(s["files"]))
        else:
            c.saw(0, "snippet " + digest(s))
            c.count("snippets refused by " + comp)
    c.sample({"pairs": len(illformed.BODY) + len(illformed.TOP), "contexts": 9, "snippets": len(snips)})


def prime():
    core.build_fu()
