"""Hand-written programs with known output: corpus/*.fu.

The head of each file tells what is expected:
    // props: C12 C14
    // known: C12 key        (a known finding; only for that property)
    // only: boot | fu       (constructs one of the compilers lacks)
    // > line of expected output
"""
import os
import re

from . import core, fuprog

DIR = os.path.join(core.VERIF, "corpus")


def load():
    out = []
    for n in sorted(os.listdir(DIR)):
        if not n.endswith(".fu"):
            continue
        t = open(os.path.join(DIR, n)).read()
        get = lambda k: re.findall(r"(?m)^// %s: ?(.*)$" % k, t)
        exp = "".join(x + "\n" for x in re.findall(r"(?m)^// > ?(.*)$", t)).encode()
        out.append(dict(name=n, text=t, props=" ".join(get("props")).split(), exp=exp,
                        known=dict(x.split() for x in get("known")), only=" ".join(get("only")).split()))
    return out


def run(c, pid, flavour):
    fuprog.prepared(flavour)
    todo = [(p, comp) for p in load() if pid in p["props"] for comp in ("boot", "fu") if comp in (p["only"] or ("boot", "fu"))]

    def one(a):
        p, comp = a
        return p, comp, fuprog.build_and_run(comp, flavour, {"main.fu": p["text"]}, tag="c")
    for p, comp, o in core.pmap(one, todo):
        key = p["known"].get(pid, "%s-%s" % (p["name"], comp))
        if o.stage != "ran":
            c.count("corpus not accepted")
            c.unclear("corpus/%s (%s): %s" % (p["name"], comp, o.msg[-300:]))
            continue
        r = o.ran
        c.count("corpus")
        if r.rc != 0 or r.timed_out or r.out != p["exp"]:
            c.violation(key, "corpus/%s compiled by %s: %s, printed\n%s\n%s\ninstead of\n%s" % (
                p["name"], comp, r.how(), core.text(r.out), core.text(fuprog.plain(r.err)), core.text(p["exp"])), p["text"])
        else:
            c.saw(1, "corpus " + p["name"] + comp)
