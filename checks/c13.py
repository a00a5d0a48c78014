import time
from vlib import core, fuprog, preops, corpus
MIN_EVALUATIONS, MIN_DISTINCT = 60000, 400


def main(c):
    c.rule = "distinct operations (operation, element type, compiler, build); evaluations are operation calls whose printed result was compared"
    c.assumptions = ["vlib/preops.py gives each prelude operation its documented or evident meaning",
                     "sequences order by length first, as the prelude's <> defines it"]
    core.build_fu()
    flavours = core.tier(["fast", "asan"], ["fast", "opt", "asan", "asan-opt"])
    for fl in flavours:
        fuprog.prepared(fl)
    rounds = core.tier(250, 4000)
    todo = [(comp, fl, t) for fl in reversed(flavours) for comp in ("boot", "fu") for t in preops.TYPES]

    def one(a):
        comp, fl, t = a
        ops = [o for o in preops.OPS if preops.applies(o, t, comp)]
        seed = core.SEED * 31 + (fl.startswith("asan"))
        got = []
        text = preops.program(t, ops, rounds, seed)
        o = fuprog.build_and_run(comp, fl, {"main.fu": text}, tag="po", timeout=300)
        if o.stage == "ran":
            return a, [(ops, seed, text, o)]
        # something in there is not accepted: one program for each operation, to lose only that one
        for q in ops:
            text = preops.program(t, [q], rounds, seed)
            got.append(([q], seed, text, fuprog.build_and_run(comp, fl, {"main.fu": text}, tag="po", timeout=300)))
        return a, got

    for (comp, fl, t), runs in core.pmap(one, todo):
        for ops, seed, text, o in runs:
            if o.stage != "ran":
                c.count("not accepted")
                c.unclear("%s on %s by %s is not accepted: %s" % (ops[0][0], t.tag, comp, o.msg.strip()[-300:]))
                continue
            exp = preops.expected(t, ops, rounds, seed)
            out = o.ran.out.decode("latin1").split("\n")
            per = {}
            for n, x in enumerate(exp):
                name = ops[n // rounds][0]
                y = out[n] if n < len(out) else "(nothing)"
                if x != y:
                    c.violation("%s-%s-%s" % (name.replace(" ", "-"), t.tag, comp),
                                "%s on %s, compiled by %s (%s build), %s: the operation means\n%s\nthe program printed\n%s\n%s" % (
                                    name, t.fu, comp, fl, o.ran.how(), x, y, core.text(fuprog.plain(o.ran.err), 1500)), text)
                    break
                per[name] = per.get(name, 0) + 1
            else:
                if o.ran.rc != 0 or o.ran.timed_out:
                    c.violation("end-%s-%s" % (t.tag, comp), "the operations on %s, compiled by %s (%s build): %s\n%s" % (
                        t.fu, comp, fl, o.ran.how(), core.text(fuprog.plain(o.ran.err), 2000)), text)
            for k, v in per.items():
                c.saw(v, "%s %s %s %s" % (k, t.tag, comp, fl))
            c.count("%s %s programs" % (comp, fl))
    corpus.run(c, "C13", "fast")


def prime():
    core.build_fu()
    for fl in ("fast", "asan"):
        fuprog.prepared(fl)
