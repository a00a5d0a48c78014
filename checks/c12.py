from vlib import core, progrun, corpus
MIN_EVALUATIONS, MIN_DISTINCT = 1500, 150


def plan(seed, n, alias=False, flavour="fast"):
    out = []
    for i in range(n):
        s = seed * 1000003 + i
        comp = "fu" if i % 4 == 3 else "boot"
        fl = "product" if i % 16 in (5, 7) else flavour
        out.append((comp, fl, s, 3 + i % 5, alias))
    return out


def main(c):
    c.rule = "distinct accepted programs whose whole trace equalled the reference interpreter's; evaluations are calls compared"
    c.assumptions = ["the reference interpreter (vlib/progen.py) has the language's meaning for the constructs it generates",
                     "programs whose outcome depends on an unpromised order of evaluation are not generated"]
    core.build_fu()
    n = core.tier(420, 4000)
    progrun.run(c, plan(core.SEED, n), "a compiled program does not compute what its source says", core.tier(240, 700))
    corpus.run(c, "C12", "fast")
    if c.counters.get("boot ok", 0) < .5 * n * .75:
        c.unclear("most generated programs were not accepted")


def prime():
    core.build_fu()
    from vlib import fuprog
    fuprog.prepared("fast")
