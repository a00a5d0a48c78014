from vlib import core, progrun, corpus
MIN_EVALUATIONS, MIN_DISTINCT = 500, 60


def plan(seed, n):
    out = []
    for i in range(n):
        s = seed * 2000029 + i
        out.append(("fu" if i % 4 == 3 else "boot", "asan" if i % 3 else "asan-opt", s, 3 + i % 4, True))
    return out


def main(c):
    c.rule = "distinct accepted programs that ran to their end under the sanitizers; evaluations are calls executed"
    c.assumptions = ["sanitizers see what the executed paths touch",
                     "programs are those of vlib/progen.py in the mode where references may alias"]
    core.build_fu()
    progrun.run(c, plan(core.SEED, core.tier(200, 2400)), "an accepted program misbehaves in memory", core.tier(240, 700))
    corpus.run(c, "C14", "asan")


def prime():
    core.build_fu()
    from vlib import fuprog
    fuprog.prepared("asan")
    fuprog.prepared("asan-opt")
