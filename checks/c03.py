from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 500


def main(c):
    c.rule = "distinct (element type, operation, shape of the range, size bucket) observed"
    c.assumptions = ["a view or range is used while its owner is alive and not otherwise changed"]
    n = core.tier(300, 6000)
    jobs = []
    for g in "ABCD":
        for v, seed in (("release", core.SEED), ("asan-debug", core.SEED + 1000)):
            jobs.append(Job("range_model.cpp", v, ["--seed", seed, "--episodes", n if v == "release" else n // 2],
                            ["-DGROUP_" + g], "-" + g, timeout=core.tier(300, 2000)))
    run_jobs(c, jobs)
