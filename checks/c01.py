from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 500


def main(c):
    c.rule = "distinct (element type, operation, size bucket, sharing, cursor position class) observed"
    c.assumptions = ["elements are relocatable by memcpy and the zero value is the empty value, as the container requires"]
    n = core.tier(500, 6000)
    jobs = []
    for g in "ABCD":
        for v, seed in (("release", core.SEED), ("asan-debug", core.SEED + 1000)):
            jobs.append(Job("vec_model.cpp", v, ["--seed", seed, "--episodes", n if v == "release" else n // 2],
                            ["-DGROUP_" + g], "-" + g, timeout=core.tier(300, 2000)))
    run_jobs(c, jobs)
