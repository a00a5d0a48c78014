from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 50


def main(c):
    c.rule = "distinct (function, sign, output length, exponent class) printed and compared with the C library"
    c.assumptions = ["glibc's %f, %lld and %llu are right"]
    n = core.tier(300000, 20000000)
    jobs = [Job("dec.cpp", v, ["--seed", core.SEED + i, "--episodes", n if v == "release" else n // 4],
                timeout=core.tier(200, 2000))
            for i, v in enumerate(("release", "asan-debug", "asan-release"))]
    run_jobs(c, jobs)
