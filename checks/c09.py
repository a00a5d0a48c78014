from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 500


def main(c):
    c.rule = "distinct sequences of deferred statements run (shape of the whole episode)"
    c.assumptions = ["exceptions are C++ exceptions of the same program"]
    n = core.tier(40000, 1500000)
    jobs = [Job("defer.cpp", v, ["--seed", core.SEED + i, "--episodes", n if v == "release" else n // 4], timeout=core.tier(300, 1500))
            for i, v in enumerate(("release", "asan-debug", "clang-asan"))]
    run_jobs(c, jobs)
