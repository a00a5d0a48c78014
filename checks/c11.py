from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 1000, 100


def main(c):
    c.rule = "distinct (allocator, block size) and (element width, size around a power of two, way of growing) and refused requests"
    c.assumptions = ["malloc fails when the address space limit is reached (the sandbox does not overcommit past RLIMIT_AS)",
                     "leak-checking builds may turn exit 101 into the leak detector's abort; retail builds may not"]
    s, k = core.SEED, core.tier(1, 20)
    jobs = [
        Job("alloc.cpp", "retail", ["--seed", s, "--episodes", 20000 * k, "--big", 1, "--bits", core.tier(22, 25)], timeout=core.tier(300, 1500)),
        Job("alloc.cpp", "release", ["--seed", s + 1, "--episodes", 20000 * k, "--big", 1, "--bits", core.tier(22, 25)], timeout=core.tier(300, 1500)),
        Job("alloc.cpp", "asan-debug", ["--seed", s + 2, "--episodes", 4000 * k, "--bits", 20], timeout=core.tier(300, 1500)),
        Job("alloc.cpp", "asan-release", ["--seed", s + 3, "--episodes", 4000 * k, "--bits", 20], timeout=core.tier(300, 1500)),
    ]
    run_jobs(c, jobs, 4)
