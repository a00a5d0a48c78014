from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 500


def main(c):
    c.rule = "distinct complete schedules (hash of the sequence of scheduling decisions) plus distinct stress episodes"
    c.assumptions = [
        "fewer than 2^18 operations happen while one popper is suspended (the tag is 19 or 20 bits)",
        "nodes stay readable after they are popped",
    ]
    s, n = core.SEED, core.tier(60000, 2000000)
    jobs = [Job("stack_sched.cpp", "debug", ["--seed", s + k, "--episodes", n], timeout=core.tier(200, 1500))
            for k in range(core.tier(3, 8))]
    for k in range(core.tier(1, 6)):
        jobs += [
            Job("stack_stress.cpp", "tsan", ["--seed", s + k], hang="violation", timeout=core.tier(120, 700)),
            Job("stack_stress.cpp", "release", ["--seed", s + k + 1, "--episodes", core.tier(60, 400)], hang="violation", timeout=core.tier(120, 700)),
            Job("stack_stress.cpp", "debug", ["--seed", s + k + 2, "--episodes", core.tier(30, 200)], hang="violation", timeout=core.tier(120, 700)),
            Job("stack_stress.cpp", "asan-debug", ["--seed", s + k + 3, "--episodes", core.tier(12, 60)], hang="violation", timeout=core.tier(120, 700)),
        ]
    run_jobs(c, jobs)
