from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 20


def main(c):
    c.rule = "distinct schedules observed: (threads, seed, operations, writes that moved, writes in place)"
    c.assumptions = ["ThreadSanitizer sees the races of the schedules that ran; a handle belongs to one thread at a time"]
    s = core.SEED
    jobs = []
    for k in range(core.tier(2, 10)):
        jobs += [
            Job("threads.cpp", "tsan", ["--seed", s + 10 * k, "--episodes", 3, "--steps", 700, "--nested", 0]),
            Job("threads.cpp", "asan-debug", ["--seed", s + 10 * k + 1, "--episodes", 3]),
            Job("threads.cpp", "release", ["--seed", s + 10 * k + 2, "--episodes", 8]),
            Job("threads.cpp", "release", ["--seed", s + 10 * k + 3, "--episodes", 6, "--common", 1]),
        ]
    jobs.append(Job("threads.cpp", "tsan", ["--seed", s, "--episodes", 1, "--steps", 300, "--common", 1],
                    race_key="concurrent-copy-of-one-handle", name="common handle"))
    run_jobs(c, jobs, 4)
