from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 500


def main(c):
    c.rule = "distinct (element type, operation, size bucket, sharing, cursor position class) observed under sanitizers"
    c.assumptions = ["AddressSanitizer, LeakSanitizer and UBSan see what they instrument; fu_POW2MEM pools keep freed blocks, "
                     "so the element ledger (live tokens, damage marks) decides use after release inside pools"]
    n = core.tier(250, 4000)
    jobs = []
    for g in "BCD":
        jobs.append(Job("vec_model.cpp", "asan-release", ["--seed", core.SEED + 2000, "--episodes", n],
                        ["-DGROUP_" + g], "-" + g, timeout=core.tier(300, 2000)))
    for g in "CD":
        jobs.append(Job("vec_model.cpp", "asan-debug", ["--seed", core.SEED + 3000, "--episodes", n],
                        ["-DGROUP_" + g], "-" + g, timeout=core.tier(300, 2000)))
    for g in "CD":
        jobs.append(Job("range_model.cpp", "asan-release", ["--seed", core.SEED + 2000, "--episodes", n],
                        ["-DGROUP_" + g], "-" + g, timeout=core.tier(300, 2000)))
    run_jobs(c, jobs)
