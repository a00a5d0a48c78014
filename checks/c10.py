from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 1000, 50


def main(c):
    c.rule = "distinct scenarios (sequence of library replacements, signals, safe points) run to their end"
    c.assumptions = ["signals arrive between the program's own statements (raised synchronously)",
                     "the first library ever loaded defines at least one registered symbol"]
    n = core.tier(500, 8000)
    jobs = [Job("hotswap.cpp", v, ["--seed", core.SEED + i, "--episodes", n], ["-Dfu_HOTSWAP"], timeout=core.tier(300, 1500))
            for i, v in enumerate(("release", "debug", "retail"))]
    run_jobs(c, jobs)
