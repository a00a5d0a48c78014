from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 1000, 50


def main(c):
    c.rule = "distinct (operation, element type, distance out of range, size bucket) tried"
    c.assumptions = ["a stopped access is observed as a trap in the child that made it"]
    n = core.tier(2000, 40000)
    env = {"ASAN_OPTIONS": "handle_segv=0:handle_sigbus=0:handle_abort=0:detect_leaks=0:exitcode=99"}
    jobs = [Job("oob.cpp", v, ["--seed", core.SEED + k * 10, "--episodes", n], env=env, timeout=core.tier(200, 1500))
            for k in range(core.tier(1, 4)) for v in ("release", "debug", "asan-oob")]
    run_jobs(c, jobs)
