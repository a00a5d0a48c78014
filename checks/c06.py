from vlib import core
from vlib.harness import Job, run_jobs
MIN_EVALUATIONS, MIN_DISTINCT = 10000, 500


def main(c):
    c.rule = "distinct complete schedules (hash of the sequence of scheduling decisions) plus distinct stress episodes"
    c.assumptions = [
        "a thread which issues parallel loops outlives the process's use of them (see the known finding)",
        "the read of a stale successor in try_pop is judged by its effects, not as a race",
        "the deterministic scheduler explores sequentially consistent interleavings; ThreadSanitizer judges ordering",
    ]
    s, n = core.SEED, core.tier(6000, 150000)
    jobs = []
    for w in core.tier((0, 1, 2, 3, 7, 64), (0, 1, 2, 3, 4, 5, 7, 16, 64, 200)):
        jobs.append(Job("parfor_sched.cpp", "debug", ["--seed", s + w, "--episodes", n if w < 16 else n // 4],
                        env={"fu_NUM_WORKER_THREADS": w}, timeout=core.tier(200, 1500), name="scheduled, %d workers" % w))
    for w in core.tier((2, 7, 40), (1, 2, 3, 7, 16, 40, 200)):
        e = {"fu_NUM_WORKER_THREADS": w}
        k = core.tier(1, 15)
        jobs += [
            Job("parfor_stress.cpp", "tsan", ["--seed", s, "--episodes", 60 * k], ["-DSHIMS"], env=e, hang="violation", timeout=core.tier(120, 700)),
            Job("parfor_stress.cpp", "release", ["--seed", s + 1, "--episodes", 400 * k], env=e, hang="violation", timeout=core.tier(120, 700)),
            Job("parfor_stress.cpp", "debug", ["--seed", s + 2, "--episodes", 200 * k], env=e, hang="violation", timeout=core.tier(120, 700)),
            Job("parfor_stress.cpp", "debug", ["--seed", s + 3, "--episodes", 200 * k], ["-DSHIMS"], "-shims", env=e, hang="violation", timeout=core.tier(120, 700)),
        ]
    jobs.append(Job("parfor_stress.cpp", "release", ["--seed", s + 4, "--episodes", 100], hang="violation", timeout=120, name="default worker count"))
    jobs.append(Job("parfor_sched.cpp", "debug", ["--seed", s, "--episodes", 500, "--unmap", 1],
                    env={"fu_NUM_WORKER_THREADS": 3}, name="issuing thread ends"))
    run_jobs(c, jobs)
