"""Runs compiled C++ monitors (harness/*.cpp) and turns what they print into verdicts."""

import re

from . import core


class Job:
    """One monitored execution: a harness source, how it is compiled, how it is run."""

    def __init__(self, src, variant, args=(), extra=(), tag="", timeout=200, env=None,
                 hang="unclear", name=None, expect_viol_key=None, libs=("-pthread", "-ldl"), dep="",
                 race_key=None, cwd=None):
        self.src, self.variant, self.args = src, variant, [str(a) for a in args]
        self.extra, self.tag, self.timeout = list(extra), tag, timeout
        self.env, self.hang = dict(env or {}), hang
        self.libs, self.dep, self.race_key = libs, dep, race_key
        self.cwd = cwd
        self.name = name or "%s/%s%s %s" % (src, variant, tag, " ".join(self.args))


def _san_summary(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer: [^\n]*)", err)
    if m:
        return m.group(1)
    m = re.search(r"runtime error: [^\n]*", err)
    if m:
        return m.group(0)
    m = re.search(r"Assertion[^\n]*failed", err)
    if m:
        return m.group(0)
    m = re.search(r"FATAL[^\n]*", err)
    return m.group(0) if m else ""


def judge(c, job, r):
    """Feeds one finished execution into the check."""
    out, err = core.text(r.out, 400000), core.text(r.err, 20000)
    m = re.search(r"^VIOL (\S+) \| (.*)$", out, re.M)
    replay = "harness %s\nvariant %s %s\ncommand %s\nenv %s\n\n%s\n%s" % (
        job.src, job.variant, " ".join(job.extra), " ".join(r.cmd), job.env, out[-6000:], err[-6000:])
    if m:
        c.violation(m.group(1), "[%s] %s" % (job.name, m.group(2)), replay)
        return False
    if r.timed_out:
        if job.hang == "violation":
            c.violation("hang", "[%s] still running after %.0f s" % (job.name, r.wall), replay)
        else:
            c.unclear("%s: still running after %.0f s" % (job.name, r.wall))
        return False
    if r.rc == 98 and job.race_key:
        c.violation(job.race_key, "[%s] %s" % (job.name, _san_summary(err)), replay)
        return False
    if r.rc in (98, 99, 101, 134) or r.rc < 0 or (r.rc != 0 and _san_summary(err)):
        if r.rc == -9:
            c.unclear("%s: killed" % job.name)
            return False
        c.violation("crash", "[%s] %s: %s" % (job.name, r.how(), _san_summary(err) or core.text(r.err, 600)), replay)
        return False
    if r.rc not in (0, 9, 127) or (r.rc == 0 and not re.search(r"^DONE$", out, re.M)):
        c.violation("unexpected-exit", "[%s] %s without a verdict: %s" % (job.name, r.how(), core.text(r.err + r.out[-800:], 900)), replay)
        return False
    if r.rc != 0:
        raise core.HarnessError("%s: %s without a verdict\n%s" % (job.name, r.how(), core.text(r.err + r.out, 1500)))
    for line in out.splitlines():
        if line.startswith("EVALS "):
            c.saw(int(line.split()[1]))
        elif line.startswith("SIGS "):
            p = line.split()
            c.note_distinct((job.src, x) for x in p[2:])
        elif line.startswith("STAT ") and len(line.split()) == 3:
            p = line.split()
            c.count(p[1], int(p[2]))
        elif line.startswith("SAMPLE "):
            c.sample(line[7:])
    c.count("executions")
    return True


def build(c, jobs):
    seen = {}
    for j in jobs:
        seen.setdefault((j.src, j.variant, tuple(j.extra), j.tag, j.dep), j)
    def one(j):
        try:
            return core.build_harness(j.src, j.variant, j.extra, j.tag, j.libs, j.dep)
        except core.HarnessError as e:
            return e
    keys = list(seen)
    bins = dict(zip(keys, core.pmap(lambda k: one(seen[k]), keys)))
    bad = [b for b in bins.values() if isinstance(b, Exception)]
    if bad and len(bad) == len(bins):
        raise bad[0]
    for b in bad:
        c.unclear("not built, its executions are missing: " + str(b)[:600])
    for j in jobs:
        j.bin = bins[(j.src, j.variant, tuple(j.extra), j.tag, j.dep)]


def run_jobs(c, jobs, parallel=None):
    build(c, jobs)
    def go(j):
        if isinstance(j.bin, Exception):
            return None
        if c.violations:
            c.count("not run, already violated")
            return None
        san = j.variant.startswith(("asan", "tsan", "clang"))
        for attempt in (0, 1):
            r = core.run([j.bin] + j.args, timeout=j.timeout, env=core.base_env(**j.env),
                         mem_gb=0 if san else 12, cwd=j.cwd)
            if not (r.timed_out and j.hang == "violation") or c.violations:
                break
        try:
            return judge(c, j, r)
        except core.HarnessError as e:
            return e
    res = core.pmap(go, jobs, parallel)
    for x in res:
        if isinstance(x, Exception):
            raise x
    return res
