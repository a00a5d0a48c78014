import os
import random
import re
from vlib import core, fuprog, pargen

MIN_EVALUATIONS, MIN_DISTINCT = 1500, 400

LIB = os.path.join(core.REPO, "lib", "par.fu")
STAND_IN = os.path.join(core.VERIF, "harness", "par_threads.cpp")


def project(text):
    with open(LIB) as f:
        return {"main.fu": text, "lib/par.fu": f.read()}


def run(comp, fl, text, workers):
    env = {"fu_NUM_WORKER_THREADS": workers}
    extra = ()
    if fl == "tsan":
        extra = (STAND_IN,)
        env = {"PAR_THREADS": max(2, workers), "fu_NUM_WORKER_THREADS": 0,
               "TSAN_OPTIONS": "exitcode=66"}
    o = fuprog.build_and_run(comp, fl, project(text), tag="pr", timeout=60, env=env, extra_cpp=extra)
    return o


def only_the_flag(err):
    """Every reported race is about the last word of a 16 byte handle, which is where it is marked as shared."""
    n = 0
    for r in err.split("WARNING: ThreadSanitizer: ")[1:]:
        sides = re.findall(r"(?i)(atomic |)(read|write) of size (\d+) at 0x([0-9a-f]+)", r)
        if not r.startswith("data race") or len(sides) < 2 or any(int(x[3], 16) % 16 + int(x[2]) != 16 for x in sides):
            return False
        n += 1
    return n > 0


def judge(o, exp):
    """None when fine, else (what, detail); 'late' is not a verdict"""
    if o.stage == "refused":
        return "refused", o.msg[-1500:]
    if o.stage == "crash":
        return ("late" if o.ran and o.ran.timed_out else "compiler-crash"), o.msg[-1500:]
    if o.stage == "cxx":
        return "cxx", o.msg[-2000:]
    err = fuprog.plain(o.ran.err)
    if "ThreadSanitizer: data race" in err:
        return "race", err[:4000]
    if o.ran.timed_out:
        return "hangs", ""
    if o.ran.rc != 0 or o.ran.sig:
        return "died", "%s\n%s" % (o.ran.how(), err[:3000])
    if exp is not None and o.ran.out.decode("utf8", "replace") != exp:
        return "differs", "printed:\n%s\nexpected:\n%s" % (o.ran.out.decode("utf8", "replace")[:1500], exp[:1500])
    return None


def accepted(comp, files):
    with fuprog.scratch("pa") as d:
        r, _ = fuprog.emit(comp, d, files)
        return r


def main(c):
    c.rule = "distinct generated programs with parallel loops whose output was compared, and distinct loops touching shared state which were refused or run under the race detector"
    c.assumptions = [
        "the python model of pargen.py gives each statement the meaning it has in a sequential loop",
        "with the race detector every batch runs on a thread of its own (the task queue itself is the subject of C06)",
        "marking a handle as shared from several threads at once is a listed finding: the other programs run under the race detector do not copy one handle from several threads",
    ]
    core.build_fu()
    s = core.SEED * 100003
    plan = []
    k = core.tier(1, 12)
    for ci, comp in enumerate(("boot", "fu")):
        for fi, (fl, n) in enumerate((("fast", 60), ("opt", 20), ("tsan", 50), ("asan", 20))):
            for j in range(n * k):
                seed = s + 10000000 * ci + 1000000 * fi + j
                plan.append((comp, fl, seed, (0, 1, 2, 3, 5, 7, 16, 40)[j % 8]))
    random.Random(s).shuffle(plan)

    def one(x):
        comp, fl, seed, workers = x
        text, exp, kinds = pargen.make(seed, seed % 3 == 0, foreign=fl != "tsan")
        o = run(comp, fl, text, workers)
        return x, text, exp, kinds, judge(o, exp)

    refused = done = 0
    for (comp, fl, seed, workers), text, exp, kinds, bad in core.pmap(one, plan):
        if bad is None:
            done += 1
            c.saw(exp.count("\n"), "program %s %d" % (comp, seed))
            c.count("programs that behave, %s, %s" % (comp, fl))
            c.note_distinct("kind %s %s" % (fl, x) for x in kinds)
            continue
        what, detail = bad
        if what in ("refused", "late"):
            refused += 1
            c.count("programs not judged: %s by %s" % (what, comp))
            continue
        if what == "hangs" and fl in ("tsan", "asan"):
            c.unclear("a program of flavour %s did not end in time" % fl)
            continue
        c.violation("%s-%s-%d" % (what, comp, seed), "program %d (%s, %s, %d workers) %s: %s" % (seed, comp, fl, workers, what, detail), text)
    if refused > len(plan) / 5:
        c.unclear("too many programs not judged (%d of %d)" % (refused, len(plan)))

    # loops which write to, read or leave what the indices share
    rnd = random.Random(s + 5)
    shapes = [(comp,) + x for x in pargen.shapes(rnd, core.tier(500, 5000)) for comp in ("boot", "fu")]

    def two(x):
        comp, name, kind, text = x
        r = accepted(comp, project(text))
        if r.timed_out or r.sig or r.rc not in (0, 1):
            return x, "compiler-crash", fuprog.plain(r.out + r.err)[-1500:]
        if r.rc == 1:
            t = accepted(comp, {"main.fu": pargen.twin(text), "seq.fu": pargen.SEQ})
            return x, "refused" if t.rc == 0 else "twin refused", ""
        # accepted: then it has to behave
        bad = judge(run(comp, "tsan", text, 4), None)
        return (x,) + (bad or ("harmless", ""))

    good = 0
    for (comp, name, kind, text), what, detail in core.pmap(two, shapes):
        c.count("shared state, %s, %s: %s" % (kind, comp, what))
        if what in ("refused", "harmless"):
            good += 1
            c.saw(2 if what == "refused" else 1, "shape " + name)
        elif what == "twin refused" or what == "late":
            pass
        elif what == "race" and kind == "read":
            c.saw(1)
            c.violation("reads-own-array", "a loop that writes its elements and reads other elements of the same array is accepted (%s): %s\n%s" % (comp, name, detail), text)
        else:
            c.violation("%s-%s-%s" % (what, comp, re.sub(r"[^a-z]+", "-", name)), "accepted by %s, yet %s: %s\n%s\n%s" % (comp, what, name, text, detail), text)
    if good < len(shapes) * .7:
        c.unclear("most loops with shared state are not judged")

    # the listed finding: the flag of a handle copied by several threads
    text = pargen.LOOP_HEAD + """fn main(): i32 {
    mut words = [ "one", "two" ];
    words[0] ~= " and a text long enough not to be stored in place";
    let arr = [ 1, 2, 3, 4, 5, 6, 7, 8 ];
    let out = arr.par::map(|x|
    {
        mut r = words[0];
        r ~= x;
        continue r;
    });

    println(out[7]);
    return 0;
}
"""
    for comp in ("boot", "fu"):
        o = run(comp, "tsan", text, 4)
        bad = judge(o, None)
        if bad and bad[0] == "race" and only_the_flag(fuprog.plain(o.ran.err)):
            c.violation("shared-flag", "several threads copy one handle (%s):\n%s" % (comp, bad[1]), text)
        elif bad and bad[0] not in ("refused", "late"):
            c.violation("copy-%s" % comp, "several threads copy one handle (%s): %s\n%s" % (comp, bad[0], bad[1]), text)
        c.saw(1, "copying " + comp)
    c.sample({"programs": done, "shapes": good})


def prime():
    core.build_fu()
    for fl in ("fast", "opt", "tsan", "asan"):
        fuprog.prepared(fl)
