"""Functions of vlib/borrowgen.py: which ones the compilers accept, whether those behave in memory,
and whether they return what the reference interpreter (vlib/minifu.py) says."""
import multiprocessing
import re
import time

from . import core, fuprog, borrowgen, minifu

CALLS = 16

CALL = """
    for (mut i = 0; i < %d; i++) {
        try println("@%d ", i, " ", t%d(i.u32 * 40503.u32 + %d.u32));
        catch (e) println("@%d ", i, " !", e);
    }
"""


def program(fns):
    t = borrowgen.DECLS
    for k, f in fns:
        t += "\n" + f.replace("NAME", "t%d" % k)
    t += "\nfn main(): i32 {\n"
    for k, _ in fns:
        t += CALL % (CALLS, k, k, k & 255, k)
    return t + "    return 0;\n}\n"


def expected(f, k):
    """the lines function number k prints, None where it takes too long to say"""
    name = "t%d" % k
    res = minifu.run(borrowgen.DECLS + f.replace("NAME", name), name,
                     [(i * 40503 + (k & 255)) & 0xffffffff for i in range(CALLS)])
    return ["" if r is None else "@%d %d !%s" % (k, i, r[1]) if isinstance(r, tuple) else "@%d %d %d" % (k, i, r)
            for i, r in enumerate(res)]


def accepted(a):
    comp, seed = a
    f, ordered = borrowgen.function(seed)
    with fuprog.scratch("bg") as d:
        r, _ = fuprog.emit(comp, d, {"main.fu": program([(0, f)])})
        if r.rc == 0:
            return comp, seed, "accepted", f, ordered
        t = fuprog.plain(r.out + r.err)
        kind = "crash" if fuprog.classify(r) == "crash" else "internal" if "COMPILER BUG" in t else "refused"
        return comp, seed, kind, (f, t), ordered


def compare(k, f, ordered, out):
    """text of the first difference, and how many results were compared"""
    if not ordered:
        return "", 0
    exp = expected(f, k)
    got = {ln[:ln.rindex(" ")]: ln for ln in out if ln.startswith("@%d " % k)}
    n = 0
    for i, e in enumerate(exp):
        if not e:
            continue
        g = got.get("@%d %d" % (k, i), "(nothing)")
        n += 1
        if g != e:
            return "call %d: the source says %s, the program printed %s" % (i, e, g), n
    return "", n


def one(a):
    """Run accepted functions of one batch; on trouble, one at a time to say which.
    -> (comp, flavour, kind, functions clean, results compared, [(seed, kind, detail, function)])"""
    comp, fl, batch, t_end = a
    if time.time() > t_end:
        return comp, fl, "late", 0, 0, []
    fns = list(enumerate(f for _, f, _ in batch))
    o = fuprog.build_and_run(comp, fl, {"main.fu": program(fns)}, tag="bb", timeout=60)
    if o.stage == "ran" and not o.ran.timed_out and o.ran.rc == 0:
        lines = fuprog.plain(o.ran.out).split("\n")
        bad, good, n = [], 0, 0
        for (k, f), (seed, _, ordered) in zip(fns, batch):
            d, m = compare(k, f, ordered, lines)
            n += m
            if d:
                bad.append((seed, "differs", d, f))
            else:
                good += 1
        return comp, fl, "ok", good, n, bad
    bad = []
    good = n = 0
    for seed, f, ordered in batch:
        o = fuprog.build_and_run(comp, fl, {"main.fu": program([(0, f)])}, tag="bb", timeout=30)
        if o.stage == "ran" and o.ran.timed_out:
            bad.append((seed, "slow", "", f))
        elif o.stage == "ran" and o.ran.rc == 0:
            d, m = compare(0, f, ordered, fuprog.plain(o.ran.out).split("\n"))
            n += m
            if d:
                bad.append((seed, "differs", d, f))
            else:
                good += 1
        elif o.stage == "ran":
            bad.append((seed, "died", o.ran.how() + "\n" + core.text(fuprog.plain(o.ran.out[-200:] + o.ran.err), 2500), f))
        else:
            bad.append((seed, o.stage, o.msg[-1200:], f))
    return comp, fl, "mixed", good, n, bad


def run(seed0, n, comps=("boot", "fu"), flavours=("asan", "asan-opt"), seconds=200, size=24):
    """n: how many functions for each compiler -> (counts of answers, results of one(), [(comp, seed, kind, text)])"""
    t_end = time.time() + seconds
    for fl in flavours:
        fuprog.prepared(fl)
    counts, acc, msgs = {}, {c: [] for c in comps}, []
    with multiprocessing.get_context("fork").Pool(core.JOBS) as pool:
        jobs = [(c, seed0 + i) for k, c in enumerate(comps) for i in range(n[k])]
        for comp, s, what, f, ordered in pool.imap(accepted, jobs, chunksize=4):
            counts[comp, what] = counts.get((comp, what), 0) + 1
            if what == "accepted":
                acc[comp].append((s, f, ordered))
            elif what != "refused":
                msgs.append((comp, s, what, f))
        batches = []
        for c in comps:
            for i in range(0, len(acc[c]), size):
                batches.append((c, flavours[(i // size) % len(flavours)], acc[c][i:i + size], t_end))
        batches = [b for i in range(7) for b in batches[i::7]]
        out = list(pool.imap(one, batches, chunksize=1))
    return counts, out, msgs
