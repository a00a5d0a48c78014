from vlib import borrowrun, borrowtab, core, corpus, fuprog
MIN_EVALUATIONS, MIN_DISTINCT = 3000, 900


def emit(a):
    comp, text = a
    with fuprog.scratch("bt") as d:
        r, _ = fuprog.emit(comp, d, {"main.fu": text})
        return r, fuprog.plain(r.out + r.err)


def main(c):
    c.rule = "distinct functions run (random ones accepted by a compiler) and distinct borrow faults refused; evaluations are compilations and calls whose result was compared"
    c.assumptions = ["the interpreter vlib/minifu.py gives references the meaning of the storage they were made from",
                     "each fault of vlib/borrowtab.py differs from its accepted twin in just the change of the container"]
    core.build_fu()
    # faults that have to be refused, each beside a twin that has to be accepted for the pair to count
    jobs = []
    for n, b, g in borrowtab.pairs():
        jobs += [(comp, n, b, g) for comp in ("boot", "fu")]
    for n, g in borrowtab.apart():
        jobs += [(comp, n, None, g) for comp in ("boot", "fu")]
    lost = 0
    for (comp, n, b, g), (rb, tb), (rg, _) in core.pmap(lambda j: (j, emit((j[0], j[2])) if j[2] else (None, ""), emit((j[0], j[3]))), jobs):
        if rg.rc != 0:
            lost += 1
            c.count("twins not accepted")
            continue
        if b is None:
            c.saw(1)
            c.count("harmless ones accepted")
            continue
        c.saw(2)
        if rb.timed_out or rb.rc != 1:
            c.violation("fault-%s-%s" % (n.replace(" ", "-"), comp), "%s (compiled by %s): a reference used after its container changed is not refused (%s):\n%s" % (
                n, comp, rb.how(), b), b)
        else:
            c.saw(0, "fault " + n)
            c.count("faults refused by " + comp)
    if lost > len(jobs) / 3:
        c.unclear("most twins are not accepted")

    # what is accepted behaves
    n = core.tier([1500, 600], [12000, 5000])
    counts, out, msgs = borrowrun.run(core.SEED * 1000003, n, seconds=core.tier(150, 600))
    for (comp, what), k in sorted(counts.items()):
        c.count("functions %s by %s" % (what, comp), k)
        c.saw(k)
    for comp, s, what, (f, t) in msgs:
        if what == "crash":
            c.violation("crash-%s-%d" % (comp, s), "the compiler %s dies on:\n%s\n%s" % (comp, f, t[-1500:]), f)
    n = 0
    for comp, fl, kind, good, compared, bad in out:
        n += good
        c.saw(compared)
        c.count("functions clean, %s, %s" % (comp, fl), good)
        c.count("results compared", compared)
        c.count("batches not run for lack of time", kind == "late")
        for s, what, detail, f in bad:
            if what in ("died", "differs"):
                c.violation("%s-%s-%d" % (what, comp, s), "function %d, accepted by %s, flavour %s, %s: %s\n%s" % (s, comp, fl, what, detail, f), f)
            else:
                c.count("functions not judged: " + what)
    for i in range(n):
        c.saw(0, "function %d" % i)
    corpus.run(c, "C16", "asan")
    c.sample({"pairs": len(jobs) // 2, "functions": n})


def prime():
    core.build_fu()
    for fl in ("asan", "asan-opt"):
        fuprog.prepared(fl)
