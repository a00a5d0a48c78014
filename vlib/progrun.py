"""Generated programs against the reference interpreter: shared by the compiler checks."""
import multiprocessing
import re
import time

from . import core, fuprog, progen


def _make(a):
    comp, seed, fns, alias = a
    p = progen.make_program(seed, progen.Opt(old=comp == "boot", alias=alias), fns=fns)
    if not p.calls:
        return None
    return (progen.program_text(p.gen, p.calls), progen.expected_of(p.calls), sorted(p.gen.features), len(p.calls))


def sections(out):
    return re.split(rb"(?m)^== \d+\n", out)


def first_difference(exp, got):
    a, b = sections(exp), sections(got)
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else b"(nothing)"
        y = b[i] if i < len(b) else b"(nothing)"
        if x != y:
            return i - 1, x, y
    return -1, b"", b""


def judge(a):
    """(kind, features, evaluations, detail) for one generated program."""
    comp, fl, seed, fns, alias, t_end = a
    if time.time() > t_end:
        return ("late", [], 0, "", "")
    made = _make((comp, seed, fns, alias))
    if made is None:
        return ("empty", [], 0, "", "")
    txt, exp, feats, ncalls = made
    o = fuprog.build_and_run(comp, fl, {"main.fu": txt}, tag="g%d" % seed)
    if o.stage != "ran":
        return (o.stage, feats, 0, o.msg[-1500:], txt)
    r = o.ran
    if r.timed_out or r.rc != 0:
        return ("died", feats, ncalls, r.how() + "\n" + core.text(fuprog.plain(r.out[-300:] + r.err), 3000), txt)
    if r.out != exp:
        i, x, y = first_difference(exp, r.out)
        return ("differs", feats, ncalls, "call %d: the source says\n%s\nthe program printed\n%s" % (i, core.text(x, 1500), core.text(y, 1500)), txt)
    return ("ok", feats, ncalls, core.digest(txt), "")


def run(c, plan, what, seconds):
    """plan: [(comp, flavour, seed, fns, alias)]. Differences and deaths are violations."""
    t_end = time.time() + seconds
    for fl in sorted({p[1] for p in plan if p[1] != "product"}):
        fuprog.prepared(fl)
    feats = {}
    with multiprocessing.get_context("fork").Pool(core.JOBS) as pool:
        jobs = [p + (t_end,) for p in plan]
        for p, (kind, fs, n, detail, txt) in zip(plan, pool.imap(judge, jobs, chunksize=1)):
            comp, fl, seed = p[0], p[1], p[2]
            c.count("%s %s" % (comp, kind))
            if kind == "ok":
                c.saw(n, detail)
                for f in fs:
                    feats[f] = feats.get(f, 0) + 1
            elif kind in ("died", "differs"):
                c.violation("%s-%s" % (kind, core.digest(txt)),
                            "%s (compiler %s, C++ built %s, program seed %d): %s" % (what, comp, fl, seed, detail), txt)
            elif kind == "cxx" or kind == "refused":
                c.sample("not accepted (%s %d): %s" % (comp, seed, detail.strip()[-200:]))
            elif kind == "crash":
                c.sample("compiler did not finish normally (%s %d): %s" % (comp, seed, detail.strip()[-200:]))
    for f, n in feats.items():
        c.counters["with " + f] = c.counters.get("with " + f, 0) + n
