import glob
import os
import random
import re
from vlib import core, fuprog, illformed, noise, progen, snippets

MIN_EVALUATIONS, MIN_DISTINCT = 5000, 3000

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:handle_abort=1"
DEPTHS = (1, 7, 40, 150)


def subjects():
    """name -> command. The snapshot runs with sanitizers, and with room for their larger stack frames; as it is
    ("plain"), for what takes stack."""
    return {"plain": [core.BOOT], "boot": ["prlimit", "--stack=%d" % (1 << 30), fuprog.sanitized_boot()], "fu": [core.build_fu()]}


def compile_(cmd, comp, files, main, timeout):
    with fuprog.scratch("ns") as d:
        s, o = d + "/s", d + "/o"
        os.makedirs(s)
        for n, t in files.items():
            core.write(os.path.join(s, n), t)
        os.makedirs(o)
        os.makedirs(d + "/c")
        if comp != "fu":
            fuprog.boot_cwd(d + "/c")
        env = dict(fuprog.cc_env(d), ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1")
        r = core.run(cmd + ["--cpp", o + "/", "--src", s + "/", os.path.join(s, main)], cwd=d + "/c", env=env,
                     timeout=timeout, mem_gb=0 if comp == "boot" else 8)
        left = [f for f in glob.glob(o + "/**", recursive=True) if f.endswith(".cpp")]
        return r, fuprog.plain(r.out + r.err), left, s


def lines(t):
    return (t if isinstance(t, bytes) else t.encode()).count(b"\n") + 1


def judge(r, text, left, s, files):
    """(outcome, what is wrong or None)"""
    if r.timed_out:
        return "hang", "the compiler is %s" % r.how()
    if r.rc == 99 or "AddressSanitizer" in text or "runtime error:" in text:
        i = max(text.find("ERROR: AddressSanitizer"), 0) or max(text.find("runtime error:") - 200, 0)
        return "fault", "a sanitizer stopped the compiler: " + text[i:i + 1500]
    if r.rc not in (0, 1):
        return "crash", "the compiler ended by %s: %s" % (r.how(), text[-400:])
    if r.rc == 0:
        return "accepted", None if left else "success, yet no C++ was written: " + text[-300:]
    if left:
        return "refused", "refused, yet C++ was written: %s" % [os.path.basename(x) for x in left]
    m = re.search(r"ERROR\s+(\S*?\.fu) (-?\d+):(-?\d+)\+(-?\d+)", text)
    if not m:
        return "refused without a place", None
    f, l, col, n = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4))
    k = os.path.relpath(f, s) if f.startswith(s) else None
    if k in files and (not 1 <= l <= lines(files[k]) + 1 or col < 0 or n < 0):
        return "refused", "the report names line %d, column %d, length %d of %s, a file of %d lines: %s" % (
            l, col, n, k, lines(files[k]), text[:400])
    return "refused, internally" if "COMPILER BUG" in text else "refused", None


def workload(r, scale):
    """(name, files, main, seconds)"""
    out = []
    for n in DEPTHS:
        out += [("%d %s" % (n, k), {"main.fu": t}, "main.fu", 60) for k, t in noise.shapes(n)]
    odd = list(noise.odd(r))
    out += [x + (30,) for x in (odd if scale > 1 else odd[::1] if len(odd) < 1500 else r.sample(odd, 1500))]
    out += [x + (30,) for x in noise.cuts()]
    out += [x + (60,) for x in noise.modules(r)]
    snips = snippets.load()
    seeds = [(s["files"], s["main"]) for s in snips]
    for name, text, only, loose, skip in illformed.BODY:
        b = illformed.contexts(illformed.variants(text)[0])
        k = r.choice(sorted(b))
        seeds.append(b[k][:2])
    for p in sorted(glob.glob(os.path.join(core.VERIF, "corpus", "*.fu"))):
        seeds.append(({"main.fu": open(p, encoding="utf8").read()}, "main.fu"))
    pool = []
    for fs, m in seeds[::3]:
        for t in fs.values():
            pool += [x for x in noise.TOK.findall(t) if x.strip()]
    for i in range(int(2600 * scale)):
        fs, m = r.choice(seeds)
        fs = dict(fs)
        k = r.choice(sorted(fs))
        fs[k] = noise.mutate_tokens(fs[k], pool, r)
        out.append(("token mutant", fs, m, 30))
    for i in range(int(1000 * scale)):
        fs, m = r.choice(seeds)
        fs = dict(fs)
        k = r.choice(sorted(fs))
        fs[k] = noise.mutate_bytes(fs[k].encode(), r)
        out.append(("byte mutant", fs, m, 30))
    for i in range(int(300 * scale)):
        # two programs of the repository, cut and put together
        (a, _), (b, _) = r.choice(seeds), r.choice(seeds)
        x, y = r.choice(list(a.values())), r.choice(list(b.values()))
        i, j = r.randrange(len(x) + 1), r.randrange(len(y) + 1)
        out.append(("splice", {"main.fu": x[:i] + y[j:]}, "main.fu", 30))
    for i in range(int(25 * scale)):
        fs, m = r.choice(seeds)
        t = fs[m]
        for k in sorted(r.sample(range(len(t) + 1), min(len(t) + 1, 14))):
            out.append(("truncation", dict(fs, **{m: t[:k]}), m, 30))
    libs = {os.path.basename(p): open(p, encoding="utf8").read() for p in sorted(glob.glob(core.REPO + "/lib/*.fu"))}
    for i in range(int(60 * scale)):
        k = r.choice(sorted(libs))
        out.append(("mutant of lib/" + k, dict(libs, **{k: noise.mutate_tokens(libs[k], pool, r)}), k, 60))
    for i in range(int(40 * scale)):
        p = progen.make_program(r.randrange(10 ** 9), progen.Opt(old=True, alias=True), fns=4)
        t = progen.program_text(p.gen, p.calls)
        out.append(("mutant of a generated program", {"main.fu": noise.mutate_tokens(t, pool, r)}, "main.fu", 60))
    return out


def main(c):
    c.rule = "distinct texts given to a compiler; evaluations are compilations"
    c.assumptions = ["constructs are nested up to %d deep: recursion takes stack in proportion to it" % DEPTHS[-1],
                     "half a minute is more than any of these texts takes (they take well under a second)"]
    core.build_bootstrap()
    subj = subjects()
    r = random.Random(core.SEED * 7919 + 17)
    work = workload(r, core.tier(1, 12))

    # what both read alike is tried on the sanitized one, and a part of it on the other
    jobs = [("boot", w) for w in work] + [("fu", w) for i, w in enumerate(work) if i % core.tier(3, 1) == 0]
    jobs += [("plain", w) for i, w in enumerate(work) if w[0][0].isdigit() or i % 10 == 0]

    def one(a):
        comp, (name, files, main, sec) = a
        out = compile_(subj[comp], comp, files, main, sec)
        k, wrong = judge(*out, files)
        if k == "hang":
            out = compile_(subj[comp], comp, files, main, 4 * sec)
            k, wrong = judge(*out, files)
        return a, k, wrong, core.digest(sorted((n, t if isinstance(t, bytes) else t.encode()) for n, t in files.items()))

    for (comp, (name, files, main, sec)), k, wrong, dg in core.pmap(one, jobs):
        c.saw(1, dg)
        c.count("%s: %s" % (comp, k))
        if wrong:
            show = "\n".join("--- %s\n%s" % (n, t if isinstance(t, str) else repr(t)) for n, t in files.items())
            c.violation("%s-%s-%s" % (name.replace(" ", "-"), comp, dg[:8]), "%s, given to %s: %s\n%s" % (name, comp, wrong, show[:2500]), show)
