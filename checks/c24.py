import random
from vlib import core, fuprog, libs

MIN_EVALUATIONS, MIN_DISTINCT = 20000, 500

BS = "src/lib/bitset.fu.cpp"
NSETS = 4
BOUND = 220

EXTRA_CPP = """
#include <string>
static s_BitSet T_sets[%d];
static void T_dump(s_BitSet& s)
{
    std::string r;
    for (int i = 0; i < %d; i++) r += %%(has)s(s, i) ? '1' : '0';
    T_put(r.data(), (long) r.size());
    put((int) !!s);
}
#define S(i) T_sets[N(i)]
""" % (NSETS, BOUND)

CPP = {
    "clear": "%(clear)s(S(1));",
    "clear_from": "%(clear_from)s(S(1), (int) N(2));",
    "add_once": "put((int) %(add_once)s(S(1), (int) N(2)));",
    "add": "%(add)s(S(1), (int) N(2));",
    "add_all": "%(add_all)s(S(1), S(2));",
    "has": "put((int) %(has)s(S(1), (int) N(2)));",
    "rem": "put((int) %(rem)s(S(1), (int) N(2)));",
    "add_range": "%(add_range)s(S(1), (int) N(2));",
    "popcount": "put(%(popcount)s(S(1)));",
    "and_not": "%(and_not)s(S(1), S(2));",
    "negated": "{ s_BitSet t = %(negated)s(S(2), (int) N(3)); S(1) = static_cast<s_BitSet&&>(t); }",
    "has_inter": "put((int) %(has_inter)s(S(1), S(2)));",
    "copy": "if (&S(1) != &S(2)) S(1)._data = fu::vec<fu::u8>(S(2)._data);",
}
FU = {
    "clear": "sets[N(1).i32].clear();",
    "clear_from": "sets[N(1).i32].clear(start: N(2).i32);",
    "add_once": "put_int(sets[N(1).i32].add(idx: N(2).i32) ? 1 : 0);",
    "add_all": "let o = sets[N(2).i32];\nsets[N(1).i32].add(other: o);",
    "has": "put_int(sets[N(1).i32].has(N(2).i32) ? 1 : 0);",
    "rem": "put_int(sets[N(1).i32].remove(idx: N(2).i32) ? 1 : 0);",
    "add_range": "sets[N(1).i32].add_range(end: N(2).i32);",
    "popcount": "put_int(sets[N(1).i32].popcount.i64);",
    "and_not": "let o = sets[N(2).i32];\nsets[N(1).i32].remove(other: o);",
    "negated": "sets[N(1).i32] = sets[N(2).i32].negated(end: N(3).i32);",
    "has_inter": "put_int(has_inter(sets[N(1).i32], sets[N(2).i32]) ? 1 : 0);",
    "has_missing": "put_int(has_missing(sets[N(1).i32], sets[N(2).i32]) ? 1 : 0);",
    "copy": "sets[N(1).i32] = sets[N(2).i32];",
}
FU_EXTRA = """
import BitSet;
fn dump(s: BitSet): void
{
    mut r: string;
    for (mut i = 0; i < %d; i++)
        r ~= s.has(i) ? "1" : "0";
    put(r);
    mut e: string;
    s.each: |i|
    {
        e ~= i.str;
        e ~= ",";
    };
    put(e);
    put_int(s ? 1 : 0);
}
""" % BOUND

def bit_plan(rng, n, fu):
    ops = sorted(FU if fu else CPP)
    out = []
    for _ in range(n):
        op = rng.choice(ops)
        if op in ("clear", "add_range", "negated", "clear_from") and rng.random() < .5:
            op = "add_once"
        s, t = rng.randrange(NSETS), rng.randrange(NSETS)
        i = rng.choice((0, 1, 7, 8, 9, 15, 16, 63, 64, 65, 127, 128, rng.randrange(BOUND), rng.randrange(20)))
        if op in ("add_all", "and_not", "has_inter", "has_missing", "copy"):
            out.append((op, s, t))
        elif op == "negated":
            out.append((op, s, t, i))
        elif op in ("clear", "popcount"):
            out.append((op, s))
        else:
            out.append((op, s, i))
        out.append(("dump", s))
    return out


class Bits:
    def __init__(self):
        self.s = [set() for _ in range(NSETS)]
        self.exact = [True] * NSETS         # whether an empty set must also be false: not after and_not

    def step(self, case, who):
        op, a = case[0], case[1]
        s, b = self.s, case[2] if len(case) > 2 else None
        if op == "clear":
            s[a] = set()
            self.exact[a] = True
        elif op == "clear_from":
            s[a] = {x for x in s[a] if x < b}
            self.exact[a] = True
        elif op == "add_once":
            r = b not in s[a]
            s[a].add(b)
            return [int(r)]
        elif op == "add":
            s[a].add(b)
        elif op == "add_all":
            s[a] |= s[b]
            self.exact[a] = self.exact[a] and self.exact[b]
        elif op == "has":
            return [int(b in s[a])]
        elif op == "rem":
            r = b in s[a]
            s[a].discard(b)
            return [int(r)]
        elif op == "add_range":
            s[a] |= set(range(b))
        elif op == "popcount":
            return [len(s[a])]
        elif op == "and_not":
            s[a] = s[a] - s[b]
            self.exact[a] = self.exact[a] and who != "tree"
        elif op == "negated":
            s[a] = set(range(case[3])) - s[b]
            self.exact[a] = who != "tree"
        elif op == "has_inter":
            return [int(bool(s[a] & s[b]))]
        elif op == "has_missing":
            return [int(bool(s[b] - s[a]))]
        elif op == "copy":
            s[a] = set(s[b])
            self.exact[a] = self.exact[b]
        elif op == "dump":
            r = ["".join("01"[i in s[a]] for i in range(BOUND))]
            if who != "tree":
                r.append("".join("%d," % i for i in sorted(s[a])))
            return r + ([int(bool(s[a]))] if self.exact[a] or s[a] else [None])
        return []


KEYS = {"i32": lambda rng: rng.choice((0, -1, 1, 2, 3, 64, 128, 2147483647, -2147483648, rng.randrange(40), rng.randrange(40) * 64, rng.randrange(100000))),
        "u64": lambda rng: rng.choice((0, 1, 1 << 63, (1 << 64) - 1, rng.randrange(30), rng.randrange(30) << 32, rng.getrandbits(64))),
        "string": lambda rng: rng.choice(("", "a", "b" * rng.randrange(40), "k%d" % rng.randrange(40), "x" * 16, "x" * 17, "%d" % rng.randrange(9)))}
MAPOPS = {
    "set": "m.set(%(K)s, A(3));",
    "get": "put(m.get(%(K)s));",
    "got": "mut ok: bool;\nput(m.get(%(K)s, exists: ok));\nput_int(ok ? 1 : 0);",
    "remove": "put_int(m.remove(%(K)s) ? 1 : 0);",
    "clear": "m = [];",
    "dump": "dump(m);",
    "copy": "m2 = m;",
    "back": "m = m2;",
    "odd": "m.each: |ref value, remove|\n{\n    if (value.len & 1) remove();\n    value ~= \"!\";\n};",
}


HASHERS = {"all": "key - key", "two": "key & 1", "low": "key & 63", "high": "key & ~63", "same": "key"}


def map_text(k):
    k, _, h = k.partition("/")
    conv = {"i32": "N(1).i32", "u64": "N(1).u64", "string": "A(1)"}[k]
    return libs.fu_text({o: t % dict(K=conv) if "%(K)s" in t else t for o, t in MAPOPS.items()}, """%s
fn dump(ref x: hash::Map(%s, string%s)): void
{
    mut r: string;
    hash::each(x): |value, key|
    {
        r ~= %s;
        r ~= "=";
        r ~= value;
        r ~= ";";
    };
    put(r);
    put_int(x.len.i64);
}
""" % ("pub struct Crowd {}\npub fn hash(_: Crowd, key: i32): i32 { return %s; }\n" % HASHERS[h] if h else "", k, ", Crowd" if h else "", "key" if k == "string" else "key.str"),
        "mut m: hash::Map(%s, string%s);\nmut m2: hash::Map(%s, string%s);" % ((k, ", Crowd" if h else "") * 2))


def map_plan(rng, k, n):
    out, ks = [], [KEYS[k.split("/")[0]](rng) for _ in range(rng.choice((3, 20, 200)))]
    for _ in range(n):
        x = rng.random()
        key = rng.choice(ks)
        if x < .35:
            out.append(("set", key, "", "v%d" % rng.randrange(1000)))
        elif x < .5:
            out.append(("get", key))
        elif x < .6:
            out.append(("got", key))
        elif x < .86:
            out.append(("remove", key))
        elif x < .87:
            out.append(("clear",))
        elif x < .90:
            out.append(("copy",))
        elif x < .92:
            out.append(("back",))
        elif x < .95:
            out.append(("odd",))
        else:
            out.append(("dump",))
    return out + [("dump",)]


class Maps:
    def __init__(self):
        self.m, self.m2 = {}, {}

    def step(self, case, who):
        op, k = case[0], case[1] if len(case) > 1 else None
        if op == "set":
            self.m[k] = case[3]
        elif op == "get":
            return [self.m.get(k, "")]
        elif op == "got":
            return [self.m.get(k, ""), int(k in self.m)]
        elif op == "remove":
            return [int(self.m.pop(k, None) is not None)]
        elif op == "clear":
            self.m = {}
        elif op == "copy":
            self.m2 = dict(self.m)
        elif op == "back":
            self.m = dict(self.m2)
        elif op == "odd":
            # an item that goes leaves before it is changed
            self.m = {a: b + "!" for a, b in self.m.items() if not len(b) & 1}
        elif op == "dump":
            return [sorted("%s=%s" % x for x in self.m.items()), len(self.m)]
        return []


def same(want, got):
    if want is None:
        return True
    if isinstance(want, list):
        return sorted(x for x in got.decode("latin1").split(";") if x) == want
    return str(want).encode("latin1") == got


def text(who):
    if who == "tree":
        f = {"clear": libs.find(BS, "clear", "s_BitSet"), "clear_from": libs.find(BS, "clear", "s_BitSet", "int"),
             "add_once": libs.find(BS, "add_once"), "add": libs.find(BS, "add", "s_BitSet", "int"),
             "add_all": libs.find(BS, "add", "s_BitSet", "s_BitSet"), "has": libs.find(BS, "has"),
             "rem": libs.find(BS, "rem", "s_BitSet", "int"), "add_range": libs.find(BS, "add_range"),
             "popcount": libs.find(BS, "popcount"), "and_not": libs.find(BS, "and_not_assign"),
             "negated": libs.find(BS, "negated"), "has_inter": libs.find(BS, "has_inter")}
        ops = {k: v % f for k, v in CPP.items()}
        ops["dump"] = "T_dump(S(1));"
        return libs.cpp_text([BS], ops, EXTRA_CPP % f)
    return libs.fu_text(dict(FU, dump="dump(sets[N(1).i32]);"), FU_EXTRA, "mut sets: BitSet[];\nsets.grow(%d);" % NSETS)


def main(c):
    c.rule = "distinct (container, compiler, operation, size of the container); evaluations are operations whose result was held against a set or map"
    c.assumptions = ["indexes of bit sets are not negative"]
    core.build_fu()
    flavours = core.tier(["asan"], ["asan", "opt", "asan-opt"])
    for fl in flavours:
        fuprog.prepared(fl)
    subjects = [("bits", "tree", None), ("bits", "boot", None), ("bits", "fu", None)]
    subjects += [("map", "fu", k) for k in list(KEYS) + ["i32/" + h for h in HASHERS]]
    rounds, n = core.tier(6, 60), core.tier(500, 3000)

    def one(a):
        (kind, who, k), fl = a
        res = []
        with fuprog.scratch("ls") as d:
            t = text(who) if kind == "bits" else map_text(k)
            exe, bad = libs.build_cpp(fl, d, t) if who == "tree" else libs.build_fu(who, fl, d, t)
            if not exe:
                return a, None, bad, t
            for i in range(rounds):
                rng = random.Random("%s %s %d" % (core.SEED, a, i))
                plan = bit_plan(rng, n, who != "tree") if kind == "bits" else map_plan(rng, k, n)
                model = Bits() if kind == "bits" else Maps()
                got, r = libs.drive(exe, plan, d)
                bad, seen, cnt = [], set(), 0
                for j, (case, v) in enumerate(zip(plan, got)):
                    want = model.step(case, who)
                    cnt += 1
                    seen.add((kind, who, case[0], len(model.s[case[1]]) if kind == "bits" else len(model.m)))
                    if len(want) != len(v) or not all(same(x, y) for x, y in zip(want, v)):
                        bad.append((case[0], "operation %d, %s: gave %s, must give %s" % (j, case, [core.text(x, 400) for x in v], want),
                                    "\n".join("%s -> %s" % (x, y) for x, y in list(zip(plan, got))[max(0, j - 40):j + 1])))
                        break
                else:
                    if r.rc != 0 or len(got) != len(plan):
                        at = plan[len(got)] if len(got) < len(plan) else "the end"
                        bad.append(("end", "%s at operation %d, %s\n%s" % (r.how(), len(got), at, core.text(fuprog.plain(r.err), 2500)), t))
                res.append((bad, seen, cnt))
        return a, res, None, t

    for ((kind, who, k), fl), res, bad, t in core.pmap(one, [(s, fl) for fl in flavours for s in subjects]):
        name = {"bits": BS if who == "tree" else "lib/BitSet.fu compiled by " + who, "map": "lib/hash.fu, %s keys, compiled by %s" % (k, who)}[kind]
        if res is None:
            c.unclear("%s (%s build) does not build: %s" % (name, fl, core.text(fuprog.plain(bad.out + bad.err), 1200)))
            continue
        for bad, seen, cnt in res:
            c.saw(cnt)
            c.count("%s %s" % (kind, who), cnt)
            c.note_distinct(seen)
            for op, why, replay in bad:
                c.violation("%s-%s-%s" % (kind, op, who), "%s (%s build): %s" % (name, fl, why), replay)


def prime():
    core.build_fu()
    fuprog.prepared("asan")
