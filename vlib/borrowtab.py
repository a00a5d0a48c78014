"""Borrow faults: references used after what they refer to may have been moved, each with a twin that
differs in just that (the use comes first, or another container is changed).

Texts with '{{bad||good}}' are pairs in place; the jump table makes the twin by changing another container."""
from . import illformed as I

DECLS = """
struct Box { items: i32[]; name: string; }
struct Deep { boxes: Box[]; tag: string; }
fn grow(ref x: i32[]) { x ~= 9; }
fn wipe(ref x: i32[]) { x.clear(); }
fn regrow(ref x: Deep) { x.boxes ~= Box(); }
fn at(ref x: i32[], i: i32): &mut i32 = x[i];
fn thr(i: i32) { if (i > 3) throw("x"); }
"""

OWN = {
    "a": ("mut a = [1, 2, 3];", [
        "a ~= 4;", "a.clear();", "a.pop();", "a = [5];", "a.splice(0, 1);", "grow(a);", "wipe(a);", "a.grow(9);",
        "a.shrink(1);", "a ~= a;", "mut o = [7];\nswap(a, o);", "a.unshift(3);", "a.insert(0, 3);",
        "a[0 .. 1] = [8, 9];", "fn cb() { a ~= 4; }\ncb();", "fn cb() = grow(a);\ncb();", "if (r > 0) a ~= 4;",
        "for (mut i = 0; i < 2; i++) a ~= i;", "while (a.len < 9) a ~= 1;", "try a ~= 4;\ncatch (e) r += e.len;",
        "a = a ~ 4;", "ref p = a;\np ~= 4;", "{\n    a ~= 4;\n}", "r > 0 && { a ~= 4; true };"]),
    "b.items": ("mut b: Box;\nb.items = [1, 2, 3];", [
        "b.items ~= 4;", "b.items.clear();", "b.items = [5];", "b = Box();", "grow(b.items);",
        "mut o: Box;\nswap(b, o);", "fn cb() { b = Box(); }\ncb();", "ref p = b;\np.items ~= 4;",
        "ref p = b.items;\np.pop();"]),
    "d.boxes[1].items": ("mut d: Deep;\nd.boxes ~= Box();\nd.boxes ~= Box();\nd.boxes[1].items = [1, 2, 3];", [
        "d.boxes ~= Box();", "d.boxes[1].items ~= 4;", "d.boxes[1].items.clear();", "d.boxes[1] = Box();",
        "d.boxes.pop();", "d.boxes.clear();", "d = Deep();", "regrow(d);", "ref e = d.boxes[1];\ne.items ~= 3;",
        "ref e = d.boxes;\ne.pop();", "fn cb() { d.boxes ~= Box(); }\ncb();"]),
}
REF = ["ref q = %s[1];", "ref q = at(%s, 1);", "ref q = %s[.. 2][1];", "ref q0 = %s;\nref q = q0[1];",
       "ref q = r > 0 ? %s[0] : %s[1];", "ref q = at(at2(%s), 0);"]

S = "mut a = [1, 2, 3];\nmut b = [4, 5];\n"
END = "\nr += a.len + b.len;"
FLOW = [
    ("loop carried", S + "ref q = a[1];\nfor (mut i = 0; i < 2; i++) {\n    q += 1;\n    {{a||b}} ~= 4;\n}" + END),
    ("chosen by a condition", S + "ref q = r > 0 ? a[1] : b[1];\n{{a ~= 4||r += 4}};\nq += 1;" + END),
    ("chosen by a condition, other", S + "ref q = r > 0 ? a[1] : b[1];\n{{b ~= 4||r += 4}};\nq += 1;" + END),
    ("alias arguments", "fn both(ref x: i32[], ref y: i32) { x ~= 4; y += 1; }\n" + S + "both(a, {{a||b}}[0]);" + END),
    ("alias arguments reversed", "fn both(ref y: i32, ref x: i32[]) { x ~= 4; y += 1; }\n" + S + "both({{a||b}}[0], a);" + END),
    ("alias nested item", "mut n = [[1], [2]];\nmut m = [[1], [2]];\nfn both(ref x: i32[][], ref y: i32[]) { x ~= [3]; y ~= 1; }\nboth(n, {{n||m}}[0]);\nr += n.len + m.len;"),
    ("closure grows the traversed", S + "fn visit(ref x: i32[], f) { for (mut i = 0; i < x.len; i++) f(x[i]); }\nvisit(a, |ref x| { {{a||b}} ~= x; x += 1; });" + END),
    ("closure grows the traversed, item used first", S + "fn visit(ref x: i32[], f) { for (mut i = 0; i < x.len && i < 5; i++) { ref y = x[i]; f(i); y += 1; } }\nvisit(a, |x| {{a||b}} ~= x);" + END),
    ("method grows its own owner", S + "fn add(ref y: i32, ref x: i32[]) { x ~= y; y += 1; }\n{{a||b}}[0].add(a);" + END),
    ("result kept, owner grown", "fn pick1(ref x: i32[], ref y: i32[]): &mut i32 = x.len > y.len ? x[0] : y[0];\n" + S + "ref q = pick1(a, b);\n{{b ~= 4||r += 4}};\nq += 1;" + END),
    ("result kept, first owner grown", "fn pick1(ref x: i32[], ref y: i32[]): &mut i32 = x.len > y.len ? x[0] : y[0];\n" + S + "ref q = pick1(a, b);\n{{a ~= 4||r += 4}};\nq += 1;" + END),
    ("reference in a branch", S + "ref q = a[1];\nif (r > 100) {\n    {{a||b}} ~= 4;\n    r += 1;\n}\nq += 1;" + END),
    ("reference in the other branch", S + "ref q = a[1];\nif (r > 100) {\n    r += 1;\n}\nelse {\n    {{a||b}} ~= 4;\n}\nq += 1;" + END),
    ("reference in an else if", S + "ref q = a[1];\nif (r > 100) {\n    r += 1;\n}\nelse if (r > 50) {\n    {{a||b}} ~= 4;\n}\nelse {\n    r += 3;\n}\nq += 1;" + END),
    ("reference and early leave", S + "for (mut i = 0; i < 3; i++) {\n    ref q = a[i];\n    if (q > 1) {\n        {{a ~= 4||b ~= 4}};\n        if (i > 1) break;\n    }\n    q += 1;\n}" + END),
    ("range kept, owner grown", S + "ref q = a[1 ..];\n{{a ~= 4||b ~= 4}};\nq[0] = 1;" + END),
    ("view argument and owner", "fn both(ref x: i32[], ref y: i32[..]) { x ~= 4; y[0] = 1; }\n" + S + "both(a, {{a||b}}[..2]);" + END),
    ("string byte kept, string grown", "mut s = \"abc\";\nmut t = \"x\";\nref q = s[1];\n{{s||t}} ~= \"d\";\nq = 'z';\nr += s.len + t.len;"),
    ("struct field kept, struct in array moved", "mut v = [Pt(1, 2), Pt(3, 4)];\nmut w = [Pt(1, 2)];\nref q = v[1].px;\n{{v||w}} ~= Pt(5, 6);\nq += 1;\nr += v.len + w.len;"),
    ("struct kept, array popped", "mut v = [Pt(1, 2), Pt(3, 4)];\nmut w = [Pt(1, 2)];\nref q = v[1];\n{{v||w}}.pop();\nq.px += 1;\nr += v.len + w.len;"),
    ("deferred use", S + "{\n    ref q = a[1];\n    defer q += 1;\n    {{a||b}} ~= 4;\n}" + END),
    ("two level", "mut n = [[[1]], [[2]]];\nmut m = [[[1]]];\nref q = n[1][0];\n{{n||m}}.pop();\nq ~= 1;\nr += n.len + m.len;"),
    ("nested function holds", S + "fn run1(ref q: i32) { {{a||b}} ~= 4; q += 1; }\nrun1(a[0]);" + END),
    ("nested function two deep", S + "fn inner1() { {{a||b}} ~= 4; }\nfn outer1() { inner1(); }\nref q = a[1];\nouter1();\nq += 1;" + END),
    ("nested function reads too", S + "ref q = a[1];\nfn use1() { q += 1; }\n{{a||b}} ~= 4;\nuse1();" + END),
    ("swap under a reference", S + "ref q = a[1];\n{{swap(a, b)||r += 1}};\nq += 1;" + END),
    ("assignment under a reference", S + "ref q = a[1];\n{{a||lax let z}} = b;\nq += 1;" + END),
    ("move under a reference", "mut n = [[1], [2]];\nref q = n[1];\nmut m = [[3]];\n{{n||m}}.splice(0, 1);\nq ~= 1;\nr += n.len + m.len;"),
    ("compound field", "mut x = Nm(\"q\", Pt(1, 2));\nmut y = Nm(\"q\", Pt(1, 2));\nref q = x.name[0];\n{{x||y}} = Nm(\"zz\", Pt(2, 3));\nq = 'w';\nr += x.name.len + y.name.len;"),
    ("const use after growth", S + "fn look(x: i32): i32 = x;\nref q = a[1];\n{{a ~= 4||b ~= 4}};\nr += look(q);\nq += 1;" + END),
    ("catch after growth", S + "ref q = a[1];\ntry {\n    {{a||b}} ~= 4;\n    if (r > 1000) throw(\"x\");\n}\ncatch (e) {\n    r += e.len;\n}\nq += 1;" + END),
    ("used in the catch", S + "ref q = a[1];\ntry {\n    {{a||b}} ~= 4;\n    if (r > 1000) throw(\"x\");\n}\ncatch (e) {\n    q += e.len;\n}" + END),
    ("grown in the catch", S + "ref q = a[1];\ntry {\n    if (r > 1000) throw(\"x\");\n}\ncatch (e) {\n    {{a||b}} ~= e.len;\n}\nq += 1;" + END),
    ("one of two results", "fn two1(ref x: i32[], ref y: i32[], c: bool): &mut i32 { if (c) return x[0]; return y[0]; }\n" + S + "ref q = two1(a, b, r > 0);\n{{b ~= 4||r += 4}};\nq += 1;" + END),
    ("through a struct of arrays", "mut x: Box;\nmut y: Box;\nx.items = [1, 2];\ny.items = [1, 2];\nref q = x.items[0];\n{{x||y}}.items ~= 3;\nq += 1;\nr += x.items.len + y.items.len;"),
    ("sibling field", "mut x: Box;\nx.items = [1, 2];\nx.name = \"ab\";\nref q = x.items[0];\nx.{{items ~= 3||name ~= \"c\"}};\nq += 1;\nr += x.items.len + x.name.len;"),
    ("argument moved and kept", "fn eat(x: i32[]): i32 = x.len;\n" + S + "ref q = a[1];\nr += eat({{a||b}});\n{{a||b}} = [1];\nq += 1;" + END),
]
FLOW = [f for f in FLOW if "{{" in f[1]]

# every statement that changes 'a' makes the fault; the twin changes 'b' in its place
J = "mut a = [1, 2, 3, 4, 5, 6, 7, 8];\nlax mut b = [1];\n"
JUMP = {
    "leave or fall through": "ref q = a[0];\nif (q > 0) {\n    @ ~= 4;\n    if (r > 100) @RET;\n}\nq += 100;",
    "leave at once or fall through": "ref q = a[0];\n@ ~= 4;\nif (r > 100) @RET;\nq += 100;",
    "break or fall through": "for (mut i = 0; i < 3; i++) {\n    ref q = a[i];\n    @ ~= 4;\n    if (i > 1) break;\n    q += 100;\n}",
    "break in a branch": "for (mut i = 0; i < 3; i++) {\n    ref q = a[i];\n    if (q > 1) {\n        @ ~= 4;\n        if (i > 1) break;\n    }\n    q += 100;\n}",
    "break before": "for (mut i = 0; i < 3; i++) {\n    ref q = a[i];\n    if (q > 1) {\n        if (i > 1) break;\n        @ ~= 4;\n    }\n    q += 100;\n}",
    "continue": "for (mut i = 0; i < 3; i++) {\n    ref q = a[i];\n    @ ~= 4;\n    if (i > 1) continue;\n    q += 100;\n}",
    "continue in a branch": "for (mut i = 0; i < 3; i++) {\n    ref q = a[i];\n    if (i > 0) {\n        @ ~= 4;\n        if (i > 1) continue;\n    }\n    q += 100;\n}",
    "throw or fall through": "ref q = a[0];\nif (q > 0) {\n    @ ~= 4;\n    if (r > 100) throw(\"x\");\n}\nq += 100;",
    "leave or change again": "ref q = a[0];\nif (q > 0) {\n    @ ~= 4;\n    if (r > 100) @RET; else @ ~= 5;\n}\nq += 100;",
    "leave a block": "ref q = a[0];\n:out {\n    @ ~= 4;\n    if (r > 100) break :out;\n    @ ~= 5;\n}\nq += 100;",
    "or that leaves": "ref q = a[0];\nif !(q > 0) {\n    @ ~= 4;\n    r < 100 || { @RET; };\n}\nq += 100;",
    "and, or and leave": "ref q = a[0];\nlet z = { @ ~= 4; r < 100 } || { @RET; };\nif (z) q += 1;",
    "nested condition leaves": "ref q = a[0];\nlet z = q > 0 ? 1 : { @ ~= 4; r < 100 ? 5 : { @RET; } };\nq += z;",
    "while with break": "ref q = a[0];\nwhile (r < 20) {\n    r++;\n    @ ~= 4;\n    if (r > 15) break;\n}\nq += 1;",
    "while with leave": "ref q = a[0];\nwhile (r < 20) {\n    r++;\n    @ ~= 4;\n    if (r > 15) @RET;\n}\nq += 1;",
    "do while with leave": "ref q = a[0];\ndo {\n    r++;\n    @ ~= 4;\n    if (r > 15) @RET;\n} while (r < 20);\nq += 1;",
    "do while with break": "ref q = a[0];\ndo {\n    r++;\n    @ ~= 4;\n    if (r > 15) break;\n} while (r < 20);\nq += 1;",
    "break always": "ref q = a[0];\nmut i = 0;\nwhile (i < 3) {\n    i++;\n    @ ~= 2;\n    break;\n}\nq += 1;",
    "before a loop that breaks": "ref q = a[0];\n@ ~= 4;\nwhile (r < 5) {\n    r++;\n    break;\n}\nq += 1;",
    "break, then another loop": "ref q = a[0];\nmut i = 0;\nwhile (i < 3) {\n    i++;\n    if (r > i) { @ ~= 2; break; }\n}\nmut j = 0;\nwhile (j < 3) {\n    j++;\n    q += 1;\n}",
    "next turn": "ref q = a[0];\nfor (mut i = 0; i < 4; i++) {\n    q += 1;\n    if (q > 2) {\n        @ ~= 4;\n        if (i > 2) break;\n    }\n}",
    "next turn by continue": "ref q = a[0];\nfor (mut i = 0; i < 4; i++) {\n    q += 1;\n    if (q > 2) {\n        @ ~= 4;\n        if (i > 2) continue;\n    }\n}",
    "outer loop": "ref q = a[0];\n:top for (mut i = 0; i < 4; i++) {\n    for (mut j = 0; j < 4; j++) {\n        q += 1;\n        if (j > i) {\n            @ ~= 4;\n            continue :top;\n        }\n    }\n}",
    "leave the outer loop": "ref q = a[0];\n:top for (mut i = 0; i < 4; i++) {\n    for (mut j = 0; j < 4; j++) {\n        if (j > i) {\n            @ ~= 4;\n            break :top;\n        }\n    }\n}\nq += 1;",
    "loop header": "ref q = a[0];\nfor (mut i = 0; i < 4; { i++; @ ~= 1; }) {\n    q += 1;\n}",
    "loop condition": "ref q = a[0];\nmut i = 0;\nwhile ({ @ ~= 1; i < 4 }) {\n    i++;\n    q += 1;\n}",
    "deferred change": "ref q = a[0];\n{\n    defer @ ~= 4;\n    if (q > 3) @RET;\n}\nq += 1;",
    "deferred change in a branch": "ref q = a[0];\nif (q > 0) {\n    defer @ ~= 4;\n    if (q > 3) @RET;\n}\nq += 1;",
    "deferred change and leaving the block": "ref q = a[0];\n:x {\n    defer @ ~= 4;\n    if (q > 3) break :x;\n}\nq += 1;",
    "change then deferred use": "ref q = a[0];\ndefer q += 1;\nif (r > 2) @ ~= 2;",
    "deferred use and a change before leaving": "ref q = a[0];\ndefer q += 1;\nif (r > 2) { @ ~= 2; @RET; }",
    "try that leaves": "ref q = a[0];\ntry {\n    @ ~= 4;\n    thr(r);\n    @RET;\n}\ncatch (e) r += e.len;\nq += 100;",
    "try that throws": "ref q = a[0];\ntry {\n    @ ~= 4;\n    thr(r);\n}\ncatch (e) r += e.len;\nq += 100;",
    "try in a try": "ref q = a[0];\ntry {\n    try {\n        @ ~= 4;\n        thr(r);\n        @RET;\n    }\n    catch (f) {\n        r += f.len;\n        thr(7);\n        @RET;\n    }\n}\ncatch (e) r += e.len;\nq += 100;",
    "try and break": "for (mut i = 0; i < 3; i++) {\n    ref q = a[0];\n    try {\n        @ ~= 4;\n        thr(r);\n        if (i > 0) break;\n    }\n    catch (e) r += e.len;\n    q += 100;\n}",
    "try and break at its end": "for (mut i = 0; i < 3; i++) {\n    ref q = a[0];\n    try {\n        @ ~= 4;\n        thr(r);\n        break;\n    }\n    catch (e) r += e.len;\n    q += 100;\n}",
    "try that breaks, used after the loop": "ref q = a[0];\nmut i = 0;\nwhile (i < 3) {\n    i++;\n    try {\n        thr(r);\n        @ ~= 2;\n        break;\n    }\n    catch (e) r += e.len;\n}\nq += 1;",
    "catch that breaks": "ref q = a[0];\nmut i = 0;\nwhile (i < 3) {\n    i++;\n    try thr(r);\n    catch (e) {\n        r += e.len;\n        @ ~= 2;\n        break;\n    }\n}\nq += 1;",
    "nested function that leaves early": "ref q = a[0];\nfn g1(x: i32): i32 { @ ~= x; if (x > 3) return 1; return 2; }\nif (q > 0) {\n    let z = g1(q);\n    if (z > 1) @RET;\n}\nq += 1;",
    "nested function leaves before": "ref q = a[0];\nfn g1(x: i32): i32 { if (x > 3) return 1; @ ~= x; return 2; }\nr += g1(q);\nq += 1;",
}
# texts in which the change and the use are never on one path: must be accepted
APART = {
    "change then leave": "ref q = a[0];\nif (q > 0) {\n    if (r > 2) { a ~= 4; @RET; }\n}\nq += 100;",
    "change in an operand then leave": "ref q = a[0];\nif (q > 0 && r > 5) { a ~= 4; @RET; }\nq += 100;",
    "loop change then leave": "ref q = a[0];\nwhile (r < 9) {\n    r++;\n    if (r > 4) { a = [2]; @RET; }\n}\nq += 1;",
    "a new reference each turn": "mut i = 0;\nwhile (i < 3) {\n    i++;\n    ref q = a[0];\n    q += 1;\n    if (r > i) { a = [2]; break; }\n}\nr += a[0];",
    "try that leaves after the change, catch leaves": "ref q = a[0];\ntry {\n    thr(q);\n    a ~= 4;\n    @RET;\n}\ncatch (e) {\n    r += e.len;\n    @RET;\n}",
    "used on the other branch": "ref q = a[0];\nif (r > 2) a ~= 4;\nelse q += 1;",
    "used before": "ref q = a[0];\nq += 1;\na ~= 4;\nref p = a[0];\np += 1;",
    "change of an item under a reference to another container": "ref q = a[0];\nb ~= q;\nq += 1;",
    "value instead of reference": "let q = a[0];\na ~= 4;\nr += q;",
}


def wrap(body, ret="return 7"):
    text = body.replace("@RET", ret)
    return DECLS + I.DECLS + "fn at2(ref x: i32[]): &mut i32[] = x;\n\nfn run(start: i32): i32 {\n    lax mut r = start;\n" + \
        I.indent(text) + "    return r;\n}\n\nfn main(): i32 {\n    println(run(1));\n    return 0;\n}\n"


def nest(body):
    """the same inside a nested function, called from a loop"""
    return "fn nested(x0: i32): i32 {\n    shadow mut r = x0;\n" + I.indent(body) + "    return r;\n}\nfor (mut k = 0; k < 2; k++) r += nested(k);"


def pairs():
    """-> [(name, faulty text, text without the fault)]"""
    out = []
    for o, (setup, changes) in OWN.items():
        for inv in changes:
            for k, rf in enumerate(REF):
                rf = rf.replace("%s", o)
                end = "r += %s.len;" % o
                bad = "\n".join([setup, rf, inv, "q += 1;", end])
                good = "\n".join([setup, rf, "q += 1;", inv, end])
                out.append(("%s | %s" % (rf.replace("\n", " "), inv.replace("\n", " ")), wrap(bad), wrap(good)))
    for name, t in FLOW:
        a, rest = t.split("{{", 1)
        bad, good, _ = I.variants(t) if t.count("{{") == 1 else (both(t, 0), both(t, 1), 0)
        out.append((name, wrap(bad), wrap(good)))
        out.append((name + ", nested", wrap(nest(bad)), wrap(nest(good))))
    for name, t in JUMP.items():
        bad, good = J + t.replace("@RET", "\1").replace("@", "a").replace("\1", "@RET"), J + t.replace("@RET", "\1").replace("@", "b").replace("\1", "@RET")
        end = "\nr += a.len + b.len;"
        out.append((name, wrap(bad + end), wrap(good + end)))
        out.append((name + ", nested", wrap(nest(bad + end)), wrap(nest(good + end))))
    return out


def both(t, k):
    import re
    return re.sub(r"\{\{(.*?)\|\|(.*?)\}\}", lambda m: m.group(k + 1), t, flags=re.S)


def apart():
    return [(n + w, wrap(f(J + t + "\nr += a.len + b.len;"))) for n, t in APART.items() for w, f in (("", str), (", nested", nest))]
