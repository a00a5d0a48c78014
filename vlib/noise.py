"""Texts no one would write: what a compiler is given by accident."""
import random
import re

TOK = re.compile(r'[A-Za-z_]\w*|\d+|"[^"\n]*"|\s+|.', re.S)
FAULTY = b"\0\x01\t\n\r\x0b\x0c\x1b \"'`\\/*{}()[]<>|&!?:;,.~^%$#@=+-0aAxeE_\x7f\x80\xbf\xc2\xe2\xf0\xff"


def mutate_tokens(text, pool, r):
    toks = TOK.findall(text)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not toks:
            break
        k, i = r.randrange(9), r.randrange(len(toks))
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k in (3, 4):
            toks[i] = r.choice(pool)
        elif k == 5:
            toks.insert(i, r.choice(pool))
        elif k == 6:
            seg, p = toks[i:i + r.randrange(1, 12)], r.randrange(len(toks))
            toks[p:p] = seg
        elif k == 7:
            del toks[i:i + r.randrange(1, 12)]
        else:
            # one name for another, everywhere
            names = [t for t in toks if t[0].isalpha()]
            if names:
                a, b = r.choice(names), r.choice(names)
                toks = [b if t == a else t for t in toks]
    return "".join(toks)


def mutate_bytes(b, r):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        k, i = r.randrange(6), r.randrange(len(b) + 1)
        if k == 0:
            b[i:i] = bytes([r.choice(FAULTY)])
        elif k == 1 and i < len(b):
            b[i] = r.choice(FAULTY)
        elif k == 2:
            del b[i:i + r.choice([1, 1, 2, 7])]
        elif k == 3:
            del b[i:]
        elif k == 4:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 8])))
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.randrange(40)]
    return bytes(b)


def shapes(n):
    """(name, text) of programs in which one construct is nested or repeated n times."""
    def w(b, pre=""):
        return pre + "\nfn main(): i32 {\n    mut r = 1;\n" + b + "\n    return r;\n}\n"

    f = "fn f(a: i32): i32 = a;\n"
    R = range(n)
    yield "parentheses", w("    r = " + "(" * n + "r" + ")" * n + ";")
    yield "negations", w("    r = " + "- " * n + "r;")
    yield "decrements", w("    r = " + "-" * n + "r;")
    yield "nots", w("    r = " + "!" * n + "r ? 1 : 2;")
    yield "sums", w("    r = " + "r + " * n + "r;")
    yield "concatenations", w("    mut s = \"a\";\n    s = " + "s ~ " * n + "s;\n    r += s.len;")
    yield "ands", w("    if (" + "r && " * n + "r) r++;")
    yield "ors", w("    if (" + "r || " * n + "r) r++;")
    yield "ands of ors", w("    if (" + "r && (r || " * n + "r" + ")" * n + ") r++;")
    yield "ternaries", w("    r = " + "r ? 1 : " * n + "r;")
    yield "ternaries left", w("    r = " + "r ? " * n + "r" + " : 1" * n + ";")
    yield "blocks", w("    " + "{" * n + "r++;" + "}" * n)
    yield "ifs", w("    " + "if (r) " * n + "r++;")
    yield "else ifs", w("    " + "if (r > 1) r++; else " * n + "r++;")
    yield "loops", w("    " + "".join("for (mut v_%d = 0; v_%d < 1; v_%d++) " % (i, i, i) for i in R) + "r++;")
    yield "array literals", w("    lax let a = " + "[" * n + "r" + "]" * n + ";")
    yield "array types", w("    lax mut a: i32" + "[]" * n + ";")
    yield "calls", w("    r = " + "f(" * n + "r" + ")" * n + ";", f)
    yield "method calls", w("    r = r" + ".f" * n + ";", f)
    yield "nested functions", w("".join("    " * (i + 1) + "fn f_%d(a_%d: i32): i32 {\n" % (i, i) for i in R) +
                                "    " * (n + 1) + "return a_0;\n" +
                                "".join("    " * (i + 1) + "}\n" + "    " * (i + 1) + "%s f_%d(%s);\n" % (
                                    "return" if i else "r =", i, "a_%d" % (i - 1) if i else "r") for i in reversed(R)))
    yield "functions", w("    r = f_%d(r);" % (n - 1), "fn f_0(a: i32): i32 = a;\n" + "".join(
        "fn f_%d(a: i32): i32 = f_%d(a);\n" % (i, i - 1) for i in R if i))
    yield "functions backwards", w("    r = f_%d(r);" % (n - 1), "".join(
        "fn f_%d(a: i32): i32 = f_%d(a);\n" % (i, i - 1) for i in reversed(R) if i) + "fn f_0(a: i32): i32 = a;\n")
    yield "templates backwards", w("    r = f_%d(r);" % (n - 1), "".join(
        "fn f_%d(a: $T): T = f_%d(a);\n" % (i, i - 1) for i in reversed(R) if i) + "fn f_0(a: $T): T = a;\n")
    yield "structs", w("    lax mut a: S_%d;" % (n - 1), "struct S_0 { a: i32; }\n" + "".join(
        "struct S_%d { a: S_%d; }\n" % (i, i - 1) for i in R if i))
    yield "fields", w("    lax mut a: S;", "struct S {\n" + "".join("    a_%d: i32;\n" % i for i in R) + "}\n")
    yield "locals", w("".join("    mut v_%d = r;\n    v_%d++;\n    r += v_%d;\n" % (i, i, i) for i in R))
    yield "arguments", w("    r = f(" + ", ".join("r" for i in R) + ");",
                         "fn f(" + ", ".join("a_%d: i32" % i for i in R) + "): i32 = " + " + ".join("a_%d" % i for i in R) + ";\n")
    yield "long string", w("    println(\"" + "x" * n * 100 + "\");")
    yield "long name", w("    mut v" + "x" * n * 10 + " = 1;\n    r += v" + "x" * n * 10 + "++;")
    yield "long number", w("    lax let v = " + "1" * n + ";")
    yield "long hex number", w("    lax let v = 0x" + "f" * n + ";")
    yield "long fraction", w("    lax let v = 0." + "1" * n + ";")
    yield "closures", w("    " + "".join("f(|x_%d| " % i for i in R) + "r += 1" + ")" * n + ";", "fn f(x) { x(1); }\n")
    yield "wrapped types", w("    lax let a = " + "f(" * n + "r" + ")" * n + ";", "fn f(a: $T): T[] = [ a ];\n")
    yield "comments", w("    " + "/*" * n + "*/" * n)
    yield "fields of nothing", w("    r = r" + ".a" * n + ";")
    yield "indexes of nothing", w("    r = r" + "[0]" * n + ";")
    yield "open parentheses", w("    r = " + "(" * n)
    yield "open braces", w("    " + "{" * n)
    yield "open brackets", w("    r = " + "[" * n)
    yield "open ifs", w("    " + "if (" * n)
    yield "open functions", "fn main(): i32 { " + "fn f() { " * n
    yield "open strings", "fn main(): i32 { \"" + "\\" * n
    yield "recursive template", w("    r = f(r);", "fn f(a: $T): T {\n    let b = [ a ];\n    return f(b)" + "[0]" * min(n, 3) + ";\n}\n")
    yield "template for ever larger types", w("    r = f(r);", "fn f(a: $T): i32 {\n    let b = [ a ];\n    return f(b);\n}\n")
    yield "templates for ever larger types", w("    r = f(r);", "fn g(a: $T): i32 {\n    let b = [ a ];\n    return f(b);\n}\n\nfn f(a: $T): i32 = g(a) + g([ a ]);\n")
    yield "template with ever more closures", w("    r = f(|x| x + 1);", "fn f(x): i32 = f(|y| x(y) + 1);\n")
    yield "template of ever more functions", w("    r = f(r);", "fn f(a: $T): i32 {\n    fn g(b: $U): i32 = f([ b ]);\n    return g(a);\n}\n")
    yield "functions of each other, no types", w("    r = f(r);", "fn f(a) = g(a) + 1;\nfn g(a) = f(a) + 1;\n")
    yield "struct of ever larger structs", w("    lax mut b: Box(i32);", "struct Box(type T) { item: Box(Box(T))[]; }\n")
    yield "conversions of each other", w("    r = f(A(1));", "struct A { b: i32; }\nstruct B { a: A; }\nusing fn toA(a: B): A = a.a;\nusing fn toB(a: A): B = B(a);\nfn f(a: string): i32 = a.len;\n")
    yield "recursive function of no type", w("    r = f(r);", "fn f(a) = f(f(a));\n")
    yield "structs of each other", w("    lax mut a: A;", "struct A { b: B[]; }\nstruct B { a: A[]; c: A; }\n")
    yield "global of itself", "let a = b;\nlet b = a;\n" + w("    r += a;")
    yield "default of itself", w("    r += f();", "fn f(a: i32 = f()): i32 = a;\n")


LITERALS = ["0x", "0b", "0o", "0x_", "1_", "1__0", "1e", "1e+", "1e-", "1.e", "1.", ".1", "1..2", "1...2", "0b2", "0o8",
            "00", "01", "0x1p", "0x1p+", "0x1.8", "0x1.8p3", "1e400", "1e-400", "9" * 40, "0x" + "f" * 40, "-9223372036854775808",
            "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967296", "-2147483649", "1u", "1.i8", "300.i8",
            "-1.u32", "1e5.i32", "0x80000000", "0b" + "1" * 70, "1.5e3x", "''", "'", "'ab'", "'\\'", "'\\n'", "'\n'", "\"", "\"\\",
            "\"\\x", "\"\\x1\"", "\"\\xzz\"", "\"\\u\"", "\"\\u{\"", "\"\\u{}\"", "\"\\u{110000}\"", "\"\\u{d800}\"", "\"\\u{fffffff}\"",
            "\"\\u{00000041}\"", "`", "`\\", "`\\x", "`\n\n", "`\n\\q`", "`${1}`", "\"\0\"", "\"\xff\"", "#", "$", "$T", "@", "@1", "_", "__native",
            "[:]", "[..]", "[]", "{}", "()", "(,)", "[,]", "[1,]", "f(,)", "|x|", "||", "|x| x", ":a", "::", "a::b", "a::", "::b", ".a", "..",
            "fn", "fn x", "let", "mut", "struct", "import", "pub", "for", "if", "return", "break", "try", "catch", "pragma", "enum",
            "primitive", "type", "using", "inline", "ref", "shadow", "lax", "nothrow", "pragma emit", "pragma emit(`", "pragma emit(`x`)",
            "/*", "//", "*/", "/**/", "/*/", "=>", "->", "<=>", "===", "!==", "<<=", ">>>", "**", "&&=", "||=", "~=", "^", "?", "?:", "!", "!!"]


def odd(r):
    """(name, files, main): texts at the edge of being texts."""
    ok = "fn main(): i32 {\n    mut r = 1;\n    r += 2;\n    return r - 3;\n}\n"

    def one(name, text):
        return name, {"main.fu": text}, "main.fu"

    yield one("nothing", "")
    for name, pre in (("newline", "\n"), ("blank", " "), ("nul", "\0"), ("bom", b"\xef\xbb\xbf"), ("utf16", b"\xff\xfe"), ("cr", "\r"),
                      ("crlf", "\r\n"), ("tab", "\t"), ("form feed", "\f"), ("hash bang", "#!/bin/fu\n"), ("dollar", "$"), ("backslash", "\\")):
        p = pre.encode() if isinstance(pre, str) else pre
        yield one(name + " only", p)
        yield one(name + " before", p + ok.encode())
        yield one(name + " after", ok.encode() + p)
        yield one(name + " inside", ok.encode().replace(b" += ", p + b"+=" + p))
    yield one("all crlf", ok.replace("\n", "\r\n"))
    yield one("all cr", ok.replace("\n", "\r"))
    yield one("tabs", ok.replace("    ", "\t"))
    yield one("one line", ok.replace("\n", " "))
    yield one("no last newline", ok.rstrip())
    yield one("every byte", bytes(range(256)))
    for b in range(256):
        yield one("byte %d" % b, bytes([b]))
        yield one("byte %d in a program" % b, ok.encode().replace(b"r += 2", b"r += " + bytes([b]) + b"2"))
        yield one("byte %d escaped" % b, ok.encode().replace(b"r += 2", b"r += \"\\" + bytes([b]) + b"\".len"))
        yield one("byte %d escaped in a byte" % b, ok.encode().replace(b"r += 2", b"r += '\\" + bytes([b]) + b"'.i32"))
    for l in LITERALS:
        for k, t in (("value", "    r += %s;"), ("statement", "    %s;"), ("argument", "    println(%s);"), ("end", None)):
            if t is None:
                yield one("%r at the end" % l, ok + l)
                yield one("%r alone" % l, l)
            else:
                yield one("%r as %s" % (l, k), ok.replace("    r += 2;", t % l))
        yield one("%r as a type" % l, ok.replace("mut r = 1", "mut r: %s = 1" % l))
        yield one("%r as a name" % l, ok + "fn %s(a: i32): i32 = a;\n" % l)
        yield one("%r as an argument" % l, ok + "fn f(%s): i32 = 1;\n" % l)
        yield one("%r as a field" % l, ok + "struct S { %s; }\n" % l)


ZOO = r"""import a{b, c};
// line *\/ comment
/* block ** comment / * */
pub let x = 0x1F + 0b101 - 0o17 * 1_000 / 1.5e-3 % 0x1.8p+3;
let s = "a\n\x41\u{1F600}\"\\" ~ 'c'.str ~ '\'' ~ `m
 \` \x41 ${x} l`;
:l for (mut i = 0; i < 3; i++) { if (i == 1 && !x || ~i <= -1) break :l; x <<= i; }
fn f(ref a: $T[..], b: i32 = 1, c: &mut T): T[] = |q| a.b[0](:c, d: 1) ? @1 : [ q, *1 ];
struct S <pure> { a: i32; } // end
/* open **"""


def cuts(zoo=ZOO):
    """Every beginning of a text in which all kinds of tokens occur: alone, and after a program."""
    ok = "fn main(): i32 {\n    return 0;\n}\n"
    b = zoo.encode()
    for i in range(len(b) + 1):
        yield "cut at %d" % i, {"main.fu": b[:i]}, "main.fu"
        # from the line's beginning, so that no earlier fault hides this one
        yield "line cut at %d" % i, {"main.fu": ok.encode() + b[b.rfind(b"\n", 0, i) + 1:i]}, "main.fu"
        if i < len(b):
            yield "end of a line cut at %d" % i, {"main.fu": ok.encode() + b[i:].split(b"\n")[0]}, "main.fu"


def modules(r):
    """(name, files, main): what files can be to each other."""
    main = "\nfn main(): i32 {\n    return 0;\n}\n"

    def m(*imps):
        return "".join("import %s;\n" % i for i in imps)

    yield "no such module", {"main.fu": m("absent") + main}, "main.fu"
    yield "no such name in a module", {"main.fu": m("a{nope}") + main, "a.fu": "pub let x = 1;\n"}, "main.fu"
    yield "module of itself", {"main.fu": m("main") + main}, "main.fu"
    yield "module empty", {"main.fu": m("a") + main, "a.fu": ""}, "main.fu"
    yield "module of bytes", {"main.fu": m("a") + main, "a.fu": bytes(range(256))}, "main.fu"
    yield "module is a directory", {"main.fu": m("a") + main, "a.fu/x.fu": ""}, "main.fu"
    yield "main is a directory", {"main.fu/x.fu": ""}, "main.fu"
    yield "main is absent", {"other.fu": main}, "main.fu"
    yield "main has no main", {"main.fu": "fn f(): i32 = 1;\n"}, "main.fu"
    yield "main twice", {"main.fu": main + main}, "main.fu"
    yield "main in a module", {"main.fu": m("a"), "a.fu": "pub" + main}, "main.fu"
    for n in (2, 3, 7):
        fs = {"a%d.fu" % i: m("a%d" % ((i + 1) % n)) + "pub fn f%d(): i32 = 1;\n" % i for i in range(n)}
        fs["main.fu"] = m("a0") + main
        yield "cycle of %d" % n, fs, "main.fu"
    fs = {"a%d.fu" % i: m("a%d" % (i + 1)) + "pub fn g%d(): i32 = g%d() + 1;\n" % (i, i + 1) for i in range(60)}
    fs["a60.fu"] = "pub fn g60(): i32 = 1;\n"
    fs["main.fu"] = m("a0") + "\nfn main(): i32 {\n    return g0();\n}\n"
    yield "chain of 60", fs, "main.fu"
    fs = {"a%d.fu" % i: m(*["a%d" % j for j in range(i)]) + "pub fn h%d(): i32 = 1;\n" % i for i in range(14)}
    fs["main.fu"] = m("a13") + main
    yield "all of all", fs, "main.fu"
    for l in ("", "\"a\"", "../a", "/etc/passwd", "a.fu", "a b", "a/b", "./main", "a{", "a{}", "a{b,}", "a{fn}", "*", "fn", "main main",
              "a\0b", "\xe9", "x" * 300, "../" * 200 + "x"):
        yield "import of %r" % l[:20], {"main.fu": "import %s;" % l + main, "a.fu": "pub fn b(): i32 = 1;\n"}, "main.fu"
        yield "import of %r, unfinished" % l[:20], {"main.fu": "import %s" % l}, "main.fu"
    for i in range(20):
        n = r.randrange(2, 9)
        fs = {"a%d.fu" % k: m(*["a%d" % r.randrange(n + 1) for _ in range(r.randrange(3))]) +
              "pub fn f%d(x: i32): i32 = x + %s;\n" % (k, "f%d(x)" % r.randrange(n) if r.random() < .7 else "1") for k in range(n)}
        fs["main.fu"] = m("a0") + "\nfn main(): i32 {\n    return f0(1);\n}\n"
        yield "graph %d" % i, fs, "main.fu"
