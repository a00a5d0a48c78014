"""Programs with one fault in them, each with a twin in which just the fault is put right.

An entry is a text with exactly one '{{bad||good}}'. Texts without 'fn main' are bodies: they are
put into several contexts (a function, a branch, a loop, a nested function, a closure, another module)."""
import re

DECLS = """
struct Pt { px: i32; py: i32; }
struct Nm { name: string; at: Pt; }
fn inc(ref a: i32) { a += 1; }
fn twice(a: i32): i32 = a * 2;
fn show(a: string): i32 = a.len;
fn pick(a: i32, b: string): i32 = a + b.len;
"""

BODY = []
TOP = []


def body(name, text, only="", loose=0, skip=()):
    """only: '' for both compilers, or the one it is for; loose: reported somewhere in the file;
    skip: contexts in which it is no fault."""
    BODY.append((name, text.strip("\n"), only, loose, skip))


def top(name, text, only="", loose=0):
    TOP.append((name, text.strip("\n"), only, loose, ()))



# ---- names
body("undefined variable", "let a = 1;\nlet b = a + {{bq||a}};\nr += b;")
body("undefined function", "r += {{twyce||twice}}(3);")
body("undefined field", "mut p: Pt;\np.{{pz||px}} = 4;\nr += p.px;")
body("undefined type", "mut p: {{Pq||Pt}};\np.px = 3;\nr += p.px;")
body("use before declaration", "r += {{late||1}};\nlet late = 2;\nr += late;")
body("out of scope after a block", "{\n    mut q = 3;\n    q++;\n    r += q;\n}\nr += {{q||1}};")
body("out of scope after a loop", "for (mut i = 0; i < 3; i++) r += i;\nr += {{i||1}};")
body("duplicate local", "mut a = 1;\nmut {{a||b = 5; b}} = 2;\n§r += a++;")
body("unused local", "{{let||lax let}} a = 1;\nr += 1;")
body("unknown label", ":out for (mut i = 0; i < 3; i++) {\n    if (i == 1) break :{{oot||out}};\n    r += i;\n}")
body("continue of unknown label", ":out for (mut i = 0; i < 3; i++) {\n    if (i == 1) continue :{{oot||out}};\n    r += i;\n}")
body("break outside a loop", "{{break;||r += 1;}}", skip=("loop",))
body("continue outside a loop", "{{continue;||r += 1;}}", skip=("loop",))


# ---- types
body("string into int variable", "mut a: i32 = {{\"x\"||3}};\na++;\nr += a;")
body("int into string variable", "mut a: string = {{3||\"3\"}};\na ~= \"x\";\nr += a.len;")
body("assign string to int", "mut a = 3;\na = {{\"x\"||4}};\nr += a;")
body("assign int to string", "mut a = \"x\";\na = {{4||\"y\"}};\nr += a.len;")
body("add int and string", "let a = 3;\nr += a + {{\"x\"||4}};")
body("subtract strings", "let a = \"abc\";\nlet b = a {{-||~}} \"c\";\nr += b.len;")
body("multiply a string", "let a = \"abc\";\nr += ({{a||a.len}} * 2);")
body("argument of wrong type", "r += twice({{\"x\"||2}});")
body("argument of wrong type, string", "r += show({{2||\"x\"}});")
body("second argument of wrong type", "r += pick(2, {{2||\"x\"}});")
body("arguments swapped", "r += pick({{\"x\", 2||2, \"x\"}});")
body("too few arguments", "r += pick({{2||2, \"x\"}});")
body("too many arguments", "r += twice(2{{, 3||}});")
body("no arguments", "r += twice({{||2}});")
body("wrong argument name", "r += pick({{q||a}}: 2, b: \"x\");")
body("struct for int", "mut p: Pt;\np.px = 1;\nr += twice({{p||p.px}});")
body("int for struct", "fn sum(p: Pt): i32 = p.px + p.py;\nlet p = Pt(1, 2);\nr += sum({{1||p}});")
body("other struct", "fn sum(p: Pt): i32 = p.px + p.py;\nlet n = Nm(\"q\", Pt(1, 2));\nr += sum({{n||n.at}});")
body("compare string with int", "let a = \"x\";\nif (a == {{1||\"x\"}}) r += 1;")
body("compare struct with int", "let p = Pt(1, 2);\nif (p == {{1||Pt(1, 2)}}) r += 1;")
body("compare array with string", "let p = [1, 2];\nif (p == {{\"x\"||[1, 2]}}) r += 1;")
body("array of mixed items", "let a = [1, {{\"x\"||2}}];\nr += a.len;")
body("push a string into ints", "mut a = [1, 2];\na ~= {{\"xyz\"||3}};\nr += a.len;")
body("push an int into strings", "mut a = [\"a\"];\na ~= {{3||\"3\"}};\nr += a.len;")
body("index with a string", "let a = [1, 2];\nr += a[{{\"x\"||1}}];")
body("index an int", "let a = {{1||[1]}};\n§r += a[0];")
body("call an int", "let a = 1;\nr += {{a(2)||a + 2}};")
body("field of an int", "let a = 1;\nr += {{a.px||a}};")
body("len of an int", "let a = 1;\nr += {{a.len||a}};")
body("string item assigned a string", "mut s = \"abc\";\ns[0] = {{\"x\"||'x'}};\nr += s.len;")
body("array item of wrong type", "mut s = [1, 2];\ns[0] = {{\"x\"||7}};\nr += s[0];")
body("field of wrong type", "mut p: Pt;\np.px = {{\"x\"||7}};\nr += p.px;")
body("constructor of wrong type", "let p = Pt(1, {{\"x\"||7}});\nr += p.px;")
body("constructor with too many", "let p = Pt(1, 2{{, 3||}});\nr += p.px;")
body("narrowing assignment", "let big: i64 = 3;\nmut a: i32 = {{big||big.i32}};\na++;\nr += a;")
body("narrowing argument", "let big: i64 = 3;\nr += twice({{big||big.i32}});")
body("sign change", "let big: u32 = 3;\nr += twice({{big||big.i32}});")
body("float to int", "let f: f64 = 3.5;\nr += twice({{f||f.i32}});")
body("mixed widths", "let a: i64 = 3;\nlet b: u64 = 4;\nif (a + {{b||b.i64}} > 3) r += 1;")
body("literal too large for i8", "mut a: i8 = {{300||100}};\na++;\nr += a.i32;")
body("literal too large for u8", "mut a: u8 = {{256||255}};\na++;\nr += a.i32;")
body("negative literal for unsigned", "mut a: u32 = {{-1||1}};\na++;\nr += a.i32;")
body("literal too large for i32", "mut a: i32 = {{3000000000||2000000000}};\na++;\nr += a;")
body("negating a string", "let s = \"abc\";\nr += {{(-s)||s}}.len;")
body("increment of a string", "mut s = \"abc\";\ns{{++|| ~= \"x\"}};\nr += s.len;")
body("shift by a string", "let a = 3;\nr += a << {{\"x\"||1}};")
body("bit-or with a float", "let a = 3;\nr += a | {{1.5||1}};")
body("return of wrong type", "fn f(a: i32): i32 { return {{\"x\"||a}}; }\nr += f(1);")
body("return of two types", "fn f(a: i32) {\n    if (a) return 1;\n    return {{\"x\"||2}};\n}\nr += f(1);")
body("missing return", "fn f(a: i32): i32 {\n    §if (a) return 1;\n    {{||return 2;}}\n}\nr += f(1);")
body("return a value from void", "fn f(ref a: i32): void { a++; return{{ 1||}}; }\nf(r);")
body("conditional with two types", "let b = r ? 1 : {{\"x\"||2}};\nr += b;")
body("uninitialised without type", "mut a{{||: i32}};\na = 4;\nr += a;")
body("empty array literal without type", "mut a{{||: i32[]}} = [];\nr += a.len;", loose=1)
body("void as a value", "fn nop(ref a: i32): void { a++; }\nr += {{nop(r)||twice(r)}};")
body("deferred type mismatch", "{\n    defer r = {{\"x\"||1}};\n    r += 1;\n}")


# ---- mutability, references
body("assign to let", "{{let||mut}} a = 1;\n§a = 2;\nr += a;")
body("increment of let", "{{let||mut}} a = 1;\n§a++;\nr += a;")
body("compound assign to let", "{{let||mut}} a = 1;\n§a += 3;\nr += a;")
body("push on let", "{{let||mut}} a = [1];\n§a ~= 3;\nr += a.len;")
body("item assign to let", "{{let||mut}} a = [1];\n§a[0] = 3;\nr += a.len;")
body("field assign to let", "{{let||mut}} p = Pt(1, 2);\n§p.px = 3;\nr += p.px;")
body("nested field assign to let", "{{let||mut}} n = Nm(\"q\", Pt(1, 2));\n§n.at.px = 3;\nr += n.at.px;")
body("mutable reference to let", "{{let||mut}} a = 1;\n§inc(a);\nr += a;")
body("mutable reference to a literal", "mut a = 1;\ninc({{1||a}});\nr += a;")
body("mutable reference to an expression", "mut a = 1;\ninc({{a + 1||a}});\nr += a;")
body("mutable reference to a let field", "{{let||mut}} p = Pt(1, 2);\n§inc(p.px);\nr += p.px;")
body("mutable reference to a let item", "{{let||mut}} a = [1];\n§inc(a[0]);\nr += a[0];")
body("assign to a plain argument", "fn f({{||mut }}a: i32): i32 { a = 2; return a; }\nr += f(1);")
body("assign through a const reference", "fn f({{const ||}}ref a: i32) { a = 2; }\nmut q = 1;\nf(q);\nr += q;")
body("const reference to mutable reference", "mut q = 1;\n{{const ||}}ref c = q;\n§c = 3;\nr += q;")
body("reference to a value of other type", "mut q = 1;\nref c: {{string||i32}} = q;\nc = 3;\nr += q;")
body("mutable reference of wider type", "fn f(ref a: i64) { a = 2; }\nmut q: {{i32||i64}} = 1;\n§f(q);\nr += q.i32;")
body("assign to a literal", "mut a = 3;\n{{3||a}} = 4;\nr += a;")
body("assign to a call", "mut a = 3;\n{{twice(a)||a}} = 4;\nr += a;")
body("swap with a let", "mut a = 3;\n{{let||mut}} b = 4;\n§swap(a, b);\nr += a + b;")
body("reference outlives its block", "mut a = [1, 2, 3];\nref q = a[0];\n{{a ~= 4||r += 4}};\n§q += 1;\nr += a[0];")
body("reference used after clear", "mut a = [1, 2, 3];\nref q = a[0];\n{{a.clear()||r += 4}};\n§q += 1;\nr += a.len;")
body("reference used after assignment of the owner", "mut a = [1, 2, 3];\nref q = a[1];\n{{a = [1]||r += 4}};\n§q += 1;\nr += a.len;")
body("loop item used after growth", "mut a = [[1], [2], [3]];\nfor (mut i = 0; i < a.len; i++) {\n    ref q = a[i];\n    {{if (i < 2) a ~= [3];||r += 1;}}\n    §q ~= 1;\n}\nr += a.len;")
body("reference into a field used after replacing the field", "mut n = Nm(\"q\", Pt(1, 2));\nref q = n.name[0];\n{{n.name = \"z\"||r += 1}};\n§q = 'w';\nr += n.name.len;")
body("reference into an element used after popping", "mut a = [[1], [2]];\nref q = a[1];\n{{a.pop()||r += 1}};\n§q ~= 2;\nr += a.len;")


# ---- functions, generics, structs
body("duplicate argument", "fn f(a: i32, {{a||lax b}}: i32): i32 = a + 1;\nr += f(1, 2);")
body("generic over two types", "fn same(a: $T, b: $T) = a == b;\nif (same(1, {{\"x\"||2}})) r += 1;")
body("generic body does not fit", "fn dbl(a) = §a + a;\nr += dbl({{Pt(1, 2)||3}});")
body("closure argument count", "fn app(f, a: i32): i32 = §f(a);\nr += app(|{{x, y||x}}| x + 1, 3);")
body("closure of wrong type", "fn app(f, a: i32): i32 = §f(a);\nr += app(|x| {{\"q\"||x + 1}}, 3);")
body("overload does not exist", "fn ov(a: i32): i32 = a;\nfn ov(a: string): i32 = a.len;\nr += ov({{Pt(1, 2)||1}});")
body("conflicting overloads", "fn ov(a: i32): i32 = a;\nfn ov(lax a: {{i32||string}}): i32 = 2;\n§r += ov(1);")
body("struct containing itself", "struct S { a: i32; b: {{S||i32}}; }\nmut s: S;\ns.a = 1;\nr += s.a;")
body("member initialiser", "struct S { a: i32{{ = 3||}}; }\nmut s: S;\ns.a = 1;\nr += s.a;")
body("member of unknown type", "struct S { a: {{Qq||i32}}; }\nmut s: S;\ns.a = 1;\nr += 1;")
body("unused result type", "let s = twice({{s||1}});\nr += s;")
body("non-optional after optional", "fn f(a: i32 = 1, b: i32{{||= 2}}): i32 = a + b;\nr += f(1, 2);")
body("default of wrong type", "fn f(a: i32 = {{\"x\"||1}}): i32 = a;\nr += f();")
body("named argument twice", "fn f(a: i32, b: i32): i32 = a + b;\nr += f(a: 1, {{a||b}}: 2);")
body("enum member does not exist", "enum E { one; two; }\nlet e = E.{{three||two}};\nif (e == E.one) r += 1;", only="fu")
body("catch variable annotated", "fn f(a: i32): i32 { if (a > 1000) throw(\"x\"); return a; }\nmut v = 0;\ntry { v = f(1); }\ncatch (e{{: string||}}) { v = e.len; }\nr += v;")
body("try without a throw type", "fn f(a: i32): i32 { if (a > 1000) throw({{3||\"x\"}}); return a; }\nr += f(1);")
body("noio function printing", "{{noio ||}}fn f(a: i32): i32 { println(a); return a; }\nr += f(1);")
body("nothrow function throwing", "{{nothrow ||}}fn f(a: i32): i32 { if (a > 1000) throw(\"x\"); return a; }\nr += f(1);")
body("nothrow function calling one that throws", "fn f(a: i32): i32 { if (a > 1000) throw(\"x\"); return a; }\n{{nothrow ||}}fn g(a: i32): i32 = f(a) + 1;\nr += g(1);")
body("purefx function printing", "{{purefx ||}}fn f(a: i32): i32 { println(a); return a; }\nr += f(1);")
body("label given twice", ":one {{:two ||}}for (mut i = 0; i < 3; i++) {\n    if (i == 1) break :one;\n    r += i;\n}", loose=1)


# ---- syntax
body("missing closing parenthesis", "r += (1 + 2{{||)}};")
body("extra closing parenthesis", "r += (1 + 2){{)||}};")
body("missing operand", "r += 1 + {{||2}};")
body("two operands", "r += 1 {{2||}};")
body("unterminated string", "let s = \"abc{{||\"}};\nr += s.len;")
body("unterminated char", "let s = 'a{{||'}};\nr += s.i32;")
body("char of two bytes", "let s = 'a{{b||}}';\nr += s.i32;")
body("empty char", "let s = '{{||a}}';\nr += s.i32;")
body("bad escape", "let s = \"a{{\\\\q||\\\\n}}\";\nr += s.len;".replace("\\\\", "\\"))
body("bad hex escape", "let s = \"a{{\\\\xg1||\\\\x41}}\";\nr += s.len;".replace("\\\\", "\\"))
body("short hex escape", "let s = \"a{{\\\\x4||\\\\x41}}\";\nr += s.len;".replace("\\\\", "\\"))
body("unicode escape without a brace", "let s = \"a{{\\\\u41||\\\\u{41}}}\";\nr += s.len;".replace("\\\\", "\\"))
body("unclosed comment", "r += 1; {{/* open||/* closed */}}\nr += 2;", loose=1)
body("malformed number", "r += {{12ab||12}};")
body("malformed hex", "r += {{0xg||0xf}};")
body("malformed real", "let f = {{1.5.2||1.5}};\nif (f > 1.0) r += 1;")
body("malformed exponent", "let f = {{1e||1e2}};\nif (f > 1.0) r += 1;")
body("number with a stray dot", "r += twice({{3.||3}});")
body("foreign character", "r += {{#||1}};")
body("non-ascii character", "r += {{\u00e9||1}};")
body("control character", "r += {{\x01||1}};")
body("else without if", "{{else r += 2;||r += 2;}}")
body("unclosed brace", "if (r) {\n    r += 1;\n{{||¶}}\nr += 1;", loose=1)
body("extra closing brace", "r += 1;\n{{¶||r += 1;}}", loose=1)
body("unclosed bracket", "let a = [1, 2{{||]}};\nr += a.len;", loose=1)
body("loop without a condition part", "for (mut i = 0{{||; i < 3; i++}}) r += 1;")
body("assignment in a call of nothing", "r += ({{= 3||3}});")
body("operator that is not", "r += 1 {{@@||+}} 2;")
body("double dot field", "let p = Pt(1, 2);\nr += p{{..||.}}px;")
top("no such module", "{{import no_such;||}}\n\nfn main(): i32 {\n    return 0;\n}")
top("main returns a string", "fn main(): {{string||i32}} {\n    return 0;\n}", loose=1)
top("unused parameter type", "fn f(a: {{Zork||i32}}): i32 = a;\n\nfn main(): i32 {\n    return f(0);\n}")
top("global of wrong type", "let g: i32 = {{\"x\"||3}};\n\nfn main(): i32 {\n    return g - 3;\n}")
top("duplicate function", "fn a(): i32 = 0;\nfn {{a||b}}(): i32 = 1;\n\nfn main(): i32 {\n    return §a();\n}")
top("operator of no known fixity", "infix fn {{!||-}}(a: string, b: string): i32 = a.len + b.len;\n\nfn main(): i32 {\n    return \"\" - \"\";\n}")
top("text after the end", "fn main(): i32 {\n    return 0;\n}\n{{) oops||}}")
top("shadow of a pub", "{{shadow pub||pub}} fn f(): i32 = 0;\n\nfn main(): i32 {\n    return f();\n}", loose=1)
top("pub inside a function", "fn main(): i32 {\n    {{pub ||}}fn f(): i32 = 0;\n    return f();\n}")
body("unicode escape too long", "let s = \"a{{\\u{1234567}||\\u{41}}}\";\nr += s.len;")
body("unicode escape unclosed", "let s = \"a\\u{41{{||}}}\";\nr += s.len;")
body("unicode escape beyond the last code point", "let s = \"a{{\\u{110000}||\\u{10ffff}}}\";\nr += s.len;")
body("hexadecimal real without an exponent", "let f = 0x1.8{{||p1}};\nif (f > 1.0) r += 1;")
body("continue of a block", ":lab {\n    if (r > 1000) {{continue||break}} :lab;\n    r += 1;\n}")
body("item of an array of another type", "let a: string[] = [\"x\", {{3||\"3\"}}];\nr += a.len;")
body("array for an item", "mut a: i32[] = [1];\na[0] = {{[2]||2}};\nr += a[0];")
body("nested array of another type", "mut a: i32[][] = [[1]];\na[0] = {{2||[2]}};\nr += a.len;")
body("range of a string assigned ints", "mut a = [1, 2, 3];\na[0 .. 2] = {{\"xy\"||[7, 8]}};\nr += a[0];")
body("closure returns into a wrong type", "fn app(a: i32, f): i32 { let v: {{string||i32}} = f(a); lax let w = v; return a; }\nr += app(3, |x| x + 1);", loose=1)
body("argument type of a template closure", "fn app(a: string, f): i32 = f(a);\nr += app(\"x\", |x| {{x + 1||x.len}});", loose=1)
body("generic constraint violated", "fn add(a: $T, b: $T): $T = a + b;\nlet big: i64 = 3;\nr += add(r, {{big||big.i32}});")
body("string compared to a byte", "let s = \"abc\";\nif (s{{||[0]}} == 'a') r += 1;")
body("two references exchanged", "mut a = 1;\nmut b = \"x\";\nswap(a, {{b||r}});\nb ~= \"y\";\nr += a + b.len;")
body("assignment used as a condition of another type", "mut s = \"a\";\nif (s == {{r||\"b\"}}) s = \"c\";\nr += s.len;")
body("throw of an int", "if (r > 1000) throw({{r||\"r\"}});\nr += 1;")
top("primitive without a base", "primitive Handle{{||: u32}};\n\nfn main(): i32 {\n    mut h: Handle;\n    lax let k = h;\n    return 0;\n}", loose=1)
top("primitive mixed with its base", "primitive Handle: u32;\nfn f(lax h: Handle): i32 = 0;\n\nfn main(): i32 {\n    let x: u32 = 3;\n    return f({{x||Handle(x)}});\n}")
top("prefix operator that is none", "prefix fn {{%||-}}(a: string): i32 = a.len;\n\nfn main(): i32 {\n    return 0;\n}")
top("postfix operator that is none", "postfix fn {{%||++}}(ref a: string): i32 = a.len;\n\nfn main(): i32 {\n    return 0;\n}")
top("name as an operator", "infix fn {{foo||-}}(a: string, b: string): i32 = a.len - b.len;\n\nfn main(): i32 {\n    return 0;\n}")
top("string unterminated at the end", "fn main(): i32 {\n    return 0;\n}\n{{\"abc||}}", loose=1)
top("struct holding itself through another", "struct A { b: {{B||i32}}; }\nstruct B { a: A; }\n\nfn main(): i32 {\n    mut b: B;\n    lax let c = b;\n    return 0;\n}", loose=1)
top("argument of unknown type", "struct Pt { px: i32; }\nfn f(a: Pt{{q||}}): i32 = a.px;\n\nfn main(): i32 {\n    return f(Pt());\n}", loose=1)

body("alias with an annotation", "type T1{{: i32||}} = i32;\nmut v: T1 = 3;\nv++;\nr += v;")
body("alias of nothing", "type T1{{||= i32}};\nmut v: T1 = 3;\nv++;\nr += v;", loose=1)
body("empty array of no known item", "mut a = {{[]||[ 1 ]}};\nr += a.len;", loose=1)
body("jump out of a noflow function", "{{noflow ||}}fn par(a: i32, x) { for (mut i = 0; i < a; i++) x(i); }\n:out {\n    par(3, |x| {\n        if (x == 2) break :out;\n        r += x;\n    });\n}\nr += 1;", loose=1)
body("struct that is to be trivial", "{{trivial ||}}struct Tq { a: string; }\nmut t: Tq;\nt.a = \"x\";\nr += t.a.len;")
body("using on an operator", "{{using ||}}infix fn -(a: string, b: string): i32 = a.len - b.len;\nr += \"a\" - \"b\";", loose=1)
body("purectx function writing around it", "{{purectx ||}}fn f(a: i32): i32 { r += a; return a; }\nr += f(1);", loose=1)
body("loop over an expression", "for {{(r)||(mut i = 0; i < 1; i++)}} r += 1;", loose=1)
body("condition of an empty block", "if ({{ {} ||r}}) r += 1;", loose=1)
body("required argument after an optional one", "fn f(a: i32 = 1, b: i32{{|| = 2}}): i32 = a + b;\nr += f(1, 2);", loose=1)
body("noio twice removed", "fn g(a: i32): i32 { println(a); return a; }\nfn h(a: i32): i32 = g(a);\n{{noio ||}}fn f(a: i32): i32 = h(a) + 1;\nr += f(1);")
body("nothrow twice removed", "fn g(a: i32): i32 { if (a > 1000) throw(\"x\"); return a; }\nfn h(a: i32): i32 = g(a);\n{{nothrow ||}}fn f(a: i32): i32 = h(a) + 1;\nr += f(1);")
body("purefx indirect", "fn g(a: i32): i32 { println(a); return a; }\n{{purefx ||}}fn f(a: i32): i32 = g(a) + 1;\nr += f(1);")
body("assertion given twice", "{{noio ||}}noio fn f(a: i32): i32 = a + 1;\nr += f(1);", only="boot")
top("enum follows a negative constant", "enum E { one = {{-1||1}}; two; }\n\nfn main(): i32 {\n    mut e = E.one;\n    e = E.two;\n    return e == E.one ? 1 : 0;\n}", loose=1)
top("type parameter twice", "fn f<A, {{A||B}}>(a: A): i32 = 0;\n\nfn main(): i32 {\n    return 0;\n}", loose=1)
body("multiline string never closed", "let a = {{`x||`x`}};\nr += a.len;")
body("unknown escape on a later line of a string", "let a = `x\ny{{\\q||q}}`;\nr += a.len;")

HOLE = re.compile(r"\{\{(.*?)\|\|(.*?)\}\}(?!\})", re.S)


def variants(text):
    """(bad text, good text, line of the text, counted from 0, on which the fault is reported)"""
    m = HOLE.search(text)
    assert m and not HOLE.search(text, m.end()) and text.count("§") < 2, text
    at = text.index("§") if "§" in text else m.start()
    if at > m.start():
        line = (text[:m.start()] + m.group(1) + text[m.end():at]).count("\n")
    else:
        line = text[:at].count("\n")
    brace = lambda s: "}" if s == "¶" else s
    f = lambda k: (text[:m.start()] + brace(m.group(k)) + text[m.end():]).replace("§", "")
    return f(1), f(2), line


def indent(text, n=1):
    return "".join("    " * n + l + "\n" if l else "\n" for l in text.split("\n"))


def _main(inner, extra=""):
    return DECLS + extra + "\nfn main(): i32 {\n    mut r = 1;\n" + inner + "    return r > 100000 ? 1 : 0;\n}\n"


def contexts(text):
    """name -> (files, main, file with the fault, lines before the text)"""
    out = {}

    def put(name, whole, fname="main.fu", files=None):
        k = whole.index("@@BODY@@")
        pre = whole[:k].count("\n")
        lead = whole[whole.rfind("\n", 0, k) + 1:k]
        whole = whole[:k - len(lead)] + indent(text, len(lead) // 4).rstrip("\n") + whole[k + 8:]
        fs = dict(files or {})
        fs[fname] = whole
        out[name] = (fs, "main.fu", fname, pre)

    put("main", _main("    @@BODY@@\n"))
    put("branch", _main("    if (r) {\n        @@BODY@@\n    }\n"))
    put("dead branch", _main("    if (r > 1000) {\n        @@BODY@@\n    }\n"))
    put("loop", _main("    for (mut i0 = 0; i0 < 2; i0++) {\n        @@BODY@@\n    }\n"))
    put("nested function", _main("    fn inner(shadow ref r: i32): void {\n        @@BODY@@\n        r += 1;\n    }\n    inner(r);\n"))
    put("function", _main("    r = work(r);\n", "\nfn work(q0: i32): i32 {\n    mut r = q0;\n    @@BODY@@\n    return r;\n}\n"))
    put("generic function", _main("    r += work(r, \"x\");\n", "\nfn work(q0: $T, w0: $U): i32 {\n    mut r = q0 + w0.len;\n    @@BODY@@\n    return r;\n}\n"))
    put("method", _main("    mut z = Pt(1, 2);\n    r += z.work();\n", "\nfn work(ref z0: Pt): i32 {\n    mut r = z0.px;\n    @@BODY@@\n    z0.py = r;\n    return r;\n}\n"))
    put("handler", _main("    try { if (r > 1000) throw(\"x\"); r += 1; }\n    catch (e0) {\n        r += e0.len;\n        @@BODY@@\n    }\n"))
    put("module", DECLS + "\nfn work(q0: i32): i32 {\n    mut r = q0;\n    @@BODY@@\n    return r;\n}\n", "part.fu",
        {"main.fu": "import part;\n\nfn main(): i32 {\n    return work(1) > 100000 ? 1 : 0;\n}\n"})
    return out
