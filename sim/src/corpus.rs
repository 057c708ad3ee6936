//! Hand-written material: feature snippets, growth shapes, and what is mined
//! from the working tree (words, numbers, the repository's own snippets).
use std::collections::BTreeSet;
use std::path::Path;

/// Feature snippets. Not necessarily accepted by giron: used as source text to
/// damage, as history elements and as concurrent calls, where any verdict is fine.
pub const SNIPS: &[&str] = &[
    "a = b + c * d - e / f % g;",
    "var x = 1, y = 2, z;",
    "let [a, , b = 2, ...c] = d;",
    "const {a, b: c, d = 1, e: {f}, ...g} = h;",
    "if (a) b; else if (c) d; else { e }",
    "for (var i = 0, n = 10; i < n; i++) { if (i) continue; break; }",
    "for (const x of xs) f(x);",
    "for (let k in o) { delete o[k]; }",
    "for (;;) { break }",
    "outer: while (true) { inner: do { continue outer; } while (0); break outer; }",
    "switch (x) { case 1: a(); case 2: b(); break; default: c() }",
    "try { a() } catch (e) { b(e) } finally { c() }",
    "try { a() } catch { b() }",
    "throw new Error('x');",
    "function f(a, b = 1, {c, d}, [e, f], ...g) { return a + b }",
    "function* g() { const x = yield 1; yield* g(); return x }",
    "async function h() { await x; for (const a of b) await a; }",
    "const f = async (a, b) => { await a; return b };",
    "const g = async x => await x;",
    "(function () { 'use strict'; return this })();",
    "(() => {})(), (a => a)(1), ((a, b) => ({a, b}))(1, 2);",
    "class A { constructor(x) { this.x = x } get y() { return 1 } set y(v) {} *gen() { yield 1 } [k]() {} }",
    "class B extends A { constructor() { super(); super.m() } m() { return super.m } }",
    "x = class { };",
    "o = {a, b: 1, c() {}, get d() { return 1 }, set d(v) {}, [e]: 2, 'f': 3, 4: 5, ...g, async h() {}, *i() {}};",
    "a ? b : c ? d : e;",
    "a && b || c && !d;",
    "a = b = c, d += e, f **= g;",
    "typeof a === 'undefined' ? void 0 : delete a.b;",
    "i++; --j; k--; ++l;",
    "a.b.c[d](e, ...f).g`t`;",
    "new Foo; new Foo(); new Foo.Bar(a, b).baz(); new (f())();",
    "new.target;",
    "function F() { return new.target }",
    "`a${b}c${`d${e}f`}g`;",
    "tag`x\\n${1}\\u0041`;",
    "/ab+c/gi.test(s);",
    "x = /[/\\]]+/ ;",
    "a = b / c / d;",
    "s = 'it\\'s' + \"a \\\"q\\\"\" + '\\u0041\\x41\\u{1F600}\\n\\\n';",
    "n = 0x1F + 0b11 + 0o17 + 1e3 + .5 + 1. + 1.5e-7;",
    "/* block */ a // line\n<!-- html\n b",
    "'use strict'; a = 1;",
    "\"use strict\"\nvar let1 = 1",
    "a\n++b\nc\n--d",
    "return1 = 1\nvar a\nvar b",
    "import a from 'a';",
    "import * as ns from \"b\";",
    "import {a, b as c, default as d} from 'c';",
    "import d, {e} from 'd';",
    "import 'side-effect';",
    "export default function () {}",
    "export default class Foo {}",
    "export default a + b;",
    "export const x = 1, y = 2;",
    "export function f() {}",
    "export {a, b as c};",
    "export * from 'm';",
    "export {a} from 'm';",
    "with (o) { p }",
    "debugger;",
    ";;;",
    "{ { { } } }",
    "({a = 1} = b);",
    "[a, b] = [b, a];",
    "[a = 1, ...b] = c;",
    "({a, b: [c]} = d);",
    "(a, b) => c;",
    "async () => {};",
    "async (x) => x;",
    "async x => x;",
    "async(a, b);",
    "var async; async = 1;",
    "get = set = of = from = as = 1;",
    "yield = 1;",
    "let = 1;",
    "await = 1;",
    "var \\u0061b = 1;",
    "var \\u{61}b = 1;",
    "a\\u0062c = 2;",
    "if (a) function f() {}",
    "label: function g() {}",
    "do x(); while (y) z();",
    "a => { } \n b",
    "x = {__proto__: null, \"__proto__\": 1};",
    "0, 1.0, 08, 017, 0.0e0;",
    "'\\0\\1\\07';",
    "a?.b ?? c;",
    "a ||= b;",
    "class C { static m() {} #p = 1; f = 2 }",
    "1n + 2n;",
    "import('x').then(y);",
    "import.meta.url;",
    "for await (const x of y) {}",
    "x = a ? (b, c) : d => e;",
    "(a, ...b) => b;",
    "({[a]: b, 'c': d, 1: e}) => f;",
    "([a, [b]], {c: {d}}) => a;",
    "function f({a: {b}, c = 1} = {}, [d = 2, ...e] = []) {}",
    "var {} = a, [] = b;",
    "for (var i = 0 in {});",
    "for (let [a, b] of c) {}",
    "for (const {a, b} of c) {}",
    "for (a.b in c) ;",
    "for (x of y) ;",
    "a = function b() {}, c = class d {};",
    "!function () {}();",
    "+a, -b, ~c, !d, void e, typeof f;",
    "a<b>c, a<=b>=c, a<<b>>c>>>d, a==b!=c, a===b!==c;",
    "a&b|c^d, a in b, a instanceof b;",
    "(2) ** 3 ** 2;",
    "-2 ** 2;",
    "x = y => ({}).z;",
    "if (1) { /x/ } /y/;",
    "a = b\n/c/d",
    "f(a)(b)(c)[d].e;",
    "f(,);", "f(a,);", "[,];", "[,,a,,];", "({,});",
    "\u{feff}a;", "a\u{2028}b\u{2029}c;", "\u{a0}a\u{3000};",
    "é = ñ + 变量 + 𠮷;",
    "'\u{2028}\u{2029}';",
    "#!/usr/bin/env node\na;",
    "a /* unterminated", "'unterminated", "`unterminated", "`a${", "`a${b", "/unterminated", "/[unterminated/",
    "\\", "\\u", "\\u{", "\\u{110000}", "'\\u{}'", "'\\x'", "@", "#", "\0", "\u{fffd}", "}", ")", "]", "...", "=>", "?", ":",
    "0x", "0b", "0o", "1e", "1e+", "1.e", ".", "..", "1..a", "0b2", "0o8", "0xg", "1a", "3in []",
];

/// One way in which a flat program can be longer. `§` in the unit is replaced
/// by a running number.
pub struct Shape {
    pub name: &'static str,
    pub module: bool,
    pub pre: &'static str,
    pub unit: &'static str,
    pub sep: &'static str,
    pub post: &'static str,
}

macro_rules! shapes {
    ($($name:expr, $m:expr, $pre:expr, $unit:expr, $sep:expr, $post:expr;)*) => {
        &[$(Shape { name: $name, module: $m, pre: $pre, unit: $unit, sep: $sep, post: $post }),*]
    };
}

pub const SHAPES: &[Shape] = shapes![
    "statements", false, "", "a§ = b;", "\n", "";
    "statements module", true, "", "a§ = b;", "\n", "";
    "statements asi", false, "", "a§ = b", "\n", "";
    "call statements", false, "", "f(a, 'x', 1);", " ", "";
    "empty statements", false, "", ";", "", "";
    "blocks", false, "", "{a;}", "", "";
    "empty blocks", false, "", "{}", "", "";
    "functions", false, "", "function f§(a, b) { return a + b; }", "\n", "";
    "generators", false, "", "function* f§(a) { yield a; }", "\n", "";
    "classes", false, "", "class C§ { m() { return 1 } }", "\n", "";
    "arrows", false, "", "x = (a, b) => a;", "\n", "";
    "async arrows", false, "", "x = async (a) => { await a; };", "\n", "";
    "ifs", false, "", "if (a) b; else c;", "\n", "";
    "ifs no else", false, "", "if (a) { b; }", "\n", "";
    "whiles", false, "", "while (a) b;", "\n", "";
    "dos", false, "", "do a; while (b);", "\n", "";
    "fors", false, "", "for (var i = 0; i < n; i++) a;", "\n", "";
    "for ins", false, "", "for (var k in o) a;", "\n", "";
    "for ofs", false, "", "for (const k of o) a;", "\n", "";
    "switches", false, "", "switch (a) { case 1: b; }", "\n", "";
    "tries", false, "", "try { a; } catch (e) { b; }", "\n", "";
    "labels", false, "", "L§: while (a) { break L§; }", "\n", "";
    "throws", false, "", "throw a;", "\n", "";
    "vars", false, "", "var a§ = 1;", "\n", "";
    "lets", true, "", "let a§ = 1;", "\n", "";
    "consts", true, "", "const a§ = 1;", "\n", "";
    "withs", false, "", "with (a) b;", "\n", "";
    "debuggers", false, "", "debugger;", "\n", "";
    "directives", false, "", "'x';", "\n", "";
    "directives asi", false, "", "'x'", "\n", "";
    "use stricts", true, "", "\"use strict\";", "", "";
    "function directives", false, "function f() {", "'x';", "\n", "}";
    "imports", true, "", "import a§ from 'm';", "\n", "";
    "import names", true, "import {", "a§", ",", "} from 'm';";
    "import renames", true, "import {", "x as a§", ", ", "} from 'm';";
    "bare imports", true, "", "import 'm';", "", "";
    "exports", true, "", "export const a§ = 1;", "\n", "";
    "export functions", true, "", "export function f§() {}", "\n", "";
    "export names", true, "export {", "a§", ", ", "};";
    "export stars", true, "", "export * from 'm';", "\n", "";
    "declarators", false, "var ", "a§", ", ", ";";
    "declarators init", false, "var ", "a§ = 1", ", ", ";";
    "declarators newline", false, "var ", "a§ = b", ",\n", ";";
    "const declarators", true, "const ", "a§ = 1", ", ", ";";
    "pattern declarators", false, "var ", "{a§} = b", ", ", ";";
    "array pattern", false, "var [", "a§", ", ", "] = x;";
    "array pattern defaults", false, "var [", "a§ = 1", ", ", "] = x;";
    "array pattern holes", false, "var [", ",", "", "] = x;";
    "object pattern", false, "var {", "a§", ", ", "} = x;";
    "object pattern renames", false, "var {", "p: a§ = 1", ", ", "} = x;";
    "sequence", false, "", "a§", ", ", ";";
    "sequence paren", false, "x = (", "a§", ", ", ");";
    "array", false, "x = [", "1", ", ", "];";
    "array names", false, "x = [", "a§", ",\n", "];";
    "array strings", false, "x = [", "'s'", ", ", "];";
    "array holes", false, "x = [", ",", "", "];";
    "array spread", false, "x = [", "...a", ", ", "];";
    "array objects", false, "x = [", "{a: 1, b: 'c'}", ", ", "];";
    "array arrays", false, "x = [", "[1, 2]", ", ", "];";
    "array regexes", false, "x = [", "/a/g", ", ", "];";
    "array templates", false, "x = [", "`a${b}c`", ", ", "];";
    "array functions", false, "x = [", "function () {}", ", ", "];";
    "array arrows", false, "x = [", "a => b", ", ", "];";
    "array ternaries", false, "x = [", "a ? b : c", ", ", "];";
    "array parens", false, "x = [", "(a)", ", ", "];";
    "array news", false, "x = [", "new A(b)", ", ", "];";
    "array members", false, "x = [", "a.b[c]", ", ", "];";
    "array updates", false, "x = [", "a++", ", ", "];";
    "array binaries", false, "x = [", "a + b * c", ", ", "];";
    "arguments", false, "f(", "a§", ", ", ");";
    "arguments spread", false, "f(", "...a", ", ", ");";
    "arguments functions", false, "f(", "function (a) { return a; }", ", ", ");";
    "new arguments", false, "new F(", "1", ", ", ");";
    "params", false, "function f(", "a§", ", ", ") {}";
    "params defaults", false, "function f(", "a§ = 1", ", ", ") {}";
    "params patterns", false, "function f(", "{a§}", ", ", ") {}";
    "arrow params", false, "x = (", "a§", ", ", ") => 1;";
    "arrow params defaults", false, "x = (", "a§ = 1", ", ", ") => 1;";
    "async arrow params", false, "x = async (", "a§", ", ", ") => 1;";
    "method params", false, "x = {m(", "a§", ", ", ") {}};";
    "object props", false, "x = {", "a§: 1", ", ", "};";
    "object props newline", false, "x = {", "a§: 'b'", ",\n", "};";
    "object shorthand", false, "x = {", "a§", ", ", "};";
    "object strings", false, "x = {", "'k§': 1", ", ", "};";
    "object computed", false, "x = {", "[a]: 1", ", ", "};";
    "object methods", false, "x = {", "m§() { return 1; }", ", ", "};";
    "object getters", false, "x = {", "get m§() { return 1; }", ", ", "};";
    "object setters", false, "x = {", "set m§(v) {}", ", ", "};";
    "object spread", false, "x = {", "...a", ", ", "};";
    "object numbers", false, "x = {", "1: 1", ", ", "};";
    "assign pattern array", false, "[", "a§", ", ", "] = x;";
    "assign pattern object", false, "({", "a§: b", ", ", "} = x);";
    "class methods", false, "class A {", "m§() { return 1; }", "\n", "}";
    "class getters", false, "class A {", "get m§() { return 1; }", "\n", "}";
    "class semicolons", false, "class A {", ";", "", "}";
    "class generators", false, "class A {", "*m§() { yield 1; }", "\n", "}";
    "class in expression", false, "x = class A {", "m§() {}", "\n", "};";
    "cases", false, "switch (x) {", "case 1: a;", "\n", "}";
    "cases empty", false, "switch (x) {", "case 1:", "\n", "}";
    "case body", false, "switch (x) { case 1:", "a;", "\n", "}";
    "function body", false, "function f() {", "a = 1;", "\n", "}";
    "function body vars", false, "function f() {", "var a§;", "\n", "}";
    "arrow body", false, "x = () => {", "a = 1;", "\n", "};";
    "generator body", false, "function* f() {", "yield a;", "\n", "}";
    "async body", false, "x = async () => {", "await a;", "\n", "};";
    "block body", false, "{", "a = 1;", "\n", "}";
    "try body", false, "try {", "a = 1;", "\n", "} finally {}";
    "loop body", false, "while (1) {", "if (a) continue;", "\n", "}";
    "nested body", false, "class A { m() { return [() => { for (;;) {", "a.b = c;", "\n", "} }]; } }";
    "template pieces", false, "x = `", "a${b}", "", "`;";
    "template pieces only", false, "x = `", "${b}", "", "`;";
    "template nested", false, "x = `", "${`a`}", "", "`;";
    "template tagged", false, "t`", "a${b}\n", "", "`;";
    "template braces", false, "x = `", "${{a: {}}}", "", "`;";
    "template text", false, "x = `", "a", "", "`;";
    "template newlines", false, "x = `", "\n", "", "`;";
    "template escapes", false, "x = `", "\\n", "", "`;";
    "template dollars", false, "x = `", "$", "", "`;";
    "string text", false, "x = '", "a", "", "';";
    "string double", false, "x = \"", "ab ", "", "\";";
    "string escapes", false, "x = '", "\\n", "", "';";
    "string unicode escapes", false, "x = '", "\\u0041", "", "';";
    "string code points", false, "x = '", "\\u{1F600}", "", "';";
    "string hex escapes", false, "x = '", "\\x41", "", "';";
    "string continuations", false, "x = '", "\\\n", "", "';";
    "string octals", false, "x = '", "\\0 ", "", "';";
    "string astral", false, "x = '", "😀", "", "';";
    "string quotes", false, "x = '", "\"", "", "';";
    "code point zeros", false, "x = '\\u{", "0", "", "41}';";
    "names", false, "x = ", "a", "", ";";
    "names unicode", false, "x = ", "é", "", ";";
    "names escaped", false, "x = ", "\\u0061", "", ";";
    "names escaped point", false, "x = ", "\\u{61}", "", ";";
    "member names", false, "x.", "a", "", ";";
    "label names", false, "", "a", "", ": while (1) {}";
    "digits", false, "x = 1", "1", "", ";";
    "fraction digits", false, "x = 1.", "1", "", ";";
    "fraction only", false, "x = .", "1", "", ";";
    "exponent digits", false, "x = 1e", "1", "", ";";
    "exponent zeros", false, "x = 1e", "0", "", "1;";
    "octal digits", false, "x = 0", "7", "", ";";
    "zeros", false, "x = 0", "0", "", ";";
    "hex zeros", false, "x = 0x", "0", "", "1;";
    "hex digits", false, "x = 0x", "f", "", ";";
    "binary digits", false, "x = 0b", "1", "", ";";
    "regex body", false, "x = /", "a", "", "/g;";
    "regex classes", false, "x = /", "[a/]", "", "/;";
    "regex class", false, "x = /[", "a", "", "]/;";
    "regex escapes", false, "x = /", "\\/", "", "/;";
    "regex groups", false, "x = /", "(a)", "", "/;";
    "regex flags", false, "x = /a/", "g", "", ";";
    "regex flags mixed", false, "x = /a/", "gimuy", "", ";";
    "spaces", false, "x =", " ", "", "1;";
    "tabs", false, "x =", "\t", "", "1;";
    "nbsp", false, "x =", "\u{a0}", "", "1;";
    "newlines", false, "x =", "\n", "", "1;";
    "crlf", false, "x =", "\r\n", "", "1;";
    "cr", false, "x =", "\r", "", "1;";
    "ls ps", false, "x =", "\u{2028}\u{2029}", "", "1;";
    "leading newlines", false, "", "\n", "", "x = 1;";
    "trailing newlines", false, "x = 1;", "\n", "", "";
    "leading spaces", false, "", " ", "", "x";
    "line comments", false, "x = ", "// c\n", "", "1;";
    "line comments empty", false, "", "//\n", "", "1;";
    "long line comment", false, "x = 1; //", "c", "", "\n;";
    "last line comment", false, "x = 1; //", "c", "", "";
    "block comments", false, "x = ", "/* c */", "", "1;";
    "block comments lines", false, "x = ", "/* c\n */\n", "", "1;";
    "leading comments", false, "", "/**/", "", "";
    "mixed comments", false, "", "/* a */ // b\n \t", "", "x";
    "long block comment", false, "x = /*", "c", "", "*/ 1;";
    "stars in comment", false, "x = /*", "*", "", "/ 1;";
    "slashes in comment", false, "x = /*", "/", "", "*/ 1;";
    "lines in comment", false, "x = /*", "\n", "", "*/ 1;";
    "comment in args", false, "f(a", "/* c */", "", ", b);";
    "comments between statements", false, "", "a; /* c */ // d\n", "", "";
    "comment before arrow", false, "x = (a)", "/* c */", "", "=> 1;";
    "comment after async", false, "x = async", "/* c */", "", "(a) => 1;";
    "comment after get", false, "x = {get", "/* c */", "", "a() {}};";
    "comment after return", false, "function f() { return", "/* c */", "", "a; }";
    "newlines before else", false, "if (a) {}", "\n", "", "else {}";
    "newlines in template hole", false, "x = `${", "\n", "", "a}`;";
    "async calls", false, "x = [", "async(a)", ", ", "];";
    "async words", false, "x = [", "async", ", ", "];";
    "get words", false, "x = {", "get: 1", ", ", "};";
    "lets as names", false, "", "let1 = 1;", " ", "";
    "parens", false, "", "(a);", "", "";
    "iifes", false, "", "(function () { a; })();", "\n", "";
    "template statements", false, "", "f(`a${b}\n${c}d`);", "\n", "";
    "regex statements", false, "", "x = /a[/]b/g.test(s);", "\n", "";
    "object statements", false, "", "x = {a: {b: {c: []}}};", "\n", "";
    "destructuring statements", false, "", "({a, b: [c]} = d);", "\n", "";
    "in functions", false, "", "function f() { return new.target }", "\n", "";
    "news", false, "", "new a.b(c).d;", "\n", "";
    "deletes", false, "", "delete a.b, void 0, typeof c;", "\n", "";
    "supers", false, "class A extends B {", "m§() { super.m(); }", "\n", "}";
];

/// Operator and punctuator chains that make the tree deeper: bounded repetition only.
pub const CHAINS: &[(&str, &str, &str)] = &[
    ("x = a", " + a", ";"),
    ("x = a", " && a", ";"),
    ("x = a", ".b", ";"),
    ("x = a", "[b]", ";"),
    ("x = a", "(b)", ";"),
    ("x = a", "`b`", ";"),
    ("x = a", " ** b", ";"),
    ("x = a", " = b", ";"),
    ("x = a", " ? b : c", ";"),
    ("x = a", " * b++", ";"),
    ("x = ", "- ", "a;"),
    ("x = ", "!", "a;"),
    ("x = ", "typeof ", "a;"),
    ("x = ", "new ", "a;"),
    ("", "if (a) b; else ", "c;"),
    ("", "a: ", "b;"),
    ("x = ", "a => ", "b;"),
    ("", "while (a) ", "b;"),
    ("", "for (;;) ", "b;"),
    ("x = ", "(", "a"),
    ("x = ", "[", "a"),
    ("x = ", "{a: ", "1"),
    ("", "{", "a;"),
    ("x = `", "${`", "a"),
    ("", "function f() { ", "a;"),
    ("x = ", "async () => { ", "a"),
    ("x = a", " in b", ";"),
    ("x = a", " instanceof b", ";"),
    ("x = a", "\n.b()", ";"),
    ("var ", "[", "a"),
    ("x = ", "...", "a"),
    ("x = a", " / b", ";"),
    ("x = a", "--", ";"),
    ("x = ", "++", "a;"),
    ("x = ", "async ", "a;"),
    ("x = ", "await ", "a;"),
    ("", "try { ", "a"),
    ("", "switch (a) { case 1: ", "a"),
    ("", "class A { m() { ", "a"),
];

pub fn unit(u: &str, i: usize) -> String {
    if u.contains('§') {
        u.replace('§', &i.to_string())
    } else {
        u.to_string()
    }
}

/// Words and numbers in the source of the tree under test, and its snippets.
#[derive(Default)]
pub struct Mined {
    pub words: Vec<String>,
    pub numbers: Vec<usize>,
    pub files: Vec<(String, String)>,
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out);
            } else {
                out.push(p);
            }
        }
    }
}

pub fn mine(repo: &str) -> Mined {
    let mut words = BTreeSet::new();
    let mut numbers = BTreeSet::new();
    let mut files = vec![];
    let mut v = vec![];
    walk(&Path::new(repo).join("giron/src"), &mut v);
    for p in &v {
        if p.extension().map_or(false, |e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(p) {
                mine_rust(&s, &mut words, &mut numbers);
            }
        }
    }
    let mut v = vec![];
    walk(&Path::new(repo).join("giron/tests/snippets"), &mut v);
    for p in &v {
        if let Ok(s) = std::fs::read_to_string(p) {
            if s.len() < 8000 {
                files.push((p.file_name().unwrap().to_string_lossy().into_owned(), s));
            }
        }
    }
    let mut words: Vec<String> = words.into_iter().collect();
    if words.is_empty() {
        words.push("foo".into());
    }
    let mut numbers: Vec<usize> = numbers.into_iter().collect();
    if numbers.is_empty() {
        numbers.push(8);
    }
    Mined { words, numbers, files }
}

fn mine_rust(s: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<usize>) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        // comments
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c[i] == '"' {
            let mut w = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match c.get(i) {
                        Some('n') => w.push('\n'),
                        Some('t') => w.push('\t'),
                        Some('r') => w.push('\r'),
                        Some(&x) => w.push(x),
                        None => {}
                    }
                } else {
                    w.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if !w.is_empty() && w.chars().count() <= 24 && !w.contains('{') || w == "{" || w == "${" {
                words.insert(w);
            }
            continue;
        }
        if c[i] == '\'' && i + 2 < c.len() {
            // 'x' or '\x' or '\u{...}'; lifetimes fall through
            if c[i + 1] != '\\' && c[i + 2] == '\'' {
                words.insert(c[i + 1].to_string());
                i += 3;
                continue;
            }
            if c[i + 1] == '\\' {
                let end = (i + 2..(i + 14).min(c.len())).find(|&j| c[j] == '\'' && j > i + 2 || c[j] == '\'' && c[j - 1] != '\\');
                if let Some(e) = end {
                    let esc: String = c[i + 2..e].iter().collect();
                    let ch = match esc.as_str() {
                        "n" => Some('\n'),
                        "r" => Some('\r'),
                        "t" => Some('\t'),
                        "0" => Some('\0'),
                        "\\" => Some('\\'),
                        "'" => Some('\''),
                        "\"" => Some('"'),
                        e if e.starts_with('u') => {
                            let h: String = e.chars().filter(|x| x.is_ascii_hexdigit()).collect();
                            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)
                        }
                        _ => None,
                    };
                    if let Some(ch) = ch {
                        words.insert(ch.to_string());
                    }
                    i = e + 1;
                    continue;
                }
            }
        }
        if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_ascii_alphanumeric() || c[i - 1] == '_')) {
            let mut w = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                if c[i] != '_' {
                    w.push(c[i]);
                }
                i += 1;
            }
            let w = w.trim_end_matches("usize").trim_end_matches("u32").trim_end_matches("u64").trim_end_matches("u16").trim_end_matches("u8").trim_end_matches("i64").trim_end_matches("i32");
            let v = if let Some(h) = w.strip_prefix("0x") { usize::from_str_radix(h, 16).ok() } else { w.parse().ok() };
            if let Some(v) = v {
                if v <= 2_000_000 {
                    numbers.insert(v);
                }
                // 1 << 12
                let before: String = c[i.saturating_sub(w.len() + 6)..i - w.len()].iter().filter(|x| !x.is_whitespace()).collect();
                if v < 21 && before.ends_with("1<<") {
                    numbers.insert(1 << v);
                }
                if let Some(ch) = u32::try_from(v).ok().and_then(char::from_u32) {
                    if v > 32 {
                        words.insert(ch.to_string());
                    }
                }
            }
            continue;
        }
        i += 1;
    }
}
