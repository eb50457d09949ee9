"""C18: what `parser!` accepts and rejects, observed through rustc on whole programs.

Every rejected program has a near-miss that must compile, so that a rejection is never an accident
of the set-up; programs that must compile and say something are also run."""
import json
import os
import random
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import check as c
import typed

HEAD = "#![recursion_limit = \"512\"]\n#![allow(unused, non_upper_case_globals, dead_code)]\nuse aoc_parse::{parser, prelude::*};\n"

# (name, items, body of main): must compile, and run without a failed assertion
GOOD = [
    ("literal string", "", 'parser!("ab").parse("ab").unwrap();'),
    ("literal char", "", "parser!('a').parse(\"a\").unwrap();"),
    ("raw string", "", 'parser!(r"\\d").parse("\\\\d").unwrap(); parser!(r#"a"b"#).parse("a\\"b").unwrap();'),
    ("escapes", "", 'parser!("\\u{e9}" \'\\n\' "\\t").parse("\\u{e9}\\n\\t").unwrap();'),
    ("const str", 'const P: &str = "> ";', 'assert_eq!(parser!(P u8).parse("> 5").unwrap(), 5);'),
    ("static str", 'static P: &str = "> ";', 'assert_eq!(parser!(P u8).parse("> 5").unwrap(), 5);'),
    ("const char", "const P: char = '#';", 'assert_eq!(parser!(P u8 P).parse("#5#").unwrap(), 5);'),
    ("local str", "", 'let sep = "--"; assert_eq!(parser!(u8 sep u8).parse("5--6").unwrap(), (5, 6));'),
    ("local char", "", "let sep = ';'; assert_eq!(parser!(repeat_sep(u8, sep)).parse(\"5;6\").unwrap(), vec![5, 6]);"),
    ("local parser", "", 'let f = parser!(i64 "/" u64); assert_eq!(parser!(f " tsp").parse("1/4 tsp").unwrap(), (1, 4));'),
    ("local parser twice in one pattern by reference", "", 'let f = parser!(i64 "/" u64); let f = &f; assert_eq!(parser!(f " " f).parse("1/4 2/5").unwrap(), ((1, 4), (2, 5)));'),
    ("empty arms", "", 'let p = parser!({"a" => 3, => 4} {"x", , "y"}); assert_eq!(p.parse("ay").unwrap(), (3, ())); assert_eq!(p.parse("").unwrap(), (4, ())); let p = parser!({=> 4, "a" => 3}); assert_eq!((p.parse("").unwrap(), p.parse("a").unwrap()), (4, 3)); parser!({, "a",}).parse("a").unwrap();'),
    ("empty rule", "", 'let p = parser!(rule e: () = ; rule n: u8 = e "<" v:u8 ">" e => v; n); assert_eq!(p.parse("<5>").unwrap(), 5);'),
    ("unit", "", 'parser!(()).parse("").unwrap();'),
    ("unit in a sequence", "", 'assert_eq!(parser!(() u8 "" ()).parse("5").unwrap(), ((), 5, ()));'),
    ("eight values", "", 'assert_eq!(parser!(digit digit digit digit digit digit digit digit).parse("12345678").unwrap(), (1, 2, 3, 4, 5, 6, 7, 8));'),
    ("long sequence of literals", "", 'assert_eq!(parser!("a" "b" "c" "d" "e" "f" "g" "h" "i" "j" "k" "l" "m" "n" "o" "p" u8).parse("abcdefghijklmnop5").unwrap(), 5);'),
    ("star", "", 'assert_eq!(parser!(digit*).parse("12").unwrap(), vec![1, 2]);'),
    ("plus", "", 'assert_eq!(parser!(digit+).parse("12").unwrap(), vec![1, 2]);'),
    ("opt", "", 'assert_eq!(parser!("x=" i32?).parse("x=").unwrap(), None);'),
    ("quantified literal", "", 'assert_eq!(parser!("a"* \'b\'+ "c"?).parse("aab").unwrap(), (vec![(), ()], vec![()], None));'),
    ("quantified group", "", 'assert_eq!(parser!((digit ",")*).parse("1,2,").unwrap(), vec![1, 2]);'),
    ("quantified alternation", "", 'assert_eq!(parser!({"a" => 1, "b" => 2}+).parse("ab").unwrap(), vec![1, 2]);'),
    ("quantified call", "", 'assert_eq!(parser!(line(u8)* char_of("ab")?).parse("1\\n2\\na").unwrap(), (vec![1, 2], Some(0)));'),
    ("quantified const", 'const P: &str = "ab";', 'assert_eq!(parser!(P+ u8).parse("abab5").unwrap(), (vec![(), ()], 5));'),
    ("group of group", "", 'assert_eq!(parser!((((u8)))).parse("5").unwrap(), 5);'),
    ("ten deep", "", 'assert_eq!(parser!((((((((((u8 "a") "b") "c") "d") "e") "f") "g") "h") "i")).parse("5abcdefghi").unwrap(), 5);'),
    ("alternation of two", "", 'assert_eq!(parser!({"<" => -1, ">" => 1}).parse(">").unwrap(), 1);'),
    ("alternation, trailing comma", "", 'assert_eq!(parser!({"<" => -1, ">" => 1,}).parse("<").unwrap(), -1);'),
    ("alternation of one", "", 'assert_eq!(parser!({u8 => 7}).parse("5").unwrap(), 7);'),
    ("alternation of one, trailing comma", "", 'assert_eq!(parser!({x:u8 => x,}).parse("5").unwrap(), 5);'),
    ("twenty arms", "", 'assert_eq!(parser!({' + ", ".join("'%s' => %d" % (chr(97 + i), i) for i in range(20)) + '}).parse("t").unwrap(), 19);'),
    ("nested alternations", "", 'assert_eq!(parser!({{"a" => 1, "b" => 2}, {"c" => 3, {"d" => 4, "e" => 5}}}).parse("e").unwrap(), 5);'),
    ("arms of several terms", "", 'assert_eq!(parser!({"a" x:u8 "b" => x, y:u8 "-" z:u8 => y + z}).parse("1-2").unwrap(), 3);'),
    ("enum arms", "#[derive(Debug, PartialEq)] enum E { A(u8), B, C { x: i8 } }", 'let p = parser!(lines({"a" n:u8 => E::A(n), "b" => E::B, "c" x:i8 => E::C { x }})); assert_eq!(p.parse("a1\\nb\\nc-3\\n").unwrap(), vec![E::A(1), E::B, E::C { x: -3 }]);'),
    ("struct", "#[derive(Debug, PartialEq)] struct Elf { name: String, height: u32 }", "let p = parser!(lines(elf:string(alpha+) '=' ht:u32 => Elf { name: elf, height: ht })); assert_eq!(p.parse(\"Ivy=7\\n\").unwrap(), vec![Elf { name: \"Ivy\".to_string(), height: 7 }]);"),
    ("label on literal", "", 'let p = parser!(a:"x" b:u8 => { let () = a; b }); assert_eq!(p.parse("x5").unwrap(), 5);'),
    ("label on char", "", "let p = parser!(a:'x' => a); let () = p.parse(\"x\").unwrap();"),
    ("label on group", "", 'let p = parser!(a:(u8 "," u8) => a.0 + a.1); assert_eq!(p.parse("5,6").unwrap(), 11);'),
    ("label on alternation", "", 'let p = parser!(a:{"x" => 1, "y" => 2} b:u8 => a + b); assert_eq!(p.parse("y5").unwrap(), 7);'),
    ("label on call", "", 'let p = parser!(a:lines(u8) => a.len()); assert_eq!(p.parse("1\\n2\\n").unwrap(), 2);'),
    ("label on quantified", "", 'let p = parser!(a:digit* "," b:digit+ "," c:digit? => (a.len(), b.len(), c)); assert_eq!(p.parse("12,3,").unwrap(), (2, 1, None));'),
    ("label without conversion", "", 'assert_eq!(parser!(a:u8 "," b:u8).parse("5,6").unwrap(), (5, 6));'),
    ("labels in reverse", "", 'assert_eq!(parser!(a:u8 "," b:i8 "," c:alpha => (c, b, a)).parse("5,-6,x").unwrap(), (\'x\', -6i8, 5u8));'),
    ("unlabelled between", "", 'assert_eq!(parser!(u8 "," b:i8 "," alpha => b).parse("5,-6,x").unwrap(), -6);'),
    ("no labels", "", 'assert_eq!(parser!(u8 "," i8 => "gone").parse("5,-6").unwrap(), "gone");'),
    ("inner labels are their own", "", 'assert_eq!(parser!(a:u8 "," b:(a:u8 "," b:u8 => a * b) => a + b).parse("5,6,7").unwrap(), 47);'),
    ("twelve labels", "", 'assert_eq!(parser!(a:digit b:digit c:digit d:digit e:digit f:digit g:digit h:digit i:digit j:digit k:digit l:digit => [l, k, j, i, h, g, f, e, d, c, b, a]).parse("123456789012").unwrap(), [2, 1, 0, 9, 8, 7, 6, 5, 4, 3, 2, 1]);'),
    ("block conversion", "", 'assert_eq!(parser!(a:u8 => { let b = a; b + 1 }).parse("5").unwrap(), 6);'),
    ("match conversion", "", 'assert_eq!(parser!(a:u8 => match a { 0 => "zero", _ => "more" }).parse("5").unwrap(), "more");'),
    ("if conversion", "", 'assert_eq!(parser!(a:u8 => if a > 3 { 1 } else { 2 }).parse("5").unwrap(), 1);'),
    ("closure conversion", "", 'assert_eq!(parser!(a:u8 => move |x: u8| x + a).parse("5").unwrap()(1), 6);'),
    ("macro conversion", "", 'assert_eq!(parser!(a:u8 => format!("<{}>", a)).parse("5").unwrap(), "<5>");'),
    ("method chain conversion", "", 'assert_eq!(parser!(a:digit* => a.into_iter().map(|x| x * 2).sum::<usize>()).parse("12").unwrap(), 6);'),
    ("conversion with arrow inside", "", 'assert_eq!(parser!({a:u8 => match a { 1 => 10, _ => 20 }, "x" => 30}).parse("1").unwrap(), 10);'),
    ("conversion with commas of its own, in an arm", "use std::collections::HashMap;", 'let p = parser!({"m" => HashMap::<u8, char>::new(), k:u8 v:alpha => HashMap::<u8, char>::from([(k, v)])}); assert_eq!(p.parse("5x").unwrap()[&5], \'x\'); let q = parser!({n:i8 => move |x: i8, y: i8| x - y * n,}); assert_eq!(q.parse("2").unwrap()(5, 6), -7);'),
    ("conversion with commas of its own, in an argument", "use std::collections::HashMap;", 'let p = parser!(repeat_sep(k:u8 v:alpha => HashMap::<u8, char>::from([(k, v)]), ",")); assert_eq!(p.parse("5x,6y").unwrap()[1][&6], \'y\'); let q = parser!(lines(n:i8 => move |x: i8, y: i8| x * n + y)); assert_eq!(q.parse("5\\n").unwrap()[0](2, 1), 11);'),
    ("conversion capturing a local", "", 'let k = 3; assert_eq!(parser!(a:u8 => a + k).parse("5").unwrap(), 8);'),
    ("keyword-like labels", "", 'assert_eq!(parser!(r#type:u8 "," r#match:u8 => r#type * r#match).parse("5,6").unwrap(), 30);'),
    ("call with no arguments", "fn f() -> &'static str { \"x\" }", 'assert_eq!(parser!(f() u8).parse("x5").unwrap(), 5);'),
    ("call with one argument", "", 'assert_eq!(parser!(string(u8)).parse("5").unwrap(), "5");'),
    ("call with two arguments", "", 'assert_eq!(parser!(repeat_sep(u8, ",")).parse("5,6").unwrap(), vec![5, 6]);'),
    ("call with trailing comma", "", 'assert_eq!(parser!(repeat_sep(u8, ",",)).parse("5,6").unwrap(), vec![5, 6]); assert_eq!(parser!(string(u8,)).parse("5").unwrap(), "5");'),
    ("call with three arguments", "fn f<A: Parser, B: Parser, C: Parser>(_: A, b: B, _: C) -> B { b }", 'assert_eq!(parser!(f("a", u8, "c")).parse("5").unwrap(), 5);'),
    ("call with five arguments", "fn f<A, B, C, D, E>(_: A, _: B, _: C, _: D, e: E) -> E { e }", 'assert_eq!(parser!(f(1, \'2\', "3", 4.5, u8)).parse("5").unwrap(), 5);'),
    ("call with a sequence argument", "", 'assert_eq!(parser!(repeat_sep(u8 "-" u8, "," " "?)).parse("5-6,7-8, 9-0").unwrap(), vec![(5, 6), (7, 8), (9, 0)]);'),
    ("call with a conversion argument", "", 'assert_eq!(parser!(lines(a:u8 "," b:u8 => a + b)).parse("5,6\\n").unwrap(), vec![11]);'),
    ("call with an alternation argument", "", 'assert_eq!(parser!(lines({"a" => 1, "b" => 2})).parse("a\\nb\\n").unwrap(), vec![1, 2]);'),
    ("call with a conversion and commas inside", "", 'assert_eq!(parser!(repeat_sep(a:u8 "-" b:u8 => (b, a), ",")).parse("5-6,7-8").unwrap(), vec![(6, 5), (8, 7)]);'),
    ("calls in calls", "", 'assert_eq!(parser!(sections(lines(repeat_sep(string(alpha+), " ")))).parse("a b\\nc\\n\\nd\\n").unwrap().len(), 2);'),
    ("call then group", "", 'assert_eq!(parser!(string(alpha) (u8)).parse("a5").unwrap(), ("a".to_string(), 5));'),
    ("group then call", "", 'assert_eq!(parser!((u8) string(alpha)).parse("5a").unwrap(), (5, "a".to_string()));'),
    ("one rule", "", 'assert_eq!(parser!(rule a: u8 = u8; a).parse("5").unwrap(), 5);'),
    ("rules in any order", "", 'assert_eq!(parser!(rule a: u8 = "(" b ")"; rule b: u8 = u8; a).parse("(5)").unwrap(), 5);'),
    ("rules, final pattern is not a rule", "", 'assert_eq!(parser!(rule a: u8 = "(" u8 ")"; a " " a).parse("(5) (6)").unwrap(), (5, 6));'),
    ("rules, conversion in the final pattern", "", 'assert_eq!(parser!(rule a: u8 = u8; x:a "+" y:a => x + y).parse("5+6").unwrap(), 11);'),
    ("five rules", "", 'assert_eq!(parser!(rule a: u8 = "a" b; rule b: u8 = "b" c; rule c: u8 = "c" d; rule d: u8 = "d" e; rule e: u8 = u8; a).parse("abcd5").unwrap(), 5);'),
    ("unused rule", "", 'assert_eq!(parser!(rule a: u8 = u8; rule b: char = alpha; a).parse("5").unwrap(), 5);'),
    ("recursion", "", 'assert_eq!(parser!(rule n: usize = {"(" x:n ")" => x + 1, "" => 0}; n).parse("((()))").unwrap(), 3);'),
    ("mutual recursion", "", 'assert_eq!(parser!(rule a: usize = {"a" x:b => x + 1, "." => 0}; rule b: usize = {"b" x:a => x + 10, "!" => 100}; a).parse("aba!").unwrap(), 112);'),
    ("recursive type", "#[derive(Debug, PartialEq)] enum T { Leaf(u8), Node(Vec<T>) }", 'let p = parser!(rule t: T = {n:u8 => T::Leaf(n), "[" v:repeat_sep(t, ",") "]" => T::Node(v)}; t); assert_eq!(p.parse("[1,[2,[]]]").unwrap(), T::Node(vec![T::Leaf(1), T::Node(vec![T::Leaf(2), T::Node(vec![])])]));'),
    ("rule types with generics and paths", "", 'let p = parser!(rule a: std::vec::Vec<(u8, Option<Box<char>>)> = repeat_sep(x:u8 y:alpha? => (x, y.map(Box::new)), ","); rule b: [u8; 2] = x:u8 "," y:u8 => [x, y]; {b => 0, a => 1}); assert_eq!(p.parse("5,6x").unwrap(), 1);'),
    ("rule type: reference to static", "", 'let p = parser!(rule a: &\'static str = {"x" => "X", "y" => "Y"}; a+); assert_eq!(p.parse("xy").unwrap(), vec!["X", "Y"]);'),
    ("rule type: function pointer", "", 'let p = parser!(rule a: fn(u8) -> u8 = "n" => (|x| x + 1) as fn(u8) -> u8; a); assert_eq!(p.parse("n").unwrap()(4), 5);'),
    ("rules with names of the library", "", 'let p = parser!(rule empty: u8 = u8; rule builder: u8 = "(" empty ")"; rule line: u8 = builder; line); assert_eq!(p.parse("(5)").unwrap(), 5);'),
    ("rules inside a local inside rules", "", 'let w = parser!(rule a: u8 = u8; a); let p = parser!(rule a: u8 = "<" w ">"; a); assert_eq!(p.parse("<5>").unwrap(), 5);'),
    ("rules over several lines", "", 'let p = parser! {\n    rule expr: i64 = {\n        t:term => t,\n        l:term "+" r:expr => l + r,\n    };\n    rule term: i64 = {\n        x:i64 => x,\n        "(" e:expr ")" => e,\n    };\n    expr\n};\nassert_eq!(p.parse("1+(2+3)").unwrap(), 6);'),
    ("brackets of every kind", "", 'parser!["a"].parse("a").unwrap(); parser!{"a"}.parse("a").unwrap();'),
    ("a function returning a parser", "fn f() -> impl Parser<Output = u8> { parser!(\"#\" u8) }", 'assert_eq!(f().parse("#5").unwrap(), 5); let p = f(); assert_eq!(p.parse("#6").unwrap(), 6);'),
    ("a generic function over parsers", "fn go<P: Parser>(p: &P, s: &str) -> P::Output { p.parse(s).unwrap() }", 'assert_eq!(go(&parser!(u8 "," u8), "5,6"), (5, 6));'),
    ("boxed parser", "", 'let p = Box::new(parser!(u8)); assert_eq!(p.parse("5").unwrap(), 5);'),
    ("parser in a const function position", "", 'fn twice(s: &str) -> (u8, u8) { parser!(u8 "," u8).parse(s).unwrap() } assert_eq!(twice("5,6"), (5, 6));'),
    ("names of the library shadowed by the user", "fn map() {} fn opt() {} fn star() {} fn plus() {} fn sequence() {} fn pair() {} fn alt() {} fn empty() {} fn single_value() {} mod macros {}",
     'assert_eq!(parser!(a:u8 "," b:alpha* c:digit+ d:("x" y:u8 => y)? {"!" => 1, "?" => 2} => (a, b.len(), c.len(), d)).parse("5,ab12x3!").unwrap(), (5, 2, 2, Some(3)));'),
    ("std names shadowed by the user", "struct Vec; struct Option; struct String; struct Box; enum Result {} fn Some() {} fn drop() {}",
     'parser!(rule r: u8 = u8; a:alpha* b:r? => (a.len(), b.is_some())).parse("ab5").unwrap();'),
    ("by path", "", 'assert_eq!(aoc_parse::parser!(lines(u8)).parse("5\\n").unwrap(), vec![5]);'),
    ("every name of the prelude", "", 'parser!({' + ", ".join("string(%s)" % n for n in (
        "u8 u16 u32 u64 u128 usize big_uint i8 i16 i32 i64 i128 isize big_int f32 f64 bool alpha alnum upper lower any_char digit digit_bin digit_hex "
        "u8_bin u16_bin u32_bin u64_bin u128_bin usize_bin big_uint_bin i8_bin i16_bin i32_bin i64_bin i128_bin isize_bin big_int_bin "
        "u8_hex u16_hex u32_hex u64_hex u128_hex usize_hex big_uint_hex i8_hex i16_hex i32_hex i64_hex i128_hex isize_hex big_int_hex").split()) + '}).parse("5").unwrap();'),
    ("every function of the prelude", "", 'parser!(line(u8) lines(u8) "\\n" section(line(alpha)) sections(line(digit)) string(char_of("ab")) repeat_sep(u8, ",") hash_set(alpha+) ";").parse("1\\n2\\n\\nx\\n\\n1\\n\\n2\\n\\na5,6xyz;").unwrap();'),
    ("aoc_parse in the prelude", "", 'let r: std::result::Result<(u8, u8), aoc_parse::ParseError> = aoc_parse("5,6", parser!(line(u8 "," u8))); assert_eq!(r.unwrap(), (5, 6));'),
]

# Programs not using the usual prelude lines.
GOOD_WHOLE = [
    ("parser! by path only", "use aoc_parse::Parser;\nuse aoc_parse::prelude::u8;\nfn main() { assert_eq!(aoc_parse::parser!(\"#\" u8).parse(\"#5\").unwrap(), 5); }\n", "aoc_parse"),
    ("renamed dependency", "use ap::{parser, prelude::*};\nfn main() { let p = parser!(rule r: u8 = {x:u8 => x, \"(\" y:r \")\" => y}; lines(a:r \",\" b:alpha* => (a, b.len())) string(digit?)); assert_eq!(p.parse(\"5,ab\\n\").unwrap(), (vec![(5, 2)], \"\".to_string())); }\n", "ap"),
]

# (name, items, rejected pattern-statement, near-miss that must compile, text the diagnostics must contain)
BAD = [
    ("label at the end", "", 'parser!(label:);', 'parser!(label:u8);', r"missing pattern after `label:`"),
    ("label before the arrow", "", 'parser!(nothing: => nothing);', 'parser!(nothing:u8 => nothing);', r"missing pattern after `nothing:`"),
    ("label at the end of a group", "", 'parser!("a" (u8 k:));', 'parser!("a" (u8 k:alpha));', r"missing pattern after `k:`"),
    ("label at the end of an arm", "", 'parser!({u8 "a" k:, u8});', 'parser!({u8 "a", u8});', r"missing pattern after `k:`"),
    ("label at the end of an argument", "", 'parser!(lines(u8 k:));', 'parser!(lines(u8 k:alpha));', r"missing pattern after `k:`"),
    ("second label before the arrow", "", 'parser!(a:u8 b: => a);', 'parser!(a:u8 b:alpha => a);', r"missing pattern after `b:`"),
    ("two labels", "", 'parser!("double label " a:b:u32);', 'parser!("double label " b:u32);', r"missing pattern between `a:` and `b:`"),
    ("two labels at the start", "", 'parser!(a:b:u32 => a);', 'parser!(a:u32 => a);', r"missing pattern between `a:` and `b:`"),
    ("three labels", "", 'parser!(a:b:c:u32);', 'parser!(a:u32);', r"missing pattern between `a:` and `b:`"),
    ("two labels before a call", "", 'parser!(a:b:string(u32) => a);', 'parser!(a:string(u32) => a);', r"missing pattern between `a:` and `b:`"),
    ("non-greedy star", "", 'parser!(alpha*?);', 'parser!(alpha*);', r"non-greedy quantifier `\*\?`"),
    ("non-greedy plus", "", 'parser!(alpha+?);', 'parser!(alpha+);', r"non-greedy quantifier `\+\?`"),
    ("non-greedy star in the middle", "", 'parser!("a" alpha*? "b");', 'parser!("a" alpha* "b");', r"non-greedy quantifier `\*\?`"),
    ("non-greedy plus on a group", "", 'parser!("a" (u8 ",")+? "b");', 'parser!("a" (u8 ",")+ "b");', r"non-greedy quantifier `\+\?`"),
    ("non-greedy star, labelled", "", 'parser!(x:alpha*? => x);', 'parser!(x:alpha* => x);', r"non-greedy quantifier `\*\?`"),
    ("non-greedy plus on a call", "", 'parser!(lines(string(u8)+?));', 'parser!(lines(string(u8)+));', r"non-greedy quantifier `\+\?`"),
    ("? at the start", "", 'parser!(? "hello world");', 'parser!("hello world"?);', r"quantifier `\?` has to come after something"),
    ("* at the start", "", 'parser!(* "hello world");', 'parser!("hello world"*);', r"quantifier `\*` has to come after something"),
    ("+ at the start", "", 'parser!(+ "hello world");', 'parser!("hello world"+);', r"quantifier `\+` has to come after something"),
    ("quantifier alone", "", 'parser!(*);', 'parser!("a"*);', r"quantifier `\*` has to come after something"),
    ("+ at the start of a group", "", 'parser!("a" (+ u8));', 'parser!("a" (u8+));', r"quantifier `\+` has to come after something"),
    ("? at the start of an arm", "", 'parser!({"a", ? "b"});', 'parser!({"a", "b"});', r"quantifier `\?` has to come after something"),
    ("* at the start of an argument", "", 'parser!(repeat_sep(u8, * ","));', 'parser!(repeat_sep(u8, ","));', r"quantifier `\*` has to come after something"),
    ("* at the start of a rule", "", 'parser!(rule r: u8 = * u8; r);', 'parser!(rule r: u8 = u8; r);', r"quantifier `\*` has to come after something"),
    ("no final pattern", "", 'parser!(rule value: i64 = i64;);', 'parser!(rule value: i64 = i64; value);', r"missing final pattern"),
    ("no final pattern after two rules", "", 'parser!(rule a: i64 = i64; rule b: i64 = a;);', 'parser!(rule a: i64 = i64; rule b: i64 = a; b);', r"missing final pattern"),
    ("no semicolon after the last rule", "", 'parser!(rule a: i64 = i64; rule b: i64 = a b);', 'parser!(rule a: i64 = i64; rule b: i64 = a; b);', None),
    ("nothing at all", "", 'parser!();', 'parser!(());', r"missing final pattern"),
    ("no semicolon between rules", "", 'parser!(rule a: i64 = i64 rule b: i64 = a; b);', 'parser!(rule a: i64 = i64; rule b: i64 = a; b);', r"missing semicolon before ?: ?rule b"),
    ("no semicolon between rules, after braces", "", 'parser!(rule a: i64 = {i64, "x" => 1} rule b: i64 = x:a => x; b);', 'parser!(rule a: i64 = {i64, "x" => 1}; rule b: i64 = x:a => x; b);', r"missing semicolon before ?: ?rule b"),
    ("no semicolon before the third rule", "", 'parser!(rule a: u8 = u8; rule b: u8 = a rule c: u8 = b; c);', 'parser!(rule a: u8 = u8; rule b: u8 = a; rule c: u8 = b; c);', r"missing semicolon before ?: ?rule c"),
    ("empty alternation", "", 'parser!({});', 'parser!({u8});', r"no arms in alternation"),
    ("empty alternation in a sequence", "", 'parser!("a" {} u8);', 'parser!("a" {u8, u8} u8);', r"no arms in alternation"),
    ("labelled empty alternation", "", 'parser!(x:{} => x);', 'parser!(x:{u8} => x);', r"no arms in alternation"),
    ("empty alternation as an argument", "", 'parser!(string({}));', 'parser!(string({u8}));', r"no arms in alternation"),
    ("rule without a type", "", 'parser!(rule a = u8; a);', 'parser!(rule a: u8 = u8; a);', None),
    ("rule without a body", "", 'parser!(rule a: u8; a);', 'parser!(rule a: u8 = u8; a);', None),
    ("rule without a name", "", 'parser!(rule : u8 = u8; u8);', 'parser!(rule a: u8 = u8; u8);', None),
    ("rule body of another type", "", 'parser!(rule a: u8 = alpha; a);', 'parser!(rule a: char = alpha; a);', r"mismatch"),
    ("rule of two values declared as one", "", 'parser!(rule a: u8 = u8 "," u8; a);', 'parser!(rule a: (u8, u8) = u8 "," u8; a);', r"mismatch"),
    ("arms of different types", "", 'parser!({u8, alpha});', 'parser!({u8, "x" x:u8 => x});', r"mismatch"),
    ("unit arm next to a value", "", 'parser!({u8, "x"});', 'parser!({u8, "x" => 1});', r"mismatch"),
    ("constant called by mistake", 'const PROMPT: &str = "> ";', "parser!(PROMPT (alpha '-')*);", "parser!(PROMPT \"\" (alpha '-')*);", r"expected function"),
    ("class called by mistake", "", "parser!(alpha (u8));", "parser!((alpha) (u8));", r"expected function"),
    ("unknown name", "", "parser!(nosuch);", "let nosuch = \"a\"; parser!(nosuch);", r"cannot find value `nosuch`"),
    ("unknown function", "", "parser!(nosuch(u8));", "fn nosuch<T>(t: T) -> T { t } parser!(nosuch(u8));", r"cannot find function `nosuch`"),
    ("label of an inner group", "", "parser!((a:u8) => a);", "parser!(a:(u8) => a);", r"cannot find value `a`"),
    ("label of an outer group", "", 'parser!(a:u8 "" (b:u8 => a));', 'parser!(a:u8 "" (b:u8 => b) => a);', r"cannot find value `a`"),
    ("label of another arm", "", "parser!({a:u8 => a, b:u8 => a});", "parser!({a:u8 => a, b:u8 => b});", r"cannot find value `a`"),
    ("label of an argument", "", "parser!(lines(a:u8) => a);", "parser!(a:lines(u8) => a);", r"cannot find value `a`"),
    ("label used twice", "", 'parser!(a:u8 "," a:u8 => a);', 'parser!(a:u8 "," b:u8 => a);', r"bound more than once"),
    ("integer literal", "", "parser!(5);", 'parser!("5");', None),
    ("byte string literal", "", 'parser!(b"a");', 'parser!("a");', None),
    ("float literal", "", "parser!(\"a\" 1.5);", 'parser!("a" "1.5");', None),
    ("arrow without an expression", "", "parser!(a:u8 =>);", "parser!(a:u8 => a);", None),
    ("arrow without an expression in an arm", "", "parser!({a:u8 =>, \"x\" => 1});", "parser!({a:u8 => a, \"x\" => 1});", None),
    ("two arrows", "", "parser!(a:u8 => a => a);", "parser!(a:u8 => a);", None),
    ("term after a conversion", "", "parser!(a:u8 => a \"x\");", "parser!((a:u8 => a) \"x\");", None),
    ("square brackets", "", "parser!([u8]);", "parser!((u8));", None),
    ("comma outside", "", "parser!(u8, u8);", "parser!({u8, u8});", None),
    ("comma in a group", "", "parser!((u8, u8));", "parser!({u8, u8});", None),
    ("semicolon outside", "", "parser!(u8; u8);", "parser!(u8 u8);", None),
    ("semicolon at the end", "", "parser!(u8;);", "parser!(u8);", None),
    ("empty arm", "", "parser!({u8, , u8});", "parser!({u8, u8});", None),
    ("path", "", "parser!(aoc_parse::prelude::u8);", "parser!(u8);", None),
    ("field", "", "struct S<T> { f: T } let s = S { f: u8 }; parser!(s.f);", "let f = u8; parser!(f);", None),
    ("reference", "", "parser!(&u8);", "let r = &u8; parser!(r);", None),
    ("number pattern named string", "", "parser!(string);", "parser!(string(u8));", None),
    ("too few arguments", "", "parser!(repeat_sep(u8));", 'parser!(repeat_sep(u8, ","));', None),
    ("too many arguments", "", 'parser!(lines(u8, ","));', 'parser!(lines(u8));', None),
    ("call without arguments", "", 'parser!(lines());', 'parser!(lines(u8));', None),
    ("or bar", "", 'parser!({"a" | "b"});', 'parser!({"a", "b"});', None),
    ("tuple of nine values", "", "let _: Result<(usize, usize, usize, usize, usize, usize, usize, usize, usize), _> = parser!((digit digit digit digit digit digit digit digit) digit).parse(\"\");",
     "let _: Result<((usize, usize, usize, usize, usize, usize, usize, usize), usize), _> = parser!((digit digit digit digit digit digit digit digit) digit).parse(\"\");", r"mismatched types"),
]
for _t in ["|", "!", ".", "=", "&", "<", "/", "%", "#", "^", "~", "::", "&&", "->", "..", "-", "@", "$crate"]:
    BAD.append(("stray %s first" % _t, "", 'parser!(%s u8 "x");' % _t, 'parser!(u8 "x");', None))
    BAD.append(("stray %s inside" % _t, "", 'parser!("a" (alpha %s u8));' % _t, 'parser!("a" (alpha u8));', None))
    BAD.append(("stray %s last" % _t, "", 'parser!(u8 "x" %s);' % _t, 'parser!(u8 "x");', None))



# Every mistake in every surrounding: each is one function of a batch, so that rustc names the line.
BEFORE = ["", '"a" ', "'c' ", "SEP ", 'u8 "," ', 'x:u8 "," ', "(u8) ", "string(u8) ", "{u8, i:u8 => i} ", "alpha* ", "x:alpha+ ", '"a"? ', "() ", 'q:{"a", "b"} "" ']
AFTER = ["", ' "z"', " u8", " y:alpha", " (u8)", " {u8}", " string(u8)", " SEP", " alpha*", " => 1", ' y:digit "" => 1']
AROUND = ["%s", "(%s)", '"(" (%s) ")"', "((%s) u8)*", "{%s}", "{u8, %s}", "{%s, u8}", '{%s, "x" u8,}', "lines(%s)", 'repeat_sep(%s, ",")', "repeat_sep(u8, %s)", "repeat_sep(%s, %%s,)".replace("%%s", '","'),
          "k:(%s)", 'k:{%s, "w"} "," => 5', "k:string(%s)", "sections(lines({%s}))", "rule r: u8 = %s; r", "rule r: u8 = u8; %s", "rule r: u8 = u8; rule s: u8 = (%s); rule t: u8 = u8; r s", "rule r: u8 = u8; r lines(%s)"]
# (mistake, pattern put between BEFORE and AFTER, allowed after, allowed before, text the diagnostics must contain)
MISTAKES = [
    ("label at the end", "k9:", ["", " => 1"], None, "missing pattern after `k9:`"),
    ("two labels", "k8:k9:u8", None, None, "missing pattern between `k8:` and `k9:`"),
    ("two labels and a literal", "k8:k9:\"l\"", None, None, "missing pattern between `k8:` and `k9:`"),
    ("two labels and a group", "k8:k9:(u8)", None, None, "missing pattern between `k8:` and `k9:`"),
    ("two labels and a call", "k8:k9:string(u8)", None, None, "missing pattern between `k8:` and `k9:`"),
    ("two labels and nothing", "k8:k9:", [""], None, "missing pattern between `k8:` and `k9:`"),
    ("non-greedy star", "alpha*?", None, None, "non-greedy quantifier `*?` is not supported"),
    ("non-greedy plus", "alpha+?", None, None, "non-greedy quantifier `+?` is not supported"),
    ("non-greedy star on a literal", "\"l\"*?", None, None, "non-greedy quantifier `*?` is not supported"),
    ("non-greedy plus on a group", "(u8 \"l\")+?", None, None, "non-greedy quantifier `+?` is not supported"),
    ("non-greedy star on a call", "string(u8)*?", None, None, "non-greedy quantifier `*?` is not supported"),
    ("non-greedy plus on a labelled call", "k9:string(u8)+?", None, None, "non-greedy quantifier `+?` is not supported"),
    ("non-greedy star on a labelled term", "k9:u8*?", None, None, "non-greedy quantifier `*?` is not supported"),
    ("non-greedy plus on an alternation", "{u8}+?", None, None, "non-greedy quantifier `+?` is not supported"),
    ("* at the start", "*", None, [""], "quantifier `*` has to come after something"),
    ("+ at the start", "+", None, [""], "quantifier `+` has to come after something"),
    ("? at the start", "?", None, [""], "quantifier `?` has to come after something"),
    ("empty alternation", "{}", None, None, "no arms in alternation"),
    ("labelled empty alternation", "k9:{}", None, None, "no arms in alternation"),
    ("repeated empty alternation", "{}*", None, None, "no arms in alternation"),
]
# a mistake of its own, whatever stands before or after
WHOLE = [
    ("missing semicolon", 'rule r: u8 = u8; rule s: u8 = %s rule t: u8 = u8; r', r"missing semicolon before ?: ?rule t ?: ?u8"),
    ("missing semicolon after the first", 'rule r: u8 = %s rule s: u8 = u8; r', r"missing semicolon before ?: ?rule s ?: ?u8"),
    ("missing semicolon, nothing after", 'rule r: u8 = %s rule s: u8 = u8', r"missing semicolon before ?: ?rule s ?: ?u8"),
    ("missing final pattern", 'rule r: u8 = %s;', r"missing final pattern"),
    ("missing final pattern after two", 'rule r: u8 = u8; rule s: u8 = %s;', r"missing final pattern"),
]


def grid():
    out = []
    for m, pat, after, before, want in MISTAKES:
        for b in BEFORE if before is None else before:
            for a in AFTER if after is None else after:
                for w in AROUND:
                    out.append((m, w.replace("%s", b + pat + a), re.escape(want)))
    for m, w, want in WHOLE:
        for b in BEFORE:
            for a in AFTER:
                t = (b + a).strip()
                if t and not t.startswith("=>"):
                    out.append((m, w.replace("%s", t), want))
    return out


EXPRS = ["1", "a", "()", "-1", "a + 1", "a - b * 2", "(a, b)", "[a, b]", "[0; 4]", "Elf { name: a, height: b }", "Elf { a, ..b }", "{ let z = a; z }", "{ a; b }", "if a > 3 { a } else { b }",
         "match a { 1 => 10, _ => 20 }", "match a { 1 | 2 => { b }, Some(x) => x }", "|z| z + a", "|| a", "move |z: u8| -> u8 { z + a }", "vec![a, b]", "format!(\"{},{}\", a, b)",
         "a.into_iter().map(|(x, y)| x + y).sum::<usize>()", "f(a, b)", "E::A(a)", "E::C { x: a }", "a as u64", "&a", "*a", "!a", "a..b", "a..=b", "..", "a < b", "a > b && b < a", "a?", "a[0]", "a.0.1",
         "\"s\"", "'c'", "1.5e3", "b'x'", "loop { break a }", "return a", "unsafe { a }", "Vec::<u8>::new()", "<u8 as Default>::default()", "a.max(b) as f64 / 2.0", "Box::new(a)", "x = a", "a == b",
         # commas that belong to the expression
         "|x, y| x + y", "|x: u8, y: u8| -> u8 { x }", "HashMap::<u8, char>::new()", "a.parse::<A, B>(b)", "a as HashMap<u8, Vec<u8>>", "<HashMap<u8, u8> as Default>::default()", "f::<u8, u8>"]
IDENTS = ["u8", "alpha", "foo", "SEP", "x1", "_y", "r#type", "i64_hex", "self_", "rules", "line", "map"]
LITERALS = ['"a"', "'c'", '""', '"\\n"', 'r"x"', 'r#"a"b"#', '"{}"', '"=>"', "','", '":"', "'\\u{e9}'", '"*"']
TYPES = ["u8", "(u8, char)", "Vec<HashMap<u8, u8>>", "[u8; 4]", "&'static str", "fn(u8, u8) -> u8", "Box<dyn Fn(u8) -> u8>", "std::vec::Vec<u8>", "()", "T"]


class Grammar:
    """Random sentences of the grammar in the documentation of `parser!`, with a mistake at one place
    or none. Types need not agree: only what the macro itself says is looked at."""

    def __init__(self, rng, mistake=None, at=None):
        self.r, self.mistake, self.at, self.places = rng, mistake, at, 0

    def pick(self, *l):
        return self.r.choice(l)

    def expr(self, d):
        s = [self.lterm(d, i) for i in range(self.pick(1, 1, 2, 2, 3, 5) if d > 0 else self.pick(1, 1, 2))]
        if self.r.random() < 0.3:
            s += ["=>", self.pick(*EXPRS)]
        self.places += 1
        if self.mistake and self.mistake[0] == "expr" and self.places == self.at:
            s = self.mistake[1](self, s)
        return " ".join(s)

    def exprs(self, d, least):
        l = [self.expr(d) for _ in range(max(least, self.pick(0, 1, 1, 2, 2, 3, 5)))]
        return ", ".join(l) + ("," if l and self.r.random() < 0.3 else "")

    def lterm(self, d, i):
        l = self.pick(*IDENTS) + self.pick(":", " : ", ": ") if self.r.random() < 0.25 else ""
        t = self.prim(d)
        q = ""
        for _ in range(self.pick(0, 0, 0, 1, 1, 1, 2, 3)):
            # `*?` and `+?` are mistakes of their own
            q += self.pick("", " ") + self.pick(*("*+" if q.strip()[-1:] in ("*", "+") else "*+?"))
        self.places += 1
        if self.mistake and self.mistake[0] == "term" and self.places == self.at:
            return self.mistake[1](self, l, t, q)
        return l + t + q

    def prim(self, d):
        k = self.r.random()
        if k < 0.3 or d <= 0 and k < 0.5:
            return self.pick(*LITERALS)
        if k < 0.55 or d <= 0:
            return self.pick(*IDENTS)
        if k < 0.7:
            return "(" + self.expr(d - 1) + ")"
        if k < 0.86:
            return self.pick(*IDENTS) + "(" + self.exprs(d - 1, 0) + ")"
        return "{" + self.exprs(d - 1, 1) + "}"

    def pattern(self, d):
        n = self.pick(0, 0, 0, 1, 2, 3)
        l = ["rule %s: %s = %s" % (self.pick(*IDENTS), self.pick(*TYPES), self.expr(d)) for _ in range(n)] + [self.expr(d)]
        if self.mistake and self.mistake[0] == "rules":
            return self.mistake[1](self, l)
        return "; ".join(l)


def cut(g, s):
    """The terms before a conversion."""
    return s[:s.index("=>")] if "=>" in s else s


MISTAKE_KINDS = {
    "non-greedy star": (("term", lambda g, l, t, q: l + t + "*?"), r"non-greedy quantifier `\*\?` is not supported"),
    "non-greedy plus": (("term", lambda g, l, t, q: l + t + "+?" + g.pick("", "*", "?")), r"non-greedy quantifier `\+\?` is not supported"),
    "two labels": (("term", lambda g, l, t, q: "k8:k9: " + t + q), r"missing pattern between `k8:` and `k9:`"),
    "label at the end": (("expr", lambda g, s: cut(g, s) + ["k9:"] + s[len(cut(g, s)):]), r"missing pattern after `k9:`"),
    "* at the start": (("expr", lambda g, s: ["*"] + s), r"quantifier `\*` has to come after something"),
    "+ at the start": (("expr", lambda g, s: ["+"] + s), r"quantifier `\+` has to come after something"),
    "? at the start": (("expr", lambda g, s: ["?"] + s), r"quantifier `\?` has to come after something"),
    "empty alternation": (("term", lambda g, l, t, q: l + "{}" + q), r"no arms in alternation"),
    "missing final pattern": (("rules", lambda g, l: "".join("rule r%d: u8 = %s; " % (i, x.split("=", 1)[1] if x.startswith("rule ") else x) for i, x in enumerate(l))), r"missing final pattern"),
    "missing semicolon": (("rules", lambda g, l: "rule r0: u8 = u8; rule r1: u8 = %s rule r2: u8 = %s; %s" % (l[-1], l[-1], l[-1])), r"missing semicolon before ?: ?rule r2 ?: ?u8"),
    "stray token": (("term", lambda g, l, t, q: l + t + q + " " + g.pick("|", "!", ".", "=", "&", "<", "/", "%", "#", "^", "~", "::", "->", "@", "- u8", "- x", "[u8]", "[ ]")), None),
}


def sentences(seed, n):
    """Valid sentences, and the same with one mistake each."""
    rng = random.Random(seed)
    good, bad = [], []
    while len(good) < n:
        st = rng.getrandbits(64)
        d = rng.choice([0, 1, 1, 2, 2, 3])
        g = Grammar(random.Random(st))
        t = g.pattern(d)
        if len(t) > 400:
            continue
        good.append(t)
        kind = rng.choice(sorted(MISTAKE_KINDS))
        how, want = MISTAKE_KINDS[kind]
        for _ in range(20):
            g2 = Grammar(random.Random(st), how, rng.randint(1, g.places))
            t2 = g2.pattern(d)
            if t2 != t:
                bad.append((kind, t2, want))
                break
    return good, bad


def accepted(lib, dir, items, k):
    """One function per sentence of the grammar; the macro must not complain about any of them (errors
    with a code come from type checking, which is none of its business here)."""
    lines = [HEAD.replace("\n", " ", 1).rstrip("\n").replace("\n", " "), "const SEP: &str = \";\";"]
    at = {}
    for i, src in enumerate(items):
        at[len(lines) + 1] = src
        lines.append("fn f%d() { let _ = parser!(%s); }" % (i, src))
    lines.append("fn broken() { let _ = parser!(k9:); }")
    broken = len(lines)
    lines.append("fn main() {}")
    p = os.path.join(dir, "sent%s.rs" % k)
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, err = rustc(lib, p, os.path.join(dir, "sent%s" % k), False)
    out, cur, saw = [], None, False
    for l in err.split("\n"):
        if re.match(r"error", l):
            cur = l
        n = re.match(r" *--> (.*?):(\d+):\d+", l)
        if n and cur and n.group(1) == p:
            n = int(n.group(2))
            if n == broken:
                saw = True
            elif cur.startswith("error:"):
                out.append("sentence of the documented grammar rejected: %s: parser!(%s)" % (cur, at.get(n)))
            cur = None
    if not saw:
        raise c.Inconclusive("the compiler stopped early:\n" + err[-1500:])
    return out


def batches(lib, dir, items, k):
    """One function per misuse; every one must have an error that names the mistake, the honest ones none."""
    lines, at = [HEAD.replace("\n", " ", 1).rstrip("\n").replace("\n", " "), "const SEP: &str = \";\";"], {}
    for i, (m, src, want) in enumerate(items):
        at[len(lines) + 1] = (m, src, want)
        lines.append("fn f%d() { let _ = parser!(%s); }" % (i, src))
    lines.append('fn honest() { let _ = parser!(rule r: u8 = a:u8 "," => a; b:r* SEP {u8, "x" => 1}? string(lines(u8)) => 1); }')
    honest = len(lines)
    lines.append("fn main() {}")
    p = os.path.join(dir, "grid%s.rs" % k)
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, err = rustc(lib, p, os.path.join(dir, "grid%s" % k), False)
    got = {}
    cur = None
    for l in err.split("\n"):
        if re.match(r"error", l):
            cur = l
        n = re.match(r" *--> (.*?):(\d+):\d+", l)
        if n and cur and n.group(1) == p:
            got.setdefault(int(n.group(2)), []).append(cur)
            cur = None
    out = []
    for n, (m, src, want) in at.items():
        e = got.get(n, [])
        if not e:
            # another error may have stopped the compiler before this one: judge it alone
            alone = os.path.join(dir, "grid%s_%d.rs" % (k, n))
            with open(alone, "w") as f:
                f.write("\n".join([lines[0], lines[1], lines[n - 1], "fn main() {}"]) + "\n")
            rc, er = rustc(lib, alone, os.path.join(dir, "grid%s_%d" % (k, n)), False)
            e = re.findall(r"^error.*$", er, re.M)
            if rc == 0:
                out.append("misuse (%s) accepted: parser!(%s)" % (m, src))
                continue
        if not re.search(want, "\n".join(e)):
            out.append("misuse (%s) rejected without naming the mistake (%s): %s: parser!(%s)" % (m, want, " / ".join(e[:4]), src))
    if honest in got:
        out.append("valid pattern rejected: %s: %s" % (" / ".join(got[honest][:3]), lines[honest - 1]))
    return out


def library():
    """Build the library alone; its rlib and the folder of its dependencies."""
    c.fresh()
    r = c.sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(c.HARNESS, "Cargo.toml"), "-p", "aoc-parse", "--message-format", "json"], timeout=600)
    if r.returncode != 0:
        raise c.Inconclusive("the library does not build:\n" + c.text(r.stderr)[-2000:])
    libs = {}
    for line in c.text(r.stdout).splitlines():
        d = json.loads(line)
        if d.get("reason") == "compiler-artifact":
            for f in d["filenames"]:
                if f.endswith(".rlib"):
                    libs[d["target"]["name"].replace("-", "_")] = f
    if "aoc_parse" not in libs or "num_bigint" not in libs:
        raise c.Inconclusive("no rlib reported")
    return libs["aoc_parse"], os.path.join(c.TARGET, "debug", "deps"), libs["num_bigint"]


def rustc(lib, src, out, link, crate="aoc_parse"):
    cmd = ["rustc", "--edition", "2021", "-C", "debuginfo=0", "-L", "dependency=" + lib[1], "--extern", crate + "=" + lib[0], "--extern", "num_bigint=" + lib[2], src]
    cmd += ["-o", out] if link else ["--emit=metadata", "-o", out + ".rmeta"]
    for _ in range(3):
        r = c.sh(cmd, timeout=300)
        err = c.text(r.stderr)
        # a linker that fails or a compiler that is killed says nothing about the program
        if r.returncode == 0 or not (r.returncode < 0 or "error: linking with" in err):
            return r.returncode, err
        time.sleep(2)
    raise c.Inconclusive("rustc does not work here:\n" + err[-1500:])


def errors(err):
    return " / ".join(re.findall(r"^error.*$", err, re.M)[:4])


def c18(_, pid, res):
    typed.generator()
    lib = library()
    dir = os.path.join(c.WORK, "snippets")
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    jobs = []

    def put(name, text):
        p = os.path.join(dir, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    ctl = put("control.rs", HEAD + 'fn main() { assert_eq!(parser!(lines(u64 "x" u64)).parse("1x2\\n").unwrap(), vec![(1, 2)]); }\n')
    rc, err = rustc(lib, ctl, os.path.join(dir, "control"), True)
    if rc != 0:
        raise c.Inconclusive("the control program does not compile:\n" + err[-2000:])

    cov = dict(accepted_and_run=0, accepted=0, rejected=0, rejected_with_the_named_mistake=0, kinds={})

    def good(item):
        name, text, crate, i = item
        src, exe = put("g%d.rs" % i, text), os.path.join(dir, "g%d" % i)
        rc, err = rustc(lib, src, exe, True, crate)
        if rc != 0:
            return ("valid pattern (%s) rejected: %s\n%s" % (name, errors(err), text), None)
        r = c.sh([exe], timeout=60)
        os.unlink(exe)
        if r.returncode != 0:
            return ("valid pattern (%s) means something else: %s\n%s" % (name, c.text(r.stderr)[-400:], text), None)
        return (None, "run")

    def bad(item):
        name, okt, badt, want, i = item
        out = []
        rc, err = rustc(lib, put("ok_%s.rs" % i, okt), os.path.join(dir, "ok_%s" % i), False)
        if rc != 0:
            out.append("valid near-miss of (%s) rejected: %s\n%s" % (name, errors(err), okt))
        rc2, err2 = rustc(lib, put("bad_%s.rs" % i, badt), os.path.join(dir, "bad_%s" % i), False)
        if rc2 == 0:
            out.append("misuse (%s) accepted:\n%s" % (name, badt))
        elif want and not re.search(want, err2):
            out.append("misuse (%s) rejected without naming the mistake (%s): %s\n%s" % (name, want, errors(err2), badt))
        elif "panicked" in err2 and "internal compiler error" in err2:
            out.append("misuse (%s) crashes the compiler\n%s" % (name, badt))
        return (out or None, ("named" if want else "rejected") if rc2 else None)

    g = [(n, HEAD + items + "\nfn main() {\n" + body + "\n}\n", "aoc_parse", k) for k, (n, items, body) in enumerate(GOOD)]
    g += [(n, t, crate, 1000 + k) for k, (n, t, crate) in enumerate(GOOD_WHOLE)]
    wrap = lambda items, s: HEAD + items + "\nfn main() {\n" + re.sub(r"(?<![=\w] )(parser!\()", r"let _ = \1", s, count=1) + "\n}\n"
    b = [(n, wrap(items, okp), wrap(items, badp), want, "f%d" % k) for k, (n, items, badp, okp, want) in enumerate(BAD)]
    t0 = time.time()
    rounds = 1 if c.TIER == "quick" else 12
    n = 96 if c.TIER == "quick" else 400
    seen = set()
    with ThreadPoolExecutor(8) as ex:
        for (v, k), it in zip(ex.map(good, g), g):
            if v:
                res.violate(v)
            else:
                cov["accepted_and_run"] += 1
            seen.add(it[1])

        def take(results, items):
            for (v, k), it in zip(results, items):
                for x in v or []:
                    res.violate(x)
                cov["accepted"] += 1
                if k:
                    cov["rejected"] += 1
                    cov["rejected_with_the_named_mistake"] += k == "named"
                    kd = it[0].split(" in program")[0]
                    cov["kinds"][kd] = cov["kinds"].get(kd, 0) + 1
                seen.add(it[1])
                seen.add(it[2])

        take(ex.map(bad, b), b)
        # every mistake in every surrounding, and random sentences of the grammar
        al = grid()
        random.Random(c.SEED).shuffle(al)
        size = 1500
        al = [al[i:i + size] for i in range(0, len(al) if c.TIER != "quick" else 8 * size, size)]
        for v in ex.map(lambda x: batches(lib, dir, x[1], "g%d" % x[0]), enumerate(al)):
            for x in v:
                res.violate(x)
        cov["misuses_in_every_surrounding"] = sum(len(x) for x in al)
        cov["rejected"] += cov["misuses_in_every_surrounding"]
        cov["rejected_with_the_named_mistake"] += cov["misuses_in_every_surrounding"]
        seen.update(x[1] for y in al for x in y)
        kinds = {}
        cov["sentences"] = cov["sentences_with_a_mistake"] = 0
        for r in range(1 if c.TIER == "quick" else 40):
            if time.time() - t0 > 300 or len(res.violations) > 20:
                break
            sets = [sentences(c.SEED * 1000003 + r * 8 + i, 250) for i in range(8)]
            for v in ex.map(lambda x: accepted(lib, dir, x[1][0], "a%d" % x[0]), enumerate(sets)):
                for x in v:
                    res.violate(x)
            for v in ex.map(lambda x: batches(lib, dir, [(k, t, w or r"(?m)^error:") for k, t, w in x[1][1]], "s%d" % x[0]), enumerate(sets)):
                for x in v:
                    res.violate(x)
            for g_, b_ in sets:
                cov["sentences"] += len(g_)
                cov["sentences_with_a_mistake"] += len(b_)
                seen.update(g_)
                for k, t, w in b_:
                    kinds[k] = kinds.get(k, 0) + 1
                    seen.add(t)
        cov["mistakes_in_sentences"] = kinds
        for r in range(rounds):
            if time.time() - t0 > 560 or len(res.violations) > 20:
                break
            gen = os.path.join(dir, "gen%d" % r)
            rr = c.sh([typed.GEN, "--seed", str(c.SEED * 100 + r), "--snippets", str(n), "--out", gen])
            if rr.returncode != 0:
                raise c.Inconclusive("generator failed: " + c.text(rr.stderr)[-800:])
            items = []
            for line in open(os.path.join(gen, "index.txt")):
                i, kind, want = line.rstrip("\n").split("\t")
                rd = lambda p: open(os.path.join(gen, p + i + ".rs")).read()
                items.append((kind + " in program", rd("ok"), rd("bad"), re.escape(want) if want else None, "r%d_%s" % (r, i)))
            take(ex.map(bad, items), items)
    res.coverage["evaluations"] = cov["accepted_and_run"] + cov["accepted"] + cov["rejected"] + cov["sentences"] + cov["sentences_with_a_mistake"]
    res.coverage["distinct_nontrivial"] = len(seen)
    res.coverage["samples"] += [x[1][-300:] for x in g[-3:]] + [x[2][-300:] for x in b[:3]]
    res.coverage["programs"] = cov
    shutil.rmtree(dir, ignore_errors=True)
