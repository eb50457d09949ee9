"""C15: parsers without rules are Send and Sync; observed through rustc on small programs, each with a control without the claim."""
import os
import shutil
from concurrent.futures import ThreadPoolExecutor

import check as c
import snippets

PARSERS = [
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "u8_bin", "i64_bin", "u128_hex", "isize_hex",
    "big_int", "big_uint", "big_int_hex", "big_uint_bin", "f32", "f64", "bool", "alpha", "alnum", "upper", "lower", "any_char", "digit", "digit_bin", "digit_hex",
    '"text"', "'c'", "()", 'char_of("abc")', '"a" u8', "u8 alpha", "u8 i8 alpha", "(u8 alpha) (i8 alpha)", "u8*", "u8+", "u8?", 'repeat_sep(u8, ",")',
    "line(u8)", "lines(u8)", "section(lines(u8))", "sections(lines(u8))", "string(alpha+)", "hash_set(u8*)", "btree_set(u8*)", "hash_map((u8 alpha)*)",
    "btree_map((u8 alpha)*)", "vec_deque(u8*)", "x:u8 => x + 1", "{u8 => 1, alpha => 2}", "{u8 => 7, x:digit => 7}", "{u8 => 1, alpha => 2, 'x' => 3}",
    'lines({"a" x:u8 => x, y:digit+ => y.len() as u8})', 'lines(a:string(alpha+) "=" b:repeat_sep(i64, ",") => (a, b))', "((alpha digit*)? u8)*",
]

HEAD = """#![allow(unused)]
use aoc_parse::{parser, prelude::*, ParseError, ParseContext};
fn send<T: Send>(_: &T) {}
fn sync<T: Sync>(_: &T) {}
fn any<T>(_: &T) {}
fn main() {
"""


def probe(res):
    lib = snippets.library()
    dir = os.path.join(c.WORK, "share")
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)

    def compiles(name, body):
        p = os.path.join(dir, name + ".rs")
        with open(p, "w") as f:
            f.write(HEAD + body + "}\n")
        rc, err = snippets.rustc(lib, p, p[:-3], False)
        return rc == 0, err
    lines = [("let p = parser!(%s);" % t, t) for t in PARSERS]
    lines.append(("let p: ParseError = parser!(u8).parse(\"x\").unwrap_err();", "the error"))
    lines.append(("let r = 5u8; let r = &r; let s = String::new(); let s = s.as_str(); let p = parser!(s x:u8 => x + *r);", "over borrowed things"))

    def one(i):
        code, name = lines[i]
        bad = []
        for claim in ("send", "sync"):
            ok, err = compiles("%s%d" % (claim, i), code + " %s(&p);\n" % claim)
            if not ok:
                bad.append((claim, snippets.errors(err)))
        if bad and not compiles("any%d" % i, code + " any(&p);\n")[0]:
            return []  # does not compile at all: not this property's business
        return [(name, cl, e) for cl, e in bad]

    whole = "".join("{ %s send(&p); sync(&p); }\n" % code for code, name in lines)
    ok, err = compiles("whole", whole)
    n = len(lines) * 2
    res.coverage["evaluations"] += n
    if not ok:
        with ThreadPoolExecutor(8) as pool:
            for found in pool.map(one, range(len(lines))):
                for name, claim, e in found:
                    res.violate("parser!(%s) is not %s: %s" % (name, {"send": "Send", "sync": "Sync"}[claim], e), share=name)
    return "%d claims about %d parsers" % (n, len(lines))
