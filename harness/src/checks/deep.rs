//! Known answers at sizes far above those of the random workloads: long lists, choices that are
//! reconsidered very often, user-written parsers with very many matches.
use super::{stage, Stage};
use crate::engine::{guard, short, Lib};
use crate::rng::{hash_str, mix, Rng};
use crate::stats::Ctx;
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Reported};
use std::cell::Cell;
use std::collections::VecDeque;
use std::primitive::{bool as Bool, char as Char, u64 as U64};

/// round numbers, powers of two and their neighbours
pub const EDGES: [usize; 40] = [
    300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8193, 9_999, 10_000, 10_001, 16_383, 16_384, 16_385, 20_001, 32_767, 32_768, 32_769, 50_001, 65_535,
    65_536, 65_537, 70_000, 99_999, 100_000, 100_001, 131_071, 131_073, 200_001, 262_145, 300_007,
];

fn size(i: U64, rng: &mut Rng, max: usize) -> usize {
    let all: Vec<usize> = EDGES.iter().copied().filter(|x| *x <= max).collect();
    let n = all.len() as U64;
    if i < n {
        // the largest first, so that a short run has seen them
        all[(n - 1 - i) as usize]
    } else {
        // log-uniform
        let lo = 200f64.ln();
        let hi = (max as f64).ln();
        (lo + (hi - lo) * (rng.below(1_000_000) as f64 / 1e6)).exp() as usize
    }
}

// ------------------------------------------------------------------ many offers

thread_local! {
    static ASKED: Cell<usize> = const { Cell::new(0) };
    static CONVERTED: Cell<usize> = const { Cell::new(0) };
    static LATE: Cell<usize> = const { Cell::new(0) };
}

/// A user-written parser offering `n` matches: all empty, except that number `good` takes one character.
#[derive(Clone, Copy)]
struct Offers {
    n: usize,
    good: usize,
}
struct OffersIter {
    p: Offers,
    start: usize,
    i: usize,
    done: Bool,
}
impl Parser for Offers {
    type Output = usize;
    type RawOutput = (usize,);
    type Iter<'parse> = OffersIter;
    fn parse_iter<'parse>(&'parse self, cx: &mut ParseContext<'parse>, start: usize) -> Result<OffersIter, Reported> {
        if cx.source()[start..].starts_with('x') {
            Ok(OffersIter { p: *self, start, i: 0, done: false })
        } else {
            Err(cx.error_expected(start, "x"))
        }
    }
}
impl<'parse> ParseIter<'parse> for OffersIter {
    type RawOutput = (usize,);
    fn match_end(&self) -> usize {
        self.start + (self.i == self.p.good) as usize
    }
    fn backtrack(&mut self, _cx: &mut ParseContext<'parse>) -> Result<(), Reported> {
        if self.done {
            LATE.set(LATE.get() + 1);
        }
        ASKED.set(ASKED.get() + 1);
        if self.i + 1 < self.p.n {
            self.i += 1;
            Ok(())
        } else {
            self.done = true;
            Err(Reported)
        }
    }
    fn convert(&self) -> (usize,) {
        CONVERTED.set(CONVERTED.get() + 1);
        (self.i,)
    }
}

fn many_offers(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let n = if i % 3 == 0 { 1_000_003 } else { size(i / 3, &mut rng, 300_007) };
    let good = *rng.pick(&[n - 1, n - 1, n / 2, n - 2]);
    let o = Offers { n, good };
    cx.max("matches offered by one user-written parser", n as U64);
    macro_rules! go {
        ($($text:literal [$($p:tt)*] $times:literal;)*) => { $( {
            let p = parser!($($p)*);
            ASKED.set(0);
            CONVERTED.set(0);
            LATE.set(0);
            let got = guard(|| p.parse($text).map(|v| format!("{v:?}")));
            let (asked, converted) = (ASKED.get(), CONVERTED.get());
            cx.eval();
            cx.count("requests for another match seen by user-written parsers", asked as U64);
            cx.nontrivial(mix(n as U64 ^ mix(good as U64)) ^ hash_str(stringify!($($p)*)));
            let times: usize = $times;
            let g = good.to_string();
            let fine = match &got {
                Lib::Match(v) => times > 0 && v.matches(&g).count() == times && asked == times * good && converted == times,
                _ => false,
            };
            if !fine || LATE.get() > 0 {
                cx.violation(format!(
                    "parser!({}) on {:?} where `o` offers {n} matches of which only number {good} fits: {}; it was asked for another match {asked} times ({} of them after it had none), its value {converted} times",
                    stringify!($($p)*), $text, short(&format!("{got:?}")), LATE.get()
                ));
            }
        } )* };
    }
    go! {
        "x" [o] 1;
        "xb" [o "b"] 1;
        "yx" ["y" o] 1;
        "yxb" ["y" o "b"] 1;
        "xb" [v:o "b" => v] 1;
        "yxb" [_a:alpha v:o "b" => v] 1;
        "yxb" [{"never" => 0, _a:alpha v:o "b" => v, "yxb" => 1}] 1;
        "xb" [{"never" => 0, v:o "b" => v, "xb" => 1}] 1;
        "xb" [(o "b")*] 1;
        "xb" [(o "b")+] 1;
        "xb" [(o "b")?] 1;
        "xbxb" [(o "b")*] 2;
        "xb,xb" [repeat_sep((o "b"), ",")] 2;
        "xb,xb" [repeat_sep({v:o "b" => v}, ",")] 2;
        "x\n" [line(o)] 1;
        "x" [line(o)] 1;
        "x\nx\n" [lines(o)] 2;
        "x\n\n" [section(line(o))] 1;
        "x\n\nx\n" [sections(line(o))] 2;
        "x\n\nxb\n" [a:section(line(o)) b:section(line(o "b")) => (a, b)] 2;
        "xb" [vec_deque((o "b")*)] 1;
        "xb" [rule r: usize = v:o "b" => v; r] 1;
        "xb" [(o) "b"] 1;
    }
    // replaced by its text: never converted
    {
        let p = parser!(string(o) "b");
        CONVERTED.set(0);
        let got = guard(|| p.parse("xb"));
        cx.eval();
        if got != Lib::Match("x".to_string()) || CONVERTED.get() != 0 {
            cx.violation(format!("string() over {n} offers: {got:?}"));
        }
    }
    // none fits: all are asked for, then the next thing is tried
    let bad = Offers { n, good: n };
    ASKED.set(0);
    let p = parser!({v:bad "b" => v, "xb" => 77});
    let got = guard(|| p.parse("xb"));
    cx.eval();
    if got != Lib::Match(77) || ASKED.get() != n {
        cx.violation(format!("an alternative none of whose {n} offers fits: {got:?} after {} requests for another", ASKED.get()));
    }
    ASKED.set(0);
    let p = parser!(v:(bad "b")? w:string(any_char*) => (v, w));
    let got = guard(|| p.parse("xb"));
    cx.eval();
    if got != Lib::Match((None, "xb".to_string())) || ASKED.get() != n {
        cx.violation(format!("an optional part none of whose {n} offers fits: {got:?} after {} requests for another", ASKED.get()));
    }
}

/// Two user parsers in a row: the later one's matches all come before the earlier one's next.
fn offers_squared(cx: &mut Ctx, mut rng: Rng) {
    let (n, m) = (rng.range(2, 600), rng.range(2, 600));
    let (a, c) = (Offers { n, good: n - 1 }, Offers { n: m, good: m - 1 });
    ASKED.set(0);
    let p = parser!(a c "b");
    let got = guard(|| p.parse("xxb"));
    cx.eval();
    cx.nontrivial(mix((n * 1000 + m) as U64));
    cx.count("requests for another match seen by user-written parsers", ASKED.get() as U64);
    // while `a` is empty, `c` takes the first x and "b" never follows: every pair is tried (or at
    // least every offer of both, if what failed at a place is not tried there again)
    let most = (n - 1) * m + (n - 1) + (m - 1);
    let least = (n - 1) + (m - 1);
    if got != Lib::Match((n - 1, m - 1)) || ASKED.get() > most || ASKED.get() < least {
        cx.violation(format!("{n} offers followed by {m} offers: {got:?} after {} requests for another match, expected {least} to {most}", ASKED.get()));
    }
}

// ------------------------------------------------------------------ long give-backs

/// A repetition has to give back `m` occurrences before what follows it matches.
fn give_back(cx: &mut Ctx, i: U64, mut rng: Rng, cap: usize) {
    const SHAPES: U64 = 15;
    let m = size(i / SHAPES, &mut rng, cap);
    let k = *rng.pick(&[0usize, 1, 3, 100]);
    let ch = *rng.pick(&["a", "a", "é"]);
    let (left, right) = (ch.repeat(k), ch.repeat(m));
    let text = format!("{left}={right}");
    cx.eval();
    cx.max("occurrences given back before the rest matched", m as U64);
    cx.nontrivial(mix(m as U64 ^ mix(k as U64)) ^ i % SHAPES ^ hash_str(ch));
    let both = (left.clone(), right.clone());
    macro_rules! expect {
        ($text:expr, [$($p:tt)*], $want:expr) => {{
            let p = parser!($($p)*);
            let t: &str = $text;
            let got = guard(|| p.parse(t));
            let want = $want;
            if got != Lib::Match(want.clone()) {
                cx.violation(format!("parser!({}) on {k} characters, then =, then {m} characters: got {}, expected {}", stringify!($($p)*), short(&format!("{got:?}")), short(&format!("{want:?}"))));
            }
        }};
    }
    match i % SHAPES {
        0 => expect!(&text, [string(any_char*) "=" string(any_char*)], both),
        1 => expect!(&text, [a:any_char* "=" b:any_char* => (a.into_iter().collect::<String>(), b.into_iter().collect::<String>())], both),
        2 => expect!(&format!("{text}\n"), [line(string(any_char*) "=" string(any_char*))], both),
        3 => expect!(&text, [{a:string(any_char*) "!" => (a, String::new()), a:string(any_char*) "=" b:string(any_char*) => (a, b)}], both),
        4 => expect!(&text, [a:(string(any_char*) "!")? b:string(any_char*) => (a, b)], (None, text.clone())),
        5 => expect!(&text, [a:string(any_char+) "=" b:string(any_char*) => (a, b)], {
            if k == 0 {
                // needs at least one character before the sign: there is no match at all
                let p = parser!(a:string(any_char+) "=" b:string(any_char*) => (a, b));
                if !matches!(guard(|| p.parse(&text)), Lib::Fail(e) if e.loc == text.len()) {
                    cx.violation(format!("any_char+ \"=\" any_char* on =, then {m} characters: expected an error at the end"));
                }
                return;
            }
            both
        }),
        6 => expect!(&text, [string(repeat_sep(any_char, "")) "=" string(any_char*)], both),
        7 => {
            let t: String = "x\n".repeat(k) + "END\n" + &"y\n".repeat(m);
            expect!(&t, [a:line(lower*)* "END\n" b:line(lower*)* => (a.len(), b.len())], (k, m));
            // with a line pattern that also takes END, the last possible END is chosen
            expect!(&t, [a:line(string(any_char*))* line("END") b:line(any_char*)* => (a.len(), b.len())], (k, m));
        }
        8 => expect!(&text, [a:vec_deque(any_char*) "=" b:vec_deque(any_char*) => (a.len(), b.len())], (k, m)),
        9 => expect!(&format!("{text}\n\n"), [section(line(string(any_char*) "=" string(any_char*)))], both),
        10 => expect!(&text, [rule l: String = string(any_char*); rule r: (String, String) = l "=" l; r], both),
        11 => {
            // several separators: as much as possible goes to the left
            let t = format!("=={text}");
            expect!(&t, [string(any_char*) "=" string(any_char*)], (format!("=={left}"), right.clone()));
        }
        12 => expect!(&text, [(a:any_char "" => a)* _eq:"=" b:any_char* => b.len()], m),
        13 => {
            // numbers with separators: pairs of item and separator are given back
            let t = (0..m / 4 + 2).map(|x| (x % 10).to_string()).collect::<Vec<_>>().join(",");
            let last = t.matches(',').count();
            let first = t.find(',').unwrap();
            expect!(&format!("{}|{}", &t[..first], &t[first + 1..]), [a:repeat_sep(digit, {",", "|"}) "|" b:string(any_char*) => (a.len(), b.len())], (1, t.len() - first - 1));
            expect!(&t, [a:repeat_sep(digit, ",") "," b:digit => (a.len(), b)], (last, last % 10));
        }
        _ => {
            // the same with a literal that only fits one place
            let t: String = (0..m).map(|x| Char::from(b'a' + (x % 3) as u8)).collect::<String>() + "d" + &"e".repeat(m);
            expect!(&t, [a:lower* "d" b:"e"* => (a.len(), b.len())], (m, m));
        }
    }
}

// ------------------------------------------------------------------ plural and singular, long

/// The same thing said in two ways, on long texts; `known` also compares with what was put in.
fn long_twins(cx: &mut Ctx, i: U64, mut rng: Rng) {
    const SHAPES: U64 = 12;
    let n = size(i / SHAPES, &mut rng, 300_007);
    cx.max("records in one text", n as U64);
    let blank = rng.chance(30);
    let xs: Vec<U64> = (0..n).map(|_| rng.next() % 1000).collect();
    let opt: Vec<Option<U64>> = xs.iter().map(|x| if blank && x % 3 == 0 { None } else { Some(*x) }).collect();
    let line_text: String = opt.iter().map(|x| x.map_or("\n".to_string(), |x| format!("{x}\n"))).collect();
    let spoil = rng.chance(35) && n < 70_000;
    macro_rules! twins {
        ($text:expr, [$($p:tt)*] [$($q:tt)*], $want:expr) => {{
            let mut text: String = $text;
            let whole = text.len();
            if spoil {
                text.push('#');
            } else if text.ends_with('\n') && !text.ends_with("\n\n") && text.len() > 1 && rng.chance(30) {
                text.pop();
            }
            let p = parser!($($p)*);
            let q = parser!($($q)*);
            let a = guard(|| p.parse(&text));
            let c = guard(|| q.parse(&text));
            cx.eval();
            cx.nontrivial(mix(hash_str(stringify!($($p)*)) ^ n as U64 ^ xs[0]));
            let same = match (&a, &c) {
                (Lib::Fail(x), Lib::Fail(y)) => x.loc == y.loc,
                _ => a == c,
            };
            if !same {
                cx.violation(format!("parser!({}) and parser!({}) on {n} records{}: {} and {}", stringify!($($p)*), stringify!($($q)*), if spoil { " and a stray #" } else { "" }, short(&format!("{a:?}")), short(&format!("{c:?}"))));
            }
            let fine = match &a {
                Lib::Match(v) => !spoil && *v == $want,
                Lib::Fail(e) => spoil && e.loc == whole,
                _ => false,
            };
            if !fine {
                cx.violation(format!("parser!({}) on {n} records{}: {}", stringify!($($p)*), if spoil { " and a stray #" } else { "" }, short(&format!("{a:?}"))));
            }
        }};
    }
    match i % SHAPES {
        0 => twins!(line_text, [lines(u64?)] [line(u64?)*], opt),
        1 => twins!(line_text, [lines(u64?)] [line(u64?)+], opt),
        2 => {
            let t = xs.iter().map(|x| format!("{x}\n\n")).collect::<String>();
            twins!(t, [sections(line(u64))] [section(line(u64))*], xs)
        }
        3 => {
            let l = parser!(u64?);
            twins!(line_text, [lines(u64?)] [lines(l)], opt)
        }
        4 => twins!(line_text, [lines({x:u64 => Some(x), "" => None})] [lines(x:(u64?) => x)], opt),
        5 => twins!(line_text, [rule l: Option<U64> = line(u64?); rule all: Vec<Option<U64>> = l*; all] [lines((u64?))], opt),
        6 => {
            let t: String = xs.iter().map(|x| format!("{x};")).collect();
            twins!(t, [(u64 ";")*] [(x:u64 ";" => x)*], xs)
        }
        7 => {
            let t: String = xs.iter().map(|x| format!("{x},")).collect::<String>() + "1";
            let mut w = xs.clone();
            w.push(1);
            twins!(t, [repeat_sep(u64, ",")] [a:(u64 ",")* b:u64 => { let mut a = a; a.push(b); a }], w)
        }
        8 => {
            let t: String = xs.iter().map(|x| format!("{x}={x} ")).collect();
            let w: Vec<(U64, U64)> = xs.iter().map(|x| (*x, *x)).collect();
            twins!(t, [(u64 "=" u64 " ")*] [((u64 "=") (u64 " "))*], w)
        }
        9 => {
            let t: String = xs.iter().map(|x| Char::from(b'a' + (x % 26) as u8)).collect();
            let w: Vec<Char> = t.chars().collect();
            twins!(t, [lower*] [{lower, upper}*], w)
        }
        10 => {
            let t: String = xs.iter().map(|x| format!("{x}\n{}", if x % 5 == 0 { "\n" } else { "" })).collect::<String>() + "7\n";
            let mut w: Vec<Vec<U64>> = vec![vec![]];
            for x in &xs {
                w.last_mut().unwrap().push(*x);
                if x % 5 == 0 {
                    w.push(vec![]);
                }
            }
            w.last_mut().unwrap().push(7);
            twins!(t, [sections(lines(u64))] [section(line(u64)*)*], w)
        }
        _ => {
            let t: String = xs.iter().map(|x| format!("{x} ")).collect();
            twins!(t, [vec_deque((u64 " ")*)] [v:(u64 " ")* => v.into_iter().collect::<VecDeque<_>>()], xs.iter().copied().collect::<VecDeque<U64>>())
        }
    }
}

// ------------------------------------------------------------------ long lines and sections

fn long_regions(cx: &mut Ctx, i: U64, mut rng: Rng) {
    const SHAPES: U64 = 8;
    let n = size(i / SHAPES, &mut rng, 300_007);
    cx.eval();
    cx.max("lines in one text", n as U64);
    cx.nontrivial(mix(n as U64) ^ i % SHAPES);
    let word = |rng: &mut Rng| ["", "a", "bc", "é", " x", "\t", "\r", "12"][rng.below(8)];
    let ls: Vec<&str> = (0..n).map(|_| word(&mut rng)).collect();
    let full: Vec<&str> = ls.iter().map(|x| if x.is_empty() { "z" } else { x }).collect();
    let text = ls.iter().map(|x| format!("{x}\n")).collect::<String>();
    macro_rules! expect {
        ($text:expr, [$($p:tt)*], $want:expr) => {{
            let p = parser!($($p)*);
            let t: &str = $text;
            let got = guard(|| p.parse(t));
            let want = $want;
            if got != Lib::Match(want.clone()) {
                cx.violation(format!("parser!({}) on {n} lines (seeded): got {}, expected {}", stringify!($($p)*), short(&format!("{got:?}")), short(&format!("{want:?}"))));
            }
        }};
    }
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match i % SHAPES {
        0 => expect!(&text, [lines(string(any_char*))], own(&ls)),
        1 => expect!(&text, [line(string(any_char*))*], own(&ls)),
        2 => expect!(&format!("{text}q"), [a:line(string(any_char*))* => a.len()], n + 1),
        3 => {
            let t = full.iter().map(|x| format!("{x}\n")).collect::<String>();
            expect!(&t, [section(lines(string(any_char+)))], own(&full));
            expect!(&format!("{t}\n{t}"), [section(lines(string(any_char+))) section(line(string(any_char+))*)], (own(&full), own(&full)));
        }
        4 => {
            // blank lines end sections; consecutive blank lines are empty sections
            let mut want: Vec<Vec<String>> = vec![vec![]];
            for l in &ls {
                if l.is_empty() {
                    want.push(vec![]);
                } else {
                    want.last_mut().unwrap().push(l.to_string());
                }
            }
            if want.last().unwrap().is_empty() {
                want.pop();
            }
            expect!(&text, [sections(lines(string(any_char+)))], want);
        }
        5 => {
            // one very long line, and one after it
            let long = "ab é".repeat(n / 4 + 1);
            let t = format!("{long}\nx\n");
            expect!(&t, [a:line(string(any_char*)) line("x") => a], long.clone());
            expect!(&t, [lines(string(any_char*))], vec![long.clone(), "x".to_string()]);
        }
        6 => {
            let t = full.iter().map(|x| format!("{x}\n\n")).collect::<String>();
            expect!(&t, [sections(line(string(any_char+)))], own(&full));
        }
        _ => {
            // lines from one place, sections afterwards
            let t = format!("head\n\n{}\n\ntail\n", full.join("\n"));
            expect!(&t, [section(line("head")) a:section(lines(string(any_char+))) "tail\n" => a], own(&full))
        }
    }
}

// ------------------------------------------------------------------ conversions, long

fn long_conversions(cx: &mut Ctx, i: U64, mut rng: Rng) {
    thread_local! {
        static RAN: std::cell::RefCell<Vec<U64>> = const { std::cell::RefCell::new(vec![]) };
    }
    fn ran(x: U64) -> U64 {
        RAN.with(|r| r.borrow_mut().push(x));
        x
    }
    let n = size(i / 6, &mut rng, 200_001);
    let xs: Vec<U64> = (0..n).map(|_| rng.next() % 997).collect();
    let text = |sep: &str| xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep);
    cx.max("conversions in one parse", n as U64);
    let mut sorted = xs.clone();
    sorted.sort();
    macro_rules! expect {
        ($text:expr, [$($p:tt)*], $ok:expr, $want:expr) => {{
            let p = parser!($($p)*);
            let t: String = $text;
            RAN.with(|r| r.borrow_mut().clear());
            let got = guard(|| p.parse(&t).map(drop));
            let mut log = RAN.with(|r| r.borrow().clone());
            log.sort();
            cx.eval();
            cx.count("conversion events logged", log.len() as U64);
            cx.nontrivial(mix(n as U64) ^ hash_str(stringify!($($p)*)) ^ xs[0]);
            let want: &[U64] = $want;
            if matches!(got, Lib::Match(())) != $ok || log != want {
                cx.violation(format!("parser!({}) on {n} numbers: {}; {} conversions ran, expected {}", stringify!($($p)*), if $ok { "should match" } else { "should fail" }, log.len(), want.len()));
            }
        }};
    }
    match i % 6 {
        0 => {
            expect!(text(","), [repeat_sep(x:u64 => ran(x), ",")], true, &sorted);
            expect!(text(",") + "#", [repeat_sep(x:u64 => ran(x), ",")], false, &[]);
        }
        1 => expect!(text("\n"), [lines(x:u64 => ran(x))], true, &sorted),
        2 => expect!(text("\n") + "\n", [(x:line(u64) => ran(x))*], true, &sorted),
        3 => expect!(text(","), [string(repeat_sep(x:u64 => ran(x), ","))], true, &[]),
        4 => expect!(text(",").replace(',', "1"), [repeat_sep("", x:digit => ran(x as U64))], true, &[]),
        _ => {
            // the first alternative matches everything but one character, and is abandoned
            let p_text = text(" ") + " !";
            expect!(p_text, [{v:(x:u64 " " => ran(x))* "?" => v.len(), v:(x:u64 " " => ran(x))* "!" => v.len()}], true, &sorted)
        }
    }
}

// ------------------------------------------------------------------ rules used very often

fn many_rule_uses(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let n = size(i / 4, &mut rng, 300_007);
    cx.eval();
    cx.nontrivial(mix(n as U64) ^ i % 4);
    cx.max("uses of a rule in one parse", n as U64);
    let xs: Vec<U64> = (0..n).map(|_| rng.next() % 1000).collect();
    let csv = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let lns = xs.iter().map(|x| format!("{x}\n")).collect::<String>();
    let got = match i % 4 {
        0 => {
            let p = parser!(rule n: U64 = u64; rule l: Vec<U64> = repeat_sep(n, ","); l);
            guard(|| p.parse(&csv))
        }
        1 => {
            let p = parser!(rule n: U64 = line(u64); n*);
            guard(|| p.parse(&lns))
        }
        2 => {
            let inner = parser!(rule d: U64 = u64; d);
            let p = parser!(rule n: U64 = { a:inner => a, "x" => 0 }; lines(n));
            guard(|| p.parse(&lns))
        }
        _ => {
            let p = parser!(rule n: U64 = { a:(u64 "!") => a, b:m => b }; rule m: U64 = u64; repeat_sep(n, ","));
            guard(|| p.parse(&csv))
        }
    };
    if got != Lib::Match(xs) {
        cx.violation(format!("a rule used {n} times (shape {}): {}", i % 4, short(&format!("{got:?}"))));
    }
}

// ------------------------------------------------------------------ errors far along a line, far down a text

fn intern(s: String) -> &'static str {
    // a parser needs its literals to live long enough; a few hundred of these are made
    Box::leak(s.into_boxed_str())
}

/// The place and text of an error after `lines` lines and `columns` characters.
fn far_places(cx: &mut Ctx, i: U64, mut rng: Rng, panics_only: Bool) {
    const CHARS: [Char; 12] = ['a', 'é', '漢', '😂', '\u{301}', '\t', '\r', '\0', '\u{2028}', '\u{85}', '\u{feff}', ' '];
    let n = size(i / 4, &mut rng, 300_007);
    let small = rng.below(5);
    let (columns, rows) = match i % 4 {
        0 => (n, small),
        1 => (small, n),
        2 => (n / 3, n / 3),
        _ => (rng.below(6000), rng.below(300)),
    };
    let mut chars = vec![*rng.pick(&CHARS)];
    if rng.chance(60) {
        chars = (0..7).map(|_| *rng.pick(&CHARS)).collect();
    }
    let mut text = String::new();
    for k in 0..rows {
        if k % 3 == 1 {
            text.push(chars[k % chars.len()]);
        }
        text.push('\n');
    }
    // shift the bytes that follow by nought to three
    let lead = rng.below(4);
    for k in 0..columns {
        text.push(if k < lead { 'a' } else { chars[k % chars.len()] });
    }
    let pre = intern(text);
    let tail = *rng.pick(&["", "", "\n", "more é\n\nof 漢 it"]);
    let line_start = columns == 0;
    let extra = "extra unparsed text after match";
    // (body, text of the body, offset of the error in it, message)
    macro_rules! go {
        ($($when:expr, [$($p:tt)*] $text:expr, $at:literal, $msg:expr;)*) => { $( if $when {
            let t = format!("{pre}{}{}", $text, tail);
            let p = parser!(pre $($p)*);
            let got = guard(|| p.parse(&t).map(|v| format!("{v:?}")));
            let at = pre.len() + $at;
            let want = format!("{}{}", $msg, crate::engine::pos_suffix(&t, at));
            cx.eval();
            cx.max("column of an error", columns as U64);
            cx.max("line of an error", rows as U64);
            cx.nontrivial(mix(hash_str(&t)) ^ hash_str(stringify!($($p)*)));
            let what = match &got {
                Lib::Fail(_) if panics_only => None,
                Lib::Fail(e) if e.loc == at && e.display == want && e.source == t && e.consistent => None,
                Lib::Fail(e) => Some(format!("byte {} {:?}", e.loc, short(&e.display))),
                Lib::Match(_) if panics_only => None,
                o => Some(short(&format!("{o:?}"))),
            };
            if let Some(w) = what {
                cx.violation(format!("({} characters on {} lines of {:?}) {} followed by {:?}: {w}, expected byte {at} {want:?}", pre.chars().count(), rows + 1, chars, stringify!($($p)*), short(&format!("{}{tail}", $text))));
            }
        } )* };
    }
    go! {
        true, ['!'] "?", 0, "expected '!'";
        true, ["é!"] "é?", 0, "expected \"é!\"";
        true, [u8] "256", 0, "failed to parse \"256\" as type u8: number too large to fit in target type";
        true, [i64] "-x", 0, "expected i64";
        true, [digit digit] "1x", 1, "expected decimal digit";
        true, [{upper, lower} "."] "A,", 1, "expected \".\"";
        true, [] "zz", 0, extra;
        true, [any_char] "漢x", 3, extra;
        line_start, [line("ab" digit)] "abx\n", 2, "expected decimal digit";
        line_start, [line("ab")] "abc\n", 2, "line(pattern) matched part of the line, but not all of it";
        line_start, [line(digit) line(digit)] "1\nx", 2, "expected decimal digit";
        !line_start, [line("ab")] "ab\n", 0, "line() can't match here because this is not at the start of a line";
        !line_start, [section("ab")] "ab\n", 0, "section() can't match here because this is not at the start of a section";
        !line_start, [any_char line(line(digit "é" digit))] "\n1é漢\n", 4, "expected decimal digit";
        !line_start, [any_char any_char section(lines(digit "é" digit))] "\n\n1é2\n1é漢", 10, "expected decimal digit";
        tail.is_empty(), ['!'] "", 0, "expected '!'";
        tail.is_empty(), ["a" any_char] "a", 1, "expected any character";
    }
}

// ------------------------------------------------------------------ rule sets kept apart

/// Two rule sets in one parse, built with `between` others (kept or dropped) in between.
fn rule_sets_apart(cx: &mut Ctx, i: U64, mut rng: Rng) {
    const FAR: [usize; 16] = [255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8192, 16_384, 32_768, 65_535, 65_536, 65_537, 131_072];
    let between = if (i as usize) < FAR.len() {
        FAR[FAR.len() - 1 - i as usize]
    } else if (i as usize) < FAR.len() + 300 {
        i as usize - FAR.len()
    } else {
        rng.below(3000)
    };
    fn angles() -> impl Parser<Output = std::primitive::u32, RawOutput = (std::primitive::u32,)> {
        parser!(rule b: std::primitive::u32 = { "<" x:b ">" => x + 1, "." => 0 }; b)
    }
    fn other() -> impl Parser<Output = std::primitive::u32, RawOutput = (std::primitive::u32,)> {
        parser!(rule b: std::primitive::u32 = { "<" x:b ">" => x + 7, "," => 3 }; b)
    }
    let keep = rng.chance(50);
    // exact distances need that nobody else builds any meanwhile
    static ALONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    for d in 0..3usize {
        let first = angles();
        let mut kept = vec![];
        for _ in 0..(between + d).saturating_sub(1) {
            let o = other();
            if keep {
                kept.push(o);
            } else if o.parse(",").ok() != Some(3) {
                cx.violation("a small rule set misread \",\"".to_string());
            }
        }
        let outer = parser!(rule a: std::primitive::u32 = { "(" x:a ")" => x + 100, i:first => i }; v:a "!" w:a => (v, w));
        let t = "((<<.>>))!(<.>)";
        let got = guard(|| outer.parse(t));
        cx.eval();
        cx.nontrivial(mix(between as U64 + d as U64) ^ keep as U64);
        cx.max("rule sets built between two that meet", (between + d) as U64);
        if got != Lib::Match((202, 101)) {
            cx.violation(format!("two rule sets in one parse, built with {} others in between ({}): {} instead of (202, 101)", (between + d).saturating_sub(1), if keep { "kept" } else { "dropped" }, short(&format!("{got:?}"))));
        }
        // and all of them side by side
        if !kept.is_empty() {
            let last = kept.pop().unwrap();
            let one = kept.pop().unwrap_or_else(other);
            let p = parser!(a:outer ":" b:one ":" c:last => (a, b, c));
            let got = guard(|| p.parse("<.>!.:<,>:<<,>>"));
            cx.eval();
            if got != Lib::Match(((1, 0), 10, 17)) {
                cx.violation(format!("three rule sets side by side in one parse: {} instead of ((1, 0), 10, 17)", short(&format!("{got:?}"))));
            }
        }
    }
}

// ------------------------------------------------------------------ stages

pub fn places(quick: U64, thorough: U64, panics_only: Bool) -> Stage {
    stage("errors far along a line or far down a text", quick, thorough, move |cx, i, rng| far_places(cx, i, rng, panics_only))
}
pub fn sets_apart(quick: U64, thorough: U64) -> Stage {
    stage("rule sets built far apart", quick, thorough, rule_sets_apart)
}

pub fn offers(quick: U64, thorough: U64) -> Stage {
    stage("user-written parsers with very many matches", quick, thorough, many_offers)
}
pub fn squared(quick: U64, thorough: U64) -> Stage {
    stage("every pair of offers in order", quick, thorough, |cx, _, rng| offers_squared(cx, rng))
}
pub fn giving_back(quick: U64, thorough: U64) -> Stage {
    stage("giving back very many occurrences", quick, thorough, |cx, i, rng| give_back(cx, i, rng, 70_000))
}
pub fn twins(quick: U64, thorough: U64) -> Stage {
    stage("plural and singular on long texts", quick, thorough, long_twins)
}
pub fn regions(quick: U64, thorough: U64) -> Stage {
    stage("very many lines and sections", quick, thorough, long_regions)
}
pub fn conversions(quick: U64, thorough: U64) -> Stage {
    stage("very many conversions", quick, thorough, long_conversions)
}
pub fn rule_uses(quick: U64, thorough: U64) -> Stage {
    stage("very many uses of a rule", quick, thorough, many_rule_uses)
}

// ------------------------------------------------------------------ the longest lists

/// A few million occurrences: one entry for each.
fn longest_list(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let n = [1_048_577usize, 2_097_155][(i / 6 % 2) as usize] + rng.below(1000) as usize;
    cx.eval();
    cx.nontrivial(mix(n as U64) ^ i);
    cx.max("longest list", n as U64);
    let salt = rng.next() as usize;
    let at = |k: usize| (k.wrapping_mul(2_654_435_761) ^ salt) % 10;
    macro_rules! known {
        ($text:expr, [$($p:tt)*]) => {{
            let text: String = $text;
            let p = parser!($($p)*);
            match guard(|| p.parse(&text)) {
                Lib::Match(v) => {
                    if v.len() != n {
                        cx.violation(format!("parser!({}) on {n} occurrences: {} entries", stringify!($($p)*), v.len()));
                    } else if let Some(k) = v.iter().enumerate().position(|(k, x)| *x as usize != at(k)) {
                        cx.violation(format!("parser!({}) on {n} occurrences: entry {k} is {}, expected {}", stringify!($($p)*), v[k], at(k)));
                    }
                }
                x => cx.violation(format!("parser!({}) on {n} occurrences: {}", stringify!($($p)*), short(&format!("{x:?}")))),
            }
        }};
    }
    let each = |sep: &str| (0..n).map(|k| format!("{}{sep}", at(k))).collect::<String>();
    match i % 6 {
        0 => known!(each(""), [digit*]),
        1 => known!(each(",").trim_end_matches(',').to_string(), [repeat_sep(digit, ",")]),
        2 => known!(each("\n"), [lines(digit)]),
        3 => known!(each(";"), [(x:u8 ";" => x)+]),
        4 => known!(format!("<{}>", each("")), ["<" v:digit+ ">" => v]),
        _ => {
            let text = each("");
            let p = parser!(string(digit*));
            let got = guard(|| p.parse(&text));
            if got != Lib::Match(text.clone()) {
                cx.violation(format!("string(digit*) on {n} digits: {}", short(&format!("{got:?}"))));
            }
        }
    }
}

pub fn longest(quick: U64, thorough: U64) -> Stage {
    stage("millions of occurrences", quick, thorough, longest_list)
}

// ------------------------------------------------------------------ huge lines and sections

/// Lines and sections of more than a mebibyte.
fn huge_region(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let size = [1usize << 20, 1 << 21, 5 << 20][(i / 6 % 3) as usize];
    const CHUNK: &str = "0123456789abcdef é 漢 😂 0123456789abcdefghijklmnopqrstuvwxyz";
    let n = size / CHUNK.len() + 1 + rng.below(40);
    let long = CHUNK.repeat(n);
    let want = Lib::Match(n);
    cx.eval();
    cx.nontrivial(mix(n as U64) ^ i % 6);
    cx.max("bytes in one line or section", long.len() as U64);
    let mut expect = |what: &str, got: Lib<usize>, want: Lib<usize>| {
        if got != want {
            cx.violation(format!("{what}, {} bytes: got {}, expected {want:?}", CHUNK.len() * n, short(&format!("{got:?}"))));
        }
    };
    match i % 6 {
        0 => {
            let p = parser!(a:line(CHUNK*) line("x") => a.len());
            expect("a huge line and a small one", guard(|| p.parse(&format!("{long}\nx\n"))), want);
        }
        1 => {
            let p = parser!(a:line(CHUNK*) => a.len());
            expect("a huge unterminated line", guard(|| p.parse(&long)), want);
        }
        2 => {
            let p = parser!(a:lines(CHUNK*) => a.len() + a[1].len() + a[2].len());
            expect("huge lines", guard(|| p.parse(&format!("\n{long}\n{long}"))), Lib::Match(2 * n + 3));
        }
        3 => {
            let p = parser!(a:section(line(CHUNK)*) section(line("x")) => a.len());
            let t = format!("{CHUNK}\n").repeat(n);
            expect("a huge section and a small one", guard(|| p.parse(&format!("{t}\nx\n"))), want);
        }
        4 => {
            let p = parser!(a:sections(lines(CHUNK*)) => a[1].iter().map(|l| l.len()).sum::<usize>() + a.len());
            expect("sections of huge lines", guard(|| p.parse(&format!("\n{CHUNK}\n{long}\n{long}\n\n{CHUNK}\n"))), Lib::Match(2 * n + 4));
        }
        _ => {
            let p = parser!(section(line(CHUNK)) a:section(lines(CHUNK)) => a.len());
            let t = vec![CHUNK; n].join("\n");
            expect("a small section and a huge unterminated one", guard(|| p.parse(&format!("{CHUNK}\n\n{t}"))), want);
        }
    }
}

pub fn huge(quick: U64, thorough: U64) -> Stage {
    stage("lines and sections of mebibytes", quick, thorough, huge_region)
}

// ------------------------------------------------------------------ rule sets of very many rules

/// Walks through the rules of the big sets: each must be found to be itself.
fn very_many_rules(cx: &mut Ctx, i: U64, mut rng: Rng) {
    fn go(cx: &mut Ctx, rng: &mut Rng, n: usize, p: &impl Parser<Output = (usize, String)>) {
        for _ in 0..20 {
            // the same walk as the rules: "x" goes on by two, "y" back to about half
            let mut walk = |start: usize| -> (String, usize) {
                let (mut t, mut at) = (String::new(), start);
                for _ in 0..rng.below(220) {
                    if rng.chance(97) {
                        t.push('x');
                        at = if at + 2 < n { at + 2 } else { at % 2 };
                    } else {
                        t.push('y');
                        at = at / 4 * 2 + at % 2;
                    }
                }
                (t, at)
            };
            let ((a, ai), (b, bi)) = (walk(0), walk(1));
            cx.eval();
            cx.nontrivial(mix(hash_str(&a)) ^ hash_str(&b));
            cx.seen("rules reached in big sets", (n * 1000 + ai) as U64);
            cx.seen("rules reached in big sets", (n * 1000 + bi) as U64);
            let t = format!("{a}{ai}./{b}{bi}.");
            let got = guard(|| p.parse(&t));
            if got != Lib::Match((ai, bi.to_string())) {
                cx.violation(format!("a set of {n} rules on {t:?}: got {}, expected rules {ai} and {bi}", short(&format!("{got:?}"))));
            }
            let t = format!("{a}{ai}./{b}{}.", (bi + 32) % n.max(64));
            if (bi + 32) % n.max(64) != bi {
                match guard(|| p.parse(&t)) {
                    Lib::Fail(_) => {}
                    got => cx.violation(format!("a set of {n} rules on {t:?}: got {}, expected an error", short(&format!("{got:?}")))),
                }
            }
        }
    }
    if i % 2 == 0 {
        go(cx, &mut rng, 40, &crate::many_rules::rules_40());
    } else {
        go(cx, &mut rng, 300, &crate::many_rules::rules_300());
    }
}

pub fn big_rule_sets(quick: U64, thorough: U64) -> Stage {
    stage("rule sets of very many rules", quick, thorough, very_many_rules)
}
