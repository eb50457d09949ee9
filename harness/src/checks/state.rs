//! C15 (purity, reuse, threads, memory), C16 (helper), C17 (collections), C11 extras.
use super::{observe, stage, Stage};
use crate::dynp::{self, BoxP};
use crate::engine::{self, compare, guard, short, Case, Facet, Lib};
use crate::gen::{self, Gen, Profile};
use crate::model::{self, Outcome, Stats};
use crate::node::*;
use crate::rng::{hash_str, mix, Rng};
use crate::stats::Ctx;
use crate::value::V;
use crate::watch;
use aoc_parse::{parser, prelude::*, ParseError};
use std::cell::RefCell;
use std::collections::*;
use std::rc::Rc;

// ------------------------------------------------------------------ C15

struct Known {
    text: String,
    outcome: Outcome,
    stats: Stats,
    /// what the library itself said the first time
    first: RefCell<Option<Lib<V>>>,
}
struct Subject {
    g: Grammar,
    p: BoxP,
    name: String,
    hash: u64,
    known: Vec<Known>,
}

fn profile_for(rng: &mut Rng) -> Profile {
    match rng.below(6) {
        0 => Profile::general(),
        1 => Profile::rules(),
        2 => Profile::sections(),
        3 => Profile::conversions(),
        4 => Profile::errors(),
        _ => Profile::numbers(),
    }
}

fn subjects(rng: &mut Rng, n: usize, texts: usize) -> Vec<Subject> {
    let mut v = vec![];
    while v.len() < n {
        let p = profile_for(rng).skin(rng);
        let (g, mut r) = Gen::new(Rng::new(rng.next()), &p).grammar();
        let Ok(bp) = engine::build(&g) else { continue };
        let known: Vec<Known> = gen::texts(&g, &p, &mut r, texts)
            .into_iter()
            .map(|text| {
                let (outcome, stats) = model::run(&g, &text, false, 3_000);
                Known { text, outcome, stats, first: RefCell::new(None) }
            })
            .filter(|k| k.outcome != Outcome::OutOfFuel)
            .collect();
        if known.is_empty() {
            continue;
        }
        let name = g.text();
        v.push(Subject { p: bp, hash: hash_str(&name), name, known, g });
    }
    v
}

fn judge(cx: &mut Ctx, s: &Subject, k: &Known, lib: Lib<V>, mon: dynp::Mon, how: &str) {
    let budget = engine::default_budget(&k.stats);
    let o = engine::Observed {
        diffs: compare(&Case { src: &k.text, model: &k.outcome, stats: &k.stats, lib: &lib, mon: &mon, budget }),
        model: k.outcome.clone(),
        stats: k.stats,
        lib,
        mon,
    };
    observe(cx, &o, s.hash, &s.name, &k.text);
    let mut first = k.first.borrow_mut();
    match &*first {
        None => *first = Some(o.lib.clone()),
        Some(f) if *f != o.lib => cx.violation(format!(
            "{how}: pattern {} on {:?}: got {}, but the same parse gave {} before",
            s.name,
            k.text,
            short(&format!("{:?}", o.lib)),
            short(&format!("{f:?}"))
        )),
        Some(_) => cx.count("repetitions with the identical outcome", 1),
    }
    for (f, what) in &o.diffs {
        if !matches!(f, Facet::Protocol | Facet::ErrMsg) {
            cx.violation(format!("{how}: pattern {} on {:?}: {what}", s.name, k.text));
        }
    }
}

fn history(cx: &mut Ctx, mut rng: Rng) {
    let subs = Rc::new(subjects(&mut rng, 3, 5));
    let mut buffer = String::with_capacity(4096);
    let mut trace = 0u64;
    for stepno in 0..40 {
        let s = &subs[rng.below(subs.len())];
        let k = &s.known[rng.below(s.known.len())];
        let budget = engine::default_budget(&k.stats);
        let how;
        match rng.below(8) {
            // the same storage with other contents
            0..=2 => {
                how = "text in a reused buffer";
                buffer.clear();
                buffer.push_str(&k.text);
                let (l, m) = engine::run_lib(&s.p, &buffer, budget);
                judge(cx, s, k, l, m, how);
            }
            3 => {
                how = "fresh text, reused parser";
                let (l, m) = engine::run_lib(&s.p, &k.text.clone(), budget);
                judge(cx, s, k, l, m, how);
            }
            4 => {
                how = "rebuilt and moved parser";
                let moved = {
                    let p = dynp::build(&s.g);
                    let v = vec![p.clone(), p];
                    Box::new(v.into_iter().next_back().unwrap())
                };
                let (l, m) = engine::run_lib(&moved, &k.text, budget);
                judge(cx, s, k, l, m, how);
            }
            5 => {
                how = "a slice of a longer text";
                let long = format!("zz\n{}\nzz", k.text);
                let (l, m) = engine::run_lib(&s.p, &long[3..3 + k.text.len()], budget);
                judge(cx, s, k, l, m, how);
            }
            6 => {
                how = "a parse inside another parse's conversion";
                // run others from inside the conversions of this one
                let subs2 = subs.clone();
                let inner: Rc<RefCell<Vec<(usize, usize, Lib<V>, dynp::Mon)>>> = Default::default();
                let log = inner.clone();
                let r2 = RefCell::new(Rng::new(rng.next()));
                dynp::inside_conversions(Some(Rc::new(move || {
                    if log.borrow().len() > 20 {
                        return;
                    }
                    let (a, b) = {
                        let mut r = r2.borrow_mut();
                        let a = r.below(subs2.len());
                        (a, r.below(subs2[a].known.len()))
                    };
                    let k = &subs2[a].known[b];
                    let (l, m) = engine::run_lib(&subs2[a].p, &k.text, engine::default_budget(&k.stats));
                    log.borrow_mut().push((a, b, l, m));
                })));
                let (l, m) = engine::run_lib(&s.p, &k.text, budget);
                dynp::inside_conversions(None);
                judge(cx, s, k, l, m, how);
                for (a, b, l, m) in inner.take() {
                    cx.count("parses run inside conversions", 1);
                    judge(cx, &subs[a], &subs[a].known[b], l, m, how);
                }
            }
            _ => {
                how = "an abandoned parse in between";
                // a parse stopped half-way by a panic of user code (budget of a few attempts)
                let n = 1 + rng.next() % 6;
                let _ = engine::run_lib(&s.p, &k.text, n);
                let (l, m) = engine::run_lib(&s.p, &k.text, budget);
                judge(cx, s, k, l, m, how);
            }
        }
        cx.count(&format!("steps: {how}"), 1);
        trace = mix(trace ^ mix(s.hash ^ hash_str(&k.text) ^ hash_str(how)));
        if stepno == 39 {
            cx.seen("distinct histories", trace);
        }
    }
}

fn other_threads(cx: &mut Ctx, mut rng: Rng) {
    // the same pattern and texts, at the same time, in several threads
    let seed = rng.next();
    let barrier = std::sync::Barrier::new(3);
    let outs: Vec<Ctx> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3)
            .map(|t| {
                let barrier = &barrier;
                let idx = cx.idx;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut rng = Rng::new(seed);
                        let mut c = Ctx { idx, ..Ctx::default() };
                        let subs = subjects(&mut rng, 3, 4);
                        barrier.wait();
                        let mut rng = Rng::new(seed ^ t);
                        for _ in 0..60 {
                            let s = &subs[rng.below(3)];
                            let k = &s.known[rng.below(s.known.len())];
                            let (l, m) = engine::run_lib(&s.p, &k.text, engine::default_budget(&k.stats));
                            judge(&mut c, s, k, l, m, "several threads at once");
                        }
                        c.count("parses run while other threads parse", 60);
                        c
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for o in outs {
        cx.merge(o);
    }
}

fn memory(cx: &mut Ctx, mut rng: Rng) {
    let subs = subjects(&mut rng, 1, 6);
    let s = &subs[0];
    for k in &s.known {
        let budget = engine::default_budget(&k.stats);
        let n = 48;
        let run = |count: u64| {
            let before = watch::live();
            for _ in 0..count {
                drop(engine::run_lib(&s.p, &k.text, budget));
            }
            watch::live() - before
        };
        run(20);
        let a = run(n);
        let b = run(n);
        let c = run(n);
        cx.count("repeated parses with heap accounting", 20 + 3 * n);
        cx.eval();
        cx.nontrivial(mix(s.hash ^ hash_str(&k.text)));
        if a >= n as i64 && b >= n as i64 && c >= n as i64 {
            cx.violation(format!(
                "pattern {} on {:?}: every batch of {n} repeated parses leaves memory behind ({a}, {b}, {c} bytes)",
                s.name, k.text
            ));
        }
    }
    // texts that are all different but equally long
    let k = &s.known[0];
    let texts: Vec<String> = (0..240).map(|i| format!("{}{}", k.text, std::char::from_u32(0x4e00 + i).unwrap())).collect();
    let mut growth = vec![];
    for chunk in texts.chunks(60) {
        let before = watch::live();
        for t in chunk {
            drop(engine::run_lib(&s.p, t, 20_000));
        }
        growth.push(watch::live() - before);
    }
    cx.count("parses of ever new texts with heap accounting", 240);
    if growth[1..].iter().all(|g| *g >= 60) {
        cx.violation(format!("pattern {}: parsing ever new texts leaves memory behind ({growth:?} bytes per 60 texts)", s.name));
    }
}

type Run = Box<dyn Fn(&str) -> Lib<String> + Send + Sync>;
pub struct TypedP {
    pub name: &'static str,
    pub texts: &'static [&'static str],
    pub make: fn() -> Run,
}

fn dbg<P>(p: P) -> Run
where
    P: Parser + Send + Sync + 'static,
    P::Output: std::fmt::Debug,
{
    Box::new(move |s| guard(|| p.parse(s).map(|v| format!("{v:?}"))))
}

/// Shareable parsers: the same value is used by all threads.
pub fn typed() -> Vec<TypedP> {
    macro_rules! t {
        ($([$($pat:tt)*] $texts:expr;)*) => { vec![$(TypedP {
            name: stringify!($($pat)*),
            texts: &$texts,
            make: || dbg(parser!($($pat)*)),
        },)*] };
    }
    t! {
        [lines(u64 "x" u64)] ["1x2\n3x4\n", "1x2\n3y4\n", "", "7x8", "18446744073709551616x1\n"];
        [repeat_sep(i32, ",")] ["1,-2,+3", "1,,2", "", "2147483648", "5"];
        [{"a" => 1, "ab" => 2, x:u8 => x}] ["a", "ab", "abc", "7", "300"];
        [sections(lines(digit+))] ["12\n3\n\n4\n", "12\n\n\n3\n", "1\nx\n", ""];
        [string(alpha+) ": " f64?] ["a: 1.5", "é: ", ": 1", "zz: x"];
        [char_of("><^v") upper lower alnum* any_char] ["^Aaé1!", ">Z", "<AB", "vAb\n"];
        [repeat_sep({u8_hex => 1u32, i16_bin => 2, digit_bin => 3}, " ")] ["ff 0 101", "1ff 1", "0 0 2", ""];
        [big_uint " " big_int " " bool] ["123456789012345678901234567890 -5 true", "1 2 false", "-1 2 true"];
        [((digit {a:alpha b:digit => (a, b), u:upper "!" => (u, 0)}?)* "end")] ["1a23b4end", "end", "1aend", "1a2"];
        [a:alpha b:digit c:{a:alpha b:digit => (a, b), u:upper "!" => (u, 0)}* => (b, a, c)] ["x1", "x1y2z3", "1x", "x1y"];
        [hash_map(lines(string(alpha+) "=" u32)) ] ["a=1\n", "a=1\nb", "", "c=4294967296\n"];
        [btree_set(repeat_sep({f:f32 => f.to_bits(), "nil" => 0}, ";"))] ["1.5;2;nil;2", ";", "nan", "1e400;-1"];
        [line(u8* ) section(lines(string(any_char+))) i64] ["\na\nb\n\n5", "3\n\n7", "\na\n", "x"];
    }
}

/// Expected outcome of every (parser, text), computed on a fresh parser in a fresh thread.
fn typed_baseline() -> &'static Vec<Vec<Lib<String>>> {
    static B: std::sync::OnceLock<Vec<Vec<Lib<String>>>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        typed()
            .iter()
            .map(|t| {
                t.texts
                    .iter()
                    .map(|x| {
                        let make = t.make;
                        std::thread::scope(|s| s.spawn(|| make()(x)).join().expect("thread"))
                    })
                    .collect()
            })
            .collect()
    })
}

fn shared_parsers(cx: &mut Ctx, mut rng: Rng) {
    let list = typed();
    let base = typed_baseline();
    let runs: Vec<Run> = list.iter().map(|t| (t.make)()).collect();
    let (n, rounds) = (4, 60);
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let barrier = std::sync::Barrier::new(n);
    let bad: std::sync::Mutex<Vec<String>> = Default::default();
    std::thread::scope(|sc| {
        for seed in &seeds {
            let (list, runs, barrier, bad) = (&list, &runs, &barrier, &bad);
            sc.spawn(move || {
                let mut rng = Rng::new(*seed);
                barrier.wait();
                for _ in 0..rounds {
                    let a = rng.below(list.len());
                    let b = rng.below(list[a].texts.len());
                    let got = runs[a](list[a].texts[b]);
                    if got != base[a][b] {
                        bad.lock().unwrap().push(format!(
                            "parser!({}) shared by {n} threads, on {:?}: got {}, alone {}",
                            list[a].name,
                            list[a].texts[b],
                            short(&format!("{got:?}")),
                            short(&format!("{:?}", base[a][b]))
                        ));
                    }
                }
            });
        }
    });
    cx.evaluations += n as u64 * rounds;
    cx.count("parses through parsers shared by 4 threads", n as u64 * rounds);
    cx.nontrivial(seeds[0]);
    for b in bad.into_inner().unwrap().into_iter().take(3) {
        cx.violation(b);
    }
}

pub fn c15() -> Vec<Stage> {
    vec![
        stage("histories", 12_000, 120_000, |cx, _, rng| history(cx, rng)),
        stage("independent threads", 150, 3_000, |cx, _, rng| other_threads(cx, rng)),
        stage("one parser, several threads", 900, 6_000, |cx, _, rng| shared_parsers(cx, rng)),
        stage("heap accounting", 5_000, 40_000, |cx, _, rng| memory(cx, rng)),
    ]
}

/// First uses of everything at the same moment, once per process.
pub fn first_use() -> Vec<Stage> {
    vec![stage("first use by all threads at once", 1, 1, |cx, _, mut rng| {
        let n = 8;
        let barrier = std::sync::Barrier::new(n);
        let seed = rng.next();
        let bad: std::sync::Mutex<Vec<String>> = Default::default();
        let count = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..n as u64 {
                let (barrier, bad, count) = (&barrier, &bad, &count);
                sc.spawn(move || {
                    let fns = super::numbers::all();
                    let mut order: Vec<usize> = (0..fns.len()).collect();
                    // half of the threads agree on the order, so that they meet
                    Rng::new(if t % 2 == 0 { seed } else { seed ^ t }).shuffle(&mut order);
                    barrier.wait();
                    for i in order {
                        let f = &fns[i];
                        for s in ["1", "-1", "10", "ff", "true", "1.5e3", "x", "nan", ""] {
                            let want = crate::nums::lex(f.kind, s).filter(|l| *l == s.len()).and_then(|_| crate::nums::value(f.kind, s).ok());
                            let got = (f.alone)(s);
                            count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            let ok = match (&got, &want) {
                                (Lib::Match(a), Some(b)) => a == b,
                                (Lib::Fail(_), None) => true,
                                _ => false,
                            };
                            if !ok {
                                bad.lock().unwrap().push(format!("{} on {s:?} during first use by {n} threads: got {got:?}, expected {want:?}", f.name));
                            }
                        }
                    }
                });
            }
        });
        cx.evaluations += count.into_inner();
        cx.nontrivial(seed);
        for b in bad.into_inner().unwrap().into_iter().take(3) {
            cx.violation(b);
        }
    })]
}

// ------------------------------------------------------------------ C16

#[derive(Debug)]
struct Mine(ParseError);
impl From<ParseError> for Mine {
    fn from(e: ParseError) -> Mine {
        Mine(e)
    }
}

fn helper(cx: &mut Ctx, mut rng: Rng, p: &Profile) {
    let p = &p.skin(&mut rng);
    let (g, mut r) = Gen::new(Rng::new(rng.next()), p).grammar();
    let Ok(bp) = engine::build(&g) else { return };
    let name = g.text();
    let mut texts = gen::texts(&g, p, &mut r, 6);
    for t in texts.clone() {
        let body = t.trim_end_matches('\n').to_string();
        let end = *r.pick(&["", "\n", "\n\n", "\r", "\r\n", "\n\r", " ", "\n ", "\u{2028}", "\u{85}", "\0", "\n\n\n", "\u{b}", "é"]);
        texts.push(format!("{body}{end}"));
    }
    texts.push(String::new());
    texts.push("\n".into());
    for t in &texts {
        let full = if t.ends_with('\n') { t.clone() } else { format!("{t}\n") };
        let (outcome, stats) = model::run(&g, &full, false, 4_000);
        if outcome == Outcome::OutOfFuel {
            continue;
        }
        let budget = engine::default_budget(&stats);
        // the helper keeps its own copy of the text: monitors that look at addresses are off
        dynp::mon_reset("", budget);
        let lib = guard(|| aoc_parse::<&BoxP, Mine>(t, &bp).map_err(|e| e.0));
        let mut mon = dynp::mon_take();
        let (direct, _) = engine::run_lib(&bp, &full, budget);
        cx.count(if t.ends_with('\n') { "texts with a final newline" } else { "texts without a final newline" }, 1);
        // user-parser events log absolute places; compare only their number here
        let mut diffs = compare(&Case { src: &full, model: &outcome, stats: &stats, lib: &lib, mon: &mon, budget });
        diffs.retain(|d| !matches!(d.0, Facet::Events | Facet::ErrMsg | Facet::Protocol));
        mon.events.clear();
        let o = engine::Observed { diffs, model: outcome, stats, lib, mon };
        observe(cx, &o, hash_str(&name), &name, t);
        for (_, what) in &o.diffs {
            cx.violation(format!("aoc_parse with pattern {name} on {t:?}: {what}"));
        }
        if direct != o.lib {
            cx.violation(format!(
                "aoc_parse with pattern {name} on {t:?}: {}; parsing {full:?} gives {}",
                short(&format!("{:?}", o.lib)),
                short(&format!("{direct:?}"))
            ));
        }
    }
}

fn helper_values(cx: &mut Ctx) {
    // values and error types as callers write them
    for t in ["", "\n", "1", "1\n", "1\n2", "1\n2\n", "1\n2\n\n", "1\r\n", "x", "1\nx", "é", "1\n\n2", "\n1", " "] {
        let full = if t.ends_with('\n') { t.to_string() } else { format!("{t}\n") };
        macro_rules! both {
            ($($p:tt)*) => {{
                cx.eval();
                cx.nontrivial(hash_str(t) ^ hash_str(stringify!($($p)*)));
                let p = parser!($($p)*);
                let a: Lib<String> = guard(|| aoc_parse::<_, ParseError>(t, &p).map(|v| format!("{v:?}")));
                let b: Lib<String> = guard(|| p.parse(&full).map(|v| format!("{v:?}")));
                let boxed: Result<String, Box<dyn std::error::Error>> = aoc_parse::<_, Box<dyn std::error::Error>>(t, &p).map(|v| format!("{v:?}"));
                let c = match boxed {
                    Ok(v) => Lib::Match(v),
                    Err(e) => match e.downcast::<ParseError>() {
                        Ok(e) => Lib::Fail(engine::err_info(&e)),
                        Err(e) => Lib::Panic(format!("not a ParseError: {e}")),
                    },
                };
                let moved = guard(|| aoc_parse::<_, ParseError>(t, p).map(|v| format!("{v:?}")));
                for (what, x) in [("", &a), (" into a boxed error", &c), (" with the parser passed by value", &moved)] {
                    if *x != b {
                        cx.violation(format!("aoc_parse({t:?}, {}){what}: {x:?}, parsing {full:?} directly: {b:?}", stringify!($($p)*)));
                    }
                }
            }};
        }
        both!(lines(u64));
        both!(line(string(any_char*)));
        both!(sections(lines(i32)));
        both!(string(any_char*));
        both!(u8);
        both!(u8 "\n");
        both!(lines(u8) "\n");
        both!("");
        both!("\n");
        both!({"1\n" => 1, "x\n" => 2});
        both!(repeat_sep(lines(u64), "\n"));
        both!(rule r: std::primitive::u64 = { x:digit "\n" y:r => x as std::primitive::u64 + y, "\n" => 0, x:digit "\n" => x as std::primitive::u64 }; r);
    }
}

pub fn c16() -> Vec<Stage> {
    vec![
        stage("helper with random patterns", 150_000, 400_000, |cx, i, rng| {
            let p = match i % 3 {
                0 => Profile::lines(),
                1 => Profile::sections(),
                _ => Profile::general(),
            };
            helper(cx, rng, &p)
        }),
        stage("helper as written by callers", 1, 1, |cx, _, _| helper_values(cx)),
    ]
}

// ------------------------------------------------------------------ C17

/// Pull the items out of the reference value of a list-producing pattern.
fn items(v: &V) -> Vec<V> {
    match v {
        V::List(xs) => xs.clone(),
        V::Opt(x) => x.iter().map(|x| (**x).clone()).collect(),
        other => panic!("not a list: {other:?}"),
    }
}
fn list_of(v: V) -> Vec<V> {
    items(&v)
}
fn pair_of(v: V) -> (V, V) {
    match v {
        V::Tup(mut xs) if xs.len() == 2 => {
            let b = xs.pop().unwrap();
            (xs.pop().unwrap(), b)
        }
        other => panic!("not a pair: {other:?}"),
    }
}

fn collections(cx: &mut Ctx, mut rng: Rng) {
    let p = if rng.chance(50) { Profile::conversions() } else { Profile::lines() }.skin(&mut rng);
    let map = rng.chance(50);
    // item pattern: small domains so that duplicates are common
    let mut gen = Gen::new(Rng::new(rng.next()), &p);
    let item = if map {
        let k = gen.terminal();
        let v = gen.terminal();
        Node::Seq(vec![k, v])
    } else if rng.chance(50) {
        gen.terminal()
    } else {
        let a = gen.terminal();
        let b = gen.terminal();
        Node::Conv(1, vec![Node::Alt(vec![a, b])])
    };
    let b = Box::new(item);
    let list = match rng.below(6) {
        0 => Node::Star(b),
        1 => Node::Plus(b),
        2 => Node::RepSep(b, Box::new(Node::Lit(","))),
        3 => Node::Lines(b),
        4 => Node::Opt(b),
        _ => Node::RepSep(b, Box::new(Node::Lit("\n"))),
    };
    let g = Grammar::of(list);
    let texts = gen::texts(&g, &Profile { max_text: 60, ..p.clone() }, &mut rng, 8);
    let name = g.text();
    let Ok(inner) = engine::build(&g) else { return };
    let as_list = || {
        let inner2 = inner.clone();
        parser!(x:inner2 => list_of(x))
    };
    for t in &texts {
        let (outcome, stats) = model::run(&g, t, false, 4_000);
        if outcome == Outcome::OutOfFuel {
            continue;
        }
        let budget = engine::default_budget(&stats);
        // Each collection as a value the reference can be compared with.
        macro_rules! run {
            ($what:expr, $parser:expr, $to:expr, $expect:expr) => {{
                dynp::mon_reset(t, budget);
                let parser_ = $parser;
                let got = guard(|| parser_.parse(t).map($to));
                let mon = dynp::mon_take();
                // compare through the common facets, the value separately
                let (want, evs) = match &outcome {
                    Outcome::Match { value, events } => (Some(items(value)), events.clone()),
                    _ => (None, vec![]),
                };
                let lib: Lib<V> = match &got {
                    Lib::Match(_) => Lib::Match(V::Unit),
                    Lib::Fail(e) => Lib::Fail(e.clone()),
                    Lib::Panic(m) => Lib::Panic(m.clone()),
                    Lib::OverBudget => Lib::OverBudget,
                };
                let m2 = match &outcome {
                    Outcome::Match { .. } => Outcome::Match { value: V::Unit, events: evs },
                    o => o.clone(),
                };
                let diffs = compare(&Case { src: t, model: &m2, stats: &stats, lib: &lib, mon: &mon, budget });
                let o = engine::Observed { diffs, model: outcome.clone(), stats, lib, mon };
                observe(cx, &o, hash_str(&name) ^ hash_str($what), &name, t);
                for (f, what) in &o.diffs {
                    if matches!(f, Facet::Accept | Facet::Panic | Facet::ErrLoc | Facet::Events) {
                        cx.violation(format!("{}({name}) on {t:?}: {what}", $what));
                    }
                }
                if let (Lib::Match(c), Some(list)) = (&got, &want) {
                    cx.max("most items in one collection", list.len() as u64);
                    if let Some(bad) = $expect(c, list) {
                        cx.violation(format!("{}({name}) on {t:?}: {bad}; items were {}", $what, short(&V::List(list.clone()).dbg())));
                    }
                }
            }};
        }
        if map {
            let pairs = || {
                let l = as_list();
                parser!(x:l => x.into_iter().map(pair_of).collect::<Vec<_>>())
            };
            let want = |l: &Vec<V>| -> Vec<(V, V)> {
                let mut m: Vec<(V, V)> = vec![];
                for x in l {
                    let (k, v) = pair_of(x.clone());
                    match m.iter_mut().find(|e| e.0 == k) {
                        Some(e) => e.1 = v,
                        None => m.push((k, v)),
                    }
                }
                m.sort();
                m
            };
            run!("hash_map", hash_map(pairs()), |m: HashMap<V, V>| m, |c: &HashMap<V, V>, l: &Vec<V>| {
                let mut got: Vec<(V, V)> = c.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                got.sort();
                (got != want(l)).then(|| format!("holds {got:?}"))
            });
            run!("btree_map", btree_map(pairs()), |m: BTreeMap<V, V>| m, |c: &BTreeMap<V, V>, l: &Vec<V>| {
                let got: Vec<(V, V)> = c.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                (got != want(l)).then(|| format!("holds {got:?}"))
            });
        } else {
            let distinct = |l: &Vec<V>| {
                let mut d = l.clone();
                d.sort();
                d.dedup();
                d
            };
            run!("hash_set", hash_set(as_list()), |m: HashSet<V>| m, |c: &HashSet<V>, l: &Vec<V>| {
                let mut got: Vec<V> = c.iter().cloned().collect();
                got.sort();
                (got != distinct(l)).then(|| format!("holds {got:?}"))
            });
            run!("btree_set", btree_set(as_list()), |m: BTreeSet<V>| m, |c: &BTreeSet<V>, l: &Vec<V>| {
                let got: Vec<V> = c.iter().cloned().collect();
                (got != distinct(l)).then(|| format!("holds {got:?}"))
            });
            run!("vec_deque", vec_deque(as_list()), |m: VecDeque<V>| m, |c: &VecDeque<V>, l: &Vec<V>| {
                let got: Vec<V> = c.iter().cloned().collect();
                (&got != l).then(|| format!("holds {got:?}"))
            });
        }
    }
}

/// A key that compares by value but remembers which occurrence it came from.
#[derive(Clone, Debug)]
struct Tag(std::primitive::u64, usize);
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> std::primitive::bool {
        self.0 == o.0
    }
}
impl Eq for Tag {}
impl std::hash::Hash for Tag {
    // deliberately poor, but lawful
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.0 % 7).hash(h)
    }
}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    // lawful, not the natural order
    fn cmp(&self, o: &Tag) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}

fn big_collections(cx: &mut Ctx, i: u64, mut rng: Rng) {
    let n = [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 9000][(i % 28) as usize];
    let domain = *rng.pick(&[1usize, 3, 10, 200, 100_000]);
    let xs: Vec<std::primitive::u64> = (0..n).map(|_| rng.below(domain) as std::primitive::u64).collect();
    let text = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let lines_text: String = xs.iter().enumerate().map(|(i, x)| format!("{x}={i}\n")).collect();
    cx.eval();
    cx.nontrivial(mix(hash_str(&text)));
    cx.max("most items in one collection", n as u64);
    let mut bad = |what: &str, ok: std::primitive::bool| {
        if !ok {
            cx.violation(format!("{what} of {n} items from a domain of {domain} (seeded): wrong contents"));
        }
    };
    let distinct: BTreeSet<_> = xs.iter().copied().collect();
    let mut last = BTreeMap::new();
    for (i, x) in xs.iter().enumerate() {
        last.insert(*x, i);
    }
    macro_rules! got {
        ($p:expr, $t:expr) => {
            match guard(|| $p.parse($t)) {
                Lib::Match(v) => Some(v),
                _ => None,
            }
        };
    }
    let p = || parser!(repeat_sep(x:u64 => Tag(x, 0), ","));
    let vals = |it: &mut dyn Iterator<Item = &Tag>| it.map(|t| t.0).collect::<Vec<_>>();
    let s = got!(hash_set(p()), &text);
    bad("hash_set", s.is_some_and(|s| { let v = vals(&mut s.iter()); v.len() == distinct.len() && v.into_iter().collect::<BTreeSet<_>>() == distinct }));
    let s = got!(btree_set(p()), &text);
    bad("btree_set", s.is_some_and(|s| vals(&mut s.iter()) == distinct.iter().rev().copied().collect::<Vec<_>>()));
    let s: Option<VecDeque<Tag>> = got!(vec_deque(p()), &text);
    bad("vec_deque", s.is_some_and(|s| vals(&mut s.iter()) == xs));
    let s: Option<VecDeque<std::primitive::u64>> = got!(parser!(vec_deque(repeat_sep(u64, ","))), &text);
    bad("vec_deque of u64", s.is_some_and(|s| s.iter().copied().collect::<Vec<_>>() == xs));
    let m: Option<HashMap<Tag, usize>> = got!(parser!(hash_map(lines(k:u64 "=" v:usize => (Tag(k, v), v)))), &lines_text);
    bad("hash_map", m.is_some_and(|m| m.len() == last.len() && last.iter().all(|(k, v)| m.get(&Tag(*k, 0)) == Some(v))));
    let m: Option<BTreeMap<Tag, usize>> = got!(parser!(btree_map(lines(k:u64 "=" v:usize => (Tag(k, v), v)))), &lines_text);
    bad("btree_map", m.is_some_and(|m| m.iter().map(|(k, v)| (k.0, *v)).collect::<Vec<_>>() == last.iter().rev().map(|(k, v)| (*k, *v)).collect::<Vec<_>>()));
    let m: Option<HashMap<std::primitive::u64, usize>> = got!(parser!(hash_map(lines(u64 "=" usize))), &lines_text);
    bad("hash_map of a tuple pattern", m.is_some_and(|m| m.len() == last.len() && last.iter().all(|(k, v)| m.get(k) == Some(v))));
    // collections inside other patterns
    if n > 0 && n < 300 {
        let t2 = format!("{text}\n{text}\n");
        let v: Option<Vec<HashSet<std::primitive::u64>>> = got!(parser!(lines(hash_set(repeat_sep(u64, ",")))), &t2);
        bad("lines(hash_set)", v.is_some_and(|v| v.len() == 2 && v.iter().all(|s| s.len() == distinct.len() && s.iter().all(|x| distinct.contains(x)))));
        let v: Option<(std::primitive::char, BTreeSet<VecDeque<std::primitive::u64>>)> = got!(parser!(alpha btree_set(lines(vec_deque(repeat_sep(u64, ","))))), &format!("z{t2}"));
        // `lines` is not at the start of a line here, so nothing may match
        bad("btree_set(lines(vec_deque)) off a line start", v.is_none());
        let v: Option<BTreeSet<VecDeque<std::primitive::u64>>> = got!(parser!(btree_set(lines(vec_deque(repeat_sep(u64, ","))))), &t2);
        bad("btree_set(lines(vec_deque))", v.is_some_and(|v| v.len() == 1 && v.first().unwrap().iter().copied().collect::<Vec<_>>() == xs));
        let v: Option<HashSet<std::primitive::u64>> = got!(parser!(hash_set(hash_map(lines(u64 "=" usize)) ) ).map_keys(), &lines_text);
        bad("hash_set of the pairs of a hash_map", v.is_some_and(|v| v == last.keys().copied().collect()));
    }
}

struct KeysOf<P>(P);
impl<P> KeysOf<P>
where
    P: Parser<Output = HashSet<(std::primitive::u64, usize)>>,
{
    fn parse(&self, t: &str) -> Result<HashSet<std::primitive::u64>, ParseError> {
        self.0.parse(t).map(|s| s.into_iter().map(|x| x.0).collect())
    }
}
trait ToKeys: Sized {
    fn map_keys(self) -> KeysOf<Self>;
}
impl<P: Parser<Output = HashSet<(std::primitive::u64, usize)>>> ToKeys for P {
    fn map_keys(self) -> KeysOf<P> {
        KeysOf(self)
    }
}

/// A value a pattern may produce whose iterator is written by the user: says little or nothing
/// about its length, and must not be asked again once it has ended.
struct Source {
    items: Vec<std::primitive::u64>,
    kind: u32,
}
struct SourceIter {
    items: std::vec::IntoIter<std::primitive::u64>,
    kind: u32,
    ended: std::primitive::bool,
}
impl IntoIterator for Source {
    type Item = Tracked;
    type IntoIter = SourceIter;
    fn into_iter(self) -> SourceIter {
        SourceIter { items: self.items.into_iter(), kind: self.kind, ended: false }
    }
}
impl Iterator for SourceIter {
    type Item = Tracked;
    fn next(&mut self) -> Option<Tracked> {
        if self.ended {
            // asked again after the end: something else than an end comes out, as it may
            return Some(Tracked::new(std::primitive::u64::MAX));
        }
        let x = self.items.next();
        self.ended = x.is_none();
        x.map(Tracked::new)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.ended { 0 } else { self.items.len() };
        match self.kind {
            0 => (0, None),
            1 => (n, None),
            2 => (n, Some(n)),
            3 => (0, Some(n)),
            4 => (n / 2, Some(n * 2 + 7)),
            5 => (n.min(1), Some(usize::MAX)),
            _ => (n.saturating_sub(1), Some(n + 1)),
        }
    }
}

thread_local! {
    static LIVE: std::cell::Cell<(std::primitive::u64, std::primitive::u64)> = const { std::cell::Cell::new((0, 0)) };
}
/// Neither cloned nor copied; counts how many were made and how many are gone.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Tracked(std::primitive::u64);
impl Tracked {
    fn new(x: std::primitive::u64) -> Tracked {
        LIVE.with(|l| l.set((l.get().0 + 1, l.get().1)));
        Tracked(x)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        LIVE.with(|l| l.set((l.get().0, l.get().1 + 1)));
    }
}

/// Values that are not `Vec`s and items that cannot be copied, up to hundreds of thousands.
fn any_iterator(cx: &mut Ctx, i: std::primitive::u64, mut rng: Rng) {
    let kind = (i % 7) as u32;
    let n = match i / 7 % 8 {
        0 => rng.below(4),
        1 | 2 | 3 => rng.below(200),
        4 => *rng.pick(&[255usize, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]),
        5 => rng.range(1000, 9000),
        6 => *rng.pick(&[9_999usize, 10_000, 10_001, 16_383, 16_384, 16_385, 32_768, 32_769]),
        _ => *rng.pick(&[65_535usize, 65_536, 65_537, 100_000, 100_001, 131_073, 262_145]),
    };
    let domain = *rng.pick(&[1usize, 10, 1000, 10_000_000]);
    let xs: Vec<std::primitive::u64> = (0..n).map(|_| rng.below(domain) as std::primitive::u64).collect();
    let text = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let distinct: BTreeSet<std::primitive::u64> = xs.iter().copied().collect();
    let mut last: BTreeMap<std::primitive::u64, usize> = BTreeMap::new();
    for (i, x) in xs.iter().enumerate() {
        last.insert(*x, i);
    }
    cx.eval();
    cx.nontrivial(mix(hash_str(&text) ^ kind as std::primitive::u64));
    cx.max("most items in one collection", n as std::primitive::u64);
    cx.count("collections made from user-written iterators", 5);
    let src = || parser!(v:repeat_sep(u64, ",") => Source { items: v, kind });
    macro_rules! got {
        ($what:expr, $p:expr, $f:expr) => {{
            LIVE.with(|l| l.set((0, 0)));
            let p = $p;
            let r = guard(|| p.parse(&text));
            let ok = match &r {
                Lib::Match(v) => $f(v),
                _ => false,
            };
            let made = LIVE.with(|l| l.get().0);
            if !ok {
                cx.violation(format!("{} of {n} items (kind of iterator {kind}, domain {domain}): wrong contents or no match", $what));
            } else if made != n as std::primitive::u64 {
                cx.violation(format!("{} of {n} items (kind of iterator {kind}): {made} items were taken", $what));
            }
            drop(r);
            let (made, gone) = LIVE.with(|l| l.get());
            if made != gone {
                cx.violation(format!("{} of {n} items: {made} items made, {gone} dropped", $what));
            }
        }};
    }
    let same = |a: &mut dyn Iterator<Item = std::primitive::u64>, b: &[std::primitive::u64]| a.eq(b.iter().copied());
    let ds: Vec<std::primitive::u64> = distinct.iter().copied().collect();
    got!("vec_deque", vec_deque(src()), |v: &VecDeque<Tracked>| same(&mut v.iter().map(|t| t.0), &xs));
    got!("btree_set", btree_set(src()), |v: &BTreeSet<Tracked>| same(&mut v.iter().map(|t| t.0), &ds));
    got!("hash_set", hash_set(src()), |v: &HashSet<Tracked>| v.len() == ds.len() && ds.iter().all(|x| v.contains(&*std::mem::ManuallyDrop::new(Tracked(*x)))));
    let pairs = || parser!(v:repeat_sep(u64, ",") => Source { items: v, kind }.into_iter_once().enumerate().map(|(i, x)| (x, i)).collect::<std::collections::LinkedList<_>>());
    got!("btree_map", btree_map(pairs()), |v: &BTreeMap<Tracked, usize>| v.iter().map(|(k, i)| (k.0, *i)).eq(last.iter().map(|(k, i)| (*k, *i))));
    got!("hash_map", hash_map(pairs()), |v: &HashMap<Tracked, usize>| v.len() == last.len() && v.iter().all(|(k, i)| last.get(&k.0) == Some(i)));
    // collections of collections, options and ready-made arrays
    if n > 0 && n < 9000 {
        let p = parser!(vec_deque(btree_set(vec_deque(repeat_sep(u64, ",")))));
        if !matches!(guard(|| p.parse(&text)), Lib::Match(v) if same(&mut v.iter().copied(), &ds)) {
            cx.violation(format!("vec_deque(btree_set(vec_deque(..))) of {n} items: wrong contents"));
        }
        let p = parser!(btree_map(hash_map(v:repeat_sep(u64, ",") => v.into_iter().enumerate().map(|(i, x)| (x, i)))));
        if !matches!(guard(|| p.parse(&text)), Lib::Match(v) if v == last) {
            cx.violation(format!("btree_map(hash_map(an iterator)) of {n} items: wrong contents"));
        }
        let one = parser!(hash_set(u64?));
        let t = xs[0].to_string();
        if !matches!(guard(|| one.parse(&t)), Lib::Match(v) if v.len() == 1 && v.contains(&xs[0])) || !matches!(guard(|| one.parse("")), Lib::Match(v) if v.is_empty()) {
            cx.violation("hash_set(u64?): wrong contents".into());
        }
        let arr = parser!(vec_deque(x:u64 => [x, x + 1, x]));
        if !matches!(guard(|| arr.parse(&t)), Lib::Match(v) if v == [xs[0], xs[0] + 1, xs[0]]) {
            cx.violation("vec_deque of an array: wrong contents".into());
        }
    }
}
impl Source {
    fn into_iter_once(self) -> std::iter::Fuse<SourceIter> {
        self.into_iter().fuse()
    }
}

pub fn c17() -> Vec<Stage> {
    vec![
        stage("user-written iterators and items", 7 * 8 * 12, 7 * 8 * 150, any_iterator),
        stage("collections of random patterns", 150_000, 700_000, |cx, _, rng| collections(cx, rng)),
        stage("sizes and item types", 28 * 12, 28 * 200, big_collections),
    ]
}
