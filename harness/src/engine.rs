//! Run the real library on (pattern, text), run the reference, compare facet by facet.
use crate::dynp::{self, mon_reset, mon_take, BoxP, Mon, OverBudget};
use crate::model::{self, Event, Outcome, Stats};
use crate::node::Grammar;
use crate::value::V;
use aoc_parse::{ParseError, Parser};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Facet {
    /// accepted/rejected wrongly, or gave no answer at all
    Accept,
    Value,
    /// which conversions ran, how often, with what
    Events,
    ErrLoc,
    ErrSrc,
    /// line/column text
    ErrPos,
    ErrMsg,
    Panic,
    Budget,
    Protocol,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub loc: usize,
    pub source: String,
    pub display: String,
    /// debug and clone agree with the original
    pub consistent: bool,
}

pub fn err_info(e: &ParseError) -> ErrInfo {
    let display = e.to_string();
    let c = e.clone();
    let dbg = format!("{e:?}");
    ErrInfo {
        loc: e.location,
        source: e.source.clone(),
        consistent: c.location == e.location
            && c.source == e.source
            && c.to_string() == display
            && !dbg.is_empty(),
        display,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lib<T> {
    Match(T),
    Fail(ErrInfo),
    Panic(String),
    OverBudget,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Remember where a panic happened; print nothing.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{m} ({at})"));
        if std::env::var_os("VH_SHOW_PANICS").is_some() && info.payload().downcast_ref::<OverBudget>().is_none() {
            eprintln!("panic: {m} ({at})");
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Run any library call; panics become data.
pub fn guard<T>(f: impl FnOnce() -> Result<T, ParseError>) -> Lib<T> {
    crate::watch::enter();
    let r = catch_unwind(AssertUnwindSafe(|| f().map_err(|e| err_info(&e))));
    crate::watch::leave();
    match r {
        Ok(Ok(v)) => Lib::Match(v),
        Ok(Err(e)) => Lib::Fail(e),
        Err(p) => {
            if p.downcast_ref::<OverBudget>().is_some() {
                Lib::OverBudget
            } else {
                Lib::Panic(last_panic())
            }
        }
    }
}

/// The ways a program can hand a text to a parser; all must do the same.
pub const WAYS: [&str; 7] = [
    "p.parse(text)",
    "(&p).parse(text) by a generic function",
    "(&&p).parse(text) by a generic function",
    "p.parse_raw(text)",
    "(&p).parse_raw(text) by a generic function",
    "parser!(p).parse(text)",
    "parser!((&p)) borrowed again, parsed raw",
];
fn whole<P: Parser<Output = V>>(p: P, src: &str) -> Result<V, ParseError> {
    p.parse(src)
}
fn raw<P: Parser<Output = V, RawOutput = (V,)>>(p: P, src: &str) -> Result<V, ParseError> {
    p.parse_raw(src).map(|(v,)| v)
}
pub fn run_lib_way(p: &BoxP, src: &str, budget: u64, way: usize) -> (Lib<V>, Mon) {
    mon_reset(src, budget);
    let r = guard(|| match way {
        1 => whole(p, src),
        2 => whole(&p, src),
        3 => p.parse_raw(src).map(|(v,)| v),
        4 => raw(p, src),
        5 => aoc_parse::parser!(p).parse(src),
        6 => raw(&aoc_parse::parser!((p)), src),
        _ => p.parse(src),
    });
    (r, mon_take())
}
/// Run by one of the ways (settled by the text, so that replays agree).
pub fn run_lib(p: &BoxP, src: &str, budget: u64) -> (Lib<V>, Mon) {
    let way = crate::rng::hash_str(src) as usize % 16;
    run_lib_way(p, src, budget, if way < WAYS.len() { way } else { 0 })
}

/// Own computation of the position part of an error message.
pub fn pos_suffix(src: &str, loc: usize) -> String {
    if loc == src.len() {
        return " at end of input".into();
    }
    let (mut line, mut col) = (1, 1);
    for (i, c) in src.char_indices() {
        if i >= loc {
            break;
        }
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    format!(" at line {line} column {col}")
}

pub fn default_budget(s: &Stats) -> u64 {
    (s.steps + s.retries) * 20 + 2000
}

pub struct Case<'a> {
    pub src: &'a str,
    pub model: &'a Outcome,
    pub stats: &'a Stats,
    pub lib: &'a Lib<V>,
    pub mon: &'a Mon,
    pub budget: u64,
}

fn sorted(e: &[Event]) -> Vec<Event> {
    let mut v = e.to_vec();
    v.sort();
    v
}

pub fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let mut e = 300;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

/// All facets on which the observation differs from the reference.
pub fn compare(c: &Case) -> Vec<(Facet, String)> {
    let mut d = vec![];
    match (c.model, c.lib) {
        (_, Lib::Panic(m)) => d.push((Facet::Panic, format!("panicked: {m}"))),
        (Outcome::OutOfFuel, _) => {}
        (_, Lib::OverBudget) => d.push((
            Facet::Budget,
            format!(
                "gave up after {} subpattern attempts; an ordinary backtracking search needs {}",
                c.budget,
                c.stats.steps + c.stats.retries
            ),
        )),
        _ => {}
    }
    match (c.model, c.lib) {
        (Outcome::OutOfFuel, _) => {}
        (Outcome::Match { value, events }, Lib::Match(v)) => {
            if v != value {
                d.push((Facet::Value, format!("got {}, expected {}", short(&v.dbg()), short(&value.dbg()))));
            }
            if sorted(&c.mon.events) != sorted(events) {
                let ids = |e: &[Event]| {
                    let mut m = std::collections::BTreeMap::<u32, usize>::new();
                    for x in e {
                        *m.entry(x.0).or_default() += 1;
                    }
                    format!("{m:?}")
                };
                d.push((
                    Facet::Events,
                    format!(
                        "conversions run {} (id: count), expected {}{}",
                        ids(&c.mon.events),
                        ids(events),
                        if ids(&c.mon.events) == ids(events) { "; arguments or places differ" } else { "" }
                    ),
                ));
            }
        }
        (Outcome::Fail(f), Lib::Fail(e)) => {
            if !c.mon.events.is_empty() || c.mon.converts > 0 {
                d.push((Facet::Events, format!("{} conversions ran although parsing failed", c.mon.events.len().max(c.mon.converts as usize))));
            }
            if e.source != c.src || !e.consistent {
                d.push((Facet::ErrSrc, format!("error carries text {:?}", short(&e.source))));
            }
            if e.loc != f.loc || !c.src.is_char_boundary(e.loc) {
                d.push((Facet::ErrLoc, format!("error at byte {}, expected {} (message: {})", e.loc, f.loc, short(&e.display))));
            }
            if e.loc <= c.src.len() {
                let suf = pos_suffix(c.src, e.loc);
                match e.display.strip_suffix(&suf) {
                    None => d.push((Facet::ErrPos, format!("message {:?} for byte {}, expected it to end in {suf:?}", short(&e.display), e.loc))),
                    Some(reason) => {
                        if e.loc == f.loc && !f.reasons.iter().any(|r| r == reason) {
                            d.push((Facet::ErrMsg, format!("message {:?}; what failed there: {:?}", short(&e.display), f.reasons)));
                        }
                    }
                }
            }
        }
        (m, l) => {
            let m = match m {
                Outcome::Match { value, .. } => format!("match with {}", short(&value.dbg())),
                Outcome::Fail(f) => format!("error at byte {} ({})", f.loc, f.reasons.join(" / ")),
                Outcome::OutOfFuel => String::new(),
            };
            let l = match l {
                Lib::Match(v) => format!("match with {}", short(&v.dbg())),
                Lib::Fail(e) => format!("error {:?}", short(&e.display)),
                Lib::Panic(m) => format!("panic {m}"),
                Lib::OverBudget => "no answer".into(),
            };
            d.push((Facet::Accept, format!("got {l}, expected {m}")));
        }
    }
    for p in &c.mon.protocol {
        d.push((Facet::Protocol, p.clone()));
    }
    d
}

pub struct Observed {
    pub diffs: Vec<(Facet, String)>,
    pub model: Outcome,
    pub stats: Stats,
    pub lib: Lib<V>,
    pub mon: Mon,
}

/// Reference first, then the library, then compare.
pub fn check(g: &Grammar, p: &BoxP, src: &str, fuel: u64) -> Observed {
    check_budget(g, p, src, fuel, default_budget)
}
pub fn check_budget(g: &Grammar, p: &BoxP, src: &str, fuel: u64, f: impl Fn(&Stats) -> u64) -> Observed {
    crate::watch::phase(b'M');
    let (m, stats) = model::run(g, src, false, fuel);
    let budget = if m == Outcome::OutOfFuel { fuel * 4 } else { f(&stats) };
    crate::watch::phase(b'L');
    let (lib, mon) = run_lib(p, src, budget);
    let diffs = compare(&Case { src, model: &m, stats: &stats, lib: &lib, mon: &mon, budget });
    Observed { diffs, model: m, stats, lib, mon }
}

pub fn build(g: &Grammar) -> Result<BoxP, String> {
    match catch_unwind(AssertUnwindSafe(|| dynp::build(g))) {
        Ok(p) => Ok(p),
        Err(_) => Err(last_panic()),
    }
}
