//! Build real library parsers from patterns at run time, using only the public API.
//!
//! Every subpattern is wrapped in `BoxP`, a user-written parser (public traits only) that counts
//! attempts/retries, keeps a typestate automaton per match object and logs conversions.

use crate::model::{event_hash, span_hash, Event};
use crate::node::*;
use crate::value::V;
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Reported};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- monitor state

#[derive(Default, Clone, Debug)]
pub struct Mon {
    pub steps: u64,
    pub retries: u64,
    pub retries_ok: u64,
    pub converts: u64,
    pub budget: u64,
    pub converting: bool,
    pub root: usize,
    pub root_len: usize,
    pub events: Vec<Event>,
    pub protocol: Vec<String>,
    pub max_live_depth: u64,
}

thread_local! {
    static MON: RefCell<Mon> = RefCell::new(Mon::default());
    static ENABLED: Cell<bool> = const { Cell::new(true) };
}

/// Payload of the panic that stops a parse whose attempt budget is used up.
pub struct OverBudget;

pub fn mon<R>(f: impl FnOnce(&mut Mon) -> R) -> R {
    MON.with(|m| f(&mut m.borrow_mut()))
}
pub fn mon_reset(src: &str, budget: u64) {
    mon(|m| {
        *m = Mon {
            budget,
            root: src.as_ptr() as usize,
            root_len: src.len(),
            ..Mon::default()
        }
    })
}
pub fn mon_take() -> Mon {
    mon(std::mem::take)
}
fn proto(msg: impl FnOnce() -> String) {
    mon(|m| {
        if m.protocol.len() < 4 {
            m.protocol.push(msg())
        }
    })
}
fn step(retry: bool) {
    let over = mon(|m| {
        if retry {
            m.retries += 1;
        } else {
            m.steps += 1;
        }
        if m.converting && m.protocol.len() < 4 {
            m.protocol.push("matching continued after a value had been requested".into());
        }
        m.budget > 0 && m.steps + m.retries > m.budget
    });
    if over {
        std::panic::panic_any(OverBudget);
    }
}

// ---------------------------------------------------------------- erased, monitored parser

type DynInner<'p> = Box<dyn ParseIter<'p, RawOutput = (V,)> + 'p>;

trait DynP {
    fn start<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        start: usize,
    ) -> Result<DynInner<'p>, Reported>;
}

struct Wrap<P>(P);
impl<P> DynP for Wrap<P>
where
    P: Parser<Output = V, RawOutput = (V,)> + 'static,
{
    fn start<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        start: usize,
    ) -> Result<DynInner<'p>, Reported> {
        let it = self.0.parse_iter(cx, start)?;
        Ok(Box::new(it))
    }
}

/// An erased, reference-counted, monitored parser.
#[derive(Clone)]
pub struct BoxP(Rc<dyn DynP>);

pub fn erase<P>(p: P) -> BoxP
where
    P: Parser<Output = V, RawOutput = (V,)> + 'static,
{
    BoxP(Rc::new(Wrap(p)))
}

pub struct DynIter<'p> {
    inner: DynInner<'p>,
    src: &'p str,
    start: usize,
    exhausted: bool,
    end: Cell<Option<usize>>,
}

fn note_end(src: &str, start: usize, end: usize) {
    if end < start || end > src.len() || !src.is_char_boundary(end) {
        proto(|| format!("match object reported end {end} for start {start} in a text of {} bytes", src.len()));
    }
}

impl Parser for BoxP {
    type Output = V;
    type RawOutput = (V,);
    type Iter<'parse> = DynIter<'parse>;
    fn parse_iter<'parse>(
        &'parse self,
        cx: &mut ParseContext<'parse>,
        start: usize,
    ) -> Result<DynIter<'parse>, Reported> {
        step(false);
        let src = cx.source();
        let (p, l) = (src.as_ptr() as usize, src.len());
        mon(|m| {
            if m.root_len > 0 && l > 0 && (p < m.root || p + l > m.root + m.root_len) && m.protocol.len() < 4 {
                m.protocol.push("context shows text that is not part of the input".into());
            }
        });
        if start > l || !src.is_char_boundary(start) {
            proto(|| format!("asked to match at {start}, not a character boundary of a text of {l} bytes"));
        }
        let inner = self.0.start(cx, start)?;
        let end = inner.match_end();
        note_end(src, start, end);
        Ok(DynIter { inner, src, start, exhausted: false, end: Cell::new(Some(end)) })
    }
}

impl<'p> ParseIter<'p> for DynIter<'p> {
    type RawOutput = (V,);
    fn match_end(&self) -> usize {
        if self.exhausted {
            proto(|| "match_end() called on an exhausted match object".into());
        }
        let e = self.inner.match_end();
        match self.end.get() {
            Some(old) if old != e => {
                proto(|| format!("match end moved from {old} to {e} without backtracking"))
            }
            _ => {}
        }
        self.end.set(Some(e));
        e
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        step(true);
        if self.exhausted {
            proto(|| "backtrack() called on an exhausted match object".into());
        }
        match self.inner.backtrack(cx) {
            Ok(()) => {
                let e = self.inner.match_end();
                note_end(self.src, self.start, e);
                self.end.set(Some(e));
                mon(|m| m.retries_ok += 1);
                Ok(())
            }
            Err(r) => {
                self.exhausted = true;
                Err(r)
            }
        }
    }
    fn convert(&self) -> (V,) {
        if self.exhausted {
            proto(|| "convert() called on an exhausted match object".into());
        }
        mon(|m| {
            m.converting = true;
            m.converts += 1;
        });
        self.inner.convert()
    }
}

// ---------------------------------------------------------------- a user-written multi-match leaf

/// Offers each of its texts that is a prefix of the rest, in order.
pub struct MultiP {
    pub id: u32,
    pub opts: Vec<&'static str>,
}
pub struct MultiIter<'p> {
    p: &'p MultiP,
    src: &'p str,
    start: usize,
    cur: usize,
}
impl MultiP {
    fn next(&self, rest: &str, from: usize) -> Option<usize> {
        (from..self.opts.len()).find(|i| rest.starts_with(self.opts[*i]))
    }
}
impl Parser for MultiP {
    type Output = V;
    type RawOutput = (V,);
    type Iter<'parse> = MultiIter<'parse>;
    fn parse_iter<'parse>(
        &'parse self,
        cx: &mut ParseContext<'parse>,
        start: usize,
    ) -> Result<MultiIter<'parse>, Reported> {
        let src = cx.source();
        match self.next(&src[start..], 0) {
            Some(cur) => Ok(MultiIter { p: self, src, start, cur }),
            None => Err(cx.error_expected(start, &format!("multi{}", self.id))),
        }
    }
}
impl<'p> ParseIter<'p> for MultiIter<'p> {
    type RawOutput = (V,);
    fn match_end(&self) -> usize {
        self.start + self.p.opts[self.cur].len()
    }
    fn backtrack(&mut self, _cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        match self.p.next(&self.src[self.start..], self.cur + 1) {
            Some(c) => {
                self.cur = c;
                Ok(())
            }
            None => {
                self.cur = 0;
                Err(Reported)
            }
        }
    }
    fn convert(&self) -> (V,) {
        let at = self.src.as_ptr() as usize + self.start;
        let o = self.p.opts[self.cur];
        mon(|m| {
            let abs = at.wrapping_sub(m.root);
            m.events.push((self.p.id, span_hash(abs, abs.wrapping_add(o.len()))))
        });
        (V::Str(o.to_string()),)
    }
}

// ---------------------------------------------------------------- from patterns to parsers

pub fn int<T: std::fmt::Display>(x: T) -> V {
    V::Int(x.to_string())
}

macro_rules! num_table {
    ($name:expr; ints: $($i:ident)*) => {
        match $name {
            $( stringify!($i) => erase(parser!(x:$i => int(x))), )*
            "f32" => erase(parser!(x:f32 => V::F32(x.to_bits()))),
            "f64" => erase(parser!(x:f64 => V::F64(x.to_bits()))),
            "bool" => erase(parser!(x:bool => V::Bool(x))),
            other => panic!("no such pattern {other}"),
        }
    };
}

pub fn num(name: &str) -> BoxP {
    num_table!(name; ints:
        u8 u16 u32 u64 u128 usize big_uint i8 i16 i32 i64 i128 isize big_int
        u8_bin u16_bin u32_bin u64_bin u128_bin usize_bin big_uint_bin
        i8_bin i16_bin i32_bin i64_bin i128_bin isize_bin big_int_bin
        u8_hex u16_hex u32_hex u64_hex u128_hex usize_hex big_uint_hex
        i8_hex i16_hex i32_hex i64_hex i128_hex isize_hex big_int_hex)
}

/// Conversion closures borrow what they mention, so ids live forever.
fn leak_id(id: u32) -> &'static u32 {
    static IDS: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    &IDS.get_or_init(|| (0..4096).collect())[id as usize]
}

thread_local! {
    static INSIDE: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}
/// Run `f` inside every conversion of the parses that follow (on this thread, not recursively).
pub fn inside_conversions(f: Option<Rc<dyn Fn()>>) {
    INSIDE.with(|i| *i.borrow_mut() = f);
}

fn conv(id: u32, args: Vec<V>) -> V {
    let f = INSIDE.with(|i| i.borrow_mut().take());
    if let Some(f) = f {
        let saved = mon_take();
        f();
        mon(|m| *m = saved);
        INSIDE.with(|i| *i.borrow_mut() = Some(f));
    }
    mon(|m| m.events.push((id, event_hash(&args))));
    V::Conv(id, args)
}

#[derive(Clone)]
pub struct Env<'g> {
    g: &'g Grammar,
    rules: Vec<Option<BoxP>>,
    shared: Rc<RefCell<std::collections::HashMap<String, BoxP>>>,
}

pub fn build(g: &Grammar) -> BoxP {
    let env = Env { g, rules: vec![None; g.rules.len()], shared: Default::default() };
    node(&g.root, &env)
}

/// Something that can be passed by name to a macro-built function-call pattern.
struct Job<'g, 'e> {
    n: &'g Node,
    ids: &'e [usize],
    env: &'e Env<'g>,
}
impl Clone for Job<'_, '_> {
    fn clone(&self) -> Self {
        *self
    }
}
impl Copy for Job<'_, '_> {}

fn with_rules(job: Job<'_, '_>, hs: Vec<BoxP>) -> BoxP {
    let mut env = job.env.clone();
    for (id, h) in job.ids.iter().zip(hs) {
        env.rules[*id] = Some(h);
    }
    node(job.n, &env)
}

trait RuleP: Parser<Output = V, RawOutput = (V,)> + Copy + 'static {}
impl<P> RuleP for P where P: Parser<Output = V, RawOutput = (V,)> + Copy + 'static {}

fn b1<A: RuleP>(j: Job, a: A) -> BoxP {
    with_rules(j, vec![erase(a)])
}
fn b2<A: RuleP, B: RuleP>(j: Job, a: A, b: B) -> BoxP {
    with_rules(j, vec![erase(a), erase(b)])
}
fn b3<A: RuleP, B: RuleP, C: RuleP>(j: Job, a: A, b: B, c: C) -> BoxP {
    with_rules(j, vec![erase(a), erase(b), erase(c)])
}
fn b4<A: RuleP, B: RuleP, C: RuleP, D: RuleP>(j: Job, a: A, b: B, c: C, d: D) -> BoxP {
    with_rules(j, vec![erase(a), erase(b), erase(c), erase(d)])
}
fn b5<A: RuleP, B: RuleP, C: RuleP, D: RuleP, E: RuleP>(j: Job, a: A, b: B, c: C, d: D, e: E) -> BoxP {
    with_rules(j, vec![erase(a), erase(b), erase(c), erase(d), erase(e)])
}

fn rule_set(ids: &[usize], entry: &Node, env: &Env) -> BoxP {
    let job = |i: usize| Job { n: &env.g.rules[ids[i]], ids, env };
    let je = Job { n: entry, ids, env };
    match ids.len() {
        1 => {
            let j0 = job(0);
            erase(parser!(rule a: V = b1(j0, a); b1(je, a)))
        }
        2 => {
            let (j0, j1) = (job(0), job(1));
            erase(parser!(
                rule a: V = b2(j0, a, b);
                rule b: V = b2(j1, a, b);
                b2(je, a, b)
            ))
        }
        3 => {
            let (j0, j1, j2) = (job(0), job(1), job(2));
            erase(parser!(
                rule a: V = b3(j0, a, b, c);
                rule b: V = b3(j1, a, b, c);
                rule c: V = b3(j2, a, b, c);
                b3(je, a, b, c)
            ))
        }
        4 => {
            let (j0, j1, j2, j3) = (job(0), job(1), job(2), job(3));
            erase(parser!(
                rule a: V = b4(j0, a, b, c, d);
                rule b: V = b4(j1, a, b, c, d);
                rule c: V = b4(j2, a, b, c, d);
                rule d: V = b4(j3, a, b, c, d);
                b4(je, a, b, c, d)
            ))
        }
        5 => {
            let (j0, j1, j2, j3, j4) = (job(0), job(1), job(2), job(3), job(4));
            erase(parser!(
                rule a: V = b5(j0, a, b, c, d, e);
                rule b: V = b5(j1, a, b, c, d, e);
                rule c: V = b5(j2, a, b, c, d, e);
                rule d: V = b5(j3, a, b, c, d, e);
                rule e: V = b5(j4, a, b, c, d, e);
                b5(je, a, b, c, d, e)
            ))
        }
        n => panic!("rule set of {n}"),
    }
}

pub fn node(n: &Node, env: &Env) -> BoxP {
    let nd = |x: &Node| node(x, env);
    match n {
        Node::Empty => {
            let e = parser!(());
            erase(parser!(_u:e => V::Unit))
        }
        Node::Lit(l) => {
            let l: &'static str = l;
            erase(parser!(_u:l => V::Unit))
        }
        Node::Chr(c) => {
            let c: char = *c;
            erase(parser!(_u:c => V::Unit))
        }
        Node::Class(c) => match c {
            Cls::Alpha => erase(parser!(c:alpha => V::Char(c))),
            Cls::Alnum => erase(parser!(c:alnum => V::Char(c))),
            Cls::Upper => erase(parser!(c:upper => V::Char(c))),
            Cls::Lower => erase(parser!(c:lower => V::Char(c))),
            Cls::Any => erase(parser!(c:any_char => V::Char(c))),
            Cls::Digit => erase(parser!(c:digit => V::Idx(c))),
            Cls::DigitBin => erase(parser!(c:digit_bin => V::Idx(c))),
            Cls::DigitHex => erase(parser!(c:digit_hex => V::Idx(c))),
        },
        Node::CharOf(o) => {
            let o: &'static str = o;
            erase(parser!(i:char_of(o) => V::Idx(i)))
        }
        Node::Num(k) => num(k),
        Node::Multi(id, opts) => erase(MultiP { id: *id, opts: opts.clone() }),
        Node::Seq(xs) => {
            let v: Vec<BoxP> = xs.iter().map(nd).collect();
            match <[BoxP; 1]>::try_from(v) {
                Ok([a]) => erase(parser!(x:a => V::Tup(vec![x]))),
                Err(v) => match <[BoxP; 2]>::try_from(v) {
                    Ok([a, b]) => {
                        let p = parser!(a b);
                        erase(parser!(t:p => V::Tup(vec![t.0, t.1])))
                    }
                    Err(v) => match <[BoxP; 3]>::try_from(v) {
                        Ok([a, b, c]) => {
                            let p = parser!(a b c);
                            erase(parser!(t:p => V::Tup(vec![t.0, t.1, t.2])))
                        }
                        Err(v) => match <[BoxP; 4]>::try_from(v) {
                            Ok([a, b, c, d]) => {
                                let p = parser!(a b c d);
                                erase(parser!(t:p => V::Tup(vec![t.0, t.1, t.2, t.3])))
                            }
                            Err(_) => panic!("sequence too long"),
                        },
                    },
                },
            }
        }
        Node::Conv(id, xs) => {
            let id: &'static u32 = leak_id(*id);
            let v: Vec<BoxP> = xs.iter().map(nd).collect();
            match <[BoxP; 1]>::try_from(v) {
                Ok([a]) => erase(parser!(x:a => conv(*id, vec![x]))),
                Err(v) => match <[BoxP; 2]>::try_from(v) {
                    Ok([a, b]) => erase(parser!(x:a y:b => conv(*id, vec![x, y]))),
                    Err(v) => match <[BoxP; 3]>::try_from(v) {
                        Ok([a, b, c]) => erase(parser!(x:a y:b z:c => conv(*id, vec![x, y, z]))),
                        Err(v) => match <[BoxP; 4]>::try_from(v) {
                            Ok([a, b, c, d]) => {
                                erase(parser!(x:a y:b z:c w:d => conv(*id, vec![x, y, z, w])))
                            }
                            Err(_) => panic!("conversion too long"),
                        },
                    },
                },
            }
        }
        Node::TConv(..) => panic!("typed only"),
        Node::Group(x) => {
            let a = nd(x);
            erase(parser!((a)))
        }
        Node::Via(v, x) => {
            let a = nd(x);
            match v {
                Via::Borrowed => erase(parser!(lent(a))),
                Via::Function => erase(parser!(same(a))),
                Via::RuleName => {
                    let slot = Slot(Box::leak(Box::new(a)));
                    erase(parser!(rule r: V = taken(slot); r))
                }
                Via::Moved => {
                    let v = vec![Box::new(a.clone()), Box::new(a)];
                    let b = *v.into_iter().next_back().unwrap();
                    erase(parser!(b))
                }
                Via::DoublyBorrowed => {
                    let r: &'static &'static BoxP = Box::leak(Box::new(&*Box::leak(Box::new(a))));
                    erase(parser!(r))
                }
            }
        }
        Node::Alt(xs) => {
            let v: Vec<BoxP> = xs.iter().map(nd).collect();
            alt(v)
        }
        Node::Star(x) => {
            let a = nd(x);
            erase(parser!(x:a* => V::List(x)))
        }
        Node::Plus(x) => {
            let a = nd(x);
            erase(parser!(x:a+ => V::List(x)))
        }
        Node::Opt(x) => {
            let a = nd(x);
            erase(parser!(x:a? => V::Opt(x.map(Box::new))))
        }
        Node::RepSep(x, s) => {
            let (a, s) = (nd(x), nd(s));
            erase(parser!(x:repeat_sep(a, s) => V::List(x)))
        }
        Node::Str(x) => {
            let a = nd(x);
            erase(parser!(x:string(a) => V::Str(x)))
        }
        Node::Line(x) => {
            let a = nd(x);
            erase(parser!(line(a)))
        }
        Node::Lines(x) => {
            let a = nd(x);
            erase(parser!(x:lines(a) => V::List(x)))
        }
        Node::Section(x) => {
            let a = nd(x);
            erase(parser!(section(a)))
        }
        Node::Sections(x) => {
            let a = nd(x);
            erase(parser!(x:sections(a) => V::List(x)))
        }
        Node::Rule(i) => env.rules[*i].clone().expect("rule in scope"),
        Node::RuleSet(ids, e) => {
            if !env.g.share || env.rules.iter().any(|r| r.is_some()) {
                return rule_set(ids, e, env);
            }
            let mut key = String::new();
            env.g.fmt_node(n, &mut key);
            let old = env.shared.borrow().get(&key).cloned();
            old.unwrap_or_else(|| {
                let p = rule_set(ids, e, env);
                env.shared.borrow_mut().insert(key, p.clone());
                p
            })
        }
    }
}

fn lent(a: BoxP) -> &'static BoxP {
    Box::leak(Box::new(a))
}
fn same<P: Parser>(p: P) -> P {
    p
}
#[derive(Clone, Copy)]
struct Slot(&'static BoxP);
fn taken(s: Slot) -> &'static BoxP {
    s.0
}

fn alt(v: Vec<BoxP>) -> BoxP {
    let n = v.len();
    let mut it = v.into_iter();
    let mut g = || it.next().unwrap();
    match n {
        1 => {
            let a = g();
            erase(parser!({ a }))
        }
        2 => {
            let (a, b) = (g(), g());
            erase(parser!({ a, b }))
        }
        3 => {
            let (a, b, c) = (g(), g(), g());
            erase(parser!({a, b, c}))
        }
        4 => {
            let (a, b, c, d) = (g(), g(), g(), g());
            erase(parser!({a, b, c, d,}))
        }
        5 => {
            let (a, b, c, d, e) = (g(), g(), g(), g(), g());
            erase(parser!({a, b, c, d, e}))
        }
        _ => {
            let (a, b, c, d) = (g(), g(), g(), g());
            let rest = alt(it.collect());
            erase(parser!({a, b, c, d, rest}))
        }
    }
}
