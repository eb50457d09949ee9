//! Executable specification: a continuation-passing backtracking matcher.
//!
//! It is deliberately built the other way round from the library (continuations over absolute
//! positions, an undo trail, no iterators, no slices), so that the two can only agree by meaning
//! the same thing.

use crate::node::*;
use crate::nums;
use crate::value::V;

#[derive(Clone, Debug)]
enum Op {
    /// leaf contributing no value
    None,
    /// leaf contributing one value
    Leaf(V),
    /// leaf of a user-written parser: contributes a value and an event
    Ev(u32, usize, usize, V),
    Cat(usize),
    Group,
    Tup(usize),
    Conv(u32, usize),
    TConv(usize), // index into tconvs
    List(usize),
    Some,
    NoneOpt,
    Begin,
    EndStr(usize, usize),
    EndSkip,
}

/// A conversion observed: (pattern id, hash of what it was given or where it matched)
pub type Event = (u32, u64);

#[derive(Clone, Debug, PartialEq)]
pub struct Failure {
    pub loc: usize,
    pub reasons: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Match { value: V, events: Vec<Event> },
    Fail(Failure),
    OutOfFuel,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub retries: u64,
}

pub struct Model<'a> {
    src: &'a str,
    g: &'a Grammar,
    /// typed programs: literals vanish and sequences concatenate
    typed: bool,
    fuel: u64,
    dead: bool,
    trail: Vec<Op>,
    tconvs: Vec<&'a Node>,
    far: Option<usize>,
    reasons: Vec<String>,
    pub stats: Stats,
    depth: usize,
}

type K<'k, 'a> = &'k mut dyn FnMut(&mut Model<'a>, usize) -> bool;

#[derive(Clone, Copy)]
struct Reg {
    lo: usize,
    hi: usize,
}

pub const MAX_DEPTH: usize = 60_000;

/// Match `g` against all of `src`.
pub fn run(g: &Grammar, src: &str, typed: bool, fuel: u64) -> (Outcome, Stats) {
    let mut m = Model {
        src,
        g,
        typed,
        fuel,
        dead: false,
        trail: vec![],
        tconvs: vec![],
        far: None,
        reasons: vec![],
        stats: Stats::default(),
        depth: 0,
    };
    let len = src.len();
    let ok = m.go(&g.root, Reg { lo: 0, hi: len }, 0, &mut |m, end| {
        if end == len {
            true
        } else {
            m.fail(end, || "extra unparsed text after match".into());
            false
        }
    });
    let stats = m.stats;
    if m.dead {
        return (Outcome::OutOfFuel, stats);
    }
    if ok {
        let (value, events) = m.eval();
        (Outcome::Match { value, events }, stats)
    } else {
        (
            Outcome::Fail(Failure { loc: m.far.expect("failure recorded"), reasons: m.reasons }),
            stats,
        )
    }
}

pub fn event_hash(args: &[V]) -> u64 {
    V::hash_all(args)
}
pub fn span_hash(start: usize, end: usize) -> u64 {
    crate::rng::mix((start as u64).wrapping_mul(0x1_0000_0001).wrapping_add(end as u64))
}

pub fn class_pred(c: Cls, ch: char) -> bool {
    match c {
        Cls::Alpha => ch.is_alphabetic(),
        Cls::Alnum => ch.is_alphanumeric(),
        Cls::Upper => ch.is_uppercase(),
        Cls::Lower => ch.is_lowercase(),
        Cls::Any => true,
        Cls::Digit => ('0'..='9').contains(&ch),
        Cls::DigitBin => ch == '0' || ch == '1',
        Cls::DigitHex => {
            ('0'..='9').contains(&ch) || ('a'..='f').contains(&ch) || ('A'..='F').contains(&ch)
        }
    }
}
pub fn class_value(c: Cls, ch: char) -> V {
    match c {
        Cls::Digit | Cls::DigitBin | Cls::DigitHex => {
            let b = ch as u32;
            V::Idx(match ch {
                '0'..='9' => b - 48,
                'a'..='f' => b - 97 + 10,
                _ => b - 65 + 10,
            } as usize)
        }
        _ => V::Char(ch),
    }
}
fn class_noun(c: Cls) -> &'static str {
    match c {
        Cls::Alpha => "letter",
        Cls::Alnum => "letter or digit",
        Cls::Upper => "uppercase letter",
        Cls::Lower => "lowercase letter",
        Cls::Any => "any character",
        Cls::Digit => "decimal digit",
        Cls::DigitBin => "binary digit",
        Cls::DigitHex => "hexadecimal digit",
    }
}

impl<'a> Model<'a> {
    fn fail(&mut self, pos: usize, why: impl FnOnce() -> String) {
        if self.far.map_or(true, |f| pos > f) {
            self.far = Some(pos);
            self.reasons.clear();
        }
        if self.far == Some(pos) {
            let w = why();
            if !self.reasons.contains(&w) {
                self.reasons.push(w);
            }
        }
    }

    /// push an op, run the continuation, undo on failure
    fn with(&mut self, op: Op, end: usize, k: K<'_, 'a>) -> bool {
        let n = self.trail.len();
        self.trail.push(op);
        if k(self, end) {
            return true;
        }
        self.trail.truncate(n);
        self.stats.retries += 1;
        false
    }

    fn go(&mut self, n: &'a Node, r: Reg, pos: usize, k: K<'_, 'a>) -> bool {
        if self.dead {
            return false;
        }
        self.stats.steps += 1;
        if self.stats.steps > self.fuel || self.depth > MAX_DEPTH {
            self.dead = true;
            return false;
        }
        self.depth += 1;
        let b = self.go2(n, r, pos, k);
        self.depth -= 1;
        b
    }

    fn go2(&mut self, n: &'a Node, r: Reg, pos: usize, k: K<'_, 'a>) -> bool {
        let rest = &self.src[pos..r.hi];
        let unit = if self.typed { Op::None } else { Op::Leaf(V::Unit) };
        match n {
            Node::Empty => self.with(unit, pos, k),
            Node::Lit(l) => {
                if rest.as_bytes().starts_with(l.as_bytes()) {
                    self.with(unit, pos + l.len(), k)
                } else {
                    self.fail(pos, || format!("expected {l:?}"));
                    false
                }
            }
            Node::Chr(c) => {
                let mut buf = [0; 4];
                let l = c.encode_utf8(&mut buf);
                if rest.as_bytes().starts_with(l.as_bytes()) {
                    let e = pos + l.len();
                    self.with(unit, e, k)
                } else {
                    self.fail(pos, || format!("expected {c:?}"));
                    false
                }
            }
            Node::Class(c) => match rest.chars().next() {
                Some(ch) if class_pred(*c, ch) => {
                    self.with(Op::Leaf(class_value(*c, ch)), pos + ch.len_utf8(), k)
                }
                _ => {
                    self.fail(pos, || format!("expected {}", class_noun(*c)));
                    false
                }
            },
            Node::CharOf(o) => {
                let hit = rest.chars().next().and_then(|ch| {
                    o.chars().position(|x| x == ch).map(|i| (i, ch.len_utf8()))
                });
                match hit {
                    Some((i, w)) => self.with(Op::Leaf(V::Idx(i)), pos + w, k),
                    None => {
                        self.fail(pos, || format!("expected one of {o:?}"));
                        false
                    }
                }
            }
            Node::Num(name) => {
                let kd = nums::kind(name);
                match nums::lex(kd, rest) {
                    None => {
                        self.fail(pos, || format!("expected {}", nums::type_name(name)));
                        false
                    }
                    Some(l) => match nums::value(kd, &rest[..l]) {
                        Ok(v) => self.with(Op::Leaf(v), pos + l, k),
                        Err(e) => {
                            let tok = &rest[..l];
                            self.fail(pos, || {
                                format!(
                                    "failed to parse {tok:?} as type {}: {}",
                                    nums::type_name(name),
                                    e.message()
                                )
                            });
                            false
                        }
                    },
                }
            }
            Node::Multi(id, opts) => {
                let mut any = false;
                for o in opts {
                    if self.src[pos..r.hi].as_bytes().starts_with(o.as_bytes()) {
                        any = true;
                        let op = Op::Ev(*id, pos, pos + o.len(), V::Str(o.to_string()));
                        if self.with(op, pos + o.len(), k) {
                            return true;
                        }
                        if self.dead {
                            return false;
                        }
                    }
                }
                if !any {
                    self.fail(pos, || format!("expected multi{id}"));
                }
                false
            }
            Node::Seq(xs) => {
                let op = if self.typed { Op::Cat(xs.len()) } else { Op::Tup(xs.len()) };
                self.seq(xs, r, pos, &mut |m, e| m.with(op.clone(), e, k))
            }
            Node::Conv(id, xs) => {
                let op = Op::Conv(*id, xs.len());
                self.seq(xs, r, pos, &mut |m, e| m.with(op.clone(), e, k))
            }
            Node::TConv(xs, _, _) => {
                let i = match self.tconvs.iter().position(|t| std::ptr::eq(*t, n)) {
                    Some(i) => i,
                    None => {
                        self.tconvs.push(n);
                        self.tconvs.len() - 1
                    }
                };
                self.seq(xs, r, pos, &mut |m, e| m.with(Op::TConv(i), e, k))
            }
            Node::Via(_, x) => self.go(x, r, pos, k),
            Node::Group(x) => self.go(x, r, pos, &mut |m, e| m.with(Op::Group, e, k)),
            Node::Alt(xs) => {
                let wrap = self.typed && xs.len() > 1;
                for x in xs {
                    let hit = if wrap {
                        self.go(x, r, pos, &mut |m, e| m.with(Op::Group, e, k))
                    } else {
                        self.go(x, r, pos, k)
                    };
                    if hit {
                        return true;
                    }
                    if self.dead {
                        return false;
                    }
                }
                false
            }
            Node::Opt(x) => {
                if self.go(x, r, pos, &mut |m, e| m.with(Op::Some, e, k)) {
                    return true;
                }
                if self.dead {
                    return false;
                }
                self.with(Op::NoneOpt, pos, k)
            }
            Node::Star(x) => self.rep(x, None, 0, r, pos, k),
            Node::Plus(x) => self.rep(x, None, 1, r, pos, k),
            Node::RepSep(x, s) => self.rep(x, Some(s), 0, r, pos, k),
            Node::Lines(x) => self.rep_region(x, false, r, pos, k),
            Node::Sections(x) => self.rep_region(x, true, r, pos, k),
            Node::Line(x) => self.region(x, false, r, pos, k),
            Node::Section(x) => self.region(x, true, r, pos, k),
            Node::Str(x) => {
                let n0 = self.trail.len();
                self.trail.push(Op::Begin);
                if self.go(x, r, pos, &mut |m, e| m.with(Op::EndStr(pos, e), e, k)) {
                    return true;
                }
                self.trail.truncate(n0);
                false
            }
            Node::Rule(i) => {
                let g = self.g;
                self.go(&g.rules[*i], r, pos, &mut |m, e| m.with(Op::Group, e, k))
            }
            Node::RuleSet(_, e) => self.go(e, r, pos, &mut |m, e| m.with(Op::Group, e, k)),
        }
    }

    fn seq(&mut self, xs: &'a [Node], r: Reg, pos: usize, k: K<'_, 'a>) -> bool {
        match xs {
            [] => k(self, pos),
            [x] => self.go(x, r, pos, k),
            [x, rest @ ..] => self.go(x, r, pos, &mut |m, e| m.seq(rest, r, e, k)),
        }
    }

    fn rep(
        &mut self,
        x: &'a Node,
        sep: Option<&'a Node>,
        min: usize,
        r: Reg,
        pos: usize,
        k: K<'_, 'a>,
    ) -> bool {
        let item = move |m: &mut Model<'a>, p: usize, k2: K<'_, 'a>| m.go(x, r, p, k2);
        self.rep_item(&item, sep, min, r, 0, pos, None, k)
    }

    fn rep_region(&mut self, x: &'a Node, section: bool, r: Reg, pos: usize, k: K<'_, 'a>) -> bool {
        let item = move |m: &mut Model<'a>, p: usize, k2: K<'_, 'a>| m.region(x, section, r, p, k2);
        self.rep_item(&item, None, 0, r, 0, pos, None, k)
    }

    /// `n` items matched so far, the next one would start at `pos`; `last` is where the previous
    /// item started. An item after an empty item-and-separator would see exactly what that item
    /// saw, so it is not tried (repetitions of empty matches end there).
    #[allow(clippy::too_many_arguments)]
    fn rep_item(
        &mut self,
        item: &dyn Fn(&mut Model<'a>, usize, K<'_, 'a>) -> bool,
        sep: Option<&'a Node>,
        min: usize,
        r: Reg,
        n: usize,
        pos: usize,
        last: Option<usize>,
        k: K<'_, 'a>,
    ) -> bool {
        let stuck = last == Some(pos) && n >= min;
        if !stuck
            && item(self, pos, &mut |m, e| {
                // after an item: more, else stop here
                match sep {
                    None => {
                        if m.rep_item(item, sep, min, r, n + 1, e, Some(pos), k) {
                            return true;
                        }
                    }
                    Some(s) => {
                        let t0 = m.trail.len();
                        m.trail.push(Op::Begin);
                        if m.go(s, r, e, &mut |m, e2| {
                            m.with(Op::EndSkip, e2, &mut |m, e2| {
                                m.rep_item(item, sep, min, r, n + 1, e2, Some(pos), k)
                            })
                        }) {
                            return true;
                        }
                        m.trail.truncate(t0);
                    }
                }
                !m.dead && n + 1 >= min && m.with(Op::List(n + 1), e, k)
            })
        {
            return true;
        }
        !self.dead && n == 0 && min == 0 && self.with(Op::List(0), pos, k)
    }

    fn region(&mut self, x: &'a Node, section: bool, r: Reg, pos: usize, k: K<'_, 'a>) -> bool {
        if self.dead {
            return false;
        }
        self.stats.steps += 1;
        let before = &self.src[r.lo..pos];
        let at_start = if section {
            before.is_empty() || before == "\n" || before.ends_with("\n\n")
        } else {
            before.is_empty() || before.ends_with('\n')
        };
        let what = if section { "section" } else { "line" };
        if !at_start {
            self.fail(pos, || {
                format!("{what}() can't match here because this is not at the start of a {what}")
            });
            return false;
        }
        if pos == r.hi {
            self.fail(pos, || format!("expected {what}"));
            return false;
        }
        // Walk line by line.
        let mut inner = pos;
        let outer;
        loop {
            let line_end = self.src[inner..r.hi].find('\n').map(|i| inner + i);
            if !section {
                (inner, outer) = match line_end {
                    Some(e) => (e, e + 1),
                    None => (r.hi, r.hi),
                };
                break;
            }
            match line_end {
                // a blank line ends the section and is consumed
                Some(e) if e == inner => {
                    outer = e + 1;
                    break;
                }
                Some(e) => {
                    inner = e + 1;
                    if inner == r.hi {
                        outer = inner;
                        break;
                    }
                }
                None => {
                    inner = r.hi;
                    outer = r.hi;
                    break;
                }
            }
        }
        let t0 = self.trail.len();
        let ok = self.go(x, Reg { lo: pos, hi: inner }, pos, &mut |m, e| {
            if e == inner {
                true
            } else {
                m.fail(e, || {
                    format!("{what}(pattern) matched part of the {what}, but not all of it")
                });
                false
            }
        });
        if !ok {
            self.trail.truncate(t0);
            return false;
        }
        if self.with(Op::Group, outer, k) {
            return true;
        }
        self.trail.truncate(t0);
        false
    }

    fn eval(&self) -> (V, Vec<Event>) {
        fn user(mut raw: Vec<V>) -> V {
            match raw.len() {
                0 => V::Unit,
                1 => raw.pop().unwrap(),
                _ => V::Tup(raw),
            }
        }
        let mut st: Vec<Vec<V>> = vec![];
        let mut events = vec![];
        let mut i = 0;
        while i < self.trail.len() {
            match &self.trail[i] {
                Op::Begin => {
                    let mut depth = 1;
                    loop {
                        i += 1;
                        match &self.trail[i] {
                            Op::Begin => depth += 1,
                            Op::EndSkip | Op::EndStr(..) => depth -= 1,
                            _ => {}
                        }
                        if depth == 0 {
                            break;
                        }
                    }
                    if let Op::EndStr(s, e) = &self.trail[i] {
                        st.push(vec![V::Str(self.src[*s..*e].to_string())]);
                    }
                }
                Op::EndSkip | Op::EndStr(..) => unreachable!(),
                Op::None => st.push(vec![]),
                Op::Leaf(v) => st.push(vec![v.clone()]),
                Op::Ev(id, s, e, v) => {
                    events.push((*id, span_hash(*s, *e)));
                    st.push(vec![v.clone()]);
                }
                Op::Cat(n) => {
                    let parts = st.split_off(st.len() - n);
                    st.push(parts.into_iter().flatten().collect());
                }
                Op::Group => {
                    let r = st.pop().unwrap();
                    st.push(vec![user(r)]);
                }
                Op::Tup(n) => {
                    let parts = st.split_off(st.len() - n);
                    st.push(vec![V::Tup(parts.into_iter().map(user).collect())]);
                }
                Op::Conv(id, n) => {
                    let parts = st.split_off(st.len() - n);
                    let args: Vec<V> = parts.into_iter().map(user).collect();
                    events.push((*id, event_hash(&args)));
                    st.push(vec![V::Conv(*id, args)]);
                }
                Op::TConv(ix) => {
                    let Node::TConv(xs, labels, e) = self.tconvs[*ix] else { unreachable!() };
                    let parts = st.split_off(st.len() - xs.len());
                    let args: Vec<V> = parts
                        .into_iter()
                        .zip(labels)
                        .filter(|(_, l)| **l)
                        .map(|(p, _)| user(p))
                        .collect();
                    st.push(vec![eval_expr(e, &args)]);
                }
                Op::List(n) => {
                    let parts = st.split_off(st.len() - n);
                    st.push(vec![V::List(parts.into_iter().map(user).collect())]);
                }
                Op::Some => {
                    let r = st.pop().unwrap();
                    st.push(vec![V::Opt(Some(Box::new(user(r))))]);
                }
                Op::NoneOpt => st.push(vec![V::Opt(None)]),
            }
            i += 1;
        }
        assert_eq!(st.len(), 1, "reference stack");
        (user(st.pop().unwrap()), events)
    }
}

fn eval_expr(e: &Expr, args: &[V]) -> V {
    match e {
        Expr::Arg(i) => args[*i].clone(),
        Expr::Const(n) => V::Int(n.to_string()),
        Expr::Val(v, _) => v.clone(),
        Expr::Tup(xs) => match xs.len() {
            0 => V::Unit,
            _ => V::Tup(xs.iter().map(|x| eval_expr(x, args)).collect()),
        },
    }
}
