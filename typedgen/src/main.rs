//! Writes random well-typed programs using `parser!`, with the static type and the value each
//! must produce, computed from the pattern's structure alone.
//!
//! typedgen --seed N --programs N --bins K --texts N --out DIR
#![allow(dead_code, clippy::too_many_arguments)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/node.rs"]
mod node;
#[path = "../../harness/src/nums.rs"]
mod nums;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/value.rs"]
mod value;

use node::*;
use rng::Rng;
use std::fmt::Write as _;
use value::V;

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Unit,
    Char,
    Idx,
    Num(&'static str),
    Str,
    Tup(Vec<Ty>),
    List(Box<Ty>),
    Opt(Box<Ty>),
}

const NUMS: &[&str] = &[
    "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "bool", "f64", "f32", "big_int",
    "big_uint", "u8_hex", "i64_bin", "u16_bin", "i32_hex",
];

fn num_rust(k: &str) -> String {
    let base = k.trim_end_matches("_hex").trim_end_matches("_bin");
    match base {
        "big_int" => "num_bigint::BigInt".into(),
        "big_uint" => "num_bigint::BigUint".into(),
        b => b.into(),
    }
}

fn ty_rust(t: &Ty) -> String {
    match t {
        Ty::Unit => "()".into(),
        Ty::Char => "char".into(),
        Ty::Idx => "usize".into(),
        Ty::Num(k) => num_rust(k),
        Ty::Str => "String".into(),
        Ty::Tup(ts) => format!("({})", ts.iter().map(ty_rust).collect::<Vec<_>>().join(", ")),
        Ty::List(t) => format!("Vec<{}>", ty_rust(t)),
        Ty::Opt(t) => format!("Option<{}>", ty_rust(t)),
    }
}

const SEPS: &[&str] = &[",", " ", ";", "/", "->", ": ", "é", "|", "=", "\t"];

struct G {
    rng: Rng,
    rules: Vec<Node>,
    rule_tys: Vec<Ty>,
    /// types of patterns that are emitted as functions or variables
    side: Vec<(Node, Ty)>,
    /// rules that may be referred to here
    scope: Vec<usize>,
    /// only behind something that consumes text
    guarded: bool,
    size: usize,
    lines_ok: bool,
}

impl G {
    fn ty(&mut self, d: usize) -> Ty {
        let roll = if d == 0 { self.rng.below(7) } else { self.rng.below(12) };
        match roll {
            0 => Ty::Char,
            1 => Ty::Idx,
            2 | 3 | 4 => Ty::Num(*self.rng.pick(NUMS)),
            5 => Ty::Str,
            6 => {
                if self.rng.chance(40) {
                    Ty::Unit
                } else {
                    Ty::Char
                }
            }
            7 | 8 => {
                let n = self.rng.range(2, 4);
                Ty::Tup((0..n).map(|_| self.ty(d - 1)).collect())
            }
            9 | 10 => Ty::List(Box::new(self.ty(d - 1))),
            _ => Ty::Opt(Box::new(self.ty(d - 1))),
        }
    }

    fn sep(&mut self) -> Node {
        let s = *self.rng.pick(SEPS);
        let mut cs = s.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) if self.rng.chance(40) => {
                if self.rng.chance(20) {
                    Node::Via(Via::Borrowed, Box::new(Node::Chr(c)))
                } else {
                    Node::Chr(c)
                }
            }
            _ => {
                let lit = Node::Lit(s);
                if self.rng.chance(20) {
                    Node::Via(Via::Borrowed, Box::new(lit))
                } else {
                    lit
                }
            }
        }
    }

    /// something that contributes nothing
    fn nothing(&mut self) -> Node {
        match self.rng.below(8) {
            0 => Node::Lit(""),
            _ => self.sep(),
        }
    }

    /// terms contributing exactly these values, in this order
    fn terms(&mut self, ts: &[Ty], d: usize) -> Vec<Node> {
        let mut v = vec![];
        if self.rng.chance(30) {
            v.push(self.nothing());
        }
        let mut i = 0;
        while i < ts.len() {
            if i > 0 && self.rng.chance(75) {
                v.push(self.sep());
            }
            let left = ts.len() - i;
            if left >= 2 && d > 0 && self.rng.chance(12) {
                let n = self.rng.range(2, left);
                let xs = self.terms(&ts[i..i + n], d - 1);
                v.push(Node::Via(Via::DoublyBorrowed, Box::new(seq(xs))));
                i += n;
            } else {
                v.push(self.term(&ts[i], d));
                i += 1;
            }
            self.guarded = true;
        }
        if self.rng.chance(30) {
            v.push(self.nothing());
        }
        v
    }

    /// one term contributing exactly one value of type `t`
    fn term(&mut self, t: &Ty, d: usize) -> Node {
        self.size += 1;
        if self.guarded {
            let c: Vec<usize> = self.scope.iter().copied().filter(|i| self.rule_tys[*i] == *t).collect();
            if !c.is_empty() && self.rng.chance(40) {
                return Node::Rule(*self.rng.pick(&c));
            }
        }
        if d > 0 && self.size < 40 && self.rng.chance(35) {
            return self.wrapped(t, d - 1);
        }
        let e = d.saturating_sub(1);
        match t {
            Ty::Unit => match self.rng.below(4) {
                0 => {
                    let n = self.nothing();
                    Node::Group(Box::new(n))
                }
                1 => Node::Group(Box::new(Node::Empty)),
                2 => {
                    let (a, b) = (self.sep(), self.nothing());
                    Node::Alt(vec![a, b])
                }
                _ => {
                    let xs = vec![self.sep(), self.nothing()];
                    Node::Group(Box::new(Node::Seq(xs)))
                }
            },
            Ty::Char => Node::Class(*self.rng.pick(&[Cls::Alpha, Cls::Alnum, Cls::Upper, Cls::Lower, Cls::Any])),
            Ty::Idx => match self.rng.below(4) {
                0 => Node::CharOf(*self.rng.pick(&["ab", "xyz", "éa", "0123456789", "<>^v"])),
                1 => Node::Class(Cls::DigitBin),
                2 => Node::Class(Cls::DigitHex),
                _ => Node::Class(Cls::Digit),
            },
            Ty::Num(k) => Node::Num(k),
            Ty::Str => {
                let x = match self.rng.below(4) {
                    0 => Node::Plus(Box::new(Node::Class(Cls::Alpha))),
                    1 => Node::Num("u32"),
                    2 => {
                        let inner = self.ty(e.min(1));
                        self.expr(&inner, e)
                    }
                    _ => Node::Seq(vec![Node::Class(Cls::Upper), Node::Star(Box::new(Node::Class(Cls::Lower)))]),
                };
                Node::Str(Box::new(x))
            }
            Ty::Tup(ts) => {
                let xs = self.terms(ts, e);
                let x = seq(xs);
                Node::Group(Box::new(x))
            }
            Ty::List(t) => {
                let roll = self.rng.below(10);
                match roll {
                    0..=3 => {
                        let x = self.item(t, e);
                        let s = match self.rng.below(6) {
                            0 => Node::Num("u8"),
                            1 => Node::Seq(vec![Node::Chr('<'), Node::Class(Cls::Digit), Node::Class(Cls::Digit), Node::Chr('>')]),
                            _ => self.sep(),
                        };
                        Node::RepSep(Box::new(x), Box::new(s))
                    }
                    4 | 5 if self.lines_ok => {
                        self.lines_ok = false;
                        let x = self.expr(t, e);
                        self.lines_ok = true;
                        Node::Group(Box::new(Node::Seq(vec![Node::Chr('\n'), Node::Lines(Box::new(x))])))
                    }
                    6 | 7 => {
                        let x = self.quantifiable(t, e);
                        Node::Star(Box::new(x))
                    }
                    _ => {
                        let x = self.quantifiable(t, e);
                        Node::Plus(Box::new(x))
                    }
                }
            }
            Ty::Opt(t) => {
                let x = self.quantifiable(t, e);
                Node::Opt(Box::new(x))
            }
        }
    }

    /// a term to put a quantifier on
    fn quantifiable(&mut self, t: &Ty, d: usize) -> Node {
        if *t == Ty::Unit && self.rng.chance(50) {
            return self.sep();
        }
        if self.rng.chance(60) {
            // delimited, so that repetitions separate cleanly
            let x = self.term(t, d);
            let s = self.sep();
            let xs = if self.rng.chance(50) { vec![x, s] } else { vec![s, x] };
            return Node::Group(Box::new(Node::Seq(xs)));
        }
        let x = self.term(t, d);
        match x {
            Node::Star(_) | Node::Plus(_) | Node::Opt(_) => Node::Group(Box::new(x)),
            x => x,
        }
    }

    fn item(&mut self, t: &Ty, d: usize) -> Node {
        self.expr(t, d)
    }

    /// a pattern for an arm, an argument, a rule body or a whole macro call, of user type `t`
    fn expr(&mut self, t: &Ty, d: usize) -> Node {
        self.size += 1;
        if d > 0 && self.rng.chance(35) {
            return self.tconv(t, d - 1);
        }
        match t {
            // a name for something that contributes nothing, by itself
            Ty::Unit if self.rng.chance(20) => {
                let s = *self.rng.pick(SEPS);
                let x = match s.chars().next() {
                    Some(c) if s.len() == c.len_utf8() && self.rng.chance(50) => Node::Chr(c),
                    _ => Node::Lit(s),
                };
                Node::Via(Via::Borrowed, Box::new(x))
            }
            Ty::Unit => {
                let n = self.rng.below(4);
                let xs: Vec<Node> = (0..n).map(|_| self.nothing()).collect();
                seq(xs)
            }
            Ty::Tup(ts) if self.rng.chance(85) => seq(self.terms(ts, d)),
            t => seq(self.terms(std::slice::from_ref(t), d)),
        }
    }

    fn wrapped(&mut self, t: &Ty, d: usize) -> Node {
        match self.rng.below(11) {
            0 | 1 => {
                let x = self.expr(t, d);
                Node::Group(Box::new(x))
            }
            2 | 3 | 4 => {
                let n = self.rng.range(2, 4);
                let (sc, gu) = (self.scope.clone(), self.guarded);
                let mut xs = vec![];
                for _ in 0..n {
                    self.scope = sc.clone();
                    self.guarded = gu;
                    xs.push(self.expr(t, d));
                }
                Node::Alt(xs)
            }
            5 => {
                let x = self.tconv(t, d);
                Node::Group(Box::new(x))
            }
            6 | 7 => {
                // hoisted: rules are out of reach there
                let sc = std::mem::take(&mut self.scope);
                let x = Node::Group(Box::new(self.expr(t, d)));
                self.scope = sc;
                let via = if self.rng.chance(50) { Via::Function } else { Via::Moved };
                self.side.push((x.clone(), t.clone()));
                Node::Via(via, Box::new(x))
            }
            8 => {
                let sc = std::mem::take(&mut self.scope);
                let r = self.ruleset(t, d);
                self.scope = sc;
                r
            }
            9 if self.lines_ok && self.rng.chance(60) => {
                self.lines_ok = false;
                let x = self.expr(t, d);
                self.lines_ok = true;
                let x = if self.rng.chance(50) { Node::Line(Box::new(x)) } else { Node::Section(Box::new(x)) };
                let n = if matches!(x, Node::Line(_)) { "\n" } else { "\n\n" };
                Node::Group(Box::new(Node::Seq(vec![Node::Lit(n), x])))
            }
            _ => {
                let x = self.expr(t, d);
                Node::Group(Box::new(x))
            }
        }
    }

    fn ruleset(&mut self, t: &Ty, d: usize) -> Node {
        let n = self.rng.range(1, 3);
        let first = self.rules.len();
        let ids: Vec<usize> = (first..first + n).collect();
        for k in 0..n {
            let ty = if k == 0 || self.rng.chance(40) { t.clone() } else { self.ty(1) };
            self.rules.push(Node::Empty);
            self.rule_tys.push(ty);
        }
        let gu = self.guarded;
        for k in (0..n).rev() {
            let ty = self.rule_tys[ids[k]].clone();
            self.scope = vec![];
            self.guarded = false;
            let mut base = self.expr(&ty, d.min(1));
            if self.rng.chance(50) {
                self.scope = ids.clone();
                base = {
                    let pre = self.sep();
                    self.guarded = true;
                    let mut xs = vec![pre];
                    xs.extend(self.terms(std::slice::from_ref(&ty), d.min(2)));
                    Node::Alt(vec![Node::Seq(xs), base])
                };
            }
            if self.rng.chance(60) {
                let rec = Node::Seq(vec![Node::Chr('('), Node::Rule(ids[k]), Node::Lit(")")]);
                base = Node::Alt(vec![rec, base]);
            }
            self.rules[ids[k]] = base;
        }
        self.scope = ids.clone();
        self.guarded = true;
        let e = self.expr(t, d.min(2));
        self.guarded = gu;
        self.scope = vec![];
        let r = Node::RuleSet(ids, Box::new(e));
        self.side.push((r.clone(), t.clone()));
        r
    }

    /// `terms => expr` producing a `t`
    fn tconv(&mut self, t: &Ty, d: usize) -> Node {
        let mut slots: Vec<Ty> = vec![];
        let mut e = self.split(t, &mut slots, 3);
        // shuffle which term fills which slot
        let mut order: Vec<usize> = (0..slots.len()).collect();
        self.rng.shuffle(&mut order);
        let mut terms = vec![];
        let mut labels = vec![];
        let mut where_ = vec![0; slots.len()];
        let mut labelled = 0;
        for s in order {
            if !terms.is_empty() && self.rng.chance(70) || self.rng.chance(20) {
                terms.push(self.sep());
                labels.push(false);
            }
            if self.rng.chance(15) {
                let t = self.ty(1);
                terms.push(self.term(&t, d));
                let l = self.rng.chance(50);
                labels.push(l);
                labelled += l as usize;
                terms.push(self.sep());
                labels.push(false);
            }
            let x = if slots[s] == Ty::Unit && self.rng.chance(50) { self.sep() } else { self.term(&slots[s], d) };
            self.guarded = true;
            terms.push(x);
            labels.push(true);
            where_[s] = labelled;
            labelled += 1;
        }
        if terms.is_empty() || self.rng.chance(25) {
            terms.push(self.nothing());
            labels.push(false);
        }
        renumber(&mut e, &where_);
        Node::TConv(terms, labels, e)
    }

    fn split(&mut self, t: &Ty, slots: &mut Vec<Ty>, d: usize) -> Expr {
        if d > 0 && self.rng.chance(if slots.is_empty() { 20 } else { 10 }) {
            if let Some((v, s)) = self.val(t) {
                return Expr::Val(v, s);
            }
        }
        match t {
            Ty::Tup(ts) if self.rng.chance(80) => Expr::Tup(ts.iter().map(|t| self.split(t, slots, d.saturating_sub(1))).collect()),
            t => {
                slots.push(t.clone());
                Expr::Arg(slots.len() - 1)
            }
        }
    }

    fn val(&mut self, t: &Ty) -> Option<(V, String)> {
        Some(match t {
            Ty::Unit => (V::Unit, "()".into()),
            Ty::Char => {
                let c = *self.rng.pick(&['q', 'é', '!', '\n']);
                (V::Char(c), format!("{c:?}"))
            }
            Ty::Idx => {
                let n = self.rng.below(1000);
                (V::Idx(n), format!("{n}usize"))
            }
            Ty::Num("bool") => (V::Bool(true), "true".into()),
            Ty::Num("f64") => (V::F64(2.5f64.to_bits()), "2.5f64".into()),
            Ty::Num("f32") => (V::F32(2.5f32.to_bits()), "2.5f32".into()),
            Ty::Num(k) if k.starts_with("big") => return None,
            Ty::Num(k) => {
                let n = self.rng.below(100);
                (V::Int(n.to_string()), format!("{n}{}", num_rust(k)))
            }
            Ty::Str => {
                let n = self.rng.below(100);
                (V::Str(format!("s{n}")), format!("String::from(\"s{n}\")"))
            }
            Ty::Tup(ts) => {
                let mut vs = vec![];
                let mut ss = vec![];
                for t in ts {
                    let (v, s) = self.val(t)?;
                    vs.push(v);
                    ss.push(s);
                }
                (V::Tup(vs), format!("({})", ss.join(", ")))
            }
            Ty::List(t) => {
                if self.rng.chance(50) {
                    (V::List(vec![]), format!("Vec::<{}>::new()", ty_rust(t)))
                } else {
                    let (v, s) = self.val(t)?;
                    (V::List(vec![v]), format!("vec![{s}]"))
                }
            }
            Ty::Opt(t) => {
                if self.rng.chance(50) {
                    (V::Opt(None), format!("None::<{}>", ty_rust(t)))
                } else {
                    let (v, s) = self.val(t)?;
                    (V::Opt(Some(Box::new(v))), format!("Some({s})"))
                }
            }
        })
    }
}

fn renumber(e: &mut Expr, map: &[usize]) {
    match e {
        Expr::Arg(i) => *i = map[*i],
        Expr::Tup(xs) => xs.iter_mut().for_each(|x| renumber(x, map)),
        _ => {}
    }
}

fn seq(mut xs: Vec<Node>) -> Node {
    match xs.len() {
        0 => Node::Empty,
        1 => xs.pop().unwrap(),
        _ => Node::Seq(xs),
    }
}

// ---------------------------------------------------------------- Rust text

struct Emit<'a> {
    g: &'a Grammar,
    rule_tys: &'a [Ty],
    side: &'a [(Node, Ty)],
    rng: Rng,
    before: String,
    fns: String,
    n: usize,
    id: usize,
    /// how many patterns were written, and what to do wrong in which of them
    exprs: usize,
    spoil: Option<(usize, String, String)>,
    /// (rule set number, which part to leave out)
    rulesets: usize,
    spoil_rules: Option<(usize, usize)>,
}

const LABELS: &[&str] = &[
    "a", "b", "c", "x", "y", "zed", "line", "lines", "string", "_p", "r#type", "section", "n0", "char_of", "left", "right", "opt", "alt",
    "pair", "map", "label", "pattern", "tail", "head", "stack", "top", "parts", "out", "w", "v", "u", "t",
];

fn ends_in_ident(s: &str) -> bool {
    s.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_')
}

impl Emit<'_> {
    fn ty_of(&self, n: &Node) -> Ty {
        self.side.iter().find(|x| x.0 == *n).unwrap_or_else(|| panic!("no type for {n:?}")).1.clone()
    }

    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}_{}", self.id, self.n)
    }

    fn call(&mut self, f: &str, args: &[&Node]) -> String {
        let a: Vec<String> = args.iter().map(|x| self.expr(x)).collect();
        let trailing = if self.rng.chance(25) { "," } else { "" };
        format!("{f}({}{trailing})", a.join(", "))
    }

    fn join(&mut self, xs: Vec<String>) -> String {
        let mut s = String::new();
        for x in xs {
            let call = x.starts_with('(') && ends_in_ident(&s);
            if !s.is_empty() {
                s.push(' ');
            }
            if call {
                s.push_str("\"\" ");
            }
            s.push_str(&x);
        }
        s
    }

    fn expr(&mut self, n: &Node) -> String {
        let me = self.exprs;
        self.exprs += 1;
        let s = self.expr_ok(n);
        match &self.spoil {
            Some((at, before, after)) if *at == me => {
                let (before, after) = (before.clone(), after.clone());
                let (lhs, rhs) = match n {
                    Node::TConv(..) => {
                        let i = s.find(" => ").unwrap();
                        (s[..i].to_string(), s[i..].to_string())
                    }
                    _ => (s, String::new()),
                };
                format!("{before} {lhs} {after} {rhs}")
            }
            _ => s,
        }
    }

    fn expr_ok(&mut self, n: &Node) -> String {
        match n {
            Node::Empty => "()".into(),
            Node::Seq(xs) => {
                let v: Vec<String> = xs.iter().map(|x| self.term(x)).collect();
                self.join(v)
            }
            Node::TConv(xs, labels, e) => {
                let mut names: Vec<&str> = LABELS.to_vec();
                self.rng.shuffle(&mut names);
                let mut used = vec![];
                let mut v = vec![];
                for (x, l) in xs.iter().zip(labels) {
                    let t = self.term(x);
                    if *l {
                        let name = names.pop().unwrap().to_string();
                        v.push(format!("{name}:{t}"));
                        used.push(name);
                    } else {
                        v.push(t);
                    }
                }
                let lhs = self.join(v);
                format!("{lhs} => {}", expr_text(e, &used))
            }
            x => self.term(x),
        }
    }

    fn term(&mut self, n: &Node) -> String {
        match n {
            Node::Empty => "()".into(),
            Node::Lit(l) => format!("{l:?}"),
            Node::Chr(c) => format!("{c:?}"),
            Node::Class(c) => c.name().into(),
            Node::CharOf(o) => format!("char_of({o:?})"),
            Node::Num(k) => (*k).into(),
            Node::Group(x) if **x == Node::Empty => "()".into(),
            Node::Group(x) => format!("({})", self.expr(x)),
            Node::Alt(xs) => {
                let v: Vec<String> = xs
                    .iter()
                    .map(|x| self.expr(x))
                    .collect();
                let trailing = if self.rng.chance(25) { "," } else { "" };
                format!("{{{}{trailing}}}", v.join(", "))
            }
            Node::Star(x) => format!("{}*", self.term(x)),
            Node::Plus(x) => format!("{}+", self.term(x)),
            Node::Opt(x) => format!("{}?", self.term(x)),
            Node::RepSep(a, b) => self.call("repeat_sep", &[a, b]),
            Node::Str(x) => self.call("string", &[x]),
            Node::Line(x) => self.call("line", &[x]),
            Node::Lines(x) => self.call("lines", &[x]),
            Node::Section(x) => self.call("section", &[x]),
            Node::Sections(x) => self.call("sections", &[x]),
            Node::Rule(i) => format!("r{i}"),
            Node::Via(Via::DoublyBorrowed, x) => self.call("same", &[x]),
            Node::Via(Via::Borrowed, x) => {
                let name = self.fresh("L");
                match &**x {
                    Node::Lit(l) => writeln!(self.before, "    const {name}: &str = {l:?};").unwrap(),
                    Node::Chr(c) => writeln!(self.before, "    const {name}: char = {c:?};").unwrap(),
                    _ => panic!(),
                }
                name
            }
            Node::Via(Via::Function, x) => {
                let ty = ty_rust(&self.ty_of(x));
                let Node::Group(y) = &**x else { panic!() };
                let saved = std::mem::take(&mut self.before);
                let body = self.expr(y);
                let lets = std::mem::replace(&mut self.before, saved);
                let name = self.fresh("f");
                writeln!(
                    self.fns,
                    "#[allow(non_snake_case)]\nfn {name}() -> impl Parser<Output = {ty}, RawOutput = ({ty},)> {{\n{lets}    parser!({body})\n}}"
                )
                .unwrap();
                format!("{name}()")
            }
            Node::Via(_, x) => {
                let Node::Group(y) = &**x else { panic!() };
                let body = self.expr(y);
                let name = self.fresh("v");
                writeln!(self.before, "    let {name} = Box::new(parser!({body}));\n    let {name} = *{name};").unwrap();
                name
            }
            Node::RuleSet(ids, e) => {
                let ids = ids.clone();
                let body = self.rules(&ids, e);
                let name = self.fresh("v");
                writeln!(self.before, "    let {name} = parser!({body});").unwrap();
                name
            }
            Node::Seq(_) | Node::TConv(..) => format!("({})", self.expr(n)),
            Node::Multi(..) | Node::Conv(..) => unreachable!(),
        }
    }

    fn rules(&mut self, ids: &[usize], e: &Node) -> String {
        let g = self.g;
        let mut s = String::new();
        let me = self.rulesets;
        self.rulesets += 1;
        let drop = self.spoil_rules.filter(|x| x.0 == me).map(|x| x.1);
        for (k, i) in ids.iter().enumerate() {
            let b = self.expr(&g.rules[*i]);
            let semi = if drop == Some(k) { " " } else { "; " };
            write!(s, "rule r{i}: {} = {b}{semi}", ty_rust(&self.rule_tys[*i])).unwrap();
        }
        let e = self.expr(e);
        if drop == Some(ids.len()) {
            return s;
        }
        s + &e
    }
}

fn expr_text(e: &Expr, names: &[String]) -> String {
    match e {
        Expr::Arg(i) => names[*i].clone(),
        Expr::Const(n) => n.to_string(),
        Expr::Val(_, s) => s.clone(),
        Expr::Tup(xs) => format!("({})", xs.iter().map(|x| expr_text(x, names)).collect::<Vec<_>>().join(", ")),
    }
}

// ---------------------------------------------------------------- texts

fn walk(g: &Grammar, n: &Node, rng: &mut Rng, out: &mut String, fuel: &mut usize) {
    if *fuel > 0 {
        *fuel -= 1;
    }
    let lean = *fuel == 0 || out.len() > 60;
    let many = |rng: &mut Rng, min: usize| if lean { min } else { min.max(*rng.pick(&[0usize, 1, 1, 2, 2, 3])) };
    match n {
        Node::Empty => {}
        Node::Lit(l) => out.push_str(l),
        Node::Chr(c) => out.push(*c),
        Node::Class(c) => out.push(match c {
            Cls::Digit => *rng.pick(&['0', '3', '9']),
            Cls::DigitBin => *rng.pick(&['0', '1']),
            Cls::DigitHex => *rng.pick(&['0', '7', 'a', 'F']),
            Cls::Upper => *rng.pick(&['A', 'Z', 'É']),
            Cls::Lower => *rng.pick(&['b', 'z', 'é']),
            Cls::Alpha => *rng.pick(&['b', 'Z', 'é']),
            Cls::Alnum => *rng.pick(&['b', 'Z', '4']),
            Cls::Any => *rng.pick(&['b', '4', '#', '文']),
        }),
        Node::CharOf(o) => out.extend(o.chars().nth(rng.below(o.chars().count()))),
        Node::Num(k) => {
            let t = match nums::kind(k) {
                nums::Kind::Bool => (*rng.pick(&["true", "false"])).to_string(),
                nums::Kind::F32 | nums::Kind::F64 => (*rng.pick(&["1.5", "-2", "0.25", "1e3", "7"])).to_string(),
                nums::Kind::Int { base, signed, .. } => {
                    let s = if signed { *rng.pick(&["", "", "-", "+"]) } else { "" };
                    let n = rng.range(1, 2);
                    format!("{s}{}", gen::digits(base, n, rng).replace(|c: char| !c.is_ascii_alphanumeric(), "1"))
                }
            };
            // keep two-digit hexadecimal numerals in range of the signed byte
            out.push_str(&t)
        }
        Node::Seq(xs) | Node::TConv(xs, ..) => xs.iter().for_each(|x| walk(g, x, rng, out, fuel)),
        Node::Group(x) | Node::Via(_, x) | Node::Str(x) => walk(g, x, rng, out, fuel),
        Node::Alt(xs) => {
            let i = if lean { xs.len() - 1 } else { rng.below(xs.len()) };
            walk(g, &xs[i], rng, out, fuel)
        }
        Node::Opt(x) => {
            if !lean && rng.chance(60) {
                walk(g, x, rng, out, fuel)
            }
        }
        Node::Star(x) => (0..many(rng, 0)).for_each(|_| walk(g, x, rng, out, fuel)),
        Node::Plus(x) => (0..many(rng, 1)).for_each(|_| walk(g, x, rng, out, fuel)),
        Node::RepSep(x, s) => (0..many(rng, 0)).for_each(|i| {
            if i > 0 {
                walk(g, s, rng, out, fuel)
            }
            walk(g, x, rng, out, fuel)
        }),
        Node::Line(x) => {
            walk(g, x, rng, out, fuel);
            out.push('\n')
        }
        Node::Section(x) => {
            walk(g, x, rng, out, fuel);
            out.push_str("\n\n")
        }
        Node::Lines(x) => (0..many(rng, 0)).for_each(|_| {
            walk(g, x, rng, out, fuel);
            out.push('\n')
        }),
        Node::Sections(x) => (0..many(rng, 0)).for_each(|_| {
            walk(g, x, rng, out, fuel);
            out.push_str("\n\n")
        }),
        Node::Rule(i) => walk(g, &g.rules[*i], rng, out, fuel),
        Node::RuleSet(_, e) => walk(g, e, rng, out, fuel),
        Node::Multi(..) | Node::Conv(..) => unreachable!(),
    }
}

struct Prog {
    g: Grammar,
    ty: Ty,
    rule_tys: Vec<Ty>,
    side: Vec<(Node, Ty)>,
}

fn random_program(seed: u64, idx: u64) -> Prog {
    for attempt in 0.. {
        let rng = Rng::of(&[seed, 0x7e9ed, idx, attempt]);
        let mut g = G { rng, rules: vec![], rule_tys: vec![], side: vec![], scope: vec![], guarded: false, size: 0, lines_ok: true };
        // flat tuples of every arity get their share
        let ty = if g.rng.chance(55) {
            let n = g.rng.below(9);
            let mut ts: Vec<Ty> = (0..n).map(|_| g.ty(2)).collect();
            match n {
                0 => Ty::Unit,
                1 => ts.pop().unwrap(),
                _ => Ty::Tup(ts),
            }
        } else {
            g.ty(3)
        };
        let root = if g.rng.chance(12) { g.ruleset(&ty, 3) } else { g.expr(&ty, 4) };
        if g.size > 60 {
            continue;
        }
        let gr = Grammar { root: Node::Group(Box::new(root)), rules: g.rules, share: false };
        return Prog { g: gr, ty, rule_tys: g.rule_tys, side: g.side };
    }
    unreachable!()
}

/// The systematic part: every split of up to 8 values in two neighbours, every number of labels.
fn fixed_programs() -> Vec<Prog> {
    let kinds = [Ty::Idx, Ty::Char, Ty::Num("u8"), Ty::Str, Ty::Num("i64"), Ty::Char, Ty::Num("bool"), Ty::Idx];
    let pat = |t: &Ty| match t {
        Ty::Idx => Node::Class(Cls::Digit),
        Ty::Char => Node::Class(Cls::Alpha),
        Ty::Num(k) => Node::Num(k),
        Ty::Str => Node::Str(Box::new(Node::Plus(Box::new(Node::Class(Cls::Upper))))),
        _ => unreachable!(),
    };
    let with_seps = |ts: &[Ty]| {
        let mut v = vec![];
        for t in ts {
            v.push(pat(t));
            v.push(Node::Chr(','));
        }
        v
    };
    let mut out = vec![];
    let mut add = |root: Node, ts: Vec<Ty>| {
        let ty = match ts.len() {
            0 => Ty::Unit,
            1 => ts[0].clone(),
            _ => Ty::Tup(ts),
        };
        let g = Grammar { root: Node::Group(Box::new(root)), rules: vec![], share: false };
        out.push(Prog { g, ty, rule_tys: vec![], side: vec![] });
    };
    for same_type in [false, true] {
        let ts = |n: usize, from: usize| -> Vec<Ty> { (0..n).map(|i| if same_type { Ty::Idx } else { kinds[(from + i) % 8].clone() }).collect() };
        for total in 0..=8 {
            add(Node::Seq(with_seps(&ts(total, 0)).into_iter().chain([Node::Lit("!")]).collect()), ts(total, 0));
        }
        for m in 0..=8usize {
            for n in 0..=8 - m {
                let (a, b) = (ts(m, 1), ts(n, 1 + m));
                let mut one = with_seps(&a);
                one.insert(0, Node::Lit(""));
                one.push(Node::Lit(""));
                let mut two = with_seps(&b);
                two.insert(0, Node::Lit(""));
                two.push(Node::Lit(""));
                add(
                    Node::Seq(vec![
                        Node::Via(Via::DoublyBorrowed, Box::new(Node::Seq(one))),
                        Node::Lit("/"),
                        Node::Via(Via::DoublyBorrowed, Box::new(Node::Seq(two))),
                    ]),
                    a.iter().chain(&b).cloned().collect(),
                );
            }
        }
        // labels: 0..=12, given back in reverse, in rotation, every other one
        for k in 0..=12usize {
            for style in 0..3 {
                let t = ts(k, style);
                let order: Vec<usize> = match style {
                    0 => (0..k).rev().collect(),
                    1 => (0..k).map(|i| (i + k / 2 + 1) % k.max(1)).collect(),
                    _ => (0..k).filter(|i| i % 2 == 0).collect(),
                };
                let mut terms = vec![];
                let mut labels = vec![];
                let mut arg = vec![0; k];
                let mut n = 0;
                for (i, x) in t.iter().enumerate() {
                    if style != 1 {
                        terms.push(Node::Lit(if i % 2 == 0 { "," } else { "; " }));
                        labels.push(false);
                    } else if i > 0 {
                        terms.push(Node::Chr(','));
                        labels.push(false);
                    }
                    terms.push(pat(x));
                    let l = style != 2 || i % 2 == 0;
                    labels.push(l);
                    arg[i] = n;
                    n += l as usize;
                }
                if terms.is_empty() {
                    terms.push(Node::Lit("x"));
                    labels.push(false);
                }
                let out: Vec<Ty> = order.iter().map(|i| t[*i].clone()).collect();
                let e = Expr::Tup(order.iter().map(|i| Expr::Arg(arg[*i])).collect());
                let e = if out.len() == 1 { Expr::Arg(arg[order[0]]) } else { e };
                if out.len() <= 12 {
                    add(Node::TConv(terms, labels, e), out);
                }
            }
        }
    }
    out
}

fn whole(e: &mut Emit) -> String {
    let Node::Group(root) = &e.g.root else { panic!() };
    match &**root {
        Node::RuleSet(ids, x) => e.rules(ids, x),
        x => e.expr(x),
    }
}

fn file(e: &Emit, body: &str, ty: &str) -> String {
    format!(
        "#![recursion_limit = \"1024\"]\n#![allow(unused, non_upper_case_globals)]\nuse aoc_parse::{{parser, prelude::*}};\nfn same<P: Parser>(p: P) -> P {{ p }}\n{}fn main() {{\n{}    let p = parser!({body});\n    let _: Result<{ty}, aoc_parse::ParseError> = p.parse(\"\");\n}}\n",
        e.fns, e.before
    )
}

/// Pairs of files: a valid program and the same with one documented mistake.
fn snippets(seed: u64, n: usize, out: &str) {
    std::fs::create_dir_all(out).unwrap();
    let mut index = String::new();
    for i in 0..n {
        let mut p = random_program(seed ^ 0x51e9, i as u64);
        for k in 1.. {
            // whole programs with rules are wanted more often than they come
            if i % 4 != 0 || !p.g.rules.is_empty() {
                break;
            }
            p = random_program(seed ^ 0x51e9, (i + k * 1_000_000) as u64);
        }
        let ty = ty_rust(&p.ty);
        let mk = || Emit {
            g: &p.g,
            rule_tys: &p.rule_tys,
            side: &p.side,
            rng: Rng::of(&[seed, 0xe318, i as u64]),
            before: String::new(),
            fns: String::new(),
            n: 0,
            id: i,
            exprs: 0,
            spoil: None,
            rulesets: 0,
            spoil_rules: None,
        };
        let mut e = mk();
        let body = whole(&mut e);
        std::fs::write(format!("{out}/ok{i}.rs"), file(&e, &body, &ty)).unwrap();
        let mut rng = Rng::of(&[seed, 0x5901, i as u64]);
        let at = rng.below(e.exprs.max(1));
        let mut bad = mk();
        let (kind, want) = if i % 4 == 0 && e.rulesets > 0 {
            let set = rng.below(e.rulesets);
            let which = if rng.chance(50) { usize::MAX } else { 0 };
            let size = emitted_sizes(mk(), set);
            let which = if which == usize::MAX { size } else { rng.below(size) };
            bad.spoil_rules = Some((set, which));
            if which + 1 == size {
                // the final pattern ends up in the last rule
                ("last rule without a semicolon", "".to_string())
            } else if which < size {
                ("two rules without a semicolon between", "missing semicolon before".to_string())
            } else {
                ("rule set without a final pattern", "missing final pattern".to_string())
            }
        } else {
            let (kind, before, after, want): (&str, String, String, String) = match rng.below(8) {
                0 => ("label without a pattern", "".into(), "zz:".into(), "missing pattern after `zz:`".into()),
                1 => ("two labels in a row", "aa: bb:".into(), "".into(), "missing pattern between `aa:` and `bb:`".into()),
                2 => {
                    let q = *rng.pick(&["*?", "+?"]);
                    let t = *rng.pick(&["alpha", "u8", "\"a\"", "(u8 \",\")", "{u8, u8}", "string(alpha)", "x9:u8", "x9:string(alpha+)"]);
                    ("non-greedy quantifier", format!("{t}{q}"), "".into(), format!("non-greedy quantifier `{q}`"))
                }
                3 => {
                    let q = *rng.pick(&["*", "+", "?"]);
                    ("quantifier after nothing", q.into(), "".into(), format!("quantifier `{q}` has to come after something"))
                }
                4 => ("empty alternation", (*rng.pick(&["{}", "x9:{}"])).into(), "".into(), "no arms in alternation".into()),
                _ => {
                    let t = *rng.pick(&["|", "!", ".", "=", "&", "<", "/", "%", "#", "^", "~", "::", "[u8]", "&&", "->", ".."]);
                    ("stray token", t.into(), "".into(), "".into())
                }
            };
            bad.spoil = Some((at, before, after));
            (kind, want)
        };
        let body = whole(&mut bad);
        std::fs::write(format!("{out}/bad{i}.rs"), file(&bad, &body, &ty)).unwrap();
        writeln!(index, "{i}\t{kind}\t{want}").unwrap();
    }
    std::fs::write(format!("{out}/index.txt"), index).unwrap();
}

/// number of rules in the `set`th rule set written
fn emitted_sizes(e: Emit, set: usize) -> usize {
    // leave out the semicolon after rule k of it: the first k with no effect is the size, and
    // leaving out the final pattern has that number
    for k in 0..9 {
        let mut x = Emit {
            g: e.g,
            rule_tys: e.rule_tys,
            side: e.side,
            rng: Rng::of(&[0]),
            before: String::new(),
            fns: String::new(),
            n: 0,
            id: e.id,
            exprs: 0,
            spoil: None,
            rulesets: 0,
            spoil_rules: Some((set, k)),
        };
        let b = whole(&mut x);
        let t = file(&x, &b, "");
        let mut y = Emit { rng: Rng::of(&[0]), before: String::new(), fns: String::new(), n: 0, exprs: 0, rulesets: 0, spoil: None, spoil_rules: None, ..x };
        let b = whole(&mut y);
        if file(&y, &b, "") == t {
            return k - 1;
        }
    }
    unreachable!()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map_or(d.to_string(), |i| a[i + 1].clone());
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let programs: usize = get("--programs", "120").parse().unwrap();
    let bins: usize = get("--bins", "8").parse().unwrap();
    let texts: usize = get("--texts", "12").parse().unwrap();
    let out = get("--out", "/tmp/typed");
    let n: usize = get("--snippets", "0").parse().unwrap();
    if n > 0 {
        return snippets(seed, n, &out);
    }
    let mut progs = fixed_programs();
    let nfixed = progs.len();
    for i in 0..programs {
        progs.push(random_program(seed, i as u64));
    }
    std::fs::create_dir_all(format!("{out}/src/bin")).unwrap();
    let mut files: Vec<String> = vec![String::new(); bins];
    let mut cases: Vec<String> = vec![String::new(); bins];
    let mut mains: Vec<String> = vec![String::new(); bins];
    let mut index = String::new();
    let (mut ncases, mut useless) = (0, 0);
    for (idx, p) in progs.iter().enumerate() {
        let mut rng = Rng::of(&[seed, 0x7e87, idx as u64]);
        let mut seen: Vec<String> = vec![];
        let mut mine = String::new();
        let want = if idx < nfixed { 4 } else { texts };
        for _ in 0..want * 12 {
            if seen.len() >= want {
                break;
            }
            let mut t = String::new();
            walk(&p.g, &p.g.root, &mut rng, &mut t, &mut 80);
            if t.len() > 300 || seen.contains(&t) {
                continue;
            }
            let (o, st) = model::run(&p.g, &t, true, 20_000);
            if let model::Outcome::Match { value, .. } = o {
                if st.steps > 8_000 {
                    continue;
                }
                let hex: String = t.bytes().map(|b| format!("{b:02x}")).collect();
                let val: String = value.dbg().bytes().map(|b| format!("{b:02x}")).collect();
                writeln!(mine, "{idx} {} {val}", if hex.is_empty() { "-" } else { &hex }).unwrap();
                seen.push(t);
            }
        }
        if seen.is_empty() {
            useless += 1;
            // still has to compile
        }
        ncases += seen.len();
        let b = idx % bins;
        cases[b].push_str(&mine);
        let mut e = Emit {
            g: &p.g,
            rule_tys: &p.rule_tys,
            side: &p.side,
            rng: Rng::of(&[seed, 0xe317, idx as u64]),
            before: String::new(),
            fns: String::new(),
            n: 0,
            id: idx,
            exprs: 0,
            spoil: None,
            rulesets: 0,
            spoil_rules: None,
        };
        let body = whole(&mut e);
        let ty = ty_rust(&p.ty);
        // one text line each, so that a compiler message names the program by its line
        let src = format!(
            "{}fn p{idx}(cx: &mut Cx) {{\n{}    let p = parser!({body});\n    cx.run({idx}, |s| p.parse(s).map(|v: {ty}| format!(\"{{v:?}}\")).map_err(|e| e.to_string()));\n}}\n",
            e.fns, e.before
        );
        writeln!(files[b], "// program {idx}\n{src}").unwrap();
        writeln!(mains[b], "    p{idx}(&mut cx);").unwrap();
        let one: String = body.chars().map(|c| if c == '\n' { ' ' } else { c }).collect();
        writeln!(index, "{idx}\t{b}\t{ty}\t{one}").unwrap();
    }
    for b in 0..bins {
        let text = format!(
            "#![recursion_limit = \"1024\"]\n#![type_length_limit = \"100000000\"]\n#![allow(unused, non_upper_case_globals)]\nuse aoc_parse::{{parser, prelude::*}};\nuse typed::{{same, Cx}};\n\n{}\nfn main() {{\n    let mut cx = Cx::new();\n{}    cx.done();\n}}\n",
            files[b], mains[b]
        );
        std::fs::write(format!("{out}/src/bin/t{b}.rs"), text).unwrap();
        std::fs::write(format!("{out}/cases{b}.txt"), &cases[b]).unwrap();
    }
    std::fs::write(
        format!("{out}/src/lib.rs"),
        r##"use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
/// hands its argument back
pub fn same<P: aoc_parse::Parser>(p: P) -> P { p }
fn unhex(s: &str) -> String {
    if s == "-" { return String::new(); }
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
pub struct Cx { cases: BTreeMap<usize, Vec<(String, String)>>, ran: usize }
impl Cx {
    pub fn new() -> Cx {
        let path = std::env::args().nth(1).unwrap();
        let mut cases: BTreeMap<usize, Vec<(String, String)>> = BTreeMap::new();
        for l in std::fs::read_to_string(path).unwrap().lines() {
            let mut f = l.split(' ');
            let i = f.next().unwrap().parse().unwrap();
            cases.entry(i).or_default().push((unhex(f.next().unwrap()), unhex(f.next().unwrap())));
        }
        std::panic::set_hook(Box::new(|_| {}));
        Cx { cases, ran: 0 }
    }
    pub fn run(&mut self, idx: usize, f: impl Fn(&str) -> Result<String, String>) {
        for (t, want) in self.cases.get(&idx).into_iter().flatten() {
            self.ran += 1;
            let got = match catch_unwind(AssertUnwindSafe(|| f(t))) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => format!("no match: {e}"),
                Err(_) => "panic".to_string(),
            };
            if got != *want {
                println!("BAD\t{idx}\t{t:?}\t{want:?}\t{got:?}");
            }
        }
    }
    pub fn done(&self) { println!("RAN\t{}", self.ran); }
}
"##,
    )
    .unwrap();
    std::fs::write(
        format!("{out}/Cargo.toml"),
        "[package]\nname = \"typed\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\naoc-parse = { path = \"/repo\" }\nnum-bigint = \"0.4\"\n\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n\n[profile.dev.package.\"*\"]\nopt-level = 1\n",
    )
    .unwrap();
    std::fs::write(format!("{out}/index.txt"), index).unwrap();
    println!("{{\"programs\": {}, \"fixed\": {nfixed}, \"cases\": {ncases}, \"programs_without_a_text\": {useless}}}", progs.len());
}
