//! Seeded generators: patterns, texts derived from patterns, mutated and hostile texts.
use crate::node::*;
use crate::nums;
use crate::rng::Rng;

/// What to generate; the weights decide which part of the library a workload leans on.
#[derive(Clone)]
pub struct Profile {
    pub depth: usize,
    pub alphabet: Vec<char>,
    pub lits: Vec<&'static str>,
    pub nums: Vec<&'static str>,
    pub char_lists: Vec<&'static str>,
    pub w: Weights,
    /// percent chance that the root is a rule set
    pub rules_root: u32,
    pub max_text: usize,
}

#[derive(Clone, Default)]
pub struct Weights {
    pub empty: u32,
    pub lit: u32,
    pub chr: u32,
    pub class: u32,
    pub char_of: u32,
    pub num: u32,
    pub multi: u32,
    pub seq: u32,
    pub conv: u32,
    pub group: u32,
    pub alt: u32,
    pub star: u32,
    pub plus: u32,
    pub opt: u32,
    pub rep_sep: u32,
    pub string: u32,
    pub line: u32,
    pub lines: u32,
    pub section: u32,
    pub sections: u32,
    pub ruleset: u32,
}

const NUMS_SMALL: [&str; 12] = [
    "u8", "i8", "u16", "u64", "i32", "u8_bin", "i8_hex", "u16_hex", "big_int", "f64", "bool", "usize",
];

impl Profile {
    pub fn general() -> Profile {
        Profile {
            depth: 4,
            alphabet: vec!['a', 'b', 'a', 'b', '1', '\n', 'é', '+', '-', '😂'],
            lits: vec!["a", "b", "ab", "aa", "ba", "é", "aé", "1", "", "\n", "a\n", "😂"],
            nums: NUMS_SMALL.to_vec(),
            char_lists: vec!["ab", "ba", "aa", "éa", "b", "a😂b1"],
            w: Weights {
                empty: 2,
                lit: 12,
                chr: 5,
                class: 6,
                char_of: 3,
                num: 4,
                multi: 7,
                seq: 16,
                conv: 6,
                group: 3,
                alt: 12,
                star: 7,
                plus: 6,
                opt: 7,
                rep_sep: 6,
                string: 3,
                line: 2,
                lines: 2,
                section: 2,
                sections: 2,
                ruleset: 1,
            },
            rules_root: 8,
            max_text: 40,
        }
    }
    pub fn repetition() -> Profile {
        let mut p = Self::general();
        p.w.star = 18;
        p.w.plus = 18;
        p.w.rep_sep = 18;
        p.w.opt = 14;
        p.w.multi = 14;
        p.rules_root = 3;
        p
    }
    pub fn numbers() -> Profile {
        let mut p = Self::general();
        p.w.num = 60;
        p.nums = nums::ALL.iter().map(|x| x.0).collect();
        p.alphabet = "0123456789abcdefABCDEF+-._eEinfxa \n".chars().collect();
        p.lits = vec!["+", "-", "e", ".", "0", "1", ",", " ", "x", "a", "f", "nan", "true"];
        p
    }
    pub fn lines() -> Profile {
        let mut p = Self::general();
        p.alphabet = vec!['a', 'b', '\n', '\n', 'a', '\r', '1', 'é'];
        p.lits = vec!["a", "b", "ab", "aa", "", "\n", "a\n", "\na", "a\nb", "\r", "é"];
        p.w.line = 18;
        p.w.lines = 18;
        p.w.section = 3;
        p.w.sections = 3;
        p
    }
    pub fn sections() -> Profile {
        let mut p = Self::lines();
        p.w.line = 8;
        p.w.lines = 10;
        p.w.section = 16;
        p.w.sections = 16;
        p
    }
    pub fn strings() -> Profile {
        let mut p = Self::general();
        p.w.string = 30;
        p.w.conv = 10;
        p.w.line = 4;
        p.w.lines = 4;
        p.w.section = 3;
        p.w.sections = 3;
        p
    }
    pub fn conversions() -> Profile {
        let mut p = Self::general();
        p.w.conv = 34;
        p.w.multi = 12;
        p.w.string = 5;
        p.w.rep_sep = 9;
        p.w.alt = 16;
        p
    }
    pub fn rules() -> Profile {
        let mut p = Self::general();
        p.rules_root = 100;
        p.w.ruleset = 8;
        p.depth = 3;
        p
    }
    pub fn errors() -> Profile {
        let mut p = Self::general();
        p.w.line = 7;
        p.w.lines = 7;
        p.w.section = 6;
        p.w.sections = 6;
        p.w.num = 8;
        p.alphabet.extend(['2', '9', '\n', '\n']);
        p
    }
    /// repetitions of things that can match empty text
    pub fn nullable() -> Profile {
        let mut p = Self::repetition();
        p.lits = vec!["", "", "a", "b", "ab", "\n"];
        p.w.empty = 12;
        p.w.opt = 22;
        p.w.line = 4;
        p.w.lines = 4;
        p.w.section = 4;
        p.w.sections = 4;
        p
    }
}

/// characters that some code treats specially
const ODD: [char; 40] = [
    ' ', ' ', '\t', '\r', ',', ':', '\0', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{a0}', '\u{feff}', '\u{301}', 'ß', 'İ', 'ǅ', '٣', '\u{10ffff}', 'Z', '_', '"', '\'', '\\', '{', '#', '=', '0', '.', '\u{fffd}',
    '\u{200d}', '$', '%', '|', '(', '文', '\u{7f}', '\u{80}', '\u{7ff}', '\u{ffff}',
];

impl Profile {
    /// The same profile over other characters, some of the time: what holds of `b` must hold of
    /// a blank, a carriage return or a character of four bytes.
    pub fn skin(&self, rng: &mut Rng) -> Profile {
        let mut p = self.clone();
        if !rng.chance(45) {
            return p;
        }
        let mut map: Vec<(char, char)> = vec![];
        for (from, odds) in [('b', 60), ('a', 15), ('é', 30), ('1', 10)] {
            if rng.chance(odds) {
                map.push((from, *rng.pick(&ODD)));
            }
        }
        let sub = |c: char| map.iter().find(|m| m.0 == c).map_or(c, |m| m.1);
        let word = |s: &str| intern(&s.chars().map(sub).collect::<String>());
        p.alphabet = p.alphabet.iter().map(|c| sub(*c)).collect();
        p.lits = p.lits.iter().map(|l| word(l)).collect();
        p.char_lists = p.char_lists.iter().map(|l| word(l)).collect();
        if rng.chance(30) {
            // longer literals made of the short ones
            for _ in 0..2 {
                let n = rng.range(2, 5);
                let l: String = (0..n).map(|_| *rng.pick(&p.lits)).collect();
                p.lits.push(intern(&l));
            }
        }
        if rng.chance(30) {
            for _ in 0..2 {
                let n = rng.range(1, 6);
                let l: String = (0..n).map(|_| *rng.pick(&p.alphabet)).collect();
                p.char_lists.push(intern(&l));
            }
        }
        p
    }
}

pub struct Gen<'p> {
    pub rng: Rng,
    pub p: &'p Profile,
    rules: Vec<Node>,
    nodes: usize,
    next_id: u32,
}

/// Does every match of `n` consume at least one character, for sure?
fn consumes(n: &Node) -> bool {
    match n {
        Node::Lit(l) => !l.is_empty(),
        Node::Chr(_) | Node::Class(_) | Node::CharOf(_) | Node::Num(_) => true,
        Node::Multi(_, o) => o.iter().all(|x| !x.is_empty()),
        Node::Seq(xs) | Node::Conv(_, xs) | Node::TConv(xs, ..) => xs.iter().any(consumes),
        Node::Alt(xs) => xs.iter().all(consumes),
        Node::Group(x) | Node::Via(_, x) | Node::Plus(x) | Node::Str(x) | Node::RuleSet(_, x) => consumes(x),
        Node::Line(x) | Node::Section(x) => consumes(x),
        _ => false,
    }
}

impl<'p> Gen<'p> {
    pub fn new(rng: Rng, p: &'p Profile) -> Gen<'p> {
        Gen { rng, p, rules: vec![], nodes: 0, next_id: 1 }
    }

    pub fn grammar(mut self) -> (Grammar, Rng) {
        let root = if self.rng.chance(self.p.rules_root) {
            self.rule_set(self.p.depth, &[], false)
        } else {
            self.node(self.p.depth, &[], false)
        };
        (Grammar { root, rules: self.rules, share: false }, self.rng)
    }

    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }

    fn rule_set(&mut self, depth: usize, scope: &[usize], guarded: bool) -> Node {
        let n = *self.rng.pick(&[1usize, 1, 2, 2, 3, 4, 5]);
        let first = self.rules.len();
        let ids: Vec<usize> = (first..first + n).collect();
        for _ in 0..n {
            self.rules.push(Node::Empty);
        }
        // Each rule may use itself and later ones anywhere guarded, and later ones anywhere at
        // all: no left recursion, any order of definition.
        let mut order = ids.clone();
        self.rng.shuffle(&mut order);
        let mut full: Vec<usize> = scope.to_vec();
        full.extend(&ids);
        for (k, i) in order.iter().enumerate() {
            let free: Vec<usize> = order[k + 1..].to_vec();
            let body = self.body(depth.saturating_sub(1), &full, &free);
            self.rules[*i] = body;
        }
        let d = depth.saturating_sub(1);
        // the entry pattern may use every rule anywhere; outer rules only if guarded
        let saved = std::mem::take(&mut self.nodes);
        let e = self.node_free(d, &full, &ids, guarded);
        self.nodes += saved;
        Node::RuleSet(ids, Box::new(e))
    }

    fn body(&mut self, depth: usize, scope: &[usize], free: &[usize]) -> Node {
        let saved = std::mem::take(&mut self.nodes);
        let b = match self.rng.below(4) {
            // typical recursive shapes
            0 => {
                let leaf = self.terminal();
                let open = self.consuming();
                let r = Node::Rule(*self.rng.pick(scope));
                let inner = match self.rng.below(5) {
                    0 => Node::Star(Box::new(r)),
                    1 => Node::Opt(Box::new(r)),
                    2 => Node::RepSep(Box::new(r), Box::new(Node::Lit(","))),
                    _ => r,
                };
                let close = self.terminal();
                let id = self.id();
                Node::Alt(vec![Node::Conv(id, vec![open, inner, close]), leaf])
            }
            1 => {
                let a = self.consuming();
                let r = Node::Opt(Box::new(Node::Rule(*self.rng.pick(scope))));
                Node::Seq(vec![a, r])
            }
            _ => self.node_free(depth, scope, free, false),
        };
        self.nodes += saved;
        b
    }

    fn node(&mut self, depth: usize, scope: &[usize], guarded: bool) -> Node {
        self.node_free(depth, scope, &[], guarded)
    }

    pub fn consuming(&mut self) -> Node {
        for _ in 0..20 {
            let t = self.terminal();
            if consumes(&t) {
                return t;
            }
        }
        Node::Chr('a')
    }

    pub fn terminal(&mut self) -> Node {
        let w = &self.p.w;
        let ws = [w.empty, w.lit, w.chr, w.class, w.char_of, w.num, w.multi];
        match self.rng.weighted(&ws) {
            0 => Node::Empty,
            1 => Node::Lit(*self.rng.pick(&self.p.lits)),
            2 => Node::Chr(*self.rng.pick(&self.p.alphabet)),
            3 => Node::Class(*self.rng.pick(&Cls::ALL)),
            4 => Node::CharOf(*self.rng.pick(&self.p.char_lists)),
            5 => Node::Num(*self.rng.pick(&self.p.nums)),
            _ => {
                let n = self.rng.range(2, 4);
                let mut o: Vec<&'static str> = vec![];
                while o.len() < n {
                    o.push(*self.rng.pick(&self.p.lits));
                }
                let id = self.id();
                Node::Multi(id, o)
            }
        }
    }

    fn list(&mut self, lo: usize, hi: usize, depth: usize, scope: &[usize], free: &[usize], guarded: bool) -> Vec<Node> {
        let n = self.rng.range(lo, hi);
        let mut g = guarded;
        let mut v: Vec<Node> = vec![];
        for _ in 0..n {
            let x = self.node_free(depth, scope, free, g);
            g = g || consumes(&x);
            v.push(x);
        }
        v
    }

    fn node_free(&mut self, depth: usize, scope: &[usize], free: &[usize], guarded: bool) -> Node {
        self.nodes += 1;
        let can_rule = (guarded && !scope.is_empty()) || !free.is_empty();
        if can_rule && self.rng.chance(22) {
            let i = if guarded && !scope.is_empty() && (free.is_empty() || self.rng.chance(60)) {
                *self.rng.pick(scope)
            } else {
                *self.rng.pick(free)
            };
            return Node::Rule(i);
        }
        if depth == 0 || self.nodes > 40 {
            return self.terminal();
        }
        let d = depth - 1;
        let w = self.p.w.clone();
        let leafs = w.empty + w.lit + w.chr + w.class + w.char_of + w.num + w.multi;
        let ws = [
            if depth == self.p.depth { leafs / 4 } else { leafs },
            w.seq,
            w.conv,
            w.group,
            w.alt,
            w.star,
            w.plus,
            w.opt,
            w.rep_sep,
            w.string,
            w.line,
            w.lines,
            w.section,
            w.sections,
            w.ruleset,
        ];
        macro_rules! one {
            () => {
                Box::new(self.node_free(d, scope, free, guarded))
            };
        }
        match self.rng.weighted(&ws) {
            0 => self.terminal(),
            1 => Node::Seq(self.list(2, 4, d, scope, free, guarded)),
            2 => {
                let id = self.id();
                Node::Conv(id, self.list(1, 4, d, scope, free, guarded))
            }
            3 => Node::Group(one!()),
            4 => {
                let n = *self.rng.pick(&[1usize, 2, 2, 2, 3, 3, 4, 5, 6, 9]);
                let d = if n > 4 { d.min(1) } else { d };
                Node::Alt((0..n).map(|_| self.node_free(d, scope, free, guarded)).collect())
            }
            5 => Node::Star(one!()),
            6 => Node::Plus(one!()),
            7 => Node::Opt(one!()),
            8 => {
                let a = one!();
                let s = if self.rng.chance(50) { Box::new(self.terminal()) } else { one!() };
                Node::RepSep(a, s)
            }
            9 => Node::Str(one!()),
            10 => Node::Line(one!()),
            11 => Node::Lines(one!()),
            12 => Node::Section(one!()),
            13 => Node::Sections(one!()),
            _ => self.rule_set(d, scope, guarded),
        }
    }
}

// ---------------------------------------------------------------- texts

pub fn derive(g: &Grammar, p: &Profile, rng: &mut Rng, budget: usize) -> String {
    let mut out = String::new();
    let mut fuel = 400usize;
    walk(g, &g.root, p, rng, &mut out, &mut fuel, budget, 0);
    out
}

#[allow(clippy::too_many_arguments)]
fn walk(g: &Grammar, n: &Node, p: &Profile, rng: &mut Rng, out: &mut String, fuel: &mut usize, budget: usize, depth: usize) {
    if *fuel == 0 || depth > 40 {
        return;
    }
    *fuel -= 1;
    let lean = out.len() > budget || depth > 20;
    macro_rules! go {
        ($x:expr) => {
            walk(g, $x, p, rng, out, fuel, budget, depth + 1)
        };
    }
    let count = |rng: &mut Rng, min: usize| {
        if lean {
            min
        } else {
            min.max(*rng.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 6]))
        }
    };
    match n {
        Node::Empty => {}
        Node::Lit(l) => out.push_str(l),
        Node::Chr(c) => out.push(*c),
        Node::Class(c) => out.push(class_sample(*c, p, rng)),
        Node::CharOf(o) => out.extend(o.chars().nth(rng.below(o.chars().count().max(1)))),
        Node::Num(k) => out.push_str(&num_text(k, rng)),
        Node::Multi(_, o) => out.push_str(*rng.pick(o)),
        Node::Seq(xs) | Node::Conv(_, xs) | Node::TConv(xs, ..) => {
            for x in xs {
                go!(x)
            }
        }
        Node::Group(x) | Node::Via(_, x) | Node::Str(x) => go!(x),
        Node::Alt(xs) => {
            let i = if lean { xs.len() - 1 } else { rng.below(xs.len()) };
            go!(&xs[i])
        }
        Node::Opt(x) => {
            if !lean && rng.chance(60) {
                go!(x)
            }
        }
        Node::Star(x) => {
            for _ in 0..count(rng, 0) {
                go!(x)
            }
        }
        Node::Plus(x) => {
            for _ in 0..count(rng, 1) {
                go!(x)
            }
        }
        Node::RepSep(x, s) => {
            for i in 0..count(rng, 0) {
                if i > 0 {
                    go!(s)
                }
                go!(x)
            }
        }
        Node::Line(x) => {
            go!(x);
            out.push('\n')
        }
        Node::Section(x) => section(g, x, p, rng, out, fuel, budget, depth),
        Node::Lines(x) => {
            for _ in 0..count(rng, 0) {
                go!(x);
                out.push('\n')
            }
        }
        Node::Sections(x) => {
            for _ in 0..count(rng, 0) {
                section(g, x, p, rng, out, fuel, budget, depth)
            }
        }
        Node::Rule(i) => go!(&g.rules[*i]),
        Node::RuleSet(_, e) => go!(e),
    }
}

#[allow(clippy::too_many_arguments)]
fn section(g: &Grammar, x: &Node, p: &Profile, rng: &mut Rng, out: &mut String, fuel: &mut usize, budget: usize, depth: usize) {
    walk(g, x, p, rng, out, fuel, budget, depth + 1);
    if !out.ends_with('\n') && rng.chance(85) {
        out.push('\n');
    }
    if rng.chance(85) {
        out.push('\n');
    }
}

pub fn class_sample(c: Cls, p: &Profile, rng: &mut Rng) -> char {
    match c {
        Cls::Any => *rng.pick(&p.alphabet),
        Cls::Digit => *rng.pick(&['0', '1', '7', '9']),
        Cls::DigitBin => *rng.pick(&['0', '1']),
        Cls::DigitHex => *rng.pick(&['0', '9', 'a', 'b', 'F', 'A', 'f']),
        Cls::Upper => *rng.pick(&['A', 'B', 'É', 'Ω', 'Z']),
        Cls::Lower => *rng.pick(&['a', 'b', 'é', 'ß', 'z']),
        Cls::Alpha => *rng.pick(&['a', 'b', 'é', 'A', '文', 'ª']),
        Cls::Alnum => *rng.pick(&['a', 'b', '1', 'é', '٣', '½', 'Z']),
    }
}

pub fn digits(base: u32, n: usize, rng: &mut Rng) -> String {
    (0..n)
        .map(|_| {
            let c = std::char::from_digit(rng.below(base as usize) as u32, base).unwrap();
            if rng.chance(50) {
                c.to_ascii_uppercase()
            } else {
                c
            }
        })
        .collect()
}

/// Some text near what the numeric pattern `k` reads.
pub fn num_text(k: &str, rng: &mut Rng) -> String {
    match nums::kind(k) {
        nums::Kind::Bool => (*rng.pick(&["true", "false", "true", "false", "tru", "False"])).to_string(),
        nums::Kind::F32 | nums::Kind::F64 => float_text(rng),
        nums::Kind::Int { base, signed, bits } => {
            let mut s = String::new();
            if rng.chance(if signed { 40 } else { 6 }) {
                s.push(*rng.pick(&['+', '-', '-']));
            }
            let roll = rng.below(10);
            if roll < 4 {
                let n = rng.range(1, 3);
                s.push_str(&digits(base, n, rng));
            } else if roll < 8 {
                s.push_str(&boundary(base, bits, signed, rng));
            } else {
                let z = *rng.pick(&[0usize, 0, 1, 3, 40]);
                s.push_str(&"0".repeat(z));
                let n = rng.range(1, 45);
                s.push_str(&digits(base, n, rng));
            }
            s
        }
    }
}

/// A magnitude at or next to the limits of the width (or of some other width).
pub fn boundary(base: u32, bits: u32, signed: bool, rng: &mut Rng) -> String {
    use num_bigint::BigInt;
    let b = if bits == 0 || rng.chance(10) { *rng.pick(&[8, 16, 31, 32, 63, 64, 127, 128, 256]) } else { bits };
    let b = if signed && rng.chance(80) { b - 1 } else { b };
    let m = (BigInt::from(1) << b) + BigInt::from(rng.range(0, 4) as i64 - 2);
    let mut t = m.to_str_radix(base);
    if rng.chance(40) {
        t = t.to_ascii_uppercase();
    }
    if rng.chance(15) {
        t = "0".repeat(rng.range(1, 30)) + &t;
    }
    t
}

pub fn float_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.chance(35) {
        s.push(*rng.pick(&['+', '-']));
    }
    if rng.chance(12) {
        let w = *rng.pick(&["inf", "infinity", "nan", "INF", "NaN", "Infinity", "infinit", "iNf", "na"]);
        s.push_str(w);
        return s;
    }
    let nd = |rng: &mut Rng| *rng.pick(&[0usize, 1, 1, 2, 3, 5, 17, 20, 40]);
    let n = nd(rng);
    s.push_str(&digits(10, n, rng));
    if rng.chance(60) {
        s.push('.');
        let n = nd(rng);
        s.push_str(&digits(10, n, rng));
    }
    if rng.chance(45) {
        s.push(*rng.pick(&['e', 'E']));
        if rng.chance(50) {
            s.push(*rng.pick(&['+', '-']));
        }
        if rng.chance(90) {
            let e = *rng.pick(&[0usize, 1, 5, 10, 22, 37, 38, 39, 44, 45, 46, 300, 307, 308, 309, 323, 324, 325, 400, 99999]);
            if rng.chance(20) {
                s.push('0');
            }
            s.push_str(&e.to_string());
        }
    }
    s
}

fn pos(s: &str, rng: &mut Rng) -> usize {
    let n = s.chars().count();
    let k = rng.below(n + 1);
    s.char_indices().nth(k).map_or(s.len(), |x| x.0)
}

pub fn mutate(s: &str, p: &Profile, rng: &mut Rng) -> String {
    let mut t = s.to_string();
    for _ in 0..rng.range(1, 3) {
        let i = pos(&t, rng);
        match rng.below(9) {
            0 | 1 => t.insert(i, *rng.pick(&p.alphabet)),
            2 | 3 => {
                if i < t.len() {
                    t.remove(i);
                }
            }
            4 => {
                if i < t.len() {
                    t.remove(i);
                    t.insert(i, *rng.pick(&p.alphabet));
                }
            }
            5 => t.truncate(i),
            6 => t = t[i..].to_string(),
            7 => {
                let j = pos(&t, rng);
                let (a, b) = (i.min(j), i.max(j));
                let x = t[a..b].to_string();
                t.insert_str(i, &x);
            }
            _ => t.insert_str(i, *rng.pick(&p.lits)),
        }
    }
    t
}

pub fn random_text(p: &Profile, rng: &mut Rng, max: usize) -> String {
    let n = rng.below(max + 1);
    (0..n).map(|_| *rng.pick(&p.alphabet)).collect()
}

/// A batch of texts for one pattern.
pub fn texts(g: &Grammar, p: &Profile, rng: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for k in 0..n {
        let mut t = match k % 4 {
            0 | 1 => derive(g, p, rng, p.max_text / 2),
            2 => {
                let d = if v.is_empty() { String::new() } else { v[rng.below(v.len())].clone() };
                mutate(&d, p, rng)
            }
            _ => {
                if rng.chance(50) {
                    let d = derive(g, p, rng, p.max_text / 2);
                    mutate(&d, p, rng)
                } else {
                    random_text(p, rng, 8)
                }
            }
        };
        if rng.chance(10) {
            t.push('\n');
        }
        if t.len() > p.max_text * 3 {
            let mut e = p.max_text * 3;
            while !t.is_char_boundary(e) {
                e -= 1;
            }
            t.truncate(e);
        }
        if !v.contains(&t) {
            v.push(t);
        }
    }
    v
}
