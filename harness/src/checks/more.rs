//! C03 long lists, C11 recursion, C12 positions, C13 hostile texts, C14 effort, C22 rewritings.
use super::{model_texts, observe, stage, Stage};
use crate::dynp;
use crate::engine::{self, guard, pos_suffix, short, Facet, Lib};
use crate::gen::{self, Gen, Profile};
use crate::model::{self, Outcome};
use crate::node::*;
use crate::rng::{hash_str, mix, Rng};
use crate::stats::Ctx;
use crate::value::V;
use aoc_parse::{parser, prelude::*};
use std::primitive::{bool as Bool, char as Char, i64 as I64, u32 as U32, u64 as U64};

fn b(n: Node) -> Box<Node> {
    Box::new(n)
}

// ------------------------------------------------------------------ C03

const LENGTHS: [usize; 34] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4097,
];
const HUGE: [usize; 10] = [10_000, 16_383, 16_385, 32_767, 32_769, 65_535, 65_536, 65_537, 100_001, 131_073];

fn items_n(n: usize, rng: &mut Rng) -> Vec<U64> {
    (0..n).map(|_| rng.next() % *[3u64, 100, 1_000_000_007].get((n + 1) % 3).unwrap()).collect()
}

/// Lists with known contents, many lengths, every repeating construct.
fn long_lists(cx: &mut Ctx, n: usize, rng: &mut Rng) {
    let xs = items_n(n, rng);
    let mut say = |what: &str, ok: Bool, got: String| {
        cx.eval();
        cx.nontrivial(mix(n as U64) ^ hash_str(what) ^ xs.first().copied().unwrap_or(0));
        if !ok {
            cx.violation(format!("{what} over {n} items: {}", short(&got)));
        }
    };
    macro_rules! list {
        ($what:expr, [$($p:tt)*], $text:expr, $want:expr) => {{
            let text: String = $text;
            let want: Option<_> = $want;
            let p = parser!($($p)*);
            let got = guard(|| p.parse(&text));
            let (ok, show) = match (&got, &want) {
                (Lib::Match(v), Some(w)) => (v == w, format!("{} entries, expected {}; {:?}", v.len(), w.len(), v)),
                (Lib::Match(v), None) => (false, format!("matched with {} entries, expected an error", v.len())),
                (Lib::Fail(_), None) => (true, String::new()),
                (other, _) => (false, format!("{:?}", other)),
            };
            say(concat!($what, " ", stringify!($($p)*)), ok, show);
        }};
    }
    let join = |sep: &str| xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep);
    let each = |end: &str| xs.iter().map(|x| format!("{x}{end}")).collect::<String>();
    let some = |v: Vec<U64>| if v.is_empty() { None } else { Some(v) };
    list!("separated list", [repeat_sep(u64, ",")], join(","), Some(xs.clone()));
    list!("separated list, separator of two", [repeat_sep(u64, ", ")], join(", "), Some(xs.clone()));
    list!("list with trailing separator", [repeat_sep(u64, ",")], format!("{},", join(",")), None::<Vec<U64>>);
    list!("list with leading separator", [repeat_sep(u64, ",")], format!(",{}", join(",")), None::<Vec<U64>>);
    if n > 0 {
        list!("list with a doubled separator", [repeat_sep(u64, ",")], format!("{},,7", join(",")), None::<Vec<U64>>);
    }
    list!("separator that varies", [repeat_sep(u64, {",", ";", _s:" "+ => ()})], {
        let mut t = String::new();
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                t.push_str(*rng.pick(&[",", ";", " ", "   "]));
            }
            t.push_str(&x.to_string());
        }
        t
    }, Some(xs.clone()));
    list!("star", [(x:u64 ";" => x)*], each(";"), Some(xs.clone()));
    list!("plus", [(x:u64 ";" => x)+], each(";"), some(xs.clone()));
    list!("lines", [lines(u64)], each("\n"), Some(xs.clone()));
    list!("star of line", [line(u64)*], each("\n"), Some(xs.clone()));
    list!("plus of line", [line(u64)+], each("\n"), some(xs.clone()));
    list!("sections", [sections(line(u64))], join("\n\n"), Some(xs.clone()));
    list!("list on one line", [line(repeat_sep(u64, " "))], format!("{}\n", join(" ")), Some(xs.clone()));
    list!("values of separators are dropped", [repeat_sep(u64, x:alpha => x)], join("q"), Some(xs.clone()));
    let digits: String = xs.iter().map(|x| Char::from(b'0' + (x % 10) as u8)).collect();
    let dv: Vec<usize> = xs.iter().map(|x| (x % 10) as usize).collect();
    list!("single characters", [digit*], digits.clone(), Some(dv.clone()));
    list!("single characters", [digit+], digits.clone(), if n == 0 { None } else { Some(dv.clone()) });
    list!("given back one", [a:digit* digit => a], digits.clone(), if n == 0 { None } else { Some(dv[..n - 1].to_vec()) });
    list!("given back two", [a:digit+ digit digit => a], digits.clone(), if n < 3 { None } else { Some(dv[..n - 2].to_vec()) });
    list!("separated, last given back", [a:repeat_sep(digit, "") digit => a], digits.clone(), if n == 0 { None } else { Some(dv[..n - 1].to_vec()) });
    list!("separated, last given back with its separator", [a:repeat_sep(u64, ",") b:{"," u64} => { let _ = b; a }], join(","), if n < 2 { None } else { Some(xs[..n - 1].to_vec()) });
    let pairs: Vec<(usize, usize)> = dv.chunks_exact(2).map(|c| (c[0], c[1])).collect();
    list!("pairs", [(digit digit)*], digits[..n / 2 * 2].to_string(), Some(pairs));
    // all but k are given back: every earlier length is tried in turn
    if n <= 2_000 {
        let text: String = "a".repeat(n);
        for k in [0usize, 1, 2, 3, n / 2, n.saturating_sub(1), n] {
            if k <= n {
                let rest: &'static str = intern(&"a".repeat(n - k));
                let p = parser!(a:any_char* rest => a.len());
                let got = guard(|| p.parse(&text));
                say("greedy list before a literal of the remaining text", got == Lib::Match(k), format!("kept {got:?}, expected {k}"));
                let p = parser!(a:repeat_sep("a", "") rest => a.len());
                let got = guard(|| p.parse(&text));
                say("greedy separated list before a literal of the remaining text", got == Lib::Match(k), format!("kept {got:?}, expected {k}"));
                if k > 0 {
                    let p = parser!(a:lower+ rest => a.len());
                    let got = guard(|| p.parse(&text));
                    say("greedy plus before a literal of the remaining text", got == Lib::Match(k), format!("kept {got:?}, expected {k}"));
                }
            }
        }
        let p = parser!(a:any_char* b:any_char* c:any_char? => (a.len(), b.len(), c.is_some()));
        let got = guard(|| p.parse(&text));
        say("the first repetition takes everything", got == Lib::Match((n, 0, false)), format!("{got:?}"));
        let p = parser!(a:any_char+ b:any_char+ c:any_char+ => (a.len(), b.len(), c.len()));
        let got = guard(|| p.parse(&text));
        let want = if n >= 3 { got == Lib::Match((n - 2, 1, 1)) } else { matches!(got, Lib::Fail(_)) };
        say("three pluses", want, format!("{got:?}"));
        let p = parser!(a:("a" "a")* b:"a"? => (a.len(), b.is_some()));
        let got = guard(|| p.parse(&text));
        say("pairs and a rest", got == Lib::Match((n / 2, n % 2 == 1)), format!("{got:?}"));
    }
    cx.max("longest list", n as U64);
}

pub fn c03() -> Vec<Stage> {
    use Facet::*;
    vec![
        stage("lists of known contents", LENGTHS.len() as U64 * 6, LENGTHS.len() as U64 * 100, |cx, i, mut rng| {
            long_lists(cx, LENGTHS[i as usize % LENGTHS.len()], &mut rng)
        }),
        stage("very long lists", HUGE.len() as U64, HUGE.len() as U64 * 4, |cx, i, mut rng| long_lists(cx, HUGE[i as usize % HUGE.len()], &mut rng)),
        super::deep::longest(6, 48),
        super::random("repetitions", 120_000, 2_500_000, Profile::repetition(), &[Accept, Value]),
        super::random("repetitions of nullable items", 40_000, 900_000, Profile::nullable(), &[Accept, Value]),
        super::small::tiny_patterns(&[Accept, Value], true),
        super::small::many_records(400, 10_000, &[Accept, Value]),
        super::small::far(400, 10_000, Profile::repetition(), &[Accept, Value]),
        super::deep::giving_back(15 * 5, 15 * 60),
        super::deep::regions(8 * 8, 8 * 80),
    ]
}

// ------------------------------------------------------------------ C11

/// Rule sets used several times in one grammar, as one instance or as several.
fn instances(cx: &mut Ctx, mut rng: Rng) {
    let p = Profile::rules().skin(&mut rng);
    let (mut g, mut rng2) = Gen::new(Rng::new(rng.next()), &p).grammar();
    g.share = rng.chance(60);
    let r = g.root.clone();
    g.root = match rng.below(8) {
        0 => Node::Seq(vec![r.clone(), Node::Lit(","), r]),
        1 => Node::Star(b(Node::Seq(vec![r, Node::Lit(";")]))),
        2 => Node::Alt(vec![Node::Seq(vec![r.clone(), Node::Lit("a")]), r]),
        3 => Node::RepSep(b(r.clone()), b(Node::Alt(vec![Node::Lit(","), Node::Str(b(r))]))),
        4 => Node::Lines(b(r)),
        5 => Node::Sections(b(Node::Line(b(Node::Opt(b(r)))))),
        6 => Node::Seq(vec![Node::Line(b(r.clone())), Node::Group(b(r))]),
        _ => {
            // a second rule set whose rule body holds the first one
            let k = g.rules.len();
            g.rules.push(Node::Alt(vec![Node::Seq(vec![Node::Lit("("), Node::Rule(k), r.clone(), Node::Lit(")")]), r]));
            Node::RuleSet(vec![k], b(Node::Plus(b(Node::Rule(k)))))
        }
    };
    super::model_case(cx, &g, Rng::new(rng2.next()), &p, &[Facet::Accept, Facet::Value], 8, 6_000);
}

#[derive(Clone, Debug, PartialEq)]
enum Sx {
    Num(U64),
    Sym(String),
    List(Vec<Sx>),
}
fn sx_text(s: &Sx, out: &mut String) {
    match s {
        Sx::Num(n) => out.push_str(&n.to_string()),
        Sx::Sym(s) => out.push_str(s),
        Sx::List(v) => {
            out.push('(');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(' ');
                }
                sx_text(x, out);
            }
            out.push(')');
        }
    }
}
fn sx_random(rng: &mut Rng, depth: usize) -> Sx {
    match if depth == 0 { rng.below(2) } else { rng.below(4) } {
        0 => Sx::Num(rng.next() >> rng.below(64)),
        1 => Sx::Sym((0..rng.range(1, 4)).map(|_| *rng.pick(&['a', 'b', 'z'])).collect()),
        _ => Sx::List((0..rng.below(5)).map(|_| sx_random(rng, depth - 1)).collect()),
    }
}
fn sx_parser() -> impl Parser<Output = Sx> {
    parser!(
        rule list: Vec<Sx> = "(" items:repeat_sep(item, " ") ")" => items;
        rule item: Sx = { n:num => Sx::Num(n), s:sym => Sx::Sym(s), l:list => Sx::List(l) };
        rule num: std::primitive::u64 = u64;
        rule sym: String = string(lower+);
        item
    )
}

enum Ast {
    Num(I64),
    Neg(Box<Ast>),
    Bin(Char, Box<Ast>, Box<Ast>),
}
impl Ast {
    fn random(rng: &mut Rng, depth: usize) -> Ast {
        match if depth == 0 { 0 } else { rng.below(5) } {
            0 | 1 => Ast::Num(rng.below(50) as I64),
            2 => Ast::Neg(Box::new(Ast::random(rng, depth - 1))),
            _ => Ast::Bin(*rng.pick(&['+', '-', '*']), Box::new(Ast::random(rng, depth - 1)), Box::new(Ast::random(rng, depth - 1))),
        }
    }
    fn value(&self) -> I64 {
        match self {
            Ast::Num(n) => *n,
            Ast::Neg(a) => a.value().wrapping_neg(),
            Ast::Bin('+', a, b) => a.value().wrapping_add(b.value()),
            Ast::Bin('-', a, b) => a.value().wrapping_sub(b.value()),
            Ast::Bin(_, a, b) => a.value().wrapping_mul(b.value()),
        }
    }
    /// precedence 0: sum, 1: product, 2: atom
    fn text(&self, prec: usize, rng: &mut Rng) -> String {
        let (p, s) = match self {
            Ast::Num(n) => (2, n.to_string()),
            Ast::Neg(a) => (2, format!("-{}", a.text(2, rng))),
            Ast::Bin('*', a, b) => (1, format!("{}*{}", a.text(1, rng), b.text(2, rng))),
            Ast::Bin(c, a, b) => (0, format!("{}{c}{}", a.text(0, rng), b.text(1, rng))),
        };
        if p < prec || rng.chance(5) {
            format!("({s})")
        } else {
            s
        }
    }
}
/// the rules in some other order, and split differently, but meaning the same
fn calc(variant: usize) -> Box<dyn Fn(&str) -> Lib<I64>> {
    fn fold_sum(a: I64, r: Vec<(usize, I64)>) -> I64 {
        r.into_iter().fold(a, |a, (s, x)| if s == 0 { a.wrapping_add(x) } else { a.wrapping_sub(x) })
    }
    fn fold_mul(a: I64, r: Vec<I64>) -> I64 {
        r.into_iter().fold(a, |a, x| a.wrapping_mul(x))
    }
    macro_rules! run {
        ($p:expr) => {{
            let p = $p;
            Box::new(move |s: &str| guard(|| p.parse(s)))
        }};
    }
    match variant % 4 {
        0 => run!(parser!(
            rule sum: I64 = a:product r:(char_of("+-") product)* => fold_sum(a, r);
            rule product: I64 = a:atom r:{"*" atom}* => fold_mul(a, r);
            rule atom: I64 = { i64_plain(), "(" s:sum ")" => s, "-" a:atom => a.wrapping_neg() };
            sum
        )),
        1 => run!(parser!(
            rule atom: I64 = { "-" a:atom => a.wrapping_neg(), "(" s:sum ")" => s, i64_plain() };
            rule sum: I64 = a:product r:(char_of("+-") product)* => fold_sum(a, r);
            rule product: I64 = v:repeat_sep(atom, "*") => fold_mul(1, v);
            sum
        )),
        2 => run!(parser!(
            rule product: I64 = v:repeat_sep(atom, '*') => fold_mul(1, v);
            rule op: usize = char_of("+-");
            rule tail: (usize, I64) = op product;
            rule atom: I64 = { number, parens, negated };
            rule negated: I64 = "-" a:atom => a.wrapping_neg();
            rule parens: I64 = "(" s:sum ")" => s;
            rule number: I64 = i64_plain();
            rule sum: I64 = a:product r:tail* => fold_sum(a, r);
            s:sum => s
        )),
        _ => {
            // the number rule is a rule set of its own, inside a rule of the other
            run!(parser!(
                rule sum: I64 = a:product r:(char_of("+-") product)* => fold_sum(a, r);
                rule product: I64 = a:atom r:{"*" atom}* => fold_mul(a, r);
                rule atom: I64 = { nested_number(), "(" s:sum ")" => s, "-" a:atom => a.wrapping_neg() };
                sum
            ))
        }
    }
}
fn i64_plain() -> impl Parser<Output = I64, RawOutput = (I64,)> {
    parser!(x:u64 => x as I64)
}
fn nested_number() -> impl Parser<Output = I64, RawOutput = (I64,)> {
    parser!(
        rule digits: I64 = { d:digit ds:more => d as I64 * 10i64.wrapping_pow(ds.1) + ds.0, d:digit => d as I64 };
        rule more: (I64, U32) = { d:digit ds:more => (d as I64 * 10i64.wrapping_pow(ds.1) + ds.0, ds.1 + 1), d:digit => (d as I64, 1) };
        digits
    )
}

fn typed_rules(cx: &mut Ctx, i: U64, mut rng: Rng) {
    cx.eval();
    let depth = rng.range(0, 7);
    if i % 2 == 0 {
        let s = sx_random(&mut rng, depth);
        let mut t = String::new();
        sx_text(&s, &mut t);
        cx.nontrivial(hash_str(&t));
        let p = sx_parser();
        let _ = guard(|| p.parse("(1 2"));
        let moved = Box::new(p);
        let got = guard(|| moved.parse(&t));
        if got != Lib::Match(s.clone()) {
            cx.violation(format!("nested lists by mutually recursive rules on {t:?}: got {}", short(&format!("{got:?}"))));
        }
        // two instances and a third one inside lines, in one parse
        let (p1, p2, p3) = (sx_parser(), sx_parser(), sx_parser());
        let p = parser!(a:line(p1) b:line(p2) c:lines({x:p3 => Some(x), "" => None}) => (a, b, c));
        let s2 = sx_random(&mut rng, 3);
        let mut t2 = String::new();
        sx_text(&s2, &mut t2);
        let text = format!("{t}\n{t2}\n{t2}\n\n{t}\n");
        let got = guard(|| p.parse(&text));
        let want = (s.clone(), s2.clone(), vec![Some(s2), None, Some(s.clone())]);
        if got != Lib::Match(want) {
            cx.violation(format!("three instances of one rule set on {}: got {}", short(&format!("{text:?}")), short(&format!("{got:?}"))));
        }
        let bad = gen::mutate(&t, &Profile { alphabet: vec!['(', ')', ' ', 'a', '1'], lits: vec!["(", ") ", "()"], ..Profile::rules() }, &mut rng);
        let got = guard(|| moved.parse(&bad));
        if let Lib::Match(v) = &got {
            let mut back = String::new();
            sx_text(v, &mut back);
            // numbers may have been written with leading zeros
            let canon = |s: &str| s.replace('0', "");
            if canon(&back) != canon(&bad) {
                cx.violation(format!("nested lists by rules accepted {bad:?} as {back:?}"));
            }
        }
        cx.count("typed rule sets: nested lists", 1);
    } else {
        let a = Ast::random(&mut rng, depth.min(5));
        let t = a.text(0, &mut rng);
        if t.len() > 3_000 {
            return;
        }
        cx.nontrivial(hash_str(&t));
        for v in 0..4 {
            let p = calc(v);
            let got = p(&t);
            if got != Lib::Match(a.value()) {
                cx.violation(format!("calculator rules, variant {v}, on {}: got {}, expected {}", short(&t), short(&format!("{got:?}")), a.value()));
            }
            let again = p(&t);
            if again != got {
                cx.violation(format!("calculator rules, variant {v}, second use on {}: got {}", short(&t), short(&format!("{again:?}"))));
            }
        }
        cx.count("typed rule sets: calculators", 4);
    }
}

fn deep_recursion(cx: &mut Ctx, i: U64) {
    let d = [1usize, 2, 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1500, 2000][(i % 17) as usize];
    cx.eval();
    cx.nontrivial(d as U64 + 17 * (i / 17));
    cx.max("deepest recursion through rules", d as U64);
    macro_rules! expect {
        ($what:expr, $p:expr, $text:expr, $want:expr) => {{
            let p = $p;
            let text: String = $text;
            let got = guard(|| p.parse(&text));
            if got != Lib::Match($want) {
                cx.violation(format!("{} at depth {d}: got {}", $what, short(&format!("{got:?}"))));
            }
        }};
    }
    macro_rules! refuse {
        ($what:expr, $p:expr, $text:expr, $loc:expr) => {{
            let p = $p;
            let text: String = $text;
            let got = guard(|| p.parse(&text));
            if !matches!(&got, Lib::Fail(e) if e.loc == $loc) {
                cx.violation(format!("{} at depth {d}: got {}, expected an error at byte {}", $what, short(&format!("{got:?}")), $loc));
            }
        }};
    }
    match i / 17 % 4 {
        0 => {
            let p = || parser!(rule r: usize = { "(" x:r ")" => x + 1, "" => 0 }; r);
            expect!("parentheses", p(), "(".repeat(d) + &")".repeat(d), d);
            refuse!("unbalanced parentheses", p(), "(".repeat(d) + &")".repeat(d + 1), 2 * d);
            refuse!("unclosed parentheses", p(), "(".repeat(d + 1) + &")".repeat(d), 2 * d + 1);
        }
        1 => {
            let p = || parser!(
                rule even: usize = { "a" n:odd => n + 1, "" => 0 };
                rule odd: usize = "a" n:even => n + 1;
                even
            );
            expect!("even and odd", p(), "a".repeat(2 * (d / 2)), 2 * (d / 2));
            refuse!("even and odd", p(), "a".repeat(2 * (d / 2) + 1), 2 * (d / 2) + 1);
        }
        2 => {
            let p = || parser!(
                rule a: usize = { "a" x:bb => x + 1, "." => 0 };
                rule c: usize = { "c" x:a => x + 1, "." => 0 };
                rule bb: usize = { "b" x:c => x + 1, "." => 0 };
                a
            );
            expect!("a cycle of three rules", p(), "abc".repeat(d / 3 + 1) + ".", 3 * (d / 3 + 1));
            refuse!("a cycle of three rules", p(), "abc".repeat(d / 3 + 1) + "b", 3 * (d / 3 + 1));
        }
        _ => {
            let p = || parser!(rule v: usize = { "[" xs:repeat_sep(v, ",") "]" => xs.into_iter().sum::<usize>(), x:digit => x }; v);
            expect!("nested brackets", p(), "[1,".repeat(d) + "2" + &"]".repeat(d), d + 2);
        }
    }
}

pub fn c11() -> Vec<Stage> {
    use Facet::*;
    vec![
        super::random("rules", 60_000, 1_500_000, Profile::rules(), &[Accept, Value]),
        stage("several rule sets and instances", 50_000, 1_200_000, |cx, _, rng| instances(cx, rng)),
        stage("typed rule sets", 3_000, 60_000, typed_rules),
        stage("deep recursion", 17 * 4, 17 * 4, |cx, i, _| deep_recursion(cx, i)),
        super::small::far(300, 6_000, Profile::rules(), &[Accept, Value]),
        super::deep::rule_uses(4 * 20, 4 * 200),
        super::deep::sets_apart(16 + 40, 16 + 300 + 2_000),
        super::deep::big_rule_sets(60, 2_000),
    ]
}

// ------------------------------------------------------------------ C12

/// Errors in big texts: location by construction, line and column counted independently.
fn positions(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let nlines = *rng.pick(&[0usize, 1, 2, 3, 10, 100, 255, 256, 257, 999, 1000]);
    let nlines = if i % 50 == 0 { *rng.pick(&[65_534usize, 65_535, 65_536, 65_537, 70_000]) } else { nlines };
    let ncols = *rng.pick(&[0usize, 1, 2, 5, 20, 79, 80, 255, 256, 257, 300]);
    let ncols = if i % 50 == 1 { *rng.pick(&[65_534usize, 65_535, 65_536, 70_000]) } else { ncols };
    let chars = ['a', 'é', '文', '😂', 'z', '\t', '\r', '\u{2028}', '\u{85}', '\u{301}', '\u{200d}', ' ', '\u{feff}', '\u{b}', '\0'];
    let word = |rng: &mut Rng, n: usize| (0..n).map(|_| *rng.pick(&chars)).collect::<String>();
    let mut text = String::new();
    for _ in 0..nlines {
        let n = rng.below(4);
        text.push_str(&word(&mut rng, n));
        text.push('\n');
    }
    text.push_str(&word(&mut rng, ncols));
    let at = text.len();
    let after = *rng.pick(&["", "#", "#\n", "#é\nx\n", "\n", "\n\n"]);
    text.push_str(after);
    let not_bad = chars;
    let set: &'static str = intern(&not_bad.iter().collect::<String>());
    let exp_line = nlines + 1;
    let exp_col = ncols + 1;
    let mut tried = vec![];
    if after.starts_with('#') {
        // the whole text but '#', in three ways
        let p = parser!({char_of(set), '\n' => 99}*);
        tried.push(("characters", guard(|| p.parse(&text).map(|_| ()))));
        if nlines < 2_000 {
            let p = parser!(lines(char_of(set)*));
            tried.push(("lines", guard(|| p.parse(&text).map(|_| ()))));
            let p = parser!(sections(lines(char_of(set)*)));
            if !text.contains("\n\n") && !text.starts_with('\n') {
                tried.push(("sections of lines", guard(|| p.parse(&text).map(|_| ()))));
            }
        }
    } else {
        // something is missing at the end of the last line or of the text
        let pre: &'static str = intern(&text[..at]);
        let p = parser!(pre '#');
        tried.push(("prefix", guard(|| p.parse(&text).map(|_| ()))));
    }
    for (how, got) in tried {
        cx.eval();
        cx.nontrivial(mix(hash_str(&text) ^ hash_str(how)));
        cx.max("line number of an error", exp_line as U64);
        cx.max("column of an error", exp_col as U64);
        match got {
            Lib::Fail(e) => {
                let suf = if at == text.len() { " at end of input".to_string() } else { format!(" at line {exp_line} column {exp_col}") };
                assert_eq!(suf, pos_suffix(&text, at));
                if e.loc != at || !e.display.ends_with(&suf) || e.source != text || !e.consistent {
                    cx.violation(format!("{how}: error {:?} (byte {}), expected byte {at},{suf}; text of {} bytes", short(&e.display), e.loc, text.len()));
                }
            }
            other => cx.violation(format!("{how}: {}, expected an error at byte {at}", short(&format!("{other:?}")))),
        }
    }
}

pub fn c12() -> Vec<Stage> {
    use Facet::*;
    const F: &[Facet] = &[ErrLoc, ErrSrc, ErrPos];
    vec![
        super::random("errors", 120_000, 2_500_000, Profile::errors(), F),
        super::random("regions", 40_000, 900_000, Profile::sections(), F),
        super::random("rules", 15_000, 400_000, Profile::rules(), F),
        super::random("numbers", 15_000, 400_000, Profile::numbers(), F),
        super::small::tiny_patterns(F, false),
        super::small::tiny_regions(F, true),
        super::small::tiny_regions(F, false),
        super::small::far(500, 12_000, Profile::errors(), F),
        super::small::many_records(400, 10_000, F),
        stage("lines and columns", 1_500, 30_000, positions),
        super::deep::places(4 * 60, 4 * 600, false),
    ]
}

pub fn c20() -> Vec<Stage> {
    use Facet::*;
    const F: &[Facet] = &[ErrMsg];
    vec![
        super::random("errors", 300_000, 2_500_000, Profile::errors(), F),
        super::random("regions", 120_000, 900_000, Profile::sections(), F),
        super::random("numbers", 60_000, 1_300_000, Profile::numbers(), F),
        super::random("rules", 40_000, 400_000, Profile::rules(), F),
        super::random("strings", 40_000, 400_000, Profile::strings(), F),
        super::small::tiny_patterns(F, false),
        super::small::tiny_regions(F, true),
        super::small::tiny_regions(F, false),
        stage("every leaf on single characters", 1, 1, |cx, _, _| leaves(cx)),
        super::small::many_records(300, 8_000, F),
        super::small::far(300, 6_000, Profile::errors(), F),
        super::deep::places(4 * 60, 4 * 600, false),
        stage("messages with long tokens and options", 200, 4_000, long_messages),
    ]
}

/// Long tokens that cannot be converted and long option lists are named in full.
fn long_messages(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let len = rng.range(50, 400);
    let len = *rng.pick(&[len, 64, 65, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 1_000, 1_025, 4_097, 5_001, 66_000]);
    if i % 2 == 0 {
        let digits = gen::digits(2, len, &mut rng).replacen('0', "1", 1);
        let sign = *rng.pick(&["", "-"]);
        let numbers: Vec<String> = vec![format!("1{digits}"), format!("{sign}1{digits}"), format!("{sign}{}1{digits}", "0".repeat(len / 2))];
        for (n, t) in [("u8", &numbers[0]), ("u64_hex", &numbers[0]), ("u128", &numbers[0]), ("i32", &numbers[1]), ("i64_bin", &numbers[2]), ("i8", &numbers[2])] {
            if let Some(f) = crate::nums::ALL.iter().find(|f| f.0 == n) {
                cx.max("longest token quoted", t.len() as U64);
                let g = Grammar::of(Node::Seq(vec![Node::Lit("k"), Node::Num(f.0)]));
                model_texts(cx, &g, [format!("k{t}")].iter().map(|s| s.as_str()), &[Facet::ErrMsg], 2_000);
            }
        }
    } else {
        let options: String = (0..len.min(5_001)).map(|_| char::from_u32(rng.range(0x21, 0x3000) as u32).unwrap_or('a')).filter(|c| *c != '\u{20}').collect();
        let options = intern(&options);
        cx.max("longest list of options named", options.len() as U64);
        for n in [Node::CharOf(options), Node::Lit(options)] {
            let g = Grammar::of(Node::Seq(vec![Node::Lit("k"), n]));
            model_texts(cx, &g, ["k ", "k"].into_iter(), &[Facet::ErrMsg], 2_000);
        }
    }
}

/// Every built-in leaf against texts on which it fails in every way it can.
fn leaves(cx: &mut Ctx) {
    let mut nodes: Vec<Node> = Cls::ALL.iter().map(|c| Node::Class(*c)).collect();
    nodes.extend(crate::nums::ALL.iter().map(|x| Node::Num(x.0)));
    nodes.extend(["a", "ab", "é", "\n", "\"", "\\", "'", "", "a\tb", "😂"].map(Node::Lit));
    nodes.extend(['a', 'é', '\n', '"', '\'', '\\', '\0', '😂', '\u{301}'].map(Node::Chr));
    nodes.extend(["ab", "\"'", "é\n", "", "\\"].map(Node::CharOf));
    let texts = [
        "", "a", "ab", "A", "é", "\n", "1", "12", "256", "-1", "-129", "+", "-", "+-1", "99999999999999999999999999999999999999999", "fffffffffffffffffffffffffffffffffffff",
        "2", "1x", "x1", "true!", "tru", "1.5.", "nanx", "\"", "'", "\\", "\0", " 1", "1 ", "\u{301}", "😂", "1_000", "0x1f", "٣", "11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111",
    ];
    for n in &nodes {
        for g in [
            Grammar::of(n.clone()),
            Grammar::of(Node::Seq(vec![Node::Lit("k"), n.clone()])),
            Grammar::of(Node::Lines(b(n.clone()))),
            Grammar::of(Node::Alt(vec![n.clone(), Node::Seq(vec![n.clone(), Node::Lit("!")])])),
            Grammar::of(Node::Sections(b(Node::Seq(vec![n.clone(), n.clone()])))),
        ] {
            let pre = if matches!(g.root, Node::Seq(_)) { "k" } else { "" };
            let ts: Vec<String> = texts.iter().map(|t| format!("{pre}{t}")).collect();
            model_texts(cx, &g, ts.iter().map(|s| s.as_str()), &[Facet::ErrMsg], 2_000);
        }
    }
}

// ------------------------------------------------------------------ C13

fn hostile(rng: &mut Rng) -> String {
    let pool = [
        "\0", "\n", "\r", "\r\n", "\n\n", "\n\n\n", "é", "😂", "\u{10ffff}", "\u{feff}", "\u{301}", "\u{200d}", "ß", "İ", "ŉ", "٣", "½", "𝟗", "\u{85}", "\u{2028}", "\u{7f}", "a", "1",
        "-", "+", ".", "e", "E", "inf", "nan", "0x", "9", "99999999999999999999999999999999999999999", "1e999999999999999999999", "-0", "true", "false", "(", ")", ",", "{", "\"", "\\",
        "ffffffffffffffffffffffffffffffffffffffff", "1010", " ", "\t", "_",
    ];
    let n = rng.below(7);
    let mut s = String::new();
    for _ in 0..n {
        let x = *rng.pick(&pool);
        let k = if rng.chance(4) { *rng.pick(&[64usize, 300, 900]) } else { rng.range(1, 2) };
        for _ in 0..k {
            s.push_str(x);
        }
    }
    s
}

fn hostile_case(cx: &mut Ctx, i: U64, rng: Rng) {
    let p = match i % 5 {
        0 => Profile::general(),
        1 => Profile::sections(),
        2 => Profile::numbers(),
        3 => Profile::rules(),
        _ => Profile::nullable(),
    };
    let mut rng = rng;
    let p = p.skin(&mut rng);
    let (g, mut rng) = Gen::new(rng, &p).grammar();
    let name = g.text();
    let gh = hash_str(&name);
    let parser = match engine::build(&g) {
        Ok(p) => p,
        Err(e) => return cx.violation(format!("building {name} panicked: {e}")),
    };
    let mut ts: Vec<String> = (0..6).map(|_| hostile(&mut rng)).collect();
    ts.extend(gen::texts(&g, &p, &mut rng, 4));
    // glue hostile text to a text that matches
    let d = gen::derive(&g, &p, &mut rng, 30);
    ts.push(format!("{d}{}", hostile(&mut rng)));
    ts.push(format!("{}{d}", hostile(&mut rng)));
    for t in &ts {
        let (lib, mon) = engine::run_lib(&parser, t, 40_000);
        cx.eval();
        cx.count("subpattern attempts monitored", mon.steps);
        if !t.is_empty() {
            cx.nontrivial(mix(gh ^ hash_str(t)));
        }
        match &lib {
            Lib::Panic(m) => cx.violation(format!("pattern {name} on {}: panicked: {m}", short(&format!("{t:?}")))),
            Lib::Match(_) => cx.count("texts that match", 1),
            Lib::Fail(e) => {
                cx.count("errors displayed, debug-printed and cloned", 1);
                cx.seen("distinct error messages", hash_str(&e.display));
                if e.loc > t.len() || !t.is_char_boundary(e.loc) || !e.consistent {
                    cx.violation(format!("pattern {name} on {}: unusable error {:?}", short(&format!("{t:?}")), short(&e.display)));
                }
            }
            Lib::OverBudget => cx.count("parses stopped for their size", 1),
        }
    }
}

fn built_ins(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let fns = super::numbers::all();
    let f = &fns[i as usize % fns.len()];
    let big = i as usize / fns.len() % 8 == 0;
    for _ in 0..12 {
        let mut t = String::new();
        if rng.chance(60) {
            t.push_str(*rng.pick(&["", "-", "+", "0", "--", "+-", "-0"]));
        }
        let n = if big { *rng.pick(&[1_000usize, 5_000]) } else { rng.below(80) };
        match rng.below(4) {
            0 => t.push_str(&gen::digits(10, n, &mut rng)),
            1 => t.push_str(&gen::digits(16, n, &mut rng)),
            2 => t.push_str(&gen::digits(2, n, &mut rng)),
            _ => t.push_str(&gen::float_text(&mut rng)),
        }
        if rng.chance(30) {
            t.push_str(&hostile(&mut rng));
        }
        cx.eval();
        cx.nontrivial(hash_str(&t) ^ hash_str(f.name));
        cx.max("longest numeral", t.len() as U64);
        if let Lib::Panic(m) = (f.alone)(&t) {
            cx.violation(format!("{} on {} panicked: {m}", f.name, short(&format!("{t:?}"))));
        }
    }
}

/// Big texts through ordinary patterns.
fn big_texts(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let n = [6_000usize, 100_000, 300_000][(i % 3) as usize];
    let unit = *rng.pick(&["a", "é", "\n", "1\n", "12,34\n", "a\n\n", "x 😂\n", "1 ", "\r\n", "\n\na\n"]);
    let mut t = unit.repeat(n / unit.len());
    if rng.chance(50) {
        t.push_str(*rng.pick(&["", "#", "é", "\n", "99999999999999999999999"]));
    }
    macro_rules! go {
        ($([$($p:tt)*])*) => { $(
            let p = parser!($($p)*);
            let got = guard(|| p.parse(&t).map(drop));
            cx.eval();
            cx.nontrivial(mix(hash_str(&t) ^ hash_str(stringify!($($p)*))));
            if let Lib::Panic(m) = got {
                cx.violation(format!("parser!({}) on {unit:?} repeated to {} bytes panicked: {m}", stringify!($($p)*), t.len()));
            }
        )* };
    }
    cx.max("longest text", t.len() as U64);
    // patterns that stop early on a mismatch, and ones that do not; the library copies the text
    // for every error it reports, so patterns that fail at every item are kept to small texts
    go!([any_char*] [string(any_char*)] [{'a' => 'a', 'é' => 'e', '\n' => 'n', any_char}+] [any_char+ any_char]);
    if n <= 10_000 {
        go!([any_char* "#"] [lines(any_char*)] [sections(lines(string(any_char+)))] [lines(repeat_sep(u64, ","))] [line(u64)* any_char*] [repeat_sep(any_char*, "\n")]
            [repeat_sep(any_char, "")] [(alnum ' '?)* any_char?] [section(any_char*) any_char*] [lines({u64 => 1, string(any_char*) => 2})]);
    }
}

pub fn c13() -> Vec<Stage> {
    vec![
        stage("hostile texts", 60_000, 1_500_000, hostile_case),
        stage("numerals of any magnitude", 44 * 60, 44 * 1_000, built_ins),
        stage("big texts", 24, 240, big_texts),
        super::deep::places(4 * 60, 4 * 600, true),
        super::small::tiny_patterns(&[Facet::Panic], false),
        super::small::tiny_regions(&[Facet::Panic], true),
        stage("every leaf on single characters", 1, 1, |cx, _, _| {
            let before = cx.violations.len();
            leaves_panic(cx);
            cx.count("leaf texts that panicked", (cx.violations.len() - before) as U64);
        }),
    ]
}

fn leaves_panic(cx: &mut Ctx) {
    let mut nodes: Vec<Node> = Cls::ALL.iter().map(|c| Node::Class(*c)).collect();
    nodes.extend(crate::nums::ALL.iter().map(|x| Node::Num(x.0)));
    nodes.push(Node::CharOf("aé"));
    // one character of every UTF-8 length and every boundary, in every position of a short text
    let cs = ['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'a', '1', '\n', '-', '+'];
    let mut texts = vec![];
    for a in cs {
        texts.push(a.to_string());
        for c in cs {
            texts.push(format!("{a}{c}"));
            texts.push(format!("1{a}{c}"));
        }
    }
    for n in nodes {
        for g in [Grammar::of(n.clone()), Grammar::of(Node::Line(b(Node::Star(b(n.clone()))))), Grammar::of(Node::RepSep(b(n.clone()), b(Node::Class(Cls::Any))))] {
            model_texts(cx, &g, texts.iter().map(|s| s.as_str()), &[Facet::Panic], 2_000);
        }
    }
}

// ------------------------------------------------------------------ C14

fn tight(s: &model::Stats) -> U64 {
    (s.steps + s.retries) * 4 + 200
}

fn effort(cx: &mut Ctx, i: U64, rng: Rng) {
    let p = match i % 6 {
        0..=2 => Profile::nullable(),
        3 => Profile::repetition(),
        4 => Profile::sections(),
        _ => Profile::rules(),
    };
    let mut rng = rng;
    let p = p.skin(&mut rng);
    let (g, mut rng) = Gen::new(rng, &p).grammar();
    let texts = gen::texts(&g, &p, &mut rng, 8);
    effort_texts(cx, &g, texts.iter().map(|s| s.as_str()));
}

fn effort_texts<'a>(cx: &mut Ctx, g: &Grammar, texts: impl Iterator<Item = &'a str>) {
    let name = g.text();
    let gh = hash_str(&name);
    let Ok(parser) = engine::build(g) else { return };
    cx.count("patterns", 1);
    for t in texts {
        let o = engine::check_budget(g, &parser, t, 12_000, tight);
        observe(cx, &o, gh, &name, t);
        if o.model != Outcome::OutOfFuel {
            let need = o.stats.steps + o.stats.retries;
            cx.max("attempts per 100 of an ordinary search (only searches over 500)", if need > 500 { (o.mon.steps + o.mon.retries) * 100 / need } else { 0 });
        }
        for (f, what) in &o.diffs {
            if *f == Facet::Budget {
                cx.violation(format!("pattern {name} on {t:?}: {what}"));
            }
        }
    }
}

/// Unambiguous records: attempts must grow in proportion.
fn growth(cx: &mut Ctx, i: U64, mut rng: Rng) {
    let word = || Node::Plus(b(Node::Class(Cls::Lower)));
    let rec = match i % 8 {
        0 => Node::Seq(vec![Node::Num("u64"), Node::Lit("x"), Node::Num("i32")]),
        1 => Node::RepSep(b(Node::Num("u8")), b(Node::Lit(" "))),
        2 => Node::Alt(vec![Node::Conv(1, vec![Node::Lit("add "), Node::Num("i8")]), Node::Conv(2, vec![Node::Lit("nop")]), Node::Conv(3, vec![Node::Lit("jmp "), word()])]),
        3 => Node::Str(b(Node::Star(b(Node::Class(Cls::Alnum))))),
        4 => Node::Conv(3, vec![word(), Node::Lit(": "), Node::Opt(b(Node::Num("u16")))]),
        5 => Node::Seq(vec![Node::Lit("<"), Node::RepSep(b(Node::Alt(vec![Node::Num("i64"), word()])), b(Node::Lit(","))), Node::Lit(">")]),
        6 => Node::Plus(b(Node::Seq(vec![Node::Class(Cls::Upper), Node::Star(b(Node::Class(Cls::Digit)))]))),
        _ => Node::Group(b(Node::Multi(9, vec!["abc", "abd", "b"]))),
    };
    let p = Profile { nums: vec!["u8"], ..Profile::general() };
    let rg = Grammar::of(rec.clone());
    let mut one = || -> String {
        for _ in 0..200 {
            let t = match i % 8 {
                0 => format!("{}x{}", rng.below(1000), rng.below(1000)),
                1 => (0..rng.range(1, 4)).map(|_| rng.below(256).to_string()).collect::<Vec<_>>().join(" "),
                4 => format!("ab: {}", rng.below(1000)),
                _ => gen::derive(&rg, &p, &mut rng, 10),
            };
            if !t.is_empty() && matches!(model::run(&rg, &t, false, 2_000).0, Outcome::Match { .. }) && !t.contains('\n') {
                return t;
            }
        }
        "q".into()
    };
    let shape = i / 8 % 6;
    let root = match shape {
        0 => Node::Lines(b(rec)),
        1 => Node::Star(b(Node::Line(b(rec)))),
        2 => Node::RepSep(b(rec), b(Node::Lit(";"))),
        3 => Node::Sections(b(Node::Lines(b(rec)))),
        4 => Node::Star(b(Node::Seq(vec![rec, Node::Lit(";")]))),
        _ => Node::Seq(vec![Node::Section(b(Node::Lines(b(rec.clone())))), Node::Section(b(Node::Lines(b(rec))))]),
    };
    let g = Grammar::of(root);
    let name = g.text();
    let Ok(parser) = engine::build(&g) else { return };
    let recs: Vec<String> = (0..16).map(|_| one()).collect();
    let text = |n: usize| -> String {
        let mut s = String::new();
        for k in 0..n {
            let r = &recs[k % 16];
            match shape {
                0 | 1 => s.push_str(&format!("{r}\n")),
                2 => s.push_str(&format!("{}{r}", if k > 0 { ";" } else { "" })),
                3 => s.push_str(&format!("{r}\n{}", if k % 3 == 2 { "\n" } else { "" })),
                4 => s.push_str(&format!("{r};")),
                _ => s.push_str(&format!("{r}\n{}", if k == n / 2 { "\n" } else { "" })),
            }
        }
        s
    };
    let (mut per, mut bytes) = (vec![], vec![]);
    let far = rng.chance(50);
    for n in [16usize, 64, 256, 1024, 4096, 16_384] {
        if n > 1024 && !far {
            break;
        }
        let t = text(n);
        let before = crate::watch::live();
        crate::watch::reset_peak();
        let (lib, mon) = engine::run_lib(&parser, &t, 3_000 * n as U64);
        bytes.push((crate::watch::peak() - before) as f64 / n as f64);
        cx.eval();
        cx.max("records in one text", n as U64);
        cx.nontrivial(mix(hash_str(&t) ^ hash_str(&name)));
        match lib {
            Lib::Match(_) => {}
            Lib::OverBudget => {
                cx.violation(format!("pattern {name}: more than 3000 attempts per record for {n} records ({} bytes)", t.len()));
                return;
            }
            // not a record list after all; the reference comparison deals with that
            _ => return cx.count("record lists that did not match", 1),
        }
        per.push((mon.steps + mon.retries) as f64 / n as f64);
    }
    cx.count("record lists measured at four sizes", 1);
    cx.max("most attempts per record", per[3] as U64);
    // allow a constant number of attempts extra and a factor of 2
    if per[3..].iter().any(|x| *x > 2.0 * per[0] + 10.0) {
        cx.violation(format!("pattern {name}: attempts per record grow with the number of records: {per:?} for 16, 64, 256, 1024, ... records"));
    }
    cx.max("most bytes in use per record", bytes[3] as U64);
    // lists grow by doubling, which is a factor of 3 at worst
    if bytes[3..].iter().any(|x| *x > 4.0 * bytes[2] + 200.0) {
        cx.violation(format!("pattern {name}: memory in use per record grows with the number of records: {bytes:?} bytes for 16, 64, 256, 1024, ... records"));
    }
    // a spoilt record: a bounded number of restarts, not one per record
    let mut t = text(512);
    t.push('#');
    let (m, stats) = model::run(&g, &t, false, 400_000);
    if m != Outcome::OutOfFuel {
        let before = crate::watch::live();
        crate::watch::reset_peak();
        let (lib, mon) = engine::run_lib(&parser, &t, tight(&stats));
        let used = (crate::watch::peak() - before) as f64 / 512.0;
        cx.eval();
        if used > 4.0 * bytes[2] + 400.0 {
            cx.violation(format!("pattern {name} on 512 records and a stray character: {used} bytes in use per record, without the stray character {bytes:?} at 16, 64, 256, 1024 records"));
        }
        if lib == Lib::OverBudget {
            cx.violation(format!("pattern {name} on 512 records and a stray character: over {} attempts, an ordinary search needs {}", mon.steps + mon.retries, stats.steps + stats.retries));
        }
    }
}

/// Nullable things inside repetitions, written directly (no monitors in between).
fn direct_nullable(cx: &mut Ctx) {
    let texts = ["", "a", "aa", "aaa", "ab", "b", "\n", "a\n", "\n\n", "a\n\n", "aaaaaaaab", ",", "a,,a", "1", " ", "   b"];
    macro_rules! go {
        ($([$($p:tt)*])*) => { $( {
            let p = parser!($($p)*);
            for t in texts {
                cx.eval();
                cx.nontrivial(hash_str(t) ^ hash_str(stringify!($($p)*)));
                // the watchdog ends this process if it does not return
                let _ = guard(|| p.parse(t).map(drop));
                cx.count("direct nullable patterns that returned", 1);
            }
        } )* };
    }
    go!(
        [""*] [""+] ["a"?*] [{"a", ""}*] [("a"*)*] [("a"*)+ "b"] [("a"? "a"?)*] [repeat_sep("", "")] [repeat_sep("a"?, "")] [repeat_sep("a"*, ","?)]
        [repeat_sep("", "a"?)] [(""*)*] [((""?)+)*] [repeat_sep(""*, ""*)] [string("a"*)*] [lines("")*] [lines("a"?)*] [sections("")*] [sections(lines("a"?))*]
        [(line("")* "a"?)*] [{repeat_sep("a", ","), "" => vec![]}*] [(" "* {_a:alpha* => (), _d:digit? => ()})*] [(() ())*] [()*] [()+] [(()*)? ()*] [(_s:string("") => 1)*]
        [(section("")?)*] [(line("a")?)+] [rule r: () = { "a" r => (), "" => () }; r*] [rule r: usize = v:(s*) => v.len(); rule s: usize = { "a" => 1, "" => 0 }; r*]
    );
    let m = |opts: Vec<&'static str>| dynp::MultiP { id: 1, opts };
    for t in texts {
        for opts in [vec!["", "a"], vec!["a", ""], vec!["", ""], vec!["", "", "a", ""], vec!["aa", "", "a"]] {
            dynp::mon_reset(t, 200_000);
            let a = m(opts.clone());
            let c = m(opts.clone());
            let p = parser!(repeat_sep(a, c));
            cx.eval();
            let _ = guard(|| p.parse(t).map(drop));
            let a = m(opts.clone());
            let p = parser!((a)* "b");
            cx.eval();
            let _ = guard(|| p.parse(t).map(drop));
            cx.count("direct nullable patterns that returned", 2);
            dynp::mon_take();
        }
    }
}

pub fn c14() -> Vec<Stage> {
    vec![
        stage("nullable repetitions written directly", 1, 1, |cx, _, _| direct_nullable(cx)),
        stage("effort on random patterns", 150_000, 3_500_000, effort),
        stage("growth with the number of records", 8 * 6 * 4, 8 * 6 * 60, growth),
        super::small::tiny_patterns(&[Facet::Budget], false),
        super::small::tiny_regions(&[Facet::Budget], true),
    ]
}

// ------------------------------------------------------------------ C19

pub fn multi_profile() -> Profile {
    let mut p = Profile::general();
    p.w.multi = 70;
    p.w.num = 1;
    p.w.class = 3;
    p.w.string = 5;
    p.w.line = 4;
    p.w.lines = 4;
    p.rules_root = 12;
    p.lits = vec!["a", "b", "ab", "aa", "ba", "é", "aé", "", "\n", "a\n", "aab", "😂"];
    p
}

pub fn c19() -> Vec<Stage> {
    use Facet::*;
    const F: &[Facet] = &[Protocol, Accept, Value, Events];
    vec![
        super::random("user parsers with several matches everywhere", 150_000, 3_500_000, multi_profile(), F),
        super::random("monitored built-ins", 50_000, 1_200_000, Profile::sections(), &[Protocol]),
        super::random("monitored built-ins in rules", 20_000, 500_000, Profile::rules(), &[Protocol]),
        super::random("monitored repetitions", 30_000, 700_000, Profile::nullable(), &[Protocol]),
        super::small::tiny_patterns(F, false),
        super::small::tiny_regions(&[Protocol], true),
        super::small::tiny_regions(&[Protocol], false),
        super::small::far(300, 6_000, multi_profile(), F),
        super::deep::offers(30, 300),
        super::deep::squared(40, 1_000),
    ]
}

// ------------------------------------------------------------------ C22

/// One rewriting at a random place; None if this place does not allow it.
fn rewrite(n: &Node, g: &Grammar, rng: &mut Rng) -> Node {
    let k = Node::clone;
    match n {
        Node::Seq(xs) if xs.len() > 2 && rng.chance(70) => {
            let i = rng.range(1, xs.len() - 1);
            let part = |ys: &[Node]| if ys.len() == 1 { ys[0].clone() } else { Node::Seq(ys.to_vec()) };
            Node::Seq(vec![part(&xs[..i]), part(&xs[i..])])
        }
        Node::Seq(xs) if xs.len() == 2 && rng.chance(50) => {
            // (a (b c)) -> ((a b) c) and back
            match (&xs[0], &xs[1]) {
                (a, Node::Seq(ys)) if ys.len() == 2 => Node::Seq(vec![Node::Seq(vec![k(a), k(&ys[0])]), k(&ys[1])]),
                (Node::Seq(ys), c) if ys.len() == 2 => Node::Seq(vec![k(&ys[0]), Node::Seq(vec![k(&ys[1]), k(c)])]),
                _ => Node::Seq(vec![k(&xs[0]), Node::Empty, k(&xs[1])]),
            }
        }
        Node::Alt(xs) if xs.len() > 2 && rng.chance(70) => {
            let i = rng.range(1, xs.len() - 1);
            let part = |ys: &[Node]| if ys.len() == 1 { ys[0].clone() } else { Node::Alt(ys.to_vec()) };
            Node::Alt(vec![part(&xs[..i]), part(&xs[i..])])
        }
        Node::Alt(xs) if xs.len() == 1 && rng.chance(50) => k(&xs[0]),
        Node::Lines(x) if rng.chance(70) => Node::Star(b(Node::Line(x.clone()))),
        Node::Sections(x) if rng.chance(70) => Node::Star(b(Node::Section(x.clone()))),
        Node::Star(x) => match &**x {
            Node::Line(y) => Node::Lines(y.clone()),
            Node::Section(y) => Node::Sections(y.clone()),
            _ => Node::Group(b(k(n))),
        },
        Node::Group(x) if rng.chance(50) => k(x),
        Node::RuleSet(ids, e) if ids.iter().all(|i| !mentions(&g.rules[*i], ids)) && rng.chance(70) => inline(e, ids, g),
        _ => match rng.below(4) {
            0 => Node::Group(b(k(n))),
            1 => Node::Alt(vec![k(n)]),
            _ => Node::Via(*rng.pick(&Via::ALL), b(k(n))),
        },
    }
}
fn kids(n: &Node) -> Vec<&Node> {
    match n {
        Node::Seq(xs) | Node::Conv(_, xs) | Node::TConv(xs, ..) | Node::Alt(xs) => xs.iter().collect(),
        Node::Group(x) | Node::Via(_, x) | Node::Star(x) | Node::Plus(x) | Node::Opt(x) | Node::Str(x) | Node::Line(x) | Node::Lines(x) | Node::Section(x) | Node::Sections(x) => vec![x],
        Node::RepSep(a, c) => vec![a, c],
        Node::RuleSet(_, e) => vec![e],
        _ => vec![],
    }
}
fn with_kids(n: &Node, mut f: impl FnMut(&Node) -> Node) -> Node {
    let mut v = |xs: &[Node]| xs.iter().map(&mut f).collect::<Vec<_>>();
    match n {
        Node::Seq(xs) => Node::Seq(v(xs)),
        Node::Conv(i, xs) => Node::Conv(*i, v(xs)),
        Node::TConv(xs, l, e) => Node::TConv(v(xs), l.clone(), e.clone()),
        Node::Alt(xs) => Node::Alt(v(xs)),
        Node::Group(x) => Node::Group(b(f(x))),
        Node::Via(i, x) => Node::Via(*i, b(f(x))),
        Node::Star(x) => Node::Star(b(f(x))),
        Node::Plus(x) => Node::Plus(b(f(x))),
        Node::Opt(x) => Node::Opt(b(f(x))),
        Node::Str(x) => Node::Str(b(f(x))),
        Node::Line(x) => Node::Line(b(f(x))),
        Node::Lines(x) => Node::Lines(b(f(x))),
        Node::Section(x) => Node::Section(b(f(x))),
        Node::Sections(x) => Node::Sections(b(f(x))),
        Node::RepSep(a, c) => Node::RepSep(b(f(a)), b(f(c))),
        Node::RuleSet(i, e) => Node::RuleSet(i.clone(), b(f(e))),
        leaf => leaf.clone(),
    }
}
fn mentions(n: &Node, ids: &[usize]) -> Bool {
    matches!(n, Node::Rule(i) if ids.contains(i)) || matches!(n, Node::RuleSet(..)) || kids(n).into_iter().any(|x| mentions(x, ids))
}
fn inline(n: &Node, ids: &[usize], g: &Grammar) -> Node {
    match n {
        Node::Rule(i) if ids.contains(i) => g.rules[*i].clone(),
        _ => with_kids(n, |x| inline(x, ids, g)),
    }
}
fn count(n: &Node) -> usize {
    1 + kids(n).into_iter().map(count).sum::<usize>()
}
fn at(n: &Node, target: &mut usize, g: &Grammar, rng: &mut Rng) -> Node {
    if *target == 0 {
        *target = usize::MAX;
        return rewrite(n, g, rng);
    }
    *target -= 1;
    with_kids(n, |x| at(x, target, g, rng))
}

/// values up to grouping
fn flat(v: &V) -> V {
    fn go(v: &V, out: &mut Vec<V>) {
        match v {
            V::Tup(xs) => xs.iter().for_each(|x| go(x, out)),
            V::Unit => {}
            V::List(xs) => out.push(V::List(xs.iter().map(flat).collect())),
            V::Opt(x) => out.push(V::Opt(x.as_ref().map(|x| b2(flat(x))))),
            V::Conv(i, xs) => out.push(V::Conv(*i, xs.iter().map(flat).collect())),
            other => out.push(other.clone()),
        }
    }
    fn b2(v: V) -> Box<V> {
        Box::new(v)
    }
    let mut out = vec![];
    go(v, &mut out);
    V::Tup(out)
}

fn rewritten(cx: &mut Ctx, i: U64, rng: Rng) {
    let p = match i % 5 {
        0 | 1 => Profile::general(),
        2 => Profile::sections(),
        3 => Profile::rules(),
        _ => Profile::repetition(),
    };
    let mut rng = rng;
    let p = p.skin(&mut rng);
    let (g, mut rng) = Gen::new(rng, &p).grammar();
    let mut h = g.clone();
    for _ in 0..rng.range(1, 5) {
        // the entry pattern or the body of a rule
        let which = rng.below(h.rules.len() + 1);
        let n = if which == 0 { h.root.clone() } else { h.rules[which - 1].clone() };
        let mut t = rng.below(count(&n));
        let m = at(&n, &mut t, &h, &mut rng);
        if which == 0 {
            h.root = m
        } else {
            h.rules[which - 1] = m
        }
    }
    let (gn, hn) = (g.text(), h.text());
    if gn == hn {
        return;
    }
    let (Ok(p1), Ok(p2)) = (engine::build(&g), engine::build(&h)) else { return };
    cx.count("pairs of patterns", 1);
    cx.seen("distinct pairs of patterns", mix(hash_str(&gn) ^ mix(hash_str(&hn))));
    for t in gen::texts(&g, &p, &mut rng, 8) {
        let (l1, m1) = engine::run_lib(&p1, &t, 30_000);
        let (l2, m2) = engine::run_lib(&p2, &t, 150_000);
        cx.eval();
        if rng.chance(25) {
            // the same parser, handed the text in every way a program can
            for (way, name) in engine::WAYS.iter().enumerate() {
                let (l, m) = engine::run_lib_way(&p1, &t, 30_000, way);
                cx.count("other ways to call a parser compared", 1);
                let sorted = |m: &dynp::Mon| {
                    let mut v = m.events.clone();
                    v.sort();
                    v
                };
                if l != l1 && !matches!((&l, &l1), (Lib::Panic(_), Lib::Panic(_))) || l == l1 && sorted(&m) != sorted(&m1) {
                    cx.violation(format!("on {t:?}: pattern {gn} gives {}; called as {name} it gives {}", short(&format!("{l1:?}")), short(&format!("{l:?}"))));
                }
            }
        }
        cx.count("subpattern attempts monitored", m1.steps + m2.steps);
        cx.count("backtracks answered with another match", m1.retries_ok + m2.retries_ok);
        let ok = match (&l1, &l2) {
            (Lib::OverBudget, _) => {
                cx.count("parses stopped for their size (not compared)", 1);
                true
            }
            (Lib::Match(a), Lib::Match(c)) => {
                cx.count("texts that match both", 1);
                cx.nontrivial(mix(hash_str(&hn) ^ hash_str(&t)));
                let ev = |m: &dynp::Mon| {
                    let mut v: Vec<U32> = m.events.iter().map(|e| e.0).collect();
                    v.sort();
                    v
                };
                flat(a) == flat(c) && ev(&m1) == ev(&m2)
            }
            (Lib::Fail(a), Lib::Fail(c)) => {
                cx.count("texts that fail both", 1);
                if a.loc > 0 {
                    cx.nontrivial(mix(hash_str(&hn) ^ hash_str(&t)));
                }
                a.loc == c.loc && pos_suffix(&t, a.loc) == pos_suffix(&t, c.loc) && c.source == t
            }
            (Lib::Panic(_), Lib::Panic(_)) => true,
            _ => false,
        };
        if !ok {
            cx.violation(format!("on {t:?}: pattern {gn} gives {}; rewritten as {hn} it gives {}", short(&format!("{l1:?}")), short(&format!("{l2:?}"))));
        }
    }
}

/// The same pattern written in place, stored first, passed through functions, borrowed, grouped.
fn routes(cx: &mut Ctx, _: U64, mut rng: Rng) {
    fn id<P: Parser>(p: P) -> P {
        p
    }
    fn opaque<P: Parser>(p: P) -> impl Parser<Output = P::Output, RawOutput = P::RawOutput> {
        p
    }
    fn raw_of<P: Parser>(p: P, t: &str) -> Result<P::RawOutput, aoc_parse::ParseError> {
        p.parse_raw(t)
    }
    // a value alone is kept as a tuple of one
    fn user(s: String) -> String {
        match s.strip_suffix(",)") {
            Some(r) => r[1..].to_string(),
            None => s,
        }
    }
    let alphabet = ['a', 'b', '1', '2', ',', '\n', '-', ' ', 'é', ';', 'x', '\n'];
    macro_rules! same {
        ($([$($p:tt)*] $($seed:literal)*;)*) => { $( {
            let mut texts: Vec<String> = vec![$($seed.to_string()),*];
            for _ in 0..6 {
                let s = rng.pick(&texts).clone();
                let p = Profile { alphabet: alphabet.to_vec(), lits: vec!["a", "\n", "1", ","], ..Profile::general() };
                texts.push(gen::mutate(&s, &p, &mut rng));
            }
            for t in &texts {
                let show = |r: Lib<String>| match r { Lib::Fail(e) => format!("error at {}", e.loc), o => format!("{o:?}") };
                macro_rules! r { ($q:expr) => {{ let q = $q; show(guard(|| q.parse(t).map(|v| format!("{v:?}")))) }} }
                let inplace = r!(parser!($($p)*));
                let stored = { let s = parser!($($p)*); r!(parser!(s)) };
                let borrowed = { let s = parser!($($p)*); let r2 = &s; let r3 = &r2; let q = parser!(r3); show(guard(|| q.parse(t).map(|v| format!("{v:?}")))) };
                let asref = { let s = parser!($($p)*); r!(id(&s)) };
                let asref2 = { let s = parser!($($p)*); let s = &s; r!(id(&s)) };
                let raw = { let s = parser!($($p)*); show(guard(|| s.parse_raw(t).map(|v| user(format!("{v:?}"))))) };
                let rawref = { let s = parser!($($p)*); show(guard(|| raw_of(&s, t).map(|v| user(format!("{v:?}"))))) };
                let through = { let s = parser!($($p)*); r!(parser!(id(s))) };
                let hidden = { let s = parser!($($p)*); r!(opaque(opaque(parser!(s)))) };
                let paren = { let s = parser!($($p)*); r!(parser!((s))) };
                let twice = { let s = parser!($($p)*); r!(parser!(((s)))) };
                let boxed = { let s = Box::new(parser!($($p)*)); let s = *s; r!(s) };
                cx.eval();
                cx.nontrivial(mix(hash_str(t) ^ hash_str(stringify!($($p)*))));
                for (how, x) in [("stored first", stored), ("borrowed twice", borrowed), ("by reference", asref), ("by reference to a reference", asref2), ("taken raw", raw), ("taken raw by reference", rawref), ("passed through a function", through), ("returned as an opaque type", hidden), ("in parentheses", paren), ("in double parentheses", twice), ("boxed and unboxed", boxed)] {
                    if x != inplace {
                        cx.violation(format!("parser!({}) on {t:?}: {} in place, {} {how}", stringify!($($p)*), short(&inplace), short(&x)));
                    }
                }
                // adjacent to other patterns
                let lr = { let s = parser!($($p)*); r!(parser!(a:{'[' => 1, ',' => 2}? x:s c:";"? => (a, x, c))) };
                let lr2 = { let s = parser!($($p)*); r!(parser!(a:{'[' => 1, ',' => 2}? x:(s) c:";"? => (a, x, c))) };
                if lr != lr2 {
                    cx.violation(format!("parser!({}) between other patterns on {t:?}: {} bare, {} grouped", stringify!($($p)*), short(&lr), short(&lr2)));
                }
            }
        } )* };
    }
    same! {
        [u64] "1" "12" "a";
        [alpha] "a" "b" "1";
        [repeat_sep(i32, ",")] "1,-2,12" "" "1,";
        [lines(u64)] "1\n2\n" "1\n\n" "";
        [line(string(any_char*))] "ab\n" "1";
        [section(lines(alpha*))] "a\nb\n\n" "ab";
        [{"a", "ab"}] "a" "ab" "b";
        [{a:alpha "," => (a, 1), a:alpha => (a, 2)}] "a," "b" ",";
        [(alpha digit)*] "a1b2" "a" "";
        [a:alpha* b:digit+ => (a.len(), b)] "ab12" "12" "a";
        [u8 "," u8] "1,2" "12,1" "1";
        [rule r: usize = { "a" n:r => n + 1, "" => 0 }; r] "aaa" "" "ab";
        [string(alpha+ digit?)] "ab1" "a" "1";
        [btree_set(repeat_sep(u8, ","))] "1,1" "2" "";
        [any_char? any_char?] "ab" "" "1";
    }
}

pub fn c22() -> Vec<Stage> {
    vec![
        stage("rewritten patterns", 120_000, 2_500_000, rewritten),
        stage("several routes to one parser", 60, 1_500, routes),
        super::deep::twins(12 * 20, 12 * 200),
    ]
}
