//! Exhaustive small scopes and large-scale runs of the reference comparison.
use super::{model_texts, stage, Stage};
use crate::engine::Facet;
use crate::gen::{self, Gen, Profile};
use crate::node::*;
use crate::stats::Ctx;

fn b(n: Node) -> Box<Node> {
    Box::new(n)
}

pub fn all_texts(alphabet: &[char], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = v.len();
        for i in from..to {
            for c in alphabet {
                let mut s = v[i].clone();
                s.push(*c);
                v.push(s);
            }
        }
        from = to;
    }
    v
}

/// every pattern of two operators over a small set of leaves, on every short text
pub fn tiny_patterns(facets: &'static [Facet], repetition_only: bool) -> Stage {
    let leaves = || -> Vec<Node> {
        vec![
            Node::Empty,
            Node::Lit("a"),
            Node::Lit("b"),
            Node::Lit("ab"),
            Node::Multi(1, vec!["a", "ab"]),
            Node::Multi(2, vec!["ab", "a", ""]),
        ]
    };
    fn combine(xs: &[Node], ys: &[Node], out: &mut Vec<Node>) {
        for x in xs {
            out.push(Node::Star(b(x.clone())));
            out.push(Node::Plus(b(x.clone())));
            out.push(Node::Opt(b(x.clone())));
            out.push(Node::Str(b(x.clone())));
            for y in ys {
                out.push(Node::Seq(vec![x.clone(), y.clone()]));
                out.push(Node::Alt(vec![x.clone(), y.clone()]));
                out.push(Node::RepSep(b(x.clone()), b(y.clone())));
            }
        }
    }
    let l = leaves();
    let mut one = vec![];
    combine(&l, &l, &mut one);
    let mut two = vec![];
    combine(&one, &l, &mut two);
    combine(&l, &one, &mut two);
    if repetition_only {
        two.retain(|n| matches!(n, Node::Star(_) | Node::Plus(_) | Node::RepSep(..) | Node::Seq(_)));
    }
    let texts = all_texts(&['a', 'b'], 5);
    let n = two.len() as u64;
    stage("every small pattern x every short text", n, n, move |cx, i, _| {
        let g = Grammar::of(two[i as usize].clone());
        cx.count("patterns of the exhaustive enumeration", 1);
        model_texts(cx, &g, texts.iter().map(|s| s.as_str()), facets, 20_000)
    })
}

/// every nesting of line/section wrappers over a set of inner patterns, on every short text
pub fn tiny_regions(facets: &'static [Facet], sections: bool) -> Stage {
    let any = || Node::Class(Cls::Any);
    let inner: Vec<Node> = vec![
        Node::Lit(""),
        Node::Lit("a"),
        Node::Lit("a\n"),
        Node::Lit("\n"),
        Node::Star(b(Node::Chr('a'))),
        Node::Str(b(Node::Star(b(any())))),
        Node::Plus(b(any())),
        Node::Alt(vec![Node::Lit("a"), Node::Lit("ab"), Node::Empty]),
        Node::Multi(1, vec!["", "a", "a\n", "a\na"]),
        Node::Seq(vec![Node::Opt(b(Node::Lit("a"))), Node::Opt(b(Node::Lit("\n")))]),
    ];
    type W = fn(Node) -> Node;
    let line_w: Vec<W> = vec![
        |x| Node::Line(b(x)),
        |x| Node::Lines(b(x)),
        |x| Node::Seq(vec![Node::Line(b(x)), Node::Line(b(Node::Lit("a")))]),
        |x| Node::Seq(vec![Node::Lit("a"), Node::Line(b(x))]),
        |x| Node::Seq(vec![Node::Star(b(Node::Class(Cls::Any))), Node::Line(b(x))]),
        |x| Node::Seq(vec![Node::Star(b(Node::Chr(' '))), Node::Line(b(x))]),
        |x| Node::Seq(vec![Node::Line(b(x)), Node::Star(b(Node::Class(Cls::Any)))]),
        |x| Node::RepSep(b(Node::Line(b(x))), b(Node::Lit("\n"))),
        |x| Node::Plus(b(Node::Line(b(x)))),
        |x| Node::Seq(vec![Node::Opt(b(Node::Line(b(x)))), Node::Lines(b(Node::Str(b(Node::Star(b(Node::Class(Cls::Any)))))))]),
    ];
    let sec_w: Vec<W> = vec![
        |x| Node::Section(b(x)),
        |x| Node::Sections(b(x)),
        |x| Node::Seq(vec![Node::Section(b(x)), Node::Section(b(Node::Lines(b(Node::Lit("a")))))]),
        |x| Node::Seq(vec![Node::Lit("\n"), Node::Section(b(x))]),
        |x| Node::Seq(vec![Node::Star(b(Node::Class(Cls::Any))), Node::Section(b(x))]),
        |x| Node::Seq(vec![Node::Star(b(Node::Chr(' '))), Node::Section(b(x))]),
        |x| Node::Seq(vec![Node::Lit("a\n"), Node::Section(b(x))]),
        |x| Node::Seq(vec![Node::Section(b(x)), Node::Str(b(Node::Star(b(Node::Class(Cls::Any)))))]),
        |x| Node::RepSep(b(Node::Section(b(x))), b(Node::Lit("\n"))),
        |x| Node::Plus(b(Node::Section(b(x)))),
        |x| Node::Seq(vec![Node::Line(b(Node::Lit("a"))), Node::Section(b(x))]),
    ];
    let id: W = |x| x;
    let mut pats = vec![];
    let (outer, nested): (Vec<W>, Vec<W>) = if sections {
        let mut n = vec![id];
        n.extend(line_w.iter().copied());
        n.extend(sec_w.iter().take(2).copied());
        (sec_w, n)
    } else {
        let mut n = vec![id];
        n.extend(line_w.iter().take(4).copied());
        n.extend(sec_w.iter().take(2).copied());
        (line_w, n)
    };
    for o in &outer {
        for n in &nested {
            for x in &inner {
                pats.push(o(n(x.clone())));
            }
        }
    }
    let n = pats.len() as u64;
    let texts = all_texts(&['a', '\n'], 7);
    let mut more = all_texts(&['a', 'b', '\n', '\r'], 4);
    more.extend(all_texts(&['a', ' ', '\n', '\t'], 4));
    stage("every region pattern x every short text", n, n, move |cx, i, _| {
        let g = Grammar::of(pats[i as usize].clone());
        cx.count("patterns of the exhaustive enumeration", 1);
        model_texts(cx, &g, texts.iter().chain(&more).map(|s| s.as_str()), facets, 20_000)
    })
}

/// The same patterns, but far into a long text.
pub fn far(quick: u64, thorough: u64, p: Profile, facets: &'static [Facet]) -> Stage {
    stage("far into a long text", quick, thorough, move |cx, i, mut rng| {
        let p = p.skin(&mut rng);
        let (mut g, mut rng) = Gen::new(rng, &p).grammar();
        let n = [250usize, 254, 255, 256, 257, 4096, 32_767, 65_530, 65_534, 65_535, 65_536, 65_537, 70_000][(i % 13) as usize];
        let tail = ["", "\n", "\n\n", "é"][(i / 13 % 4) as usize];
        let unit = ["x", "ab\n", "é"][(i / 52 % 3) as usize];
        let prefix = intern(&format!("{}{tail}", unit.repeat(n / unit.len())));
        let texts: Vec<String> = gen::texts(&g, &p, &mut rng, 4).into_iter().map(|t| format!("{prefix}{t}")).collect();
        g.root = Node::Seq(vec![Node::Lit(prefix), g.root]);
        run_long(cx, &g, &texts, facets)
    })
}

fn run_long(cx: &mut Ctx, g: &Grammar, texts: &[String], facets: &[Facet]) {
    for t in texts {
        cx.max("longest text", t.len() as u64);
    }
    model_texts(cx, g, texts.iter().map(|s| s.as_str()), facets, 1_500)
}

/// Many records: hundreds of repetitions of a derived record, some spoilt.
pub fn many_records(quick: u64, thorough: u64, facets: &'static [Facet]) -> Stage {
    stage("hundreds of records", quick, thorough, move |cx, i, mut rng| {
        let p = Profile::lines();
        let rec = match rng.below(5) {
            0 => Node::Seq(vec![Node::Num("u64"), Node::Lit("x"), Node::Num("i32")]),
            1 => Node::RepSep(b(Node::Num("u8")), b(Node::Lit(" "))),
            2 => Node::Alt(vec![Node::Conv(1, vec![Node::Lit("add "), Node::Num("i8")]), Node::Conv(2, vec![Node::Lit("nop")]), Node::Plus(b(Node::Class(Cls::Lower)))]),
            3 => Node::Str(b(Node::Star(b(Node::Class(Cls::Alnum))))),
            _ => Node::Conv(3, vec![Node::Plus(b(Node::Class(Cls::Alpha))), Node::Lit(": "), Node::Opt(b(Node::Num("u16")))]),
        };
        let root = match i % 4 {
            0 => Node::Lines(b(rec.clone())),
            1 => Node::Star(b(Node::Line(b(rec.clone())))),
            2 => Node::Sections(b(Node::Lines(b(rec.clone())))),
            _ => Node::Seq(vec![Node::Section(b(Node::Lines(b(rec.clone())))), Node::Lines(b(rec.clone()))]),
        };
        let n = *rng.pick(&[20usize, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300]);
        let rg = Grammar::of(rec);
        let mut recs: Vec<String> = (0..n).map(|_| gen::derive(&rg, &p, &mut rng, 12)).collect();
        if rng.chance(50) {
            let k = rng.below(n);
            recs[k] = gen::mutate(&recs[k], &p, &mut rng);
        }
        if i % 4 >= 2 {
            for r in recs.iter_mut() {
                if r.is_empty() && !rng.chance(3) {
                    r.push('a');
                }
            }
            let k = rng.below(n);
            recs.insert(k, String::new());
        }
        let mut t = recs.join("\n");
        if rng.chance(70) {
            t.push('\n');
        }
        cx.max("most records in one text", n as u64);
        model_texts(cx, &Grammar::of(root), [t.as_str()].into_iter(), facets, 200_000)
    })
}
