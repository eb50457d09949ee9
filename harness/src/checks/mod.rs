//! The workloads, one list of stages per property.
use crate::engine::{self, Facet, Lib};
use crate::gen::{self, Gen, Profile};
use crate::model::Outcome;
use crate::node::{Grammar, Node};
use crate::rng::{hash_str, mix, Rng};
use crate::stats::Ctx;

pub mod chars;
pub mod deep;
pub mod more;
pub mod numbers;
pub mod small;
pub mod state;

pub type Run = Box<dyn Fn(&mut Ctx, u64, Rng) + Sync + Send>;

/// `quick`/`thorough`: how many cases. A case is a function of (seed, stage, index) only.
pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: Run,
}

pub fn stage(name: &'static str, quick: u64, thorough: u64, run: impl Fn(&mut Ctx, u64, Rng) + Sync + Send + 'static) -> Stage {
    Stage { name, quick, thorough, run: Box::new(run) }
}

pub const STAGE_BITS: u32 = 40;

pub fn stages(check: &str) -> Vec<Stage> {
    use Facet::*;
    match check {
        "C01" => vec![
            random("general", 180_000, 1_500_000, Profile::general(), &[Accept, Value]),
            random("repetition", 45_000, 400_000, Profile::repetition(), &[Accept, Value]),
            random("regions", 30_000, 300_000, Profile::sections(), &[Accept, Value]),
            random("rules", 15_000, 150_000, Profile::rules(), &[Accept, Value]),
            small::tiny_patterns(&[Accept, Value], false),
            small::far(400, 10_000, Profile::general(), &[Accept, Value]),
            small::many_records(200, 5_000, &[Accept, Value]),
            deep::giving_back(15 * 12, 15 * 100),
            deep::offers(12, 120),
        ],
        "C07" => vec![
            small::tiny_regions(&[Accept, Value], false),
            random("lines", 200_000, 1_000_000, Profile::lines(), &[Accept, Value]),
            small::far(400, 10_000, Profile::lines(), &[Accept, Value]),
            small::many_records(400, 10_000, &[Accept, Value]),
            deep::regions(8 * 14, 8 * 120),
            deep::huge(18, 180),
        ],
        "C08" => vec![
            small::tiny_regions(&[Accept, Value], true),
            random("sections", 200_000, 1_000_000, Profile::sections(), &[Accept, Value]),
            small::far(400, 10_000, Profile::sections(), &[Accept, Value]),
            small::many_records(400, 10_000, &[Accept, Value]),
            deep::regions(8 * 14, 8 * 120),
            deep::huge(18, 180),
        ],
        "C09" => vec![
            random("strings", 240_000, 1_500_000, Profile::strings(), &[Accept, Value]),
            random("strings in rules", 16_000, 100_000, Profile { rules_root: 100, ..Profile::strings() }, &[Accept, Value]),
            small::far(400, 10_000, Profile::strings(), &[Accept, Value]),
            small::many_records(200, 5_000, &[Accept, Value]),
            deep::giving_back(15 * 5, 15 * 60),
        ],
        "C04" => numbers::c04(),
        "C05" => numbers::c05(),
        "C06" => chars::c06(),
        "C03" => more::c03(),
        "C10" => vec![
            random("conversions", 150_000, 3_500_000, Profile::conversions(), &[Events]),
            random("conversions in rules", 25_000, 600_000, Profile { rules_root: 100, depth: 3, ..Profile::conversions() }, &[Events]),
            random("conversions in regions", 30_000, 700_000, {
                let mut p = Profile::sections();
                p.w.conv = 25;
                p
            }, &[Events]),
            random("conversions in strings", 20_000, 500_000, {
                let mut p = Profile::strings();
                p.w.conv = 25;
                p
            }, &[Events]),
            small::tiny_patterns(&[Events], false),
            small::far(300, 6_000, Profile::conversions(), &[Events]),
            small::many_records(400, 8_000, &[Events]),
            deep::conversions(6 * 20, 6 * 200),
        ],
        "C11" => more::c11(),
        "C12" => more::c12(),
        "C13" => more::c13(),
        "C14" => more::c14(),
        "C19" => more::c19(),
        "C20" => more::c20(),
        "C22" => more::c22(),
        "C15" => state::c15(),
        "C15-first-use" => state::first_use(),
        "C16" => state::c16(),
        "C17" => state::c17(),
        _ => vec![],
    }
}

pub fn random(name: &'static str, quick: u64, thorough: u64, p: Profile, facets: &'static [Facet]) -> Stage {
    stage(name, quick, thorough, move |cx, _, mut rng| {
        let p = p.skin(&mut rng);
        let (g, rng) = Gen::new(rng, &p).grammar();
        model_case(cx, &g, rng, &p, facets, 8, 6_000)
    })
}

pub fn kinds(n: &Node, g: &Grammar, cx: &mut Ctx) {
    let name = match n {
        Node::Empty => "empty",
        Node::Lit(_) => "string literal",
        Node::Chr(_) => "char literal",
        Node::Class(_) => "char class",
        Node::CharOf(_) => "char_of",
        Node::Num(_) => "number",
        Node::Multi(..) => "user parser with several matches",
        Node::Seq(_) => "sequence",
        Node::Conv(..) | Node::TConv(..) => "conversion",
        Node::Group(_) => "group",
        Node::Via(..) => "other route to the same pattern",
        Node::Alt(_) => "alternation",
        Node::Star(_) => "star",
        Node::Plus(_) => "plus",
        Node::Opt(_) => "optional",
        Node::RepSep(..) => "repeat_sep",
        Node::Str(_) => "string()",
        Node::Line(_) => "line",
        Node::Lines(_) => "lines",
        Node::Section(_) => "section",
        Node::Sections(_) => "sections",
        Node::Rule(_) => "rule use",
        Node::RuleSet(..) => "rule set",
    };
    cx.count(&format!("pattern pieces: {name}"), 1);
    match n {
        Node::Seq(xs) | Node::Conv(_, xs) | Node::TConv(xs, ..) | Node::Alt(xs) => xs.iter().for_each(|x| kinds(x, g, cx)),
        Node::Group(x) | Node::Via(_, x) | Node::Star(x) | Node::Plus(x) | Node::Opt(x) | Node::Str(x) | Node::Line(x) | Node::Lines(x) | Node::Section(x) | Node::Sections(x) => kinds(x, g, cx),
        Node::RepSep(a, b) => {
            kinds(a, g, cx);
            kinds(b, g, cx)
        }
        Node::RuleSet(ids, e) => {
            for i in ids {
                kinds(&g.rules[*i], g, cx)
            }
            kinds(e, g, cx)
        }
        _ => {}
    }
}

pub fn model_case(cx: &mut Ctx, g: &Grammar, mut rng: Rng, p: &Profile, facets: &[Facet], ntexts: usize, fuel: u64) {
    let texts = gen::texts(g, p, &mut rng, ntexts);
    model_texts(cx, g, texts.iter().map(|s| s.as_str()), facets, fuel)
}

pub fn model_texts<'a>(cx: &mut Ctx, g: &Grammar, texts: impl Iterator<Item = &'a str>, facets: &[Facet], fuel: u64) {
    let gt = g.text();
    let gh = hash_str(&gt);
    if cx.counters.get("patterns").copied().unwrap_or(0) % 16 == 0 {
        kinds(&g.root, g, cx);
    }
    cx.count("patterns", 1);
    let parser = match engine::build(g) {
        Ok(p) => p,
        Err(e) => {
            cx.violation(format!("building the parser for {gt} panicked: {e}"));
            return;
        }
    };
    for t in texts {
        let o = engine::check(g, &parser, t, fuel);
        observe(cx, &o, gh, &gt, t);
        for (f, what) in &o.diffs {
            if facets.contains(f) {
                cx.violation(format!("pattern {gt} on {t:?}: {what}"));
            } else {
                cx.count("differences on facets decided by other checks", 1);
            }
        }
    }
}

/// Record what the monitors saw in one execution.
pub fn observe(cx: &mut Ctx, o: &engine::Observed, gh: u64, gt: &str, t: &str) {
    cx.eval();
    cx.count("subpattern attempts monitored", o.mon.steps);
    cx.count("backtrack requests monitored", o.mon.retries);
    cx.count("backtracks answered with another match", o.mon.retries_ok);
    cx.count("values requested", o.mon.converts);
    cx.count("conversion events logged", o.mon.events.len() as u64);
    let key = mix(gh ^ hash_str(t));
    match &o.model {
        Outcome::OutOfFuel => cx.count("reference gave up (not compared)", 1),
        Outcome::Match { value, events } => {
            cx.count("texts that match", 1);
            if !t.is_empty() {
                cx.nontrivial(key);
                if o.mon.retries_ok > 0 && o.stats.steps > 6 {
                    cx.sample(|| format!("{gt} on {t:?} -> {}", engine::short(&value.dbg())));
                }
            }
            if o.mon.retries_ok > 0 {
                cx.count("matches found only after reconsidering a choice", 1);
            }
            cx.seen("distinct values", value.hash64());
            if !events.is_empty() {
                cx.seen("distinct conversion traces", events.iter().fold(1, |h, e| mix(h ^ e.1 ^ e.0 as u64)));
            }
        }
        Outcome::Fail(f) => {
            cx.count("texts that fail", 1);
            if f.loc > 0 {
                cx.nontrivial(key);
            }
            if let Lib::Fail(e) = &o.lib {
                cx.seen("distinct error messages", hash_str(&e.display));
            }
        }
    }
    cx.seen(
        "distinct monitor traces",
        mix(o.mon.steps ^ mix(o.mon.retries ^ mix(o.mon.retries_ok ^ mix(o.mon.converts)))),
    );
}
