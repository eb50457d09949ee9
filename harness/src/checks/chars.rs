//! C06: character classes, one-of-these patterns and literals.
use super::{stage, Stage};
use crate::engine::{guard, short, Lib};
use crate::model::{class_pred, class_value};
use crate::node::{intern, Cls};
use crate::rng::{hash_str, mix, Rng};
use crate::stats::Ctx;
use crate::value::V;
use aoc_parse::{parser, prelude::*};

type F = fn(&str) -> Lib<V>;
struct Class {
    c: Cls,
    alone: F,
    /// class followed by any text; yields (value, rest)
    tail: fn(&str) -> Lib<(V, String)>,
    /// as many as possible, then any text
    run: fn(&str) -> Lib<(Vec<V>, String)>,
}

macro_rules! classes {
    ($($v:ident $i:ident $conv:expr;)*) => {
        vec![$(Class {
            c: Cls::$v,
            alone: |s| guard(|| parser!($i).parse(s).map($conv)),
            tail: |s| guard(|| parser!($i string(any_char*)).parse(s).map(|(x, r)| ($conv(x), r))),
            run: |s| guard(|| parser!($i* string(any_char*)).parse(s).map(|(x, r)| (x.into_iter().map($conv).collect(), r))),
        },)*]
    };
}

fn classes() -> Vec<Class> {
    classes!(
        Alpha alpha V::Char; Alnum alnum V::Char; Upper upper V::Char; Lower lower V::Char; Any any_char V::Char;
        Digit digit V::Idx; DigitBin digit_bin V::Idx; DigitHex digit_hex V::Idx;
    )
}

fn want<T: PartialEq + std::fmt::Debug>(cx: &mut Ctx, what: &str, s: &str, got: Lib<T>, want: Option<T>) {
    cx.eval();
    let ok = match (&got, &want) {
        (Lib::Match(a), Some(b)) => a == b,
        (Lib::Fail(_), None) => true,
        _ => false,
    };
    if want.is_some() {
        cx.count("matches", 1);
    } else {
        cx.count("refusals", 1);
    }
    if !ok {
        cx.violation(format!("{} on {:?}: got {}, expected {}", short(what), short(s), short(&format!("{got:?}")), short(&format!("{want:?}"))));
    }
}

const CHUNK: u32 = 0x400;

/// characters that are easily confused with one another
const POOL: &[char] = &[
    'a', 'b', 'c', 'A', 'B', 'Z', '0', '1', '9', '<', '>', '^', 'v', ' ', '\n', '\t', '\r', '\0', '"', '\\', '\'', 'é', 'e', '\u{301}', 'É', 'ß', 'ſ', 'K', 'K', 'Å', 'Å', 'ı', 'I', 'i', 'İ',
    'Ω', 'ω', 'Ω', '文', '😂', '😃', '🌍', '\u{200d}', '\u{feff}', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', 'Ã', '©', '\u{a9}', '\u{c3}',
];

pub fn c06() -> Vec<Stage> {
    vec![
        stage("every scalar value x every class", (0x110000 / CHUNK) as u64, (0x110000 / CHUNK) as u64, |cx, i, _| {
            let cls = classes();
            let lo = i as u32 * CHUNK;
            let mut buf = String::new();
            for c in (lo..lo + CHUNK).filter_map(char::from_u32) {
                buf.clear();
                buf.push(c);
                for k in &cls {
                    let e = class_pred(k.c, c).then(|| class_value(k.c, c));
                    cx.nontrivial(mix(c as u64 * 16 + k.c as u64));
                    want(cx, k.c.name(), &buf, (k.alone)(&buf), e);
                }
                cx.count("scalar values tried", 1);
                let n = buf.len();
                buf.push('z');
                for k in &cls {
                    if c as u32 % 61 == 7 || c.is_ascii() {
                        let e = class_pred(k.c, c).then(|| (class_value(k.c, c), "z".to_string()));
                        want(cx, k.c.name(), &buf, (k.tail)(&buf), e);
                    }
                }
                debug_assert_eq!(n + 1, buf.len());
            }
        }),
        stage("runs of mixed characters", 4_000, 200_000, |cx, _, mut rng| {
            let s: String = (0..rng.below(12)).map(|_| *rng.pick(POOL)).collect();
            for k in &classes() {
                let n: usize = s.chars().take_while(|c| class_pred(k.c, *c)).map(|c| c.len_utf8()).sum();
                let e = (s[..n].chars().map(|c| class_value(k.c, c)).collect::<Vec<_>>(), s[n..].to_string());
                cx.nontrivial(mix(hash_str(&s) ^ k.c as u64));
                want(cx, &format!("{}* then any text", k.c.name()), &s, (k.run)(&s), Some(e));
            }
        }),
        stage("char_of: random lists", 8_000, 300_000, |cx, _, mut rng| {
            let n = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 8, 12, 30]);
            let list: String = (0..n).map(|_| *rng.pick(POOL)).collect();
            char_of_list(cx, &list, POOL);
        }),
        stage("char_of: very long lists", 8, 80, |cx, i, mut rng| {
            let n = [255usize, 256, 257, 1000, 65_537, 70_000, 140_000, 270_000][(i % 8) as usize];
            let base = rng.range(0x21, 0x3000) as u32;
            let list: String = (base..).filter_map(char::from_u32).take(n).collect();
            let list = if rng.chance(30) { format!("{list}{}", list.chars().take(5).collect::<String>()) } else { list };
            let cs: Vec<char> = list.chars().collect();
            let mut probes: Vec<char> = (0..60).map(|_| *rng.pick(&cs)).collect();
            for k in [0, 1, 126, 127, 128, 253, 254, 255, 256, 257, 65_534, 65_535, 65_536, 70_000, 131_072, 262_144, cs.len() - 1] {
                probes.extend(cs.get(k));
            }
            probes.extend(POOL);
            char_of_list(cx, &list, &probes);
        }),
        stage("string and character literals", 12_000, 400_000, |cx, _, mut rng| {
            let n = *rng.pick(&[0usize, 1, 1, 2, 2, 3, 5, 9]);
            let lit: String = (0..n).map(|_| *rng.pick(POOL)).collect();
            literal(cx, &lit, &mut rng);
        }),
        stage("long literals", 40, 800, |cx, _, mut rng| {
            let n = *rng.pick(&[255usize, 256, 257, 4096, 65_536]);
            let lit: String = (0..n).map(|_| *rng.pick(&['a', 'é', 'b'])).collect();
            literal(cx, &lit, &mut rng);
        }),
        stage("literals written in the pattern", 1, 1, |cx, _, _| written(cx)),
    ]
}

fn char_of_list(cx: &mut Ctx, list: &str, probes: &[char]) {
    let l = intern_small(list);
    let p = char_of(l);
    let q = parser!(char_of(l) string(any_char*));
    let what = format!("char_of({:?})", short(list));
    for c in probes {
        let mut s = c.to_string();
        let at = list.chars().position(|x| x == *c);
        cx.nontrivial(mix(hash_str(list) ^ *c as u64));
        want(cx, &what, &s, guard(|| p.parse(&s)), at);
        s.push_str("a9");
        want(cx, &what, &s, guard(|| p.parse(&s)), None);
        want(cx, &format!("{what} then any text"), &s, guard(|| q.parse(&s)), at.map(|i| (i, "a9".to_string())));
    }
    want(cx, &what, "", guard(|| p.parse("")), None);
    cx.sample(|| what);
}

fn intern_small(s: &str) -> &'static str {
    intern(s)
}

fn literal(cx: &mut Ctx, lit: &str, rng: &mut Rng) {
    let l = intern(lit);
    let owned = lit.to_string();
    let mut texts = vec![lit.to_string(), String::new()];
    let cs: Vec<char> = lit.chars().collect();
    // one character changed / dropped / case-flipped
    for _ in 0..4 {
        let mut v = cs.clone();
        if !v.is_empty() {
            let i = rng.below(v.len());
            match rng.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => v[i] = *rng.pick(POOL),
                2 => {
                    let c = v[i];
                    let f: Vec<char> = if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
                    v.splice(i..=i, f);
                }
                _ => v.truncate(i),
            }
        } else {
            v.push(*rng.pick(POOL));
        }
        texts.push(v.into_iter().collect());
    }
    let mut more: Vec<String> = texts.iter().map(|t| format!("{t}{}", rng.pick(POOL))).collect();
    more.push(format!("{lit}{lit}"));
    texts.extend(more);
    for s in &texts {
        cx.nontrivial(mix(hash_str(lit) ^ hash_str(s).rotate_left(7)));
        let whole = (s == lit).then_some(());
        let rest = s.strip_prefix(lit).map(|r| r.to_string());
        let what = format!("literal {:?}", short(lit));
        want(cx, &what, s, guard(|| l.parse_whole(s)), whole);
        want(cx, &what, s, guard(|| parser!(l string(any_char*)).parse(s)), rest.clone());
        // by reference to an owned string
        let sref: &str = &owned;
        want(cx, &what, s, guard(|| parser!(sref string(any_char*)).parse(s)), rest.clone());
        want(cx, &what, s, guard(|| sref.parse_whole(s)), whole);
        if cs.len() == 1 {
            let c = cs[0];
            want(cx, &format!("character {c:?}"), s, guard(|| parser!(c string(any_char*)).parse(s)), rest.clone());
            want(cx, &format!("character {c:?}"), s, guard(|| c.parse(s)), whole);
        }
        let t = format!("{}{s}", "é");
        want(cx, &format!("{what} after é"), &t, guard(|| parser!('é' l string(any_char*)).parse(&t)), rest);
    }
    cx.sample(|| format!("literal {:?} on {:?}", short(lit), texts.iter().take(3).map(|t| short(t)).collect::<Vec<_>>()));
}

/// `&str` has an inherent `parse`; name the trait's.
trait Whole {
    fn parse_whole(&self, s: &str) -> Result<(), aoc_parse::ParseError>;
}
impl Whole for &str {
    fn parse_whole(&self, s: &str) -> Result<(), aoc_parse::ParseError> {
        Parser::parse(self, s)
    }
}

fn written(cx: &mut Ctx) {
    macro_rules! lits {
        ($($l:literal)*) => {
            $({
                let lit = $l.to_string();
                for extra in ["", "x", "\n", "\u{301}", " "] {
                    let s = format!("{lit}{extra}");
                    cx.nontrivial(hash_str(&s));
                    want(cx, &format!("literal {lit:?}"), &s, guard(|| parser!($l).parse(&s)), extra.is_empty().then_some(()));
                    want(cx, &format!("literal {lit:?}"), &s, guard(|| parser!($l string(any_char*)).parse(&s)), Some(extra.to_string()));
                    let t = format!("a{s}");
                    want(cx, &format!("literal {lit:?}"), &t, guard(|| parser!($l string(any_char*)).parse(&t)), t.strip_prefix(&lit).map(|r| r.to_string()));
                    let up = s.to_uppercase();
                    want(cx, &format!("literal {lit:?}"), &up, guard(|| parser!($l string(any_char*)).parse(&up)), up.strip_prefix(&lit).map(|r| r.to_string()));
                }
            })*
        };
    }
    lits!("a" "ab" "x=" 'x' 'é' '\n' '\\' '\'' "\"" "\\n" "\r\n" "😂" '😂' "é" "hello world" r"C:\dir" r#"say "hi""# " " "\t" '\0' "\u{1F600}" "1" '1' "true" "nan" "");
    const K: &str = "konst";
    const C: char = 'ß';
    for s in ["konst", "konst1", "kons", "Konst", "ß", "ßß", "ss", ""] {
        want(cx, "constant \"konst\"", s, guard(|| parser!(K).parse(s)), (s == K).then_some(()));
        want(cx, "constant 'ß'", s, guard(|| parser!(C).parse(s)), (s == "ß").then_some(()));
    }
}
