//! C04, C05: numeric patterns against digit-by-digit arithmetic and the standard float format.
use super::{stage, Stage};
use crate::dynp::int;
use crate::engine::{guard, short, Lib};
use crate::gen;
use crate::nums::{self, Kind};
use crate::rng::{hash_str, mix, Rng};
use crate::stats::Ctx;
use crate::value::V;
use aoc_parse::{parser, prelude::*};
use std::sync::OnceLock;

/// The ways one numeric pattern is used.
pub struct Fns {
    pub name: &'static str,
    pub kind: Kind,
    /// the pattern is the whole parser
    pub alone: fn(&str) -> Lib<V>,
    /// followed by any text: shows how much was consumed
    pub tail: fn(&str) -> Lib<(V, String)>,
    /// preceded by one arbitrary character
    pub after: fn(&str) -> Lib<(char, V, String)>,
    /// a list with separators
    pub list: fn(&str) -> Lib<Vec<V>>,
    /// one per line
    pub lines: fn(&str) -> Lib<Vec<V>>,
}

macro_rules! fns {
    ($($i:ident, $conv:expr;)*) => {
        vec![ $( Fns {
            name: stringify!($i),
            kind: nums::kind(stringify!($i)),
            alone: |s| guard(|| parser!($i).parse(s).map($conv)),
            tail: |s| guard(|| parser!($i string(any_char*)).parse(s).map(|(x, r)| ($conv(x), r))),
            after: |s| guard(|| parser!(any_char $i string(any_char*)).parse(s).map(|(c, x, r)| (c, $conv(x), r))),
            list: |s| guard(|| parser!(repeat_sep($i, ",")).parse(s).map(|v| v.into_iter().map($conv).collect())),
            lines: |s| guard(|| parser!(lines($i)).parse(s).map(|v| v.into_iter().map($conv).collect())),
        }, )* ]
    };
}

pub fn all() -> &'static Vec<Fns> {
    static F: OnceLock<Vec<Fns>> = OnceLock::new();
    F.get_or_init(|| {
        fns!(
            u8, int; u16, int; u32, int; u64, int; u128, int; usize, int; big_uint, int;
            i8, int; i16, int; i32, int; i64, int; i128, int; isize, int; big_int, int;
            u8_bin, int; u16_bin, int; u32_bin, int; u64_bin, int; u128_bin, int; usize_bin, int; big_uint_bin, int;
            i8_bin, int; i16_bin, int; i32_bin, int; i64_bin, int; i128_bin, int; isize_bin, int; big_int_bin, int;
            u8_hex, int; u16_hex, int; u32_hex, int; u64_hex, int; u128_hex, int; usize_hex, int; big_uint_hex, int;
            i8_hex, int; i16_hex, int; i32_hex, int; i64_hex, int; i128_hex, int; isize_hex, int; big_int_hex, int;
            f32, |x: std::primitive::f32| V::F32(x.to_bits());
            f64, |x: std::primitive::f64| V::F64(x.to_bits());
            bool, V::Bool;
        )
    })
}

fn is_int(k: Kind) -> bool {
    matches!(k, Kind::Int { .. })
}

/// What the pattern should do at the start of `s`.
fn expect(k: Kind, s: &str) -> Option<(usize, V)> {
    let l = nums::lex(k, s)?;
    nums::value(k, &s[..l]).ok().map(|v| (l, v))
}

fn differs<T: PartialEq + std::fmt::Debug>(cx: &mut Ctx, name: &str, how: &str, s: &str, got: &Lib<T>, want: Option<T>) {
    cx.eval();
    let ok = match (got, &want) {
        (Lib::Match(a), Some(b)) => a == b,
        (Lib::Fail(_), None) => true,
        _ => false,
    };
    if !ok {
        cx.violation(format!("{name} ({how}) on {:?}: got {}, expected {}", short(s), short(&format!("{got:?}")), short(&format!("{want:?}"))));
    }
}

pub fn probe(cx: &mut Ctx, f: &Fns, s: &str, everything: bool) {
    let e = expect(f.kind, s);
    let key = mix(hash_str(f.name) ^ hash_str(s));
    match &e {
        Some(_) => {
            cx.count("numerals read", 1);
            cx.nontrivial(key)
        }
        None => {
            cx.count("texts refused at their start", 1);
            if nums::lex(f.kind, s).is_some() {
                cx.count("numerals refused as out of range", 1);
                cx.nontrivial(key);
            }
        }
    }
    cx.max("longest text", s.len() as u64);
    let whole = e.as_ref().filter(|x| x.0 == s.len()).map(|x| x.1.clone());
    differs(cx, f.name, "whole text", s, &(f.alone)(s), whole.clone());
    let tail = e.as_ref().map(|(l, v)| (v.clone(), s[*l..].to_string()));
    differs(cx, f.name, "followed by any text", s, &(f.tail)(s), tail.clone());
    if everything {
        let c = *['é', '-', '0', '+', '\n', 'x', '.'].get(s.len() % 7).unwrap();
        let t = format!("{c}{s}");
        differs(cx, f.name, "after another character", &t, &(f.after)(&t), tail.map(|(v, r)| (c, v, r)));
        let t = format!("{s},{s}");
        if !s.contains(',') {
            differs(cx, f.name, "list of two", &t, &(f.list)(&t), whole.clone().map(|v| vec![v.clone(), v]));
        }
        let t = format!("{s}\n{s}");
        if !s.contains('\n') && !s.is_empty() {
            differs(cx, f.name, "two lines", &t, &(f.lines)(&t), whole.map(|v| vec![v.clone(), v]));
        }
    }
    cx.sample(|| format!("{} on {:?} -> {:?}", f.name, short(s), e));
}

fn words(alphabet: &[char], len: usize, mut f: impl FnMut(&str)) {
    fn rec(a: &[char], left: usize, s: &mut String, f: &mut dyn FnMut(&str)) {
        f(s);
        if left == 0 {
            return;
        }
        for c in a {
            s.push(*c);
            rec(a, left - 1, s, f);
            s.pop();
        }
    }
    rec(alphabet, len, &mut String::new(), &mut f);
}

fn count_stage(name: &'static str, quick_len: usize, long: usize, ints: bool, alphabet: fn(Kind) -> Vec<char>) -> Vec<Stage> {
    // one case per (pattern, first character)
    let pats = all().iter().filter(|f| is_int(f.kind) == ints).count() as u64;
    let mk = move |len: usize| {
        move |cx: &mut Ctx, i: u64, _: Rng| {
            let f = all().iter().filter(|f| is_int(f.kind) == ints).nth((i % pats) as usize).unwrap();
            let a = alphabet(f.kind);
            let j = (i / pats) as usize;
            if j >= a.len() {
                return;
            }
            let first = a[j];
            words(&a, len - 1, |w| {
                let s = format!("{first}{w}");
                probe(cx, f, &s, false);
                cx.count("texts of the exhaustive enumeration", 1);
            });
        }
    };
    let n = pats * 20;
    let mut q = stage(name, n, 0, mk(quick_len));
    q.quick = n;
    let mut t = stage(name, 0, n, mk(long));
    t.name = "exhaustive short texts (longer)";
    vec![q, t]
}

pub fn c04() -> Vec<Stage> {
    let n = all().iter().filter(|f| is_int(f.kind)).count() as u64;
    let ints = move |i: u64| all().iter().filter(|f| is_int(f.kind)).nth((i % n) as usize).unwrap();
    let mut v = vec![
        // every value of the 8-bit kinds and a dense band around every power of two of every kind
        stage("around every power of two", n * 130, n * 130, move |cx, i, _| {
            let f = ints(i);
            let Kind::Int { base, .. } = f.kind else { return };
            let b = (i / n) as u32;
            let p = num_bigint::BigInt::from(1) << b;
            for d in -2i32..=2 {
                let m = (&p + d).to_str_radix(base);
                for sign in ["", "-", "+"] {
                    for zeros in [0, 1, 7] {
                        let s = format!("{sign}{}{m}", "0".repeat(zeros));
                        probe(cx, f, &s, b % 8 < 2 || b % 8 == 7);
                    }
                }
                probe(cx, f, &m.to_ascii_uppercase(), false);
            }
        }),
        stage("all small values", n * 20, n * 180, move |cx, i, _| {
            let f = ints(i);
            let Kind::Int { base, .. } = f.kind else { return };
            let j = (i / n) as u32;
            for k in j * 400..(j + 1) * 400 {
                let m = num_bigint::BigInt::from(k).to_str_radix(base);
                for sign in ["", "-", "+"] {
                    probe(cx, f, &format!("{sign}{m}"), false);
                }
            }
        }),
        stage("random numerals", n * 250, n * 10_000, move |cx, i, mut rng| {
            let f = ints(i);
            for _ in 0..4 {
                let mut s = gen::num_text(f.name, &mut rng);
                if rng.chance(30) {
                    s.push(*rng.pick(&['_', '.', ' ', 'g', 'e', 'x', '-', '2', '\n', '٣', 'é', ',', '\0']));
                }
                if rng.chance(20) {
                    let n = rng.range(0, 2);
                    s.push_str(&gen::digits(16, n, &mut rng));
                }
                if rng.chance(10) {
                    s.insert(0, *rng.pick(&['+', '-', ' ', '_', '0', '0']));
                }
                probe(cx, f, &s, true);
            }
        }),
        stage("foreign prefixes and digits", n * 4, n * 4, move |cx, i, _| {
            let f = ints(i);
            for s in ["0x1f", "0b101", "0X1F", "0B1", "0o7", "1_000", "_1", "1_", "+-1", "--1", "++1", "-+1", "- 1", "+ 1", " 1", "1 ", "", "+", "-", "٣", "1٣", "１", "−1", "1e3", "1.0", "1u8", "1h", "#ff", "&1", "1'000", "1,000", "Ⅷ", "½", "²", "0\u{301}", "\u{200b}1", "1\u{0}", "\u{feff}1", "G", "g1", "2", "3", "a", "A", "F", "f", "8", "9"] {
                let t = match i / n {
                    0 => s.to_string(),
                    1 => format!("1{s}"),
                    2 => format!("-{s}"),
                    _ => format!("00{s}0"),
                };
                probe(cx, f, &t, true);
            }
        }),
        // every character that Unicode calls numeric, and every ASCII character
        stage("all numeric and ASCII characters", n, n, move |cx, i, _| {
            let f = ints(i);
            for c in (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| c.is_ascii() || c.is_numeric() || c.is_ascii_hexdigit()) {
                let s = format!("1{c}");
                probe(cx, f, &s, false);
                let s = format!("{c}");
                probe(cx, f, &s, false);
            }
        }),
        stage("very long numerals", n * 4, n * 20, move |cx, i, mut rng| {
            let f = ints(i);
            let Kind::Int { base, bits, .. } = f.kind else { return };
            let some = rng.range(8, 140);
            let len = *rng.pick(&[some, 100, 255, 256, 257, 1000, 4096, 5_001, 20_000, 66_000]);
            let len = if bits == 0 { len.min(6_000) } else { len };
            let z = gen::digits(base, len, &mut rng);
            probe(cx, f, &z, true);
            let z = format!("{}{}", "0".repeat(len), gen::digits(base, 2, &mut rng));
            probe(cx, f, &z, true);
            probe(cx, f, &format!("-{z}"), true);
            // nothing but zeros, and the extreme values after zeros
            let z = "0".repeat(len);
            for sign in ["", "-", "+"] {
                probe(cx, f, &format!("{sign}{z}"), true);
                if bits > 0 {
                    let Kind::Int { signed, .. } = f.kind else { return };
                    let (lo, hi) = nums::int_range(signed, bits);
                    for v in [-lo.clone(), hi.clone(), -lo + 1, hi + 1] {
                        probe(cx, f, &format!("{sign}{z}{}", v.to_str_radix(base)), false);
                    }
                }
            }
        }),
        stage("every number of zeros", n * 20, n * 100, move |cx, i, _| {
            let f = ints(i);
            let Kind::Int { base, .. } = f.kind else { return };
            for zeros in (i / n) as usize * 10..(i / n + 1) as usize * 10 {
                let z = "0".repeat(zeros);
                for m in ["", "1", if base == 2 { "10" } else { "7" }] {
                    for sign in ["", "-", "+"] {
                        probe(cx, f, &format!("{sign}{z}{m}"), false);
                    }
                }
            }
        }),
    ];
    v.extend(count_stage("exhaustive short texts", 3, 5, true, |k| match k {
        Kind::Int { base: 2, .. } => "01+-_2b ".chars().collect(),
        Kind::Int { base: 16, .. } => "0fF9+-_gx".chars().collect(),
        _ => "01925+-_a. ".chars().collect(),
    }));
    v
}

pub fn c05() -> Vec<Stage> {
    fn fl(i: u64) -> &'static Fns {
        all().iter().filter(|f| !is_int(f.kind)).nth((i % 3) as usize).unwrap()
    }
    let mut v = vec![
        stage("structured numerals", 60_000, 3_000_000, |cx, i, mut rng| {
            let f = fl(i);
            let mut s = gen::float_text(&mut rng);
            if rng.chance(25) {
                s.push(*rng.pick(&['e', '.', '_', 'f', '-', '+', 'x', ' ', 'n', 'i', '0', 'é', '\n']));
            }
            if rng.chance(10) {
                s.insert(0, *rng.pick(&['+', '-', ' ', '.', '0', '_']));
            }
            probe(cx, f, &s, i % 4 == 0)
        }),
        stage("halfway between neighbours", 20_000, 600_000, |cx, i, mut rng| {
            // decimal expansions at, just above and just below the midpoint of adjacent floats
            let f = &all()[if i % 2 == 0 { 42 } else { 43 }];
            let s = halfway(&mut rng, i % 2 == 0);
            let mut t = s.clone();
            match rng.below(4) {
                0 => {}
                1 => t.push('1'),
                2 => t.push_str("0000000000000000000000000000000001"),
                _ => {
                    // decrement the last digit
                    let last = t.pop().unwrap();
                    t.push(std::char::from_digit(last.to_digit(10).unwrap_or(1).saturating_sub(1), 10).unwrap());
                    t.push_str("99999999999999999999");
                }
            }
            probe(cx, f, &t, false)
        }),
        stage("words and prefixes", 600, 600, |cx, i, _| {
            let f = fl(i);
            let bases = [
                "inf", "infinity", "nan", "true", "false", "INF", "Infinity", "NaN", "TRUE", "True", "nAn", "infinit", "in", "na", "tru", "truefalse", "ınf", "ſ", "infİnity", "0x1p3",
                "1e", "1e+", "1e-", "1.e5", ".5", ".", "-.", "+.5e1", "1..2", "1.2.3", "1e5.5", "1e5e5", "5.", "-5.e-3", "1_0", "1d5", "1f32", "1,5", "٣.٣", "-0", "+0.0", "-0.0e0", "00.10", "1E400", "-1E-400",
                "infinityy", "nanny", "trueish", "falsey", "e5", ".e5", "+inf", "-nan", "--1", "+-1", " 1", "1 ", "",
            ];
            let j = (i / 3) as usize;
            if j < bases.len() * 3 {
                let b = bases[j % bases.len()];
                let t = match j / bases.len() {
                    0 => b.to_string(),
                    1 => format!("-{b}"),
                    _ => format!("{b}7"),
                };
                probe(cx, f, &t, true)
            }
        }),
        stage("long numerals", 3_00, 6_000, |cx, i, mut rng| {
            let f = fl(i);
            let n = *rng.pick(&[100usize, 400, 800, 2000]);
            let s = format!("{}.{}e{}", gen::digits(10, n, &mut rng), gen::digits(10, n, &mut rng), rng.below(700) as i64 - 350);
            probe(cx, f, &s, false)
        }),
    ];
    v.extend(count_stage("exhaustive short texts", 4, 6, false, |k| match k {
        Kind::Bool => "truefalsTF1".chars().collect(),
        _ => "01.eE+-infa_".chars().collect(),
    }));
    v
}

/// Exact decimal expansion of the midpoint between two adjacent floats.
fn halfway(rng: &mut Rng, single: bool) -> String {
    use num_bigint::BigUint;
    // value = m * 2^e with one bit more than the mantissa, odd: exactly halfway
    let (mbits, emin, emax) = if single { (24u32, -149i64, 104i64) } else { (53, -1074, 971) };
    let e = match rng.below(4) {
        0 => emin + rng.below(6) as i64,
        1 => emax - rng.below(3) as i64,
        _ => -60 + rng.below(120) as i64,
    };
    let full = 1u64 << (mbits - 1);
    let m = if e < emin + 3 && rng.chance(50) { 1 + rng.next() % (full - 1) } else { full + rng.next() % full };
    let m2 = BigUint::from(m) * 2u32 + 1u32;
    let e2 = e - 1;
    let mut s = String::new();
    if rng.chance(30) {
        s.push('-');
    }
    if e2 >= 0 {
        s.push_str(&(m2 << e2 as u32).to_string());
    } else {
        // m2 / 2^k = m2 * 5^k / 10^k
        let k = (-e2) as u32;
        let d = (m2 * BigUint::from(5u32).pow(k)).to_string();
        s.push_str(&format!("{d}e-{k}"));
        return expand(&s);
    }
    s.push_str(".0");
    s
}

/// `DDDDe-K` as plain decimal notation.
fn expand(s: &str) -> String {
    let (m, k) = s.split_once("e-").unwrap();
    let k: usize = k.parse().unwrap();
    let (sign, d) = match m.strip_prefix('-') {
        Some(d) => ("-", d),
        None => ("", m),
    };
    let d = if d.len() <= k { format!("{}{d}", "0".repeat(k - d.len() + 1)) } else { d.to_string() };
    format!("{sign}{}.{}", &d[..d.len() - k], &d[d.len() - k..])
}
