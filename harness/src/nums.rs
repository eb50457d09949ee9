//! Independent specification of the numeric token patterns.
use crate::value::V;
use num_bigint::{BigInt, BigUint};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Int { base: u32, signed: bool, bits: u32 }, // bits 0: unbounded
    F32,
    F64,
    Bool,
}

/// Every numeric pattern of the prelude: (name, kind).
pub const ALL: &[(&str, Kind)] = &{
    use Kind::*;
    const fn i(base: u32, signed: bool, bits: u32) -> Kind {
        Int { base, signed, bits }
    }
    const PTR: u32 = usize::BITS;
    [
        ("u8", i(10, false, 8)),
        ("u16", i(10, false, 16)),
        ("u32", i(10, false, 32)),
        ("u64", i(10, false, 64)),
        ("u128", i(10, false, 128)),
        ("usize", i(10, false, PTR)),
        ("big_uint", i(10, false, 0)),
        ("i8", i(10, true, 8)),
        ("i16", i(10, true, 16)),
        ("i32", i(10, true, 32)),
        ("i64", i(10, true, 64)),
        ("i128", i(10, true, 128)),
        ("isize", i(10, true, PTR)),
        ("big_int", i(10, true, 0)),
        ("u8_bin", i(2, false, 8)),
        ("u16_bin", i(2, false, 16)),
        ("u32_bin", i(2, false, 32)),
        ("u64_bin", i(2, false, 64)),
        ("u128_bin", i(2, false, 128)),
        ("usize_bin", i(2, false, PTR)),
        ("big_uint_bin", i(2, false, 0)),
        ("i8_bin", i(2, true, 8)),
        ("i16_bin", i(2, true, 16)),
        ("i32_bin", i(2, true, 32)),
        ("i64_bin", i(2, true, 64)),
        ("i128_bin", i(2, true, 128)),
        ("isize_bin", i(2, true, PTR)),
        ("big_int_bin", i(2, true, 0)),
        ("u8_hex", i(16, false, 8)),
        ("u16_hex", i(16, false, 16)),
        ("u32_hex", i(16, false, 32)),
        ("u64_hex", i(16, false, 64)),
        ("u128_hex", i(16, false, 128)),
        ("usize_hex", i(16, false, PTR)),
        ("big_uint_hex", i(16, false, 0)),
        ("i8_hex", i(16, true, 8)),
        ("i16_hex", i(16, true, 16)),
        ("i32_hex", i(16, true, 32)),
        ("i64_hex", i(16, true, 64)),
        ("i128_hex", i(16, true, 128)),
        ("isize_hex", i(16, true, PTR)),
        ("big_int_hex", i(16, true, 0)),
        ("f32", F32),
        ("f64", F64),
        ("bool", Bool),
    ]
};

pub fn kind(name: &str) -> Kind {
    for (n, k) in ALL {
        if *n == name {
            return *k;
        }
    }
    panic!("no numeric pattern {name}")
}

fn digit_val(b: u8, base: u32) -> Option<u32> {
    let d = match b {
        b'0'..=b'9' => b - b'0',
        b'a'..=b'f' => b - b'a' + 10,
        b'A'..=b'F' => b - b'A' + 10,
        _ => return None,
    } as u32;
    (d < base).then_some(d)
}

/// Length of the token at the start of `s`, if there is one.
pub fn lex(k: Kind, s: &str) -> Option<usize> {
    let b = s.as_bytes();
    match k {
        Kind::Int { base, signed, .. } => {
            let mut i = 0;
            if signed && i < b.len() && (b[i] == b'+' || b[i] == b'-') {
                i += 1;
            }
            let st = i;
            while i < b.len() && digit_val(b[i], base).is_some() {
                i += 1;
            }
            (i > st).then_some(i)
        }
        Kind::Bool => ["true", "false"].iter().find(|w| s.starts_with(**w)).map(|w| w.len()),
        Kind::F32 | Kind::F64 => {
            let dig = |mut i: usize| {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                i
            };
            let mut i = 0;
            if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
                i += 1;
            }
            for w in ["infinity", "inf", "nan"] {
                if b.len() >= i + w.len() && b[i..i + w.len()].eq_ignore_ascii_case(w.as_bytes()) {
                    return Some(i + w.len());
                }
            }
            let int_end = dig(i);
            let mut end = int_end;
            let mut digits = int_end - i;
            if end < b.len() && b[end] == b'.' {
                let frac_end = dig(end + 1);
                let frac = frac_end - end - 1;
                if digits + frac > 0 {
                    digits += frac;
                    end = frac_end;
                }
            }
            if digits == 0 {
                return None;
            }
            if end < b.len() && (b[end] == b'e' || b[end] == b'E') {
                let mut j = end + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                let e = dig(j);
                if e > j {
                    end = e;
                }
            }
            Some(end)
        }
    }
}

/// Digit-by-digit value of an integer token.
pub fn int_value(tok: &str, base: u32) -> BigInt {
    let (neg, digits) = match tok.as_bytes()[0] {
        b'-' => (true, &tok[1..]),
        b'+' => (false, &tok[1..]),
        _ => (false, tok),
    };
    // Accumulate in chunks of machine words: acc = acc * base^k + chunk.
    let mut acc = BigUint::from(0u32);
    let mut chunk: u64 = 0;
    let mut scale: u64 = 1;
    for b in digits.bytes() {
        let d = digit_val(b, base).expect("digit") as u64;
        chunk = chunk * base as u64 + d;
        scale *= base as u64;
        if scale > 1 << 50 {
            acc = acc * scale + chunk;
            chunk = 0;
            scale = 1;
        }
    }
    acc = acc * scale + chunk;
    let v = BigInt::from(acc);
    if neg {
        -v
    } else {
        v
    }
}

pub fn int_range(signed: bool, bits: u32) -> (BigInt, BigInt) {
    let one = BigInt::from(1);
    if signed {
        let h = &one << (bits - 1);
        (-&h, h - one)
    } else {
        (BigInt::from(0), (&one << bits) - one)
    }
}

/// Value of the token (which `lex` delimited), or an explanation why it is out of range.
pub fn value(k: Kind, tok: &str) -> Result<V, Oor> {
    match k {
        Kind::Int { base, signed, bits } => {
            // quick path: short tokens
            let v = int_value(tok, base);
            if bits != 0 {
                let (lo, hi) = int_range(signed, bits);
                if v > hi {
                    return Err(Oor::TooLarge);
                }
                if v < lo {
                    return Err(Oor::TooSmall);
                }
            }
            Ok(V::Int(v.to_string()))
        }
        Kind::Bool => Ok(V::Bool(tok == "true")),
        Kind::F64 => Ok(V::F64(tok.parse::<f64>().expect("std accepts").to_bits())),
        Kind::F32 => Ok(V::F32(tok.parse::<f32>().expect("std accepts").to_bits())),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Oor {
    TooLarge,
    TooSmall,
}

impl Oor {
    /// The explanation the standard library gives for this case.
    pub fn message(self) -> String {
        match self {
            Oor::TooLarge => "256".parse::<u8>().unwrap_err().to_string(),
            Oor::TooSmall => "-129".parse::<i8>().unwrap_err().to_string(),
        }
    }
}

pub fn type_name(name: &str) -> &'static str {
    let base = name.trim_end_matches("_bin").trim_end_matches("_hex");
    use std::any::type_name as t;
    match base {
        "u8" => t::<u8>(),
        "u16" => t::<u16>(),
        "u32" => t::<u32>(),
        "u64" => t::<u64>(),
        "u128" => t::<u128>(),
        "usize" => t::<usize>(),
        "i8" => t::<i8>(),
        "i16" => t::<i16>(),
        "i32" => t::<i32>(),
        "i64" => t::<i64>(),
        "i128" => t::<i128>(),
        "isize" => t::<isize>(),
        "big_uint" => t::<BigUint>(),
        "big_int" => t::<BigInt>(),
        "f32" => t::<f32>(),
        "f64" => t::<f64>(),
        "bool" => t::<bool>(),
        _ => panic!("{name}"),
    }
}
