//! The value domain shared by the library under test (through conversions) and the reference model.

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum V {
    Unit,
    Bool(bool),
    Char(char),
    Idx(usize),
    /// canonical decimal rendering of an integer of any width
    Int(String),
    F64(u64),
    F32(u32),
    Str(String),
    Tup(Vec<V>),
    List(Vec<V>),
    Opt(Option<Box<V>>),
    /// result of a conversion with this id
    Conv(u32, Vec<V>),
}

impl V {
    /// The text `{:?}` prints for the corresponding Rust value.
    pub fn dbg(&self) -> String {
        let mut s = String::new();
        self.dbg_into(&mut s);
        s
    }
    fn dbg_into(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            V::Unit => o.push_str("()"),
            V::Bool(b) => write!(o, "{b:?}").unwrap(),
            V::Char(c) => write!(o, "{c:?}").unwrap(),
            V::Idx(i) => write!(o, "{i}").unwrap(),
            V::Int(s) => o.push_str(s),
            V::F64(b) => write!(o, "{:?}", f64::from_bits(*b)).unwrap(),
            V::F32(b) => write!(o, "{:?}", f32::from_bits(*b)).unwrap(),
            V::Str(s) => write!(o, "{s:?}").unwrap(),
            V::Tup(xs) => {
                o.push('(');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.dbg_into(o);
                }
                o.push(')');
            }
            V::List(xs) => {
                o.push('[');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.dbg_into(o);
                }
                o.push(']');
            }
            V::Opt(None) => o.push_str("None"),
            V::Opt(Some(x)) => {
                o.push_str("Some(");
                x.dbg_into(o);
                o.push(')');
            }
            V::Conv(id, xs) => {
                write!(o, "c{id}").unwrap();
                V::Tup(xs.clone()).dbg_into(o);
            }
        }
    }
    pub fn hash64(&self) -> u64 {
        V::hash_all(std::slice::from_ref(self))
    }
    /// Structural hash; looks at the first few hundred nodes only, because conversions nested
    /// deep in one another would otherwise be hashed once per level.
    pub fn hash_all(xs: &[V]) -> u64 {
        let mut budget = 400;
        let mut h = xs.len() as u64;
        for x in xs {
            x.hash_into(&mut h, &mut budget);
        }
        h
    }
    fn hash_into(&self, h: &mut u64, budget: &mut u32) {
        use crate::rng::{hash_str, mix};
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let mut put = |x: u64| *h = mix(*h ^ mix(x));
        let kids: &[V] = match self {
            V::Unit => {
                put(1);
                &[]
            }
            V::Bool(b) => {
                put(2 + *b as u64);
                &[]
            }
            V::Char(c) => {
                put(1 << 32 | *c as u64);
                &[]
            }
            V::Idx(i) => {
                put(2 << 32 | *i as u64);
                &[]
            }
            V::Int(s) => {
                put(3 ^ hash_str(s));
                &[]
            }
            V::F64(b) => {
                put(4 ^ mix(*b));
                &[]
            }
            V::F32(b) => {
                put(5 ^ mix(*b as u64));
                &[]
            }
            V::Str(s) => {
                put(6 ^ hash_str(s));
                &[]
            }
            V::Opt(None) => {
                put(7);
                &[]
            }
            V::Opt(Some(x)) => {
                put(8);
                std::slice::from_ref(&**x)
            }
            V::Tup(xs) => {
                put(9 << 32 | xs.len() as u64);
                xs
            }
            V::List(xs) => {
                put(10 << 32 | xs.len() as u64);
                xs
            }
            V::Conv(id, xs) => {
                put(11 << 40 | (*id as u64) << 8 | xs.len() as u64);
                xs
            }
        };
        for k in kids {
            k.hash_into(h, budget);
        }
    }
}
