//! What a run observed.
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Ctx {
    pub idx: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub distinct_obs: BTreeMap<String, HashSet<u64>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub idx: u64,
    pub what: String,
}

impl Ctx {
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    /// a non-trivial execution; counted once per distinct key
    pub fn nontrivial(&mut self, key: u64) {
        self.distinct.insert(key);
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// count distinct things seen, under a name
    pub fn seen(&mut self, k: &str, key: u64) {
        match self.distinct_obs.get_mut(k) {
            Some(s) => {
                s.insert(key);
            }
            None => {
                self.distinct_obs.insert(k.to_string(), HashSet::from([key]));
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, what: String) {
        if self.violations.len() < 20 {
            let idx = self.idx;
            self.violations.push(Violation { idx, what });
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        for (k, v) in o.distinct_obs {
            self.distinct_obs.entry(k).or_default().extend(v);
        }
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
