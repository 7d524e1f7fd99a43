//! A case: one execution (or small batch) of the code under test with an oracle.
use std::collections::BTreeMap;

use crate::rng::{self, Rng};

/// Err = the property is violated, with the witness.
pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<String>,
    /// defects with a name of their own, which may be listed as known: (key, message)
    pub findings: Vec<(String, String)>,
    pub want_samples: bool,
    /// printed by `case`
    pub verbose: bool,
}

impl Cx {
    pub fn new(prop: &str, fam: &str, idx: u64, seed: u64, tier: Tier) -> Cx {
        let key = rng::hash(format!("{prop}/{fam}/{idx}/{seed}").as_bytes());
        Cx {
            rng: Rng::new(key),
            idx,
            seed,
            tier,
            evals: 0,
            counters: BTreeMap::new(),
            hashes: vec![],
            samples: vec![],
            findings: vec![],
            want_samples: false,
            verbose: false,
        }
    }
    /// one judged execution, identified by its input; `nontrivial` by the family's rule
    pub fn eval(&mut self, input: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.hashes.push(rng::hash(input));
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }
    pub fn finding(&mut self, key: String, msg: String) {
        self.findings.push((key, msg));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_samples && self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx) -> Res,
}

pub fn fam(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Cx) -> Res) -> Family {
    Family { name, quick, thorough, run }
}

pub struct Prop {
    pub id: &'static str,
    pub families: Vec<Family>,
    /// counters that must be at least this large, or the run has observed too little
    pub need: Vec<(&'static str, u64)>,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn clip(s: &str) -> String {
    if s.len() <= 4000 {
        return format!("{s:?}");
    }
    let mut a = 2000;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - 1000;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{:?} ...[{} bytes]... {:?}", &s[..a], s.len(), &s[b..])
}
