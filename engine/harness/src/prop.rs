//! What a check is, what it observed, and how a violation is reported.
use crate::flight::Flight;
use crate::rng::Rng;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    /// callbacks / oracle observations
    pub events: u64,
    pub states: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Cov {
    pub fn state(&mut self, s: &str) {
        *self.states.entry(s.to_string()).or_default() += 1;
    }
    pub fn count(&mut self, s: &str) {
        self.state(s);
    }
    pub fn distinct(&mut self, key: &str) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 5 {
            self.samples.push(s.into());
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub signature: String,
    pub detail: String,
    pub trace: Vec<String>,
    pub config: String,
}

impl Violation {
    pub fn new(signature: impl Into<String>, detail: impl Into<String>) -> Self {
        Violation { signature: signature.into(), detail: detail.into(), trace: vec![], config: String::new() }
    }
    pub fn with(mut self, f: &Flight, config: &str) -> Self {
        self.trace = f.trace.clone();
        self.config = config.to_string();
        self
    }
    pub fn cfg(mut self, config: &str) -> Self {
        self.config = config.to_string();
        self
    }
    pub fn json(&self) -> J {
        json!({"signature": self.signature, "detail": self.detail, "trace": self.trace, "config": self.config})
    }
}

pub type Case = fn(&mut Rng, &mut Cov) -> Result<(), Violation>;
/// A fixed scenario; Err describes how the property fails in it.
pub type Probe = (&'static str, fn() -> Result<(), String>);

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: Case,
    pub probes: &'static [Probe],
    /// states a run must have observed to say anything
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
