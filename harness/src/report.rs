//! What a run observed, and its verdict.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Report {
    /// Cases executed and judged by the oracle.
    pub evaluations: u64,
    /// Signatures of the distinct, non-trivial cases.
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub inconclusive: Vec<String>,
    /// Description of the current case for violations.
    pub case: Value,
    pub case_violated: bool,
}

pub const MAX_VIOLATIONS: usize = 5;

impl Report {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1)
    }

    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_owned()).or_insert(0) += n;
    }

    /// Count the distinct values seen under a name.
    pub fn seen(&mut self, name: &str, h: u64) {
        self.sets.entry(name.to_owned()).or_default().insert(h);
    }

    pub fn distinct<S: AsRef<[u8]>>(&mut self, sig: S) {
        self.distinct.insert(crate::rng::hash_bytes(sig.as_ref()));
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 4 {
            self.samples.push(v);
        }
    }

    pub fn violation<S: Into<String>>(&mut self, message: S) {
        let message = message.into();
        self.case_violated = true;
        if self.violations.len() < MAX_VIOLATIONS {
            self.violations
                .push(json!({"message": message, "case": self.case.clone()}));
        }
    }

    /// A failure that matches the exact signature of a listed finding.
    pub fn known_finding(&mut self, id: &str, message: String) {
        let e = self.known.entry(id.to_owned()).or_insert((0, message));
        e.0 += 1;
    }

    pub fn inconclusive<S: Into<String>>(&mut self, message: S) {
        if self.inconclusive.len() < 20 {
            self.inconclusive.push(message.into());
        }
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= MAX_VIOLATIONS
    }

    pub fn to_json(&self) -> Value {
        let mut sets = Map::new();
        for (k, v) in &self.sets {
            // Hashes, so that shards can be merged.
            sets.insert(k.clone(), v.iter().map(|h| json!(format!("{:x}", h))).collect());
        }
        json!({
            "evaluations": self.evaluations,
            "distinct": self.distinct.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>(),
            "counters": self.counters,
            "sets": sets,
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known.iter().map(|(k, (n, m))| json!({"id": k, "count": n, "message": m})).collect::<Vec<_>>(),
            "inconclusive": self.inconclusive,
        })
    }
}
