use std::collections::{BTreeMap, HashSet};
#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.into(), n);
        }
    }
    #[allow(dead_code)]
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max_{k}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, k: &str, h: u64) {
        if !self.sets.contains_key(k) {
            self.sets.insert(k.into(), HashSet::new());
        }
        let s = self.sets.get_mut(k).unwrap();
        if s.len() < 200_000 {
            s.insert(h);
        }
    }
    pub fn seen_s(&mut self, k: &str, s: &str) {
        self.seen(k, crate::rng::hash_str(s));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            self.samples.push(s());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            let e = self.counts.entry(k.clone()).or_default();
            *e = if k.starts_with("max_") { (*e).max(v) } else { *e + v };
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        serde_json::json!({
            "counts": self.counts,
            "sets": self.sets,
            "samples": self.samples,
        })
    }
    pub fn from_json(v: &serde_json::Value) -> Stats {
        let mut s = Stats::default();
        for (k, x) in v["counts"].as_object().into_iter().flatten() {
            s.counts.insert(k.clone(), x.as_u64().unwrap_or(0));
        }
        for (k, x) in v["sets"].as_object().into_iter().flatten() {
            s.sets.insert(k.clone(), x.as_array().into_iter().flatten().filter_map(|y| y.as_u64()).collect());
        }
        for x in v["samples"].as_array().into_iter().flatten() {
            s.samples.push(x.as_str().unwrap_or("").to_string());
        }
        s
    }
}
