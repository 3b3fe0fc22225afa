//! What a worker observed: oracle evaluations, distinct non-trivial cases, coverage counters,
//! samples, violations and known findings. Written as JSON for check.py to merge.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub struct Fail {
    pub idx: i64,
    pub what: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Rep {
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub idx: i64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub cover: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub known: Vec<String>,
    /// what the current case is running, for crash reports and panics outside of the engine
    pub current: String,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Rep {
    /// One oracle evaluation whose outcome was compared; `key` identifies the case.
    pub fn ok<T: Hash + ?Sized>(&mut self, key: &T) {
        self.evals += 1;
        if self.distinct.len() < 400_000 {
            self.distinct.insert(hash(key));
        }
    }
    /// An oracle evaluation that is not counted as a distinct non-trivial case.
    pub fn trivial(&mut self) {
        self.evals += 1;
    }
    pub fn cover(&mut self, what: &str) {
        self.cover_n(what, 1);
    }
    pub fn cover_n(&mut self, what: &str, n: u64) {
        if let Some(c) = self.cover.get_mut(what) {
            *c += n;
        } else {
            self.cover.insert(what.to_string(), n);
        }
    }
    /// Where a replay is, so that a crash of the message parser is not taken for one of the engine.
    pub fn phase(&self, p: &str) {
        if self.verbose {
            use std::io::Write;
            println!("\nphase {p}");
            let _ = std::io::stdout().flush();
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut t = s();
            if t.len() > 600 {
                let mut p = 600;
                while !t.is_char_boundary(p) {
                    p -= 1;
                }
                t.truncate(p);
            }
            self.samples.push(t);
        }
    }
    pub fn fail(&mut self, what: impl Into<String>, detail: impl Into<String>) {
        let what = what.into();
        let detail = detail.into();
        if self.verbose {
            println!("FAIL {what}\n{detail}");
        }
        if self.fails.len() < 20 {
            self.fails.push(Fail { idx: self.idx, what, detail });
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o += &format!("\"evals\":{},", self.evals);
        o += "\"cover\":{";
        o += &self.cover.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"samples\":[";
        o += &self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        o += "],\"known\":[";
        o += &self.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        o += "],\"fails\":[";
        o += &self
            .fails
            .iter()
            .map(|f| format!("{{\"idx\":{},\"what\":{},\"detail\":{}}}", f.idx, js(&f.what), js(&f.detail)))
            .collect::<Vec<_>>()
            .join(",");
        o += "]}";
        o
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
