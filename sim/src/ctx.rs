//! What a simulated run reports: violation or not, faults fired, steps, digest of what happened.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn bad<T>(kind: &str, msg: String) -> Result<T, Violation> {
    Err(Violation {
        kind: kind.to_string(),
        msg,
    })
}

#[derive(Default)]
pub struct Ctx {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// Steps of the simulation: library calls, VM calls and scheduling points.
    pub steps: u64,
    /// Digest of the scenario (inputs, schedule and faults as they happened).
    pub case: u64,
    /// Digest of everything observed.
    pub seen: u64,
    /// Digest of the interleaving alone, where there is one.
    pub inter: Option<u64>,
    pub nontrivial: bool,
    /// The run had no verdict (nothing applicable was generated, or a client blocked for real).
    pub no_verdict: bool,
    pub sample: String,
    pub trace: Option<Vec<String>>,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf2_9ce4_8422_2325 } else { h };
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

impl Ctx {
    pub fn fault(&mut self, k: &str) {
        self.faults_n(k, 1);
    }
    pub fn faults_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn case(&mut self, s: &str) {
        self.case = fnv(self.case, s.as_bytes());
        self.case = fnv(self.case, &[0xff]);
    }
    pub fn see(&mut self, s: &str) {
        self.seen = fnv(self.seen, s.as_bytes());
        self.seen = fnv(self.seen, &[0xff]);
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            let s = s();
            t.push(s);
        }
    }
}

/// First lines of a text, for messages.
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

/// Without control characters other than line ends.
pub fn printable(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_control() && c != '\n' { c.escape_default().to_string() } else { c.to_string() })
        .collect()
}
