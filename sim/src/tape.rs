//! The single source of every choice in a run: a tape of numbers, produced by one PRNG from the run's
//! seed, or given (replay, minimisation). Past the end of a given tape every choice is 0.
use std::io::Write;
use std::sync::{Arc, Mutex};

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct Inner {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    out: Option<std::fs::File>,
}

#[derive(Clone)]
pub struct Src(Arc<Mutex<Inner>>);

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        let out = std::env::var("SIM_TAPE_OUT")
            .ok()
            .map(|p| std::fs::File::create(p).expect("tape out"));
        Src(Arc::new(Mutex::new(Inner {
            tape: vec![],
            pos: 0,
            rng: Some(seed),
            out,
        })))
    }
    pub fn from_tape(tape: Vec<u64>) -> Src {
        Src(Arc::new(Mutex::new(Inner {
            tape,
            pos: 0,
            rng: None,
            out: None,
        })))
    }
    /// A number in 0..n.
    pub fn below(&self, n: u64) -> u64 {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let n = n.max(1);
        let p = g.pos;
        g.pos += 1;
        if p < g.tape.len() {
            return g.tape[p] % n;
        }
        let v = match g.rng {
            Some(s) => {
                let s2 = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                g.rng = Some(s2);
                let v = mix(s) % n;
                g.tape.push(v);
                v
            }
            None => 0,
        };
        if let Some(f) = g.out.as_mut() {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    }
    pub fn us(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// True with probability pct/100; a zero choice means false.
    pub fn pct(&self, pct: u64) -> bool {
        self.below(100) >= 100 - pct
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// State to carry on from in another process.
    pub fn state(&self) -> (Vec<u64>, usize, Option<u64>) {
        let g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        (g.tape.clone(), g.pos, g.rng)
    }
    pub fn carry_on(&self, tape: Vec<u64>, pos: usize, rng: Option<u64>) {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.tape = tape;
        g.pos = pos;
        g.rng = rng;
    }
    pub fn tape(&self) -> Vec<u64> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).tape.clone()
    }
    pub fn used(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).pos
    }
}
