//! Source of random choices: every choice a case makes is one bounded draw that is recorded on a
//! tape. A tape replays the case exactly; shrinking works on the tape (Hypothesis style), so it
//! applies to values, blocks, operation histories and fault positions alike.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    /// classes this case fell in (for the evidence)
    pub labels: Vec<&'static str>,
    /// short description of the generated case
    pub sample: Option<String>,
    pub nontrivial: bool,
    pub excluded: Vec<String>,
    /// choices are appended here as they are made (survives the death of the process)
    pub log: Option<std::fs::File>,
    /// print the case before running it
    pub show: bool,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(Rng::new(seed)))
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Self::with(Mode::Replay(tape, 0))
    }
    fn with(mode: Mode) -> Self {
        Src {
            mode,
            tape: vec![],
            labels: vec![],
            sample: None,
            nontrivial: false,
            excluded: vec![],
            log: None,
            show: false,
        }
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                if n == u64::MAX {
                    x
                } else {
                    x % n
                }
            }
            Mode::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                if n == u64::MAX {
                    v
                } else {
                    v.min(n - 1)
                }
            }
        };
        self.tape.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn raw(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn range_i64(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.raw() as i64;
        }
        (lo as i128 + self.below(span as u64) as i128) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // true is the complex choice
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index by weight
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    /// describe the case
    pub fn say(&mut self, s: String) {
        if self.show {
            eprintln!("case: {s}");
        }
        self.sample = Some(s);
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// small sizes often, larger ones sometimes
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(8) {
            0..=4 => self.usize(0, max.min(4)),
            5 | 6 => self.usize(0, max.min(20)),
            _ => self.usize(0, max),
        }
    }
    /// an unsigned integer of `bits` bits, biased to edges
    pub fn uint(&mut self, bits: u32) -> u128 {
        let mask: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.below(8) {
            0 => self.below(4) as u128 & mask,
            1 => mask - self.below(3) as u128,
            2 => {
                // near a power of two
                let k = self.below(bits as u64) as u32;
                let base = 1u128 << k;
                match self.below(3) {
                    0 => base & mask,
                    1 => base.wrapping_sub(1) & mask,
                    _ => base.wrapping_add(1) & mask,
                }
            }
            3 => self.below(256) as u128 & mask,
            _ => {
                let lo = self.raw() as u128;
                let hi = if bits > 64 { self.raw() as u128 } else { 0 };
                ((hi << 64) | lo) & mask
            }
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(4) {
            0 => {
                let b = self.below(256) as u8;
                vec![b; n]
            }
            _ => {
                let mut out = Vec::with_capacity(n);
                while out.len() < n {
                    let w = self.raw().to_le_bytes();
                    let k = (n - out.len()).min(8);
                    out.extend_from_slice(&w[..k]);
                }
                out
            }
        }
    }
    /// length for strings: crosses the 1/2-byte varint boundary now and then
    pub fn strlen(&mut self) -> usize {
        match self.below(16) {
            0..=9 => self.usize(0, 8),
            10..=12 => self.usize(0, 40),
            13 => self.usize(126, 130),
            14 => self.usize(0, 400),
            _ => {
                if self.chance(1, 12) {
                    self.usize(16380, 16390)
                } else {
                    self.usize(0, 3)
                }
            }
        }
    }
    pub fn utf8(&mut self, n: usize) -> String {
        const ALPH: &[char] = &[
            'a', 'b', 'Z', '0', '9', ' ', '_', '\'', '"', '\\', '`', ',', '(', ')', '\n', '\t', '\0', 'é', 'ß', 'Ж',
            '中', '😀', '%', '&', '=', ';', '-', '/', '.',
        ];
        let mut s = String::new();
        while s.len() < n {
            s.push(*self.pick(ALPH));
        }
        s
    }
    pub fn ident(&mut self) -> String {
        const A: &[char] = &['a', 'b', 'c', 'x', 'y', '_', 'A', 'Q', '1', '7'];
        let n = self.usize(1, 6);
        (0..n).map(|_| *self.pick(A)).collect()
    }
}

/// Shrink a failing tape. `fails` must return true when the candidate still fails the same way.
pub fn shrink(tape: Vec<u64>, budget: usize, time_ms: u128, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut best = tape;
    let mut left = budget;
    macro_rules! try_it {
        ($c:expr) => {{
            if left == 0 || t0.elapsed().as_millis() > time_ms {
                return best;
            }
            left -= 1;
            let cand: Vec<u64> = $c;
            if cand != best && fails(&cand) {
                best = cand;
                true
            } else {
                false
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + k).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !try_it!(c) {
                    i += k;
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + k).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    try_it!(c);
                }
                i += k;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // minimise single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut steps = 0;
            while lo < hi && steps < 24 {
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if try_it!(c) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == before {
            return best;
        }
    }
}
