//! Choice-tape generation: every random decision of a case is one `u64` on a tape.
//! Replaying a tape replays the case; shrinking a tape shrinks the case.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// A source of choices. Smaller choices are simpler; an exhausted tape yields 0.
pub struct G {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    recent: Vec<String>,
    recent_ints: Vec<i64>,
    /// Repeats texts and numbers much more often.
    sticky: bool,
}

impl G {
    pub fn random(seed: u64) -> Self {
        G { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), recent: Vec::new(), recent_ints: Vec::new(), sticky: false }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        G { tape, pos: 0, rng: None, recent: Vec::new(), recent_ints: Vec::new(), sticky: false }
    }
    /// The texts of this case, for another case to echo.
    pub fn words(&self) -> (Vec<String>, Vec<i64>) {
        (self.recent.clone(), self.recent_ints.clone())
    }
    pub fn with_words(mut self, words: &(Vec<String>, Vec<i64>)) -> Self {
        self.recent = words.0.iter().take(8).cloned().collect();
        self.recent_ints = words.1.iter().take(8).copied().collect();
        self.sticky = !self.recent.is_empty() || !self.recent_ints.is_empty();
        self
    }
    /// Remembers a text of this case, so that another place of the case may hold the same text.
    pub fn note(&mut self, s: &str) {
        if self.recent.len() < 24 && s.len() < 200 {
            self.recent.push(s.to_string());
        }
    }
    pub fn note_int(&mut self, n: i64) {
        if self.recent_ints.len() < 24 {
            self.recent_ints.push(n);
        }
    }
    /// A text that this case already holds, now and then.
    pub fn echo(&mut self, den: u64) -> Option<String> {
        let den = if self.sticky { den.min(3) } else { den };
        if self.recent.is_empty() || !self.chance(1, den) {
            return None;
        }
        let i = self.idx(self.recent.len());
        Some(self.recent[i].clone())
    }
    pub fn echo_int(&mut self, den: u64) -> Option<i64> {
        let den = if self.sticky { den.min(3) } else { den };
        if self.recent_ints.is_empty() || !self.chance(1, den) {
            return None;
        }
        let i = self.idx(self.recent_ints.len());
        Some(self.recent_ints[i])
    }
    /// Every choice recorded so far.
    pub fn used_all(&self) -> Vec<u64> {
        self.tape.clone()
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next() % n;
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        match &mut self.rng {
            Some(r) => {
                let v = r.next();
                self.tape.push(v);
                self.pos += 1;
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

/// Shrinks `tape` while `fails` keeps returning true. Bounded by `budget` evaluations.
pub fn shrink(tape: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = tape;
    let mut left = budget;
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_one(c, &mut best, &mut left) {
                    i += size.max(1);
                }
                if left == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    try_one(c, &mut best, &mut left);
                }
                i += size;
                if left == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut steps = 0;
            while lo < hi && steps < 20 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if try_one(c, &mut best, &mut left) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                steps += 1;
                if left == 0 {
                    return best;
                }
            }
            i += 1;
        }
        // drop a choice and decrement the one before it (shortens counted lists)
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                try_one(c, &mut best, &mut left);
            }
            i += 1;
            if left == 0 {
                return best;
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return best;
        }
    }
}
