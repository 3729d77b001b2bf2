//! A recorded source of choices. Every generated value is a function of a
//! finite sequence of integers, so a failing case is shrunk by shrinking the
//! sequence and replayed by replaying it. A choice of 0 is always the simplest.

pub struct Gen {
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    state: u64,
    burst: bool,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9abc_def0u64;
    for p in parts {
        s ^= *p;
        splitmix(&mut s);
        s = s.rotate_left(17) ^ splitmix(&mut s.clone());
    }
    s
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { replay: None, rec: Vec::new(), state: seed, burst: false }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Gen { replay: Some(choices), rec: Vec::new(), state: 0, burst: false }
    }
    /// A value in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => c.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                let r = splitmix(&mut self.state);
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        v
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &self.replay {
            Some(c) => c.get(self.rec.len()).copied().unwrap_or(0),
            None => splitmix(&mut self.state),
        };
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num/den`; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, items: &[&'a T]) -> &'a T {
        items[self.usize(items.len())]
    }
    pub fn choose<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.usize(items.len())].clone()
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// A small count: geometric-ish, 0 simplest, at most `max`.
    pub fn count(&mut self, max: usize) -> usize {
        let m = self.weighted(&[6, 3, 1]);
        let cap = match m {
            0 => 2.min(max),
            1 => 4.min(max),
            _ => max,
        };
        self.usize(cap + 1)
    }
    /// A count that is usually small, but once in a while (at most once per
    /// case) far beyond what a short list would have.
    pub fn many(&mut self, max: usize) -> usize {
        if !self.burst && self.chance(1, 1200) {
            self.burst = true;
            return match self.usize(7) {
                0 | 1 => self.range(5, 20),
                2 | 3 => self.range(21, 70),
                4 | 5 => self.range(60, 140),
                _ => self.range(120, 290),
            };
        }
        if self.chance(1, 40) {
            return max + self.range(1, 3);
        }
        self.count(max)
    }
    /// An i64 with interesting magnitudes and boundaries.
    pub fn i64(&mut self) -> i64 {
        match self.weighted(&[5, 4, 3, 2, 2]) {
            0 => self.below(10) as i64,
            1 => self.below(2000) as i64 - 1000,
            2 => {
                let b = self.choose(&[
                    i8::MIN as i64, i8::MAX as i64, i16::MIN as i64, i16::MAX as i64,
                    i32::MIN as i64, i32::MAX as i64, i64::MIN, i64::MAX, 0, 1 << 53, u32::MAX as i64,
                ]);
                let d = self.below(5) as i64 - 2;
                b.saturating_add(d)
            }
            3 => {
                let bits = self.below(63) as u32;
                let v = self.raw() >> (63 - bits);
                let v = (v & (i64::MAX as u64)) as i64;
                if self.bool() { -v } else { v }
            }
            _ => self.raw() as i64,
        }
    }
}

/// Shrink `choices` while `fails` keeps returning true.
pub fn shrink(mut best: Vec<u64>, budget: usize, deadline: std::time::Instant, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut left = budget;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || std::time::Instant::now() > deadline || cand == *best {
            return false;
        }
        *left -= 1;
        if let Some(rec) = fails(&cand) {
            let smaller = (rec.len(), rec.clone()) < (best.len(), best.clone());
            if smaller {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if !attempt(c, &mut best, &mut left) {
                    i += size;
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // zero chunks
        let mut size = best.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                if c[i..end].iter().any(|&v| v != 0) {
                    c[i..end].iter_mut().for_each(|v| *v = 0);
                    attempt(c, &mut best, &mut left);
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(c, &mut best, &mut left) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // lower a value and drop the choices after it (a count and one of its items)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for k in 1..=6usize {
                    if i >= best.len() || i + 1 + k > best.len() || best[i] == 0 { break; }
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    attempt(c, &mut best, &mut left);
                }
            }
            i += 1;
        }
        if best == before || left == 0 || std::time::Instant::now() > deadline {
            return best;
        }
    }
}
