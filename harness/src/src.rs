//! Choice-sequence source: every generated case is a pure function of a sequence of bounded
//! integers.  Random generation records the sequence; shrinking edits it; a replay file stores it.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
}

pub struct Src {
    given: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

pub const MAX_CHOICES: usize = 400_000;

impl Src {
    pub fn random(rng: Rng) -> Self {
        Src { given: vec![], pos: 0, rng: Some(rng), rec: Vec::with_capacity(64) }
    }
    pub fn replay(given: Vec<u64>) -> Self {
        Src { given, pos: 0, rng: None, rec: Vec::with_capacity(64) }
    }
    /// Uniform in `0..n` (`n == 0`: any u64). Simplest value is 0.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if let Some(&v) = self.given.get(self.pos) {
            if n == 0 { v } else { v.min(n - 1) }
        } else if self.rec.len() >= MAX_CHOICES {
            0
        } else if let Some(r) = self.rng.as_mut() {
            r.below(n)
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; simplest is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index of the chosen weight; index 0 is simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// List whose length is geometric with the given mean, clamped to `min..=max`.
    pub fn list<T>(&mut self, min: usize, max: usize, mean: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = Vec::new();
        while out.len() < max {
            if out.len() >= min && self.below(mean + 1) == 0 {
                break;
            }
            out.push(f(self));
        }
        out
    }
    pub fn exact<T>(&mut self, n: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        (0..n).map(|_| f(self)).collect()
    }
    /// Integer of the given bit width: small values, boundaries and uniform values.
    pub fn num(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.weighted(&[4, 2, 3, 1]) {
            0 => self.below(max.min(16) + 1),
            1 => {
                let b = self.below(u64::from(bits)) as u32;
                let p = 1u64 << b;
                match self.below(3) {
                    0 => p,
                    1 => p.wrapping_sub(1) & max,
                    _ => p.wrapping_add(1) & max,
                }
            }
            2 => {
                if bits == 64 {
                    self.below(0)
                } else {
                    self.below(max + 1)
                }
            }
            _ => max - self.below(max.min(4) + 1),
        }
    }
    pub fn u8(&mut self) -> u8 {
        self.num(8) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.num(16) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.num(32) as u32
    }
    /// Bytes, one choice per byte.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    /// Cheap pseudo-random filler derived from a single choice (0 gives zeros).
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let seed = self.below(1 << 32);
        filler(seed, n)
    }
}

pub fn filler(seed: u64, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

/// Shrink a failing choice sequence. `fails` returns the canonical (re-recorded) choices when the
/// candidate still fails.
pub fn shrink(start: Vec<u64>, mut budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut cur = start;
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if budget == 0 {
                return cur;
            }
            if better(&cand, &cur) {
                budget -= 1;
                match fails(&cand) {
                    Some(canon) => {
                        cur = if better(&canon, &cand) { canon } else { cand };
                        true
                    }
                    None => false,
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = cur.clone();
        // Truncate.
        let mut k = cur.len() / 2;
        while k > 0 {
            if cur.len() > k && attempt!(cur[..cur.len() - k].to_vec()) {
                continue;
            }
            k /= 2;
        }
        // Delete blocks.
        for k in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let mut i = cur.len();
            while i >= k && i > 0 {
                let s = i - k;
                let mut c = cur.clone();
                if s + k <= c.len() {
                    c.drain(s..s + k);
                    if attempt!(c) {
                        i = i.min(cur.len());
                        continue;
                    }
                }
                i -= 1;
                if k > 8 {
                    i = i.saturating_sub(k / 2);
                }
            }
        }
        // Zero blocks.
        for k in [32usize, 8, 2, 1] {
            let mut i = 0;
            while i + k <= cur.len() {
                if cur[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = cur.clone();
                    c[i..i + k].fill(0);
                    attempt!(c);
                }
                i += k;
            }
        }
        // Minimise each value.
        let mut i = 0;
        while i < cur.len() {
            let v = cur[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v);
                while lo + 1 < hi && i < cur.len() {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = cur.clone();
                    c[i] = mid;
                    if attempt!(c) {
                        if i >= cur.len() {
                            break;
                        }
                        hi = cur[i].min(mid);
                    } else {
                        lo = mid;
                    }
                }
                if i < cur.len() && cur[i] > 0 {
                    let mut c = cur.clone();
                    c[i] -= 1;
                    attempt!(c);
                }
            }
            i += 1;
        }
        // Decrement + delete (explicit lengths).
        let mut i = 0;
        while i < cur.len() {
            if cur[i] > 0 {
                for k in [1usize, 2, 3, 4, 6, 8] {
                    for j in i + 1..(i + 4).min(cur.len()) {
                        if j + k <= cur.len() {
                            let mut c = cur.clone();
                            if c[i] == 0 {
                                break;
                            }
                            c[i] -= 1;
                            c.drain(j..j + k);
                            attempt!(c);
                            if i >= cur.len() {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if cur == before {
            return cur;
        }
    }
}
