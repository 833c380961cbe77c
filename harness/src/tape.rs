//! A small property-based-testing engine: every random choice of a case is a number on a
//! "choice tape".  Fresh cases draw the tape from a seeded PRNG, replays read it back, and
//! shrinking edits the tape (drop spans, zero, minimise) and re-runs the case.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Tape {
    rng: Option<Rng>,
    input: Vec<u64>,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), input: vec![], rec: vec![], spans: vec![], open: vec![] }
    }
    pub fn replay(input: Vec<u64>) -> Self {
        Tape { rng: None, input, rec: vec![], spans: vec![], open: vec![] }
    }
    /// uniform in 0..n (n >= 1); 0 is the "simplest" value
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            None => {
                let i = self.rec.len();
                let raw = self.input.get(i).copied().unwrap_or(0);
                if raw < n { raw } else { raw % n }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn raw64(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => self.input.get(self.rec.len()).copied().unwrap_or(0),
        };
        self.rec.push(v);
        v
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // map so that 0 => false
        self.below(den) >= den - num
    }
    pub fn range_i(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// weighted choice: returns index
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    /// log-uniform u128 with at most `bits` bits
    pub fn log_u128(&mut self, bits: u32) -> u128 {
        let b = self.below(bits as u64 + 1) as u32;
        self.bits_u128(b)
    }
    /// value with exactly `b` significant bits (0 for b = 0), with round values favoured
    pub fn bits_u128(&mut self, b: u32) -> u128 {
        if b == 0 {
            return 0;
        }
        let top = 1u128 << (b - 1);
        match self.below(4) {
            0 => top,
            1 => top | (top - 1), // all ones
            _ => {
                let hi = self.raw64() as u128;
                let lo = if b > 64 { self.raw64() as u128 } else { 0 };
                let r = if b > 64 { (hi << 64) | lo } else { hi };
                top | (r & (top - 1))
            }
        }
    }
    pub fn u128_below(&mut self, n: u128) -> u128 {
        if n <= u64::MAX as u128 {
            return self.below(n as u64) as u128;
        }
        let hi = self.raw64() as u128;
        let lo = self.raw64() as u128;
        ((hi << 64) | lo) % n
    }
    pub fn begin(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn end(&mut self) {
        let s = self.open.pop().unwrap();
        let e = self.rec.len();
        if e > s {
            self.spans.push((s, e));
        }
    }
}

/// Shrink a failing tape. `run` returns Some((recorded choices, spans)) when the candidate
/// still fails with the same kind of violation.
pub fn shrink(
    start: Vec<u64>,
    spans: Vec<(usize, usize)>,
    budget: usize,
    deadline: std::time::Instant,
    run: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>,
) -> Vec<u64> {
    let mut best = start;
    let mut best_spans = spans;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 || std::time::Instant::now() > deadline {
                return best;
            }
            left -= 1;
            match run(&cand) {
                Some((rec, sp)) if less(&rec, &best) => {
                    best = rec;
                    best_spans = sp;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // 1. drop whole spans, longest first
        let mut progress = true;
        while progress {
            progress = false;
            let mut sp = best_spans.clone();
            sp.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
            sp.dedup();
            for (s, e) in sp {
                if e > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(s..e);
                if attempt!(c) {
                    progress = true;
                    break;
                }
            }
        }
        // 2. drop / zero chunks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if attempt!(c) {
                    continue;
                }
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + size] {
                        *v = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        // 3. minimise values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut tries = 0;
            while i < best.len() && lo < best[i] && tries < 66 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
                tries += 1;
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn less(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}
