//! Choice sequences: every run is a function of two of them.

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5DEECE66D);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32) * n as u64 >> 32) as u32
    }
}

#[derive(Clone, Debug)]
enum Src {
    Gen(Rng),
    Replay(Vec<u32>),
}

/// 0 is always the simplest choice; a replayed tape continues with zeros.
#[derive(Clone, Debug)]
pub struct Tape {
    src: Src,
    rec: Vec<u32>,
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { src: Src::Gen(Rng::new(seed)), rec: Vec::with_capacity(1 << 12) }
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Tape { src: Src::Replay(v), rec: Vec::with_capacity(1 << 12) }
    }
    /// A value in `0..n`.
    pub fn draw(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match &mut self.src {
            Src::Gen(r) => r.below(n),
            Src::Replay(v) => v.get(self.rec.len()).copied().unwrap_or(0) % n,
        };
        self.rec.push(v);
        v
    }
    /// True with probability 1/n (0 on the tape is false).
    pub fn one_in(&mut self, n: u32) -> bool {
        let v = match &mut self.src {
            Src::Gen(r) => (r.below(n.max(1)) == 0) as u32,
            Src::Replay(v) => v.get(self.rec.len()).copied().unwrap_or(0) % 2,
        };
        self.rec.push(v);
        v == 1
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        let v = match &mut self.src {
            Src::Gen(r) => (r.below(den) < num) as u32,
            Src::Replay(v) => v.get(self.rec.len()).copied().unwrap_or(0) % 2,
        };
        self.rec.push(v);
        v == 1
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.draw(v.len() as u32) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let v = match &mut self.src {
            Src::Gen(r) => {
                let mut x = r.below(total);
                let mut k = 0;
                while x >= w[k] {
                    x -= w[k];
                    k += 1;
                }
                k as u32
            }
            Src::Replay(v) => v.get(self.rec.len()).copied().unwrap_or(0) % w.len() as u32,
        };
        self.rec.push(v);
        v as usize
    }
    pub fn replay_exhausted(&self) -> bool {
        matches!(&self.src, Src::Replay(v) if self.rec.len() >= v.len())
    }
    pub fn record(&self) -> &[u32] {
        &self.rec
    }
}
