//! splitmix64
pub struct Rng(std::cell::Cell<u64>);

impl Rng {
    pub fn new(seed: u64, tag: &str, i: u64) -> Self {
        let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ i.wrapping_mul(0xd1342543de82ef95);
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let r = Rng(std::cell::Cell::new(h));
        r.next();
        r.next();
        r
    }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9e3779b97f4a7c15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// [0,1), multiples of 2^-20: few bits keep the exact arithmetic of the checker cheap
    pub fn unit(&self) -> f64 {
        (self.next() >> 44) as f64 / (1u64 << 20) as f64
    }
    /// [0,1), all bits
    pub fn full(&self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn one_in(&self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Clone>(&self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    /// An index with the given weights
    pub fn weighted(&self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        0
    }
}
