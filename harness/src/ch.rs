//! Decoder from a vector of raw choices (drawn and shrunk by proptest) to structured values.
//! A raw choice of 0, and everything after the end of the vector, means "the simplest option".

pub struct Ch<'a> {
    d: &'a [u32],
    i: usize,
}

impl<'a> Ch<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Ch { d, i: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.d.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.i >= self.d.len()
    }
    pub fn left(&self) -> usize {
        self.d.len().saturating_sub(self.i)
    }
    /// 0..n, monotone in the raw choice so that shrinking the choice shrinks the value
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as u32
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; simplest: false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'t, T: ?Sized>(&mut self, xs: &'t [T]) -> &'t T
    where
        T: Sized,
    {
        &xs[self.idx(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        w.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    /// mostly small sizes, now and then larger ones, up to `max`
    pub fn size(&mut self, max: usize) -> usize {
        let s = match self.weighted(&[40, 25, 20, 8, 5, 2]) {
            0 => self.range(0, 2),
            1 => self.range(2, 5),
            2 => self.range(4, 12),
            3 => self.range(12, 40),
            4 => self.range(30, 140),
            _ => self.range(120, 1500),
        } as usize;
        s.min(max)
    }
}
