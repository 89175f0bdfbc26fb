//! The choice tape: every random decision of a generator is one bounded integer on it.
//! Fresh cases draw from an RNG and record; shrinking, mutation and replay edit the recorded integers.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        (((self.next() >> 32) * n as u64) >> 32) as u32
    }
}

/// a size around those at which counters and buffers tend to end
fn huge(r: &mut Rng, max: u32) -> u32 {
    const ROUND: [u32; 16] = [256, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536, 100_000];
    let v = match r.below(5) {
        0 => 65_530 + r.below(12),
        1 | 2 => ROUND[r.below(16) as usize] + r.below(5) - 2,
        _ => {
            let k = 7 + r.below(11);
            (1 << k) + r.below(1 << k)
        }
    };
    if v <= max { v } else { 300 + r.below(max.max(301) - 300) }.min(max)
}
/// Values learned about the code under test: constants it compares with and literals found in its sources.
#[derive(Clone, Default)]
pub struct Dict {
    pub ints: Vec<u32>,
    pub strs: Vec<Vec<u8>>,
    /// those of them that the sources did not hold when the checks were written: worth a closer look
    pub new_ints: Vec<u32>,
    pub new_strs: Vec<Vec<u8>>,
}
impl Dict {
    fn int(&self, r: &mut Rng) -> u32 {
        if !self.new_ints.is_empty() && r.below(2) == 0 {
            return self.new_ints[r.below(self.new_ints.len() as u32) as usize];
        }
        self.ints[r.below(self.ints.len() as u32) as usize]
    }
    fn str(&self, r: &mut Rng) -> Vec<u8> {
        if !self.new_strs.is_empty() && r.below(3) > 0 {
            return self.new_strs[r.below(self.new_strs.len() as u32) as usize].clone();
        }
        self.strs[r.below(self.strs.len() as u32) as usize].clone()
    }
}

pub struct Src<'d> {
    rng: Rng,
    replay: Vec<u32>,
    pos: usize,
    /// after the replayed prefix: draw (true) or return the simplest value (false)
    extend: bool,
    pub rec: Vec<u32>,
    pub dict: &'d Dict,
    pub labels: u64,
    /// the draws are over budget: generators should stop adding things
    limit: usize,
    /// something has been made huge: once per case is enough
    pub stretched: bool,
    /// the draws are mirrored here, so that they survive the death of the process
    pub shm: Option<(*mut u32, usize)>,
}

impl<'d> Src<'d> {
    pub fn fresh(seed: u64, dict: &'d Dict) -> Src<'d> {
        Src { rng: Rng::new(seed), replay: Vec::new(), pos: 0, extend: true, rec: Vec::with_capacity(256), dict, labels: 0, limit: 200_000, stretched: false, shm: None }
    }
    pub fn replay(tape: Vec<u32>, seed: Option<u64>, dict: &'d Dict) -> Src<'d> {
        Src { rng: Rng::new(seed.unwrap_or(0)), replay: tape, pos: 0, extend: seed.is_some(), rec: Vec::with_capacity(256), dict, labels: 0, limit: 200_000, stretched: false, shm: None }
    }
    #[inline]
    pub fn draw(&mut self, n: u32, f: impl FnOnce(&mut Rng, &Dict) -> u32) -> u32 {
        let n = n.max(1);
        let v = if self.pos < self.replay.len() {
            let v = self.replay[self.pos];
            if v < n { v } else { v % n }
        } else if self.extend && self.rec.len() < self.limit {
            f(&mut self.rng, self.dict)
        } else {
            0
        };
        self.pos += 1;
        if let Some((p, cap)) = self.shm {
            if self.rec.len() < cap {
                // word 0 is the length
                unsafe {
                    *p.add(1 + self.rec.len()) = v;
                    *p = self.rec.len() as u32 + 1;
                }
            }
        }
        self.rec.push(v);
        debug_assert!(v < n);
        v
    }
    /// uniform in 0..n
    #[inline]
    pub fn below(&mut self, n: u32) -> u32 {
        self.draw(n, |r, _| r.below(n))
    }
    #[inline]
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p percent; false is the simple value
    #[inline]
    pub fn pct(&mut self, p: u32) -> bool {
        self.draw(2, |r, _| (r.below(100) < p) as u32) == 1
    }
    /// whether to use a literal of the sources: with probability p percent, more often when there are new ones
    #[inline]
    pub fn dict(&mut self, p: u32) -> bool {
        self.draw(2, |r, d| (r.below(100) < if d.new_strs.is_empty() { p } else { 2 * p }) as u32) == 1
    }
    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// index chosen with integer weights; put the simplest alternative first
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let i = self.draw(w.len() as u32, |r, _| {
            let mut x = r.below(tot);
            for (i, wi) in w.iter().enumerate() {
                if x < *wi {
                    return i as u32;
                }
                x -= wi;
            }
            0
        }) as usize;
        // an edited tape may hold a choice that is not open here
        if w[i] == 0 {
            return w.iter().position(|x| *x > 0).unwrap_or(0);
        }
        i
    }
    /// a small size, geometric with the given mean, sometimes a learned constant (or next to one), at most max
    pub fn size(&mut self, mean: u32, max: u32) -> usize {
        self.draw(max + 1, |r, d| {
            let k = r.below(64);
            if k == 0 && !d.ints.is_empty() {
                let v = d.int(r);
                let v = match r.below(4) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
                if v <= max {
                    return v;
                }
            }
            if k == 1 {
                return r.below(max + 1);
            }
            let mut n = 0;
            while n < max && r.below(mean + 1) != 0 {
                n += 1;
            }
            n
        }) as usize
    }
    /// how many items a list gets: mostly as `size`, seldom (and at the literals that are new in the sources) up to hard
    pub fn count(&mut self, mean: u32, max: u32, hard: u32) -> usize {
        let room = if hard >= 300 && !self.stretched { 70_000 } else { hard };
        let n = self.draw(room + 1, |r, d| {
            if !d.new_ints.is_empty() && r.below(24) == 0 {
                let v = d.new_ints[r.below(d.new_ints.len() as u32) as usize];
                let v = match r.below(3) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
                if v <= hard || v <= room && r.below(if v < 3000 { 2 } else { 40 }) == 0 {
                    return v;
                }
            }
            if room > hard && r.below(30_000) == 0 {
                return huge(r, room);
            }
            let k = r.below(400);
            if k == 0 {
                return r.below(hard + 1);
            }
            if k < 7 {
                return r.below(max + 1);
            }
            if k < 13 && !d.ints.is_empty() {
                let v = d.int(r);
                let v = match r.below(4) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
                if v <= max {
                    return v;
                }
            }
            let mut n = 0;
            while n < max && r.below(mean + 1) != 0 {
                n += 1;
            }
            n
        });
        if n > 300 {
            self.stretched = true;
        }
        n as usize
    }
    /// seldom repeats what is there up to (or cuts it down to) some number of bytes, which may be huge: once per case
    pub fn stretch(&mut self, v: &mut Vec<u8>, max: u32) {
        if v.is_empty() || self.stretched {
            return;
        }
        let n = self.draw(max + 1, |r, d| {
            if !d.new_ints.is_empty() && r.below(150) == 0 {
                let v = d.new_ints[r.below(d.new_ints.len() as u32) as usize];
                let v = match r.below(3) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
                if v <= max {
                    return v;
                }
            }
            if r.below(20_000) == 0 { huge(r, max) } else { 0 }
        }) as usize;
        if n == 0 {
            return;
        }
        if n > 300 {
            self.stretched = true;
        }
        let l = v.len();
        while v.len() < n {
            let k = (n - v.len()).min(l);
            v.extend_from_within(..k);
        }
        v.truncate(n);
    }
    /// the same for a text in two forms, repeated as a whole
    pub fn stretch_whole(&mut self, a: &mut Vec<u8>, b: &mut Vec<u8>, max: u32) {
        let mut probe = vec![0; a.len()];
        self.stretch(&mut probe, max);
        if probe.len() > a.len() && !a.is_empty() {
            let k = probe.len() / a.len();
            *a = a.repeat(k);
            *b = b.repeat(k);
        }
    }
    /// a number in lo..=hi, biased to the ends and to learned constants
    pub fn number(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1, |r, d| {
            let span = hi - lo;
            match r.below(8) {
                0 => r.below(3.min(span + 1)),
                1 => span - r.below(3.min(span + 1)),
                2 if !d.ints.is_empty() => {
                    let v = d.int(r);
                    let v = match r.below(4) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
                    if v >= lo && v <= hi { v - lo } else { r.below(span + 1) }
                }
                _ => if span == u32::MAX { r.next() as u32 } else { r.below(span + 1) },
            }
        })
    }
    /// a literal from the sources of the code under test, recorded byte by byte
    pub fn dict_bytes(&mut self, max: usize, ok: impl Fn(u8) -> bool) -> Vec<u8> {
        let mut lit: Vec<u8> = Vec::new();
        let n = self.draw(max as u32 + 1, |r, d| {
            if !d.strs.is_empty() {
                lit = d.str(r);
                lit.truncate(max);
            }
            lit.len() as u32
        });
        let mut o = Vec::new();
        for i in 0..n as usize {
            let b = lit.get(i).copied().unwrap_or(b'a');
            let c = self.draw(256, |_, _| b as u32) as u8;
            if ok(c) {
                o.push(c);
            }
        }
        o
    }
    pub fn label(&mut self, bit: u32) {
        self.labels |= 1 << bit;
    }
    /// generators stop adding optional material when the tape gets long
    pub fn over(&self, n: usize) -> bool {
        self.rec.len() > n
    }
}
