//! Choice tapes: every decision of a run is drawn from one of three tapes.
//! A fresh tape is fed by a PRNG and records what it handed out; a replayed tape hands out the
//! recorded values and then zeroes.  Generators are written so that 0 is the simplest choice,
//! which makes shrinking a matter of deleting / zeroing / lowering entries.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next() ^ r.next().rotate_left(17)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Tape {
    rng: Option<Rng>,
    src: Vec<u32>,
    /// where the values handed out are recorded: [count, v0, v1, ...] (shared with the driver)
    shm: *mut u32,
    pos: usize,
}
pub const TAPE_CAP: usize = 1 << 20;

impl Tape {
    pub fn fresh(seed: u64, shm: *mut u32) -> Tape {
        unsafe { *shm = 0 };
        Tape { rng: Some(Rng(seed)), src: vec![], shm, pos: 0 }
    }
    pub fn replay(src: Vec<u32>, shm: *mut u32) -> Tape {
        unsafe { *shm = 0 };
        Tape { rng: None, src, shm, pos: 0 }
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => ((r.next() >> 11) % n as u64) as u32,
            None => {
                let v = self.src.get(self.pos).copied().unwrap_or(0);
                (v as usize % n) as u32
            }
        };
        self.pos += 1;
        if self.pos < TAPE_CAP {
            unsafe {
                *self.shm.add(self.pos) = v;
                *self.shm = self.pos as u32;
            }
        }
        v as usize
    }
    /// true with probability num/1000; the zero choice is false
    pub fn permille(&mut self, num: usize) -> bool {
        if num == 0 {
            return false;
        }
        self.below(1000) >= 1000 - num.min(1000)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// index with the given weights; index 0 is the simplest
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 30) as u64;
        let b = self.below(1 << 30) as u64;
        (a << 30) ^ b
    }
}
