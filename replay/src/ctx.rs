// One generated case.
pub type CaseFn = fn(&mut Ctx) -> Result<(), String>;

#[derive(Clone)]
pub struct Sub {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: CaseFn,
    pub min: u64,   // cases run whatever the time budget
    pub limit: u64, // 0 = no limit (random); otherwise the enumeration ends there
}

pub fn sub(prop: &'static str, name: &'static str, f: CaseFn, min: u64) -> Sub {
    Sub { prop, name, f, min, limit: 0 }
}

pub struct Ctx {
    pub idx: u64,
    pub desc: String,
    pub trivial: bool, // nothing was decided on this case
    pub ended: bool,   // enumeration is over, the case does not exist
    s: u64,
}

impl Ctx {
    pub fn new(prop: &str, name: &str, idx: u64, seed: u64) -> Ctx {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.bytes().chain(name.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut c = Ctx { idx, desc: String::new(), trivial: false, ended: false, s: h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1342543DE82EF95) };
        for _ in 0..4 {
            c.u64();
        }
        c
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for b in self.desc.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sym(&mut self) -> f64 {
        2.0 * self.unit() - 1.0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn note(&mut self, s: &str) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s);
        let c = &mut *crate::CASE.lock().unwrap();
        c.push_str(s);
        c.push_str("; ");
    }
    // now and then a shape beyond any block size or threshold a library is likely to have
    pub fn large(&mut self, area: usize, side: usize) -> Option<(usize, usize)> {
        if self.idx % 97 != 60 {
            return None;
        }
        let a = *self.pick(&[16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
        let a = a.min(side).max(16);
        let lim = (area / a).max(1).min(side);
        let b = if self.chance(3) { 1 + self.below(lim.min(9)) } else if self.chance(2) { a.min(lim) } else { 1 + self.below(lim) };
        Some(if self.chance(2) { (a, b) } else { (b, a) })
    }
    pub fn shape_l(&mut self, small: usize, big: usize, area: usize, side: usize) -> (usize, usize) {
        match self.large(area, side) {
            Some(s) => s,
            None => self.shape(small, big),
        }
    }
    pub fn large_square(&mut self, side: usize) -> Option<usize> {
        if self.idx % 97 != 60 {
            return None;
        }
        if side >= 130 && self.chance(12) {
            return Some(*self.pick(&[80, 96, 100, 127, 128, 129, 130]));
        }
        Some((*self.pick(&[16, 17, 20, 24, 25, 31, 32, 33, 34, 40, 48, 50, 63, 64, 65, 66])).min(side))
    }
    // shapes: the small ones first, in order, then random larger ones
    pub fn shape(&mut self, small: usize, big: usize) -> (usize, usize) {
        let i = self.idx as usize;
        if i < small * small {
            // by increasing size
            let mut all: Vec<(usize, usize)> = vec![];
            for a in 1..=small {
                for b in 1..=small {
                    all.push((a, b));
                }
            }
            all.sort_by_key(|&(a, b)| (a + b, a));
            return all[i];
        }
        match self.below(8) {
            0 => (1, 1 + self.below(big * 2)),
            1 => (1 + self.below(big * 2), 1),
            2 => {
                let n = 1 + self.below(big);
                (n, n)
            }
            _ => (1 + self.below(big), 1 + self.below(big)),
        }
    }
}

pub fn panics<R, F: FnOnce() -> R>(f: F) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
