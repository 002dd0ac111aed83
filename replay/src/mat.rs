// Plain row-major matrices and the reference arithmetic of the oracles.  Nothing here calls the library,
// except `la()`, which builds the library's matrix from one of these.
use crate::ctx::Ctx;
use crate::q::Q;
use la::Matrix;
use num::{Float, One, Zero};
use std::fmt::Debug;
use std::ops::*;

#[derive(Clone, PartialEq)]
pub struct M<T> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<T>,
}
impl<T: Copy> M<T> {
    pub fn by<F: FnMut(usize, usize) -> T>(r: usize, c: usize, mut f: F) -> M<T> {
        let mut d = Vec::new();
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        M { r, c, d }
    }
    pub fn at(&self, i: usize, j: usize) -> T {
        assert!(i < self.r && j < self.c);
        self.d[i * self.c + j]
    }
    pub fn put(&mut self, i: usize, j: usize, v: T) {
        assert!(i < self.r && j < self.c);
        self.d[i * self.c + j] = v;
    }
    pub fn t(&self) -> M<T> {
        M::by(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn la(&self) -> Matrix<T> {
        Matrix::new(self.r, self.c, self.d.clone())
    }
    pub fn of(m: &Matrix<T>) -> M<T> {
        let d = m.get_data().clone();
        let r = m.rows();
        let c = d.len() / r;
        M { r, c, d }
    }
    pub fn map<S: Copy, F: Fn(T) -> S>(&self, f: F) -> M<S> {
        M { r: self.r, c: self.c, d: self.d.iter().map(|&x| f(x)).collect() }
    }
    pub fn swap_rows(&mut self, a: usize, b: usize) {
        for j in 0..self.c {
            self.d.swap(a * self.c + j, b * self.c + j);
        }
    }
}
impl<T: Copy + Zero + One + Mul<Output = T> + Add<Output = T> + Sub<Output = T>> M<T> {
    pub fn id(n: usize) -> M<T> {
        M::by(n, n, |i, j| if i == j { T::one() } else { T::zero() })
    }
    pub fn mul(&self, o: &M<T>) -> M<T> {
        assert!(self.c == o.r);
        M::by(self.r, o.c, |i, j| {
            let mut s = T::zero();
            for k in 0..self.c {
                s = s + self.at(i, k) * o.at(k, j);
            }
            s
        })
    }
    pub fn sub(&self, o: &M<T>) -> M<T> {
        assert!(self.r == o.r && self.c == o.c);
        M::by(self.r, self.c, |i, j| self.at(i, j) - o.at(i, j))
    }
}
impl<T: Debug> M<T> {
    pub fn show(&self) -> String {
        format!("{}x{} {:?}", self.r, self.c, self.d)
    }
}
impl M<f64> {
    pub fn fro(&self) -> f64 {
        let m = self.maxabs();
        if m == 0.0 || !m.is_finite() {
            return m;
        }
        m * self.d.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
    }
    pub fn maxabs(&self) -> f64 {
        let mut m = 0.0f64;
        for &x in &self.d {
            if x.is_nan() {
                return f64::NAN;
            }
            m = m.max(x.abs());
        }
        m
    }
    pub fn abs(&self) -> M<f64> {
        self.map(|x| x.abs())
    }
}

// exact Gauss-Jordan over the rationals
pub struct Red {
    pub rank: usize,
    pub det: Q,
    pub rref: M<Q>,
}
pub fn reduce(a: &M<Q>) -> Red {
    let mut m = a.clone();
    let (mut rank, mut det) = (0, Q::int(1));
    for j in 0..m.c {
        let p = match (rank..m.r).find(|&i| !m.at(i, j).is0()) {
            Some(p) => p,
            None => {
                if j < m.r {
                    det = Q::int(0);
                }
                continue;
            }
        };
        if p != rank {
            m.swap_rows(p, rank);
            det = -det;
        }
        let piv = m.at(rank, j);
        if j < m.r {
            det = det * piv;
        }
        for k in 0..m.c {
            let v = m.at(rank, k) / piv;
            m.put(rank, k, v);
        }
        for i in 0..m.r {
            if i != rank && !m.at(i, j).is0() {
                let f = m.at(i, j);
                for k in 0..m.c {
                    let v = m.at(i, k) - f * m.at(rank, k);
                    m.put(i, k, v);
                }
            }
        }
        rank += 1;
        if rank == m.r {
            break;
        }
    }
    Red { rank, det, rref: m }
}
pub fn det(a: &M<Q>) -> Q {
    if reduce(a).rank < a.r {
        Q::int(0)
    } else {
        reduce(a).det
    }
}
pub fn solve(a: &M<Q>, b: &M<Q>) -> Option<M<Q>> {
    let n = a.r;
    if reduce(a).rank < n {
        return None;
    }
    let aug = M::by(n, n + b.c, |i, j| if j < n { a.at(i, j) } else { b.at(i, j - n) });
    let r = reduce(&aug).rref;
    Some(M::by(n, b.c, |i, j| r.at(i, n + j)))
}

// ---- generators -------------------------------------------------------------------------------
pub fn gen_q(c: &mut Ctx, m: usize, n: usize) -> M<Q> {
    let lim = *c.pick(&[1i64, 2, 3, 5, 9]);
    let kind = c.below(13);
    let mut a = M::by(m, n, |_, _| Q::int(c.range(-lim, lim)));
    match kind {
        0 => {
            // low rank
            let k = 1 + c.below(m.min(n));
            let x = M::by(m, k, |_, _| Q::int(c.range(-2, 2)));
            let y = M::by(k, n, |_, _| Q::int(c.range(-2, 2)));
            a = x.mul(&y);
        }
        1 => {
            // repeat a row
            let (p, q) = (c.below(m), c.below(m));
            for j in 0..n {
                let v = a.at(p, j);
                a.put(q, j, v);
            }
        }
        2 => {
            // zero a column
            let p = c.below(n);
            for i in 0..m {
                a.put(i, p, Q::int(0));
            }
        }
        3 => {
            // sparse
            for i in 0..m {
                for j in 0..n {
                    if !c.chance(3) {
                        a.put(i, j, Q::int(0));
                    }
                }
            }
        }
        4 => {
            // permuted identity, scaled
            let mut p: Vec<usize> = (0..m).collect();
            for i in (1..m).rev() {
                let j = c.below(i + 1);
                p.swap(i, j);
            }
            let s: Vec<i64> = (0..m).map(|_| *c.pick(&[1, -1, 2, -3])).collect();
            a = M::by(m, n, |i, j| if p[i] == j { Q::int(s[i]) } else { Q::int(0) });
        }
        5 => {
            // ties in the pivot column
            for i in 0..m {
                for j in 0..n {
                    let s = if c.chance(2) { 1 } else { -1 };
                    a.put(i, j, Q::int(s * if c.chance(4) { 0 } else { 1 }));
                }
            }
        }
        6 => {
            // fractions
            for i in 0..m {
                for j in 0..n {
                    let v = Q::new(c.range(-4, 4) as i128, c.range(1, 3) as i128);
                    a.put(i, j, v);
                }
            }
        }
        7 => {
            // triangular, either way round
            let up = c.chance(2);
            for i in 0..m {
                for j in 0..n {
                    if (up && i > j) || (!up && i < j) {
                        a.put(i, j, Q::int(0));
                    }
                }
            }
        }
        8 => {
            // last column is the sum of the others: deficiency shows only at the last pivot
            if n > 1 {
                for i in 0..m {
                    let mut s = Q::int(0);
                    for j in 0..n - 1 {
                        s = s + a.at(i, j);
                    }
                    a.put(i, n - 1, s);
                }
            }
        }
        11 => {
            // small or large all over
            let s = *c.pick(&[Q::new(1, 1 << 10), Q::new(1, 1 << 24), Q::new(1, 10_000_000), Q::int(1 << 16)]);
            a = a.map(|x| x * s);
        }
        12 => {
            // rows and columns of different magnitude
            let e: Vec<Q> = (0..m + n).map(|_| *c.pick(&[Q::int(1), Q::int(1), Q::new(1, 1 << 12), Q::int(1 << 10)])).collect();
            a = M::by(m, n, |i, j| a.at(i, j) * e[i] * e[m + j]);
        }
        _ => {}
    }
    a
}

// now and then a larger matrix of very low rank: its trailing columns decay towards underflow as the
// reduction goes on
pub fn big_low_rank(c: &mut Ctx) -> M<f64> {
    let (m, n) = (12 + c.below(30), 12 + c.below(30));
    let k = 1 + c.below(2);
    let x = M::by(m, k, |_, _| c.range(-3, 3) as f64);
    let y = M::by(k, n, |_, _| c.range(-3, 3) as f64);
    x.mul(&y)
}
pub fn gen_f(c: &mut Ctx, m: usize, n: usize) -> M<f64> {
    let kind = c.below(22);
    let mut a = M::by(m, n, |_, _| c.sym());
    let mn = m.min(n);
    match kind {
        0 | 1 => a = M::by(m, n, |_, _| c.range(-3, 3) as f64),
        2 => {
            let k = 1 + c.below(mn);
            let x = M::by(m, k, |_, _| c.range(-3, 3) as f64);
            let y = M::by(k, n, |_, _| c.range(-3, 3) as f64);
            a = x.mul(&y);
        }
        3 => a = M::by(m, n, |_, _| if c.chance(3) { c.sym() } else { 0.0 }),
        4 => {
            // graded rows and columns
            let e: Vec<i32> = (0..m + n).map(|_| c.range(-9, 9) as i32).collect();
            for i in 0..m {
                for j in 0..n {
                    let v = a.at(i, j) * 2f64.powi(e[i] + e[m + j]);
                    a.put(i, j, v);
                }
            }
        }
        5 => {
            let mut p: Vec<usize> = (0..m.max(n)).collect();
            for i in (1..p.len()).rev() {
                let j = c.below(i + 1);
                p.swap(i, j);
            }
            a = M::by(m, n, |i, j| if p[i] == j { 1.0 } else { 0.0 });
        }
        6 => {
            let v = *c.pick(&[0.0, 1.0, -2.0]);
            a = M::by(m, n, |_, _| v);
        }
        7 => {
            let s = 10f64.powi(c.range(-60, 60) as i32);
            a = a.map(|x| x * s);
        }
        8 => a = M::by(m, n, |i, j| if i <= j { c.sym() } else { 0.0 }),
        9 => a = M::by(m, n, |i, j| if i >= j { c.sym() } else { 0.0 }),
        10 => a = M::by(m, n, |i, j| 1.0 / ((i + j + 1) as f64)),
        11 => a = M::by(m, n, |i, j| if i == j { *c.pick(&[1.0, 1.0, -1.0, 2.0, 0.0]) } else { 0.0 }),
        12 => {
            // repeated rows and columns
            let (p, q) = (c.below(m), c.below(m));
            for j in 0..n {
                let v = a.at(p, j);
                a.put(q, j, v);
            }
            let (p, q) = (c.below(n), c.below(n));
            for i in 0..m {
                let v = a.at(i, p);
                a.put(i, q, v);
            }
        }
        13 => {
            // a zero row and a zero column
            let (p, q) = (c.below(m), c.below(n));
            for j in 0..n {
                a.put(p, j, 0.0);
            }
            for i in 0..m {
                a.put(i, q, 0.0);
            }
        }
        14 => a = M::by(m, n, |i, j| if i == j { 1.0 } else if j == i + 1 { 1.0 } else { 0.0 }), // bidiagonal
        15 => a = M::by(m, n, |i, j| if i == j { 0.0 } else if j == i + 1 { c.sym() } else { 0.0 }),
        16 => {
            // nearly rank one
            let u: Vec<f64> = (0..m).map(|_| c.sym()).collect();
            let v: Vec<f64> = (0..n).map(|_| c.sym()).collect();
            a = M::by(m, n, |i, j| u[i] * v[j] + 1e-9 * c.sym());
        }
        17 => a = M::by(m, n, |_, _| if c.chance(2) { 1.0 } else { -1.0 }),
        18 | 19 => {
            // almost diagonal, triangular, symmetric, ...: off by less than a fixed tolerance would notice
            let what = c.below(7);
            let off = 10f64.powi(-c.range(4, 13) as i32);
            let one = c.chance(2);
            let (p, q) = (c.below(m), c.below(n));
            let b = a.clone();
            a = M::by(m, n, |i, j| match what {
                0 => (i == j) as u8 as f64,
                1 => if i == j { b.at(i, j) + 2.0 } else { 0.0 },
                2 => if i <= j { b.at(i, j) } else { 0.0 },
                3 => if i >= j { b.at(i, j) } else { 0.0 },
                4 => if i.max(j) < mn { b.at(i.min(j), i.max(j)) } else { b.at(i, j) },
                5 => if i <= j + 1 && j <= i + 1 { b.at(i, j) } else { 0.0 },
                _ => if i.max(j) < mn && i > j { -b.at(j, i) } else { b.at(i, j) },
            });
            for i in 0..m {
                for j in 0..n {
                    if !one || (i, j) == (p, q) {
                        let x = a.at(i, j) + off * c.sym();
                        a.put(i, j, x);
                    }
                }
            }
        }
        _ => {}
    }
    a
}

pub trait Fl: Float + num::Signed + la::ApproxEq<Self> + Debug + Copy + 'static {
    const EPS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn w(self) -> f64;
}
// the identity plus something of norm below one, perhaps very small; perhaps reflected, which keeps its condition
pub fn near_orth(c: &mut Ctx, m: usize, n: usize) -> M<f64> {
    let amp = if c.chance(3) { 10f64.powi(-c.range(1, 14) as i32) } else { 1.0 };
    let mut a = M::by(m, n, |i, j| (if i == j { 1.0 } else { 0.0 }) + amp * 0.8 * c.sym() / m.max(n) as f64);
    if c.chance(3) {
        let v: Vec<f64> = (0..m).map(|_| c.sym()).collect();
        let vv: f64 = v.iter().map(|x| x * x).sum();
        if vv > 1e-3 {
            for j in 0..n {
                let p: f64 = (0..m).map(|i| v[i] * a.at(i, j)).sum();
                for i in 0..m {
                    let x = a.at(i, j) - 2.0 * p / vv * v[i];
                    a.put(i, j, x);
                }
            }
        }
    }
    a
}
impl Fl for f64 {
    const EPS: f64 = 2.220446049250313e-16;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 {
        x
    }
    fn w(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const EPS: f64 = 1.1920928955078125e-7;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn w(self) -> f64 {
        self as f64
    }
}
