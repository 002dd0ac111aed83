// Exact rational numbers over i128, presented to the library as its floating point type.  An overflow, a
// division by zero or an irrational root sets a flag and the case is thrown away: within the flag-free
// cases the library's algorithm runs in exact real arithmetic.
use la::ApproxEq;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

thread_local! { static POISON: Cell<bool> = Cell::new(false); }
pub fn reset() {
    POISON.with(|p| p.set(false));
}
pub fn poisoned() -> bool {
    POISON.with(|p| p.get())
}
fn poison() -> Q {
    POISON.with(|p| p.set(true));
    Q { n: 0, d: 1 }
}

#[derive(Clone, Copy)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}
const LIM: i128 = 1i128 << 120;
impl Q {
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 || n.abs() > LIM || d.abs() > LIM {
            return poison();
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn is0(self) -> bool {
        self.n == 0
    }
}
fn cm(a: i128, b: i128) -> Option<i128> {
    a.checked_mul(b)
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        let g = gcd(self.d, o.d);
        let (db, da) = (o.d / g, self.d / g);
        match (cm(self.n, db), cm(o.n, da), cm(self.d, db)) {
            (Some(x), Some(y), Some(d)) => match x.checked_add(y) {
                Some(n) => Q::new(n, d),
                None => poison(),
            },
            _ => poison(),
        }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        match (cm(self.n / g1, o.n / g2), cm(self.d / g2, o.d / g1)) {
            (Some(n), Some(d)) => Q::new(n, d),
            _ => poison(),
        }
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        if o.n == 0 {
            return poison();
        }
        self * Q::new(o.d, o.n)
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, _: Q) -> Q {
        poison()
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.n == o.n && self.d == o.d
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        let x = *self - *o;
        Some(x.n.cmp(&0))
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
}
impl Num for Q {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Q, ()> {
        Err(())
    }
}
impl ToPrimitive for Q {
    fn to_i64(&self) -> Option<i64> {
        Some((self.n / self.d) as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some((self.n / self.d) as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(Q::f(*self))
    }
}
impl NumCast for Q {
    fn from<T: ToPrimitive>(n: T) -> Option<Q> {
        let f = n.to_f64().unwrap();
        // dyadic values only
        let mut d = 1i128;
        let mut x = f;
        while x.fract() != 0.0 && d < (1 << 40) {
            x *= 2.0;
            d *= 2;
        }
        if x.fract() != 0.0 || x.abs() > 1e15 {
            return Some(poison());
        }
        Some(Q::new(x as i128, d))
    }
}
impl Signed for Q {
    fn abs(&self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn abs_sub(&self, o: &Q) -> Q {
        if *self <= *o {
            Q::int(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Q {
        Q::int(self.n.signum() as i64)
    }
    fn is_positive(&self) -> bool {
        self.n > 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
fn isqrt(n: i128) -> Option<i128> {
    if n < 0 {
        return None;
    }
    let mut x = (n as f64).sqrt() as i128;
    while x * x > n {
        x -= 1;
    }
    while (x + 1) * (x + 1) <= n {
        x += 1;
    }
    if x * x == n {
        Some(x)
    } else {
        None
    }
}
macro_rules! p1 { ($($n:ident),*) => { $( fn $n(self) -> Q { poison() } )* } }
macro_rules! p0 { ($($n:ident),*) => { $( fn $n() -> Q { poison() } )* } }
impl Float for Q {
    p0!(nan, infinity, neg_infinity, min_value, min_positive_value, max_value);
    fn neg_zero() -> Q {
        Q::int(0)
    }
    fn epsilon() -> Q {
        Q { n: 1, d: 1 << 52 }
    }
    fn is_nan(self) -> bool {
        false
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_finite(self) -> bool {
        true
    }
    fn is_normal(self) -> bool {
        self.n != 0
    }
    fn classify(self) -> std::num::FpCategory {
        std::num::FpCategory::Normal
    }
    p1!(floor, ceil, round, trunc, fract, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn abs(self) -> Q {
        Signed::abs(&self)
    }
    fn signum(self) -> Q {
        Signed::signum(&self)
    }
    fn is_sign_positive(self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.n < 0
    }
    fn mul_add(self, a: Q, b: Q) -> Q {
        self * a + b
    }
    fn recip(self) -> Q {
        Q::int(1) / self
    }
    fn powi(self, n: i32) -> Q {
        let mut r = Q::int(1);
        for _ in 0..n.abs() {
            r = r * self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, n: Q) -> Q {
        if n.d == 1 && n.n.abs() < 1000 {
            self.powi(n.n as i32)
        } else if n.n == 1 && n.d == 2 {
            self.sqrt()
        } else {
            poison()
        }
    }
    fn sqrt(self) -> Q {
        match (isqrt(self.n), isqrt(self.d)) {
            (Some(a), Some(b)) => Q { n: a, d: b },
            _ => poison(),
        }
    }
    fn log(self, _: Q) -> Q {
        poison()
    }
    fn max(self, o: Q) -> Q {
        if self > o {
            self
        } else {
            o
        }
    }
    fn min(self, o: Q) -> Q {
        if self < o {
            self
        } else {
            o
        }
    }
    fn abs_sub(self, o: Q) -> Q {
        Signed::abs_sub(&self, &o)
    }
    fn hypot(self, o: Q) -> Q {
        (self * self + o * o).sqrt()
    }
    fn atan2(self, _: Q) -> Q {
        poison()
    }
    fn sin_cos(self) -> (Q, Q) {
        (poison(), poison())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        (0, 0, 0)
    }
}
impl ApproxEq<Q> for Q {
    fn approx_epsilon() -> Q {
        Q { n: 1, d: 1_000_000 }
    }
    fn approx_eq(&self, o: &Q) -> bool {
        self.approx_eq_eps(o, &Q { n: 1, d: 1_000_000 })
    }
    fn approx_eq_eps(&self, o: &Q, e: &Q) -> bool {
        Signed::abs(&(*self - *o)) < *e
    }
}
