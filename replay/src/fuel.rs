// f64 with a budget of additions: iterations that never end (which NaN or an overflow can cause) stop with a marker
// panic, so that a panic of the crate's own, such as an index out of bounds, can be told from non-termination.
use la::ApproxEq;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;
#[derive(Clone, Copy, Debug)]
pub struct W(pub f64);
pub struct Spent;
thread_local!(static LEFT: Cell<u64> = const { Cell::new(0) });
pub fn fuel(n: u64) {
    LEFT.with(|l| l.set(n))
}
fn tick() {
    LEFT.with(|l| {
        if l.get() == 0 {
            std::panic::panic_any(Spent)
        }
        l.set(l.get() - 1)
    })
}
macro_rules! op { ($t:ident, $f:ident, $o:tt) => { impl $t for W { type Output = W; fn $f(self, o: W) -> W { tick(); W(self.0 $o o.0) } } } }
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
op!(Rem, rem, %);
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(-self.0)
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for W {
    fn one() -> W {
        W(1.0)
    }
}
impl Num for W {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<W, ()> {
        Err(())
    }
}
impl ToPrimitive for W {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for W {
    fn from<T: ToPrimitive>(n: T) -> Option<W> {
        n.to_f64().map(W)
    }
}
impl Signed for W {
    fn abs(&self) -> W {
        W(self.0.abs())
    }
    fn abs_sub(&self, o: &W) -> W {
        W((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> W {
        W(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0.0
    }
}
macro_rules! p1 { ($($n:ident),*) => { $( fn $n(self) -> W { W(f64::$n(self.0)) } )* } }
macro_rules! p2 { ($($n:ident),*) => { $( fn $n(self, o: W) -> W { W(f64::$n(self.0, o.0)) } )* } }
macro_rules! b1 { ($($n:ident),*) => { $( fn $n(self) -> bool { f64::$n(self.0) } )* } }
impl Float for W {
    fn nan() -> W {
        W(f64::NAN)
    }
    fn infinity() -> W {
        W(f64::INFINITY)
    }
    fn neg_infinity() -> W {
        W(f64::NEG_INFINITY)
    }
    fn neg_zero() -> W {
        W(-0.0)
    }
    fn min_value() -> W {
        W(f64::MIN)
    }
    fn max_value() -> W {
        W(f64::MAX)
    }
    fn min_positive_value() -> W {
        W(f64::MIN_POSITIVE)
    }
    fn epsilon() -> W {
        W(f64::EPSILON)
    }
    b1!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    fn classify(self) -> std::num::FpCategory {
        self.0.classify()
    }
    p1!(floor, ceil, round, trunc, fract, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, abs, signum, recip, sqrt);
    p2!(powf, log, max, min, hypot, atan2);
    fn mul_add(self, a: W, b: W) -> W {
        W(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> W {
        W(self.0.powi(n))
    }
    fn abs_sub(self, o: W) -> W {
        W((self.0 - o.0).max(0.0))
    }
    fn sin_cos(self) -> (W, W) {
        (W(self.0.sin()), W(self.0.cos()))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        (0, 0, 0)
    }
}
impl ApproxEq<W> for W {
    fn approx_epsilon() -> W {
        W(1e-6)
    }
    fn approx_eq(&self, o: &W) -> bool {
        self.approx_eq_eps(o, &W(1e-6))
    }
    fn approx_eq_eps(&self, o: &W, e: &W) -> bool {
        (self.0 - o.0).abs() < e.0
    }
}
