// Integer quaternions: a ring whose multiplication does not commute, so that the order of the operands
// of every product is observable.
use num::{Num, One, Zero};
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Quat(pub i64, pub i64, pub i64, pub i64);
impl Add for Quat {
    type Output = Quat;
    fn add(self, o: Quat) -> Quat {
        Quat(self.0 + o.0, self.1 + o.1, self.2 + o.2, self.3 + o.3)
    }
}
impl Sub for Quat {
    type Output = Quat;
    fn sub(self, o: Quat) -> Quat {
        Quat(self.0 - o.0, self.1 - o.1, self.2 - o.2, self.3 - o.3)
    }
}
impl Neg for Quat {
    type Output = Quat;
    fn neg(self) -> Quat {
        Quat(-self.0, -self.1, -self.2, -self.3)
    }
}
impl Mul for Quat {
    type Output = Quat;
    fn mul(self, o: Quat) -> Quat {
        let (a, b, c, d) = (self.0, self.1, self.2, self.3);
        let (e, f, g, h) = (o.0, o.1, o.2, o.3);
        Quat(a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)
    }
}
impl Div for Quat {
    type Output = Quat;
    // not a real division; any function of the two operands that is not symmetric will do
    fn div(self, o: Quat) -> Quat {
        Quat(self.0 * 3 + o.0, self.1 * 3 + o.1, self.2 * 3 + o.2, self.3 * 3 + o.3)
    }
}
impl Rem for Quat {
    type Output = Quat;
    fn rem(self, _o: Quat) -> Quat {
        self
    }
}
impl Zero for Quat {
    fn zero() -> Quat {
        Quat(0, 0, 0, 0)
    }
    fn is_zero(&self) -> bool {
        *self == Quat(0, 0, 0, 0)
    }
}
impl One for Quat {
    fn one() -> Quat {
        Quat(1, 0, 0, 0)
    }
}
impl Num for Quat {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Quat, ()> {
        Err(())
    }
}
