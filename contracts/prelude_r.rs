// ---------------------------------------------------------------- element type, real arithmetic
// E stands for the element type T of the real code with machine arithmetic treated as mathematical: an element is a
// real number, every operation is the exact one (so no rounding, overflow, NaN or infinity).  Division by zero is
// unspecified.
pub struct E { pub x: Ghost<real> }
impl Copy for E {}
impl Clone for E {
  #[verifier::external_body]
  fn clone(&self) -> (r: E) ensures r == *self { unimplemented!() }
}
pub open spec fn v(e: E) -> real { e.x@ }
pub open spec fn er(x: real) -> E { E { x: Ghost(x) } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub uninterp spec fn rsqrt(x: real) -> real;
// TRUSTED: every non-negative real has a non-negative square root
pub broadcast axiom fn rsqrt_def(x: real)
  ensures x >= 0real ==> #[trigger] rsqrt(x) >= 0real && rsqrt(x) * rsqrt(x) == x;
pub uninterp spec fn rpow(x: real, y: real) -> real;
pub uninterp spec fn div_by_zero(x: real) -> real;
pub open spec fn rdiv(x: real, y: real) -> real { if y == 0real { div_by_zero(x) } else { x / y } }
pub uninterp spec fn r_epsilon() -> real;
pub uninterp spec fn r_tiny() -> real;
// TRUSTED: the machine epsilon and the smallest normal number are positive
pub axiom fn eps_pos() ensures r_epsilon() > 0real, r_tiny() > 0real;
pub uninterp spec fn r_pow2(k: int) -> real;
pub open spec fn e_add(a: E, b: E) -> E { er(v(a) + v(b)) }
pub open spec fn e_sub(a: E, b: E) -> E { er(v(a) - v(b)) }
pub open spec fn e_mul(a: E, b: E) -> E { er(v(a) * v(b)) }
pub open spec fn e_div(a: E, b: E) -> E { er(rdiv(v(a), v(b))) }
pub open spec fn e_neg(a: E) -> E { er(-v(a)) }
pub open spec fn e_eq(a: E, b: E) -> bool { v(a) == v(b) }
pub open spec fn e_cmp(a: E, b: E) -> Option<core::cmp::Ordering> {
  Some(if v(a) < v(b) { core::cmp::Ordering::Less } else if v(a) == v(b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
}
pub open spec fn e_zero() -> E { er(0real) }
pub open spec fn e_one() -> E { er(1real) }
pub open spec fn e_abs(a: E) -> E { er(rabs(v(a))) }
pub open spec fn e_sqrt(a: E) -> E { er(rsqrt(v(a))) }
pub open spec fn e_powf(a: E, b: E) -> E { er(rpow(v(a), v(b))) }
pub open spec fn e_is_zero(a: E) -> bool { v(a) == 0real }
pub open spec fn e_is_neg(a: E) -> bool { v(a) < 0real }
pub open spec fn e_is_pos(a: E) -> bool { v(a) > 0real }
pub uninterp spec fn e_zero_sign(a: E) -> bool;
pub open spec fn e_sign_neg(a: E) -> bool { if v(a) == 0real { e_zero_sign(a) } else { v(a) < 0real } }
pub open spec fn e_is_nan(a: E) -> bool { false }
pub open spec fn e_is_inf(a: E) -> bool { false }
pub open spec fn e_is_fin(a: E) -> bool { true }
pub open spec fn e_recip(a: E) -> E { er(rdiv(1real, v(a))) }
pub open spec fn e_signum(a: E) -> E { if v(a) == 0real { er(if e_zero_sign(a) { -1real } else { 1real }) } else { er(if v(a) < 0real { -1real } else { 1real }) } }
pub open spec fn e_mul_add(a: E, b: E, c: E) -> E { er(v(a) * v(b) + v(c)) }
pub open spec fn e_hypot(a: E, b: E) -> E { er(rsqrt(v(a) * v(a) + v(b) * v(b))) }
pub uninterp spec fn rpowneg(x: real, k: int) -> real;
pub open spec fn rpowi(x: real, k: int) -> real decreases k { if k < 0 { rpowneg(x, k) } else if k == 0 { 1real } else { rpowi(x, k - 1) * x } }
pub open spec fn e_powi(a: E, k: int) -> E { er(rpowi(v(a), k)) }
pub open spec fn e_max(a: E, b: E) -> E { if v(a) < v(b) { b } else { a } }
pub open spec fn e_min(a: E, b: E) -> E { if v(b) < v(a) { b } else { a } }
pub open spec fn e_approx(a: E, b: E) -> bool { rabs(v(a) - v(b)) < 1real / 1000000real }
pub open spec fn e_epsilon() -> E { er(r_epsilon()) }
pub open spec fn e_min_positive() -> E { er(r_tiny()) }
pub open spec fn e_litv(q: real) -> E { er(q) }
pub open spec fn e_pow2v(k: int) -> E { er(r_pow2(k)) }
pub open spec fn e_castv(k: int) -> E { er(k as real) }
pub open spec fn e_lt(a: E, b: E) -> bool { v(a) < v(b) }
pub open spec fn e_gt(a: E, b: E) -> bool { v(a) > v(b) }
pub open spec fn e_le(a: E, b: E) -> bool { v(a) <= v(b) }
pub open spec fn e_ge(a: E, b: E) -> bool { v(a) >= v(b) }

