// S of map/reduce: a second opaque Copy type
#[verifier::external_body]
pub struct F { x: u64 }
impl Copy for F {}
impl Clone for F {
  #[verifier::external_body]
  fn clone(&self) -> (r: F) ensures r == *self { unimplemented!() }
}
impl AddSpecImpl<E> for E {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: E) -> bool { true }
  open spec fn add_spec(self, o: E) -> E { e_add(self, o) }
}
impl core::ops::Add<E> for E { type Output = E; #[verifier::external_body] fn add(self, o: E) -> E { unimplemented!() } }
impl SubSpecImpl<E> for E {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: E) -> bool { true }
  open spec fn sub_spec(self, o: E) -> E { e_sub(self, o) }
}
impl core::ops::Sub<E> for E { type Output = E; #[verifier::external_body] fn sub(self, o: E) -> E { unimplemented!() } }
impl MulSpecImpl<E> for E {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, o: E) -> bool { true }
  open spec fn mul_spec(self, o: E) -> E { e_mul(self, o) }
}
impl core::ops::Mul<E> for E { type Output = E; #[verifier::external_body] fn mul(self, o: E) -> E { unimplemented!() } }
impl DivSpecImpl<E> for E {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, o: E) -> bool { true }
  open spec fn div_spec(self, o: E) -> E { e_div(self, o) }
}
impl core::ops::Div<E> for E { type Output = E; #[verifier::external_body] fn div(self, o: E) -> E { unimplemented!() } }
impl NegSpecImpl for E {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> E { e_neg(self) }
}
impl core::ops::Neg for E { type Output = E; #[verifier::external_body] fn neg(self) -> E { unimplemented!() } }
impl PartialEqSpecImpl<E> for E {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &E) -> bool { e_eq(*self, *o) }
}
impl PartialEq<E> for E { #[verifier::external_body] fn eq(&self, o: &E) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<E> for E {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &E) -> Option<core::cmp::Ordering> { e_cmp(*self, *o) }
}
impl PartialOrd<E> for E { #[verifier::external_body] fn partial_cmp(&self, o: &E) -> Option<core::cmp::Ordering> { unimplemented!() } }

// Float / Signed / ApproxEq methods of the element type
impl E {
  #[verifier::external_body] pub fn abs(self) -> (r: E) ensures r == e_abs(self) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: E) ensures r == e_sqrt(self) { unimplemented!() }
  #[verifier::external_body] pub fn powf(self, p: E) -> (r: E) ensures r == e_powf(self, p) { unimplemented!() }
  #[verifier::external_body] pub fn max(self, o: E) -> (r: E) ensures r == e_max(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: E) -> (r: E) ensures r == e_min(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn approx_eq(&self, o: &E) -> (r: bool) ensures r == e_approx(*self, *o) { unimplemented!() }
  #[verifier::external_body] pub fn zero() -> (r: E) ensures r == e_zero() { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: E) ensures r == e_one() { unimplemented!() }
  #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == e_is_zero(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == e_is_neg(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == e_is_pos(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures r == e_sign_neg(self) { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == e_is_nan(self) { unimplemented!() }
  #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == e_is_inf(self) { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == e_is_fin(self) { unimplemented!() }
  #[verifier::external_body] pub fn recip(self) -> (r: E) ensures r == e_recip(self) { unimplemented!() }
  #[verifier::external_body] pub fn signum(self) -> (r: E) ensures r == e_signum(self) { unimplemented!() }
  #[verifier::external_body] pub fn mul_add(self, b: E, c: E) -> (r: E) ensures r == e_mul_add(self, b, c) { unimplemented!() }
  #[verifier::external_body] pub fn hypot(self, o: E) -> (r: E) ensures r == e_hypot(self, o) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, k: i32) -> (r: E) ensures r == e_powi(self, k as int) { unimplemented!() }
  #[verifier::external_body] pub fn min_positive_value() -> (r: E) ensures r == e_min_positive() { unimplemented!() }
  #[verifier::external_body] pub fn epsilon() -> (r: E) ensures r == e_epsilon() { unimplemented!() }
}
// num::cast of a literal / of 2^k / of an integer
#[verifier::external_body] pub fn e_lit(q: Ghost<real>) -> (r: E) ensures r == e_litv(q@) { unimplemented!() }
#[verifier::external_body] pub fn e_pow2(k: Ghost<int>) -> (r: E) ensures r == e_pow2v(k@) { unimplemented!() }
#[verifier::external_body] pub fn e_cast(k: usize) -> (r: E) ensures r == e_castv(k as int) { unimplemented!() }
pub mod num {
  use super::*;
  #[verifier::external_body] pub fn zero() -> (r: E) ensures r == e_zero() { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: E) ensures r == e_one() { unimplemented!() }
  #[verifier::external_body] pub fn abs(x: E) -> (r: E) ensures r == e_abs(x) { unimplemented!() }
}
pub mod rand {
  use super::*;
  #[verifier::external_body] pub fn random() -> (r: E) { unimplemented!() }
}
pub mod cmp {
  use super::*;
  pub trait Whole: Sized + Copy {
    spec fn iv(self) -> int;
    fn le(self, o: Self) -> (r: bool) ensures r == (self.iv() <= o.iv());
  }
  impl Whole for usize { open spec fn iv(self) -> int { self as int } fn le(self, o: usize) -> (r: bool) { self <= o } }
  impl Whole for isize { open spec fn iv(self) -> int { self as int } fn le(self, o: isize) -> (r: bool) { self <= o } }
  pub fn min<A: Whole>(a: A, b: A) -> (r: A) ensures r == if a.iv() <= b.iv() { a } else { b } { if a.le(b) { a } else { b } }
  pub fn max<A: Whole>(a: A, b: A) -> (r: A) ensures r == if a.iv() <= b.iv() { b } else { a } { if a.le(b) { b } else { a } }
}
// ---------------------------------------------------------------- panics
// acc(): an arbitrary truth value. `requires acc() ==> PRE` + `ensures PRE` on every function, and `acc() ==> b` on every
// panicking operation, proves in one pass both "PRE implies no panic" (acc true) and "a normal return implies PRE"
// (acc false: rejection).
pub uninterp spec fn acc() -> bool;
#[verifier::external_body]
pub fn rt_assert(b: bool)
  requires acc() ==> b,
  ensures b,
{ unimplemented!() }
#[verifier::external_body]
pub fn rt_panic()
  requires !acc(),
  ensures false,
{ unimplemented!() }
#[verifier::external_body]
pub fn rt_unwrap<A>(o: Option<A>) -> (r: A)
  requires acc() ==> o is Some,
  ensures o == Some(r),
{ unimplemented!() }
// slice::swap
pub assume_specification<A> [ <[A]>::swap ] (s: &mut [A], a: usize, b: usize)
  requires a < old(s)@.len(), b < old(s)@.len(),
  ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
// internalutil::alloc_dirty_vec: arbitrary contents (the real one leaves the memory uninitialised)
#[verifier::external_body]
pub fn alloc_dirty_vec<A: Copy>(n: usize) -> (r: Vec<A>)
  ensures r@.len() == n, n <= isize::MAX,
{ unimplemented!() }

// ---------------------------------------------------------------- index arithmetic
pub mod ix {
  use super::*;
  // a row starts after the previous one ends
  pub broadcast proof fn rows_apart(a: int, b: int, n: int)
    requires a < b, n >= 0,
    ensures #![trigger a * n, b * n] a * n + n <= b * n
  {
    assert(a * n + n <= b * n) by (nonlinear_arith) requires a < b, n >= 0;
  }
  pub broadcast proof fn row_nonneg(a: int, n: int)
    requires a >= 0, n >= 0,
    ensures 0 <= #[trigger] (a * n)
  {
    assert(0 <= a * n) by (nonlinear_arith) requires a >= 0, n >= 0;
  }
  pub broadcast proof fn div_exact(m: int, n: int)
    requires m > 0,
    ensures #[trigger] ((m * n) / m) == n
  {
    assert((m * n) / m == n) by (nonlinear_arith) requires m > 0;
  }
  pub broadcast proof fn div_self(m: int)
    requires m > 0,
    ensures #[trigger] (m / m) == 1
  {
  }
  pub broadcast proof fn mul_small(a: int, n: int)
    ensures #![trigger a * n] a == 0 ==> a * n == 0, a == 1 ==> a * n == n, n == 0 ==> a * n == 0, n == 1 ==> a * n == a,
      a >= 0 && n > 0 ==> a <= a * n, a > 0 && n >= 0 ==> n <= a * n,
  {
    if a >= 0 && n > 0 { assert(a <= a * n) by (nonlinear_arith) requires a >= 0, n > 0; }
    if a > 0 && n >= 0 { assert(n <= a * n) by (nonlinear_arith) requires a > 0, n >= 0; }
  }
  pub broadcast group index_facts { rows_apart, row_nonneg, div_exact, div_self, mul_small }
}
broadcast use ix::index_facts;
