// ---------------------------------------------------------------- element type
// E stands for the element type T of the real code: opaque, Copy, Clone is a plain copy.
// Every operation on it is an uninterpreted function: nothing proved over this prelude depends on arithmetic laws,
// on `==` being reflexive or on `<` being total (so NaN is covered).
#[verifier::external_body]
pub struct E { x: u64 }
impl Copy for E {}
impl Clone for E {
  #[verifier::external_body]
  fn clone(&self) -> (r: E) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn e_add(a: E, b: E) -> E;
pub uninterp spec fn e_sub(a: E, b: E) -> E;
pub uninterp spec fn e_mul(a: E, b: E) -> E;
pub uninterp spec fn e_div(a: E, b: E) -> E;
pub uninterp spec fn e_neg(a: E) -> E;
pub uninterp spec fn e_eq(a: E, b: E) -> bool;
pub uninterp spec fn e_cmp(a: E, b: E) -> Option<core::cmp::Ordering>;
pub uninterp spec fn e_zero() -> E;
pub uninterp spec fn e_one() -> E;
pub uninterp spec fn e_abs(a: E) -> E;
pub uninterp spec fn e_sqrt(a: E) -> E;
pub uninterp spec fn e_powf(a: E, b: E) -> E;
pub uninterp spec fn e_is_zero(a: E) -> bool;
pub uninterp spec fn e_is_neg(a: E) -> bool;
pub uninterp spec fn e_is_pos(a: E) -> bool;
pub uninterp spec fn e_sign_neg(a: E) -> bool;
pub uninterp spec fn e_is_nan(a: E) -> bool;
pub uninterp spec fn e_is_inf(a: E) -> bool;
pub uninterp spec fn e_is_fin(a: E) -> bool;
pub uninterp spec fn e_recip(a: E) -> E;
pub uninterp spec fn e_signum(a: E) -> E;
pub uninterp spec fn e_mul_add(a: E, b: E, c: E) -> E;
pub uninterp spec fn e_hypot(a: E, b: E) -> E;
pub uninterp spec fn e_powi(a: E, k: int) -> E;
pub uninterp spec fn e_max(a: E, b: E) -> E;
pub uninterp spec fn e_min(a: E, b: E) -> E;
pub uninterp spec fn e_approx(a: E, b: E) -> bool;
pub uninterp spec fn e_epsilon() -> E;
pub uninterp spec fn e_min_positive() -> E;
pub uninterp spec fn e_litv(q: real) -> E;
pub uninterp spec fn e_pow2v(k: int) -> E;
pub uninterp spec fn e_castv(k: int) -> E;
pub open spec fn e_lt(a: E, b: E) -> bool { e_cmp(a, b) == Some(core::cmp::Ordering::Less) }
pub open spec fn e_gt(a: E, b: E) -> bool { e_cmp(a, b) == Some(core::cmp::Ordering::Greater) }
pub open spec fn e_le(a: E, b: E) -> bool { e_cmp(a, b) == Some(core::cmp::Ordering::Less) || e_cmp(a, b) == Some(core::cmp::Ordering::Equal) }
pub open spec fn e_ge(a: E, b: E) -> bool { e_cmp(a, b) == Some(core::cmp::Ordering::Greater) || e_cmp(a, b) == Some(core::cmp::Ordering::Equal) }

