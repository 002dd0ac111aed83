@verbatim
pub struct Zero;
impl Zero { #[verifier::external_body] pub fn zero() -> (r: E) ensures r == e_zero() { unimplemented!() } }
@endverbatim
@file internalutil.rs
@fn hypot
@props C22,C23,C25
@ensures
  is_hypot(v(r), v(a), v(b)),
@at start
  proof {
    let (x, y) = (v(a), v(b));
    if x != 0real {
      let q = y / x;
      assert(q * q >= 0real) by (nonlinear_arith);
      rsqrt_def(1real + q * q);
      let s = rsqrt(1real + q * q);
      let t = rabs(x) * s;
      assert(q * q >= 0real) by (nonlinear_arith);
      assert(t >= 0real) by (nonlinear_arith) requires t == rabs(x) * s, s >= 0real, rabs(x) >= 0real;
      assert(q * x == y) by (nonlinear_arith) requires q == y / x, x != 0real;
      assert(t * t == (rabs(x) * rabs(x)) * (s * s)) by (nonlinear_arith) requires t == rabs(x) * s;
      assert(rabs(x) * rabs(x) == x * x) by (nonlinear_arith) requires rabs(x) == x || rabs(x) == -x;
      assert((x * x) * (1real + q * q) == x * x + (q * x) * (q * x)) by (nonlinear_arith);
    }
    if y != 0real {
      let q = x / y;
      assert(q * q >= 0real) by (nonlinear_arith);
      rsqrt_def(1real + q * q);
      let s = rsqrt(1real + q * q);
      let t = rabs(y) * s;
      assert(q * q >= 0real) by (nonlinear_arith);
      assert(t >= 0real) by (nonlinear_arith) requires t == rabs(y) * s, s >= 0real, rabs(y) >= 0real;
      assert(q * y == x) by (nonlinear_arith) requires q == x / y, y != 0real;
      assert(t * t == (rabs(y) * rabs(y)) * (s * s)) by (nonlinear_arith) requires t == rabs(y) * s;
      assert(rabs(y) * rabs(y) == y * y) by (nonlinear_arith) requires rabs(y) == y || rabs(y) == -y;
      assert((y * y) * (1real + q * q) == y * y + (q * y) * (q * y)) by (nonlinear_arith);
    }
  }
