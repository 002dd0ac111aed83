// ---------------------------------------------------------------- the shifted QR iteration and the back substitution
pub mod hqm {
use super::*;
// (a + ib)(c + ie) = x + iy with a = (x + r y)/d, b = (y - r x)/d, r = e/c, d = c + r e
proof fn cdiv_one(x: real, y: real, c: real, e: real, r: real, d: real, a: real, b: real)
  requires c != 0real, r * c == e, d == c + r * e, a * d == x + r * y, b * d == y - r * x,
  ensures d != 0real, a * c - b * e == x, a * e + b * c == y,
{
  let (rr, re) = (r * r, r * e);
  assert(re == rr * c) by (nonlinear_arith) requires re == r * e, r * c == e, rr == r * r;
  assert(rr >= 0real) by (nonlinear_arith) requires rr == r * r;
  assert(d == (1real + rr) * c) by (nonlinear_arith) requires d == c + re, re == rr * c;
  assert(d != 0real) by (nonlinear_arith) requires d == (1real + rr) * c, rr >= 0real, c != 0real;
  let (s, t) = (a * c - b * e, a * e + b * c);
  // s d = (x + r y) c - (y - r x) e = x (c + r e) + y (r c - e)
  assert(s * d == (a * d) * c - (b * d) * e) by (nonlinear_arith) requires s == a * c - b * e;
  assert((x + r * y) * c == x * c + y * e) by (nonlinear_arith) requires r * c == e;
  assert((y - r * x) * e == y * e - x * re) by (nonlinear_arith) requires re == r * e;
  assert(x * d == x * c + x * re) by (nonlinear_arith) requires d == c + re;
  assert(s == x) by (nonlinear_arith) requires s * d == x * d, d != 0real;
  assert(t * d == (a * d) * e + (b * d) * c) by (nonlinear_arith) requires t == a * e + b * c;
  assert((x + r * y) * e == x * e + y * re) by (nonlinear_arith) requires re == r * e;
  assert((y - r * x) * c == y * c - x * e) by (nonlinear_arith) requires r * c == e;
  assert(y * d == y * c + y * re) by (nonlinear_arith) requires d == c + re;
  assert(t == y) by (nonlinear_arith) requires t * d == y * d, d != 0real;
}
pub open spec fn cd_ok(x: real, y: real, c: real, e: real, a: real, b: real) -> bool { (c != 0real || e != 0real) ==> a * c - b * e == x && a * e + b * c == y }
pub proof fn cdiv_exact(x: real, y: real, c: real, e: real)
  requires rabs(c) > rabs(e),
  ensures ({ let r = rdiv(e, c); let d = c + r * e; cd_ok(x, y, c, e, rdiv(x + r * y, d), rdiv(y - r * x, d)) }),
{
  let r = e / c;
  let d = c + r * e;
  assert(r * c == e) by (nonlinear_arith) requires r == e / c, c != 0real;
  dnz(c, e, r);
  let (a, b) = ((x + r * y) / d, (y - r * x) / d);
  let (p, q) = (x + r * y, y - r * x);
  assert(a * d == p) by (nonlinear_arith) requires a == p / d, d != 0real;
  assert(b * d == q) by (nonlinear_arith) requires b == q / d, d != 0real;
  cdiv_one(x, y, c, e, r, d, a, b);
}
proof fn dnz(c: real, e: real, r: real)
  requires c != 0real, r * c == e,
  ensures c + r * e != 0real,
{
  let (rr, re) = (r * r, r * e);
  assert(re == rr * c) by (nonlinear_arith) requires re == r * e, r * c == e, rr == r * r;
  assert(rr >= 0real) by (nonlinear_arith) requires rr == r * r;
  assert(c + re != 0real) by (nonlinear_arith) requires re == rr * c, rr >= 0real, c != 0real;
}
pub proof fn cdiv_exact_swap(x: real, y: real, c: real, e: real)
  requires rabs(c) <= rabs(e), e != 0real,
  ensures ({ let r = rdiv(c, e); let d = e + r * c; cd_ok(x, y, c, e, rdiv(r * x + y, d), rdiv(r * y - x, d)) }),
{
  // (a + ib)(c + ie) = x + iy  <=>  (a + ib)(e - ic) = y - ix
  let r = c / e;
  let d = e + r * c;
  assert(r * e == c) by (nonlinear_arith) requires r == c / e, e != 0real;
  dnz(e, c, r);
  let (p, q) = (r * x + y, r * y - x);
  let (a, b) = (p / d, q / d);
  assert(a * d == p) by (nonlinear_arith) requires a == p / d, d != 0real;
  assert(b * d == q) by (nonlinear_arith) requires b == q / d, d != 0real;
  let (c2, r2) = (-c, -r);
  assert(r2 * e == c2) by (nonlinear_arith) requires r * e == c, c2 == -c, r2 == -r;
  assert(r2 * c2 == r * c) by (nonlinear_arith) requires c2 == -c, r2 == -r;
  assert(r2 * (-x) == r * x) by (nonlinear_arith) requires r2 == -r;
  assert(r2 * y == -(r * y)) by (nonlinear_arith) requires r2 == -r;
  cdiv_one(y, -x, e, c2, r2, d, a, b);
  assert(b * c2 == -(b * c)) by (nonlinear_arith) requires c2 == -c;
  assert(a * c2 == -(a * c)) by (nonlinear_arith) requires c2 == -c;
}
} // mod
pub use hqm::*;
