// ---------------------------------------------------------------- vectors and reflections
pub type Vc = spec_fn(int) -> real;
pub mod rf {
use super::*;
pub open spec fn vdot(x: Vc, y: Vc, m: int) -> real { sum(|t: int| x(t) * y(t), 0, m) }
pub open spec fn veq(x: Vc, y: Vc, m: int) -> bool { forall|i: int| 0 <= i < m ==> #[trigger] x(i) == y(i) }
pub open spec fn unit(c: int) -> Vc { |i: int| kd(i, c) }
// x - tau * (h.x) * h
pub open spec fn refl(h: Vc, tau: real, m: int, x: Vc) -> Vc { |i: int| x(i) - (tau * vdot(h, x, m)) * h(i) }
pub open spec fn is_refl(h: Vc, tau: real, m: int) -> bool { tau == 0real || tau * vdot(h, h, m) == 2real }
pub proof fn dot_ext(x: Vc, x2: Vc, y: Vc, y2: Vc, m: int)
  requires veq(x, x2, m), veq(y, y2, m),
  ensures vdot(x, y, m) == vdot(x2, y2, m),
{
  let f = |t: int| x(t) * y(t);
  let g = |t: int| x2(t) * y2(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) by { assert(x(t) == x2(t)); assert(y(t) == y2(t)); }
  sum_ext(f, g, 0, m);
}
pub proof fn dot_comm(x: Vc, y: Vc, m: int)
  ensures vdot(x, y, m) == vdot(y, x, m),
{
  let f = |t: int| x(t) * y(t);
  let g = |t: int| y(t) * x(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) by { let (a, b) = (x(t), y(t)); assert(a * b == b * a) by (nonlinear_arith); }
  sum_ext(f, g, 0, m);
}
// (x - s*h) . y
pub proof fn dot_axpy(x: Vc, h: Vc, s: real, z: Vc, y: Vc, m: int)
  requires forall|t: int| 0 <= t < m ==> #[trigger] z(t) == x(t) - s * h(t),
  ensures vdot(z, y, m) == vdot(x, y, m) - s * vdot(h, y, m),
{
  let f = |t: int| z(t) * y(t);
  let g = |t: int| x(t) * y(t);
  let h0 = |t: int| h(t) * y(t);
  let k = |t: int| (-s) * h0(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) + k(t) by {
    assert(z(t) == x(t) - s * h(t));
    let (a, b, c) = (x(t), h(t), y(t));
    assert((a - s * b) * c == a * c + (-s) * (b * c)) by (nonlinear_arith);
  }
  sum_add(g, k, f, 0, m);
  sum_scale(h0, k, -s, 0, m);
  let d = vdot(h, y, m);
  assert((-s) * d == -(s * d)) by (nonlinear_arith);
}
pub proof fn refl_ext(h: Vc, h2: Vc, tau: real, m: int, x: Vc, x2: Vc)
  requires veq(h, h2, m), veq(x, x2, m),
  ensures veq(refl(h, tau, m, x), refl(h2, tau, m, x2), m),
{
  dot_ext(h, h2, x, x2, m);
  assert forall|i: int| 0 <= i < m implies #[trigger] refl(h, tau, m, x)(i) == refl(h2, tau, m, x2)(i) by { assert(h(i) == h2(i)); assert(x(i) == x2(i)); }
}
// a reflection keeps inner products
pub proof fn refl_dot(h: Vc, tau: real, m: int, x: Vc, y: Vc)
  requires is_refl(h, tau, m),
  ensures vdot(refl(h, tau, m, x), refl(h, tau, m, y), m) == vdot(x, y, m),
{
  let rx = refl(h, tau, m, x);
  let ry = refl(h, tau, m, y);
  let (p, q, w) = (vdot(h, x, m), vdot(h, y, m), vdot(h, h, m));
  dot_axpy(x, h, tau * p, rx, ry, m);
  dot_comm(x, ry, m);
  dot_axpy(y, h, tau * q, ry, x, m);
  dot_comm(h, ry, m);
  dot_axpy(y, h, tau * q, ry, h, m);
  dot_comm(y, x, m);
  dot_comm(y, h, m);
  let c = vdot(x, y, m);
  assert(vdot(rx, ry, m) == (c - (tau * q) * p) - (tau * p) * (q - (tau * q) * w));
  assert((c - (tau * q) * p) - (tau * p) * (q - (tau * q) * w) == c) by (nonlinear_arith) requires tau == 0real || tau * w == 2real;
}
// and is its own inverse
pub proof fn refl_refl(h: Vc, tau: real, m: int, x: Vc)
  requires is_refl(h, tau, m),
  ensures veq(refl(h, tau, m, refl(h, tau, m, x)), x, m),
{
  let y = refl(h, tau, m, x);
  let (p, w) = (vdot(h, x, m), vdot(h, h, m));
  dot_comm(h, y, m);
  dot_axpy(x, h, tau * p, y, h, m);
  dot_comm(x, h, m);
  assert(vdot(h, y, m) == p - (tau * p) * w);
  assert forall|i: int| 0 <= i < m implies #[trigger] refl(h, tau, m, y)(i) == x(i) by {
    let (a, b) = (x(i), h(i));
    assert((a - (tau * p) * b) - (tau * (p - (tau * p) * w)) * b == a) by (nonlinear_arith) requires tau == 0real || tau * w == 2real;
  }
}
// the reflection of a combination
pub open spec fn comb(x: Vc, b: Mt, m: int) -> Vc { |i: int| sum(|t: int| x(t) * b(i, t), 0, m) }
pub open spec fn colof(b: Mt, c: int) -> Vc { |i: int| b(i, c) }
pub proof fn refl_comb(h: Vc, tau: real, m: int, x: Vc, b: Mt, rb: Mt)
  requires forall|i: int, t: int| 0 <= i < m && 0 <= t < m ==> #[trigger] rb(i, t) == refl(h, tau, m, colof(b, t))(i),
  ensures veq(refl(h, tau, m, comb(x, b, m)), comb(x, rb, m), m),
{
  // h . comb = sum_t x(t) (h . b_t)
  let f = |s: int, t: int| h(s) * (x(t) * b(s, t));
  let lhs = |s: int| h(s) * comb(x, b, m)(s);
  assert forall|s: int| 0 <= s < m implies #[trigger] lhs(s) == inner(f, 0, m)(s) by {
    let p = |t: int| x(t) * b(s, t);
    let q = |t: int| f(s, t);
    sum_scale(p, q, h(s), 0, m);
  }
  sum_ext(lhs, inner(f, 0, m), 0, m);
  sum_swap(f, 0, m, 0, m);
  let hd = |t: int| x(t) * vdot(h, colof(b, t), m);
  assert forall|t: int| 0 <= t < m implies #[trigger] hd(t) == outer(f, 0, m)(t) by {
    let p = |s: int| h(s) * colof(b, t)(s);
    let q = |s: int| f(s, t);
    assert forall|s: int| 0 <= s < m implies #[trigger] q(s) == x(t) * p(s) by { let (u, v2, w) = (h(s), x(t), b(s, t)); assert(u * (v2 * w) == v2 * (u * w)) by (nonlinear_arith); }
    sum_scale(p, q, x(t), 0, m);
  }
  sum_ext(hd, outer(f, 0, m), 0, m);
  let cb = comb(x, b, m);
  assert(vdot(h, cb, m) == sum(hd, 0, m));
  assert forall|i: int| 0 <= i < m implies #[trigger] refl(h, tau, m, cb)(i) == comb(x, rb, m)(i) by {
    let p = |t: int| x(t) * b(i, t);
    let q = |t: int| x(t) * rb(i, t);
    let s = -(tau * h(i));
    let w = |t: int| s * hd(t);
    assert forall|t: int| 0 <= t < m implies #[trigger] q(t) == p(t) + w(t) by {
      assert(rb(i, t) == refl(h, tau, m, colof(b, t))(i));
      let (a, c, d, e) = (x(t), b(i, t), vdot(h, colof(b, t), m), h(i));
      assert(a * (c - (tau * d) * e) == a * c + (-(tau * e)) * (a * d)) by (nonlinear_arith);
    }
    sum_add(p, w, q, 0, m);
    sum_scale(hd, w, s, 0, m);
    let (z, e) = (sum(hd, 0, m), h(i));
    assert((-(tau * e)) * z == -((tau * z) * e)) by (nonlinear_arith);
  }
}
pub proof fn comb_ext(x: Vc, b: Mt, b2: Mt, m: int)
  requires forall|i: int, t: int| 0 <= i < m && 0 <= t < m ==> #[trigger] b(i, t) == b2(i, t),
  ensures veq(comb(x, b, m), comb(x, b2, m), m),
{
  assert forall|i: int| 0 <= i < m implies #[trigger] comb(x, b, m)(i) == comb(x, b2, m)(i) by {
    let p = |t: int| x(t) * b(i, t);
    let q = |t: int| x(t) * b2(i, t);
    assert forall|t: int| 0 <= t < m implies #[trigger] p(t) == q(t) by { assert(b(i, t) == b2(i, t)); }
    sum_ext(p, q, 0, m);
  }
}
pub proof fn comb_unit(x: Vc, m: int)
  ensures veq(comb(x, idm(), m), x, m),
{
  assert forall|i: int| 0 <= i < m implies #[trigger] comb(x, idm(), m)(i) == x(i) by {
    let p = |t: int| x(t) * idm()(i, t);
    assert forall|t: int| 0 <= t < m && t != i implies #[trigger] p(t) == 0real by { assert(x(t) * 0real == 0real) by (nonlinear_arith); }
    sum_single(p, 0, m, i);
    assert(x(i) * 1real == x(i)) by (nonlinear_arith);
  }
}
pub proof fn dot_nonneg(x: Vc, m: int)
  ensures vdot(x, x, m) >= 0real,
{
  let f = |t: int| x(t) * x(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) >= 0real by { let a = x(t); assert(a * a >= 0real) by (nonlinear_arith); }
  sum_nonneg(f, 0, m);
}
pub proof fn dot_pos(x: Vc, m: int, i: int)
  requires 0 <= i < m, x(i) != 0real,
  ensures vdot(x, x, m) > 0real,
{
  let f = |t: int| x(t) * x(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) >= 0real by { let a = x(t); assert(a * a >= 0real) by (nonlinear_arith); }
  sum_pos(f, 0, m, i);
  let a = x(i);
  assert(a * a > 0real) by (nonlinear_arith) requires a != 0real;
}
// dot over a tail when the head of one factor is zero
pub proof fn dot_tail(x: Vc, y: Vc, k: int, m: int)
  requires 0 <= k <= m, forall|t: int| 0 <= t < k ==> #[trigger] x(t) == 0real,
  ensures vdot(x, y, m) == sum(|t: int| x(t) * y(t), k, m),
{
  let f = |t: int| x(t) * y(t);
  sum_split(f, 0, k, m);
  assert forall|t: int| 0 <= t < k implies #[trigger] f(t) == 0real by { assert(x(t) == 0real); let b = y(t); assert(0real * b == 0real) by (nonlinear_arith); }
  sum_zero(f, 0, k);
}
// the Householder vector of v: h = v - a*e_k over rows >= k, a*a = v.v, a of the sign opposite to v(k)
pub proof fn house(w: Vc, a: real, k: int, m: int, h: Vc)
  requires
    0 <= k < m, a != 0real,
    a * a == vdot(w, w, m), a * w(k) <= 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] h(t) == if t == k { w(t) - a } else { w(t) },
  ensures
    h(k) != 0real, a * h(k) < 0real, vdot(h, h, m) == -(a * h(k)) - a * h(k), vdot(h, w, m) == -(a * h(k)), vdot(h, h, m) > 0real,
{
  let e = unit(k);
  assert forall|t: int| 0 <= t < m implies #[trigger] h(t) == w(t) - a * e(t) by {
    if t == k { assert(a * 1real == a) by (nonlinear_arith); } else { assert(a * 0real == 0real) by (nonlinear_arith); }
  }
  dot_unit(w, k, m);
  dot_unit(h, k, m);
  dot_comm(e, w, m);
  dot_comm(e, h, m);
  dot_axpy(w, e, a, h, w, m);
  dot_axpy(w, e, a, h, h, m);
  dot_comm(w, h, m);
  let p = w(k);
  assert(h(k) == p - a);
  assert(vdot(h, w, m) == a * a - a * p);
  assert(vdot(h, h, m) == vdot(w, h, m) - a * h(k));
  assert(a * (p - a) == a * p - a * a) by (nonlinear_arith);
  assert(a * h(k) == a * (p - a));
  assert(vdot(h, h, m) == -(a * h(k)) - a * h(k));
  assert(a * a > 0real) by (nonlinear_arith) requires a != 0real;
  if h(k) == 0real { assert(a * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn dot_unit(x: Vc, k: int, m: int)
  requires 0 <= k < m,
  ensures vdot(x, unit(k), m) == x(k),
{
  let f = |t: int| x(t) * unit(k)(t);
  assert forall|t: int| 0 <= t < m && t != k implies #[trigger] f(t) == 0real by { let b = x(t); assert(b * 0real == 0real) by (nonlinear_arith); }
  sum_single(f, 0, m, k);
  assert(x(k) * 1real == x(k)) by (nonlinear_arith);
}
// the arithmetic of one reflection: x is the column, w its part from row k on divided by the scale
pub proof fn house_col(x: Vc, w: Vc, sc: real, a: real, k: int, m: int, h: Vc, tau: real)
  requires
    0 <= k < m, a != 0real, sc != 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] w(t) == if t < k { 0real } else { x(t) / sc },
    a * a == vdot(w, w, m), a * w(k) <= 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] h(t) == if t == k { w(t) - a } else { w(t) },
    tau == 2real / vdot(h, h, m),
  ensures
    h(k) != 0real, tau == -1real / (a * h(k)), a * h(k) != 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] refl(h, tau, m, x)(t) == if t < k { x(t) } else if t == k { sc * a } else { 0real },
{
  house(w, a, k, m, h);
  let g = a * h(k);
  let hh = vdot(h, h, m);
  assert(2real / hh == -1real / g) by (nonlinear_arith) requires hh == -g - g, g < 0real;
  // h.x = sc * (h.w)
  let f = |t: int| h(t) * x(t);
  let q = |t: int| h(t) * w(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == sc * q(t) by {
    let (p, y) = (h(t), x(t));
    assert(w(t) == if t < k { 0real } else { x(t) / sc });
    if t < k { assert(p == 0real); assert(0real * y == 0real && sc * (0real * 0real) == 0real) by (nonlinear_arith); }
    else { assert(p * y == sc * (p * (y / sc))) by (nonlinear_arith) requires sc != 0real; }
  }
  sum_scale(q, f, sc, 0, m);
  assert(vdot(h, x, m) == sc * vdot(h, w, m));
  let hw = vdot(h, w, m);
  assert(tau * (sc * hw) == sc) by (nonlinear_arith) requires tau == -1real / g, hw == -g, g < 0real;
  assert forall|t: int| 0 <= t < m implies #[trigger] refl(h, tau, m, x)(t) == (if t < k { x(t) } else if t == k { sc * a } else { 0real }) by {
    let y = x(t);
    assert(w(t) == if t < k { 0real } else { x(t) / sc });
    if t < k { assert(sc * 0real == 0real) by (nonlinear_arith); }
    else if t == k { assert(y - sc * (y / sc - a) == sc * a) by (nonlinear_arith) requires sc != 0real; }
    else { assert(y - sc * (y / sc) == 0real) by (nonlinear_arith) requires sc != 0real; }
  }
}
// the length of the vector (x, y)
pub open spec fn is_hypot(r: real, x: real, y: real) -> bool { r >= 0real && r * r == x * x + y * y }
}
pub use rf::*;
