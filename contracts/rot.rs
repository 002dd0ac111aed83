// ---------------------------------------------------------------- orthogonal transformations of matrices
pub mod rot {
use super::*;
// sums that differ in two terms only
pub proof fn sum_two(f: spec_fn(int) -> real, g: spec_fn(int) -> real, lo: int, hi: int, p: int, q: int)
  requires lo <= p < hi, lo <= q < hi, p != q, forall|k: int| lo <= k < hi && k != p && k != q ==> #[trigger] f(k) == g(k), f(p) + f(q) == g(p) + g(q),
  ensures sum(f, lo, hi) == sum(g, lo, hi),
{
  let d1 = |k: int| if k == p { g(k) - f(k) } else { 0real };
  let d2 = |k: int| if k == q { g(k) - f(k) } else { 0real };
  let h = |k: int| f(k) + d1(k);
  sum_add(f, d1, h, lo, hi);
  sum_add(h, d2, g, lo, hi);
  sum_single(d1, lo, hi, p);
  sum_single(d2, lo, hi, q);
}
pub proof fn sum_le(f: spec_fn(int) -> real, g: spec_fn(int) -> real, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] f(k) <= g(k),
  ensures sum(f, lo, hi) <= sum(g, lo, hi),
  decreases hi - lo,
{ if hi > lo { sum_le(f, g, lo, hi - 1); assert(f(hi - 1) <= g(hi - 1)); } }
proof fn two_by_two(a: real, b: real, x: real, y: real, z: real, w: real)
  ensures (a * x + b * y) * (a * z + b * w) == (a * a) * (x * z) + (a * b) * (x * w + y * z) + (b * b) * (y * w),
{
  let (p, q, r, s) = (a * x, b * y, a * z, b * w);
  assert((p + q) * (r + s) == p * r + p * s + q * r + q * s) by (nonlinear_arith);
  assert((a * x) * (a * z) == (a * a) * (x * z)) by (nonlinear_arith);
  assert((a * x) * (b * w) == (a * b) * (x * w)) by (nonlinear_arith);
  assert((b * y) * (a * z) == (a * b) * (y * z)) by (nonlinear_arith);
  assert((b * y) * (b * w) == (b * b) * (y * w)) by (nonlinear_arith);
  let (g, h, k) = (a * b, x * w, y * z);
  assert(g * h + g * k == g * (h + k)) by (nonlinear_arith);
}
// (x, y) -> (a x + b y, c x + d y) keeps inner products
pub open spec fn orth2(a: real, b: real, c: real, d: real) -> bool { a * a + c * c == 1real && b * b + d * d == 1real && a * b + c * d == 0real }
pub proof fn orth2_dot(a: real, b: real, c: real, d: real, x: real, y: real, z: real, w: real)
  requires orth2(a, b, c, d),
  ensures (a * x + b * y) * (a * z + b * w) + (c * x + d * y) * (c * z + d * w) == x * z + y * w,
{
  let (s, t, u) = (x * z, x * w + y * z, y * w);
  two_by_two(a, b, x, y, z, w);
  two_by_two(c, d, x, y, z, w);
  assert((a * a) * s + (c * c) * s == (a * a + c * c) * s) by (nonlinear_arith);
  assert((a * b) * t + (c * d) * t == (a * b + c * d) * t) by (nonlinear_arith);
  assert((b * b) * u + (d * d) * u == (b * b + d * d) * u) by (nonlinear_arith);
  assert(1real * s == s && 0real * t == 0real && 1real * u == u) by (nonlinear_arith);
}
pub proof fn orth2_rot(cs: real, sn: real)
  requires cs * cs + sn * sn == 1real,
  ensures orth2(cs, sn, -sn, cs),
{
  assert((-sn) * (-sn) == sn * sn) by (nonlinear_arith);
  assert(cs * sn + (-sn) * cs == 0real) by (nonlinear_arith);
}
// the rotation that turns (f, g) into (t, 0)
pub proof fn rot_of(t: real, f: real, g: real)
  requires is_hypot(t, f, g), f != 0real || g != 0real,
  ensures
    t > 0real, (f / t) * (f / t) + (g / t) * (g / t) == 1real,
    (f / t) * f + (g / t) * g == t, -(g / t) * f + (f / t) * g == 0real, g != 0real ==> g / t != 0real,
{
  assert(f * f >= 0real && g * g >= 0real) by (nonlinear_arith);
  assert(f * f + g * g > 0real) by (nonlinear_arith) requires f != 0real || g != 0real;
  assert(t > 0real) by (nonlinear_arith) requires t >= 0real, t * t > 0real;
  let (c, s) = (f / t, g / t);
  assert(c * t == f && s * t == g) by (nonlinear_arith) requires c == f / t, s == g / t, t > 0real;
  assert((c * t) * (c * t) + (s * t) * (s * t) == (c * c + s * s) * (t * t)) by (nonlinear_arith);
  assert(c * c + s * s == 1real) by (nonlinear_arith) requires (c * c + s * s) * (t * t) == t * t, t > 0real;
  assert(c * (c * t) + s * (s * t) == (c * c + s * s) * t) by (nonlinear_arith);
  assert(1real * t == t) by (nonlinear_arith);
  assert(-s * (c * t) + c * (s * t) == 0real) by (nonlinear_arith);
  if g != 0real && s == 0real { assert(0real * t == 0real) by (nonlinear_arith); }
}
// u2 is u with its columns p and q mixed, over rows < m and columns < n
pub open spec fn mixed(u: Mt, u2: Mt, m: int, n: int, p: int, q: int, a: real, b: real, c: real, d: real) -> bool {
  forall|i: int, k: int| 0 <= i < m && 0 <= k < n ==> #[trigger] u2(i, k) == if k == p { a * u(i, p) + b * u(i, q) } else if k == q { c * u(i, p) + d * u(i, q) } else { u(i, k) }
}
// mixing the columns of the left factor and the rows of the right factor alike leaves the product
pub proof fn mix_mp(u: Mt, u2: Mt, x: Mt, x2: Mt, m: int, n: int, l: int, p: int, q: int, a: real, b: real, c: real, d: real, i: int, j: int)
  requires mixed(u, u2, m, n, p, q, a, b, c, d), mixed(tr(x), tr(x2), l, n, p, q, a, b, c, d), orth2(a, b, c, d), 0 <= p < n, 0 <= q < n, p != q, 0 <= i < m, 0 <= j < l,
  ensures mp(u2, x2, n, i, j) == mp(u, x, n, i, j),
{
  let f = |k: int| u2(i, k) * x2(k, j);
  let g = |k: int| u(i, k) * x(k, j);
  assert forall|k: int| 0 <= k < n implies #[trigger] x2(k, j) == (if k == p { a * x(p, j) + b * x(q, j) } else if k == q { c * x(p, j) + d * x(q, j) } else { x(k, j) }) by { assert(x2(k, j) == tr(x2)(j, k)); }
  orth2_dot(a, b, c, d, u(i, p), u(i, q), x(p, j), x(q, j));
  assert(u2(i, p) == a * u(i, p) + b * u(i, q));
  assert(u2(i, q) == c * u(i, p) + d * u(i, q));
  assert(x2(p, j) == a * x(p, j) + b * x(q, j));
  assert(x2(q, j) == c * x(p, j) + d * x(q, j));
  sum_two(f, g, 0, n, p, q);
}
// mixing the rows of x mixes the rows of x*y
pub proof fn mix_left(x: Mt, x2: Mt, y: Mt, m: int, n: int, l: int, p: int, q: int, a: real, b: real, c: real, d: real)
  requires mixed(tr(x), tr(x2), n, m, p, q, a, b, c, d), 0 <= p < m, 0 <= q < m,
  ensures mixed(tr(mm(x, y, n)), tr(mm(x2, y, n)), l, m, p, q, a, b, c, d),
{
  assert forall|j: int, k: int| 0 <= j < l && 0 <= k < m implies #[trigger] tr(mm(x2, y, n))(j, k)
    == (if k == p { a * tr(mm(x, y, n))(j, p) + b * tr(mm(x, y, n))(j, q) } else if k == q { c * tr(mm(x, y, n))(j, p) + d * tr(mm(x, y, n))(j, q) } else { tr(mm(x, y, n))(j, k) }) by {
    assert forall|t: int| 0 <= t < n implies #[trigger] x2(k, t) == (if k == p { a * x(p, t) + b * x(q, t) } else if k == q { c * x(p, t) + d * x(q, t) } else { x(k, t) }) by { assert(x2(k, t) == tr(x2)(t, k)); }
    if k == p { mp_comb(x, p, q, a, b, x2, k, y, n, j); }
    else if k == q { mp_comb(x, p, q, c, d, x2, k, y, n, j); }
    else { mp_ext(x2, x, y, y, n, k, k, j, j); }
  }
}
pub proof fn mp_comb(x: Mt, p: int, q: int, a: real, b: real, z: Mt, k: int, y: Mt, n: int, j: int)
  requires forall|t: int| 0 <= t < n ==> #[trigger] z(k, t) == a * x(p, t) + b * x(q, t),
  ensures mp(z, y, n, k, j) == a * mp(x, y, n, p, j) + b * mp(x, y, n, q, j),
{
  let f = |t: int| z(k, t) * y(t, j);
  let g = |t: int| x(p, t) * y(t, j);
  let h = |t: int| x(q, t) * y(t, j);
  let ag = |t: int| a * g(t);
  let bh = |t: int| b * h(t);
  assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == ag(t) + bh(t) by {
    assert(z(k, t) == a * x(p, t) + b * x(q, t));
    let (s, u, w) = (x(p, t), x(q, t), y(t, j));
    assert((a * s + b * u) * w == a * (s * w) + b * (u * w)) by (nonlinear_arith);
  }
  sum_add(ag, bh, f, 0, n);
  sum_scale(g, ag, a, 0, n);
  sum_scale(h, bh, b, 0, n);
}
// ---- the square of the Frobenius norm
pub open spec fn fro2(x: Mt, m: int, n: int) -> real { sum(|c: int| vdot(colof(x, c), colof(x, c), m), 0, n) }
pub proof fn fro_ext(x: Mt, y: Mt, m: int, n: int)
  requires meq(x, y, m, n),
  ensures fro2(x, m, n) == fro2(y, m, n),
{
  let f = |c: int| vdot(colof(x, c), colof(x, c), m);
  let g = |c: int| vdot(colof(y, c), colof(y, c), m);
  assert forall|c: int| 0 <= c < n implies #[trigger] f(c) == g(c) by {
    assert forall|i: int| 0 <= i < m implies #[trigger] colof(x, c)(i) == colof(y, c)(i) by { assert(x(i, c) == y(i, c)); }
    dot_ext(colof(x, c), colof(y, c), colof(x, c), colof(y, c), m);
  }
  sum_ext(f, g, 0, n);
}
pub proof fn fro_nonneg(x: Mt, m: int, n: int)
  ensures fro2(x, m, n) >= 0real,
{
  let f = |c: int| vdot(colof(x, c), colof(x, c), m);
  assert forall|c: int| 0 <= c < n implies #[trigger] f(c) >= 0real by { dot_nonneg(colof(x, c), m); }
  sum_nonneg(f, 0, n);
}
pub proof fn fro_tr(x: Mt, m: int, n: int)
  ensures fro2(tr(x), n, m) == fro2(x, m, n),
{
  let f = |c: int, i: int| x(i, c) * x(i, c);
  let p = |c: int| vdot(colof(x, c), colof(x, c), m);
  assert forall|c: int| 0 <= c < n implies #[trigger] p(c) == inner(f, 0, m)(c) by {
    let a = |t: int| colof(x, c)(t) * colof(x, c)(t);
    let b = |t: int| f(c, t);
    sum_ext(a, b, 0, m);
  }
  sum_ext(p, inner(f, 0, m), 0, n);
  sum_swap(f, 0, n, 0, m);
  let q = |i: int| vdot(colof(tr(x), i), colof(tr(x), i), n);
  assert forall|i: int| 0 <= i < m implies #[trigger] q(i) == outer(f, 0, n)(i) by {
    let a = |t: int| colof(tr(x), i)(t) * colof(tr(x), i)(t);
    let b = |t: int| f(t, i);
    sum_ext(a, b, 0, n);
  }
  sum_ext(q, outer(f, 0, n), 0, m);
}
pub proof fn fro_rows(x: Mt, x2: Mt, m: int, n: int, p: int, q: int, a: real, b: real, c: real, d: real)
  requires mixed(tr(x), tr(x2), n, m, p, q, a, b, c, d), orth2(a, b, c, d), 0 <= p < m, 0 <= q < m, p != q,
  ensures fro2(x2, m, n) == fro2(x, m, n),
{
  let f = |j: int| vdot(colof(x, j), colof(x, j), m);
  let g = |j: int| vdot(colof(x2, j), colof(x2, j), m);
  assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == g(j) by {
    let s = |k: int| colof(x2, j)(k) * colof(x2, j)(k);
    let t = |k: int| colof(x, j)(k) * colof(x, j)(k);
    assert forall|k: int| 0 <= k < m implies #[trigger] x2(k, j) == (if k == p { a * x(p, j) + b * x(q, j) } else if k == q { c * x(p, j) + d * x(q, j) } else { x(k, j) }) by { assert(x2(k, j) == tr(x2)(j, k)); }
    orth2_dot(a, b, c, d, x(p, j), x(q, j), x(p, j), x(q, j));
    assert(x2(p, j) == a * x(p, j) + b * x(q, j));
    assert(x2(q, j) == c * x(p, j) + d * x(q, j));
    sum_two(s, t, 0, m, p, q);
  }
  sum_ext(f, g, 0, n);
}
pub proof fn fro_cols(x: Mt, x2: Mt, m: int, n: int, p: int, q: int, a: real, b: real, c: real, d: real)
  requires mixed(x, x2, m, n, p, q, a, b, c, d), orth2(a, b, c, d), 0 <= p < n, 0 <= q < n, p != q,
  ensures fro2(x2, m, n) == fro2(x, m, n),
{
  let (y, y2) = (tr(x), tr(x2));
  assert forall|i: int, k: int| 0 <= i < m && 0 <= k < n implies #[trigger] tr(y2)(i, k) == (if k == p { a * tr(y)(i, p) + b * tr(y)(i, q) } else if k == q { c * tr(y)(i, p) + d * tr(y)(i, q) } else { tr(y)(i, k) }) by { assert(x2(i, k) == tr(y2)(i, k)); }
  fro_rows(y, y2, n, m, p, q, a, b, c, d);
  fro_tr(x, m, n);
  fro_tr(x2, m, n);
}
// every element is at most the norm
pub proof fn fro_entry(x: Mt, m: int, n: int, i: int, c: int)
  requires 0 <= i < m, 0 <= c < n,
  ensures x(i, c) * x(i, c) <= fro2(x, m, n),
{
  let f = |j: int| vdot(colof(x, j), colof(x, j), m);
  assert forall|j: int| 0 <= j < n implies #[trigger] f(j) >= 0real by { dot_nonneg(colof(x, j), m); }
  sum_pos(f, 0, n, c);
  let g = |k: int| colof(x, c)(k) * colof(x, c)(k);
  assert forall|k: int| 0 <= k < m implies #[trigger] g(k) >= 0real by { let z = colof(x, c)(k); assert(z * z >= 0real) by (nonlinear_arith); }
  sum_pos(g, 0, m, i);
}
pub open spec fn smaller(y: Mt, x: Mt, m: int, n: int) -> bool { forall|i: int, c: int| 0 <= i < m && 0 <= c < n ==> #[trigger] y(i, c) == x(i, c) || y(i, c) == 0real }
pub proof fn fro_drop(x: Mt, y: Mt, m: int, n: int)
  requires smaller(y, x, m, n),
  ensures fro2(y, m, n) <= fro2(x, m, n),
{
  let f = |j: int| vdot(colof(x, j), colof(x, j), m);
  let g = |j: int| vdot(colof(y, j), colof(y, j), m);
  assert forall|j: int| 0 <= j < n implies #[trigger] g(j) <= f(j) by {
    let s = |k: int| colof(x, j)(k) * colof(x, j)(k);
    let t = |k: int| colof(y, j)(k) * colof(y, j)(k);
    assert forall|k: int| 0 <= k < m implies #[trigger] t(k) <= s(k) by {
      assert(y(k, j) == x(k, j) || y(k, j) == 0real);
      let z = x(k, j);
      assert(z * z >= 0real && 0real * 0real == 0real) by (nonlinear_arith);
    }
    sum_le(t, s, 0, m);
  }
  sum_le(g, f, 0, n);
}
pub proof fn root_le(x: real, t: real)
  requires x * x <= t * t, t >= 0real,
  ensures rabs(x) <= t,
{
  let y = rabs(x);
  assert(y * y == x * x) by (nonlinear_arith) requires y == x || y == -x;
  assert(y <= t) by (nonlinear_arith) requires y * y <= t * t, t >= 0real, y >= 0real;
}
// ---- reflections of all columns, of all rows
pub struct Rf { pub h: Vc, pub t: real }
pub open spec fn lr(f: Rf, m: int, x: Mt) -> Mt { |i: int, c: int| refl(f.h, f.t, m, colof(x, c))(i) }
pub open spec fn rr(f: Rf, n: int, x: Mt) -> Mt { |i: int, c: int| refl(f.h, f.t, n, colof(tr(x), i))(c) }
pub proof fn rr_lr(f: Rf, n: int, x: Mt)
  ensures forall|i: int, c: int| #[trigger] tr(rr(f, n, x))(c, i) == lr(f, n, tr(x))(c, i),
{ }
pub proof fn lr_ext(f: Rf, m: int, n: int, x: Mt, y: Mt)
  requires meq(x, y, m, n),
  ensures meq(lr(f, m, x), lr(f, m, y), m, n),
{
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] lr(f, m, x)(i, c) == lr(f, m, y)(i, c) by {
    assert forall|t: int| 0 <= t < m implies #[trigger] colof(x, c)(t) == colof(y, c)(t) by { assert(x(t, c) == y(t, c)); }
    refl_ext(f.h, f.h, f.t, m, colof(x, c), colof(y, c));
    assert(refl(f.h, f.t, m, colof(x, c))(i) == refl(f.h, f.t, m, colof(y, c))(i));
  }
}
pub proof fn meq_tr(x: Mt, y: Mt, m: int, n: int)
  requires meq(x, y, m, n),
  ensures meq(tr(x), tr(y), n, m),
{ assert forall|i: int, c: int| 0 <= i < n && 0 <= c < m implies #[trigger] tr(x)(i, c) == tr(y)(i, c) by { assert(x(c, i) == y(c, i)); } }
pub proof fn rr_ext(f: Rf, m: int, n: int, x: Mt, y: Mt)
  requires meq(x, y, m, n),
  ensures meq(rr(f, n, x), rr(f, n, y), m, n),
{
  meq_tr(x, y, m, n);
  lr_ext(f, n, m, tr(x), tr(y));
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] rr(f, n, x)(i, c) == rr(f, n, y)(i, c) by { assert(lr(f, n, tr(x))(c, i) == lr(f, n, tr(y))(c, i)); }
}
pub proof fn lr_lr(f: Rf, m: int, n: int, x: Mt)
  requires is_refl(f.h, f.t, m),
  ensures meq(lr(f, m, lr(f, m, x)), x, m, n),
{
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] lr(f, m, lr(f, m, x))(i, c) == x(i, c) by {
    let y = refl(f.h, f.t, m, colof(x, c));
    refl_refl(f.h, f.t, m, colof(x, c));
    refl_ext(f.h, f.h, f.t, m, colof(lr(f, m, x), c), y);
    assert(refl(f.h, f.t, m, colof(lr(f, m, x), c))(i) == refl(f.h, f.t, m, y)(i));
    assert(refl(f.h, f.t, m, y)(i) == colof(x, c)(i));
  }
}
pub proof fn rr_rr(f: Rf, m: int, n: int, x: Mt)
  requires is_refl(f.h, f.t, n),
  ensures meq(rr(f, n, rr(f, n, x)), x, m, n),
{
  lr_lr(f, n, m, tr(x));
  lr_ext(f, n, m, tr(rr(f, n, x)), lr(f, n, tr(x)));
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] rr(f, n, rr(f, n, x))(i, c) == x(i, c) by {
    assert(lr(f, n, tr(rr(f, n, x)))(c, i) == lr(f, n, lr(f, n, tr(x)))(c, i));
    assert(lr(f, n, lr(f, n, tr(x)))(c, i) == tr(x)(c, i));
  }
}
pub open spec fn msub(x: Mt, y: Mt) -> Mt { |i: int, c: int| x(i, c) - y(i, c) }
pub proof fn lr_sub(f: Rf, m: int, n: int, x: Mt, y: Mt)
  ensures meq(lr(f, m, msub(x, y)), msub(lr(f, m, x), lr(f, m, y)), m, n),
{
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] lr(f, m, msub(x, y))(i, c) == msub(lr(f, m, x), lr(f, m, y))(i, c) by {
    let (a, b, z) = (colof(x, c), colof(y, c), colof(msub(x, y), c));
    assert forall|t: int| 0 <= t < m implies #[trigger] z(t) == a(t) - 1real * b(t) by { }
    dot_axpy(a, b, 1real, z, f.h, m);
    dot_comm(z, f.h, m); dot_comm(a, f.h, m); dot_comm(b, f.h, m);
    let (p, q, t, h) = (vdot(f.h, a, m), vdot(f.h, b, m), f.t, (f.h)(i));
    assert((t * (p - q)) * h == (t * p) * h - (t * q) * h) by (nonlinear_arith);
    assert(1real * q == q) by (nonlinear_arith);
  }
}
pub proof fn rr_sub(f: Rf, m: int, n: int, x: Mt, y: Mt)
  ensures meq(rr(f, n, msub(x, y)), msub(rr(f, n, x), rr(f, n, y)), m, n),
{
  lr_sub(f, n, m, tr(x), tr(y));
  lr_ext(f, n, m, tr(msub(x, y)), msub(tr(x), tr(y)));
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] rr(f, n, msub(x, y))(i, c) == msub(rr(f, n, x), rr(f, n, y))(i, c) by {
    assert(lr(f, n, tr(msub(x, y)))(c, i) == lr(f, n, msub(tr(x), tr(y)))(c, i));
    assert(lr(f, n, msub(tr(x), tr(y)))(c, i) == msub(lr(f, n, tr(x)), lr(f, n, tr(y)))(c, i));
  }
}
pub proof fn lr_fro(f: Rf, m: int, n: int, x: Mt)
  requires is_refl(f.h, f.t, m),
  ensures fro2(lr(f, m, x), m, n) == fro2(x, m, n),
{
  let y = lr(f, m, x);
  let p = |c: int| vdot(colof(y, c), colof(y, c), m);
  let q = |c: int| vdot(colof(x, c), colof(x, c), m);
  assert forall|c: int| 0 <= c < n implies #[trigger] p(c) == q(c) by {
    let z = refl(f.h, f.t, m, colof(x, c));
    dot_ext(colof(y, c), z, colof(y, c), z, m);
    refl_dot(f.h, f.t, m, colof(x, c), colof(x, c));
  }
  sum_ext(p, q, 0, n);
}
pub proof fn rr_fro(f: Rf, m: int, n: int, x: Mt)
  requires is_refl(f.h, f.t, n),
  ensures fro2(rr(f, n, x), m, n) == fro2(x, m, n),
{
  lr_fro(f, n, m, tr(x));
  fro_tr(x, m, n);
  fro_tr(rr(f, n, x), m, n);
  fro_ext(tr(rr(f, n, x)), lr(f, n, tr(x)), n, m);
}
// reflecting the left factor reflects the product
pub proof fn lr_mp(f: Rf, m: int, n: int, u: Mt, x: Mt)
  ensures meq(lr(f, m, mm(u, x, m)), mm(lr(f, m, u), x, m), m, n),
{
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] lr(f, m, mm(u, x, m))(i, c) == mm(lr(f, m, u), x, m)(i, c) by {
    let w = colof(x, c);
    let ru = lr(f, m, u);
    refl_comb(f.h, f.t, m, w, u, ru);
    let (p, q) = (comb(w, u, m), colof(mm(u, x, m), c));
    assert forall|t: int| 0 <= t < m implies #[trigger] p(t) == q(t) by { comb_mp(u, x, m, t, c); }
    refl_ext(f.h, f.h, f.t, m, p, q);
    assert(refl(f.h, f.t, m, p)(i) == refl(f.h, f.t, m, q)(i));
    assert(refl(f.h, f.t, m, p)(i) == comb(w, ru, m)(i));
    comb_mp(ru, x, m, i, c);
  }
}
pub proof fn comb_mp(u: Mt, x: Mt, m: int, i: int, c: int)
  ensures comb(colof(x, c), u, m)(i) == mp(u, x, m, i, c),
{
  let f = |t: int| colof(x, c)(t) * u(i, t);
  let g = |t: int| u(i, t) * x(t, c);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) by { let (a, b) = (x(t, c), u(i, t)); assert(a * b == b * a) by (nonlinear_arith); }
  sum_ext(f, g, 0, m);
}
// x * (lr(f, w))' = rr(f, x * w')
pub proof fn rr_mp(f: Rf, m: int, n: int, x: Mt, w: Mt)
  ensures meq(rr(f, n, mm(x, tr(w), n)), mm(x, tr(lr(f, n, w)), n), m, n),
{
  lr_mp(f, n, m, w, tr(x));
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < m implies #[trigger] tr(mm(x, tr(w), n))(i, c) == mm(w, tr(x), n)(i, c) by {
    mp_tr(x, tr(w), n, c, i);
    mp_ext(tr(tr(w)), w, tr(x), tr(x), n, i, i, c, c);
  }
  lr_ext(f, n, m, tr(mm(x, tr(w), n)), mm(w, tr(x), n));
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] rr(f, n, mm(x, tr(w), n))(i, c) == mm(x, tr(lr(f, n, w)), n)(i, c) by {
    let lw = lr(f, n, w);
    assert(lr(f, n, tr(mm(x, tr(w), n)))(c, i) == lr(f, n, mm(w, tr(x), n))(c, i));
    assert(lr(f, n, mm(w, tr(x), n))(c, i) == mm(lw, tr(x), n)(c, i));
    mp_tr(x, tr(lw), n, i, c);
    mp_ext(tr(tr(lw)), lw, tr(x), tr(x), n, c, c, i, i);
  }
}
// ---- products of reflections
pub open spec fn refls(fs: Seq<Rf>, m: int) -> bool { forall|k: int| 0 <= k < fs.len() ==> is_refl((#[trigger] fs[k]).h, fs[k].t, m) }
// fs[k] * fs[k+1] * ...
pub open spec fn gen(fs: Seq<Rf>, m: int, k: int) -> Mt
  decreases fs.len() - k
{ if k >= fs.len() { idm() } else { lr(fs[k], m, gen(fs, m, k + 1)) } }
pub open spec fn orth(u: Mt, m: int) -> bool { meq(mm(u, tr(u), m), idm(), m, m) }
pub proof fn gen_orth(fs: Seq<Rf>, m: int, k: int)
  requires refls(fs, m), 0 <= k,
  ensures orth(gen(fs, m, k), m),
  decreases fs.len() - k,
{
  if k >= fs.len() {
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] mm(idm(), tr(idm()), m)(i, j) == idm()(i, j) by { mp_id_l(tr(idm()), m, i, j); }
  } else {
    gen_orth(fs, m, k + 1);
    lr_orth(fs[k], m, gen(fs, m, k + 1));
  }
}
pub proof fn lr_orth(f: Rf, m: int, u: Mt)
  requires is_refl(f.h, f.t, m), orth(u, m),
  ensures orth(lr(f, m, u), m),
{
  let w = lr(f, m, u);
  // w w' = L (u w'), u w' = rr(L, u u') = rr(L, I) = L, L L = I
  lr_mp(f, m, m, u, tr(w));
  rr_mp(f, m, m, u, u);
  rr_ext(f, m, m, mm(u, tr(u), m), idm());
  let z = mm(u, tr(w), m);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] z(i, j) == lr(f, m, idm())(i, j) by {
    assert(rr(f, m, mm(u, tr(u), m))(i, j) == z(i, j));
    assert(rr(f, m, mm(u, tr(u), m))(i, j) == rr(f, m, idm())(i, j));
    dot_ext(f.h, f.h, colof(tr(idm()), i), unit(i), m);
    dot_ext(f.h, f.h, colof(idm(), j), unit(j), m);
    dot_unit(f.h, i, m);
    dot_unit(f.h, j, m);
    let (t, a, b) = (f.t, (f.h)(i), (f.h)(j));
    assert((t * a) * b == (t * b) * a) by (nonlinear_arith);
  }
  lr_ext(f, m, m, z, lr(f, m, idm()));
  lr_lr(f, m, m, idm());
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] mm(w, tr(w), m)(i, j) == idm()(i, j) by {
    assert(lr(f, m, z)(i, j) == mm(w, tr(w), m)(i, j));
    assert(lr(f, m, z)(i, j) == lr(f, m, lr(f, m, idm()))(i, j));
    assert(lr(f, m, lr(f, m, idm()))(i, j) == idm()(i, j));
  }
}
// ls[0] (rs[0] (ls[1] (rs[1] ... x))): what x is the reduced form of
pub open spec fn unf(ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x: Mt) -> Mt
  decreases k
{ if k <= 0 { x } else { unf(ls, rs, m, n, k - 1, lr(ls[k - 1], m, rr(rs[k - 1], n, x))) } }
pub proof fn unf_ext(ls: Seq<Rf>, rs: Seq<Rf>, ls2: Seq<Rf>, rs2: Seq<Rf>, m: int, n: int, k: int, x: Mt, y: Mt)
  requires meq(x, y, m, n), forall|q: int| 0 <= q < k ==> #[trigger] ls[q] == ls2[q], forall|q: int| 0 <= q < k ==> #[trigger] rs[q] == rs2[q],
  ensures meq(unf(ls, rs, m, n, k, x), unf(ls2, rs2, m, n, k, y), m, n),
  decreases k,
{
  if k > 0 {
    let (g, f) = (rs[k - 1], ls[k - 1]);
    assert(rs[k - 1] == rs2[k - 1] && ls[k - 1] == ls2[k - 1]);
    rr_ext(g, m, n, x, y);
    lr_ext(f, m, n, rr(g, n, x), rr(g, n, y));
    unf_ext(ls, rs, ls2, rs2, m, n, k - 1, lr(f, m, rr(g, n, x)), lr(f, m, rr(g, n, y)));
  }
}
pub proof fn unf_sub(ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x: Mt, y: Mt)
  requires k <= ls.len(), k <= rs.len(),
  ensures meq(unf(ls, rs, m, n, k, msub(x, y)), msub(unf(ls, rs, m, n, k, x), unf(ls, rs, m, n, k, y)), m, n),
  decreases k,
{
  if k > 0 {
    let (g, f) = (rs[k - 1], ls[k - 1]);
    rr_sub(g, m, n, x, y);
    lr_ext(f, m, n, rr(g, n, msub(x, y)), msub(rr(g, n, x), rr(g, n, y)));
    lr_sub(f, m, n, rr(g, n, x), rr(g, n, y));
    let p = lr(f, m, rr(g, n, msub(x, y)));
    let (s, t) = (lr(f, m, rr(g, n, x)), lr(f, m, rr(g, n, y)));
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] p(i, c) == msub(s, t)(i, c) by {
      assert(p(i, c) == lr(f, m, msub(rr(g, n, x), rr(g, n, y)))(i, c));
    }
    unf_ext(ls, rs, ls, rs, m, n, k - 1, p, msub(s, t));
    unf_sub(ls, rs, m, n, k - 1, s, t);
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] unf(ls, rs, m, n, k, msub(x, y))(i, c) == msub(unf(ls, rs, m, n, k, x), unf(ls, rs, m, n, k, y))(i, c) by {
      assert(unf(ls, rs, m, n, k - 1, p)(i, c) == unf(ls, rs, m, n, k - 1, msub(s, t))(i, c));
    }
  }
}
pub proof fn unf_fro(ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x: Mt)
  requires refls(ls, m), refls(rs, n), k <= ls.len(), k <= rs.len(),
  ensures fro2(unf(ls, rs, m, n, k, x), m, n) == fro2(x, m, n),
  decreases k,
{
  if k > 0 {
    let (g, f) = (rs[k - 1], ls[k - 1]);
    rr_fro(g, m, n, x);
    lr_fro(f, m, n, rr(g, n, x));
    unf_fro(ls, rs, m, n, k - 1, lr(f, m, rr(g, n, x)));
  }
}
// one more reduction step: y = rr(g, lr(f, x))
pub proof fn unf_step(ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x: Mt, y: Mt)
  requires 0 <= k < ls.len(), k < rs.len(), refls(ls, m), refls(rs, n), meq(y, rr(rs[k], n, lr(ls[k], m, x)), m, n),
  ensures meq(unf(ls, rs, m, n, k + 1, y), unf(ls, rs, m, n, k, x), m, n),
{
  let (g, f) = (rs[k], ls[k]);
  let z = lr(f, m, x);
  rr_ext(g, m, n, y, rr(g, n, z));
  rr_rr(g, m, n, z);
  let ry = rr(g, n, y);
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] ry(i, c) == z(i, c) by { assert(ry(i, c) == rr(g, n, rr(g, n, z))(i, c)); }
  lr_ext(f, m, n, ry, z);
  lr_lr(f, m, n, x);
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] lr(f, m, ry)(i, c) == x(i, c) by { assert(lr(f, m, ry)(i, c) == lr(f, m, z)(i, c)); }
  unf_ext(ls, rs, ls, rs, m, n, k, lr(f, m, ry), x);
}
// u*b*v'
pub open spec fn ubv(u: Mt, b: Mt, w: Mt, m: int, n: int) -> Mt { mm(u, mm(b, tr(w), n), m) }
pub proof fn ubv_ext(u: Mt, b: Mt, w: Mt, u2: Mt, b2: Mt, w2: Mt, m: int, n: int)
  requires meq(u, u2, m, m), meq(b, b2, m, n), meq(w, w2, n, n),
  ensures meq(ubv(u, b, w, m, n), ubv(u2, b2, w2, m, n), m, n),
{
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] ubv(u, b, w, m, n)(i, j) == ubv(u2, b2, w2, m, n)(i, j) by {
    let (x, x2) = (mm(b, tr(w), n), mm(b2, tr(w2), n));
    assert forall|k: int| 0 <= k < m implies #[trigger] x(k, j) == x2(k, j) by {
      assert forall|t: int| 0 <= t < n implies #[trigger] tr(w)(t, j) == tr(w2)(t, j) by { assert(w(j, t) == w2(j, t)); }
      mp_ext(b, b2, tr(w), tr(w2), n, k, k, j, j);
    }
    mp_ext(u, u2, x, x2, m, i, i, j, j);
  }
}
// unfolding b gives gen(ls) * b * gen(rs)'
pub proof fn unf_gen(ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, b: Mt)
  requires 0 <= k <= ls.len(), rs.len() == ls.len(),
  ensures meq(unf(ls, rs, m, n, k, ubv(gen(ls, m, k), b, gen(rs, n, k), m, n)), unf(ls, rs, m, n, ls.len() as int, b), m, n),
  decreases ls.len() - k,
{
  let (u, w) = (gen(ls, m, k), gen(rs, n, k));
  let x = ubv(u, b, w, m, n);
  if k == ls.len() {
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] x(i, j) == b(i, j) by {
      let y = mm(b, tr(idm()), n);
      mp_id_l(y, m, i, j);
      mp_ext(b, b, tr(idm()), idm(), n, i, i, j, j);
      mp_id_r(b, n, i, j);
    }
    unf_ext(ls, rs, ls, rs, m, n, k, x, b);
  } else {
    unf_gen(ls, rs, m, n, k + 1, b);
    let (f, g) = (ls[k], rs[k]);
    let (u1, w1) = (gen(ls, m, k + 1), gen(rs, n, k + 1));
    let x1 = ubv(u1, b, w1, m, n);
    // lr(f, rr(g, u1 b w1')) = (lr f u1) b (lr g w1)'
    let y = mm(b, tr(w1), n);
    // rr(g, u1 * (b w1')) = rr(g, (u1 b) w1') = (u1 b) (lr g w1)' = u1 (b (lr g w1)')
    let ub = mm(u1, b, m);
    let r1 = rr(g, n, x1);
    let z = ubv(u1, b, w, m, n);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] x1(i, j) == mm(ub, tr(w1), n)(i, j) by { mp_assoc(u1, b, tr(w1), m, n, i, j); }
    rr_ext(g, m, n, x1, mm(ub, tr(w1), n));
    rr_mp(g, m, n, ub, w1);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] r1(i, j) == z(i, j) by {
      assert(r1(i, j) == rr(g, n, mm(ub, tr(w1), n))(i, j));
      assert(rr(g, n, mm(ub, tr(w1), n))(i, j) == mm(ub, tr(w), n)(i, j));
      mp_assoc(u1, b, tr(w), m, n, i, j);
    }
    lr_ext(f, m, n, r1, z);
    lr_mp(f, m, n, u1, mm(b, tr(w), n));
    let l1 = lr(f, m, r1);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] l1(i, j) == x(i, j) by {
      assert(l1(i, j) == lr(f, m, z)(i, j));
      assert(lr(f, m, z)(i, j) == mm(u, mm(b, tr(w), n), m)(i, j));
    }
    unf_ext(ls, rs, ls, rs, m, n, k, x, l1);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] unf(ls, rs, m, n, k, x)(i, j) == unf(ls, rs, m, n, ls.len() as int, b)(i, j) by {
      assert(unf(ls, rs, m, n, k, x)(i, j) == unf(ls, rs, m, n, k, l1)(i, j));
      assert(unf(ls, rs, m, n, k + 1, x1)(i, j) == unf(ls, rs, m, n, ls.len() as int, b)(i, j));
    }
  }
}
// ---- closeness
pub open spec fn near(a: Mt, x: Mt, m: int, n: int, w: real) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> rabs(#[trigger] a(i, j) - x(i, j)) <= w }
pub open spec fn small(x: Mt, m: int, n: int, w: real) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> rabs(#[trigger] x(i, j)) <= w }
pub proof fn near_sub(a: Mt, x: Mt, y: Mt, d: Mt, m: int, n: int, w: real, t: real)
  requires near(a, x, m, n, w), meq(d, msub(x, y), m, n), small(d, m, n, t),
  ensures near(a, y, m, n, w + t),
{
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] a(i, j) - y(i, j)) <= w + t by {
    assert(rabs(a(i, j) - x(i, j)) <= w);
    assert(rabs(d(i, j)) <= t);
    assert(d(i, j) == msub(x, y)(i, j));
  }
}
pub proof fn fro_small(x: Mt, m: int, n: int, t: real)
  requires fro2(x, m, n) <= t * t, t >= 0real,
  ensures small(x, m, n, t),
{
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] x(i, j)) <= t by { fro_entry(x, m, n, i, j); root_le(x(i, j), t); }
}
}
pub use rot::*;
