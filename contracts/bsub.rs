// ---------------------------------------------------------------- back substitution: eigenvectors of a quasi-triangular matrix
pub mod bsm {
use super::*;
// the quasi-triangular matrix in the buffer: upper triangular, with a 2-by-2 block where the imaginary parts say so
pub open spec fn qt(h: Seq<E>, e: Seq<E>, n: int) -> Mt { |r: int, c: int| if r <= c || (r == c + 1 && v(e[r]) < 0real) { el(h, n, r, c) } else { 0real } }
// d[i] + i e[i] is an eigenvalue of the block at i
pub open spec fn evs1(t: Mt, d: Seq<E>, e: Seq<E>, n: int, i: int) -> bool {
  let (di, ei) = (v(d[i]), v(e[i]));
  &&& ei == 0real ==> t(i, i) == di
  &&& ei > 0real ==> i + 1 < n && v(e[i + 1]) == -ei && v(d[i + 1]) == di && t(i, i) + t(i + 1, i + 1) == di + di && (t(i, i) - di) * (t(i + 1, i + 1) - di) - t(i, i + 1) * t(i + 1, i) == ei * ei
  &&& ei < 0real ==> i > 0 && v(e[i - 1]) == -ei
}
#[verifier::opaque]
pub open spec fn evs(t: Mt, d: Seq<E>, e: Seq<E>, n: int, lo: int) -> bool { d.len() == n && e.len() == n && forall|i: int| lo <= i < n ==> #[trigger] evs1(t, d, e, n, i) }
pub proof fn evs_at(t: Mt, d: Seq<E>, e: Seq<E>, n: int, lo: int, i: int)
  requires evs(t, d, e, n, lo), lo <= i < n,
  ensures evs1(t, d, e, n, i), d.len() == n, e.len() == n,
{ reveal(evs); }
pub proof fn evs_zero(h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, i: int)
  requires evs(qt(h, e, n), d, e, n, 0), 0 <= i < n, v(e[i]) <= 0real,
  ensures i + 1 < n ==> v(e[i + 1]) >= 0real && qt(h, e, n)(i + 1, i) == 0real,
{ if i + 1 < n { evs_at(qt(h, e, n), d, e, n, 0, i + 1); } }
pub open spec fn bdot(t: Mt, h: Seq<E>, n: int, r: int, c: int, lo: int, hi: int) -> real { sum(|k: int| t(r, k) * el(h, n, k, c), lo, hi) }
pub open spec fn hdot(h: Seq<E>, n: int, r: int, c: int, lo: int, hi: int) -> real { sum(|k: int| el(h, n, r, k) * el(h, n, k, c), lo, hi) }
// columns a..=j are being solved for, rows l and below are done; everything to the left is as it was
#[verifier::opaque]
pub open spec fn unt(h0: Seq<E>, h: Seq<E>, n: int, a: int, j: int, l: int) -> bool {
  h.len() == n * n && h0.len() == n * n && forall|r: int, c: int| 0 <= r < n && 0 <= c < n && (c < a || (c <= j && r < l)) ==> #[trigger] el(h, n, r, c) == el(h0, n, r, c)
}
#[verifier::opaque]
pub open spec fn rst(hs: Seq<E>, h: Seq<E>, n: int, j: int) -> bool {
  h.len() == n * n && forall|r: int, c: int| 0 <= r < n && j < c < n ==> #[trigger] el(h, n, r, c) == el(hs, n, r, c)
}
pub proof fn bdot_ext(t: Mt, h: Seq<E>, h2: Seq<E>, n: int, r: int, c: int, lo: int, hi: int)
  requires forall|k: int| lo <= k < hi ==> #[trigger] el(h2, n, k, c) == el(h, n, k, c),
  ensures bdot(t, h2, n, r, c, lo, hi) == bdot(t, h, n, r, c, lo, hi),
{
  let (f, g) = (|k: int| t(r, k) * el(h2, n, k, c), |k: int| t(r, k) * el(h, n, k, c));
  assert forall|k: int| lo <= k < hi implies #[trigger] f(k) == g(k) by { assert(el(h2, n, k, c) == el(h, n, k, c)); }
  sum_ext(f, g, lo, hi);
}
pub proof fn bdot_first(t: Mt, h: Seq<E>, n: int, r: int, c: int, lo: int, hi: int)
  requires lo < hi,
  ensures bdot(t, h, n, r, c, lo, hi) == t(r, lo) * el(h, n, lo, c) + bdot(t, h, n, r, c, lo + 1, hi),
{ sum_first(|k: int| t(r, k) * el(h, n, k, c), lo, hi); }
pub proof fn hd_td(h0: Seq<E>, e: Seq<E>, h: Seq<E>, n: int, r: int, c: int, a: int, j: int, lo: int)
  requires unt(h0, h, n, a, j, lo), 0 <= r < lo, c <= j < n, r <= lo, 0 <= c,
  ensures hdot(h, n, r, c, lo, j + 1) == bdot(qt(h0, e, n), h, n, r, c, lo, j + 1),
{
  reveal(unt);
  let t = qt(h0, e, n);
  let (f, g) = (|k: int| el(h, n, r, k) * el(h, n, k, c), |k: int| t(r, k) * el(h, n, k, c));
  assert forall|k: int| lo <= k < j + 1 implies #[trigger] f(k) == g(k) by { assert(el(h, n, r, k) == el(h0, n, r, k)); }
  sum_ext(f, g, lo, j + 1);
}
pub proof fn unt_at(h0: Seq<E>, h: Seq<E>, n: int, a: int, j: int, l: int, r: int, c: int)
  requires unt(h0, h, n, a, j, l), 0 <= r < n, 0 <= c < n, c < a || (c <= j && r < l),
  ensures el(h, n, r, c) == el(h0, n, r, c), h.len() == n * n,
{ reveal(unt); }
pub proof fn unt_set(h0: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, a: int, j: int, l: int, l2: int, r: int, c: int, x: E)
  requires unt(h0, h, n, a, j, l), rst(hs, h, n, j), l2 <= l, l2 <= r < n, 0 <= a <= c <= j < n, 0 <= r,
  ensures unt(h0, h.update(r * n + c, x), n, a, j, l2), rst(hs, h.update(r * n + c, x), n, j),
{ reveal(unt); reveal(rst); el_update(h, n, n, r, c, x); }
pub proof fn unt_down(h0: Seq<E>, h: Seq<E>, n: int, a: int, j: int, l: int, a2: int, j2: int, l2: int)
  requires unt(h0, h, n, a, j, l), a2 <= a, j2 < a || (j2 <= j && l2 <= l),
  ensures unt(h0, h, n, a2, j2, l2),
{ reveal(unt); }
// ---- a real vector
#[verifier::opaque]
pub open spec fn rp(t: Mt, h: Seq<E>, n: int, j: int, l: int, p: real, be: real) -> bool {
  &&& 0 <= l <= j < n && h.len() == n * n && el(h, n, j, j) > 0real
  &&& forall|r: int| l <= r <= j ==> rabs(#[trigger] bdot(t, h, n, r, j, l, j + 1) - p * el(h, n, r, j)) <= be * rabs(el(h, n, r, j))
}
pub proof fn rp_start(h0: Seq<E>, e: Seq<E>, h: Seq<E>, n: int, j: int, p: real, be: real, x: E)
  requires 0 <= j < n, h.len() == n * n, v(x) == 1real, qt(h0, e, n)(j, j) == p, be >= 0real,
  ensures rp(qt(h0, e, n), h.update(j * n + j, x), n, j, j, p, be),
{
  reveal(rp);
  let t = qt(h0, e, n);
  let h2 = h.update(j * n + j, x);
  el_update(h, n, n, j, j, x);
  bdot_first(t, h2, n, j, j, j, j + 1);
  assert(el(h2, n, j, j) == 1real);
  assert(t(j, j) * 1real - p * 1real == 0real) by (nonlinear_arith) requires t(j, j) == p;
  assert(be * 1real >= 0real) by (nonlinear_arith) requires be >= 0real;
}
// the real equation of row i
pub proof fn rp_one(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, i: int, p: real, be: real, w: real, r: real, x: E)
  requires
    rp(qt(h0, e, n), h, n, j, i + 1, p, be), unt(h0, h, n, j, j, i + 1), rst(hs, h, n, j), evs(qt(h0, e, n), d, e, n, 0), 0 <= i < j, v(e[i]) == 0real,
    w == qt(h0, e, n)(i, i) - p, r == bdot(qt(h0, e, n), h, n, i, j, i + 1, j + 1), rabs(w * v(x) + r) <= be * rabs(v(x)),
  ensures rp(qt(h0, e, n), h.update(i * n + j, x), n, j, i, p, be), unt(h0, h.update(i * n + j, x), n, j, j, i), rst(hs, h.update(i * n + j, x), n, j),
{
  reveal(rp);
  let t = qt(h0, e, n);
  let h2 = h.update(i * n + j, x);
  el_update(h, n, n, i, j, x);
  unt_set(h0, hs, h, n, j, j, i + 1, i, i, j, x);
  evs_zero(h0, d, e, n, i);
  assert forall|q: int| i <= q <= j implies rabs(#[trigger] bdot(t, h2, n, q, j, i, j + 1) - p * el(h2, n, q, j)) <= be * rabs(el(h2, n, q, j)) by {
    bdot_first(t, h2, n, q, j, i, j + 1);
    bdot_ext(t, h, h2, n, q, j, i + 1, j + 1);
    let (a, xv) = (t(q, i), v(x));
    if q == i {
      assert(w * xv == a * xv - p * xv) by (nonlinear_arith) requires w == a - p;
    } else {
      assert(a == 0real);
      assert(a * xv == 0real) by (nonlinear_arith) requires a == 0real;
      assert(rabs(bdot(t, h, n, q, j, i + 1, j + 1) - p * el(h, n, q, j)) <= be * rabs(el(h, n, q, j)));
    }
  }
}
// the two equations of rows i and i + 1
pub proof fn rp_two(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, i: int, p: real, be: real, w: real, z: real, r: real, s: real, x1: E, x2: E)
  requires
    rp(qt(h0, e, n), h, n, j, i + 2, p, be), unt(h0, h, n, j, j, i + 2), rst(hs, h, n, j), evs(qt(h0, e, n), d, e, n, 0), 0 <= i, i + 1 < j, v(e[i]) > 0real, be >= 0real,
    w == qt(h0, e, n)(i, i) - p, z == qt(h0, e, n)(i + 1, i + 1) - p,
    r == bdot(qt(h0, e, n), h, n, i, j, i + 2, j + 1), s == bdot(qt(h0, e, n), h, n, i + 1, j, i + 2, j + 1),
    w * v(x1) + qt(h0, e, n)(i, i + 1) * v(x2) + r == 0real, qt(h0, e, n)(i + 1, i) * v(x1) + z * v(x2) + s == 0real,
  ensures ({
    let h2 = h.update(i * n + j, x1).update((i + 1) * n + j, x2);
    rp(qt(h0, e, n), h2, n, j, i, p, be) && unt(h0, h2, n, j, j, i) && rst(hs, h2, n, j)
  }),
{
  reveal(rp);
  let t = qt(h0, e, n);
  let h1 = h.update(i * n + j, x1);
  let h2 = h1.update((i + 1) * n + j, x2);
  el_update(h, n, n, i, j, x1);
  el_update(h1, n, n, i + 1, j, x2);
  unt_set(h0, hs, h, n, j, j, i + 2, i, i, j, x1);
  unt_set(h0, hs, h1, n, j, j, i, i, i + 1, j, x2);
  evs_at(t, d, e, n, 0, i); evs_at(t, d, e, n, 0, i + 1);
  evs_zero(h0, d, e, n, i + 1);
  assert forall|q: int| i <= q <= j implies rabs(#[trigger] bdot(t, h2, n, q, j, i, j + 1) - p * el(h2, n, q, j)) <= be * rabs(el(h2, n, q, j)) by {
    bdot_first(t, h2, n, q, j, i, j + 1);
    bdot_first(t, h2, n, q, j, i + 1, j + 1);
    bdot_ext(t, h, h2, n, q, j, i + 2, j + 1);
    let (a, b, u1, u2) = (t(q, i), t(q, i + 1), v(x1), v(x2));
    assert(el(h2, n, i, j) == u1 && el(h2, n, i + 1, j) == u2);
    let y = rabs(el(h2, n, q, j));
    assert(be * y >= 0real) by (nonlinear_arith) requires be >= 0real, y >= 0real;
    if q == i {
      assert(w * u1 == a * u1 - p * u1) by (nonlinear_arith) requires w == a - p;
    } else if q == i + 1 {
      assert(z * u2 == b * u2 - p * u2) by (nonlinear_arith) requires z == b - p;
    } else {
      assert(a == 0real && b == 0real);
      assert(a * u1 == 0real && b * u2 == 0real) by (nonlinear_arith) requires a == 0real, b == 0real;
      assert(rabs(bdot(t, h, n, q, j, i + 2, j + 1) - p * el(h, n, q, j)) <= be * rabs(el(h, n, q, j)));
    }
  }
}
// columns a..=j, rows i <= r < k divided by t
pub open spec fn scl(h: Seq<E>, h2: Seq<E>, n: int, a: int, j: int, i: int, k: int, t: real) -> bool {
  h2.len() == h.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(h2, n, r, c) == if a <= c <= j && i <= r < k { el(h, n, r, c) / t } else { el(h, n, r, c) }
}
pub proof fn scl_step(h: Seq<E>, h2: Seq<E>, n: int, j: int, i: int, k: int, t: real, x: E)
  requires scl(h, h2, n, j, j, i, k, t), h.len() == n * n, 0 <= i <= k < n, 0 <= j < n, v(x) == el(h2, n, k, j) / t,
  ensures scl(h, h2.update(k * n + j, x), n, j, j, i, k + 1, t),
{ el_update(h2, n, n, k, j, x); assert(el(h2, n, k, j) == el(h, n, k, j)); }
pub proof fn scl_step2(h: Seq<E>, h2: Seq<E>, n: int, j: int, i: int, k: int, t: real, x: E, y: E)
  requires scl(h, h2, n, j - 1, j, i, k, t), h.len() == n * n, 0 <= i <= k < n, 1 <= j < n, v(x) == el(h2, n, k, j - 1) / t, v(y) == el(h2, n, k, j) / t,
  ensures scl(h, h2.update(k * n + (j - 1), x).update(k * n + j, y), n, j - 1, j, i, k + 1, t), el(h2.update(k * n + (j - 1), x), n, k, j) == el(h2, n, k, j),
{
  el_update(h2, n, n, k, j - 1, x); el_update(h2.update(k * n + (j - 1), x), n, n, k, j, y);
  assert(el(h2, n, k, j) == el(h, n, k, j)); assert(el(h2, n, k, j - 1) == el(h, n, k, j - 1));
}
pub proof fn bdot_scale(t: Mt, h: Seq<E>, h2: Seq<E>, n: int, r: int, c: int, lo: int, hi: int, s: real)
  requires forall|k: int| lo <= k < hi ==> #[trigger] el(h2, n, k, c) == el(h, n, k, c) / s, s > 0real,
  ensures bdot(t, h2, n, r, c, lo, hi) == (1real / s) * bdot(t, h, n, r, c, lo, hi),
{
  let (f, g) = (|k: int| t(r, k) * el(h, n, k, c), |k: int| t(r, k) * el(h2, n, k, c));
  let q = 1real / s;
  assert forall|k: int| lo <= k < hi implies #[trigger] g(k) == q * f(k) by {
    assert(el(h2, n, k, c) == el(h, n, k, c) / s);
    let (a, b) = (t(r, k), el(h, n, k, c));
    let y = b / s;
    div_recip(b, s);
    assert(a * (q * b) == q * (a * b)) by (nonlinear_arith);
  }
  sum_scale(f, g, q, lo, hi);
}
pub proof fn div_recip(b: real, s: real)
  requires s != 0real,
  ensures b / s == (1real / s) * b,
{
  let q = 1real / s;
  assert(q * s == 1real) by (nonlinear_arith) requires q == 1real / s, s != 0real;
  assert((q * b) * s == b * (q * s)) by (nonlinear_arith);
  let (x, y) = (b / s, q * b);
  assert(x * s == b) by (nonlinear_arith) requires x == b / s, s != 0real;
  assert(x == y) by (nonlinear_arith) requires x * s == y * s, s != 0real;
}
proof fn recip_pos(s: real)
  requires s > 0real,
  ensures 1real / s > 0real,
{ let q = 1real / s; assert(q * s == 1real) by (nonlinear_arith) requires q == 1real / s, s > 0real; assert(q > 0real) by (nonlinear_arith) requires q * s == 1real, s > 0real; }
proof fn abs_pos_mul(q: real, x: real)
  requires q > 0real,
  ensures rabs(q * x) == q * rabs(x),
{ abs_mul(q, x); }
pub proof fn rp_scale(h0: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, h2: Seq<E>, n: int, j: int, i: int, p: real, be: real, s: real)
  requires rp(qt(h0, e, n), h, n, j, i, p, be), unt(h0, h, n, j, j, i), rst(hs, h, n, j), scl(h, h2, n, j, j, i, j + 1, s), s > 0real,
  ensures rp(qt(h0, e, n), h2, n, j, i, p, be), unt(h0, h2, n, j, j, i), rst(hs, h2, n, j),
{
  reveal(rp); reveal(unt); reveal(rst);
  let t = qt(h0, e, n);
  let q = 1real / s;
  recip_pos(s);
  assert(el(h2, n, j, j) > 0real) by { let y = el(h, n, j, j); div_recip(y, s); assert(q * y > 0real) by (nonlinear_arith) requires q > 0real, y > 0real; }
  assert forall|r: int| i <= r <= j implies rabs(#[trigger] bdot(t, h2, n, r, j, i, j + 1) - p * el(h2, n, r, j)) <= be * rabs(el(h2, n, r, j)) by {
    let (x, u) = (bdot(t, h, n, r, j, i, j + 1), el(h, n, r, j));
    assert(rabs(x - p * u) <= be * rabs(u));
    bdot_scale(t, h, h2, n, r, j, i, j + 1, s);
    div_recip(u, s);
    assert(q * x - p * (q * u) == q * (x - p * u)) by (nonlinear_arith);
    abs_pos_mul(q, x - p * u); abs_pos_mul(q, u);
    let (a, b) = (rabs(x - p * u), rabs(u));
    assert(q * a <= be * (q * b)) by (nonlinear_arith) requires a <= be * b, q > 0real;
  }
}
// ---- the columns that are finished
pub open spec fn xm(h: Seq<E>, n: int) -> Mt { |r: int, c: int| if r <= c { el(h, n, r, c) } else { 0real } }
// a complex vector, rows r and r - 1 (of those from l on)
pub open spec fn prr1(a: real, b: real) -> real { rabs(a) + rabs(b) }
pub open spec fn prr(x: Mt, j: int, r: int, l: int) -> real { prr1(x(r, j - 1), x(r, j)) + if r > l { prr1(x(r - 1, j - 1), x(r - 1, j)) } else { 0real } }
pub open spec fn cres(t: Mt, x: Mt, n: int, j: int, p: real, q: real, be: real, r: int) -> bool {
  rabs(mp(t, x, n, r, j - 1) - (p * x(r, j - 1) + q * x(r, j))) <= be * prr(x, j, r, 0) && rabs(mp(t, x, n, r, j) - (p * x(r, j) - q * x(r, j - 1))) <= be * prr(x, j, r, 0)
}
pub open spec fn colok(t: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, j: int, be: real) -> bool {
  &&& v(e[j]) <= 0real ==> x(j, j) > 0real
  &&& v(e[j]) == 0real ==> forall|r: int| 0 <= r < n ==> rabs(#[trigger] mp(t, x, n, r, j) - v(d[j]) * x(r, j)) <= be * rabs(x(r, j))
  &&& v(e[j]) < 0real ==> x(j - 1, j - 1) != 0real && forall|r: int| 0 <= r < n ==> #[trigger] cres(t, x, n, j, v(d[j]), v(e[j]), be, r)
}
#[verifier::opaque]
pub open spec fn cols(t: Mt, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, lo: int, be: real) -> bool { h.len() == n * n && forall|j: int| lo <= j < n ==> #[trigger] colok(t, xm(h, n), d, e, n, j, be) }
// column j of t*x, from the rows the vector has
proof fn mp_td(h0: Seq<E>, e: Seq<E>, h: Seq<E>, n: int, r: int, c: int, j: int)
  requires 0 <= c <= j < n, 0 <= r < n, c < j ==> c == j - 1 && el(h, n, j, c) == 0real,
  ensures mp(qt(h0, e, n), xm(h, n), n, r, c) == bdot(qt(h0, e, n), h, n, r, c, 0, j + 1),
{
  let (t, x) = (qt(h0, e, n), xm(h, n));
  let (f, g) = (|k: int| t(r, k) * x(k, c), |k: int| t(r, k) * el(h, n, k, c));
  sum_split(f, 0, j + 1, n);
  assert forall|k: int| j + 1 <= k < n implies #[trigger] f(k) == 0real by { let a = t(r, k); assert(a * 0real == 0real) by (nonlinear_arith); }
  sum_zero(f, j + 1, n);
  sum_ext(f, g, 0, j + 1);
}
// rows below the block: nothing there
proof fn bdot_below(h0: Seq<E>, d: Seq<E>, e: Seq<E>, h: Seq<E>, n: int, r: int, c: int, j: int)
  requires evs(qt(h0, e, n), d, e, n, 0), 0 <= j < r < n, v(e[j]) <= 0real,
  ensures bdot(qt(h0, e, n), h, n, r, c, 0, j + 1) == 0real,
{
  let t = qt(h0, e, n);
  evs_zero(h0, d, e, n, j);
  let f = |k: int| t(r, k) * el(h, n, k, c);
  assert forall|k: int| 0 <= k < j + 1 implies #[trigger] f(k) == 0real by { assert(t(r, k) == 0real); let b = el(h, n, k, c); assert(0real * b == 0real) by (nonlinear_arith); }
  sum_zero(f, 0, j + 1);
}
proof fn cols_keep(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, lo: int, be: real, c: int)
  requires cols(qt(h0, e, n), hs, d, e, n, lo, be), rst(hs, h, n, j), 0 <= j < lo, lo <= c < n, v(e[c]) < 0real ==> j < c - 1, h.len() == n * n,
  ensures colok(qt(h0, e, n), xm(h, n), d, e, n, c, be),
{
  reveal(cols); reveal(rst);
  let (t, x, y) = (qt(h0, e, n), xm(hs, n), xm(h, n));
  assert(colok(t, x, d, e, n, c, be));
  assert forall|r: int| 0 <= r < n implies #[trigger] y(r, c) == x(r, c) by { assert(el(h, n, r, c) == el(hs, n, r, c)); }
  if c - 1 > j { assert forall|r: int| 0 <= r < n implies #[trigger] y(r, c - 1) == x(r, c - 1) by { assert(el(h, n, r, c - 1) == el(hs, n, r, c - 1)); } }
  assert forall|r: int| 0 <= r < n implies #[trigger] mp(t, y, n, r, c) == mp(t, x, n, r, c) by { mp_ext(t, t, y, x, n, r, r, c, c); }
  if c - 1 > j { assert forall|r: int| 0 <= r < n implies #[trigger] mp(t, y, n, r, c - 1) == mp(t, x, n, r, c - 1) by { mp_ext(t, t, y, x, n, r, r, c - 1, c - 1); } }
  assert(y(c, c) == x(c, c));
  if c - 1 > j { assert(y(c - 1, c - 1) == x(c - 1, c - 1)); }
  if v(e[c]) == 0real { assert forall|r: int| 0 <= r < n implies rabs(#[trigger] mp(t, y, n, r, c) - v(d[c]) * y(r, c)) <= be * rabs(y(r, c)) by { assert(y(r, c) == x(r, c)); assert(rabs(mp(t, x, n, r, c) - v(d[c]) * x(r, c)) <= be * rabs(x(r, c))); } }
  if v(e[c]) < 0real {
    assert forall|r: int| 0 <= r < n implies #[trigger] cres(t, y, n, c, v(d[c]), v(e[c]), be, r) by {
      assert(y(r, c) == x(r, c)); assert(y(r, c - 1) == x(r, c - 1)); assert(mp(t, y, n, r, c) == mp(t, x, n, r, c));
      if r > 0 { assert(y(r - 1, c) == x(r - 1, c)); assert(y(r - 1, c - 1) == x(r - 1, c - 1)); }
      assert(cres(t, x, n, c, v(d[c]), v(e[c]), be, r));
    }
  }
  assert(v(e[c]) <= 0real ==> y(c, c) > 0real);
  if v(e[c]) == 0real { assert(forall|r: int| 0 <= r < n ==> rabs(#[trigger] mp(t, y, n, r, c) - v(d[c]) * y(r, c)) <= be * rabs(y(r, c))); }
  if v(e[c]) < 0real { assert(y(c - 1, c - 1) != 0real); }
  assert(colok(t, y, d, e, n, c, be));
}
pub proof fn real_done(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, p: real, be: real)
  requires
    rp(qt(h0, e, n), h, n, j, 0, p, be), unt(h0, h, n, j, j, 0), rst(hs, h, n, j), evs(qt(h0, e, n), d, e, n, 0), cols(qt(h0, e, n), hs, d, e, n, j + 1, be),
    v(e[j]) == 0real, p == v(d[j]), be >= 0real,
  ensures cols(qt(h0, e, n), h, d, e, n, j, be), unt(h0, h, n, j, j - 1, 0),
{
  reveal(rp);
  let (t, x) = (qt(h0, e, n), xm(h, n));
  unt_down(h0, h, n, j, j, 0, j, j - 1, 0);
  assert(colok(t, x, d, e, n, j, be)) by {
    assert forall|r: int| 0 <= r < n implies rabs(#[trigger] mp(t, x, n, r, j) - v(d[j]) * x(r, j)) <= be * rabs(x(r, j)) by {
      mp_td(h0, e, h, n, r, j, j);
      if r > j {
        bdot_below(h0, d, e, h, n, r, j, j);
        assert(p * 0real == 0real && be * 0real == 0real) by (nonlinear_arith);
      } else {
        assert(rabs(bdot(t, h, n, r, j, 0, j + 1) - p * el(h, n, r, j)) <= be * rabs(el(h, n, r, j)));
      }
    }
  }
  reveal(cols);
  assert forall|c: int| j <= c < n implies #[trigger] colok(t, x, d, e, n, c, be) by {
    if c > j {
      if c == j + 1 { evs_at(t, d, e, n, 0, c); }
      cols_keep(h0, d, e, hs, h, n, j, j + 1, be, c);
    }
  }
}
// the first of a pair: nothing to do
pub proof fn pair_first(h0: Seq<E>, d: Seq<E>, e: Seq<E>, h: Seq<E>, n: int, j: int, be: real)
  requires cols(qt(h0, e, n), h, d, e, n, j + 1, be), v(e[j]) > 0real,
  ensures cols(qt(h0, e, n), h, d, e, n, j, be),
{
  reveal(cols);
  let (t, x) = (qt(h0, e, n), xm(h, n));
  assert forall|c: int| j <= c < n implies #[trigger] colok(t, x, d, e, n, c, be) by { if c > j { assert(colok(t, x, d, e, n, c, be)); } }
}
// ---- a complex vector, in columns j - 1 and j
#[verifier::opaque]
pub open spec fn cp(t: Mt, h: Seq<E>, n: int, j: int, l: int, p: real, q: real, be: real) -> bool {
  &&& 0 <= l <= j - 1 && j < n && h.len() == n * n && el(h, n, j, j) > 0real && el(h, n, j, j - 1) == 0real && el(h, n, j - 1, j - 1) != 0real
  &&& forall|r: int| l <= r <= j ==> #[trigger] cpr(t, h, n, j, l, p, q, be, r)
}
pub open spec fn hrr(h: Seq<E>, n: int, j: int, r: int, l: int) -> real { prr1(el(h, n, r, j - 1), el(h, n, r, j)) + if r > l { prr1(el(h, n, r - 1, j - 1), el(h, n, r - 1, j)) } else { 0real } }
pub open spec fn cpr(t: Mt, h: Seq<E>, n: int, j: int, l: int, p: real, q: real, be: real, r: int) -> bool {
  let z = be * hrr(h, n, j, r, l);
  rabs(bdot(t, h, n, r, j - 1, l, j + 1) - (p * el(h, n, r, j - 1) + q * el(h, n, r, j))) <= z && rabs(bdot(t, h, n, r, j, l, j + 1) - (p * el(h, n, r, j) - q * el(h, n, r, j - 1))) <= z
}
proof fn be_nn(be: real, h: Seq<E>, n: int, j: int, r: int, l: int)
  requires be >= 0real,
  ensures be * hrr(h, n, j, r, l) >= 0real,
{ let x = hrr(h, n, j, r, l); assert(be * x >= 0real) by (nonlinear_arith) requires be >= 0real, x >= 0real; }
pub struct Cx { pub a: real, pub b: real }
pub open spec fn cx(a: real, b: real) -> Cx { Cx { a: a, b: b } }
pub open spec fn cmu(x: Cx, y: Cx) -> Cx { cx(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a) }
pub open spec fn cad(x: Cx, y: Cx) -> Cx { cx(x.a + y.a, x.b + y.b) }
pub open spec fn cng(x: Cx) -> Cx { cx(-x.a, -x.b) }
pub open spec fn cz() -> Cx { cx(0real, 0real) }
proof fn cx_dist(x: Cx, y: Cx, z: Cx)
  ensures cmu(x, cad(y, z)) == cad(cmu(x, y), cmu(x, z)), cmu(x, cng(y)) == cng(cmu(x, y)),
{
  let (a, b, c, d, e, f) = (x.a, x.b, y.a, y.b, z.a, z.b);
  assert(a * (c + e) == a * c + a * e && b * (d + f) == b * d + b * f && a * (d + f) == a * d + a * f && b * (c + e) == b * c + b * e) by (nonlinear_arith);
  assert(a * (-c) == -(a * c) && b * (-d) == -(b * d) && a * (-d) == -(a * d) && b * (-c) == -(b * c)) by (nonlinear_arith);
}
proof fn cx_comm(x: Cx, y: Cx)
  ensures cmu(x, y) == cmu(y, x),
{ let (a, b, c, d) = (x.a, x.b, y.a, y.b); assert(a * c == c * a && b * d == d * b && a * d == d * a && b * c == c * b) by (nonlinear_arith); }
proof fn mul3(a: real, b: real, c: real)
  ensures a * (b * c) == (a * b) * c,
{ assert(a * (b * c) == (a * b) * c) by (nonlinear_arith); }
pub proof fn mdist(a: real, b: real, c: real)
  ensures a * (b + c) == a * b + a * c, a * (b - c) == a * b - a * c, (b + c) * a == b * a + c * a, (b - c) * a == b * a - c * a,
{ assert(a * (b + c) == a * b + a * c && a * (b - c) == a * b - a * c && (b + c) * a == b * a + c * a && (b - c) * a == b * a - c * a) by (nonlinear_arith); }
proof fn cx_assoc(x: Cx, y: Cx, z: Cx)
  ensures cmu(x, cmu(y, z)) == cmu(cmu(x, y), z),
{
  let (a, b, c, d, e, f) = (x.a, x.b, y.a, y.b, z.a, z.b);
  mul3(a, c, e); mul3(a, d, f); mul3(b, c, f); mul3(b, d, e); mul3(a, c, f); mul3(a, d, e); mul3(b, c, e); mul3(b, d, f);
  mdist(a, c * e, d * f); mdist(b, c * f, d * e); mdist(a, c * f, d * e); mdist(b, c * e, d * f);
  mdist(e, a * c, b * d); mdist(f, a * d, b * c); mdist(f, a * c, b * d); mdist(e, a * d, b * c);
}
proof fn cx_cancel(x: Cx, y: Cx)
  requires cmu(x, y) == cz(), x != cz(),
  ensures y == cz(),
{
  let (a, b, c, d) = (x.a, x.b, y.a, y.b);
  let (s, t) = (a * c - b * d, a * d + b * c);
  assert(s == 0real && t == 0real);
  mdist(a, a * c, b * d); mdist(b, a * d, b * c); mdist(b, a * c, b * d); mdist(a, a * d, b * c);
  mul3(a, a, c); mul3(a, b, d); mul3(b, a, d); mul3(b, b, c); mul3(b, a, c); mul3(b, b, d); mul3(a, a, d); mul3(a, b, c);
  let m = a * a + b * b;
  mdist(c, a * a, b * b); mdist(d, a * a, b * b);
  assert(b * a == a * b) by (nonlinear_arith);
  assert(a * 0real == 0real && b * 0real == 0real) by (nonlinear_arith);
  assert(m * c == 0real);
  assert(m * d == 0real);
  assert(m > 0real) by (nonlinear_arith) requires m == a * a + b * b, a != 0real || b != 0real;
  assert(c == 0real) by (nonlinear_arith) requires m * c == 0real, m > 0real;
  assert(d == 0real) by (nonlinear_arith) requires m * d == 0real, m > 0real;
}
// D = W Z - X Y, D U1 = X R2 - Z R1: if one of  W U1 + X U2 + R1 = 0  and  Y U1 + Z U2 + R2 = 0  holds and its pivot is not zero, so does the other
proof fn two_eqs(w: Cx, x: Cx, y: Cx, z: Cx, u1: Cx, u2: Cx, r1: Cx, r2: Cx, first: bool)
  requires
    cmu(cad(cmu(w, z), cng(cmu(x, y))), u1) == cad(cmu(x, r2), cng(cmu(z, r1))),
    first ==> x != cz() && cad(cad(cmu(w, u1), cmu(x, u2)), r1) == cz(),
    !first ==> z != cz() && cad(cad(cmu(y, u1), cmu(z, u2)), r2) == cz(),
  ensures
    cad(cad(cmu(w, u1), cmu(x, u2)), r1) == cz(), cad(cad(cmu(y, u1), cmu(z, u2)), r2) == cz(),
{
  let (e1, e2) = (cad(cad(cmu(w, u1), cmu(x, u2)), r1), cad(cad(cmu(y, u1), cmu(z, u2)), r2));
  // x e2 = z e1 - (d u1 - x r2 + z r1)
  cx_dist(x, cad(cmu(y, u1), cmu(z, u2)), r2); cx_dist(x, cmu(y, u1), cmu(z, u2));
  cx_dist(z, cad(cmu(w, u1), cmu(x, u2)), r1); cx_dist(z, cmu(w, u1), cmu(x, u2));
  cx_assoc(x, y, u1); cx_assoc(x, z, u2); cx_assoc(z, w, u1); cx_assoc(z, x, u2); cx_comm(x, z); cx_comm(w, z);
  let d = cad(cmu(w, z), cng(cmu(x, y)));
  cx_comm(d, u1); cx_dist(u1, cmu(w, z), cng(cmu(x, y))); cx_dist(u1, cmu(x, y), cz());
  cx_comm(u1, cmu(w, z)); cx_comm(u1, cmu(x, y));
  cx_dist(x, cz(), cz()); cx_dist(z, cz(), cz());
  let (xe, ze) = (cmu(x, e2), cmu(z, e1));
  assert(xe == ze);
  let (p, q) = (x.a, x.b);
  assert(p * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
  let (p, q) = (z.a, z.b);
  assert(p * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
  if first { assert(xe == cz()); cx_cancel(x, e2); } else { assert(ze == cz()); cx_cancel(z, e1); }
}
proof fn cx_real(x: real, y: Cx)
  ensures cmu(cx(x, 0real), y) == cx(x * y.a, x * y.b), cmu(cx(x, 0real), cx(y.a, 0real)) == cx(x * y.a, 0real),
{
  let (c, d) = (y.a, y.b);
  assert(0real * c == 0real && 0real * d == 0real && x * 0real == 0real && 0real * 0real == 0real) by (nonlinear_arith);
}
// the 2-by-2 real system, t = (x s - z r)/q with q the determinant
pub proof fn solve_real(w: real, x: real, y: real, z: real, r: real, s: real, dp: real, ei: real, q: real, t: real, u2: real)
  requires
    ei > 0real, q == dp * dp + ei * ei, w * z - x * y == q,
    t == rdiv(x * s - z * r, q),
    rabs(x) > rabs(z) ==> u2 == rdiv(-r - w * t, x), rabs(x) <= rabs(z) ==> u2 == rdiv(-s - y * t, z),
  ensures w * t + x * u2 + r == 0real, y * t + z * u2 + s == 0real, q != 0real,
{
  assert(q > 0real) by (nonlinear_arith) requires q == dp * dp + ei * ei, ei > 0real;
  let first = rabs(x) > rabs(z);
  let num = x * s - z * r;
  assert(t * q == num) by (nonlinear_arith) requires t == num / q, q != 0real;
  if first {
    let a = -r - w * t;
    assert(u2 * x == a) by (nonlinear_arith) requires u2 == a / x, x != 0real;
    assert(x * u2 == u2 * x) by (nonlinear_arith);
  } else {
    if z == 0real { assert(x == 0real); assert(w * z == 0real && x * y == 0real) by (nonlinear_arith) requires z == 0real, x == 0real; }
    let a = -s - y * t;
    assert(u2 * z == a) by (nonlinear_arith) requires u2 == a / z, z != 0real;
    assert(z * u2 == u2 * z) by (nonlinear_arith);
  }
  let o = 0real;
  let (cw, cxx, cy, czz, u, uu, r1, r2) = (cx(w, o), cx(x, o), cx(y, o), cx(z, o), cx(t, o), cx(u2, o), cx(r, o), cx(s, o));
  cx_real(w, czz); cx_real(x, cy); cx_real(x, r2); cx_real(z, r1); cx_real(w, u); cx_real(x, uu); cx_real(y, u); cx_real(z, uu);
  cx_real(q, u);
  assert(q * t == t * q) by (nonlinear_arith);
  assert(cad(cmu(cw, czz), cng(cmu(cxx, cy))) == cx(q, o));
  two_eqs(cw, cxx, cy, czz, u, uu, r1, r2, first);
  assert(cad(cad(cmu(cw, u), cmu(cxx, uu)), r1).a == 0real);
  assert(cad(cad(cmu(cy, u), cmu(czz, uu)), r2).a == 0real);
}
// the 2-by-2 complex system
pub proof fn solve_cx(w: real, x: real, y: real, z: real, q: real, ra: real, sa: real, r: real, s: real, vr: real, vi: real, a1: real, b1: real, a2: real, b2: real, first: bool)
  requires
    w * z - q * q - x * y == vr, q * (w + z) == vi, q != 0real, vr != 0real || vi != 0real,
    cd_ok(x * r - z * ra + q * sa, x * s - z * sa - q * ra, vr, vi, a1, b1),
    first ==> x != 0real && a2 * x == -ra - w * a1 + q * b1 && b2 * x == -sa - w * b1 - q * a1,
    !first ==> cd_ok(-r - y * a1, -s - y * b1, z, q, a2, b2),
  ensures
    w * a1 - q * b1 + x * a2 + ra == 0real, w * b1 + q * a1 + x * b2 + sa == 0real,
    z * a2 - q * b2 + y * a1 + r == 0real, z * b2 + q * a2 + y * b1 + s == 0real,
{
  let o = 0real;
  let (cw, cxx, cy, czz, u, uu, r1, r2) = (cx(w, q), cx(x, o), cx(y, o), cx(z, q), cx(a1, b1), cx(a2, b2), cx(ra, sa), cx(r, s));
  cx_real(x, cy); cx_real(x, r2); cx_real(x, uu); cx_real(y, u);
  mdist(q, w, z);
  assert(w * q == q * w) by (nonlinear_arith);
  let d = cad(cmu(cw, czz), cng(cmu(cxx, cy)));
  assert(d == cx(vr, vi));
  assert(vr * a1 == a1 * vr && vi * b1 == b1 * vi && vr * b1 == b1 * vr && vi * a1 == a1 * vi) by (nonlinear_arith);
  assert(cmu(d, u) == cad(cmu(cxx, r2), cng(cmu(czz, r1))));
  assert(x * a2 == a2 * x && x * b2 == b2 * x && z * a2 == a2 * z && q * b2 == b2 * q && z * b2 == b2 * z && q * a2 == a2 * q) by (nonlinear_arith);
  if first {
    let e1 = cad(cad(cmu(cw, u), cmu(cxx, uu)), r1);
    assert(e1.a == 0real && e1.b == 0real);
  } else {
    let e2 = cad(cad(cmu(cy, u), cmu(czz, uu)), r2);
    assert(e2.a == 0real && e2.b == 0real);
  }
  two_eqs(cw, cxx, cy, czz, u, uu, r1, r2, first);
  assert(cad(cad(cmu(cw, u), cmu(cxx, uu)), r1).a == 0real && cad(cad(cmu(cw, u), cmu(cxx, uu)), r1).b == 0real);
  assert(cad(cad(cmu(cy, u), cmu(czz, uu)), r2).a == 0real && cad(cad(cmu(cy, u), cmu(czz, uu)), r2).b == 0real);
}
// x e2 = z e1 - (d u1 - x r2 + z r1), when d is zero
proof fn two_id(w: Cx, x: Cx, y: Cx, z: Cx, u1: Cx, u2: Cx, r1: Cx, r2: Cx)
  requires cad(cmu(w, z), cng(cmu(x, y))) == cz(),
  ensures cmu(x, cad(cad(cmu(y, u1), cmu(z, u2)), r2)) == cad(cmu(z, cad(cad(cmu(w, u1), cmu(x, u2)), r1)), cad(cmu(x, r2), cng(cmu(z, r1)))),
{
  cx_dist(x, cad(cmu(y, u1), cmu(z, u2)), r2); cx_dist(x, cmu(y, u1), cmu(z, u2));
  cx_dist(z, cad(cmu(w, u1), cmu(x, u2)), r1); cx_dist(z, cmu(w, u1), cmu(x, u2));
  cx_assoc(x, y, u1); cx_assoc(x, z, u2); cx_assoc(z, w, u1); cx_assoc(z, x, u2); cx_comm(x, z); cx_comm(w, z);
  assert(cmu(x, y) == cmu(w, z));
}
// k t <= c, where c = k u: t <= u
proof fn div_le(k: real, t: real, u: real)
  requires k > 0real, k * t <= k * u,
  ensures t <= u,
{ assert(t <= u) by (nonlinear_arith) requires k > 0real, k * t <= k * u; }
// dl u / z, with dl = en (|w| + |q| + |x| + |z|) and |x| <= |z| + |q|, |w| = |z|: at most 6 en |u|
proof fn coll_two(z: real, q: real, en: real, dl: real, g: real, a: real, b: real, e: real, f: real)
  requires en > 0real, q != 0real, 0real <= g <= 3real * (rabs(z) + rabs(q)), dl == en * g, z * e - q * f == -(dl * a), z * f + q * e == -(dl * b),
  ensures rabs(e) <= (6real * en) * (rabs(a) + rabs(b)), rabs(f) <= (6real * en) * (rabs(a) + rabs(b)),
{
  let (za, qa, aa, ba) = (rabs(z), rabs(q), rabs(a), rabs(b));
  let (zz, qq) = (z * z, q * q);
  let m2 = zz + qq;
  assert(zz == za * za && qq == qa * qa) by (nonlinear_arith) requires zz == z * z, qq == q * q, za == z || za == -z, qa == q || qa == -q;
  assert(zz >= 0real && qq > 0real) by (nonlinear_arith) requires zz == z * z, qq == q * q, q != 0real;
  let mx = if za > qa { za } else { qa };
  let sm = za + qa;
  assert(sm * mx <= 2real * m2) by (nonlinear_arith) requires sm == za + qa, mx == za || mx == qa, za <= mx, qa <= mx, za >= 0real, qa >= 0real, m2 == za * za + qa * qa;
  let u = aa + ba;
  // m2 e = -dl (z a + q b), m2 f = -dl (z b - q a)
  mdist(z, z * e, q * f); mdist(q, z * f, q * e); mdist(z, z * f, q * e); mdist(q, z * e, q * f);
  mul3(z, z, e); mul3(q, q, e); mul3(z, z, f); mul3(q, q, f);
  assert(z * (q * f) == q * (z * f) && z * (q * e) == q * (z * e)) by (nonlinear_arith);
  mdist(e, zz, qq); mdist(f, zz, qq);
  let (da, db) = (dl * a, dl * b);
  assert(z * (-da) == -(z * da) && q * (-db) == -(q * db) && z * (-db) == -(z * db) && q * (-da) == -(q * da)) by (nonlinear_arith);
  assert(m2 * e == -(z * da) - q * db);
  assert(m2 * f == -(z * db) + q * da);
  assert(dl >= 0real) by (nonlinear_arith) requires dl == en * g, en > 0real, g >= 0real;
  abs_mul(dl, a); abs_mul(dl, b); abs_mul(z, da); abs_mul(z, db); abs_mul(q, da); abs_mul(q, db); abs_mul(m2, e); abs_mul(m2, f);
  let (ea, fa, daa, dba) = (rabs(e), rabs(f), rabs(da), rabs(db));
  assert(daa == dl * aa && dba == dl * ba);
  let du = dl * u;
  assert(du == daa + dba) by (nonlinear_arith) requires du == dl * u, u == aa + ba, daa == dl * aa, dba == dl * ba;
  assert(za * daa + qa * dba <= mx * du && za * dba + qa * daa <= mx * du) by (nonlinear_arith) requires za <= mx, qa <= mx, daa >= 0real, dba >= 0real, du == daa + dba;
  assert(m2 * ea <= mx * du && m2 * fa <= mx * du);
  // mx dl u <= 6 en m2 u
  let gm = g * mx;
  assert(gm <= 3real * (sm * mx)) by (nonlinear_arith) requires gm == g * mx, g <= 3real * sm, mx >= 0real;
  let eu = en * u;
  assert(eu >= 0real) by (nonlinear_arith) requires eu == en * u, en > 0real, u >= 0real;
  assert(mx * du == eu * gm) by (nonlinear_arith) requires du == dl * u, dl == en * g, eu == en * u, gm == g * mx;
  assert(eu * gm <= eu * (6real * m2)) by (nonlinear_arith) requires eu >= 0real, gm <= 6real * m2;
  let o = (6real * en) * u;
  assert(eu * (6real * m2) == m2 * o) by (nonlinear_arith) requires eu == en * u, o == (6real * en) * u;
  div_le(m2, ea, o); div_le(m2, fa, o);
}
// dl a / x, with |x| > |z| + |q|
proof fn coll_one(x: real, en: real, dl: real, g: real, a: real, e: real)
  requires en > 0real, x != 0real, 0real <= g <= 3real * rabs(x), dl == en * g, x * e == dl * a,
  ensures rabs(e) <= (6real * en) * rabs(a),
{
  let (xa, ea, aa) = (rabs(x), rabs(e), rabs(a));
  assert(dl >= 0real) by (nonlinear_arith) requires dl == en * g, en > 0real, g >= 0real;
  abs_mul(x, e); abs_mul(dl, a);
  assert(xa * ea == dl * aa);
  let eu = en * aa;
  assert(eu >= 0real) by (nonlinear_arith) requires eu == en * aa, en > 0real, aa >= 0real;
  assert(dl * aa == eu * g) by (nonlinear_arith) requires dl == en * g, eu == en * aa;
  assert(eu * g <= eu * (3real * xa)) by (nonlinear_arith) requires eu >= 0real, g <= 3real * xa;
  let o = (6real * en) * aa;
  assert(eu * (3real * xa) <= xa * o) by (nonlinear_arith) requires eu == en * aa, o == (6real * en) * aa, xa >= 0real, eu >= 0real;
  div_le(xa, ea, o);
}
pub proof fn res_zero(w: real, x: real, y: real, z: real, q: real, ra: real, sa: real, r: real, s: real, a1: real, b1: real, a2: real, b2: real, be: real)
  requires
    be >= 0real, w * a1 - q * b1 + x * a2 + ra == 0real, w * b1 + q * a1 + x * b2 + sa == 0real,
    z * a2 - q * b2 + y * a1 + r == 0real, z * b2 + q * a2 + y * b1 + s == 0real,
  ensures two_res(w, x, y, z, q, ra, sa, r, s, a1, b1, a2, b2, be),
{
  let (m, n) = (prr1(a1, b1), prr1(a2, b2) + prr1(a1, b1));
  assert(be * m >= 0real && be * n >= 0real) by (nonlinear_arith) requires be >= 0real, m >= 0real, n >= 0real;
}
// the 2-by-2 complex system of a pair that stands on the diagonal again: its determinant is zero, the code takes dl for it
pub proof fn coll_cx(w: real, x: real, y: real, z: real, q: real, ra: real, sa: real, r: real, s: real, dl: real, en: real, a1: real, b1: real, a2: real, b2: real, first: bool, be: real)
  requires
    w * z - q * q - x * y == 0real, w + z == 0real, q != 0real, en > 0real, dl == en * (rabs(w) + rabs(q) + rabs(x) + rabs(z)), be >= 6real * en,
    cd_ok(x * r - z * ra + q * sa, x * s - z * sa - q * ra, dl, 0real, a1, b1),
    first == (rabs(x) > rabs(z) + rabs(q)),
    first ==> a2 * x == -ra - w * a1 + q * b1 && b2 * x == -sa - w * b1 - q * a1,
    !first ==> cd_ok(-r - y * a1, -s - y * b1, z, q, a2, b2),
  ensures two_res(w, x, y, z, q, ra, sa, r, s, a1, b1, a2, b2, be), dl != 0real,
{
  let o = 0real;
  let g = rabs(w) + rabs(q) + rabs(x) + rabs(z);
  assert(dl > 0real) by (nonlinear_arith) requires dl == en * g, en > 0real, g > 0real;
  let (cw, cxx, cy, czz, u, uu, r1, r2) = (cx(w, q), cx(x, o), cx(y, o), cx(z, q), cx(a1, b1), cx(a2, b2), cx(ra, sa), cx(r, s));
  cx_real(x, cy); cx_real(x, r2); cx_real(x, uu); cx_real(y, u);
  mdist(q, w, z);
  assert(w * q == q * w && q * 0real == 0real) by (nonlinear_arith);
  let d = cad(cmu(cw, czz), cng(cmu(cxx, cy)));
  assert(d == cz());
  assert(0real * a1 == 0real && 0real * b1 == 0real && b1 * 0real == 0real && a1 * 0real == 0real) by (nonlinear_arith);
  assert(dl * a1 == a1 * dl && dl * b1 == b1 * dl) by (nonlinear_arith);
  assert(x * a2 == a2 * x && x * b2 == b2 * x && z * a2 == a2 * z && q * b2 == b2 * q && z * b2 == b2 * z && q * a2 == a2 * q) by (nonlinear_arith);
  let (e1, e2) = (cad(cad(cmu(cw, u), cmu(cxx, uu)), r1), cad(cad(cmu(cy, u), cmu(czz, uu)), r2));
  two_id(cw, cxx, cy, czz, u, uu, r1, r2);
  cx_real(x, e2);
  assert(cad(cmu(cxx, r2), cng(cmu(czz, r1))) == cx(dl * a1, dl * b1));
  assert(x * 0real == 0real && z * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
  let (m, n1) = (be * prr1(a1, b1), prr1(a2, b2) + prr1(a1, b1));
  let (s1, k6) = (prr1(a1, b1), 6real * en);
  assert(k6 * s1 <= m) by (nonlinear_arith) requires k6 <= be, s1 >= 0real, m == be * s1;
  assert(m <= be * n1) by (nonlinear_arith) requires s1 <= n1, be >= 0real, m == be * s1;
  assert(m >= 0real) by (nonlinear_arith) requires be >= 0real, s1 >= 0real, m == be * s1;
  if first {
    assert(e1.a == 0real && e1.b == 0real);
    assert(x * e2.a == dl * a1 && x * e2.b == dl * b1);
    coll_one(x, en, dl, g, a1, e2.a); coll_one(x, en, dl, g, b1, e2.b);
    let (aa, ba) = (rabs(a1), rabs(b1));
    assert(k6 * aa <= k6 * s1 && k6 * ba <= k6 * s1) by (nonlinear_arith) requires k6 >= 0real, aa <= s1, ba <= s1;
  } else {
    assert(e2.a == 0real && e2.b == 0real);
    assert(cmu(czz, e1) == cx(-(dl * a1), -(dl * b1)));
    coll_two(z, q, en, dl, g, a1, b1, e1.a, e1.b);
  }
}
// the last two rows: b c = -(w w + q q)
pub proof fn cpair0(b: real, c: real, w: real, z: real, p2: real, q: real, x1: real, x2: real, first: bool)
  requires
    z == -w, w * z - b * c == q * q, q != 0real,
    first ==> c != 0real && x1 == q / c && x2 == -z / c,
    !first ==> cd_ok(0real, -b, w, q, x1, x2),
  ensures c * x1 == q, c * x2 == -z, w * x1 == q * x2, w * x2 + b == -(q * x1), x1 != 0real, b != 0real, c != 0real,
{
  let (ww, qq, bc) = (w * w, q * q, b * c);
  assert(w * z == -ww) by (nonlinear_arith) requires z == -w, ww == w * w;
  assert(qq > 0real) by (nonlinear_arith) requires qq == q * q, q != 0real;
  assert(ww >= 0real) by (nonlinear_arith) requires ww == w * w;
  assert(bc == -ww - qq);
  assert(b != 0real && c != 0real) by (nonlinear_arith) requires bc == b * c, bc < 0real;
  if first {
    assert(x1 * c == q) by (nonlinear_arith) requires x1 == q / c, c != 0real;
    assert(x2 * c == -z) by (nonlinear_arith) requires x2 == -z / c, c != 0real;
    assert(c * x1 == x1 * c && c * x2 == x2 * c) by (nonlinear_arith);
    let (s, t) = (w * x1 - q * x2, w * x2 + b + q * x1);
    assert(c * (w * x1) == w * (c * x1) && c * (q * x2) == q * (c * x2) && c * (w * x2) == w * (c * x2) && c * (q * x1) == q * (c * x1) && c * b == b * c) by (nonlinear_arith);
    mdist(c, w * x1, q * x2); mdist(c, w * x2, b + q * x1); mdist(c, b, q * x1);
    assert(w * q == q * w) by (nonlinear_arith);
    assert(c * s == 0real);
    assert(c * t == 0real);
    assert(s == 0real) by (nonlinear_arith) requires c * s == 0real, c != 0real;
    assert(t == 0real) by (nonlinear_arith) requires c * t == 0real, c != 0real;
  } else {
    let m = ww + qq;
    // m x1 = -b q, m x2 = -b w
    let (e1, e2) = (x1 * w - x2 * q, x1 * q + x2 * w);
    assert(w * x1 == x1 * w && q * x2 == x2 * q && w * x2 == x2 * w && q * x1 == x1 * q) by (nonlinear_arith);
    mdist(w, x1 * w, x2 * q); mdist(q, x1 * q, x2 * w); mdist(q, x1 * w, x2 * q); mdist(w, x1 * q, x2 * w);
    assert(w * (x1 * w) == x1 * ww && w * (x2 * q) == x2 * (w * q) && q * (x1 * q) == x1 * qq && q * (x2 * w) == x2 * (w * q)) by (nonlinear_arith) requires ww == w * w, qq == q * q;
    assert(q * (x1 * w) == x1 * (w * q) && q * (x2 * q) == x2 * qq && w * (x1 * q) == x1 * (w * q) && w * (x2 * w) == x2 * ww) by (nonlinear_arith) requires ww == w * w, qq == q * q;
    mdist(x1, ww, qq); mdist(x2, ww, qq);
    assert(w * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
    assert(w * (-b) == -(b * w) && q * (-b) == -(b * q)) by (nonlinear_arith);
    assert(x1 * m == -(b * q));
    assert(x2 * m == -(b * w));
    // b (c x1) = -m x1 = b q
    let (f, g) = (c * x1 - q, c * x2 - w);
    assert(b * (c * x1) == bc * x1 && b * (c * x2) == bc * x2) by (nonlinear_arith) requires bc == b * c;
    assert(bc * x1 == -(x1 * m) && bc * x2 == -(x2 * m)) by (nonlinear_arith) requires bc == -m;
    mdist(b, c * x1, q); mdist(b, c * x2, w);
    assert(f == 0real) by (nonlinear_arith) requires b * f == 0real, b != 0real;
    assert(g == 0real) by (nonlinear_arith) requires b * g == 0real, b != 0real;
  }
  if x1 == 0real { assert(c * x1 == 0real) by (nonlinear_arith) requires x1 == 0real; }
}
pub open spec fn set4(h: Seq<E>, n: int, j: int, x1: E, x2: E, x3: E, x4: E) -> Seq<E> { h.update((j - 1) * n + (j - 1), x1).update((j - 1) * n + j, x2).update(j * n + (j - 1), x3).update(j * n + j, x4) }
pub proof fn cp_start(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, p: real, q: real, be: real, x1: E, x2: E, x3: E, x4: E)
  requires
    1 <= j < n, evs(qt(h0, e, n), d, e, n, 0), v(e[j]) == q, v(d[j]) == p, q < 0real, v(x3) == 0real, v(x4) == 1real, unt(h0, h, n, j - 1, j, j + 1), rst(hs, h, n, j),
    el(h0, n, j, j - 1) * v(x1) == q, el(h0, n, j, j - 1) * v(x2) == -(el(h0, n, j, j) - p),
    (el(h0, n, j - 1, j - 1) - p) * v(x1) == q * v(x2), (el(h0, n, j - 1, j - 1) - p) * v(x2) + el(h0, n, j - 1, j) == -(q * v(x1)), v(x1) != 0real, be >= 0real,
  ensures ({
    let h2 = set4(h, n, j, x1, x2, x3, x4);
    cp(qt(h0, e, n), h2, n, j, j - 1, p, q, be) && unt(h0, h2, n, j - 1, j, j - 1) && rst(hs, h2, n, j)
  }),
{
  reveal(cp);
  let t = qt(h0, e, n);
  let h2 = set4(h, n, j, x1, x2, x3, x4);
  let h1a = h.update((j - 1) * n + (j - 1), x1);
  let h1b = h1a.update((j - 1) * n + j, x2);
  let h1c = h1b.update(j * n + (j - 1), x3);
  unt_down(h0, h, n, j - 1, j, j + 1, j - 1, j, j - 1);
  unt_set(h0, hs, h, n, j - 1, j, j - 1, j - 1, j - 1, j - 1, x1);
  unt_set(h0, hs, h1a, n, j - 1, j, j - 1, j - 1, j - 1, j, x2);
  unt_set(h0, hs, h1b, n, j - 1, j, j - 1, j - 1, j, j - 1, x3);
  unt_set(h0, hs, h1c, n, j - 1, j, j - 1, j - 1, j, j, x4);
  reveal(unt);
  el_update(h, n, n, j - 1, j - 1, x1); el_update(h1a, n, n, j - 1, j, x2); el_update(h1b, n, n, j, j - 1, x3); el_update(h1c, n, n, j, j, x4);
  let (a1, a2) = (v(x1), v(x2));
  assert(el(h2, n, j - 1, j - 1) == a1 && el(h2, n, j - 1, j) == a2 && el(h2, n, j, j - 1) == 0real && el(h2, n, j, j) == 1real);
  assert forall|r: int| j - 1 <= r <= j implies #[trigger] cpr(t, h2, n, j, j - 1, p, q, be, r) by {
    be_nn(be, h2, n, j, r, j - 1);
    bdot_first(t, h2, n, r, j - 1, j - 1, j + 1); bdot_first(t, h2, n, r, j - 1, j, j + 1);
    bdot_first(t, h2, n, r, j, j - 1, j + 1); bdot_first(t, h2, n, r, j, j, j + 1);
    let (f, g) = (t(r, j - 1), t(r, j));
    assert(g * 0real == 0real && g * 1real == g && p * 0real == 0real && p * 1real == p && q * 0real == 0real && q * 1real == q) by (nonlinear_arith);
    if r == j - 1 {
      let w = f - p;
      mdist(a1, f, p); mdist(a2, f, p);
      assert(w * a1 == f * a1 - p * a1);
    }
  }
}
pub open spec fn set2(h: Seq<E>, n: int, i: int, j: int, x: E, y: E) -> Seq<E> { h.update(i * n + (j - 1), x).update(i * n + j, y) }
proof fn set2_el(h0: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, l: int, i: int, x: E, y: E)
  requires unt(h0, h, n, j - 1, j, l), rst(hs, h, n, j), 0 <= i < n, 1 <= j < n, h.len() == n * n, i <= l,
  ensures
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(set2(h, n, i, j, x, y), n, r, c) == if r == i && c == j - 1 { v(x) } else if r == i && c == j { v(y) } else { el(h, n, r, c) },
    unt(h0, set2(h, n, i, j, x, y), n, j - 1, j, i), rst(hs, set2(h, n, i, j, x, y), n, j), set2(h, n, i, j, x, y).len() == n * n,
{
  let h1 = h.update(i * n + (j - 1), x);
  el_update(h, n, n, i, j - 1, x); el_update(h1, n, n, i, j, y);
  unt_set(h0, hs, h, n, j - 1, j, l, i, i, j - 1, x);
  unt_set(h0, hs, h1, n, j - 1, j, i, i, i, j, y);
}
// rows below the new ones do not see them
proof fn cp_keep(t: Mt, h: Seq<E>, h2: Seq<E>, n: int, j: int, l: int, l2: int, p: real, q: real, be: real, r: int)
  requires
    cpr(t, h, n, j, l, p, q, be, r), be >= 0real, 0 <= l2 <= l <= r <= j < n, 1 <= j, l2 == l - 1 || l2 == l - 2,
    forall|k: int, c: int| l <= k <= j && j - 1 <= c <= j ==> #[trigger] el(h2, n, k, c) == el(h, n, k, c),
    forall|k: int| l2 <= k < l ==> #[trigger] t(r, k) == 0real,
  ensures cpr(t, h2, n, j, l2, p, q, be, r),
{
  bdot_ext(t, h, h2, n, r, j - 1, l, j + 1); bdot_ext(t, h, h2, n, r, j, l, j + 1);
  let (a, b) = (el(h2, n, l2, j - 1), el(h2, n, l2, j));
  assert(t(r, l2) == 0real);
  assert(0real * a == 0real && 0real * b == 0real) by (nonlinear_arith);
  bdot_first(t, h2, n, r, j - 1, l2, j + 1); bdot_first(t, h2, n, r, j, l2, j + 1);
  if l2 == l - 2 {
    let (a, b) = (el(h2, n, l - 1, j - 1), el(h2, n, l - 1, j));
    assert(t(r, l - 1) == 0real);
    assert(0real * a == 0real && 0real * b == 0real) by (nonlinear_arith);
    bdot_first(t, h2, n, r, j - 1, l - 1, j + 1); bdot_first(t, h2, n, r, j, l - 1, j + 1);
  }
  let (x, y) = (hrr(h, n, j, r, l), hrr(h2, n, j, r, l2));
  assert(el(h2, n, r, j - 1) == el(h, n, r, j - 1) && el(h2, n, r, j) == el(h, n, r, j));
  if r > l { assert(el(h2, n, r - 1, j - 1) == el(h, n, r - 1, j - 1) && el(h2, n, r - 1, j) == el(h, n, r - 1, j)); }
  assert(x <= y);
  assert(be * x <= be * y) by (nonlinear_arith) requires x <= y, be >= 0real;
}
pub proof fn cp_one(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, i: int, p: real, q: real, be: real, w: real, ra: real, sa: real, x: E, y: E)
  requires
    cp(qt(h0, e, n), h, n, j, i + 1, p, q, be), unt(h0, h, n, j - 1, j, i + 1), rst(hs, h, n, j), evs(qt(h0, e, n), d, e, n, 0), 0 <= i < j - 1, v(e[i]) == 0real, q != 0real, be >= 0real,
    w == qt(h0, e, n)(i, i) - p, ra == bdot(qt(h0, e, n), h, n, i, j - 1, i + 1, j + 1), sa == bdot(qt(h0, e, n), h, n, i, j, i + 1, j + 1),
    cd_ok(-ra, -sa, w, q, v(x), v(y)),
  ensures cp(qt(h0, e, n), set2(h, n, i, j, x, y), n, j, i, p, q, be), unt(h0, set2(h, n, i, j, x, y), n, j - 1, j, i), rst(hs, set2(h, n, i, j, x, y), n, j),
{
  reveal(cp);
  let t = qt(h0, e, n);
  let h2 = set2(h, n, i, j, x, y);
  set2_el(h0, hs, h, n, j, i + 1, i, x, y);
  evs_zero(h0, d, e, n, i);
  assert forall|r: int| i <= r <= j implies #[trigger] cpr(t, h2, n, j, i, p, q, be, r) by {
    if r > i {
      assert(cpr(t, h, n, j, i + 1, p, q, be, r));
      cp_keep(t, h, h2, n, j, i + 1, i, p, q, be, r);
    } else {
      be_nn(be, h2, n, j, r, i);
      bdot_ext(t, h, h2, n, r, j - 1, i + 1, j + 1); bdot_ext(t, h, h2, n, r, j, i + 1, j + 1);
      bdot_first(t, h2, n, r, j - 1, i, j + 1); bdot_first(t, h2, n, r, j, i, j + 1);
      let (f, a, b) = (t(i, i), v(x), v(y));
      mdist(a, f, p); mdist(b, f, p);
      assert(a * q == q * a && b * q == q * b && a * w == w * a && b * w == w * b) by (nonlinear_arith);
    }
  }
}
// the two rows of a block, up to be times what the vector has in them
pub open spec fn two_res(w: real, x: real, y: real, z: real, q: real, ra: real, sa: real, r: real, s: real, a1: real, b1: real, a2: real, b2: real, be: real) -> bool {
  let (m, m2) = (be * prr1(a1, b1), be * (prr1(a2, b2) + prr1(a1, b1)));
  rabs(w * a1 - q * b1 + x * a2 + ra) <= m && rabs(w * b1 + q * a1 + x * b2 + sa) <= m && rabs(z * a2 - q * b2 + y * a1 + r) <= m2 && rabs(z * b2 + q * a2 + y * b1 + s) <= m2
}
pub proof fn cp_two(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, i: int, p: real, q: real, be: real, w: real, z: real, ra: real, sa: real, r: real, s: real, x1: E, y1: E, x2: E, y2: E)
  requires
    cp(qt(h0, e, n), h, n, j, i + 2, p, q, be), unt(h0, h, n, j - 1, j, i + 2), rst(hs, h, n, j), evs(qt(h0, e, n), d, e, n, 0), 0 <= i, i + 1 < j - 1, v(e[i]) > 0real,
    w == qt(h0, e, n)(i, i) - p, z == qt(h0, e, n)(i + 1, i + 1) - p, be >= 0real,
    ra == bdot(qt(h0, e, n), h, n, i, j - 1, i + 2, j + 1), sa == bdot(qt(h0, e, n), h, n, i, j, i + 2, j + 1),
    r == bdot(qt(h0, e, n), h, n, i + 1, j - 1, i + 2, j + 1), s == bdot(qt(h0, e, n), h, n, i + 1, j, i + 2, j + 1),
    two_res(w, qt(h0, e, n)(i, i + 1), qt(h0, e, n)(i + 1, i), z, q, ra, sa, r, s, v(x1), v(y1), v(x2), v(y2), be),
  ensures ({
    let h2 = set2(set2(h, n, i, j, x1, y1), n, i + 1, j, x2, y2);
    cp(qt(h0, e, n), h2, n, j, i, p, q, be) && unt(h0, h2, n, j - 1, j, i) && rst(hs, h2, n, j)
  }),
{
  reveal(cp);
  let t = qt(h0, e, n);
  let h1 = set2(h, n, i, j, x1, y1);
  let h2 = set2(h1, n, i + 1, j, x2, y2);
  set2_el(h0, hs, h, n, j, i + 2, i, x1, y1);
  let hh = h1;
  // the second pair of writes
  let g1 = h1.update((i + 1) * n + (j - 1), x2);
  el_update(h1, n, n, i + 1, j - 1, x2); el_update(g1, n, n, i + 1, j, y2);
  unt_set(h0, hs, h1, n, j - 1, j, i, i, i + 1, j - 1, x2); unt_set(h0, hs, g1, n, j - 1, j, i, i, i + 1, j, y2);
  evs_at(t, d, e, n, 0, i); evs_at(t, d, e, n, 0, i + 1);
  evs_zero(h0, d, e, n, i + 1);
  assert forall|k: int| i <= k <= j implies #[trigger] cpr(t, h2, n, j, i, p, q, be, k) by {
    if k > i + 1 {
      assert(cpr(t, h, n, j, i + 2, p, q, be, k));
      cp_keep(t, h, h2, n, j, i + 2, i, p, q, be, k);
    } else {
      bdot_ext(t, h, h2, n, k, j - 1, i + 2, j + 1); bdot_ext(t, h, h2, n, k, j, i + 2, j + 1);
      bdot_first(t, h2, n, k, j - 1, i, j + 1); bdot_first(t, h2, n, k, j, i, j + 1);
      bdot_first(t, h2, n, k, j - 1, i + 1, j + 1); bdot_first(t, h2, n, k, j, i + 1, j + 1);
      assert(el(h2, n, i, j - 1) == v(x1) && el(h2, n, i, j) == v(y1) && el(h2, n, i + 1, j - 1) == v(x2) && el(h2, n, i + 1, j) == v(y2));
      if k == i {
        let (f, a, b) = (t(i, i), v(x1), v(y1));
        mdist(a, f, p); mdist(b, f, p);
      } else {
        let (f, a, b) = (t(i + 1, i + 1), v(x2), v(y2));
        mdist(a, f, p); mdist(b, f, p);
      }
    }
  }
}
pub proof fn cp_scale(h0: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, h2: Seq<E>, n: int, j: int, i: int, p: real, q: real, be: real, s: real)
  requires cp(qt(h0, e, n), h, n, j, i, p, q, be), unt(h0, h, n, j - 1, j, i), rst(hs, h, n, j), scl(h, h2, n, j - 1, j, i, j + 1, s), s > 0real,
  ensures cp(qt(h0, e, n), h2, n, j, i, p, q, be), unt(h0, h2, n, j - 1, j, i), rst(hs, h2, n, j),
{
  reveal(cp); reveal(unt); reveal(rst);
  let t = qt(h0, e, n);
  let g = 1real / s;
  recip_pos(s);
  let (y, x) = (el(h, n, j, j), el(h, n, j - 1, j - 1));
  div_recip(y, s); div_recip(x, s); div_recip(0real, s);
  assert(g * y > 0real) by (nonlinear_arith) requires g > 0real, y > 0real;
  assert(g * x != 0real) by (nonlinear_arith) requires g > 0real, x != 0real;
  assert(g * 0real == 0real) by (nonlinear_arith);
  assert(el(h2, n, j, j) == y / s && el(h2, n, j, j - 1) == el(h, n, j, j - 1) / s && el(h2, n, j - 1, j - 1) == x / s);
  assert forall|r: int| i <= r <= j implies #[trigger] cpr(t, h2, n, j, i, p, q, be, r) by {
    assert(cpr(t, h, n, j, i, p, q, be, r));
    bdot_scale(t, h, h2, n, r, j - 1, i, j + 1, s); bdot_scale(t, h, h2, n, r, j, i, j + 1, s);
    let (a, b) = (el(h, n, r, j - 1), el(h, n, r, j));
    div_recip(a, s); div_recip(b, s);
    mdist(g, p * a, q * b); mdist(g, p * b, q * a);
    assert(g * (p * a) == p * (g * a) && g * (q * b) == q * (g * b) && g * (p * b) == p * (g * b) && g * (q * a) == q * (g * a)) by (nonlinear_arith);
    let (x, y) = (hrr(h, n, j, r, i), hrr(h2, n, j, r, i));
    abs_pos_mul(g, a); abs_pos_mul(g, b);
    if r > i {
      let (c, d) = (el(h, n, r - 1, j - 1), el(h, n, r - 1, j));
      div_recip(c, s); div_recip(d, s);
      abs_pos_mul(g, c); abs_pos_mul(g, d);
      let (ra, rb, rc, rd) = (rabs(a), rabs(b), rabs(c), rabs(d));
      assert(g * (ra + rb + rc + rd) == g * ra + g * rb + g * rc + g * rd) by (nonlinear_arith);
      assert(y == g * x);
    } else {
      let (ra, rb) = (rabs(a), rabs(b));
      assert(g * (ra + rb) == g * ra + g * rb) by (nonlinear_arith);
      assert(y == g * x);
    }
    let (u, w) = (bdot(t, h, n, r, j - 1, i, j + 1) - (p * a + q * b), bdot(t, h, n, r, j, i, j + 1) - (p * b - q * a));
    mdist(g, bdot(t, h, n, r, j - 1, i, j + 1), p * a + q * b); mdist(g, bdot(t, h, n, r, j, i, j + 1), p * b - q * a);
    abs_pos_mul(g, u); abs_pos_mul(g, w);
    let (z, z1, z2) = (be * x, rabs(u), rabs(w));
    assert(g * z1 <= g * z && g * z2 <= g * z) by (nonlinear_arith) requires z1 <= z, z2 <= z, g > 0real;
    assert(be * y == g * z) by (nonlinear_arith) requires y == g * x, z == be * x;
  }
}
pub proof fn cx_done(h0: Seq<E>, d: Seq<E>, e: Seq<E>, hs: Seq<E>, h: Seq<E>, n: int, j: int, p: real, q: real, be: real)
  requires
    cp(qt(h0, e, n), h, n, j, 0, p, q, be), unt(h0, h, n, j - 1, j, 0), rst(hs, h, n, j), evs(qt(h0, e, n), d, e, n, 0), cols(qt(h0, e, n), hs, d, e, n, j + 1, be),
    v(e[j]) == q, q < 0real, p == v(d[j]), be >= 0real,
  ensures cols(qt(h0, e, n), h, d, e, n, j, be), unt(h0, h, n, j - 1, j - 2, 0),
{
  reveal(cp);
  let (t, x) = (qt(h0, e, n), xm(h, n));
  unt_down(h0, h, n, j - 1, j, 0, j - 1, j - 2, 0);
  assert forall|r: int| 0 <= r < n implies #[trigger] cres(t, x, n, j, v(d[j]), v(e[j]), be, r) by {
    mp_td(h0, e, h, n, r, j, j); mp_td(h0, e, h, n, r, j - 1, j);
    let z = prr(x, j, r, 0);
    assert(be * z >= 0real) by (nonlinear_arith) requires be >= 0real, z >= 0real;
    if r > j {
      bdot_below(h0, d, e, h, n, r, j, j); bdot_below(h0, d, e, h, n, r, j - 1, j);
      assert(p * 0real == 0real && q * 0real == 0real) by (nonlinear_arith);
    } else {
      assert(cpr(t, h, n, j, 0, p, q, be, r));
      assert(x(r, j) == el(h, n, r, j));
      assert(x(r, j - 1) == el(h, n, r, j - 1));
      if r > 0 { assert(x(r - 1, j) == el(h, n, r - 1, j)); assert(x(r - 1, j - 1) == el(h, n, r - 1, j - 1)); }
      assert(prr(x, j, r, 0) == hrr(h, n, j, r, 0));
    }
  }
  assert(colok(t, x, d, e, n, j, be));
  reveal(cols);
  assert forall|c: int| j <= c < n implies #[trigger] colok(t, x, d, e, n, c, be) by {
    if c > j {
      if c == j + 1 { evs_at(t, d, e, n, 0, c); }
      cols_keep(h0, d, e, hs, h, n, j, j + 1, be, c);
    }
  }
}
pub proof fn rst_start(h: Seq<E>, n: int, j: int)
  requires h.len() == n * n,
  ensures rst(h, h, n, j),
{ reveal(rst); }
pub proof fn back_start(h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, be: real)
  requires h.len() == n * n,
  ensures cols(qt(h, e, n), h, d, e, n, n, be), unt(h, h, n, n, n - 1, 0),
{ reveal(cols); reveal(unt); }
// the column left of which nothing has changed, when the columns from i on are finished
pub open spec fn cc(e: Seq<E>, n: int, i: int) -> int { if 0 < i < n && v(e[i]) < 0real { i - 1 } else { i } }
pub proof fn real_row(w: real, r: real, x: real, eps: real, norm: real)
  requires eps > 0real, norm > 0real, rabs(w) > eps * (eps * norm) ==> x == rdiv(-r, w), rabs(w) <= eps * (eps * norm) ==> x == rdiv(-r, eps * norm),
  ensures rabs(w * x + r) <= bew(eps, norm) * rabs(x),
{
  let en = eps * norm;
  assert(en > 0real) by (nonlinear_arith) requires en == eps * norm, eps > 0real, norm > 0real;
  let een = eps * en;
  assert(een > 0real) by (nonlinear_arith) requires een == eps * en, eps > 0real, en > 0real;
  let be = bew(eps, norm);
  let y = rabs(x);
  assert(be * y >= 0real) by (nonlinear_arith) requires be > 0real, y >= 0real;
  if rabs(w) > een {
    assert(x * w == -r) by (nonlinear_arith) requires x == -r / w, w != 0real;
    assert(w * x == x * w) by (nonlinear_arith);
  } else {
    assert(x * en == -r) by (nonlinear_arith) requires x == -r / en, en != 0real;
    let g = w - en;
    mdist(x, w, en);
    assert(w * x == x * w) by (nonlinear_arith);
    assert(w * x + r == x * g);
    abs_mul(x, g);
    let z = rabs(g);
    assert(y * z <= be * y) by (nonlinear_arith) requires z <= be, y >= 0real;
  }
}
pub open spec fn bew(eps: real, norm: real) -> real { 6real * (eps * norm) + eps * (eps * norm) }
// the determinant of the shifted block
pub proof fn shifted_det(a: real, b: real, x: real, y: real, d: real, ei: real, p: real)
  requires a + b == d + d, (a - d) * (b - d) - x * y == ei * ei,
  ensures (a - p) * (b - p) - x * y == (d - p) * (d - p) + ei * ei, (a - p) + (b - p) == (d - p) + (d - p),
{
  let (s, t, u) = (a - d, b - d, d - p);
  assert(t == -s);
  assert((s + u) * (t + u) == s * t + u * u) by (nonlinear_arith) requires t == -s;
}
pub proof fn pair_of(h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, i: int)
  requires evs(qt(h, e, n), d, e, n, 0), 0 <= i < n,
  ensures
    v(e[i]) > 0real ==> i + 1 < n && v(e[i + 1]) == -v(e[i]) && v(d[i + 1]) == v(d[i]),
    v(e[i]) < 0real ==> i > 0 && v(e[i - 1]) == -v(e[i]) && v(d[i - 1]) == v(d[i]),
    v(e[i]) == 0real ==> qt(h, e, n)(i, i) == v(d[i]), d.len() == n, e.len() == n,
{ evs_at(qt(h, e, n), d, e, n, 0, i); if v(e[i]) < 0real { evs_at(qt(h, e, n), d, e, n, 0, i - 1); } }
pub proof fn pair_eqs(h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, i: int, p: real)
  requires evs(qt(h, e, n), d, e, n, 0), 0 <= i < n, v(e[i]) > 0real,
  ensures ({
    let (t, u) = (qt(h, e, n), v(d[i]) - p);
    (t(i, i) - p) * (t(i + 1, i + 1) - p) - t(i, i + 1) * t(i + 1, i) == u * u + v(e[i]) * v(e[i]) && (t(i, i) - p) + (t(i + 1, i + 1) - p) == u + u
  }),
{
  let t = qt(h, e, n);
  evs_at(t, d, e, n, 0, i);
  shifted_det(t(i, i), t(i + 1, i + 1), t(i, i + 1), t(i + 1, i), v(d[i]), v(e[i]), p);
}
// ---- back transformation: column j of the first i rows done, and everything right of it
#[verifier::opaque]
pub open spec fn bt(v1: Seq<E>, vk: Seq<E>, h: Seq<E>, n: int, i: int, j: int) -> bool {
  vk.len() == n * n && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(vk, n, r, c) == if c > j || (c == j && r < i) { mp(elm(v1, n), xm(h, n), n, r, c) } else { el(v1, n, r, c) }
}
pub proof fn bt_start(v1: Seq<E>, h: Seq<E>, n: int)
  requires v1.len() == n * n,
  ensures bt(v1, v1, h, n, 0, n - 1),
{ reveal(bt); }
pub proof fn bt_next(v1: Seq<E>, vk: Seq<E>, h: Seq<E>, n: int, j: int)
  requires bt(v1, vk, h, n, n, j),
  ensures bt(v1, vk, h, n, 0, j - 1),
{ reveal(bt); }
pub proof fn bt_row(v1: Seq<E>, vk: Seq<E>, h: Seq<E>, n: int, i: int, j: int)
  requires bt(v1, vk, h, n, i, j), 0 <= i < n, 0 <= j < n,
  ensures sum(|q: int| el(vk, n, i, q) * el(h, n, q, j), 0, j + 1) == mp(elm(v1, n), xm(h, n), n, i, j),
{
  reveal(bt);
  let (f, g) = (|q: int| el(vk, n, i, q) * el(h, n, q, j), |k: int| elm(v1, n)(i, k) * xm(h, n)(k, j));
  sum_split(g, 0, j + 1, n);
  assert forall|k: int| j + 1 <= k < n implies #[trigger] g(k) == 0real by { let a = elm(v1, n)(i, k); assert(a * 0real == 0real) by (nonlinear_arith); }
  sum_zero(g, j + 1, n);
  assert forall|k: int| 0 <= k < j + 1 implies #[trigger] f(k) == g(k) by { assert(el(vk, n, i, k) == el(v1, n, i, k)); }
  sum_ext(f, g, 0, j + 1);
}
pub proof fn bt_step(v1: Seq<E>, vk: Seq<E>, h: Seq<E>, n: int, i: int, j: int, x: E)
  requires bt(v1, vk, h, n, i, j), 0 <= i < n, 0 <= j < n, v(x) == mp(elm(v1, n), xm(h, n), n, i, j),
  ensures bt(v1, vk.update(i * n + j, x), h, n, i + 1, j),
{ reveal(bt); el_update(vk, n, n, i, j, x); }
} // mod
pub use bsm::*;
