// ---------------------------------------------------------------- the iteration: states and transitions
pub mod scm {
use super::*;
pub open spec fn u3(k: int, q: real, r: real) -> Vc { |t: int| if t == k { 1real } else if t == k + 1 { q } else if t == k + 2 { r } else { 0real } }
pub open spec fn f3(k: int, q: real, r: real, x: real) -> Rf { Rf { h: u3(k, q, r), t: x } }
proof fn sum3(f: spec_fn(int) -> real, k: int, hi: int)
  requires k + 2 <= hi, forall|t: int| k + 3 <= t < hi ==> #[trigger] f(t) == 0real,
  ensures sum(f, k, hi) == f(k) + f(k + 1) + (if k + 2 < hi { f(k + 2) } else { 0real }),
{
  sum_first(f, k, hi); sum_first(f, k + 1, hi);
  if k + 2 < hi { sum_first(f, k + 2, hi); sum_zero(f, k + 3, hi); }
}
proof fn cs3(d: Seq<E>, n: int, j: int, k: int, q: real, r: real, nl: bool)
  requires 0 <= k, k + 1 < n, nl ==> k + 2 < n, !nl ==> r == 0real,
  ensures cs(u3(k, q, r), d, n, j, k, n) == el(d, n, k, j) + q * el(d, n, k + 1, j) + (if nl { r * el(d, n, k + 2, j) } else { 0real }),
{
  let f = |t: int| u3(k, q, r)(t) * el(d, n, t, j);
  assert forall|t: int| k + 3 <= t < n implies #[trigger] f(t) == 0real by { let a = el(d, n, t, j); assert(0real * a == 0real) by (nonlinear_arith); }
  sum3(f, k, n);
  let (a, b) = (el(d, n, k, j), el(d, n, k + 2, j));
  assert(1real * a == a && 0real * b == 0real) by (nonlinear_arith);
}
proof fn rs3(d: Seq<E>, n: int, i: int, k: int, q: real, r: real, nl: bool)
  requires 0 <= k, k + 1 < n, nl ==> k + 2 < n, !nl ==> r == 0real,
  ensures rs(u3(k, q, r), d, n, i, k, n) == el(d, n, i, k) + q * el(d, n, i, k + 1) + (if nl { r * el(d, n, i, k + 2) } else { 0real }),
{
  let f = |t: int| u3(k, q, r)(t) * el(d, n, i, t);
  assert forall|t: int| k + 3 <= t < n implies #[trigger] f(t) == 0real by { let a = el(d, n, i, t); assert(0real * a == 0real) by (nonlinear_arith); }
  sum3(f, k, n);
  let (a, b) = (el(d, n, i, k), el(d, n, i, k + 2));
  assert(1real * a == a && 0real * b == 0real) by (nonlinear_arith);
}
pub proof fn ref3_ok(n: int, cur: int, k: int, q: real, r: real, x: real)
  requires 0 <= k < cur < n, x * (1real + q * q + r * r) == 2real, k + 2 > cur ==> r == 0real,
  ensures ref3(f3(k, q, r, x), n, cur, k),
{
  let u = u3(k, q, r);
  let f = |t: int| u(t) * u(t);
  assert forall|t: int| 0 <= t < n && (t < k || t >= k + 3) implies #[trigger] f(t) == 0real by { assert(0real * 0real == 0real); }
  sum_split(f, 0, k, n);
  sum_zero(f, 0, k);
  sum3(f, k, n);
  assert(1real * 1real == 1real);
  assert(r == 0real ==> r * r == 0real) by (nonlinear_arith);
  assert(vdot(u, u, n) == 1real + q * q + r * r);
}
pub open spec fn upr(d: Seq<E>, n: int, k: int, j: int, nl: bool, x2: E, x0: E, x1: E) -> Seq<E> { (if nl { d.update((k + 2) * n + j, x2) } else { d }).update(k * n + j, x0).update((k + 1) * n + j, x1) }
pub open spec fn upc(d: Seq<E>, n: int, k: int, i: int, nl: bool, x2: E, x0: E, x1: E) -> Seq<E> { (if nl { d.update(i * n + (k + 2), x2) } else { d }).update(i * n + k, x0).update(i * n + (k + 1), x1) }
pub proof fn row3(d0: Seq<E>, dk: Seq<E>, d2: Seq<E>, n: int, k: int, j: int, q: real, r: real, x: real, nl: bool, p: real, x2: E, x0: E, x1: E)
  requires
    lap(d0, dk, n, k, j, k, u3(k, q, r), x), d0.len() == n * n, 0 <= k, k + 1 < n, k <= j < n, nl ==> k + 2 < n, !nl ==> r == 0real,
    p == el(dk, n, k, j) + q * el(dk, n, k + 1, j) + (if nl { r * el(dk, n, k + 2, j) } else { 0real }),
    nl ==> v(x2) == el(dk, n, k + 2, j) - p * (x * r), v(x0) == el(dk, n, k, j) - p * x, v(x1) == el(dk, n, k + 1, j) - p * (x * q),
    d2 == upr(dk, n, k, j, nl, x2, x0, x1),
  ensures lap(d0, d2, n, k, j + 1, k, u3(k, q, r), x),
{
  let u = u3(k, q, r);
  let e1 = if nl { dk.update((k + 2) * n + j, x2) } else { dk };
  let e2 = e1.update(k * n + j, x0);
  if nl { el_update(dk, n, n, k + 2, j, x2); }
  el_update(e1, n, n, k, j, x0);
  el_update(e2, n, n, k + 1, j, x1);
  cs3(d0, n, j, k, q, r, nl);
  assert(el(dk, n, k, j) == el(d0, n, k, j) && el(dk, n, k + 1, j) == el(d0, n, k + 1, j));
  if nl { assert(el(dk, n, k + 2, j) == el(d0, n, k + 2, j)); }
  assert(p == cs(u, d0, n, j, k, n));
  assert((x * p) * 1real == p * x && (x * p) * q == p * (x * q) && (x * p) * r == p * (x * r) && (x * p) * 0real == 0real) by (nonlinear_arith);
  assert forall|a: int, c: int| 0 <= a < n && 0 <= c < n implies #[trigger] el(d2, n, a, c) ==
    (if a >= k && c >= k && (c < j + 1 || (c == j + 1 && a < k)) { el(d0, n, a, c) - (x * cs(u, d0, n, c, k, n)) * u(a) } else { el(d0, n, a, c) }) by {
    assert(el(dk, n, a, c) == if a >= k && c >= k && (c < j || (c == j && a < k)) { el(d0, n, a, c) - (x * cs(u, d0, n, c, k, n)) * u(a) } else { el(d0, n, a, c) });
  }
}
pub proof fn col3(d0: Seq<E>, dk: Seq<E>, d2: Seq<E>, n: int, k: int, i: int, q: real, r: real, x: real, nl: bool, p: real, x2: E, x0: E, x1: E)
  requires
    rap(d0, dk, n, k, i, 0, u3(k, q, r), x), d0.len() == n * n, 0 <= k, k + 1 < n, 0 <= i < n, nl ==> k + 2 < n, !nl ==> r == 0real,
    p == x * el(dk, n, i, k) + (x * q) * el(dk, n, i, k + 1) + (if nl { (x * r) * el(dk, n, i, k + 2) } else { 0real }),
    nl ==> v(x2) == el(dk, n, i, k + 2) - p * r, v(x0) == el(dk, n, i, k) - p, v(x1) == el(dk, n, i, k + 1) - p * q,
    d2 == upc(dk, n, k, i, nl, x2, x0, x1),
  ensures rap(d0, d2, n, k, i + 1, 0, u3(k, q, r), x),
{
  let u = u3(k, q, r);
  let e1 = if nl { dk.update(i * n + (k + 2), x2) } else { dk };
  let e2 = e1.update(i * n + k, x0);
  if nl { el_update(dk, n, n, i, k + 2, x2); }
  el_update(e1, n, n, i, k, x0);
  el_update(e2, n, n, i, k + 1, x1);
  rs3(d0, n, i, k, q, r, nl);
  assert(el(dk, n, i, k) == el(d0, n, i, k) && el(dk, n, i, k + 1) == el(d0, n, i, k + 1));
  if nl { assert(el(dk, n, i, k + 2) == el(d0, n, i, k + 2)); }
  let (a, b, c) = (el(d0, n, i, k), el(d0, n, i, k + 1), if nl { el(d0, n, i, k + 2) } else { 0real });
  let (qb, rc, xq, xr) = (q * b, r * c, x * q, x * r);
  assert(r * 0real == 0real && xr * 0real == 0real) by (nonlinear_arith);
  assert(x * (a + qb + rc) == x * a + x * qb + x * rc) by (nonlinear_arith);
  assert(x * qb == xq * b) by (nonlinear_arith) requires qb == q * b, xq == x * q;
  assert(x * rc == xr * c) by (nonlinear_arith) requires rc == r * c, xr == x * r;
  assert(rs(u, d0, n, i, k, n) == a + qb + rc);
  assert(p == x * rs(u, d0, n, i, k, n));
  assert(p * 1real == p && p * 0real == 0real) by (nonlinear_arith);
  assert forall|g: int, c: int| 0 <= g < n && 0 <= c < n implies #[trigger] el(d2, n, g, c) ==
    (if c >= k && (g < i + 1 || (g == i + 1 && c < 0)) { el(d0, n, g, c) - (x * rs(u, d0, n, g, k, n)) * u(c) } else { el(d0, n, g, c) }) by {
    assert(el(dk, n, g, c) == if c >= k && (g < i || (g == i && c < 0)) { el(d0, n, g, c) - (x * rs(u, d0, n, g, k, n)) * u(c) } else { el(d0, n, g, c) });
  }
}
// the numbers of a reflection of (p, q, r)
pub proof fn ps_nz(p: real, s: real)
  requires p * s >= 0real, s != 0real,
  ensures p + s != 0real,
{ if p + s == 0real { assert(p * s < 0real) by (nonlinear_arith) requires p == -s, s != 0real; } }
pub proof fn refl3(p: real, q: real, r: real, s: real, x: real, y: real, z: real, q2: real, r2: real)
  requires s * s == p * p + q * q + r * r, s != 0real, p * s >= 0real, x == (p + s) / s, y == q / s, z == r / s, q2 == rdiv(q, p + s), r2 == rdiv(r, p + s),
  ensures p + s != 0real, y == x * q2, z == x * r2, x * (1real + q2 * q2 + r2 * r2) == 2real, 1real - x == -(p / s), r == 0real ==> r2 == 0real,
{
  ps_nz(p, s);
  let t = p + s;
  let d = 1real + q2 * q2 + r2 * r2;
  assert(q2 * t == q) by (nonlinear_arith) requires q2 == q / t, t != 0real;
  assert(r2 * t == r) by (nonlinear_arith) requires r2 == r / t, t != 0real;
  assert(x * s == t) by (nonlinear_arith) requires x == t / s, s != 0real;
  assert(y * s == q) by (nonlinear_arith) requires y == q / s, s != 0real;
  assert(z * s == r) by (nonlinear_arith) requires z == r / s, s != 0real;
  assert((x * q2) * s == q) by (nonlinear_arith) requires x * s == t, q2 * t == q;
  assert((x * r2) * s == r) by (nonlinear_arith) requires x * s == t, r2 * t == r;
  assert(y == x * q2) by (nonlinear_arith) requires y * s == (x * q2) * s, s != 0real;
  assert(z == x * r2) by (nonlinear_arith) requires z * s == (x * r2) * s, s != 0real;
  assert((q2 * q2) * (t * t) == q * q) by (nonlinear_arith) requires q2 * t == q;
  assert((r2 * r2) * (t * t) == r * r) by (nonlinear_arith) requires r2 * t == r;
  assert(d * (t * t) == t * t + (q2 * q2) * (t * t) + (r2 * r2) * (t * t)) by (nonlinear_arith) requires d == 1real + q2 * q2 + r2 * r2;
  assert(t * t + q * q + r * r == (2real * s) * t) by (nonlinear_arith) requires t == p + s, s * s == p * p + q * q + r * r;
  assert((d * t) * t == d * (t * t)) by (nonlinear_arith);
  assert(d * t == 2real * s) by (nonlinear_arith) requires (d * t) * t == (2real * s) * t, t != 0real;
  assert((x * d) * s == d * t) by (nonlinear_arith) requires x * s == t;
  assert(x * d == 2real) by (nonlinear_arith) requires (x * d) * s == 2real * s, s != 0real;
  assert(x == p / s + 1real) by (nonlinear_arith) requires x == (p + s) / s, s != 0real;
  assert(r == 0real ==> r2 == 0real) by (nonlinear_arith) requires r2 * t == r, t != 0real;
}
// the column of the sweep that the reflection clears: (1 - x) g, -y g, -z g
pub open spec fn kc0(g: real, f: Rf, k: int) -> real { g - f.t * g }
pub open spec fn kc(g: real, f: Rf, r: int) -> real { -(f.t * g) * (f.h)(r) }
// g = -s*xo, the stored column is xo*(p, q, r)
pub proof fn col_mid(p: real, q: real, r: real, s: real, xo: real, p0: real, q0: real, r0: real, x: real, y: real, z: real, q2: real, r2: real, g: real)
  requires s != 0real, xo != 0real, p == p0 / xo, q == q0 / xo, r == r0 / xo, 1real - x == -(p / s), y == q / s, z == r / s, y == x * q2, z == x * r2, g == -s * xo,
  ensures g - x * g == p0, -(x * g) * q2 == q0, -(x * g) * r2 == r0,
{
  assert(p * xo == p0) by (nonlinear_arith) requires p == p0 / xo, xo != 0real;
  assert(q * xo == q0) by (nonlinear_arith) requires q == q0 / xo, xo != 0real;
  assert(r * xo == r0) by (nonlinear_arith) requires r == r0 / xo, xo != 0real;
  let ps = p / s;
  assert(ps * s == p) by (nonlinear_arith) requires ps == p / s, s != 0real;
  assert(y * s == q) by (nonlinear_arith) requires y == q / s, s != 0real;
  assert(z * s == r) by (nonlinear_arith) requires z == r / s, s != 0real;
  assert(g - x * g == (1real - x) * g) by (nonlinear_arith);
  assert((-ps) * (-s * xo) == (ps * s) * xo) by (nonlinear_arith);
  assert(-(x * g) * q2 == (x * q2) * (-g)) by (nonlinear_arith);
  assert(-(x * g) * r2 == (x * r2) * (-g)) by (nonlinear_arith);
  assert(y * (-g) == (y * s) * xo) by (nonlinear_arith) requires g == -s * xo;
  assert(z * (-g) == (z * s) * xo) by (nonlinear_arith) requires g == -s * xo;
}
// the states
pub open spec fn base(vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, fr: real) -> bool {
  &&& h.len() == n * n && vd.len() == n * n && d.len() == n && e.len() == n && 0 < n && -1 <= cur < n && fr >= 0real
  &&& evs(qt(h, e, n), d, e, n, cur + 1) && last_ok(e, n, cur) && rabs(ex) <= 2real * fr
}
#[verifier::opaque]
pub open spec fn p1(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real) -> bool {
  base(vd, h, d, e, n, cur, ex, fr) && ms(a, vd, vd, sx(h, e, n, cur, cur, ex), n, n, w, fr * fr)
}
#[verifier::opaque]
pub open spec fn p2(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, ex: real, w: real, fr: real) -> bool {
  base(vd, h, d, e, n, cur, ex, fr) && ms(a, vd, vd, sx(h, e, n, cur, kb, ex), n, n, w, fr * fr) && szeros(h, n, cur, k, kb) && 0 <= k <= cur && kbk(k, kb, cur)
}
proof fn evs_keep(h: Seq<E>, d: Seq<E>, e: Seq<E>, h2: Seq<E>, d2: Seq<E>, e2: Seq<E>, n: int, lo: int)
  requires
    evs(qt(h, e, n), d, e, n, lo), 0 <= lo <= n, lo < n ==> v(e[lo]) >= 0real, d2.len() == n, e2.len() == n,
    forall|r: int, c: int| lo <= r < n && 0 <= c < n ==> #[trigger] el(h2, n, r, c) == el(h, n, r, c),
    forall|i: int| lo <= i < n ==> #[trigger] d2[i] == d[i], forall|i: int| lo <= i < n ==> #[trigger] e2[i] == e[i],
  ensures evs(qt(h2, e2, n), d2, e2, n, lo),
{
  reveal(evs);
  assert forall|i: int| lo <= i < n implies #[trigger] evs1(qt(h2, e2, n), d2, e2, n, i) by {
    assert(evs1(qt(h, e, n), d, e, n, i));
    assert(e2[i] == e[i] && d2[i] == d[i]);
    assert(el(h2, n, i, i) == el(h, n, i, i));
    if v(e[i]) > 0real {
      assert(e2[i + 1] == e[i + 1] && d2[i + 1] == d[i + 1]);
      assert(el(h2, n, i, i + 1) == el(h, n, i, i + 1)); assert(el(h2, n, i + 1, i) == el(h, n, i + 1, i)); assert(el(h2, n, i + 1, i + 1) == el(h, n, i + 1, i + 1));
    }
    if v(e[i]) < 0real { assert(i > lo); assert(e2[i - 1] == e[i - 1]); }
  }
}
proof fn evs_more(t: Mt, d: Seq<E>, e: Seq<E>, n: int, i: int)
  requires evs(t, d, e, n, i + 1), evs1(t, d, e, n, i),
  ensures evs(t, d, e, n, i),
{ reveal(evs); }
pub proof fn p1_start(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, fr: real)
  requires ms(a, vd, vd, hess(h, n), n, n, 0real, fr * fr), h.len() == n * n, vd.len() == n * n, d.len() == n, e.len() == n, 0 < n, fr >= 0real,
  ensures p1(a, vd, h, d, e, n, n - 1, 0real, 0real, fr),
{
  reveal(p1); reveal(evs);
  ms_ext(a, vd, vd, hess(h, n), sx(h, e, n, n - 1, n - 1, 0real), n, n, 0real, 0real, fr * fr);
}
pub proof fn p1_end(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, ex: real, w: real, fr: real)
  requires p1(a, vd, h, d, e, n, -1, ex, w, fr),
  ensures ms(a, vd, vd, qt(h, e, n), n, n, w, fr * fr), evs(qt(h, e, n), d, e, n, 0),
{ reveal(p1); ms_ext(a, vd, vd, sx(h, e, n, -1, -1, ex), qt(h, e, n), n, n, w, w, fr * fr); }
pub proof fn p1_at(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real, i: int)
  requires p1(a, vd, h, d, e, n, cur, ex, w, fr), 0 <= i <= cur,
  ensures
    rabs(el(h, n, i, i) + ex) <= fr, rabs(el(h, n, i, i)) <= 3real * fr, rabs(ex) <= 2real * fr,
    i > 0 ==> rabs(el(h, n, i, i - 1)) <= fr && rabs(el(h, n, i - 1, i)) <= fr,
{
  reveal(p1);
  let x = sx(h, e, n, cur, cur, ex);
  ms_entry(a, vd, vd, x, n, n, w, fr * fr, fr, i, i);
  assert(x(i, i) == el(h, n, i, i) + ex);
  if i > 0 {
    ms_entry(a, vd, vd, x, n, n, w, fr * fr, fr, i, i - 1); ms_entry(a, vd, vd, x, n, n, w, fr * fr, fr, i - 1, i);
    assert(x(i, i - 1) == el(h, n, i, i - 1) + 0real && x(i - 1, i) == el(h, n, i - 1, i) + 0real);
  }
}
pub proof fn p1_len(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real)
  requires p1(a, vd, h, d, e, n, cur, ex, w, fr),
  ensures h.len() == n * n, vd.len() == n * n, d.len() == n, e.len() == n, fr >= 0real, rabs(ex) <= 2real * fr,
{ reveal(p1); }
pub proof fn p2_len(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, ex: real, w: real, fr: real)
  requires p2(a, vd, h, d, e, n, cur, k, kb, ex, w, fr),
  ensures h.len() == n * n, vd.len() == n * n, d.len() == n, e.len() == n, fr >= 0real,
{ reveal(p2); }
pub proof fn p1_widen(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, w: real, w2: real, fr: real)
  requires p1(a, vd, h, d, e, n, cur, ex, w, fr), w <= w2,
  ensures p1(a, vd, h, d, e, n, cur, ex, w2, fr),
{ reveal(p1); let x = sx(h, e, n, cur, cur, ex); ms_ext(a, vd, vd, x, x, n, n, w, w2, fr * fr); }
// an entry below the diagonal is taken for zero (if there is one)
proof fn sub_drop(a: Mt, vd: Seq<E>, x: Mt, n: int, w: real, fr: real, l: int, t: real) -> (x2: Mt)
  requires ms(a, vd, vd, x, n, n, w, fr * fr), 0 <= l < n, t >= 0real, l > 0 ==> rabs(x(l, l - 1)) <= t,
  ensures ms(a, vd, vd, x2, n, n, w + t, fr * fr), x2 == (|r: int, c: int| if r == l && c == l - 1 { 0real } else { x(r, c) }),
{
  let x2 = |r: int, c: int| if r == l && c == l - 1 { 0real } else { x(r, c) };
  if l > 0 { ms_drop(a, vd, vd, x, x2, n, n, w, fr * fr, l, l - 1, t); } else { ms_ext(a, vd, vd, x, x2, n, n, w, w + t, fr * fr); }
  x2
}
// one root
pub proof fn p1_one(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, h2: Seq<E>, d2: Seq<E>, e2: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real, t: real, x: E, z: E)
  requires
    p1(a, vd, h, d, e, n, cur, ex, w, fr), 0 <= cur, t >= 0real, cur > 0 ==> rabs(el(h, n, cur, cur - 1)) <= t,
    v(x) == el(h, n, cur, cur) + ex, v(z) == 0real, h2 == h.update(cur * n + cur, x), d2 == d.update(cur, x), e2 == e.update(cur, z),
  ensures p1(a, vd, h2, d2, e2, n, cur - 1, ex, w + t, fr),
{
  reveal(p1);
  el_update(h, n, n, cur, cur, x);
  let x1 = sx(h, e, n, cur, cur, ex);
  if cur > 0 { assert(x1(cur, cur - 1) == el(h, n, cur, cur - 1) + 0real); }
  let y = sub_drop(a, vd, x1, n, w, fr, cur, t);
  let x2 = sx(h2, e2, n, cur - 1, cur - 1, ex);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] y(r, c) == x2(r, c) by {
    assert(el(h2, n, r, c) == if r == cur && c == cur { v(x) } else { el(h, n, r, c) });
    if r != cur { assert(e2[r] == e[r]); }
  }
  ms_ext(a, vd, vd, y, x2, n, n, w + t, w + t, fr * fr);
  evs_keep(h, d, e, h2, d2, e2, n, cur + 1);
  assert(evs1(qt(h2, e2, n), d2, e2, n, cur));
  evs_more(qt(h2, e2, n), d2, e2, n, cur);
}
pub open spec fn dg2(h: Seq<E>, n: int, cur: int, x: E, x1: E) -> Seq<E> { h.update(cur * n + cur, x).update((cur - 1) * n + (cur - 1), x1) }
// a complex pair
pub proof fn p1_cx(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, h2: Seq<E>, d2: Seq<E>, e2: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real, t: real, x: E, x1: E, p: real, y1: E, y2: E, z1: E, z2: E)
  requires
    p1(a, vd, h, d, e, n, cur, ex, w, fr), 1 <= cur, t >= 0real, cur > 1 ==> rabs(el(h, n, cur - 1, cur - 2)) <= t,
    v(x) == el(h, n, cur, cur) + ex, v(x1) == el(h, n, cur - 1, cur - 1) + ex, h2 =~= dg2(h, n, cur, x, x1), p == (el(h, n, cur - 1, cur - 1) - el(h, n, cur, cur)) / 2real,
    v(y1) == v(x) + p, v(y2) == v(x) + p, v(z1) > 0real, v(z2) == -v(z1), v(z1) * v(z1) == -(p * p + el(h, n, cur, cur - 1) * el(h, n, cur - 1, cur)),
    d2 =~= d.update(cur - 1, y1).update(cur, y2), e2 =~= e.update(cur - 1, z1).update(cur, z2),
  ensures p1(a, vd, h2, d2, e2, n, cur - 2, ex, w + t, fr),
{
  reveal(p1);
  el_update(h, n, n, cur, cur, x); el_update(h.update(cur * n + cur, x), n, n, cur - 1, cur - 1, x1);
  let xa = sx(h, e, n, cur, cur, ex);
  if cur > 1 { assert(xa(cur - 1, cur - 2) == el(h, n, cur - 1, cur - 2) + 0real); }
  let y = sub_drop(a, vd, xa, n, w, fr, cur - 1, t);
  let xb = sx(h2, e2, n, cur - 2, cur - 2, ex);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] y(r, c) == xb(r, c) by {
    assert(el(h2, n, r, c) == if r == cur && c == cur { v(x) } else if r == cur - 1 && c == cur - 1 { v(x1) } else { el(h, n, r, c) });
    if r > cur || r < cur - 1 { assert(e2[r] == e[r]); }
  }
  ms_ext(a, vd, vd, y, xb, n, n, w + t, w + t, fr * fr);
  evs_keep(h, d, e, h2, d2, e2, n, cur + 1);
  let q = qt(h2, e2, n);
  assert(evs1(q, d2, e2, n, cur));
  evs_more(q, d2, e2, n, cur);
  let (ta, tb, tc, td) = (q(cur - 1, cur - 1), q(cur - 1, cur), q(cur, cur - 1), q(cur, cur));
  assert(el(h2, n, cur, cur) == v(x) && el(h2, n, cur - 1, cur - 1) == v(x1));
  assert(el(h2, n, cur, cur - 1) == el(h, n, cur, cur - 1) && el(h2, n, cur - 1, cur) == el(h, n, cur - 1, cur));
  let dd = v(y1);
  assert(ta - dd == p && td - dd == -p);
  assert(p * (-p) == -(p * p) && tb * tc == tc * tb) by (nonlinear_arith);
  assert(evs1(q, d2, e2, n, cur - 1));
  evs_more(q, d2, e2, n, cur - 1);
}
proof fn sqk(a: real, b: real, r: real, x: real, y: real)
  requires a * r == x, b * r == y,
  ensures (a * b) * (r * r) == x * y,
{ assert((a * b) * (r * r) == (a * r) * (b * r)) by (nonlinear_arith); }
proof fn zero_of(x: real, k: real)
  requires x * k == 0real, k > 0real,
  ensures x == 0real,
{ assert(x == 0real) by (nonlinear_arith) requires x * k == 0real, k > 0real; }
proof fn dist2(q: real, x: real, y: real)
  ensures q * (x + y) == q * x + q * y, q * (x - y) == q * x - q * y,
{ assert(q * (x + y) == q * x + q * y && q * (x - y) == q * x - q * y) by (nonlinear_arith); }
proof fn asc(p: real, q: real, x: real)
  ensures p * (q * x) == (p * q) * x, q * (p * x) == (p * q) * x, p * (p * x) == (p * p) * x, q * (q * x) == (q * q) * x,
{ assert(p * (q * x) == (p * q) * x && q * (p * x) == (p * q) * x && p * (p * x) == (p * p) * x && q * (q * x) == (q * q) * x) by (nonlinear_arith); }
proof fn rot_a(p: real, q: real, a: real, b: real, c: real, d: real)
  ensures q * (q * c - p * a) + p * (q * d - p * b) == (q * q) * c - (p * q) * a + (p * q) * d - (p * p) * b,
{ dist2(q, q * c, p * a); dist2(p, q * d, p * b); asc(p, q, c); asc(p, q, a); asc(p, q, d); asc(p, q, b); }
proof fn rot_b(p: real, q: real, a: real, b: real, c: real, d: real)
  ensures q * (q * a + p * c) + p * (q * b + p * d) == (q * q) * a + (p * q) * c + (p * q) * b + (p * p) * d,
{ dist2(q, q * a, p * c); dist2(p, q * b, p * d); asc(p, q, c); asc(p, q, a); asc(p, q, d); asc(p, q, b); }
proof fn rot_e(p: real, q: real, a: real, b: real, c: real, d: real)
  ensures (-p) * (q * c - p * a) + q * (q * d - p * b) == -((p * q) * c) + (p * p) * a + (q * q) * d - (p * q) * b,
{
  let y = q * c - p * a;
  assert((-p) * y == -(p * y)) by (nonlinear_arith);
  dist2(p, q * c, p * a); dist2(q, q * d, p * b); asc(p, q, c); asc(p, q, a); asc(p, q, d); asc(p, q, b);
}
proof fn lin4(w: real, x: real, y: real, z: real, a: real, b: real, c: real, d: real, k: real)
  ensures (w * a - x * b + y * c - z * d) * k == (w * k) * a - (x * k) * b + (y * k) * c - (z * k) * d,
{
  let (wa, xb, yc, zd) = (w * a, x * b, y * c, z * d);
  assert((wa - xb + yc - zd) * k == wa * k - xb * k + yc * k - zd * k) by (nonlinear_arith);
  mul3c(w, a, k); mul3c(x, b, k); mul3c(y, c, k); mul3c(z, d, k);
}
proof fn lin4p(w: real, x: real, y: real, z: real, a: real, b: real, c: real, d: real, k: real)
  ensures (w * a + x * b + y * c + z * d) * k == (w * k) * a + (x * k) * b + (y * k) * c + (z * k) * d,
{
  let (wa, xb, yc, zd) = (w * a, x * b, y * c, z * d);
  assert((wa + xb + yc + zd) * k == wa * k + xb * k + yc * k + zd * k) by (nonlinear_arith);
  mul3c(w, a, k); mul3c(x, b, k); mul3c(y, c, k); mul3c(z, d, k);
}
proof fn mul3c(w: real, a: real, k: real)
  ensures (w * a) * k == (w * k) * a,
{ assert((w * a) * k == (w * k) * a) by (nonlinear_arith); }
proof fn rot_c(a: real, b: real, c: real, d: real, z: real)
  requires z * z - (a - d) * z == c * b,
  ensures (z * z) * c - (c * z) * a + (c * z) * d - (c * c) * b == 0real,
{
  let (zz, az, dz, cb) = (z * z, a * z, d * z, c * b);
  assert((a - d) * z == az - dz) by (nonlinear_arith) requires az == a * z, dz == d * z;
  assert((c * z) * a == az * c && (c * z) * d == dz * c && (c * c) * b == cb * c) by (nonlinear_arith) requires az == a * z, dz == d * z, cb == c * b;
  assert((zz - az + dz - cb) * c == zz * c - az * c + dz * c - cb * c) by (nonlinear_arith);
  assert(0real * c == 0real) by (nonlinear_arith);
}
proof fn rot_d(a: real, b: real, c: real, d: real, z: real)
  requires z * z - (a - d) * z == c * b,
  ensures (z * z) * a + (c * z) * c + (c * z) * b + (c * c) * d == (d + z) * (z * z + c * c),
{
  let (zz, az, dz, cb, cc1) = (z * z, a * z, d * z, c * b, c * c);
  assert((a - d) * z == az - dz) by (nonlinear_arith) requires az == a * z, dz == d * z;
  assert(zz * a == az * z && zz * d == dz * z) by (nonlinear_arith) requires az == a * z, dz == d * z, zz == z * z;
  assert((c * z) * b == cb * z && (c * z) * c == cc1 * z) by (nonlinear_arith) requires cb == c * b, cc1 == c * c;
  assert((d + z) * (zz + cc1) == zz * d + cc1 * d + zz * z + cc1 * z) by (nonlinear_arith);
  assert(az * z + cb * z - dz * z - zz * z == (az + cb - dz - zz) * z) by (nonlinear_arith);
  assert(0real * z == 0real) by (nonlinear_arith);
}
// a real pair: the rotation with (q, p) along (z, c) diagonalises the block
pub proof fn pair_rot(a: real, b: real, c: real, d: real, z: real, z0: real, p: real, q: real, s: real, r: real)
  requires
    c != 0real, z0 >= 0real, z0 * z0 == ((a - d) / 2real) * ((a - d) / 2real) + c * b, z == (if (a - d) / 2real >= 0real { (a - d) / 2real + z0 } else { (a - d) / 2real - z0 }),
    s == rabs(c) + rabs(z), r >= 0real, r * r == (c / s) * (c / s) + (z / s) * (z / s), p == rdiv(c / s, r), q == rdiv(z / s, r),
  ensures
    s > 0real, r > 0real, p * p + q * q == 1real,
    q * (q * c - p * a) + p * (q * d - p * b) == 0real,
    q * (q * a + p * c) + p * (q * b + p * d) == d + z,
    (-p) * (q * c - p * a) + q * (q * d - p * b) == a - z,
    z != 0real ==> d - (c * b) / z == a - z, z == 0real ==> d + z == a - z,
{
  let h = (a - d) / 2real;
  assert((z - h) * (z - h) == z0 * z0) by (nonlinear_arith) requires z - h == z0 || z - h == -z0;
  assert(z * z - (a - d) * z == c * b) by (nonlinear_arith) requires (z - h) * (z - h) == h * h + c * b, a - d == 2real * h;
  let (ps, qs) = (c / s, z / s);
  assert(ps * s == c) by (nonlinear_arith) requires ps == c / s, s != 0real;
  assert(qs * s == z) by (nonlinear_arith) requires qs == z / s, s != 0real;
  assert(ps != 0real) by { if ps == 0real { assert(ps * s == 0real) by (nonlinear_arith) requires ps == 0real; } }
  assert(ps * ps > 0real) by (nonlinear_arith) requires ps != 0real;
  assert(qs * qs >= 0real) by (nonlinear_arith);
  if r == 0real { assert(r * r == 0real) by (nonlinear_arith) requires r == 0real; }
  assert(p * r == ps) by (nonlinear_arith) requires p == ps / r, r != 0real;
  assert(q * r == qs) by (nonlinear_arith) requires q == qs / r, r != 0real;
  assert((p * p + q * q) * (r * r) == r * r) by (nonlinear_arith) requires p * r == ps, q * r == qs, r * r == ps * ps + qs * qs;
  let rr2 = r * r;
  assert(rr2 > 0real) by (nonlinear_arith) requires rr2 == r * r, r > 0real;
  assert(p * p + q * q == 1real) by (nonlinear_arith) requires (p * p + q * q) * rr2 == rr2, rr2 > 0real;
  // p = k c, q = k z
  let k = 1real / (s * r);
  let sr = s * r;
  assert(sr > 0real) by (nonlinear_arith) requires sr == s * r, s > 0real, r > 0real;
  assert(p * sr == c) by (nonlinear_arith) requires p * r == ps, ps * s == c, sr == s * r;
  assert(q * sr == z) by (nonlinear_arith) requires q * r == qs, qs * s == z, sr == s * r;
  let (kk, cc1) = (sr * sr, q * (q * c - p * a) + p * (q * d - p * b));
  assert(kk > 0real) by (nonlinear_arith) requires kk == sr * sr, sr > 0real;
  sqk(q, q, sr, z, z); sqk(p, q, sr, c, z); sqk(p, p, sr, c, c);
  let (pp, pq, qq) = (p * p, p * q, q * q);
  assert(cc1 == qq * c - pq * a + pq * d - pp * b) by { rot_a(p, q, a, b, c, d); }
  lin4(qq, pq, pq, pp, c, a, d, b, kk);
  assert(cc1 * kk == (z * z) * c - (c * z) * a + (c * z) * d - (c * c) * b);
  rot_c(a, b, c, d, z);
  zero_of(cc1, kk);
  let e1 = q * (q * a + p * c) + p * (q * b + p * d);
  assert(e1 == qq * a + pq * c + pq * b + pp * d) by { rot_b(p, q, a, b, c, d); }
  lin4p(qq, pq, pq, pp, a, c, b, d, kk);
  assert(e1 * kk == (z * z) * a + (c * z) * c + (c * z) * b + (c * c) * d);
  rot_d(a, b, c, d, z);
  assert(z * z + c * c == kk) by { assert((pp + qq) * kk == pp * kk + qq * kk) by (nonlinear_arith); assert(1real * kk == kk) by (nonlinear_arith); }
  let dz = d + z;
  assert((e1 - dz) * kk == e1 * kk - dz * kk) by (nonlinear_arith);
  zero_of(e1 - dz, kk);
  let e2 = (-p) * (q * c - p * a) + q * (q * d - p * b);
  assert(e2 == -(pq * c) + pp * a + qq * d - pq * b) by { rot_e(p, q, a, b, c, d); }
  assert((pp + qq) * (a + d) == pp * a + pp * d + qq * a + qq * d) by (nonlinear_arith);
  assert(1real * (a + d) == a + d) by (nonlinear_arith);
  if z != 0real {
    let y = (c * b) / z;
    assert(y == z - (a - d)) by (nonlinear_arith) requires y == (c * b) / z, z * z - (a - d) * z == c * b, z != 0real;
  } else {
    assert(h == 0real);
  }
}
// rows cur - 1 and cur rotated, from column cur - 1 up to j
pub open spec fn rowrot(h: Seq<E>, h2: Seq<E>, n: int, cur: int, j: int, q: real, p: real) -> bool {
  h2.len() == h.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(h2, n, r, c) ==
    if cur - 1 <= c < j && r == cur - 1 { q * el(h, n, cur - 1, c) + p * el(h, n, cur, c) } else if cur - 1 <= c < j && r == cur { -p * el(h, n, cur - 1, c) + q * el(h, n, cur, c) } else { el(h, n, r, c) }
}
pub proof fn rowrot_step(h: Seq<E>, h2: Seq<E>, n: int, cur: int, j: int, q: real, p: real, x: E, y: E)
  requires
    rowrot(h, h2, n, cur, j, q, p), h.len() == n * n, 1 <= cur < n, cur - 1 <= j < n,
    v(x) == q * el(h2, n, cur - 1, j) + p * el(h2, n, cur, j), v(y) == q * el(h2, n, cur, j) - p * el(h2, n, cur - 1, j),
  ensures rowrot(h, h2.update((cur - 1) * n + j, x).update(cur * n + j, y), n, cur, j + 1, q, p),
{
  el_update(h2, n, n, cur - 1, j, x); el_update(h2.update((cur - 1) * n + j, x), n, n, cur, j, y);
  let z = el(h2, n, cur - 1, j);
  assert((-p) * z == -(p * z)) by (nonlinear_arith);
  assert(el(h2, n, cur - 1, j) == el(h, n, cur - 1, j) && el(h2, n, cur, j) == el(h, n, cur, j));
}
pub proof fn p1_real(a: Mt, vd: Seq<E>, v5: Seq<E>, h: Seq<E>, h3: Seq<E>, h4: Seq<E>, h5: Seq<E>, d: Seq<E>, e: Seq<E>, d2: Seq<E>, e2: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real, t: real, x: E, x1: E, p: real, q: real, z: real, z0: real, s: real, r: real, y1: E, y2: E, e0: E)
  requires
    p1(a, vd, h, d, e, n, cur, ex, w, fr), 1 <= cur, t >= 0real, cur > 1 ==> rabs(el(h, n, cur - 1, cur - 2)) <= t, el(h, n, cur, cur - 1) != 0real,
    v(x) == el(h, n, cur, cur) + ex, v(x1) == el(h, n, cur - 1, cur - 1) + ex, h3 =~= dg2(h, n, cur, x, x1),
    rowrot(h3, h4, n, cur, n, q, p), rotd(h4, h5, n, cur + 1, cur - 1, cur, q, p), rotd(vd, v5, n, n, cur - 1, cur, q, p),
    d2 =~= d.update(cur - 1, y1).update(cur, y2), e2 =~= e.update(cur - 1, e0).update(cur, e0), v(e0) == 0real,
    v(y1) == v(x) + z, v(y2) == if z != 0real { v(x) - (el(h, n, cur, cur - 1) * el(h, n, cur - 1, cur)) / z } else { v(x) + z },
    ({ let b = (el(h, n, cur - 1, cur - 1) - el(h, n, cur, cur)) / 2real; z0 >= 0real && z0 * z0 == b * b + el(h, n, cur, cur - 1) * el(h, n, cur - 1, cur) && z == if b >= 0real { b + z0 } else { b - z0 } }),
    s == rabs(el(h, n, cur, cur - 1)) + rabs(z), r >= 0real, r * r == (el(h, n, cur, cur - 1) / s) * (el(h, n, cur, cur - 1) / s) + (z / s) * (z / s),
    p == rdiv(el(h, n, cur, cur - 1) / s, r), q == rdiv(z / s, r),
  ensures p1(a, v5, h5, d2, e2, n, cur - 2, ex, w + t, fr),
{
  reveal(p1);
  let (i, k) = (cur - 1, cur);
  el_update(h, n, n, cur, cur, x); el_update(h.update(cur * n + cur, x), n, n, cur - 1, cur - 1, x1);
  let xa = sx(h, e, n, cur, cur, ex);
  if cur > 1 { assert(xa(cur - 1, cur - 2) == el(h, n, cur - 1, cur - 2) + 0real); }
  let y = sub_drop(a, vd, xa, n, w, fr, cur - 1, t);
  let (ga, gb, gc, gd) = (v(x1), el(h, n, i, k), el(h, n, k, i), v(x));
  assert(ga - gd == el(h, n, i, i) - el(h, n, k, k));
  pair_rot(ga, gb, gc, gd, z, z0, p, q, s, r);
  assert(q * p + p * (-q) == 0real && (-p) * (-p) == p * p && q * (-p) + p * q == 0real) by (nonlinear_arith);
  assert(orth2(q, p, -p, q));
  let y2m = mixr(y, i, k, q, p, -p, q);
  rotd_mixed(vd, v5, n, i, k, q, p);
  ms_rows(a, vd, v5, vd, y, y2m, n, n, w + t, fr * fr, i, k, q, p, -p, q);
  let y3 = mixc(y2m, i, k, q, p, -p, q);
  ms_cols(a, v5, vd, v5, y2m, y3, n, n, w + t, fr * fr, i, k, q, p, -p, q);
  let xb = sx(h5, e2, n, cur - 2, cur - 2, ex);
  let (z1, z2) = (q * 0real, p * 0real);
  assert(z1 == 0real && z2 == 0real && (-p) * 0real == 0real) by (nonlinear_arith) requires z1 == q * 0real, z2 == p * 0real;
  assert forall|r: int, c: int| 0 <= r < n && i <= c < n && (r == i || r == k) implies #[trigger] y(r, c) == el(h3, n, r, c) by {
    assert(el(h3, n, r, c) == if r == cur && c == cur { v(x) } else if r == cur - 1 && c == cur - 1 { v(x1) } else { el(h, n, r, c) });
  }
  assert forall|r: int, c: int| 0 <= r < n && i <= c < n && (r == i || r == k) implies #[trigger] y2m(r, c) == el(h4, n, r, c) by {
    assert(y(i, c) == el(h3, n, i, c)); assert(y(k, c) == el(h3, n, k, c));
  }
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] y3(r, c) == xb(r, c) by {
    assert(el(h3, n, r, c) == if r == cur && c == cur { v(x) } else if r == cur - 1 && c == cur - 1 { v(x1) } else { el(h, n, r, c) });
    assert(el(h3, n, r, i) == if r == cur - 1 { v(x1) } else { el(h, n, r, i) });
    assert(el(h3, n, r, k) == if r == cur { v(x) } else { el(h, n, r, k) });
    assert(el(h4, n, r, c) == if i <= c && r == i { q * el(h3, n, i, c) + p * el(h3, n, k, c) } else if i <= c && r == k { -p * el(h3, n, i, c) + q * el(h3, n, k, c) } else { el(h3, n, r, c) });
    if r != i && r != k { assert(e2[r] == e[r]); assert(el(h4, n, r, i) == el(h3, n, r, i)); assert(el(h4, n, r, k) == el(h3, n, r, k)); }
    if c == i || c == k {
      if r == i || r == k { assert(y2m(r, i) == el(h4, n, r, i)); assert(y2m(r, k) == el(h4, n, r, k)); }
      else if r > k { assert(y2m(r, i) == 0real && y2m(r, k) == 0real); }
      else { assert(y2m(r, i) == el(h4, n, r, i)); assert(y2m(r, k) == el(h4, n, r, k)); }
      if r == k && c == i {
        assert(el(h3, n, i, i) == ga && el(h3, n, i, k) == gb && el(h3, n, k, i) == gc && el(h3, n, k, k) == gd);
        assert(y2m(k, i) == -p * ga + q * gc && y2m(k, k) == -p * gb + q * gd);
        assert((-p) * ga == -(p * ga) && (-p) * gb == -(p * gb)) by (nonlinear_arith);
        assert(y3(k, i) == q * (q * gc - p * ga) + p * (q * gd - p * gb));
      }
    } else if c > k {
      if r == i || r == k { assert(y2m(r, c) == el(h4, n, r, c)); }
    } else {
      if r == i || r == k { assert(y(i, c) == 0real && y(k, c) == 0real); }
    }
  }
  ms_ext(a, v5, v5, y3, xb, n, n, w + t, w + t, fr * fr);
  assert forall|r: int, c: int| cur + 1 <= r < n && 0 <= c < n implies #[trigger] el(h5, n, r, c) == el(h, n, r, c) by { assert(el(h4, n, r, c) == el(h3, n, r, c)); }
  evs_keep(h, d, e, h5, d2, e2, n, cur + 1);
  let g = qt(h5, e2, n);
  assert(el(h3, n, i, i) == ga && el(h3, n, i, k) == gb && el(h3, n, k, i) == gc && el(h3, n, k, k) == gd);
  assert((-p) * ga == -(p * ga) && (-p) * gb == -(p * gb)) by (nonlinear_arith);
  assert(el(h4, n, k, i) == q * gc - p * ga && el(h4, n, k, k) == q * gd - p * gb && el(h4, n, i, i) == q * ga + p * gc && el(h4, n, i, k) == q * gb + p * gd);
  assert(el(h5, n, k, k) == (-p) * el(h4, n, k, i) + q * el(h4, n, k, k));
  assert(el(h5, n, i, i) == q * el(h4, n, i, i) + p * el(h4, n, i, k));
  assert(evs1(g, d2, e2, n, cur));
  evs_more(g, d2, e2, n, cur);
  assert(evs1(g, d2, e2, n, cur - 1));
  evs_more(g, d2, e2, n, cur - 1);
}
proof fn rotd_mixed(d0: Seq<E>, d1: Seq<E>, n: int, i: int, k: int, q: real, p: real)
  requires rotd(d0, d1, n, n, i, k, q, p), 0 <= i < n, 0 <= k < n, i != k,
  ensures mixed(elm(d0, n), elm(d1, n), n, n, i, k, q, p, -p, q),
{
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] elm(d1, n)(r, c) == (if c == i { q * elm(d0, n)(r, i) + p * elm(d0, n)(r, k) } else if c == k { -p * elm(d0, n)(r, i) + q * elm(d0, n)(r, k) } else { elm(d0, n)(r, c) }) by { assert(elm(d1, n)(r, c) == el(d1, n, r, c)); }
}
// the shift
pub open spec fn dsh(h: Seq<E>, h2: Seq<E>, n: int, i: int, s: real) -> bool {
  h2.len() == h.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(h2, n, r, c) == if r == c && r < i { el(h, n, r, c) - s } else { el(h, n, r, c) }
}
pub proof fn dsh_step(h: Seq<E>, h2: Seq<E>, n: int, i: int, s: real, x: E)
  requires dsh(h, h2, n, i, s), h.len() == n * n, 0 <= i < n, v(x) == el(h2, n, i, i) - s,
  ensures dsh(h, h2.update(i * n + i, x), n, i + 1, s),
{ el_update(h2, n, n, i, i, x); assert(el(h2, n, i, i) == el(h, n, i, i)); }
pub proof fn p1_shift(a: Mt, vd: Seq<E>, h: Seq<E>, h2: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real, s: real)
  requires p1(a, vd, h, d, e, n, cur, ex, w, fr), 0 <= cur, dsh(h, h2, n, cur + 1, s), rabs(ex + s) <= 2real * fr,
  ensures p1(a, vd, h2, d, e, n, cur, ex + s, w, fr),
{
  reveal(p1);
  ms_ext(a, vd, vd, sx(h, e, n, cur, cur, ex), sx(h2, e, n, cur, cur, ex + s), n, n, w, w, fr * fr);
  evs_keep(h, d, e, h2, d, e, n, cur + 1);
}
// the shift from the last block stays of the size of the matrix
pub proof fn shift30(a: real, d: real, b: real, s0: real, s: real, t: real, fr: real)
  requires rabs(b) <= fr * fr, fr >= 0real, s0 >= 0real, s0 * s0 == d * d + b, s0 * s0 > 0real, s == (if d < 0real { -s0 } else { s0 }), t == a - rdiv(b, d + s),
  ensures rabs(t - a) <= fr,
{
  assert(s * s == d * d + b) by (nonlinear_arith) requires s0 * s0 == d * d + b, s == s0 || s == -s0;
  if s0 == 0real { assert(s0 * s0 == 0real) by (nonlinear_arith) requires s0 == 0real; }
  assert(d + s != 0real);
  let y = b / (d + s);
  assert(y == s - d) by (nonlinear_arith) requires y == b / (d + s), s * s == d * d + b, d + s != 0real;
  let x = rabs(y);
  assert(x * x == y * y) by (nonlinear_arith) requires x == y || x == -y;
  // |s - d| <= |s + d|
  let z = rabs(s + d);
  assert(x <= z);
  assert(x * z == rabs(b)) by { abs_mul(y, s + d); assert(y * (s + d) == b) by (nonlinear_arith) requires y == s - d, s * s == d * d + b; }
  assert(x * x <= x * z) by (nonlinear_arith) requires 0real <= x <= z;
  assert(x * x <= fr * fr);
  assert(y * y <= fr * fr);
  root_le(y, fr);
}
pub proof fn prod_le(b: real, c: real, fr: real)
  requires rabs(b) <= fr, rabs(c) <= fr,
  ensures rabs(b * c) <= fr * fr,
{
  abs_mul(b, c);
  let (x, y) = (rabs(b), rabs(c));
  assert(x * y <= fr * fr) by (nonlinear_arith) requires 0real <= x <= fr, 0real <= y <= fr;
}
// ---- the sweep
pub open spec fn zl(h: Seq<E>, h2: Seq<E>, n: int, m: int, i: int) -> bool {
  h2.len() == h.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(h2, n, r, c) == if m + 2 <= r < i && (c == r - 2 || (c == r - 3 && r > m + 2)) { 0real } else { el(h, n, r, c) }
}
pub proof fn zl_step(h: Seq<E>, h2: Seq<E>, h3: Seq<E>, n: int, m: int, i: int, z: E, z2: E)
  requires zl(h, h2, n, m, i), h.len() == n * n, 0 <= m, m + 2 <= i < n, v(z) == 0real, v(z2) == 0real, h3 == (if i > m + 2 { h2.update(i * n + (i - 2), z).update(i * n + (i - 3), z2) } else { h2.update(i * n + (i - 2), z) }),
  ensures zl(h, h3, n, m, i + 1),
{ el_update(h2, n, n, i, i - 2, z); if i > m + 2 { el_update(h2.update(i * n + (i - 2), z), n, n, i, i - 3, z2); } }
pub proof fn p2_start(a: Mt, vd: Seq<E>, h: Seq<E>, h2: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, m: int, ex: real, w: real, fr: real)
  requires p1(a, vd, h, d, e, n, cur, ex, w, fr), 0 <= m <= cur - 2, zl(h, h2, n, m, cur + 1),
  ensures p2(a, vd, h2, d, e, n, cur, m, cur, ex, w, fr),
{
  reveal(p1); reveal(p2);
  let (x, y) = (sx(h, e, n, cur, cur, ex), sx(h2, e, n, cur, cur, ex));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] x(r, c) == y(r, c) by { if alive(e, cur, cur, r, c) { assert(el(h2, n, r, c) == el(h, n, r, c)); } }
  ms_ext(a, vd, vd, x, y, n, n, w, w, fr * fr);
  evs_keep(h, d, e, h2, d, e, n, cur + 1);
  assert forall|r: int, c: int| m <= c && 0 <= r <= cur && (r == c + 2 || r == c + 3) && !(cur == m && r == m + 2 && c == m) implies #[trigger] el(h2, n, r, c) == 0real by { }
}
pub proof fn p2_end(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, ex: real, w: real, fr: real)
  requires p2(a, vd, h, d, e, n, cur, cur, cur, ex, w, fr),
  ensures p1(a, vd, h, d, e, n, cur, ex, w, fr),
{ reveal(p1); reveal(p2); }
pub proof fn p2_skip(a: Mt, vd: Seq<E>, h: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, ex: real, w: real, fr: real)
  requires p2(a, vd, h, d, e, n, cur, k, k, ex, w, fr), 1 <= k < cur, el(h, n, k + 1, k - 1) == 0real, k + 2 <= cur ==> el(h, n, k + 2, k - 1) == 0real,
  ensures p2(a, vd, h, d, e, n, cur, k + 1, k + 1, ex, w, fr),
{
  reveal(p2);
  let (x, y) = (sx(h, e, n, cur, k, ex), sx(h, e, n, cur, k + 1, ex));
  if k + 3 <= cur { assert(el(h, n, k + 3, k) == 0real && el(h, n, k + 3, k + 1) == 0real); }
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] x(r, c) == y(r, c) by { }
  ms_ext(a, vd, vd, x, y, n, n, w, w, fr * fr);
}
proof fn rows_kept(h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, h2: Seq<E>, n: int, cur: int, k: int, f: Rf)
  requires ref3(f, n, cur, k), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), rap(h1, h2, n, k, lastrow(cur, k), 0, f.h, f.t),
  ensures forall|r: int, c: int| cur + 1 <= r < n && 0 <= c < n ==> #[trigger] el(h2, n, r, c) == el(h0, n, r, c),
{
  assert forall|r: int, c: int| cur + 1 <= r < n && 0 <= c < n implies #[trigger] el(h2, n, r, c) == el(h0, n, r, c) by {
    assert(el(h2, n, r, c) == el(h1, n, r, c));
    let s = f.t * cs(f.h, hw, n, c, k, n);
    assert((f.h)(r) == 0real);
    assert(s * 0real == 0real) by (nonlinear_arith);
    assert(el(h1, n, r, c) == el(hw, n, r, c)); assert(el(hw, n, r, c) == el(h0, n, r, c));
  }
}
pub proof fn p2_mid(a: Mt, v0: Seq<E>, v2: Seq<E>, h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, h2: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, ex: real, w: real, fr: real, f: Rf)
  requires
    p2(a, v0, h0, d, e, n, cur, k, k, ex, w, fr), 1 <= k, ref3(f, n, cur, k), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), rap(h1, h2, n, k, lastrow(cur, k), 0, f.h, f.t), rap(v0, v2, n, k, n, 0, f.h, f.t),
    ({ let g = el(hw, n, k, k - 1); el(h0, n, k, k - 1) == kc0(g, f, k) && el(h0, n, k + 1, k - 1) == kc(g, f, k + 1) && (k + 2 <= cur ==> el(h0, n, k + 2, k - 1) == kc(g, f, k + 2)) }),
  ensures p2(a, v2, h2, d, e, n, cur, k + 1, k + 1, ex, w, fr),
{
  reveal(p2);
  let g = el(hw, n, k, k - 1);
  let (x, y) = (sx(h0, e, n, cur, k, ex), madd(sxk(h0, e, n, cur, k, k, g, f), ej(ex, cur)));
  assert(f.t * g * 1real == f.t * g && g * 1real == g && g * 0real == 0real && (f.t * g) * 0real == 0real) by (nonlinear_arith);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] x(r, c) == y(r, c) by {
    if c == k - 1 && k <= r <= k + 2 {
      let (tg, b) = (f.t * g, (f.h)(r));
      assert(-tg * b == -(tg * b)) by (nonlinear_arith);
    }
  }
  ms_ext(a, v0, v0, x, y, n, n, w, w, fr * fr);
  sweep_step(a, v0, v2, h0, hw, h1, h2, e, n, cur, k, k, ex, w, fr * fr, f);
  rows_kept(h0, hw, h1, h2, n, cur, k, f);
  evs_keep(h0, d, e, h2, d, e, n, cur + 1);
}
pub proof fn p2_first(a: Mt, v0: Seq<E>, v2: Seq<E>, h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, h2: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, ex: real, w: real, fr: real, f: Rf, t: real)
  requires
    p2(a, v0, h0, d, e, n, cur, k, cur, ex, w, fr), k + 2 <= cur, ref3(f, n, cur, k), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), rap(h1, h2, n, k, lastrow(cur, k), 0, f.h, f.t), rap(v0, v2, n, k, n, 0, f.h, f.t), t >= 0real,
    k > 0 ==> ({ let (g, b) = (el(hw, n, k, k - 1), el(h0, n, k, k - 1)); let (c0, c1, c2) = (kc0(g, f, k), kc(g, f, k + 1), kc(g, f, k + 2));
      b * b == c0 * c0 + c1 * c1 + c2 * c2 && rabs(b - c0) + rabs(c1) + rabs(c2) <= t }),
  ensures p2(a, v2, h2, d, e, n, cur, k + 1, k + 1, ex, w + t, fr),
{
  reveal(p2);
  let (g, b) = (el(hw, n, k, k - 1), el(h0, n, k, k - 1));
  let (c0, c1, c2) = (kc0(g, f, k), kc(g, f, k + 1), kc(g, f, k + 2));
  let x = sx(h0, e, n, cur, cur, ex);
  let y = madd(sxk(h0, e, n, cur, k, cur, g, f), ej(ex, cur));
  assert(f.t * g * 1real == f.t * g && g * 1real == g && g * 0real == 0real && (f.t * g) * 0real == 0real) by (nonlinear_arith);
  let x0 = |r: int, c: int| if r == k && c == k - 1 { c0 } else { x(r, c) };
  let x1 = |r: int, c: int| if r == k + 1 && c == k - 1 { c1 } else { x0(r, c) };
  let x2 = |r: int, c: int| if r == k + 2 && c == k - 1 { c2 } else { x1(r, c) };
  let f2 = fr * fr;
  if k > 0 {
    let (t0, t1, t2) = (rabs(b - c0), rabs(c1), rabs(c2));
    assert(x(k, k - 1) == b + 0real);
    let g0 = f2 - b * b + c0 * c0;
    ms_change(a, v0, v0, x, x0, n, n, w, f2, k, k - 1, t0, g0);
    assert(x0(k + 1, k - 1) == 0real); assert(x1(k + 2, k - 1) == 0real);
    assert(0real * 0real == 0real);
    let g1 = g0 + c1 * c1;
    ms_change(a, v0, v0, x0, x1, n, n, w + t0, g0, k + 1, k - 1, t1, g1);
    ms_change(a, v0, v0, x1, x2, n, n, w + t0 + t1, g1, k + 2, k - 1, t2, f2);
    ms_ext(a, v0, v0, x2, x2, n, n, w + t0 + t1 + t2, w + t, f2);
  } else { ms_ext(a, v0, v0, x, x2, n, n, w, w + t, f2); }
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] x2(r, c) == y(r, c) by {
    if c == k - 1 && k <= r <= k + 2 {
      let (tg, b) = (f.t * g, (f.h)(r));
      assert(-tg * b == -(tg * b)) by (nonlinear_arith);
    }
  }
  ms_ext(a, v0, v0, x2, y, n, n, w + t, w + t, f2);
  sweep_step(a, v0, v2, h0, hw, h1, h2, e, n, cur, k, cur, ex, w + t, f2, f);
  rows_kept(h0, hw, h1, h2, n, cur, k, f);
  evs_keep(h0, d, e, h2, d, e, n, cur + 1);
}
// ---- what is thrown away
pub open spec fn sdt(ep: real, fr: real, nm: real) -> real { ep * (6real * fr + nm + ep * nm) }
pub open spec fn dlt(ep: real, fr: real, nm: real) -> real { 27real * (ep * fr) + 4real * sdt(ep, fr, nm) }
pub proof fn sdt_le(ep: real, fr: real, nm: real, s: real, b: real)
  requires ep > 0real, fr >= 0real, nm >= 0real, s <= 6real * fr + nm, b <= ep * (s + ep * nm),
  ensures b <= sdt(ep, fr, nm), 0real <= sdt(ep, fr, nm) <= dlt(ep, fr, nm), 4real * sdt(ep, fr, nm) <= dlt(ep, fr, nm), 27real * (ep * fr) <= dlt(ep, fr, nm),
{
  let en = ep * nm;
  assert(en >= 0real) by (nonlinear_arith) requires en == ep * nm, ep > 0real, nm >= 0real;
  let (x, y) = (s + en, 6real * fr + nm + en);
  assert(ep * x <= ep * y) by (nonlinear_arith) requires ep > 0real, x <= y;
  assert(ep * y >= 0real) by (nonlinear_arith) requires ep > 0real, y >= 0real;
  assert(ep * fr >= 0real) by (nonlinear_arith) requires ep > 0real, fr >= 0real;
}
proof fn abs_sq(x: real, h: real)
  requires x * x <= h * h,
  ensures rabs(x) <= rabs(h),
{
  let t = rabs(h);
  assert(t * t == h * h) by (nonlinear_arith) requires t == h || t == -h;
  root_le(x, t);
}
proof fn first_sq(h: real, p: real, q: real, r: real, s: real, g: real, ps: real, y: real, z: real)
  requires s * s == p * p + q * q + r * r, s != 0real, ps == p / s, y == q / s, z == r / s, g == h || g == -h,
  ensures h * h == (ps * g) * (ps * g) + (y * g) * (y * g) + (z * g) * (z * g), ps * s == p, y * s == q, z * s == r,
{
  assert(ps * s == p) by (nonlinear_arith) requires ps == p / s, s != 0real;
  assert(y * s == q) by (nonlinear_arith) requires y == q / s, s != 0real;
  assert(z * s == r) by (nonlinear_arith) requires z == r / s, s != 0real;
  sqk(ps, ps, s, p, p); sqk(y, y, s, q, q); sqk(z, z, s, r, r);
  let (a, b, c, ss, gg) = (ps * ps, y * y, z * z, s * s, g * g);
  assert((a + b + c) * ss == a * ss + b * ss + c * ss) by (nonlinear_arith);
  assert(ss > 0real) by (nonlinear_arith) requires ss == s * s, s != 0real;
  assert((a + b + c - 1real) * ss == (a + b + c) * ss - ss) by (nonlinear_arith);
  zero_of(a + b + c - 1real, ss);
  assert((a + b + c) * gg == a * gg + b * gg + c * gg) by (nonlinear_arith);
  assert(1real * gg == gg) by (nonlinear_arith);
  assert(h * h == gg) by (nonlinear_arith) requires g == h || g == -h, gg == g * g;
  asc2(ps, g); asc2(y, g); asc2(z, g);
}
proof fn asc2(p: real, g: real)
  ensures (p * g) * (p * g) == (p * p) * (g * g),
{ assert((p * g) * (p * g) == (p * p) * (g * g)) by (nonlinear_arith); }
// the first reflection of a sweep: the change of the column to the left
pub proof fn col_first(h: real, g: real, p: real, q: real, r: real, s: real, x: real, y: real, z: real, q2: real, r2: real, k: int, kk: real, t: real, th: real)
  requires
    s * s == p * p + q * q + r * r, s != 0real, p * s >= 0real, 1real - x == -(p / s), y == q / s, z == r / s, y == x * q2, z == x * r2,
    (g == h && rabs(h) <= th) || (g == -h && rabs(h) * (rabs(q) + rabs(r)) <= kk * rabs(p)), kk >= 0real, 4real * th <= t, 3real * kk <= t,
  ensures
    ({ let f = f3(k, q2, r2, x); let (c0, c1, c2) = (kc0(g, f, k), kc(g, f, k + 1), kc(g, f, k + 2));
      h * h == c0 * c0 + c1 * c1 + c2 * c2 && rabs(h - c0) + rabs(c1) + rabs(c2) <= t }),
{
  let f = f3(k, q2, r2, x);
  let (c0, c1, c2) = (kc0(g, f, k), kc(g, f, k + 1), kc(g, f, k + 2));
  let ps = p / s;
  first_sq(h, p, q, r, s, g, ps, y, z);
  assert(g - x * g == (1real - x) * g) by (nonlinear_arith);
  assert((-ps) * g == -(ps * g)) by (nonlinear_arith);
  let xg = x * g;
  assert(-xg * q2 == -((x * q2) * g)) by (nonlinear_arith) requires xg == x * g;
  assert(-xg * r2 == -((x * r2) * g)) by (nonlinear_arith) requires xg == x * g;
  assert(c0 == -(ps * g) && c1 == -(y * g) && c2 == -(z * g));
  let (a0, a1, a2) = (ps * g, y * g, z * g);
  assert((-a0) * (-a0) == a0 * a0 && (-a1) * (-a1) == a1 * a1 && (-a2) * (-a2) == a2 * a2) by (nonlinear_arith);
  assert(a0 * a0 >= 0real && a1 * a1 >= 0real && a2 * a2 >= 0real) by (nonlinear_arith);
  if g == h && rabs(h) <= th {
    abs_sq(c0, h); abs_sq(c1, h); abs_sq(c2, h);
  } else {
    // times |s|
    let (ap, aq, ar, sa, ah) = (rabs(p), rabs(q), rabs(r), rabs(s), rabs(h));
    assert(q * q >= 0real && r * r >= 0real) by (nonlinear_arith);
    abs_sq(p, s);
    assert(sa * sa == s * s) by (nonlinear_arith) requires sa == s || sa == -s;
    assert(ap * ap == p * p && aq * aq == q * q && ar * ar == r * r) by (nonlinear_arith) requires ap == p || ap == -p, aq == q || aq == -q, ar == r || ar == -r;
    let b = ap + aq + ar;
    assert(sa * sa <= b * b) by (nonlinear_arith) requires sa * sa == ap * ap + aq * aq + ar * ar, b == ap + aq + ar, ap >= 0real, aq >= 0real, ar >= 0real;
    root_le(sa, b);
    // |s - p| <= |q| + |r|
    assert(rabs(s - p) == sa - ap) by {
      if s > 0real { assert(p >= 0real) by (nonlinear_arith) requires p * s >= 0real, s > 0real; } else { assert(p <= 0real) by (nonlinear_arith) requires p * s >= 0real, s < 0real; }
    }
    let w = aq + ar;
    assert(ah * (sa - ap) <= ah * w) by (nonlinear_arith) requires sa - ap <= w, ah >= 0real;
    assert(kk * ap <= kk * sa) by (nonlinear_arith) requires kk >= 0real, ap <= sa;
    assert(ah * aq <= ah * w && ah * ar <= ah * w) by (nonlinear_arith) requires ah >= 0real, aq <= w, ar <= w;
    let e = h - c0;
    assert(e * s == h * (s - p)) by { assert(c0 == ps * h) by (nonlinear_arith) requires c0 == -(ps * g), g == -h; assert((h - ps * h) * s == h * (s - ps * s)) by (nonlinear_arith); }
    abs_mul(e, s); abs_mul(h, s - p);
    le_of(rabs(e), kk, sa);
    assert(c1 * s == h * q) by (nonlinear_arith) requires c1 == -(y * g), g == -h, y * s == q;
    assert(c2 * s == h * r) by (nonlinear_arith) requires c2 == -(z * g), g == -h, z * s == r;
    abs_mul(c1, s); abs_mul(h, q); abs_mul(c2, s); abs_mul(h, r);
    le_of(rabs(c1), kk, sa); le_of(rabs(c2), kk, sa);
  }
}
proof fn le_of(x: real, k: real, s: real)
  requires x * s <= k * s, s > 0real,
  ensures x <= k,
{ assert(x <= k) by (nonlinear_arith) requires x * s <= k * s, s > 0real; }
// the test for two consecutive small entries
pub proof fn small_two(ah: real, w: real, ap: real, ep: real, d: real, fr: real)
  requires ah * w < ep * (ap * d), ap >= 0real, d <= 9real * fr, ep > 0real,
  ensures ah * w <= (9real * (ep * fr)) * ap,
{
  assert(ap * d <= ap * (9real * fr)) by (nonlinear_arith) requires ap >= 0real, d <= 9real * fr;
  let (x, y) = (ap * d, ap * (9real * fr));
  assert(ep * x <= ep * y) by (nonlinear_arith) requires x <= y, ep > 0real;
  assert(ep * (ap * (9real * fr)) == (9real * (ep * fr)) * ap) by (nonlinear_arith);
}
// normalised by the sum of the magnitudes
pub proof fn normed(p: real, q: real, r: real, s: real, p2: real, q2: real, r2: real)
  requires s == rabs(p) + rabs(q) + rabs(r), s != 0real, p2 == p / s, q2 == q / s, r2 == r / s,
  ensures p2 * p2 + q2 * q2 + r2 * r2 > 0real, r == 0real ==> r2 == 0real,
{
  assert(p2 * s == p) by (nonlinear_arith) requires p2 == p / s, s != 0real;
  assert(q2 * s == q) by (nonlinear_arith) requires q2 == q / s, s != 0real;
  assert(r2 * s == r) by (nonlinear_arith) requires r2 == r / s, s != 0real;
  if r == 0real { zero_of(r2, s); }
  assert(p2 * p2 >= 0real && q2 * q2 >= 0real && r2 * r2 >= 0real) by (nonlinear_arith);
  if p2 * p2 + q2 * q2 + r2 * r2 == 0real {
    assert(p2 == 0real) by (nonlinear_arith) requires p2 * p2 == 0real;
    assert(q2 == 0real) by (nonlinear_arith) requires q2 * q2 == 0real;
    assert(r2 == 0real) by (nonlinear_arith) requires r2 * r2 == 0real;
    assert(0real * s == 0real) by (nonlinear_arith);
  }
}
pub proof fn sgn_root(x: real, p: real, s: real)
  requires x > 0real, s == (if p < 0real { -rsqrt(x) } else { rsqrt(x) }),
  ensures s != 0real, s * s == x, p * s >= 0real,
{
  root_of(x, rsqrt(x));
  let a = rsqrt(x);
  if p < 0real { assert(p * (-a) >= 0real) by (nonlinear_arith) requires p < 0real, a > 0real; } else { assert(p * a >= 0real) by (nonlinear_arith) requires p >= 0real, a > 0real; }
}
// one row of a column rotation, as the code writes it
pub proof fn rotc_step(d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, m: int, i: int, k: int, q: real, p: real, x: E, y: E)
  requires
    rotd(d0, d1, m, i, k - 1, k, q, p), d0.len() == m * m, 0 <= i < m, 1 <= k < m, d2 =~= d1.update(i * m + (k - 1), x).update(i * m + k, y),
    v(x) == q * el(d1, m, i, k - 1) + p * el(d1, m, i, k), v(y) == q * el(d1, m, i, k) - p * el(d1, m, i, k - 1),
  ensures rotd(d0, d2, m, i + 1, k - 1, k, q, p),
{
  let z = el(d1, m, i, k - 1);
  assert((-p) * z == -(p * z)) by (nonlinear_arith);
  assert(d2 =~= d1.update(i * m + k, y).update(i * m + (k - 1), x));
  rotd_step(d0, d1, d2, m, i, k - 1, k, q, p, x, y);
}
pub proof fn thr_ge(ep: real, x: real, s: real)
  requires ep > 0real, x >= 0real, s >= 0real,
  ensures ep * (s + ep * x) >= 0real,
{
  let a = ep * x;
  assert(a >= 0real) by (nonlinear_arith) requires a == ep * x, ep > 0real, x >= 0real;
  let b = s + a;
  assert(ep * b >= 0real) by (nonlinear_arith) requires ep > 0real, b >= 0real;
}
pub proof fn sdt_le2(ep: real, fr: real, nm: real, x: real, s: real, b: real)
  requires ep > 0real, fr >= 0real, 0real <= x <= nm, s <= 6real * fr + nm, b <= ep * (s + ep * x),
  ensures b <= sdt(ep, fr, nm), 0real <= sdt(ep, fr, nm) <= dlt(ep, fr, nm), 4real * sdt(ep, fr, nm) <= dlt(ep, fr, nm), 27real * (ep * fr) <= dlt(ep, fr, nm),
{
  let (a, c) = (ep * x, ep * nm);
  assert(a <= c) by (nonlinear_arith) requires a == ep * x, c == ep * nm, ep > 0real, x <= nm;
  let (g, h) = (s + a, s + c);
  assert(ep * g <= ep * h) by (nonlinear_arith) requires g <= h, ep > 0real;
  sdt_le(ep, fr, nm, s, b);
}
} // mod
pub use scm::*;
