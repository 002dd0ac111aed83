// ---------------------------------------------------------------- nonsymmetric eigenproblem: reduction to Hessenberg form
pub mod hsm {
use super::*;
// columns below k are reduced: zero below the subdiagonal (where the buffer keeps the reflections)
pub open spec fn hm(d: Seq<E>, n: int, k: int) -> Mt { |r: int, c: int| if c < k && r > c + 1 { 0real } else { el(d, n, r, c) } }
pub open spec fn hess(d: Seq<E>, n: int) -> Mt { |r: int, c: int| if r > c + 1 { 0real } else { el(d, n, r, c) } }
// partial dot products of a reflection vector with a column, with a row
pub open spec fn cs(u: Vc, d: Seq<E>, n: int, j: int, lo: int, hi: int) -> real { sum(|t: int| u(t) * el(d, n, t, j), lo, hi) }
pub open spec fn rs(u: Vc, d: Seq<E>, n: int, i: int, lo: int, hi: int) -> real { sum(|t: int| u(t) * el(d, n, i, t), lo, hi) }
pub proof fn cs_first(u: Vc, d: Seq<E>, n: int, j: int, lo: int, hi: int)
  requires lo < hi,
  ensures cs(u, d, n, j, lo, hi) == u(lo) * el(d, n, lo, j) + cs(u, d, n, j, lo + 1, hi),
{ sum_first(|t: int| u(t) * el(d, n, t, j), lo, hi); }
pub proof fn rs_first(u: Vc, d: Seq<E>, n: int, i: int, lo: int, hi: int)
  requires lo < hi,
  ensures rs(u, d, n, i, lo, hi) == u(lo) * el(d, n, i, lo) + rs(u, d, n, i, lo + 1, hi),
{ sum_first(|t: int| u(t) * el(d, n, i, t), lo, hi); }
pub proof fn cs_dot(u: Vc, d: Seq<E>, n: int, j: int, lo: int)
  requires 0 <= lo <= n, zero_above(u, lo),
  ensures vdot(u, colof(elm(d, n), j), n) == cs(u, d, n, j, lo, n),
{
  let x = colof(elm(d, n), j);
  dot_tail(u, x, lo, n);
  sum_ext(|t: int| u(t) * x(t), |t: int| u(t) * el(d, n, t, j), lo, n);
}
pub proof fn rs_dot(u: Vc, d: Seq<E>, n: int, i: int, lo: int)
  requires 0 <= lo <= n, zero_above(u, lo),
  ensures vdot(u, colof(tr(elm(d, n)), i), n) == rs(u, d, n, i, lo, n),
{
  let x = colof(tr(elm(d, n)), i);
  dot_tail(u, x, lo, n);
  sum_ext(|t: int| u(t) * x(t), |t: int| u(t) * el(d, n, i, t), lo, n);
}
pub proof fn cs_ext(u: Vc, d: Seq<E>, d2: Seq<E>, n: int, j: int, lo: int, hi: int)
  requires forall|t: int| lo <= t < hi ==> #[trigger] el(d2, n, t, j) == el(d, n, t, j),
  ensures cs(u, d2, n, j, lo, hi) == cs(u, d, n, j, lo, hi),
{
  let (f, g) = (|t: int| u(t) * el(d2, n, t, j), |t: int| u(t) * el(d, n, t, j));
  assert forall|t: int| lo <= t < hi implies #[trigger] f(t) == g(t) by { assert(el(d2, n, t, j) == el(d, n, t, j)); }
  sum_ext(f, g, lo, hi);
}
// the reflection (u, tau) applied to the columns from m on: columns < j, and rows < i of column j, are done
pub open spec fn lap(d0: Seq<E>, dk: Seq<E>, n: int, m: int, j: int, i: int, u: Vc, tau: real) -> bool {
  dk.len() == d0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) ==
    if r >= m && c >= m && (c < j || (c == j && r < i)) { el(d0, n, r, c) - (tau * cs(u, d0, n, c, m, n)) * u(r) } else { el(d0, n, r, c) }
}
pub proof fn lap_step(d0: Seq<E>, dk: Seq<E>, n: int, m: int, j: int, i: int, u: Vc, tau: real, x: E)
  requires lap(d0, dk, n, m, j, i, u, tau), d0.len() == n * n, 0 <= m <= j < n, m <= i < n, v(x) == el(dk, n, i, j) - (tau * cs(u, d0, n, j, m, n)) * u(i),
  ensures lap(d0, dk.update(i * n + j, x), n, m, j, i + 1, u, tau),
{ el_update(dk, n, n, i, j, x); assert(el(dk, n, i, j) == el(d0, n, i, j)); }
pub proof fn lap_next(d0: Seq<E>, dk: Seq<E>, n: int, m: int, j: int, u: Vc, tau: real)
  requires lap(d0, dk, n, m, j, n, u, tau),
  ensures lap(d0, dk, n, m, j + 1, m, u, tau),
{ }
pub open spec fn rap(d0: Seq<E>, dk: Seq<E>, n: int, m: int, i: int, j: int, u: Vc, tau: real) -> bool {
  dk.len() == d0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) ==
    if c >= m && (r < i || (r == i && c < j)) { el(d0, n, r, c) - (tau * rs(u, d0, n, r, m, n)) * u(c) } else { el(d0, n, r, c) }
}
pub proof fn rap_step(d0: Seq<E>, dk: Seq<E>, n: int, m: int, i: int, j: int, u: Vc, tau: real, x: E)
  requires rap(d0, dk, n, m, i, j, u, tau), d0.len() == n * n, 0 <= m <= j < n, 0 <= i < n, v(x) == el(dk, n, i, j) - (tau * rs(u, d0, n, i, m, n)) * u(j),
  ensures rap(d0, dk.update(i * n + j, x), n, m, i, j + 1, u, tau),
{ el_update(dk, n, n, i, j, x); assert(el(dk, n, i, j) == el(d0, n, i, j)); }
// f/h*u with tau = 1/h
pub proof fn by_recip(s: real, hv: real, u: real)
  requires hv != 0real,
  ensures (s / hv) * u == ((1real / hv) * s) * u,
{ assert(s / hv == (1real / hv) * s) by (nonlinear_arith) requires hv != 0real; }
// the squares of a column, against the sum of its magnitudes
pub open spec fn cabs(d: Seq<E>, n: int, j: int, lo: int, hi: int) -> real { sum(|t: int| rabs(el(d, n, t, j)), lo, hi) }
pub open spec fn csqs(d: Seq<E>, n: int, j: int, sc: real, lo: int, hi: int) -> real { sum(|t: int| (el(d, n, t, j) / sc) * (el(d, n, t, j) / sc), lo, hi) }
pub proof fn csqs_first(d: Seq<E>, n: int, j: int, sc: real, lo: int, hi: int)
  requires lo < hi,
  ensures csqs(d, n, j, sc, lo, hi) == (el(d, n, lo, j) / sc) * (el(d, n, lo, j) / sc) + csqs(d, n, j, sc, lo + 1, hi),
{ sum_first(|t: int| (el(d, n, t, j) / sc) * (el(d, n, t, j) / sc), lo, hi); }
pub proof fn sq_abs(f: spec_fn(int) -> real, lo: int, hi: int)
  ensures sum(|t: int| f(t) * f(t), lo, hi) <= sum(|t: int| rabs(f(t)), lo, hi) * sum(|t: int| rabs(f(t)), lo, hi), sum(|t: int| rabs(f(t)), lo, hi) >= 0real,
  decreases hi - lo,
{
  let a = |t: int| rabs(f(t));
  let q = |t: int| f(t) * f(t);
  if hi > lo {
    sq_abs(f, lo, hi - 1);
    let (s, y) = (sum(a, lo, hi - 1), rabs(f(hi - 1)));
    let z = f(hi - 1);
    assert(z * z == y * y) by (nonlinear_arith) requires y == z || y == -z;
    assert((s + y) * (s + y) >= s * s + y * y) by (nonlinear_arith) requires s >= 0real, y >= 0real;
  } else { assert(0real * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn abs_zero(f: spec_fn(int) -> real, lo: int, hi: int)
  requires sum(|t: int| rabs(f(t)), lo, hi) != 0real,
  ensures exists|t: int| lo <= t < hi && #[trigger] f(t) != 0real,
{
  if forall|t: int| lo <= t < hi ==> #[trigger] f(t) == 0real { sum_zero(|t: int| rabs(f(t)), lo, hi); }
}
pub proof fn csqs_pos(d: Seq<E>, n: int, j: int, sc: real, lo: int)
  requires sc > 0real, cabs(d, n, j, lo, n) != 0real, 0 <= lo <= n,
  ensures csqs(d, n, j, sc, lo, n) > 0real,
{
  let x = |t: int| el(d, n, t, j);
  sum_ext(|t: int| rabs(x(t)), |t: int| rabs(el(d, n, t, j)), lo, n);
  abs_zero(x, lo, n);
  let i = choose|t: int| lo <= t < n && #[trigger] x(t) != 0real;
  let f = |t: int| (el(d, n, t, j) / sc) * (el(d, n, t, j) / sc);
  assert forall|t: int| lo <= t < n implies #[trigger] f(t) >= 0real by { let z = el(d, n, t, j) / sc; assert(z * z >= 0real) by (nonlinear_arith); }
  sum_pos(f, lo, n, i);
  let y = el(d, n, i, j);
  let z = y / sc;
  assert(z != 0real) by (nonlinear_arith) requires y != 0real, sc > 0real, z == y / sc;
  assert(z * z > 0real) by (nonlinear_arith) requires z != 0real;
}
// ---- the reflections, as they stay in the buffer
pub open spec fn hvq(o: Seq<E>, d: Seq<E>, n: int, q: int) -> Vc { |t: int| if t <= q { 0real } else if t == q + 1 { v(o[t]) } else { el(d, n, t, q) } }
pub open spec fn hsd1(f: Rf, o: Seq<E>, d: Seq<E>, n: int, q: int) -> bool {
  &&& zero_above(f.h, q + 1)
  &&& if el(d, n, q + 1, q) == 0real { f.t == 0real } else { v(o[q + 1]) != 0real && veq(f.h, hvq(o, d, n, q), n) && f.t == -1real / (v(o[q + 1]) * el(d, n, q + 1, q)) }
}
#[verifier::opaque]
pub open spec fn hsd(fs: Seq<Rf>, o: Seq<E>, d: Seq<E>, n: int, k: int) -> bool { forall|q: int| 0 <= q < k ==> hsd1(#[trigger] fs[q], o, d, n, q) }
pub open spec fn hst(a: Mt, fs: Seq<Rf>, o: Seq<E>, d: Seq<E>, n: int, k: int, f2: real) -> bool {
  &&& 0 <= k && d.len() == n * n && o.len() == n && fs.len() == k
  &&& ph(a, fs, fs, n, n, k, hm(d, n, k), (2 * k) as real * tiny0(), f2)
  &&& hsd(fs, o, d, n, k)
}
pub proof fn hst_start(a: Mt, o: Seq<E>, d: Seq<E>, n: int)
  requires d.len() == n * n, o.len() == n, meq(a, elm(d, n), n, n),
  ensures hst(a, Seq::<Rf>::empty(), o, d, n, 0, fro2(a, n, n)),
{
  reveal(hsd);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] a(r, c) == hm(d, n, 0)(r, c) by { assert(a(r, c) == elm(d, n)(r, c)); }
  ph_start(a, n, n, hm(d, n, 0));
  let z = tiny0();
  assert(0real * z == 0real) by (nonlinear_arith);
}
// the negligible column
pub open spec fn zdown(d0: Seq<E>, dk: Seq<E>, n: int, m: int, i: int) -> bool {
  dk.len() == d0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) == if c == m - 1 && m <= r < i { 0real } else { el(d0, n, r, c) }
}
pub proof fn zdown_step(d0: Seq<E>, dk: Seq<E>, n: int, m: int, i: int, x: E)
  requires zdown(d0, dk, n, m, i), d0.len() == n * n, 1 <= m <= i < n, v(x) == 0real,
  ensures zdown(d0, dk.update(i * n + (m - 1), x), n, m, i + 1),
{ el_update(dk, n, n, i, m - 1, x); }
// one column done
pub proof fn hst_next(a: Mt, fs: Seq<Rf>, o: Seq<E>, o2: Seq<E>, d: Seq<E>, d2: Seq<E>, n: int, m: int, f2: real, x1: Mt, f: Rf)
  requires
    hst(a, fs, o, d, n, m - 1, f2), 1 <= m < n, d2.len() == n * n, o2.len() == n,
    smaller(x1, hm(d, n, m - 1), n, n), fro2(msub(hm(d, n, m - 1), x1), n, n) <= tiny0() * tiny0(),
    is_refl(f.h, f.t, n), meq(rr(f, n, lr(f, n, x1)), hm(d2, n, m), n, n),
    hsd1(f, o2, d2, n, m - 1),
    forall|q: int| 0 <= q < m ==> #[trigger] o2[q] == o[q],
    forall|r: int, c: int| 0 <= r < n && 0 <= c < m - 1 ==> #[trigger] el(d2, n, r, c) == el(d, n, r, c),
  ensures hst(a, fs.push(f), o2, d2, n, m, f2),
{
  reveal(hsd);
  let k = m - 1;
  let y = lr(f, n, x1);
  tiny_nonneg();
  uncut_small(y, n, n, tiny0());
  ph_step(a, fs, fs, n, n, k, hm(d, n, k), x1, y, y, hm(d2, n, m), f, f, (2 * k) as real * tiny0(), tiny0(), f2);
  twice_more_t(k, tiny0());
  let gs = fs.push(f);
  assert forall|q: int| 0 <= q < m implies hsd1(#[trigger] gs[q], o2, d2, n, q) by {
    if q < k {
      assert(gs[q] == fs[q]);
      assert(hsd1(fs[q], o, d, n, q));
      assert(el(d2, n, q + 1, q) == el(d, n, q + 1, q));
      assert(o2[q + 1] == o[q + 1]);
      let h = gs[q].h;
      if el(d, n, q + 1, q) != 0real {
        assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == hvq(o2, d2, n, q)(t) by { assert(h(t) == hvq(o, d, n, q)(t)); assert(el(d2, n, t, q) == el(d, n, t, q)); }
      }
    }
  }
}
pub proof fn twice_more_t(k: int, t: real)
  ensures (2 * k) as real * t + t + t == (2 * (k + 1)) as real * t,
{
  let (x, y) = ((2 * k) as real, (2 * (k + 1)) as real);
  assert(y * t == x * t + t + t) by (nonlinear_arith) requires y == x + 2real;
}
// the reflection of the masked matrix: what the two loops leave in the buffer
pub proof fn hes_two(x1: Mt, d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, d3: Seq<E>, n: int, m: int, u: Vc, tau: real, top: real)
  requires
    1 <= m < n, zero_above(u, m), d0.len() == n * n, d1.len() == n * n, d2.len() == n * n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n && c != m - 1 ==> #[trigger] x1(r, c) == hm(d0, n, m - 1)(r, c),
    forall|t: int| 0 <= t < n ==> #[trigger] refl(u, tau, n, colof(x1, m - 1))(t) == if t < m { el(d0, n, t, m - 1) } else if t == m { top } else { 0real },
    lap(d0, d1, n, m, n, m, u, tau), rap(d1, d2, n, m, n, 0, u, tau),
    d3.len() == d2.len(),
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(d3, n, r, c) == if r == m && c == m - 1 { top } else { el(d2, n, r, c) },
  ensures meq(rr(Rf { h: u, t: tau }, n, lr(Rf { h: u, t: tau }, n, x1)), hm(d3, n, m), n, n),
{
  let f = Rf { h: u, t: tau };
  let y = lr(f, n, x1);
  let y1 = hm(d1.update(m * n + (m - 1), er(top)), n, m);
  el_update(d1, n, n, m, m - 1, er(top));
  let k = m - 1;
  let e0 = elm(d0, n);
  let e1 = elm(d1, n);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] y(r, c) == y1(r, c) by {
    let x = colof(x1, c);
    assert(el(d1, n, r, c) == if r >= m && c >= m { el(d0, n, r, c) - (tau * cs(u, d0, n, c, m, n)) * u(r) } else { el(d0, n, r, c) });
    if c == k {
      assert(refl(u, tau, n, colof(x1, m - 1))(r) == if r < m { el(d0, n, r, m - 1) } else if r == m { top } else { 0real });
    } else if c < k {
      assert forall|t: int| m <= t < n implies #[trigger] x(t) == 0real by { assert(x1(t, c) == hm(d0, n, m - 1)(t, c)); }
      refl_disjoint(u, tau, n, x, m);
      assert(refl(u, tau, n, x)(r) == x(r));
      assert(x1(r, c) == hm(d0, n, m - 1)(r, c));
    } else {
      assert forall|t: int| 0 <= t < n implies #[trigger] x(t) == colof(e0, c)(t) by { assert(x1(t, c) == hm(d0, n, m - 1)(t, c)); }
      dot_ext(u, u, x, colof(e0, c), n);
      cs_dot(u, d0, n, c, m);
      assert(x(r) == el(d0, n, r, c));
      if r < m { refl_off(u, tau, n, x, r); }
    }
  }
  rr_ext(f, n, n, y, y1);
  let z = hm(d3, n, m);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] rr(f, n, y)(r, c) == z(r, c) by {
    assert(rr(f, n, y)(r, c) == rr(f, n, y1)(r, c));
    let x = colof(tr(y1), r);
    assert(el(d2, n, r, c) == if c >= m { el(d1, n, r, c) - (tau * rs(u, d1, n, r, m, n)) * u(c) } else { el(d1, n, r, c) });
    assert(el(d3, n, r, c) == if r == m && c == m - 1 { top } else { el(d2, n, r, c) });
    if c < m {
      refl_off(u, tau, n, x, c);
    } else {
      let xe = colof(tr(e1), r);
      dot_tail(u, x, m, n);
      dot_tail(u, xe, m, n);
      let (g1, g2) = (|t: int| u(t) * x(t), |t: int| u(t) * xe(t));
      assert forall|t: int| m <= t < n implies #[trigger] g1(t) == g2(t) by { assert(y1(r, t) == el(d1, n, r, t)); }
      sum_ext(g1, g2, m, n);
      rs_dot(u, d1, n, r, m);
      assert(x(c) == el(d1, n, r, c));
    }
  }
}
// scaling the vector of a reflection
pub proof fn refl_scaled(u: Vc, w: Vc, tau: real, t2: real, sc: real, n: int, x: Vc)
  requires sc != 0real, forall|t: int| 0 <= t < n ==> #[trigger] w(t) == sc * u(t), t2 * (sc * sc) == tau,
  ensures veq(refl(w, t2, n, x), refl(u, tau, n, x), n),
{
  let (f, g) = (|t: int| u(t) * x(t), |t: int| w(t) * x(t));
  assert forall|t: int| 0 <= t < n implies #[trigger] g(t) == sc * f(t) by { let (p, q) = (u(t), x(t)); assert(w(t) == sc * p); assert((sc * p) * q == sc * (p * q)) by (nonlinear_arith); }
  sum_scale(f, g, sc, 0, n);
  let d = vdot(u, x, n);
  assert(vdot(w, x, n) == sc * d);
  assert forall|i: int| 0 <= i < n implies #[trigger] refl(w, t2, n, x)(i) == refl(u, tau, n, x)(i) by {
    let b = u(i);
    assert(w(i) == sc * b);
    let q = sc * sc;
    assert((t2 * (sc * d)) * (sc * b) == (t2 * q) * (d * b)) by (nonlinear_arith) requires q == sc * sc;
    assert((tau * d) * b == tau * (d * b)) by (nonlinear_arith);
  }
}
pub proof fn lr_scaled(u: Vc, w: Vc, tau: real, t2: real, sc: real, n: int, x: Mt)
  requires sc != 0real, forall|t: int| 0 <= t < n ==> #[trigger] w(t) == sc * u(t), t2 * (sc * sc) == tau,
  ensures meq(rr(Rf { h: w, t: t2 }, n, lr(Rf { h: w, t: t2 }, n, x)), rr(Rf { h: u, t: tau }, n, lr(Rf { h: u, t: tau }, n, x)), n, n),
{
  let (fw, fu) = (Rf { h: w, t: t2 }, Rf { h: u, t: tau });
  let (yw, yu) = (lr(fw, n, x), lr(fu, n, x));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] yw(r, c) == yu(r, c) by {
    refl_scaled(u, w, tau, t2, sc, n, colof(x, c));
    assert(refl(w, t2, n, colof(x, c))(r) == refl(u, tau, n, colof(x, c))(r));
  }
  rr_ext(fw, n, n, yw, yu);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] rr(fw, n, yw)(r, c) == rr(fu, n, yu)(r, c) by {
    assert(rr(fw, n, yw)(r, c) == rr(fw, n, yu)(r, c));
    refl_scaled(u, w, tau, t2, sc, n, colof(tr(yu), r));
    assert(refl(w, t2, n, colof(tr(yu), r))(c) == refl(u, tau, n, colof(tr(yu), r))(c));
  }
}
// the Householder vector of column m-1, divided by sc
pub open spec fn uvq(o: Seq<E>, n: int, m: int) -> Vc { |t: int| if m <= t < n { v(o[t]) } else { 0real } }
pub open spec fn ovec(o: Seq<E>, o2: Seq<E>, d: Seq<E>, n: int, m: int, sc: real, i: int) -> bool {
  o2.len() == o.len() && (forall|t: int| i <= t < n ==> v(#[trigger] o2[t]) == el(d, n, t, m - 1) / sc) && (forall|t: int| 0 <= t < i ==> #[trigger] o2[t] == o[t])
}
pub open spec fn hvec_h(o: Seq<E>, d: Seq<E>, n: int, m: int, sc: real, g: real) -> bool {
  forall|t: int| m <= t < n ==> v(#[trigger] o[t]) == if t == m { el(d, n, t, m - 1) / sc - g } else { el(d, n, t, m - 1) / sc }
}
pub proof fn hes_refl(d: Seq<E>, o: Seq<E>, n: int, m: int, sc: real, g: real, hv: real)
  requires
    1 <= m < n, sc > 0real, g * g == csqs(d, n, m - 1, sc, m, n), g != 0real, g * (el(d, n, m, m - 1) / sc) <= 0real, hvec_h(o, d, n, m, sc, g),
    hv == csqs(d, n, m - 1, sc, m, n) - (el(d, n, m, m - 1) / sc) * g,
  ensures
    hv > 0real, v(o[m]) != 0real, hv == -(g * v(o[m])), is_refl(uvq(o, n, m), 1real / hv, n), zero_above(uvq(o, n, m), m),
    forall|t: int| 0 <= t < n ==> #[trigger] refl(uvq(o, n, m), 1real / hv, n, colof(hm(d, n, m - 1), m - 1))(t) == if t < m { el(d, n, t, m - 1) } else if t == m { sc * g } else { 0real },
{
  let x = colof(hm(d, n, m - 1), m - 1);
  let w = |t: int| if t < m { 0real } else { x(t) / sc };
  let h = uvq(o, n, m);
  assert forall|t: int| 0 <= t < m implies #[trigger] w(t) == 0real by { }
  dot_tail(w, w, m, n);
  let (f1, f2) = (|t: int| w(t) * w(t), |t: int| (el(d, n, t, m - 1) / sc) * (el(d, n, t, m - 1) / sc));
  assert forall|t: int| m <= t < n implies #[trigger] f1(t) == f2(t) by { assert(x(t) == el(d, n, t, m - 1)); }
  sum_ext(f1, f2, m, n);
  assert(x(m) == el(d, n, m, m - 1));
  assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == (if t == m { w(t) - g } else { w(t) }) by { if t >= m { assert(x(t) == el(d, n, t, m - 1)); assert(v(o[t]) == if t == m { el(d, n, t, m - 1) / sc - g } else { el(d, n, t, m - 1) / sc }); } }
  house(w, g, m, n, h);
  let tau = 2real / vdot(h, h, n);
  house_col(x, w, sc, g, m, n, h, tau);
  let (gh, wm, hm1) = (g * h(m), w(m), h(m));
  assert(g * (wm - g) == wm * g - g * g) by (nonlinear_arith);
  assert(hv == -gh);
  let hh = vdot(h, h, n);
  assert(1real / hv == -1real / gh) by (nonlinear_arith) requires hv == -gh, hv > 0real;
  assert((2real / hh) * hh == 2real) by (nonlinear_arith) requires hh > 0real;
}
// the whole step, from the buffer's point of view; o: the vector divided by sc, o2: ort after ort[m] has been scaled back
pub proof fn hst_step(a: Mt, fs: Seq<Rf>, o0: Seq<E>, o: Seq<E>, o2: Seq<E>, d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, d3: Seq<E>, n: int, m: int, f2: real, sc: real, g: real, hv: real)
  requires
    hst(a, fs, o0, d0, n, m - 1, f2), 1 <= m < n - 1, sc > 0real, g * g == csqs(d0, n, m - 1, sc, m, n), g != 0real, g * (el(d0, n, m, m - 1) / sc) <= 0real, hvec_h(o, d0, n, m, sc, g),
    hv == csqs(d0, n, m - 1, sc, m, n) - (el(d0, n, m, m - 1) / sc) * g,
    o.len() == n, forall|t: int| 0 <= t < m ==> #[trigger] o[t] == o0[t],
    o2.len() == n, forall|t: int| 0 <= t < n && t != m ==> #[trigger] o2[t] == o[t], v(o2[m]) == sc * v(o[m]),
    lap(d0, d1, n, m, n, m, uvq(o, n, m), 1real / hv), rap(d1, d2, n, m, n, 0, uvq(o, n, m), 1real / hv),
    d3.len() == d2.len(),
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(d3, n, r, c) == if r == m && c == m - 1 { sc * g } else { el(d2, n, r, c) },
  ensures hst(a, fs.push(Rf { h: hvq(o2, d3, n, m - 1), t: -1real / (v(o2[m]) * el(d3, n, m, m - 1)) }), o2, d3, n, m, f2),
{
  let u = uvq(o, n, m);
  let tau = 1real / hv;
  let x1 = hm(d0, n, m - 1);
  hes_refl(d0, o, n, m, sc, g, hv);
  hes_two(x1, d0, d1, d2, d3, n, m, u, tau, sc * g);
  let w = hvq(o2, d3, n, m - 1);
  let om = v(o[m]);
  let (som, sg) = (sc * om, sc * g);
  let q = sc * sc;
  assert(som * sg == -(q * hv)) by (nonlinear_arith) requires som == sc * om, sg == sc * g, q == sc * sc, hv == -(g * om);
  assert(el(d3, n, m, m - 1) == sg);
  assert(q > 0real) by (nonlinear_arith) requires sc > 0real, q == sc * sc;
  let p = q * hv;
  assert(p > 0real) by (nonlinear_arith) requires q > 0real, hv > 0real, p == q * hv;
  let t2 = -1real / (som * sg);
  assert(t2 == 1real / p) by (nonlinear_arith) requires som * sg == -p, p > 0real, t2 == -1real / (som * sg);
  assert(t2 * q == tau) by (nonlinear_arith) requires t2 == 1real / p, p == q * hv, tau == 1real / hv, q > 0real, hv > 0real;
  assert forall|t: int| 0 <= t < n implies #[trigger] w(t) == sc * u(t) by {
    if t < m { assert(sc * 0real == 0real) by (nonlinear_arith); }
    else if t > m {
      assert(el(d3, n, t, m - 1) == el(d2, n, t, m - 1));
      assert(el(d2, n, t, m - 1) == el(d1, n, t, m - 1));
      assert(el(d1, n, t, m - 1) == el(d0, n, t, m - 1));
      let y = el(d0, n, t, m - 1);
      assert(v(o[t]) == y / sc);
      assert(sc * (y / sc) == y) by (nonlinear_arith) requires sc > 0real;
    }
  }
  lr_scaled(u, w, tau, t2, sc, n, x1);
  let f = Rf { h: w, t: t2 };
  let z = rr(f, n, lr(f, n, x1));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] z(r, c) == hm(d3, n, m)(r, c) by {
    assert(z(r, c) == rr(Rf { h: u, t: tau }, n, lr(Rf { h: u, t: tau }, n, x1))(r, c));
  }
  // is_refl
  let (f1, f3) = (|t: int| u(t) * u(t), |t: int| w(t) * w(t));
  assert forall|t: int| 0 <= t < n implies #[trigger] f3(t) == q * f1(t) by { let b = u(t); assert(w(t) == sc * b); assert((sc * b) * (sc * b) == q * (b * b)) by (nonlinear_arith) requires q == sc * sc; }
  sum_scale(f1, f3, q, 0, n);
  let uu = vdot(u, u, n);
  assert(t2 * (q * uu) == (t2 * q) * uu) by (nonlinear_arith);
  assert(tau != 0real) by (nonlinear_arith) requires tau == 1real / hv, hv > 0real;
  assert(is_refl(w, t2, n));
  uncut_small(x1, n, n, tiny0());
  assert(sg != 0real) by (nonlinear_arith) requires sg == sc * g, sc > 0real, g != 0real;
  assert(som != 0real) by (nonlinear_arith) requires som == sc * om, sc > 0real, om != 0real;
  assert(hsd1(f, o2, d3, n, m - 1));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < m - 1 implies #[trigger] el(d3, n, r, c) == el(d0, n, r, c) by {
    assert(el(d2, n, r, c) == el(d1, n, r, c)); assert(el(d1, n, r, c) == el(d0, n, r, c));
  }
  assert forall|t: int| 0 <= t < m implies #[trigger] o2[t] == o0[t] by { assert(o2[t] == o[t]); assert(o[t] == o0[t]); }
  hst_next(a, fs, o0, o2, d0, d3, n, m, f2, x1, f);
}
// a negligible column
pub proof fn hst_skip(a: Mt, fs: Seq<Rf>, o: Seq<E>, d0: Seq<E>, d3: Seq<E>, n: int, m: int, f2: real)
  requires hst(a, fs, o, d0, n, m - 1, f2), 1 <= m < n - 1, cabs(d0, n, m - 1, m, n) <= tiny0(), zdown(d0, d3, n, m, n),
  ensures hst(a, fs.push(Rf { h: zerov(), t: 0real }), o, d3, n, m, f2),
{
  let k = m - 1;
  let x = hm(d0, n, k);
  let x1 = cutc(x, k, m);
  let f = Rf { h: zerov(), t: 0real };
  let y = |t: int| el(d0, n, t, k);
  sq_abs(y, m, n);
  let s = cabs(d0, n, k, m, n);
  sum_ext(|t: int| rabs(y(t)), |t: int| rabs(el(d0, n, t, k)), m, n);
  let (g1, g2) = (|t: int| y(t) * y(t), |t: int| x(t, k) * x(t, k));
  sum_ext(g1, g2, m, n);
  tiny_nonneg();
  let t0 = tiny0();
  assert(s * s <= t0 * t0) by (nonlinear_arith) requires 0real <= s, s <= t0;
  cutc_small(x, n, n, k, m, sum(g2, m, n), t0);
  let z = hm(d3, n, m);
  let l = lr(f, n, x1);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] rr(f, n, l)(r, c) == z(r, c) by {
    refl_off(f.h, 0real, n, colof(x1, c), r);
    refl_off(f.h, 0real, n, colof(tr(l), r), c);
    assert(el(d3, n, r, c) == if c == m - 1 && m <= r < n { 0real } else { el(d0, n, r, c) });
  }
  assert(el(d3, n, m, m - 1) == 0real);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < m - 1 implies #[trigger] el(d3, n, r, c) == el(d0, n, r, c) by { }
  hst_next(a, fs, o, o, d0, d3, n, m, f2, x1, f);
}
// ---- accumulating the reflections
pub open spec fn hacc(fs: Seq<Rf>, o1: Seq<E>, o: Seq<E>, hd: Seq<E>, vd: Seq<E>, n: int, m: int) -> bool {
  &&& vd.len() == n * n && hd.len() == n * n && o.len() == n && o1.len() == n && hsd(fs, o1, hd, n, fs.len() as int) && 0 <= m <= fs.len() && fs.len() <= n
  &&& meq(elm(vd, n), gen(fs, n, m), n, n)
  &&& forall|t: int| 0 <= t <= m && t < n ==> #[trigger] o[t] == o1[t]
}
pub proof fn hacc_start(fs: Seq<Rf>, o: Seq<E>, hd: Seq<E>, vd: Seq<E>, n: int)
  requires vd.len() == n * n, hd.len() == n * n, o.len() == n, hsd(fs, o, hd, n, fs.len() as int), fs.len() <= n, meq(elm(vd, n), idm(), n, n),
  ensures hacc(fs, o, o, hd, vd, n, fs.len() as int),
{ }
// m: the reflection of column m-1 is applied to gen(fs, n, m)
pub proof fn hacc_step(fs: Seq<Rf>, o1: Seq<E>, o: Seq<E>, o2: Seq<E>, hd: Seq<E>, v0: Seq<E>, v1: Seq<E>, n: int, m: int)
  requires
    hacc(fs, o1, o, hd, v0, n, m), 1 <= m < n, o2.len() == n, forall|t: int| 0 <= t <= m ==> #[trigger] o2[t] == o[t],
    el(hd, n, m, m - 1) == 0real ==> v1 == v0,
    el(hd, n, m, m - 1) != 0real ==> (forall|t: int| m < t < n ==> v(#[trigger] o2[t]) == el(hd, n, t, m - 1)) && lap(v0, v1, n, m, n, m, uvq(o2, n, m), -1real / (v(o2[m]) * el(hd, n, m, m - 1))),
    v1.len() == n * n,
  ensures hacc(fs, o1, o2, hd, v1, n, m - 1),
{
  reveal(hsd);
  let f = fs[m - 1];
  assert(hsd1(f, o1, hd, n, m - 1));
  let g = gen(fs, n, m);
  assert(gen(fs, n, m - 1) == lr(f, n, g));
  assert(o2[m] == o[m] && o[m] == o1[m]);
  lr_ext(f, n, n, elm(v0, n), g);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] elm(v1, n)(r, c) == gen(fs, n, m - 1)(r, c) by {
    let x = colof(elm(v0, n), c);
    assert(lr(f, n, elm(v0, n))(r, c) == lr(f, n, g)(r, c));
    if el(hd, n, m, m - 1) == 0real {
      refl_off(f.h, f.t, n, x, r);
    } else {
      let u = uvq(o2, n, m);
      assert forall|t: int| 0 <= t < n implies #[trigger] (f.h)(t) == u(t) by { assert((f.h)(t) == hvq(o1, hd, n, m - 1)(t)); }
      let tau = -1real / (v(o2[m]) * el(hd, n, m, m - 1));
      refl_ext(f.h, u, f.t, n, x, x);
      assert(refl(f.h, f.t, n, x)(r) == refl(u, tau, n, x)(r));
      assert(el(v1, n, r, c) == if r >= m && c >= m { el(v0, n, r, c) - (tau * cs(u, v0, n, c, m, n)) * u(r) } else { el(v0, n, r, c) });
      if r < m { refl_off(u, tau, n, x, r); }
      else if c >= m { cs_dot(u, v0, n, c, m); }
      else {
        assert forall|q: int| 0 <= q < fs.len() implies zero_above((#[trigger] fs[q]).h, q + 1) by { assert(hsd1(fs[q], o1, hd, n, q)); }
        gen_unit(fs, n, 1, m, c);
        assert forall|t: int| m <= t < n implies #[trigger] x(t) == 0real by { assert(g(t, c) == kd(t, c)); assert(elm(v0, n)(t, c) == g(t, c)); }
        refl_disjoint(u, tau, n, x, m);
        assert(refl(u, tau, n, x)(r) == x(r));
      }
    }
  }
  assert forall|t: int| 0 <= t <= m - 1 && t < n implies #[trigger] o2[t] == o1[t] by { assert(o2[t] == o[t]); assert(o[t] == o1[t]); }
}
// g = (s/om)/hm
pub proof fn twice_div(s: real, om: real, hm1: real, u: real)
  requires om != 0real, hm1 != 0real,
  ensures ((s / om) / hm1) * u == -(((-1real / (om * hm1)) * s) * u), om * hm1 != 0real,
{
  let p = om * hm1;
  assert(p != 0real) by (nonlinear_arith) requires om != 0real, hm1 != 0real, p == om * hm1;
  let q = s / om;
  assert(q * om == s) by (nonlinear_arith) requires q == s / om, om != 0real;
  let r = q / hm1;
  assert(r * hm1 == q) by (nonlinear_arith) requires r == q / hm1, hm1 != 0real;
  assert(r * p == s) by (nonlinear_arith) requires r * hm1 == q, q * om == s, p == om * hm1;
  let t = -1real / p;
  assert(t * p == -1real) by (nonlinear_arith) requires t == -1real / p, p != 0real;
  assert(t * s == -r) by (nonlinear_arith) requires t * p == -1real, r * p == s;
  assert((-r) * u == -(r * u)) by (nonlinear_arith);
}
// what the reduction guarantees
pub open spec fn hw(n: int) -> real { (2 * n) as real * tiny0() }
pub proof fn hes_done(a: Mt, fs: Seq<Rf>, o1: Seq<E>, o: Seq<E>, hd: Seq<E>, vd: Seq<E>, n: int, f2: real)
  requires n > 0, hst(a, fs, o1, hd, n, fs.len() as int, f2), fs.len() == (if n >= 2 { n - 2 } else { 0 }), hacc(fs, o1, o, hd, vd, n, 0),
  ensures ms(a, vd, vd, hess(hd, n), n, n, hw(n), f2),
{
  let k = fs.len() as int;
  let w = (2 * k) as real * tiny0();
  ms_start(a, fs, fs, vd, vd, hm(hd, n, k), hess(hd, n), n, n, k, w, f2);
  tiny_nonneg();
  let (x, y, t) = ((2 * k) as real, (2 * n) as real, tiny0());
  assert(x * t <= y * t) by (nonlinear_arith) requires x <= y, t >= 0real;
  ms_ext(a, vd, vd, hess(hd, n), hess(hd, n), n, n, w, hw(n), f2);
}
}
pub use hsm::*;
