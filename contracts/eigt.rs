// ---------------------------------------------------------------- symmetric eigenproblem: reduction to tridiagonal form
pub mod egt {
use super::*;
// the symmetric matrix whose lower triangle the buffer holds
pub open spec fn sl(d: Seq<E>, n: int, r: int, c: int) -> real { if r >= c { el(d, n, r, c) } else { el(d, n, c, r) } }
// rows and columns above i are finished: diagonal in the buffer, off-diagonal e
pub open spec fn td(d: Seq<E>, e: Seq<E>, n: int, i: int) -> Mt {
  |r: int, c: int| if r <= i && c <= i { sl(d, n, r, c) } else if r == c { el(d, n, r, r) } else if c == r + 1 { v(e[c]) } else if r == c + 1 { v(e[r]) } else { 0real }
}
// symmetric tridiagonal: diagonal d, e[r] couples r-1 and r
pub open spec fn tq(d: Seq<E>, e: Seq<E>) -> Mt {
  |r: int, c: int| if r == c { v(d[r]) } else if c == r + 1 { v(e[c]) } else if r == c + 1 { v(e[r]) } else { 0real }
}
pub open spec fn symm(a: Mt, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] a(i, j) == a(j, i) }
pub open spec fn uvec(d: Seq<E>, n: int, i: int) -> Vc { |t: int| if 0 <= t < i { el(d, n, t, i) } else { 0real } }
pub open spec fn recip(h: real) -> real { if h != 0real { 1real / h } else { 0real } }
pub open spec fn est1(f: Rf, d: Seq<E>, ds: Seq<E>, n: int, r: int) -> bool { veq(f.h, uvec(d, n, r), n) && f.t == recip(v(ds[r])) }
#[verifier::opaque]
pub open spec fn est(fs: Seq<Rf>, d: Seq<E>, ds: Seq<E>, n: int, i: int) -> bool { forall|r: int| i < r < n ==> #[trigger] est1(fs[n - 1 - r], d, ds, n, r) }
// rows above i hold zeros left of the diagonal
pub open spec fn zrow(d: Seq<E>, n: int, i: int) -> bool { forall|r: int, c: int| i < r < n && 0 <= c < r ==> #[trigger] el(d, n, r, c) == 0real }
// d is row i of the buffer
pub open spec fn drow(d: Seq<E>, ds: Seq<E>, n: int, i: int) -> bool { forall|c: int| 0 <= c <= i ==> v(#[trigger] ds[c]) == el(d, n, i, c) }
// the state of the reduction before row i is eliminated
pub open spec fn tst(a: Mt, fs: Seq<Rf>, d: Seq<E>, ds: Seq<E>, e: Seq<E>, n: int, i: int, f2: real) -> bool {
  &&& 0 <= i < n && d.len() == n * n && ds.len() == n && e.len() == n && fs.len() == n - 1 - i
  &&& ph(a, fs, fs, n, n, n - 1 - i, td(d, e, n, i), 0real, f2)
  &&& drow(d, ds, n, i) && zrow(d, n, i) && est(fs, d, ds, n, i)
}
pub proof fn tst_start(a: Mt, d: Seq<E>, ds: Seq<E>, e: Seq<E>, n: int)
  requires n > 0, d.len() == n * n, ds.len() == n, e.len() == n, meq(a, elm(d, n), n, n), symm(a, n), drow(d, ds, n, n - 1),
  ensures tst(a, Seq::<Rf>::empty(), d, ds, e, n, n - 1, fro2(a, n, n)),
{
  reveal(est);
  let x = td(d, e, n, n - 1);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] a(r, c) == x(r, c) by {
    assert(a(r, c) == elm(d, n)(r, c));
    assert(a(c, r) == elm(d, n)(c, r));
    assert(a(r, c) == a(c, r));
  }
  ph_start(a, n, n, x);
}
// a reflection that zeroes the head of a vector
pub proof fn house_top(x: Vc, w: Vc, sc: real, a: real, k: int, m: int, h: Vc, hv: real)
  requires
    0 <= k < m, sc != 0real, a != 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] w(t) == if t <= k { x(t) / sc } else { 0real },
    a * a == vdot(w, w, m), a * w(k) <= 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] h(t) == if t == k { w(t) - a } else { w(t) },
    hv == a * a - w(k) * a,
  ensures
    hv > 0real, is_refl(h, 1real / hv, m), h(k) != 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] refl(h, 1real / hv, m, x)(t) == if t < k { 0real } else if t == k { sc * a } else { x(t) },
{
  house(w, a, k, m, h);
  let tau = 1real / hv;
  let g = a * h(k);
  let wk = w(k);
  assert(a * (wk - a) == wk * a - a * a) by (nonlinear_arith);
  assert(hv == -g);
  let hh = vdot(h, h, m);
  assert((1real / hv) * hh == 2real) by (nonlinear_arith) requires hv > 0real, hh == hv + hv;
  let f = |t: int| h(t) * x(t);
  let q = |t: int| h(t) * w(t);
  assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == sc * q(t) by {
    let (p, y) = (h(t), x(t));
    assert(w(t) == if t <= k { x(t) / sc } else { 0real });
    if t > k { assert(p == 0real); assert(0real * y == 0real && sc * (0real * 0real) == 0real) by (nonlinear_arith); }
    else { assert(p * y == sc * (p * (y / sc))) by (nonlinear_arith) requires sc != 0real; }
  }
  sum_scale(q, f, sc, 0, m);
  let hw = vdot(h, w, m);
  assert(tau * (sc * hw) == sc) by (nonlinear_arith) requires tau == 1real / hv, hw == hv, hv > 0real;
  assert forall|t: int| 0 <= t < m implies #[trigger] refl(h, tau, m, x)(t) == (if t < k { 0real } else if t == k { sc * a } else { x(t) }) by {
    let y = x(t);
    assert(w(t) == if t <= k { x(t) / sc } else { 0real });
    if t > k { assert(sc * 0real == 0real) by (nonlinear_arith); }
    else if t == k { assert(y - sc * (y / sc - a) == sc * a) by (nonlinear_arith) requires sc != 0real; }
    else { assert(y - sc * (y / sc) == 0real) by (nonlinear_arith) requires sc != 0real; }
  }
}
// what the elimination of row i computes: u, p = tau*X*u, q = p - kk*u, and the new buffer
pub open spec fn pvec(x: Mt, u: Vc, n: int) -> Vc { |c: int| vdot(u, colof(x, c), n) }
pub open spec fn mut_ok(d0: Seq<E>, d1: Seq<E>, e1: Seq<E>, n: int, i: int, u: Vc, q: Vc) -> bool {
  &&& forall|r: int, c: int| 0 <= c <= r < i ==> #[trigger] el(d1, n, r, c) == el(d0, n, r, c) - (u(c) * q(r) + q(c) * u(r))
  &&& forall|r: int| i <= r < n ==> #[trigger] el(d1, n, r, r) == el(d0, n, r, r)
}
pub proof fn td_symm(d: Seq<E>, e: Seq<E>, n: int, i: int)
  ensures symm(td(d, e, n, i), n),
{ }
// the row being eliminated
pub open spec fn row_of(x: Mt, i: int) -> Vc { colof(x, i) }
pub proof fn td_step(d0: Seq<E>, d1: Seq<E>, e0: Seq<E>, e1: Seq<E>, n: int, i: int, u: Vc, tau: real, q: Vc)
  requires
    1 <= i < n, forall|t: int| i <= t < n ==> #[trigger] u(t) == 0real,
    forall|t: int| 0 <= t < n ==> #[trigger] refl(u, tau, n, colof(td(d0, e0, n, i), i))(t) == (if t < i - 1 { 0real } else if t == i - 1 { v(e1[i]) } else { td(d0, e0, n, i)(t, i) }),
    forall|r: int| i < r < n ==> #[trigger] e1[r] == e0[r],
    forall|c: int| 0 <= c < i ==> #[trigger] q(c) == tau * pvec(td(d0, e0, n, i), u, n)(c) - ((tau * kdot(d0, e0, n, i, u, tau)) / 2real) * u(c),
    mut_ok(d0, d1, e1, n, i, u, q),
  ensures meq(rr(Rf { h: u, t: tau }, n, lr(Rf { h: u, t: tau }, n, td(d0, e0, n, i))), td(d1, e1, n, i - 1), n, n),
{
  let f = Rf { h: u, t: tau };
  let x = td(d0, e0, n, i);
  let y = lr(f, n, x);
  let z = td(d1, e1, n, i - 1);
  let pv = pvec(x, u, n);
  let kap = kdot(d0, e0, n, i, u, tau);
  assert forall|c: int| i < c < n implies #[trigger] pv(c) == 0real by { dot_dis(u, colof(x, c), n, i); }
  // y by rows
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] y(r, c) == x(r, c) - (tau * pv(c)) * u(r) by { }
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && (r >= i || c > i) implies #[trigger] y(r, c) == x(r, c) by {
    let (s, w) = (tau * pv(c), u(r));
    if r >= i { assert(s * 0real == 0real) by (nonlinear_arith); } else { assert((tau * 0real) * w == 0real) by (nonlinear_arith); }
  }
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] rr(f, n, y)(r, c) == z(r, c) by {
    let row = colof(tr(y), r);
    let xr = colof(tr(x), r);
    let xrc = colof(x, r);
    assert(veq(xr, xrc, n)) by { assert forall|t: int| 0 <= t < n implies #[trigger] xr(t) == xrc(t) by { } }
    let uc = u(c);
    if r > i {
      assert forall|t: int| 0 <= t < n implies #[trigger] row(t) == xr(t) by { assert(y(r, t) == x(r, t)); }
      dot_ext(u, u, row, xr, n);
      dot_dis(u, xr, n, i);
      assert((tau * 0real) * uc == 0real) by (nonlinear_arith);
      assert(y(r, c) == x(r, c));
      assert(z(r, c) == x(r, c)) by { if r == c { assert(el(d1, n, r, r) == el(d0, n, r, r)); } if c == r + 1 { assert(e1[c] == e0[c]); } if r == c + 1 { assert(e1[r] == e0[r]); } }
    } else if c > i {
      let s = tau * vdot(u, row, n);
      assert(s * 0real == 0real) by (nonlinear_arith);
      assert(y(r, c) == x(r, c));
      assert(z(r, c) == x(r, c)) by { if c == r + 1 { assert(e1[c] == e0[c]); } }
    } else if r == i {
      assert forall|t: int| 0 <= t < n implies #[trigger] row(t) == xrc(t) by { assert(y(r, t) == x(r, t)); assert(xr(t) == xrc(t)); }
      refl_ext(u, u, tau, n, row, xrc);
      assert(refl(u, tau, n, row)(c) == refl(u, tau, n, xrc)(c));
      assert(refl(u, tau, n, colof(x, i))(c) == (if c < i - 1 { 0real } else if c == i - 1 { v(e1[i]) } else { x(c, i) }));
      if c == i { assert(el(d1, n, i, i) == el(d0, n, i, i)); }
    } else if c == i {
      let s = tau * vdot(u, row, n);
      assert(s * 0real == 0real) by (nonlinear_arith);
      assert(rr(f, n, y)(r, c) == y(r, c));
      assert(refl(u, tau, n, colof(x, i))(r) == (if r < i - 1 { 0real } else if r == i - 1 { v(e1[i]) } else { x(r, i) }));
    } else {
      // u . row_r(y) = pv(r) - u_r * kap
      let ur = u(r);
      let pt = |t: int| if t < i { tau * pv(t) } else { 0real };
      let yr = |t: int| xr(t) - ur * pt(t);
      dot_axpy(xr, pt, ur, yr, u, n);
      assert forall|t: int| 0 <= t < n implies #[trigger] u(t) * row(t) == u(t) * yr(t) by {
        assert(y(r, t) == x(r, t) - (tau * pv(t)) * ur);
        if t < i { let s = tau * pv(t); assert(s * ur == ur * s) by (nonlinear_arith); } else { let (a, b) = (row(t), yr(t)); assert(0real * a == 0real && 0real * b == 0real) by (nonlinear_arith); }
      }
      let (f1, f2) = (|t: int| u(t) * row(t), |t: int| u(t) * yr(t));
      assert forall|t: int| 0 <= t < n implies #[trigger] f1(t) == f2(t) by { assert(u(t) * row(t) == u(t) * yr(t)); }
      sum_ext(f1, f2, 0, n);
      dot_comm(yr, u, n);
      dot_ext(u, u, xr, xrc, n);
      dot_comm(xr, u, n);
      dot_comm(u, pt, n);
      assert(vdot(u, row, n) == pv(r) - ur * vdot(pt, u, n));
      assert(vdot(pt, u, n) == kap) by {
        let g = |t: int| (if t < i { tau * pvec(x, u, n)(t) } else { 0real }) * u(t);
        let g2 = |t: int| pt(t) * u(t);
        sum_ext(g2, g, 0, n);
      }
      let (pr, pc) = (pv(r), pv(c));
      let xe = x(r, c);
      assert(rr(f, n, y)(r, c) == (xe - (tau * pc) * ur) - (tau * (pr - ur * kap)) * uc);
      let k2 = (tau * kap) / 2real;
      let (qr, qc) = (tau * pr - k2 * ur, tau * pc - k2 * uc);
      assert(q(r) == qr && q(c) == qc);
      assert((xe - (tau * pc) * ur) - (tau * (pr - ur * kap)) * uc == xe - (uc * qr + qc * ur)) by {
        let tk = tau * kap;
        assert(k2 + k2 == tk);
        assert(tau * (pr - ur * kap) == tau * pr - tk * ur) by (nonlinear_arith) requires tk == tau * kap;
        let (a, b) = (tau * pr, tau * pc);
        assert((a - tk * ur) * uc == a * uc - tk * (ur * uc)) by (nonlinear_arith);
        assert(uc * (a - k2 * ur) == a * uc - k2 * (ur * uc)) by (nonlinear_arith);
        assert((b - k2 * uc) * ur == b * ur - k2 * (ur * uc)) by (nonlinear_arith);
        let w = ur * uc;
        assert(tk * w == k2 * w + k2 * w) by (nonlinear_arith) requires tk == k2 + k2;
      }
      if r >= c { assert(el(d1, n, r, c) == el(d0, n, r, c) - (uc * q(r) + q(c) * ur)); }
      else {
        assert(el(d1, n, c, r) == el(d0, n, c, r) - (ur * q(c) + q(r) * uc));
        assert(ur * qc == qc * ur && qr * uc == uc * qr) by (nonlinear_arith);
      }
    }
  }
}
pub open spec fn kdot(d0: Seq<E>, e0: Seq<E>, n: int, i: int, u: Vc, tau: real) -> real {
  sum(|t: int| (if t < i { tau * pvec(td(d0, e0, n, i), u, n)(t) } else { 0real }) * u(t), 0, n)
}
// disjoint supports
pub proof fn dot_dis(u: Vc, x: Vc, n: int, i: int)
  requires forall|t: int| i <= t < n ==> #[trigger] u(t) == 0real, forall|t: int| 0 <= t < i && t < n ==> #[trigger] x(t) == 0real,
  ensures vdot(u, x, n) == 0real,
{
  let f = |t: int| u(t) * x(t);
  assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == 0real by {
    let (a, b) = (u(t), x(t));
    if t < i { assert(b == 0real); assert(a * 0real == 0real) by (nonlinear_arith); } else { assert(a == 0real); assert(0real * b == 0real) by (nonlinear_arith); }
  }
  sum_zero(f, 0, n);
}
// ---- the loops of one elimination
pub open spec fn upto(du: Seq<E>, i: int) -> Vc { |t: int| if 0 <= t < i { v(du[t]) } else { 0real } }
pub open spec fn sqs(ds: Seq<E>, sc: real, k: int) -> real { sum(|t: int| (v(ds[t]) / sc) * (v(ds[t]) / sc), 0, k) }
pub open spec fn ps(d: Seq<E>, n: int, du: Seq<E>, q: int, hi: int) -> real { sum(|t: int| sl(d, n, q, t) * v(du[t]), 0, hi) }
pub open spec fn fsum(e: Seq<E>, du: Seq<E>, hv: real, j: int) -> real { sum(|t: int| (v(e[t]) / hv) * v(du[t]), 0, j) }
pub proof fn sqs_pos(ds: Seq<E>, sc: real, i: int)
  requires sc > 0real, exists|t: int| 0 <= t < i && v(#[trigger] ds[t]) != 0real,
  ensures sqs(ds, sc, i) > 0real,
{
  let x = |t: int| v(ds[t]) / sc;
  let t = choose|t: int| 0 <= t < i && v(#[trigger] ds[t]) != 0real;
  let y = v(ds[t]);
  assert(y / sc != 0real) by (nonlinear_arith) requires y != 0real, sc > 0real;
  dot_pos(x, i, t);
  let f = |t: int| x(t) * x(t);
  let g = |t: int| (v(ds[t]) / sc) * (v(ds[t]) / sc);
  sum_ext(f, g, 0, i);
}
pub proof fn root_of(hs: real, a: real)
  requires hs > 0real, a == rsqrt(hs),
  ensures a > 0real, a * a == hs, (-a) * (-a) == hs,
{
  rsqrt_def(hs);
  assert((-a) * (-a) == a * a) by (nonlinear_arith);
  if a == 0real { assert(a * a == 0real) by (nonlinear_arith) requires a == 0real; }
}
// the Householder vector of row i
pub open spec fn hvec(ds: Seq<E>, du: Seq<E>, sc: real, a: real, i: int) -> bool {
  forall|t: int| 0 <= t < i ==> v(#[trigger] du[t]) == if t == i - 1 { v(ds[t]) / sc - a } else { v(ds[t]) / sc }
}
pub proof fn hvec_refl(d: Seq<E>, ds: Seq<E>, e: Seq<E>, du: Seq<E>, n: int, i: int, sc: real, a: real, hv: real)
  requires 1 <= i < n, sc > 0real, a * a == sqs(ds, sc, i), a != 0real, a * (v(ds[i - 1]) / sc) <= 0real, hvec(ds, du, sc, a, i), hv == sqs(ds, sc, i) - (v(ds[i - 1]) / sc) * a, drow(d, ds, n, i),
  ensures
    hv > 0real, is_refl(upto(du, i), 1real / hv, n),
    forall|t: int| 0 <= t < n ==> #[trigger] refl(upto(du, i), 1real / hv, n, colof(td(d, e, n, i), i))(t) == if t < i - 1 { 0real } else if t == i - 1 { sc * a } else { td(d, e, n, i)(t, i) },
{
  let x = colof(td(d, e, n, i), i);
  let w = |t: int| if t <= i - 1 { x(t) / sc } else { 0real };
  let h = upto(du, i);
  assert forall|t: int| 0 <= t < i implies #[trigger] w(t) == v(ds[t]) / sc by { assert(v(ds[t]) == el(d, n, i, t)); }
  let f = |t: int| w(t) * w(t);
  let g = |t: int| (v(ds[t]) / sc) * (v(ds[t]) / sc);
  sum_split(f, 0, i, n);
  assert forall|t: int| i <= t < n implies #[trigger] f(t) == 0real by { assert(w(t) == 0real); assert(0real * 0real == 0real) by (nonlinear_arith); }
  sum_zero(f, i, n);
  assert forall|t: int| 0 <= t < i implies #[trigger] f(t) == g(t) by { assert(w(t) == v(ds[t]) / sc); }
  sum_ext(f, g, 0, i);
  assert(w(i - 1) == v(ds[i - 1]) / sc);
  assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == (if t == i - 1 { w(t) - a } else { w(t) }) by { if t < i { assert(w(t) == v(ds[t]) / sc); } }
  house_top(x, w, sc, a, i - 1, n, h, hv);
}
// the product with the symmetric matrix
pub proof fn ps_full(d: Seq<E>, e: Seq<E>, du: Seq<E>, n: int, i: int, q: int)
  requires 1 <= i < n, 0 <= q < i,
  ensures ps(d, n, du, q, i) == pvec(td(d, e, n, i), upto(du, i), n)(q),
{
  let x = td(d, e, n, i);
  let u = upto(du, i);
  let f = |t: int| u(t) * colof(x, q)(t);
  let g = |t: int| sl(d, n, q, t) * v(du[t]);
  sum_split(f, 0, i, n);
  assert forall|t: int| i <= t < n implies #[trigger] f(t) == 0real by { let b = colof(x, q)(t); assert(0real * b == 0real) by (nonlinear_arith); }
  sum_zero(f, i, n);
  assert forall|t: int| 0 <= t < i implies #[trigger] f(t) == g(t) by { let (a, b) = (sl(d, n, q, t), v(du[t])); assert(x(t, q) == a); assert(a * b == b * a) by (nonlinear_arith); }
  sum_ext(f, g, 0, i);
}
// column i filled with the Householder vector down to row j
pub open spec fn ucol(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, du: Seq<E>) -> bool {
  dk.len() == d0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) == if c == i && r < j { v(du[r]) } else { el(d0, n, r, c) }
}
pub proof fn ucol_step(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, du: Seq<E>, x: E)
  requires ucol(d0, dk, n, i, j, du), d0.len() == n * n, 0 <= j < i, i < n, v(x) == v(du[j]),
  ensures ucol(d0, dk.update(j * n + i, x), n, i, j + 1, du),
{ el_update(dk, n, n, j, i, x); }
// the rank-2 update, done for columns < j and for rows < k of column j
pub open spec fn r2(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, k: int, u: Vc, q: Vc) -> bool {
  dk.len() == d0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) ==
    if r < i && c <= r && (c < j || (c == j && r < k)) { el(d0, n, r, c) - (u(c) * q(r) + q(c) * u(r)) } else if r == i && c < j { 0real } else { el(d0, n, r, c) }
}
pub proof fn r2_in(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, k: int, u: Vc, q: Vc, x: E)
  requires r2(d0, dk, n, i, j, k, u, q), d0.len() == n * n, 0 <= j <= k < i, i < n, v(x) == el(dk, n, k, j) - (u(j) * q(k) + q(j) * u(k)),
  ensures r2(d0, dk.update(k * n + j, x), n, i, j, k + 1, u, q),
{ el_update(dk, n, n, k, j, x); assert(el(dk, n, k, j) == el(d0, n, k, j)); }
pub proof fn r2_out(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, u: Vc, q: Vc, x: E)
  requires r2(d0, dk, n, i, j, i, u, q), d0.len() == n * n, 0 <= j < i, i < n, v(x) == 0real,
  ensures r2(d0, dk.update(i * n + j, x), n, i, j + 1, j + 1, u, q),
{ el_update(dk, n, n, i, j, x); }
pub open spec fn qvec(e: Seq<E>, i: int) -> Vc { upto(e, i) }
// one elimination
pub proof fn tst_step(a: Mt, fs: Seq<Rf>, d0: Seq<E>, ds0: Seq<E>, e0: Seq<E>, du: Seq<E>, e4: Seq<E>, e6: Seq<E>, d4: Seq<E>, d7: Seq<E>, ds7: Seq<E>, n: int, i: int, f2: real, sc: real, ga: real, hv: real, hh: real, h: E)
  requires
    tst(a, fs, d0, ds0, e0, n, i, f2), 1 <= i < n,
    sc > 0real, ga * ga == sqs(ds0, sc, i), ga != 0real, ga * (v(ds0[i - 1]) / sc) <= 0real, hvec(ds0, du, sc, ga, i), hv == sqs(ds0, sc, i) - (v(ds0[i - 1]) / sc) * ga,
    forall|q: int| 0 <= q < i ==> v(#[trigger] e4[q]) == ps(d0, n, du, q, i),
    hh == fsum(e4, du, hv, i) / (hv + hv),
    forall|q: int| 0 <= q < i ==> v(#[trigger] e6[q]) == v(e4[q]) / hv - hh * v(du[q]),
    v(e6[i]) == sc * ga, forall|q: int| i < q < n ==> #[trigger] e6[q] == e0[q], e6.len() == n,
    ucol(d0, d4, n, i, i, du), r2(d4, d7, n, i, i, i, upto(du, i), qvec(e6, i)),
    ds7.len() == n, forall|c: int| 0 <= c < i ==> v(#[trigger] ds7[c]) == el(d7, n, i - 1, c), forall|c: int| i < c < n ==> #[trigger] ds7[c] == ds0[c], v(h) == hv,
  ensures tst(a, fs.push(Rf { h: upto(du, i), t: 1real / hv }), d7, ds7.update(i, h), e6, n, i - 1, f2),
{
  let u = upto(du, i);
  let tau = 1real / hv;
  let f = Rf { h: u, t: tau };
  let x = td(d0, e0, n, i);
  hvec_refl(d0, ds0, e0, du, n, i, sc, ga, hv);
  let q = qvec(e6, i);
  let kap = kdot(d0, e0, n, i, u, tau);
  assert(fsum(e4, du, hv, i) == kap) by {
    let g = |t: int| (v(e4[t]) / hv) * v(du[t]);
    let k = |t: int| (if t < i { tau * pvec(x, u, n)(t) } else { 0real }) * u(t);
    sum_split(k, 0, i, n);
    assert forall|t: int| i <= t < n implies #[trigger] k(t) == 0real by { assert(0real * 0real == 0real) by (nonlinear_arith); }
    sum_zero(k, i, n);
    assert forall|t: int| 0 <= t < i implies #[trigger] g(t) == k(t) by {
      ps_full(d0, e0, du, n, i, t);
      let y = v(e4[t]);
      assert(y / hv == (1real / hv) * y) by (nonlinear_arith) requires hv > 0real;
    }
    sum_ext(g, k, 0, i);
  }
  assert(hh == (tau * kap) / 2real) by {
    assert(kap / (hv + hv) == ((1real / hv) * kap) / 2real) by (nonlinear_arith) requires hv > 0real;
  }
  assert forall|c: int| 0 <= c < i implies #[trigger] q(c) == tau * pvec(x, u, n)(c) - ((tau * kap) / 2real) * u(c) by {
    ps_full(d0, e0, du, n, i, c);
    let y = v(e4[c]);
    assert(y / hv == (1real / hv) * y) by (nonlinear_arith) requires hv > 0real;
    assert(v(e6[c]) == v(e4[c]) / hv - hh * v(du[c]));
  }
  assert(mut_ok(d0, d7, e6, n, i, u, q)) by {
    assert forall|r: int, c: int| 0 <= c <= r < i implies #[trigger] el(d7, n, r, c) == el(d0, n, r, c) - (u(c) * q(r) + q(c) * u(r)) by { assert(el(d4, n, r, c) == el(d0, n, r, c)); }
    assert forall|r: int| i <= r < n implies #[trigger] el(d7, n, r, r) == el(d0, n, r, r) by { assert(el(d4, n, r, r) == el(d0, n, r, r)); }
  }
  td_step(d0, d7, e0, e6, n, i, u, tau, q);
  tst_next(a, fs, d0, ds0, e0, d7, ds7.update(i, h), e6, n, i, f2, f);
}
// the case of a row that is zero already
pub proof fn tst_skip(a: Mt, fs: Seq<Rf>, d0: Seq<E>, ds0: Seq<E>, e0: Seq<E>, e1: Seq<E>, d7: Seq<E>, ds7: Seq<E>, n: int, i: int, f2: real, h: E)
  requires
    tst(a, fs, d0, ds0, e0, n, i, f2), 1 <= i < n,
    forall|t: int| 0 <= t < i ==> v(#[trigger] ds0[t]) == 0real,
    e1.len() == n, v(e1[i]) == 0real, forall|q: int| i < q < n ==> #[trigger] e1[q] == e0[q],
    d7.len() == n * n, zcross(d0, d7, n, i, i),
    ds7.len() == n, forall|c: int| 0 <= c < i ==> v(#[trigger] ds7[c]) == el(d7, n, i - 1, c), forall|c: int| i < c < n ==> #[trigger] ds7[c] == ds0[c], v(h) == 0real,
  ensures tst(a, fs.push(Rf { h: upto(e1, 0), t: 0real }), d7, ds7.update(i, h), e1, n, i - 1, f2),
{
  let u = upto(e1, 0);
  let f = Rf { h: u, t: 0real };
  let x = td(d0, e0, n, i);
  let q = u;
  assert forall|t: int| 0 <= t < n implies #[trigger] refl(u, 0real, n, colof(x, i))(t) == (if t < i - 1 { 0real } else if t == i - 1 { v(e1[i]) } else { x(t, i) }) by {
    refl_off(u, 0real, n, colof(x, i), t);
    if t < i { assert(v(ds0[t]) == el(d0, n, i, t)); }
  }
  let kap = kdot(d0, e0, n, i, u, 0real);
  assert forall|c: int| 0 <= c < i implies #[trigger] q(c) == 0real * pvec(x, u, n)(c) - ((0real * kap) / 2real) * u(c) by {
    let p = pvec(x, u, n)(c);
    assert(0real * p == 0real && ((0real * kap) / 2real) * 0real == 0real) by (nonlinear_arith);
  }
  assert(mut_ok(d0, d7, e1, n, i, u, q)) by {
    assert(0real * 0real == 0real) by (nonlinear_arith);
  }
  td_step(d0, d7, e0, e1, n, i, u, 0real, q);
  assert forall|t: int| 0 <= t < n implies #[trigger] (f.h)(t) == uvec(d7, n, i)(t) by { if t < i { assert(el(d7, n, t, i) == 0real); } }
  tst_next(a, fs, d0, ds0, e0, d7, ds7.update(i, h), e1, n, i, f2, f);
}
// row and column i zeroed below j
pub open spec fn zcross(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int) -> bool {
  dk.len() == d0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) == if (r == i && c < j) || (c == i && r < j) { 0real } else { el(d0, n, r, c) }
}
pub proof fn zcross_step(d0: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, x: E)
  requires zcross(d0, dk, n, i, j), d0.len() == n * n, 0 <= j < i, i < n, v(x) == 0real,
  ensures zcross(d0, dk.update(i * n + j, x).update(j * n + i, x), n, i, j + 1),
{
  el_update(dk, n, n, i, j, x);
  el_update(dk.update(i * n + j, x), n, n, j, i, x);
}
pub proof fn tst_next(a: Mt, fs: Seq<Rf>, d0: Seq<E>, ds0: Seq<E>, e0: Seq<E>, d1: Seq<E>, ds1: Seq<E>, e1: Seq<E>, n: int, i: int, f2: real, f: Rf)
  requires
    tst(a, fs, d0, ds0, e0, n, i, f2), 1 <= i < n, d1.len() == n * n, ds1.len() == n, e1.len() == n,
    meq(rr(f, n, lr(f, n, td(d0, e0, n, i))), td(d1, e1, n, i - 1), n, n), is_refl(f.h, f.t, n),
    forall|c: int| 0 <= c < i ==> v(#[trigger] ds1[c]) == el(d1, n, i - 1, c), forall|c: int| i < c < n ==> #[trigger] ds1[c] == ds0[c],
    forall|c: int| 0 <= c < i ==> #[trigger] el(d1, n, i, c) == 0real,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n && (r > i || c > i) ==> #[trigger] el(d1, n, r, c) == el(d0, n, r, c),
    veq(f.h, uvec(d1, n, i), n), f.t == recip(v(ds1[i])),
  ensures tst(a, fs.push(f), d1, ds1, e1, n, i - 1, f2),
{
  reveal(est);
  let x = td(d0, e0, n, i);
  let y = lr(f, n, x);
  let z = td(d1, e1, n, i - 1);
  uncut_small(x, n, n, 0real);
  uncut_small(y, n, n, 0real);
  assert(n - 1 - i + 1 == n - 1 - (i - 1));
  ph_step(a, fs, fs, n, n, n - 1 - i, x, x, y, y, z, f, f, 0real, 0real, f2);
  let gs = fs.push(f);
  assert forall|r: int| i - 1 < r < n implies #[trigger] est1(gs[n - 1 - r], d1, ds1, n, r) by {
    if r == i { assert(gs[n - 1 - r] == f); } else {
      assert(gs[n - 1 - r] == fs[n - 1 - r]);
      assert(est1(fs[n - 1 - r], d0, ds0, n, r));
      let h = gs[n - 1 - r].h;
      assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == uvec(d1, n, r)(t) by { assert(h(t) == uvec(d0, n, r)(t)); if t < r { assert(el(d1, n, t, r) == el(d0, n, t, r)); } }
    }
  }
  assert forall|r: int, c: int| i - 1 < r < n && 0 <= c < r implies #[trigger] el(d1, n, r, c) == 0real by { if r > i { assert(el(d1, n, r, c) == el(d0, n, r, c)); assert(el(d0, n, r, c) == 0real); } }
}
// ---- accumulating the reflections
// the leading i-by-i block of the buffer, completed by the identity
pub open spec fn ext(d: Seq<E>, n: int, i: int) -> Mt { |r: int, c: int| if r < i && c < i { el(d, n, r, c) } else { kd(r, c) } }
pub open spec fn acs(fs: Seq<Rf>, d1: Seq<E>, ds1: Seq<E>, d: Seq<E>, ds: Seq<E>, n: int, i: int) -> bool {
  &&& 0 <= i < n && d.len() == n * n && ds.len() == n && d1.len() == n * n && ds1.len() == n && fs.len() == n - 1 && est(fs, d1, ds1, n, 0)
  &&& meq(ext(d, n, i), gen(fs, n, n - 1 - i), n, n)
  &&& forall|r: int| 0 <= r < i ==> #[trigger] el(d, n, r, i) == 0real
  &&& forall|r: int, c: int| i <= r < n - 1 && 0 <= c < r ==> #[trigger] el(d, n, r, c) == 0real
  &&& forall|c: int| 0 <= c < i ==> #[trigger] el(d, n, n - 1, c) == el(d1, n, c, c)
  &&& forall|c: int| i <= c < n ==> #[trigger] el(d, n, c, c) == el(d1, n, c, c)
  &&& forall|t: int, r: int| i < r < n && 0 <= t < r ==> #[trigger] el(d, n, t, r) == el(d1, n, t, r)
  &&& forall|r: int| i < r < n ==> #[trigger] ds[r] == ds1[r]
}
pub proof fn acs_start(a: Mt, fs: Seq<Rf>, d: Seq<E>, ds: Seq<E>, e: Seq<E>, n: int, f2: real)
  requires tst(a, fs, d, ds, e, n, 0, f2),
  ensures acs(fs, d, ds, d, ds, n, 0),
{ }
pub open spec fn gsum(d: Seq<E>, n: int, i: int, c: int, k: int) -> real { sum(|t: int| el(d, n, t, i + 1) * el(d, n, t, c), 0, k) }
// columns < j, and rows < k of column j, of the leading (i+1)-by-(i+1) block reflected
pub open spec fn apl(da: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, k: int, hv: real) -> bool {
  dk.len() == da.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) ==
    if r <= i && (c < j || (c == j && r < k)) { el(da, n, r, c) - gsum(da, n, i, c, i + 1) * (el(da, n, r, i + 1) / hv) } else { el(da, n, r, c) }
}
pub proof fn apl_step(da: Seq<E>, dk: Seq<E>, n: int, i: int, j: int, k: int, hv: real, x: E)
  requires apl(da, dk, n, i, j, k, hv), da.len() == n * n, 0 <= j <= i, 0 <= k <= i, i + 1 < n, v(x) == el(dk, n, k, j) - gsum(da, n, i, j, i + 1) * (el(da, n, k, i + 1) / hv),
  ensures apl(da, dk.update(k * n + j, x), n, i, j, k + 1, hv),
{ el_update(dk, n, n, k, j, x); assert(el(dk, n, k, j) == el(da, n, k, j)); }
pub open spec fn zcol(db: Seq<E>, dk: Seq<E>, n: int, i: int, k: int) -> bool {
  dk.len() == db.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) == if c == i + 1 && r < k { 0real } else { el(db, n, r, c) }
}
pub proof fn zcol_step(db: Seq<E>, dk: Seq<E>, n: int, i: int, k: int, x: E)
  requires zcol(db, dk, n, i, k), db.len() == n * n, 0 <= k <= i, i + 1 < n, v(x) == 0real,
  ensures zcol(db, dk.update(k * n + (i + 1), x), n, i, k + 1),
{ el_update(dk, n, n, k, i + 1, x); }
pub open spec fn acc_da(d: Seq<E>, n: int, i: int, one: E) -> Seq<E> { d.update((n - 1) * n + i, d[i * n + i]).update(i * n + i, one) }
pub proof fn acs_step(fs: Seq<Rf>, d1: Seq<E>, ds1: Seq<E>, d: Seq<E>, ds: Seq<E>, da: Seq<E>, db: Seq<E>, dc: Seq<E>, ds2: Seq<E>, n: int, i: int, one: E)
  requires
    acs(fs, d1, ds1, d, ds, n, i), i + 1 < n, v(one) == 1real, da == acc_da(d, n, i, one),
    if v(ds[i + 1]) != 0real { apl(da, db, n, i, i + 1, 0, v(ds[i + 1])) } else { db == da },
    zcol(db, dc, n, i, i + 1),
    ds2.len() == n, forall|r: int| i + 1 <= r < n ==> #[trigger] ds2[r] == ds[r],
  ensures acs(fs, d1, ds1, dc, ds2, n, i + 1),
{
  reveal(est);
  el_update(d, n, n, n - 1, i, d[i * n + i]);
  el_update(d.update((n - 1) * n + i, d[i * n + i]), n, n, i, i, one);
  assert(v(d[i * n + i]) == el(d, n, i, i));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] el(da, n, r, c) == (if r == i && c == i { 1real } else if r == n - 1 && c == i { el(d1, n, i, i) } else { el(d, n, r, c) }) by { }
  let f = fs[n - 2 - i];
  let hv = v(ds[i + 1]);
  assert(est1(fs[n - 1 - (i + 1)], d1, ds1, n, i + 1));
  assert(ds[i + 1] == ds1[i + 1]);
  let e = ext(d, n, i);
  let g = gen(fs, n, n - 1 - i);
  let z = ext(dc, n, i + 1);
  assert(gen(fs, n, n - 2 - i) == lr(f, n, g));
  lr_ext(f, n, n, e, g);
  assert forall|t: int| 0 <= t < n implies #[trigger] (f.h)(t) == (if t <= i { el(da, n, t, i + 1) } else { 0real }) by {
    assert((f.h)(t) == uvec(d1, n, i + 1)(t));
    if t <= i { assert(el(d, n, t, i + 1) == el(d1, n, t, i + 1)); }
  }
  assert forall|r: int, c: int| 0 <= r <= i && 0 <= c <= i implies #[trigger] el(da, n, r, c) == e(r, c) by {
    if r == i && c < i { assert(el(d, n, i, c) == 0real); }
    if c == i && r < i { assert(el(d, n, r, i) == 0real); }
  }
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] z(r, c) == gen(fs, n, n - 2 - i)(r, c) by {
    assert(lr(f, n, e)(r, c) == lr(f, n, g)(r, c));
    let x = colof(e, c);
    if r > i || f.t == 0real {
      refl_off(f.h, f.t, n, x, r);
      if r <= i && c <= i { assert(el(da, n, r, c) == e(r, c)); recip_zero(hv); }
    } else if c > i {
      assert(veq(x, unit(c), n)) by { assert forall|t: int| 0 <= t < n implies #[trigger] x(t) == unit(c)(t) by { } }
      dot_ext(f.h, f.h, x, unit(c), n);
      dot_unit(f.h, c, n);
      let (t, b) = (f.t, (f.h)(r));
      assert((t * 0real) * b == 0real) by (nonlinear_arith);
    } else {
      let p = |t: int| (f.h)(t) * x(t);
      let q = |t: int| el(da, n, t, i + 1) * el(da, n, t, c);
      sum_split(p, 0, i + 1, n);
      assert forall|t: int| i + 1 <= t < n implies #[trigger] p(t) == 0real by { assert((f.h)(t) == 0real); let b = x(t); assert(0real * b == 0real) by (nonlinear_arith); }
      sum_zero(p, i + 1, n);
      assert forall|t: int| 0 <= t < i + 1 implies #[trigger] p(t) == q(t) by { assert((f.h)(t) == el(da, n, t, i + 1)); assert(el(da, n, t, c) == e(t, c)); }
      sum_ext(p, q, 0, i + 1);
      let (gs, b) = (gsum(da, n, i, c, i + 1), el(da, n, r, i + 1));
      assert((f.h)(r) == b);
      assert(((1real / hv) * gs) * b == gs * (b / hv)) by (nonlinear_arith) requires hv != 0real;
      assert(el(dc, n, r, c) == el(db, n, r, c));
      assert(el(da, n, r, c) == e(r, c));
      assert(el(db, n, r, c) == el(da, n, r, c) - gs * (b / hv));
    }
  }
  assert(n - 1 - (i + 1) == n - 2 - i);
  assert forall|r: int, c: int| i + 1 <= r < n - 1 && 0 <= c < r implies #[trigger] el(dc, n, r, c) == 0real by { assert(el(db, n, r, c) == el(da, n, r, c)); assert(el(d, n, r, c) == 0real); }
  assert forall|c: int| 0 <= c < i + 1 implies #[trigger] el(dc, n, n - 1, c) == el(d1, n, c, c) by { assert(el(db, n, n - 1, c) == el(da, n, n - 1, c)); if c < i { assert(el(d, n, n - 1, c) == el(d1, n, c, c)); } }
  assert forall|c: int| i + 1 <= c < n implies #[trigger] el(dc, n, c, c) == el(d1, n, c, c) by { assert(el(db, n, c, c) == el(da, n, c, c)); assert(el(d, n, c, c) == el(d1, n, c, c)); }
  assert forall|t: int, r: int| i + 1 < r < n && 0 <= t < r implies #[trigger] el(dc, n, t, r) == el(d1, n, t, r) by { assert(el(db, n, t, r) == el(da, n, t, r)); assert(el(d, n, t, r) == el(d1, n, t, r)); }
  assert forall|r: int| i + 1 < r < n implies #[trigger] ds2[r] == ds1[r] by { assert(ds2[r] == ds[r]); }
}
pub proof fn recip_zero(h: real)
  ensures recip(h) == 0real ==> h == 0real,
{ if h != 0real { assert(1real / h != 0real) by (nonlinear_arith) requires h != 0real; } }
// the last row moves to d
pub open spec fn zlast(d: Seq<E>, dk: Seq<E>, n: int, j: int) -> bool {
  dk.len() == d.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] el(dk, n, r, c) == if r == n - 1 && c < j { 0real } else { el(d, n, r, c) }
}
pub proof fn zlast_step(d: Seq<E>, dk: Seq<E>, n: int, j: int, x: E)
  requires zlast(d, dk, n, j), d.len() == n * n, 0 <= j < n, v(x) == 0real,
  ensures zlast(d, dk.update((n - 1) * n + j, x), n, j + 1),
{ el_update(dk, n, n, n - 1, j, x); }
pub proof fn acs_end(a: Mt, fs: Seq<Rf>, d1: Seq<E>, ds1: Seq<E>, e1: Seq<E>, d: Seq<E>, ds: Seq<E>, dz: Seq<E>, ds2: Seq<E>, n: int, f2: real, one: E, zero: E)
  requires
    tst(a, fs, d1, ds1, e1, n, 0, f2), acs(fs, d1, ds1, d, ds, n, n - 1), zlast(d, dz, n, n), v(one) == 1real,
    ds2.len() == n, forall|c: int| 0 <= c < n ==> v(#[trigger] ds2[c]) == el(d, n, n - 1, c),
  ensures ms(a, dz.update((n - 1) * n + (n - 1), one), dz.update((n - 1) * n + (n - 1), one), tq(ds2, e1.update(0, zero)), n, n, 0real, f2),
{
  let df = dz.update((n - 1) * n + (n - 1), one);
  el_update(dz, n, n, n - 1, n - 1, one);
  let w = elm(df, n);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] w(r, c) == gen(fs, n, 0)(r, c) by {
    assert(ext(d, n, n - 1)(r, c) == gen(fs, n, n - 1 - (n - 1))(r, c));
    assert(w(r, c) == el(df, n, r, c));
    if c == n - 1 && r < n - 1 { assert(el(d, n, r, n - 1) == 0real); }
  }
  let x = td(d1, e1, n, 0);
  let b = tq(ds2, e1.update(0, zero));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] x(r, c) == b(r, c) by {
    if r == c { assert(v(ds2[r]) == el(d, n, n - 1, r)); if r < n - 1 { assert(el(d, n, n - 1, r) == el(d1, n, r, r)); } else { assert(el(d, n, n - 1, n - 1) == el(d1, n, n - 1, n - 1)); } }
  }
  ms_start(a, fs, fs, df, df, x, b, n, n, n - 1, 0real, f2);
}
}
pub use egt::*;
