@verbatim
// ---------------------------------------------------------------- QR: what the packed buffer means
pub mod qrl {
use super::*;
// the k-th Householder vector, and the coefficient of its reflection
pub open spec fn hcol(d: Seq<E>, m: int, n: int, k: int) -> Vc { |i: int| if k <= i < m { el(d, n, i, k) } else { 0real } }
pub open spec fn htau(d: Seq<E>, m: int, n: int, k: int) -> real { if el(d, n, k, k) != 0real { 2real / vdot(hcol(d, m, n, k), hcol(d, m, n, k), m) } else { 0real } }
pub open spec fn hrefl(d: Seq<E>, m: int, n: int, k: int, x: Vc) -> Vc { refl(hcol(d, m, n, k), htau(d, m, n, k), m, x) }
// H_k * H_(k+1) * ... * H_(hi-1) * x
pub open spec fn back(d: Seq<E>, m: int, n: int, k: int, hi: int, x: Vc) -> Vc
  decreases hi - k
{ if k >= hi { x } else { hrefl(d, m, n, k, back(d, m, n, k + 1, hi, x)) } }
pub proof fn htau_ok(d: Seq<E>, m: int, n: int, k: int)
  requires 0 <= k < m,
  ensures is_refl(hcol(d, m, n, k), htau(d, m, n, k), m), el(d, n, k, k) != 0real ==> vdot(hcol(d, m, n, k), hcol(d, m, n, k), m) > 0real,
{
  let h = hcol(d, m, n, k);
  if el(d, n, k, k) != 0real {
    dot_pos(h, m, k);
    let w = vdot(h, h, m);
    assert((2real / w) * w == 2real) by (nonlinear_arith) requires w > 0real;
  }
}
pub proof fn back_ext(d: Seq<E>, e: Seq<E>, m: int, n: int, k: int, hi: int, x: Vc, y: Vc)
  requires
    veq(x, y, m), 0 <= k, hi <= m,
    forall|i: int, c: int| 0 <= i < m && k <= c < hi && c <= i ==> #[trigger] el(d, n, i, c) == el(e, n, i, c),
  ensures veq(back(d, m, n, k, hi, x), back(e, m, n, k, hi, y), m),
  decreases hi - k,
{
  if k < hi {
    back_ext(d, e, m, n, k + 1, hi, x, y);
    let (h, h2) = (hcol(d, m, n, k), hcol(e, m, n, k));
    assert forall|i: int| 0 <= i < m implies #[trigger] h(i) == h2(i) by { if i >= k { assert(el(d, n, i, k) == el(e, n, i, k)); } }
    dot_ext(h, h2, h, h2, m);
    assert(el(d, n, k, k) == el(e, n, k, k));
    refl_ext(h, h2, htau(d, m, n, k), m, back(d, m, n, k + 1, hi, x), back(e, m, n, k + 1, hi, y));
  }
}
pub proof fn back_peel(d: Seq<E>, m: int, n: int, k: int, hi: int, x: Vc)
  requires 0 <= k <= hi, hi < m,
  ensures veq(back(d, m, n, k, hi + 1, x), back(d, m, n, k, hi, hrefl(d, m, n, hi, x)), m),
  decreases hi - k,
{
  let y = hrefl(d, m, n, hi, x);
  if k < hi {
    back_peel(d, m, n, k + 1, hi, x);
    refl_ext(hcol(d, m, n, k), hcol(d, m, n, k), htau(d, m, n, k), m, back(d, m, n, k + 1, hi + 1, x), back(d, m, n, k + 1, hi, y));
  } else {
    assert(back(d, m, n, k + 1, hi + 1, x) == x);
    assert(back(d, m, n, k, hi, y) == y);
  }
}
pub proof fn back_dot(d: Seq<E>, m: int, n: int, k: int, hi: int, x: Vc, y: Vc)
  requires 0 <= k, hi <= m,
  ensures vdot(back(d, m, n, k, hi, x), back(d, m, n, k, hi, y), m) == vdot(x, y, m),
  decreases hi - k,
{
  if k < hi {
    back_dot(d, m, n, k + 1, hi, x, y);
    htau_ok(d, m, n, k);
    refl_dot(hcol(d, m, n, k), htau(d, m, n, k), m, back(d, m, n, k + 1, hi, x), back(d, m, n, k + 1, hi, y));
  }
}
// reflections from k on leave the unit vector of an earlier row alone
pub proof fn back_unit(d: Seq<E>, m: int, n: int, k: int, hi: int, c: int)
  requires 0 <= c < k, hi <= m,
  ensures veq(back(d, m, n, k, hi, unit(c)), unit(c), m),
  decreases hi - k,
{
  if k < hi {
    back_unit(d, m, n, k + 1, hi, c);
    let h = hcol(d, m, n, k);
    let t = htau(d, m, n, k);
    let y = back(d, m, n, k + 1, hi, unit(c));
    dot_ext(h, h, y, unit(c), m);
    dot_unit(h, c, m);
    assert(h(c) == 0real);
    assert forall|i: int| 0 <= i < m implies #[trigger] refl(h, t, m, y)(i) == unit(c)(i) by {
      assert(y(i) == unit(c)(i));
      let b = h(i);
      assert((t * 0real) * b == 0real) by (nonlinear_arith);
    }
  }
}
// back of a vector from back of the unit vectors
pub open spec fn bmat(d: Seq<E>, m: int, n: int, k: int, hi: int) -> Mt { |i: int, t: int| back(d, m, n, k, hi, unit(t))(i) }
pub proof fn back_comb(d: Seq<E>, m: int, n: int, k: int, hi: int, x: Vc)
  requires 0 <= k, hi <= m,
  ensures veq(back(d, m, n, k, hi, x), comb(x, bmat(d, m, n, k, hi), m), m),
  decreases hi - k,
{
  if k >= hi {
    comb_unit(x, m);
    comb_ext(x, bmat(d, m, n, k, hi), idm(), m);
  } else {
    back_comb(d, m, n, k + 1, hi, x);
    let (h, t) = (hcol(d, m, n, k), htau(d, m, n, k));
    let b = bmat(d, m, n, k + 1, hi);
    let rb = bmat(d, m, n, k, hi);
    refl_ext(h, h, t, m, back(d, m, n, k + 1, hi, x), comb(x, b, m));
    assert forall|i: int, t2: int| 0 <= i < m && 0 <= t2 < m implies #[trigger] rb(i, t2) == refl(h, t, m, colof(b, t2))(i) by {
      refl_ext(h, h, t, m, back(d, m, n, k + 1, hi, unit(t2)), colof(b, t2));
      assert(refl(h, t, m, back(d, m, n, k + 1, hi, unit(t2)))(i) == refl(h, t, m, colof(b, t2))(i));
    }
    refl_comb(h, t, m, x, b, rb);
  }
}
// column c of the partly reduced matrix: columns < j are finished
pub open spec fn rcol(d: Seq<E>, rd: Seq<E>, n: int, j: int, c: int) -> Vc {
  |i: int| if c < j { if i < c { el(d, n, i, c) } else if i == c { v(rd[c]) } else { 0real } } else { el(d, n, i, c) }
}
#[verifier::opaque]
pub open spec fn qr_state(d: Seq<E>, rd: Seq<E>, a: &Matrix<E>, j: int) -> bool {
  let m = a.no_rows as int;
  let n = a.c();
  &&& forall|i: int, c: int| 0 <= i < m && 0 <= c < n ==> #[trigger] back(d, m, n, 0, j, rcol(d, rd, n, j, c))(i) == v(a.at(i, c))
  &&& diag_ok(d, rd, n, j)
}
pub open spec fn diag_ok(d: Seq<E>, rd: Seq<E>, n: int, j: int) -> bool { forall|k: int| 0 <= k < j ==> (#[trigger] el(d, n, k, k) != 0real) == (v(rd[k]) != 0real) }
pub proof fn qr_start(d: Seq<E>, rd: Seq<E>, a: &Matrix<E>)
  requires d == a.data@,
  ensures qr_state(d, rd, a, 0),
{ reveal(qr_state); }
// what one reflection does to the buffer (d, rd) -> (e, re)
pub open spec fn qr_step(d: Seq<E>, rd: Seq<E>, e: Seq<E>, re: Seq<E>, m: int, n: int, k: int) -> bool {
  &&& e.len() == d.len() && re.len() == rd.len()
  &&& forall|q: int| 0 <= q < rd.len() && q != k ==> #[trigger] re[q] == rd[q]
  &&& forall|i: int, c: int| 0 <= i < m && 0 <= c < k && c < n ==> #[trigger] el(e, n, i, c) == el(d, n, i, c)
  &&& forall|i: int, c: int| 0 <= i < m && k < c < n ==> #[trigger] el(e, n, i, c) == hrefl(e, m, n, k, rcol(d, rd, n, k, c))(i)
  &&& forall|i: int| 0 <= i < k ==> #[trigger] el(e, n, i, k) == el(d, n, i, k)
  &&& forall|i: int| 0 <= i < m ==> #[trigger] rcol(e, re, n, k + 1, k)(i) == hrefl(e, m, n, k, rcol(d, rd, n, k, k))(i)
  &&& (el(e, n, k, k) != 0real) == (v(re[k]) != 0real)
}
pub proof fn qr_advance(d: Seq<E>, rd: Seq<E>, e: Seq<E>, re: Seq<E>, a: &Matrix<E>, k: int)
  requires qr_state(d, rd, a, k), qr_step(d, rd, e, re, a.no_rows as int, a.c(), k), 0 <= k < a.no_rows, k < a.c(), rd.len() == imin(a.no_rows as int, a.c()),
  ensures qr_state(e, re, a, k + 1),
{
  reveal(qr_state);
  let (m, n) = (a.no_rows as int, a.c());
  let (h, t) = (hcol(e, m, n, k), htau(e, m, n, k));
  htau_ok(e, m, n, k);
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] back(e, m, n, 0, k + 1, rcol(e, re, n, k + 1, c))(i) == v(a.at(i, c)) by {
    let y = rcol(e, re, n, k + 1, c);
    let x = rcol(d, rd, n, k, c);
    let ry = hrefl(e, m, n, k, y);
    back_peel(e, m, n, 0, k, y);
    assert(veq(ry, x, m)) by {
      if c < k {
        let z = |i: int| 0real;
        // h is zero where y is not
        dot_comm(h, y, m);
        let f = |s: int| h(s) * y(s);
        assert forall|s: int| 0 <= s < m implies #[trigger] f(s) == 0real by {
          let (p, q) = (h(s), y(s));
          if s < k { assert(0real * q == 0real) by (nonlinear_arith); } else { assert(p * 0real == 0real) by (nonlinear_arith); }
        }
        sum_zero(f, 0, m);
        assert(vdot(h, y, m) == 0real);
        assert forall|i: int| 0 <= i < m implies #[trigger] ry(i) == x(i) by { let b = h(i); assert((t * 0real) * b == 0real) by (nonlinear_arith); if i < c { assert(el(e, n, i, c) == el(d, n, i, c)); } else if i == c { assert(re[c] == rd[c]); } }
      } else {
        assert(veq(y, hrefl(e, m, n, k, x), m)) by {
          assert forall|i: int| 0 <= i < m implies #[trigger] y(i) == hrefl(e, m, n, k, x)(i) by { if c > k { assert(el(e, n, i, c) == hrefl(e, m, n, k, x)(i)); } }
        }
        refl_ext(h, h, t, m, y, hrefl(e, m, n, k, x));
        refl_refl(h, t, m, x);
        assert forall|i: int| 0 <= i < m implies #[trigger] ry(i) == x(i) by { assert(refl(h, t, m, hrefl(e, m, n, k, x))(i) == x(i)); }
      }
    }
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < k implies #[trigger] el(e, n, i, c) == el(d, n, i, c) by { }
    back_ext(e, d, m, n, 0, k, ry, x);
    assert(back(e, m, n, 0, k, ry)(i) == back(d, m, n, 0, k, x)(i));
    assert(back(d, m, n, 0, k, x)(i) == v(a.at(i, c)));
  }
  assert forall|q: int| 0 <= q < k + 1 implies (#[trigger] el(e, n, q, q) != 0real) == (v(re[q]) != 0real) by {
    if q < k { assert(el(e, n, q, q) == el(d, n, q, q)); assert(re[q] == rd[q]); }
  }
}
pub proof fn qr_diag(d: Seq<E>, rd: Seq<E>, a: &Matrix<E>, j: int)
  requires qr_state(d, rd, a, j),
  ensures diag_ok(d, rd, a.c(), j),
{ reveal(qr_state); }
}
pub use qrl::*;
@endverbatim
@file decomp/qr.rs
@struct QRDecomposition
@verbatim
impl QRDecomposition<E> {
  pub open spec fn m(&self) -> int { self.qr.no_rows as int }
  pub open spec fn n(&self) -> int { self.qr.c() }
  pub open spec fn dim(&self) -> int { imin(self.m(), self.n()) }
  pub open spec fn wf(&self) -> bool {
    &&& self.qr.wf() && self.rdiag@.len() == self.dim()
    &&& diag_ok(self.qr.data@, self.rdiag@, self.n(), self.dim())
  }
  // R(i, c) and Q(i, c)
  pub open spec fn r(&self, i: int, c: int) -> real { if i < c { el(self.qr.data@, self.n(), i, c) } else if i == c { v(self.rdiag@[i]) } else { 0real } }
  pub open spec fn q(&self, i: int, c: int) -> real { bmat(self.qr.data@, self.m(), self.n(), 0, self.dim())(i, c) }
  pub open spec fn of(&self, a: &Matrix<E>) -> bool { self.wf() && self.qr.shaped(a.no_rows as int, a.c()) && qr_state(self.qr.data@, self.rdiag@, a, self.dim()) }
}
@endverbatim
@fn QRDecomposition::new
@props C19
@requires m.wf(),
@ensures
  r.of(m),
@at start
  let ghost a = m;
@at L0.before
  proof { qr_start(qrdata@, rdiag@, a); }
@loop 0 for minor
  invariant
    a.wf(), m == a.no_rows, n == a.c(), qrdata@.len() == m * n, m * n <= isize::MAX, rdiag@.len() == diag_count, diag_count == imin(m as int, n as int),
    qr_state(qrdata@, rdiag@, a, minor as int),
@at L0.start
  let ghost d0 = qrdata@;
  let ghost rd0 = rdiag@;
@at L0.end
  proof { qr_advance(d0, rd0, qrdata@, rdiag@, a, minor as int); }
@at end
  proof { qr_diag(qrdata@, rdiag@, a, diag_count as int); }

@fn QRDecomposition::perform_householder_reflection
@props C19
@requires
  m > 0, n > 0, m * n <= isize::MAX, minor < m, minor < n, old(qrdata)@.len() == m * n, old(rdiag)@.len() == imin(m as int, n as int),
@ensures
  qr_step(old(qrdata)@, old(rdiag)@, final(qrdata)@, final(rdiag)@, m as int, n as int, minor as int),
@at start
  let ghost d0 = qrdata@;
  let ghost rd0 = rdiag@;
  let ghost gm = m as int;
  let ghost gn = n as int;
  let ghost gk = minor as int;
  let ghost x0 = rcol(d0, rd0, gn, gk, gk);
@loop 0 for i
  invariant
    m > 0, n > 0, m * n <= isize::MAX, minor < m, minor < n, qrdata@ == d0, d0.len() == m * n, gm == m, gn == n, gk == minor,
    v(scale) >= 0real,
    forall|t: int| gk <= t < i ==> rabs(#[trigger] el(d0, gn, t, gk)) <= v(scale),
    v(scale) != 0real ==> exists|t: int| gk <= t < i && #[trigger] el(d0, gn, t, gk) != 0real,
@at L0.start
  proof { assert(el(d0, gn, i as int, gk) == crate::v(d0[i * gn + gk])); }
@at L0.after
  let ghost sc = v(scale);
@loop 1 for i
  invariant
    m > 0, n > 0, m * n <= isize::MAX, minor < m, minor < n, d0.len() == m * n, qrdata@.len() == m * n, gm == m, gn == n, gk == minor, sc == v(scale), sc > 0real,
    forall|t: int, c: int| 0 <= t < gm && 0 <= c < gn ==> #[trigger] el(qrdata@, gn, t, c) == if c == gk && gk <= t < i { el(d0, gn, t, c) / sc } else { el(d0, gn, t, c) },
    v(x_norm_sqr) == sum(|t: int| rsq2(el(d0, gn, t, gk) / sc), gk, i as int),
@at L1.start
  let ghost dk = qrdata@;
@at L1.end
  proof {
    let x = e_div(dk[i * gn + gk], scale);
    el_update(dk, gm, gn, i as int, gk, x);
    assert(qrdata@ == dk.update(i * gn + gk, x));
    assert(el(dk, gn, i as int, gk) == el(d0, gn, i as int, gk));
    let f = |t: int| rsq2(el(d0, gn, t, gk) / sc);
    assert(f(i as int) == crate::v(x) * crate::v(x));
  }
@at if0.thenend
  proof {
    let f = |t: int| rsq2(el(d0, gn, t, gk) / sc);
    let w = |t: int| if t < gk { 0real } else { x0(t) / sc };
    let g = |t: int| w(t) * w(t);
    dot_tail(w, w, gk, gm);
    assert forall|t: int| gk <= t < gm implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, gk, gm);
    let q = crate::v(x_norm_sqr);
    assert(q == vdot(w, w, gm));
    let t0 = choose|t: int| gk <= t < gm && #[trigger] el(d0, gn, t, gk) != 0real;
    let e0 = el(d0, gn, t0, gk);
    assert(e0 / sc != 0real) by (nonlinear_arith) requires e0 != 0real, sc > 0real;
    assert(w(t0) != 0real);
    dot_pos(w, gm, t0);
    rsqrt_def(q);
    let r = rsqrt(q);
    assert(r > 0real) by (nonlinear_arith) requires r >= 0real, r * r == q, q > 0real;
    assert((-r) * (-r) == r * r) by (nonlinear_arith);
    let wk = w(gk);
    assert(el(qrdata@, gn, gk, gk) == wk);
    let av = crate::v(a);
    assert(av * wk <= 0real) by (nonlinear_arith) requires (wk > 0real && av == -r) || (wk <= 0real && av == r), r > 0real;
    assert(av != 0real && av * av == vdot(w, w, gm));
  }
@at if0.after
  let ghost d1 = qrdata@;
  let ghost av = v(a);
  let ghost w = |t: int| if t < gk { 0real } else { x0(t) / sc };
  proof {
    assert(sc == 0real ==> av == 0real && d1 == d0);
    assert(sc != 0real ==> av != 0real && av * av == vdot(w, w, gm) && av * w(gk) <= 0real);
  }
@at L2.before
  let ghost d2 = qrdata@;
  let ghost h = hcol(d2, gm, gn, gk);
  let ghost tau = htau(d2, gm, gn, gk);
  let ghost hk = h(gk);
  proof {
    let x = e_sub(d1[gk * gn + gk], a);
    el_update(d1, gm, gn, gk, gk, x);
    assert(d2 == d1.update(gk * gn + gk, x));
    assert forall|t: int| 0 <= t < gm implies #[trigger] h(t) == (if t == gk { w(t) - av } else { w(t) }) by { }
    house(w, av, gk, gm, h);
    assert(el(d2, gn, gk, gk) == hk);
    house_col(x0, w, sc, av, gk, gm, h, tau);
  }
@loop 2 for column
  invariant
    m > 0, n > 0, m * n <= isize::MAX, minor < m, minor < n, d0.len() == m * n, d2.len() == m * n, qrdata@.len() == m * n, gm == m, gn == n, gk == minor,
    av == v(a), av != 0real, h == hcol(d2, gm, gn, gk), tau == htau(d2, gm, gn, gk), hk == h(gk), av * hk != 0real, tau == -1real / (av * hk),
    forall|t: int, c: int| 0 <= t < gm && gk < c < gn ==> #[trigger] el(d2, gn, t, c) == el(d0, gn, t, c),
    forall|t: int, c: int| 0 <= t < gm && 0 <= c < gn && !(gk < c < column) ==> #[trigger] el(qrdata@, gn, t, c) == el(d2, gn, t, c),
    forall|t: int, c: int| 0 <= t < gm && gk < c < column ==> #[trigger] el(qrdata@, gn, t, c) == hrefl(d2, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t),
@at L2.start
  let ghost dc = qrdata@;
  let ghost gc = column as int;
  let ghost xc = rcol(d0, rd0, gn, gk, gc);
@loop 2.0 for row
  invariant
    m > 0, n > 0, m * n <= isize::MAX, minor < m, minor < n, minor < column, column < n, qrdata@ == dc, dc.len() == m * n, gm == m, gn == n, gk == minor, gc == column,
    h == hcol(d2, gm, gn, gk),
    forall|t: int| 0 <= t < gm ==> #[trigger] el(dc, gn, t, gk) == el(d2, gn, t, gk),
    v(x_dot_u) == sum(|t: int| h(t) * el(dc, gn, t, gc), gk, row as int),
@at L2.0.start
  proof {
    let f = |t: int| h(t) * el(dc, gn, t, gc);
    assert(el(dc, gn, row as int, gk) == el(d2, gn, row as int, gk));
    assert(f(row as int) == crate::v(dc[row * gn + gk]) * crate::v(dc[row * gn + gc]));
  }
@at let:factor.after
  let ghost fac = v(factor);
  proof {
    let f = |t: int| h(t) * el(dc, gn, t, gc);
    let g = |t: int| h(t) * xc(t);
    assert forall|t: int| gk <= t < gm implies #[trigger] f(t) == g(t) by { assert(el(dc, gn, t, gc) == el(d2, gn, t, gc)); }
    sum_ext(f, g, gk, gm);
    dot_tail(h, xc, gk, gm);
    assert(el(dc, gn, gk, gk) == el(d2, gn, gk, gk));
    let (z, y) = (crate::v(x_dot_u), av * hk);
    assert(crate::v(a) * crate::v(dc[gk * gn + gk]) == y);
    assert(z / y == -((-1real / y) * z)) by (nonlinear_arith) requires y != 0real;
    assert(fac == -(tau * vdot(h, xc, gm)));
  }
@loop 2.1 for row
  invariant
    m > 0, n > 0, m * n <= isize::MAX, minor < m, minor < n, minor < column, column < n, qrdata@.len() == m * n, dc.len() == m * n, gm == m, gn == n, gk == minor, gc == column,
    h == hcol(d2, gm, gn, gk), fac == v(factor),
    forall|t: int| 0 <= t < gm ==> #[trigger] el(dc, gn, t, gk) == el(d2, gn, t, gk),
    forall|t: int, c: int| 0 <= t < gm && 0 <= c < gn ==> #[trigger] el(qrdata@, gn, t, c) == if c == gc && gk <= t < row { el(dc, gn, t, c) + fac * h(t) } else { el(dc, gn, t, c) },
@at L2.1.start
  let ghost dr = qrdata@;
@at L2.1.end
  proof {
    let gr = row as int;
    let x = e_add(dr[gr * gn + gc], e_mul(factor, dr[gr * gn + gk]));
    el_update(dr, gm, gn, gr, gc, x);
    assert(qrdata@ == dr.update(gr * gn + gc, x));
    assert(el(dr, gn, gr, gk) == el(dc, gn, gr, gk));
    assert(el(dr, gn, gr, gc) == el(dc, gn, gr, gc));
  }
@at L2.end
  proof {
    assert forall|t: int| 0 <= t < gm implies #[trigger] el(qrdata@, gn, t, gc) == hrefl(d2, gm, gn, gk, xc)(t) by {
      assert(el(dc, gn, t, gc) == el(d2, gn, t, gc));
      assert(el(d2, gn, t, gc) == el(d0, gn, t, gc));
      let (p, q) = (tau * vdot(h, xc, gm), h(t));
      assert((-p) * q == -(p * q)) by (nonlinear_arith);
      if t < gk { assert(q == 0real); assert(p * 0real == 0real) by (nonlinear_arith); }
    }
  }
@at if2.thenend
  proof {
    let e = qrdata@;
    let h2 = hcol(e, gm, gn, gk);
    assert forall|t: int| 0 <= t < gm implies #[trigger] h(t) == h2(t) by { if t >= gk { assert(el(e, gn, t, gk) == el(d2, gn, t, gk)); } }
    dot_ext(h, h2, h, h2, gm);
    assert(el(e, gn, gk, gk) == el(d2, gn, gk, gk));
    assert(htau(e, gm, gn, gk) == tau);
    assert forall|t: int, c: int| 0 <= t < gm && gk <= c < gn implies #[trigger] hrefl(d2, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t) == hrefl(e, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t) by {
      let x = rcol(d0, rd0, gn, gk, c);
      refl_ext(h, h2, tau, gm, x, x);
      assert(refl(h, tau, gm, x)(t) == refl(h2, tau, gm, x)(t));
    }
    assert forall|t: int, c: int| 0 <= t < gm && gk < c < gn implies #[trigger] el(e, gn, t, c) == hrefl(e, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t) by {
      assert(el(e, gn, t, c) == hrefl(d2, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t));
    }
    assert forall|t: int, c: int| 0 <= t < gm && 0 <= c < gk && c < gn implies #[trigger] el(e, gn, t, c) == el(d0, gn, t, c) by { assert(el(e, gn, t, c) == el(d2, gn, t, c)); }
    assert forall|t: int| 0 <= t < gk implies #[trigger] el(e, gn, t, gk) == el(d0, gn, t, gk) by { assert(el(e, gn, t, gk) == el(d2, gn, t, gk)); }
    assert forall|t: int| 0 <= t < gm implies #[trigger] rcol(e, rdiag@, gn, gk + 1, gk)(t) == hrefl(e, gm, gn, gk, x0)(t) by {
      assert(hrefl(d2, gm, gn, gk, rcol(d0, rd0, gn, gk, gk))(t) == hrefl(e, gm, gn, gk, x0)(t));
      assert(refl(h, tau, gm, x0)(t) == if t < gk { x0(t) } else if t == gk { sc * av } else { 0real });
      if t < gk { assert(el(e, gn, t, gk) == el(d0, gn, t, gk)); }
    }
    assert(sc * av != 0real) by (nonlinear_arith) requires sc != 0real, av != 0real;
    assert(qr_step(d0, rd0, e, rdiag@, gm, gn, gk));
  }
@at end
  proof {
    if av == 0real {
      assert(sc == 0real);
      let h2 = hcol(d0, gm, gn, gk);
      assert(qrdata@ == d0);
      assert forall|t: int| gk <= t < gm implies #[trigger] el(d0, gn, t, gk) == 0real by { assert(rabs(el(d0, gn, t, gk)) <= sc); }
      assert(el(d0, gn, gk, gk) == 0real);
      assert(htau(d0, gm, gn, gk) == 0real);
      assert forall|t: int, c: int| #![trigger hrefl(d0, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t)] 0 <= t < gm && gk <= c < gn implies hrefl(d0, gm, gn, gk, rcol(d0, rd0, gn, gk, c))(t) == rcol(d0, rd0, gn, gk, c)(t) by {
        let (p, q) = (vdot(h2, rcol(d0, rd0, gn, gk, c), gm), h2(t));
        assert((0real * p) * q == 0real) by (nonlinear_arith);
      }
      assert(sc * av == 0real) by (nonlinear_arith) requires sc == 0real;
      assert(qr_step(d0, rd0, qrdata@, rdiag@, gm, gn, gk));
    }
  }
@verbatim
// ---------------------------------------------------------------- C19: Q and R
pub mod qrm {
use super::*;
pub open spec fn rm(qr: &QRDecomposition<E>) -> Mt { |i: int, c: int| qr.r(i, c) }
pub open spec fn qm(qr: &QRDecomposition<E>) -> Mt { |i: int, c: int| qr.q(i, c) }
pub open spec fn orthonormal(q: Mt, m: int) -> bool { forall|c: int, e: int| 0 <= c < m && 0 <= e < m ==> #[trigger] mp(tr(q), q, m, c, e) == kd(c, e) }
pub open spec fn is_qr(q: Mt, r: Mt, a: &Matrix<E>) -> bool { forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < a.c() ==> #[trigger] mp(q, r, a.no_rows as int, i, c) == v(a.at(i, c)) }
pub proof fn q_orthonormal(qr: &QRDecomposition<E>)
  requires qr.wf(),
  ensures orthonormal(qm(qr), qr.m()),
{
  let (d, m, n, dim) = (qr.qr.data@, qr.m(), qr.n(), qr.dim());
  let q = qm(qr);
  assert forall|c: int, e: int| 0 <= c < m && 0 <= e < m implies #[trigger] mp(tr(q), q, m, c, e) == kd(c, e) by {
    let (bc, be) = (back(d, m, n, 0, dim, unit(c)), back(d, m, n, 0, dim, unit(e)));
    let f = |k: int| tr(q)(c, k) * q(k, e);
    let g = |k: int| bc(k) * be(k);
    assert forall|k: int| 0 <= k < m implies #[trigger] f(k) == g(k) by { }
    sum_ext(f, g, 0, m);
    back_dot(d, m, n, 0, dim, unit(c), unit(e));
    dot_unit(unit(c), e, m);
  }
}
// back is multiplication by Q
pub proof fn back_q(qr: &QRDecomposition<E>, x: Vc, b: Mt, j: int)
  requires qr.wf(), forall|k: int| 0 <= k < qr.m() ==> #[trigger] x(k) == b(k, j),
  ensures forall|i: int| 0 <= i < qr.m() ==> #[trigger] back(qr.qr.data@, qr.m(), qr.n(), 0, qr.dim(), x)(i) == mp(qm(qr), b, qr.m(), i, j),
{
  let (d, m, n, dim) = (qr.qr.data@, qr.m(), qr.n(), qr.dim());
  back_comb(d, m, n, 0, dim, x);
  let bm = bmat(d, m, n, 0, dim);
  assert forall|i: int| 0 <= i < m implies #[trigger] back(d, m, n, 0, dim, x)(i) == mp(qm(qr), b, m, i, j) by {
    let f = |t: int| x(t) * bm(i, t);
    let g = |t: int| qm(qr)(i, t) * b(t, j);
    assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) by { assert(x(t) == b(t, j)); let (p, q) = (x(t), bm(i, t)); assert(p * q == q * p) by (nonlinear_arith); }
    sum_ext(f, g, 0, m);
    assert(comb(x, bm, m)(i) == sum(f, 0, m));
  }
}
pub proof fn rcol_r(qr: &QRDecomposition<E>, c: int)
  requires qr.wf(), 0 <= c < qr.n(),
  ensures forall|i: int| 0 <= i < qr.m() ==> #[trigger] rcol(qr.qr.data@, qr.rdiag@, qr.n(), qr.dim(), c)(i) == rm(qr)(i, c),
{ }
pub proof fn qr_prod(qr: &QRDecomposition<E>, a: &Matrix<E>)
  requires qr.of(a),
  ensures is_qr(qm(qr), rm(qr), a),
{
  let (d, m, n, dim) = (qr.qr.data@, qr.m(), qr.n(), qr.dim());
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] mp(qm(qr), rm(qr), m, i, c) == v(a.at(i, c)) by {
    let x = rcol(d, qr.rdiag@, n, dim, c);
    rcol_r(qr, c);
    back_q(qr, x, rm(qr), c);
    reveal(qr_state);
    assert(back(d, m, n, 0, dim, x)(i) == v(a.at(i, c)));
  }
}
// the columns of a matrix h define the reflections H_k = I - 2 h_k h_k' / (h_k' h_k) (I where h(k, k) is zero) whose product is q
pub open spec fn reflectors(h: &Matrix<E>, q: Mt) -> bool {
  let (m, n) = (h.no_rows as int, h.c());
  forall|i: int, t: int| 0 <= i < m && 0 <= t < m ==> #[trigger] bmat(h.data@, m, n, 0, imin(m, n))(i, t) == q(i, t)
}
pub proof fn h_reflectors(qr: &QRDecomposition<E>, h: &Matrix<E>)
  requires
    qr.wf(), h.shaped(qr.m(), qr.n()),
    forall|i: int, k: int| 0 <= i < qr.m() && 0 <= k < qr.n() && k <= i ==> v(#[trigger] h.at(i, k)) == el(qr.qr.data@, qr.n(), i, k),
  ensures reflectors(h, qm(qr)),
{
  let (d, m, n, dim) = (qr.qr.data@, qr.m(), qr.n(), qr.dim());
  assert forall|i: int, t: int| 0 <= i < m && 0 <= t < m implies #[trigger] bmat(h.data@, m, n, 0, dim)(i, t) == qm(qr)(i, t) by {
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < dim && c <= i implies #[trigger] el(h.data@, n, i, c) == el(d, n, i, c) by { assert(v(h.at(i, c)) == el(d, n, i, c)); }
    back_ext(h.data@, d, m, n, 0, dim, unit(t), unit(t));
    assert(back(h.data@, m, n, 0, dim, unit(t))(i) == back(d, m, n, 0, dim, unit(t))(i));
  }
}
pub proof fn r_upper(qr: &QRDecomposition<E>)
  requires qr.wf(),
  ensures upper(rm(qr), qr.m(), qr.n()),
{ }
}
pub use qrm::*;
@endverbatim
@fn QRDecomposition::get_h
@props C19
@requires self.wf(),
@ensures
  r.shaped(self.m(), self.n()),
  forall|i: int, k: int| 0 <= i < self.m() && 0 <= k < self.n() ==> v(#[trigger] r.at(i, k)) == (if i >= k { el(self.qr.data@, self.n(), i, k) } else { 0real }),
  reflectors(&r, qm(self)),
@loop 0 for i
  invariant
    self.wf(), m == self.m(), n == self.n(), m * n <= isize::MAX, hdata@.len() == m * n,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] hdata@[i2 * n + k]) == (if i2 >= k { el(self.qr.data@, n as int, i2, k) } else { 0real }),
@loop 0.0 for j
  invariant
    self.wf(), m == self.m(), n == self.n(), m * n <= isize::MAX, hdata@.len() == m * n, i < m,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] hdata@[i2 * n + k]) == (if i2 >= k { el(self.qr.data@, n as int, i2, k) } else { 0real }),
    forall|k: int| 0 <= k < j ==> v(#[trigger] hdata@[i * n + k]) == (if i >= k { el(self.qr.data@, n as int, i as int, k) } else { 0real }),
@at end
  proof {
    assert forall|x: Matrix<E>| #![trigger x.wf()] x.shaped(self.m(), self.n()) && x.data@ == hdata@ implies reflectors(&x, qm(self)) by {
      assert forall|i: int, k: int| 0 <= i < self.m() && 0 <= k < self.n() && k <= i implies v(#[trigger] x.at(i, k)) == el(self.qr.data@, self.n(), i, k) by { assert(v(hdata@[i * n + k]) == el(self.qr.data@, n as int, i, k)); }
      h_reflectors(self, &x);
    }
  }

@fn QRDecomposition::get_r
@props C19
@requires self.wf(),
@ensures
  r.shaped(self.m(), self.n()),
  forall|i: int, k: int| 0 <= i < self.m() && 0 <= k < self.n() ==> v(#[trigger] r.at(i, k)) == self.r(i, k),
  upper(fnof(&r), self.m(), self.n()),
@loop 0 for i
  invariant
    self.wf(), m == self.m(), n == self.n(), m * n <= isize::MAX, rdata@.len() == m * n,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] rdata@[i2 * n + k]) == self.r(i2, k),
@loop 0.0 for j
  invariant
    self.wf(), m == self.m(), n == self.n(), m * n <= isize::MAX, rdata@.len() == m * n, i < m,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] rdata@[i2 * n + k]) == self.r(i2, k),
    forall|k: int| 0 <= k < j ==> v(#[trigger] rdata@[i * n + k]) == self.r(i as int, k),

@fn QRDecomposition::get_q
@props C19
@requires self.wf(), self.qr.no_rows * self.qr.no_rows <= isize::MAX,
@ensures
  r.shaped(self.m(), self.m()),
  forall|i: int, c: int| 0 <= i < self.m() && 0 <= c < self.m() ==> v(#[trigger] r.at(i, c)) == qm(self)(i, c),
  orthonormal(fnof(&r), self.m()),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) ==> is_qr(fnof(&r), rm(self), &a),
@at start
  let ghost gm = self.m();
  let ghost gn = self.n();
  let ghost d = self.qr.data@;
  let ghost dim = self.dim();
@loop 0 for minor
  invariant
    self.wf(), m == gm, gm == self.m(), m * m <= isize::MAX, qdata@.len() == m * m,
    forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm ==> #[trigger] el(qdata@, gm, i, c) == (if i == c && c < minor { 1real } else { 0real }),
@at L0.start
  let ghost q0 = qdata@;
@at L0.end
  proof {
    el_update(q0, gm, gm, minor as int, minor as int, e_one());
  }
@loop 1 for minor
  invariant
    self.wf(), m == gm, n == gn, gm == self.m(), gn == self.n(), dim == self.dim(), d == self.qr.data@, d.len() == gm * gn, m * m <= isize::MAX, m * n <= isize::MAX, qdata@.len() == m * m, $lo == 0, $hi == dim,
    forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm ==> #[trigger] el(qdata@, gm, i, c) == back(d, gm, gn, $i, dim, unit(c))(i),
@at L1.start
  let ghost q0 = qdata@;
  let ghost gk = minor as int;
  let ghost h = hcol(d, gm, gn, gk);
  let ghost tau = htau(d, gm, gn, gk);
@loop 1.0 for column
  invariant
    self.wf(), m == gm, n == gn, gm == self.m(), gn == self.n(), dim == self.dim(), d == self.qr.data@, d.len() == gm * gn, m * m <= isize::MAX, m * n <= isize::MAX, qdata@.len() == m * m, q0.len() == m * m,
    gk == minor, 0 <= gk < dim, h == hcol(d, gm, gn, gk), tau == htau(d, gm, gn, gk), el(d, gn, gk, gk) != 0real,
    forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm ==> #[trigger] el(qdata@, gm, i, c) == (if gk <= c < column { refl(h, tau, gm, colof(elm(q0, gm), c))(i) } else { el(q0, gm, i, c) }),
@at L1.0.start
  let ghost qc = qdata@;
  let ghost gc = column as int;
  let ghost xc = colof(elm(q0, gm), gc);
@loop 1.0.0 for row
  invariant
    self.wf(), m == gm, n == gn, gm == self.m(), gn == self.n(), d == self.qr.data@, d.len() == gm * gn, m * m <= isize::MAX, m * n <= isize::MAX, qdata@ == qc, qc.len() == m * m, gk == minor, minor < m, minor < n, gc == column, column < m,
    h == hcol(d, gm, gn, gk), xc == colof(elm(q0, gm), gc),
    forall|i: int| 0 <= i < gm ==> #[trigger] el(qc, gm, i, gc) == el(q0, gm, i, gc),
    v(x_dot_u) == sum(|t: int| h(t) * xc(t), gk, row as int),
    v(u_dot_u) == sum(|t: int| h(t) * h(t), gk, row as int),
@at L1.0.0.start
  proof {
    let gr = row as int;
    assert(h(gr) == crate::v(d[gr * gn + gk]));
    assert(el(qc, gm, gr, gc) == crate::v(qc[gr * gm + gc]));
    assert(xc(gr) == el(q0, gm, gr, gc));
    assert(gr * gn + gk < d.len() && gr * gm + gc < qc.len()) by (nonlinear_arith) requires 0 <= gr < gm, gk < gn, gc < gm, d.len() == gm * gn, qc.len() == gm * gm;
  }
@at let:factor.after
  let ghost fac = v(factor);
  proof {
    dot_tail(h, xc, gk, gm);
    dot_tail(h, h, gk, gm);
    htau_ok(d, gm, gn, gk);
    let (p, w) = (vdot(h, xc, gm), vdot(h, h, gm));
    assert((p + p) / w == (2real / w) * p) by (nonlinear_arith) requires w > 0real;
    assert(fac == tau * p);
  }
@loop 1.0.1 for row
  invariant
    self.wf(), m == gm, n == gn, gm == self.m(), gn == self.n(), d == self.qr.data@, d.len() == gm * gn, m * m <= isize::MAX, m * n <= isize::MAX, qdata@.len() == m * m, qc.len() == m * m, gk == minor, minor < m, minor < n, gc == column, column < m,
    h == hcol(d, gm, gn, gk), fac == v(factor),
    forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm ==> #[trigger] el(qdata@, gm, i, c) == (if c == gc && gk <= i < row { el(qc, gm, i, c) - fac * h(i) } else { el(qc, gm, i, c) }),
@at L1.0.1.start
  let ghost qr0 = qdata@;
  proof {
    let gr = row as int;
    assert(gr * gn + gk < d.len() && gr * gm + gc < qc.len()) by (nonlinear_arith) requires 0 <= gr < gm, gk < gn, gc < gm, d.len() == gm * gn, qc.len() == gm * gm;
  }
@at L1.0.1.end
  proof {
    let gr = row as int;
    let x = e_sub(qr0[gr * gm + gc], e_mul(factor, d[gr * gn + gk]));
    el_update(qr0, gm, gm, gr, gc, x);
    assert(qdata@ == qr0.update(gr * gm + gc, x));
    assert(el(qr0, gm, gr, gc) == el(qc, gm, gr, gc));
    assert(h(gr) == crate::v(d[gr * gn + gk]));
  }
@at L1.0.end
  proof {
    assert forall|i: int| 0 <= i < gm implies #[trigger] el(qdata@, gm, i, gc) == refl(h, tau, gm, xc)(i) by {
      assert(el(qc, gm, i, gc) == el(q0, gm, i, gc));
      if i < gk { let p = tau * vdot(h, xc, gm); assert(p * 0real == 0real) by (nonlinear_arith); }
    }
    assert forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm implies #[trigger] el(qdata@, gm, i, c) == (if gk <= c < column + 1 { refl(h, tau, gm, colof(elm(q0, gm), c))(i) } else { el(q0, gm, i, c) }) by {
      if c != gc { assert(el(qdata@, gm, i, c) == el(qc, gm, i, c)); }
    }
  }
@at L1.end
  proof {
    assert forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm implies #[trigger] el(qdata@, gm, i, c) == back(d, gm, gn, gk, dim, unit(c))(i) by {
      let b1 = back(d, gm, gn, gk + 1, dim, unit(c));
      let xc = colof(elm(q0, gm), c);
      assert(veq(xc, b1, gm)) by { assert forall|t: int| 0 <= t < gm implies #[trigger] xc(t) == b1(t) by { assert(el(q0, gm, t, c) == b1(t)); } }
      refl_ext(h, h, tau, gm, xc, b1);
      assert(refl(h, tau, gm, xc)(i) == refl(h, tau, gm, b1)(i));
      assert(el(q0, gm, i, c) == b1(i));
      if el(d, gn, gk, gk) != 0real {
        if c < gk {
          back_unit(d, gm, gn, gk + 1, dim, c);
          back_unit(d, gm, gn, gk, dim, c);
          assert(b1(i) == unit(c)(i));
          assert(back(d, gm, gn, gk, dim, unit(c))(i) == unit(c)(i));
        }
      } else {
        let (p, q) = (vdot(h, b1, gm), h(i));
        assert((0real * p) * q == 0real) by (nonlinear_arith);
      }
    }
  }
@at end
  proof {
    assert forall|x: Matrix<E>| #![trigger x.wf()] x.shaped(gm, gm) && x.data@ == qdata@ implies orthonormal(fnof(&x), gm) && (forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm ==> crate::v(#[trigger] x.at(i, c)) == qm(self)(i, c)) && (forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) ==> is_qr(fnof(&x), rm(self), &a)) by {
      q_orthonormal(self);
      let q = qm(self);
      let xf = fnof(&x);
      assert forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm implies #[trigger] xf(i, c) == q(i, c) by { assert(el(qdata@, gm, i, c) == back(d, gm, gn, 0, dim, unit(c))(i)); }
      assert forall|i: int, c: int| 0 <= i < gm && 0 <= c < gm implies crate::v(#[trigger] x.at(i, c)) == qm(self)(i, c) by { assert(xf(i, c) == q(i, c)); }
      assert forall|c: int, e: int| 0 <= c < gm && 0 <= e < gm implies #[trigger] mp(tr(xf), xf, gm, c, e) == kd(c, e) by {
        mp_ext(tr(xf), tr(q), xf, q, gm, c, c, e, e);
        assert(mp(tr(q), q, gm, c, e) == kd(c, e));
      }
      assert forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) implies is_qr(xf, rm(self), &a) by {
        qr_prod(self, &a);
        assert forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < a.c() implies #[trigger] mp(xf, rm(self), gm, i, c) == crate::v(a.at(i, c)) by {
          mp_ext(xf, q, rm(self), rm(self), gm, i, i, c, c);
          assert(mp(q, rm(self), gm, i, c) == crate::v(a.at(i, c)));
        }
      }
    }
  }
@verbatim
// ---------------------------------------------------------------- C20: least squares
pub mod qrs {
use super::*;
// H_(k-1) * ... * H_0 * x
pub open spec fn fore(d: Seq<E>, m: int, n: int, k: int, x: Vc) -> Vc
  decreases k
{ if k <= 0 { x } else { hrefl(d, m, n, k - 1, fore(d, m, n, k - 1, x)) } }
pub proof fn back_fore(d: Seq<E>, m: int, n: int, k: int, x: Vc)
  requires 0 <= k <= m,
  ensures veq(back(d, m, n, 0, k, fore(d, m, n, k, x)), x, m),
  decreases k,
{
  if k > 0 {
    let y = fore(d, m, n, k - 1, x);
    back_peel(d, m, n, 0, k - 1, fore(d, m, n, k, x));
    htau_ok(d, m, n, k - 1);
    refl_refl(hcol(d, m, n, k - 1), htau(d, m, n, k - 1), m, y);
    back_ext(d, d, m, n, 0, k - 1, hrefl(d, m, n, k - 1, fore(d, m, n, k, x)), y);
    back_fore(d, m, n, k - 1, x);
    assert forall|i: int| 0 <= i < m implies #[trigger] back(d, m, n, 0, k, fore(d, m, n, k, x))(i) == x(i) by {
      assert(back(d, m, n, 0, k - 1, hrefl(d, m, n, k - 1, fore(d, m, n, k, x)))(i) == back(d, m, n, 0, k - 1, y)(i));
      assert(back(d, m, n, 0, k - 1, y)(i) == x(i));
    }
  }
}
// A*x = 0 exactly when R*x = 0
pub proof fn qr_null(qr: &QRDecomposition<E>, a: &Matrix<E>, x: Seq<real>)
  requires qr.of(a),
  ensures nullv(fnof(a), qr.m(), qr.n(), x) <==> nullv(rm(qr), qr.m(), qr.n(), x),
{
  let d = qr.qr.data@; let m = qr.m(); let n = qr.n(); let dim = qr.dim();
  let rx = |i: int| mp(rm(qr), col(x), n, i, 0);
  let b = mm(rm(qr), col(x), n);
  back_q(qr, rx, b, 0);
  qr_prod(qr, a);
  let y = back(d, m, n, 0, dim, rx);
  assert forall|i: int| 0 <= i < m implies #[trigger] mp(fnof(a), col(x), n, i, 0) == y(i) by {
    assert(y(i) == mp(qm(qr), b, m, i, 0));
    mp_assoc(qm(qr), rm(qr), col(x), m, n, i, 0);
    let qrm = mm(qm(qr), rm(qr), m);
    assert forall|k: int| 0 <= k < n implies #[trigger] qrm(i, k) == fnof(a)(i, k) by { assert(mp(qm(qr), rm(qr), m, i, k) == v(a.at(i, k))); }
    mp_ext(qrm, fnof(a), col(x), col(x), n, i, i, 0, 0);
  }
  back_dot(d, m, n, 0, dim, rx, rx);
  if nullv(fnof(a), m, n, x) {
    let f = |t: int| y(t) * y(t);
    assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == 0real by { assert(mp(fnof(a), col(x), n, t, 0) == 0real); assert(y(t) == 0real); }
    sum_zero(f, 0, m);
    assert(vdot(y, y, m) == 0real);
    assert forall|i: int| 0 <= i < m implies #[trigger] mp(rm(qr), col(x), n, i, 0) == 0real by { if rx(i) != 0real { dot_pos(rx, m, i); } }
  }
  if nullv(rm(qr), m, n, x) {
    let f = |t: int| rx(t) * rx(t);
    assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == 0real by { assert(mp(rm(qr), col(x), n, t, 0) == 0real); }
    sum_zero(f, 0, m);
    assert(vdot(y, y, m) == 0real);
    assert forall|i: int| 0 <= i < m implies #[trigger] mp(fnof(a), col(x), n, i, 0) == 0real by { if y(i) != 0real { dot_pos(y, m, i); } assert(mp(fnof(a), col(x), n, i, 0) == y(i)); }
  }
}
pub proof fn qr_dependent(qr: &QRDecomposition<E>, a: &Matrix<E>)
  requires qr.of(a),
  ensures dependent(fnof(a), qr.m(), qr.n()) <==> dependent(rm(qr), qr.m(), qr.n()),
{
  let m = qr.m(); let n = qr.n();
  if dependent(fnof(a), m, n) { let x = choose|x: Seq<real>| #[trigger] nullv(fnof(a), m, n, x) && nonzero(x); qr_null(qr, a, x); assert(nullv(rm(qr), m, n, x)); }
  if dependent(rm(qr), m, n) { let x = choose|x: Seq<real>| #[trigger] nullv(rm(qr), m, n, x) && nonzero(x); qr_null(qr, a, x); assert(nullv(fnof(a), m, n, x)); }
}
pub proof fn qr_full(qr: &QRDecomposition<E>, a: &Matrix<E>)
  requires qr.of(a), qr.n() <= qr.m(), a.wf(),
  ensures dependent(fnof(a), qr.m(), qr.n()) <==> !qr.full(),
{
  let m = qr.m(); let n = qr.n();
  let r = rm(qr);
  qr_dependent(qr, a);
  r_upper(qr);
  if qr.full() {
    assert(nzdiag(r, n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] r(i, i) != 0real by { assert(v(qr.rdiag@[i]) != 0real); } }
    assert(upper(r, n, n));
    if dependent(r, m, n) {
      let x = choose|x: Seq<real>| #[trigger] nullv(r, m, n, x) && nonzero(x);
      let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] != 0real;
      assert forall|k: int| 0 <= k < n implies #[trigger] mp(r, col(x), n, k, 0) == 0real by { }
      upper_inj(r, col(x), n, 0, i);
      assert(col(x)(i, 0) == x[i]);
    }
  } else {
    let k = choose|k: int| 0 <= k < n && v(#[trigger] qr.rdiag@[k]) == 0real;
    assert(r(k, k) == 0real);
    let j = first_zero(r, k);
    upper_dep(r, m, n, j);
    assert(dependent(r, m, n));
  }
}
// the normal equations: A'*(A*X) = A'*B
pub open spec fn normal(a: &Matrix<E>, x: &Matrix<E>, b: &Matrix<E>) -> bool {
  let m = a.no_rows as int;
  let n = a.c();
  &&& x.shaped(n, b.c())
  &&& forall|c: int, j: int| 0 <= c < n && 0 <= j < b.c() ==> #[trigger] mp(tr(fnof(a)), mm(fnof(a), fnof(x), n), m, c, j) == mp(tr(fnof(a)), fnof(b), m, c, j)
}
// the squared length of column j of A*Z - B
pub open spec fn resid(a: Mt, z: Mt, b: Mt, n: int, j: int) -> Vc { |i: int| mp(a, z, n, i, j) - b(i, j) }
pub open spec fn rss(a: Mt, z: Mt, b: Mt, m: int, n: int, j: int) -> real { vdot(resid(a, z, b, n, j), resid(a, z, b, n, j), m) }
// no matrix has a smaller residual
pub open spec fn least_squares(a: &Matrix<E>, x: &Matrix<E>, b: &Matrix<E>) -> bool {
  let m = a.no_rows as int;
  let n = a.c();
  &&& x.shaped(n, b.c())
  &&& forall|z: Mt, j: int| 0 <= j < b.c() ==> rss(fnof(a), fnof(x), fnof(b), m, n, j) <= #[trigger] rss(fnof(a), z, fnof(b), m, n, j)
}
pub proof fn normal_least(a: &Matrix<E>, x: &Matrix<E>, b: &Matrix<E>)
  requires normal(a, x, b), a.wf(), b.wf(), b.no_rows == a.no_rows,
  ensures least_squares(a, x, b),
{
  let m = a.no_rows as int;
  let n = a.c();
  let af = fnof(a); let xf = fnof(x); let bf = fnof(b);
  assert forall|z: Mt, j: int| 0 <= j < b.c() implies rss(af, xf, bf, m, n, j) <= #[trigger] rss(af, z, bf, m, n, j) by {
    let rx = resid(af, xf, bf, n, j);
    let rz = resid(af, z, bf, n, j);
    let w = |i: int, q: int| z(i, q) - xf(i, q);
    let aw = |i: int| mp(af, w, n, i, j);
    // rz = rx + aw
    assert forall|i: int| 0 <= i < m implies #[trigger] rz(i) == rx(i) - (-1real) * aw(i) by {
      mp_sub(af, z, xf, w, n, i, j);
      let p = aw(i);
      assert((-1real) * p == -p) by (nonlinear_arith);
    }
    dot_axpy(rx, aw, -1real, rz, rz, m);
    dot_comm(rx, rz, m);
    dot_comm(aw, rz, m);
    dot_axpy(rx, aw, -1real, rz, rx, m);
    dot_axpy(rx, aw, -1real, rz, aw, m);
    dot_comm(rx, aw, m);
    // rx . aw = 0
    let axb = mm(af, xf, n);
    let rr = |i: int, q: int| resid(af, xf, bf, n, j)(i);
    let f = |i: int| aw(i) * rx(i);
    let g = |i: int, c: int| af(i, c) * w(c, j) * rx(i);
    assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == inner(g, 0, n)(i) by {
      let p = |c: int| af(i, c) * w(c, j);
      let q = |c: int| g(i, c);
      let s = rx(i);
      assert forall|c: int| 0 <= c < n implies #[trigger] q(c) == s * p(c) by { let t = p(c); assert(t * s == s * t) by (nonlinear_arith); }
      sum_scale(p, q, s, 0, n);
      let t = sum(p, 0, n);
      assert(t * s == s * t) by (nonlinear_arith);
    }
    sum_ext(f, inner(g, 0, n), 0, m);
    sum_swap(g, 0, m, 0, n);
    assert forall|c: int| 0 <= c < n implies #[trigger] outer(g, 0, m)(c) == 0real by {
      let p = |i: int| tr(af)(c, i) * rr(i, j);
      let q = |i: int| g(i, c);
      let s = w(c, j);
      assert forall|i: int| 0 <= i < m implies #[trigger] q(i) == s * p(i) by { let (e, h) = (af(i, c), rx(i)); assert((e * s) * h == s * (e * h)) by (nonlinear_arith); }
      sum_scale(p, q, s, 0, m);
      mp_sub(tr(af), axb, bf, rr, m, c, j);
      assert(mp(tr(af), axb, m, c, j) == mp(tr(af), bf, m, c, j));
      assert(sum(p, 0, m) == mp(tr(af), rr, m, c, j));
      assert(s * 0real == 0real) by (nonlinear_arith);
    }
    sum_zero(outer(g, 0, m), 0, n);
    assert(vdot(aw, rx, m) == 0real);
    dot_nonneg(aw, m);
    let waw = vdot(aw, aw, m);
    assert((-1real) * waw == -waw) by (nonlinear_arith);
    assert((-1real) * 0real == 0real) by (nonlinear_arith);
  }
}
// the columns of A and of R have the same inner products
pub proof fn gram(qr: &QRDecomposition<E>, a: &Matrix<E>, c: int, x: Vc)
  requires qr.of(a), 0 <= c < qr.n(),
  ensures vdot(colof(fnof(a), c), back(qr.qr.data@, qr.m(), qr.n(), 0, qr.dim(), x), qr.m()) == vdot(colof(rm(qr), c), x, qr.m()),
{
  let d = qr.qr.data@; let m = qr.m(); let n = qr.n(); let dim = qr.dim();
  let rc = rcol(d, qr.rdiag@, n, dim, c);
  rcol_r(qr, c);
  back_dot(d, m, n, 0, dim, rc, x);
  let y = back(d, m, n, 0, dim, x);
  reveal(qr_state);
  assert forall|i: int| 0 <= i < m implies #[trigger] colof(fnof(a), c)(i) == back(d, m, n, 0, dim, rc)(i) by { assert(back(d, m, n, 0, dim, rc)(i) == v(a.at(i, c))); }
  dot_ext(colof(fnof(a), c), back(d, m, n, 0, dim, rc), y, y, m);
  dot_ext(colof(rm(qr), c), rc, x, x, m);
}
// R*X = Y in the first n rows, Y = Q'*B: the normal equations hold
pub proof fn qr_normal(qr: &QRDecomposition<E>, a: &Matrix<E>, x: &Matrix<E>, b: &Matrix<E>)
  requires
    qr.of(a), a.wf(), b.wf(), b.no_rows == a.no_rows, qr.n() <= qr.m(), x.shaped(qr.n(), b.c()),
    forall|i: int, j: int| 0 <= i < qr.n() && 0 <= j < b.c() ==> #[trigger] mp(rm(qr), fnof(x), qr.n(), i, j) == fore(qr.qr.data@, qr.m(), qr.n(), qr.n(), colof(fnof(b), j))(i),
  ensures normal(a, x, b),
{
  let d = qr.qr.data@; let m = qr.m(); let n = qr.n(); let dim = qr.dim();
  let af = fnof(a); let xf = fnof(x); let bf = fnof(b);
  qr_prod(qr, a);
  r_upper(qr);
  assert forall|c: int, j: int| 0 <= c < n && 0 <= j < b.c() implies #[trigger] mp(tr(af), mm(af, xf, n), m, c, j) == mp(tr(af), bf, m, c, j) by {
    let ac = colof(af, c);
    let rc = colof(rm(qr), c);
    let y = fore(d, m, n, n, colof(bf, j));
    let rxm = mm(rm(qr), xf, n);
    let rx = colof(rxm, j);
    // A*X_j = back(R*X_j)
    back_q(qr, rx, rxm, j);
    let bx = back(d, m, n, 0, dim, rx);
    let by = back(d, m, n, 0, dim, y);
    back_fore(d, m, n, n, colof(bf, j));
    gram(qr, a, c, rx);
    gram(qr, a, c, y);
    let qrp = mm(qm(qr), rm(qr), m);
    let f = |i: int| tr(af)(c, i) * mm(af, xf, n)(i, j);
    let f2 = |i: int| ac(i) * bx(i);
    assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == f2(i) by {
      assert(bx(i) == mp(qm(qr), rxm, m, i, j));
      mp_assoc(qm(qr), rm(qr), xf, m, n, i, j);
      assert forall|k: int| 0 <= k < n implies #[trigger] qrp(i, k) == af(i, k) by { assert(mp(qm(qr), rm(qr), m, i, k) == v(a.at(i, k))); }
      mp_ext(qrp, af, xf, xf, n, i, i, j, j);
    }
    sum_ext(f, f2, 0, m);
    let g = |i: int| tr(af)(c, i) * bf(i, j);
    let g2 = |i: int| ac(i) * by(i);
    assert forall|i: int| 0 <= i < m implies #[trigger] g(i) == g2(i) by { assert(by(i) == colof(bf, j)(i)); }
    sum_ext(g, g2, 0, m);
    let h = |i: int| rc(i) * rx(i);
    let h2 = |i: int| rc(i) * y(i);
    assert forall|i: int| 0 <= i < m implies #[trigger] h(i) == h2(i) by {
      if i < n { assert(mp(rm(qr), xf, n, i, j) == y(i)); }
      else { assert(rm(qr)(i, c) == 0real); let (p, q) = (rx(i), y(i)); assert(0real * p == 0real * q) by (nonlinear_arith); }
    }
    sum_ext(h, h2, 0, m);
  }
}
}
pub use qrs::*;
impl QRDecomposition<E> {
  pub open spec fn full(&self) -> bool { forall|k: int| 0 <= k < self.n() ==> v(#[trigger] self.rdiag@[k]) != 0real }
}
@endverbatim
@fn QRDecomposition::is_full_rank
@props C20
@requires self.wf(), self.n() <= self.m(),
@ensures
  r == self.full(),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() ==> r == !dependent(fnof(&a), self.m(), self.n()),
@at start
  proof { assert forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() implies self.full() == !dependent(fnof(&a), self.m(), self.n()) by { qr_full(self, &a); } }
@loop 0 for j
  invariant
    self.wf(), self.n() <= self.m(),
    forall|k: int| 0 <= k < j ==> v(#[trigger] self.rdiag@[k]) != 0real,
    forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() ==> self.full() == !dependent(fnof(&a), self.m(), self.n()),

@fn QRDecomposition::solve
@props C20
@pre b.no_rows == self.m()
@requires self.wf(), b.wf(), self.n() <= self.m(),
@ensures
  r is Some <==> self.full(),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() ==> (r is None <==> dependent(fnof(&a), self.m(), self.n())),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && r is Some ==> normal(&a, &r->0, b) && least_squares(&a, &r->0, b),
@at let:m.after
  let ghost gm = m as int;
  let ghost gn = n as int;
  let ghost gx = nx as int;
  let ghost d = self.qr.data@;
  let ghost y0 = fnof(b);
  proof { assert(nx == b.c() && xdata@ == b.data@ && m * nx == b.data@.len()); }
@loop 0 for k
  invariant
    self.wf(), self.full(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), d == self.qr.data@, d.len() == gm * gn, gn <= gm, xdata@.len() == m * nx, m * nx <= isize::MAX, m * n <= isize::MAX,
    forall|i: int, c: int| 0 <= i < gm && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i, c) == fore(d, gm, gn, k as int, colof(y0, c))(i),
@at L0.start
  let ghost x0 = xdata@;
  let ghost gk = k as int;
  let ghost h = hcol(d, gm, gn, gk);
  let ghost tau = htau(d, gm, gn, gk);
  proof { assert(v(self.rdiag@[gk]) != 0real); assert(el(d, gn, gk, gk) != 0real); }
@loop 0.0 for j
  invariant
    self.wf(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), d == self.qr.data@, d.len() == gm * gn, gn <= gm, xdata@.len() == m * nx, x0.len() == m * nx, m * nx <= isize::MAX, m * n <= isize::MAX,
    gk == k, k < n, h == hcol(d, gm, gn, gk), tau == htau(d, gm, gn, gk), el(d, gn, gk, gk) != 0real,
    forall|i: int, c: int| 0 <= i < gm && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i, c) == (if c < j { refl(h, tau, gm, colof(elm(x0, gx), c))(i) } else { el(x0, gx, i, c) }),
@at L0.0.start
  let ghost xc = xdata@;
  let ghost gj = j as int;
  let ghost cx = colof(elm(x0, gx), gj);
@loop 0.0.0 for i
  invariant
    self.wf(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), d == self.qr.data@, d.len() == gm * gn, gn <= gm, xdata@ == xc, xc.len() == m * nx, m * nx <= isize::MAX, m * n <= isize::MAX,
    gk == k, k < n, gj == j, j < nx, h == hcol(d, gm, gn, gk), cx == colof(elm(x0, gx), gj),
    forall|t: int| 0 <= t < gm ==> #[trigger] el(xc, gx, t, gj) == el(x0, gx, t, gj),
    v(s) == sum(|t: int| h(t) * cx(t), gk, i as int),
    v(u_dot_u) == sum(|t: int| h(t) * h(t), gk, i as int),
@at L0.0.0.start
  proof {
    let gr = i as int;
    assert(h(gr) == crate::v(d[gr * gn + gk]));
    assert(el(xc, gx, gr, gj) == crate::v(xc[gr * gx + gj]));
    assert(cx(gr) == el(x0, gx, gr, gj));
    assert(gr * gn + gk < d.len() && gr * gx + gj < xc.len()) by (nonlinear_arith) requires 0 <= gr < gm, gk < gn, gj < gx, d.len() == gm * gn, xc.len() == gm * gx;
  }
@at L0.0.1.before
  let ghost fac = v(s);
  proof {
    dot_tail(h, cx, gk, gm);
    dot_tail(h, h, gk, gm);
    htau_ok(d, gm, gn, gk);
    let (p, w) = (vdot(h, cx, gm), vdot(h, h, gm));
    assert((p + p) / w == (2real / w) * p) by (nonlinear_arith) requires w > 0real;
    assert(fac == tau * p);
  }
@loop 0.0.1 for i
  invariant
    self.wf(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), d == self.qr.data@, d.len() == gm * gn, gn <= gm, xdata@.len() == m * nx, xc.len() == m * nx, m * nx <= isize::MAX, m * n <= isize::MAX,
    gk == k, k < n, gj == j, j < nx, h == hcol(d, gm, gn, gk), fac == v(s),
    forall|i2: int, c: int| 0 <= i2 < gm && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == (if c == gj && gk <= i2 < i { el(xc, gx, i2, c) - fac * h(i2) } else { el(xc, gx, i2, c) }),
@at L0.0.1.start
  let ghost xr = xdata@;
  proof {
    let gr = i as int;
    assert(gr * gn + gk < d.len() && gr * gx + gj < xc.len()) by (nonlinear_arith) requires 0 <= gr < gm, gk < gn, gj < gx, d.len() == gm * gn, xc.len() == gm * gx;
  }
@at L0.0.1.end
  proof {
    let gr = i as int;
    let x = e_sub(xr[gr * gx + gj], e_mul(s, d[gr * gn + gk]));
    el_update(xr, gm, gx, gr, gj, x);
    assert(xdata@ == xr.update(gr * gx + gj, x));
    assert(el(xr, gx, gr, gj) == el(xc, gx, gr, gj));
    assert(h(gr) == crate::v(d[gr * gn + gk]));
  }
@at L0.0.end
  proof {
    assert forall|i: int| 0 <= i < gm implies #[trigger] el(xdata@, gx, i, gj) == refl(h, tau, gm, cx)(i) by {
      assert(el(xc, gx, i, gj) == el(x0, gx, i, gj));
      if i < gk { let p = tau * vdot(h, cx, gm); assert(p * 0real == 0real) by (nonlinear_arith); }
    }
    assert forall|i: int, c: int| 0 <= i < gm && 0 <= c < gx implies #[trigger] el(xdata@, gx, i, c) == (if c < j + 1 { refl(h, tau, gm, colof(elm(x0, gx), c))(i) } else { el(x0, gx, i, c) }) by {
      if c != gj { assert(el(xdata@, gx, i, c) == el(xc, gx, i, c)); }
    }
  }
@at L0.end
  proof {
    assert forall|i: int, c: int| 0 <= i < gm && 0 <= c < gx implies #[trigger] el(xdata@, gx, i, c) == fore(d, gm, gn, gk + 1, colof(y0, c))(i) by {
      let xc = colof(elm(x0, gx), c);
      let f = fore(d, gm, gn, gk, colof(y0, c));
      assert(veq(xc, f, gm)) by { assert forall|t: int| 0 <= t < gm implies #[trigger] xc(t) == f(t) by { assert(el(x0, gx, t, c) == f(t)); } }
      refl_ext(h, h, tau, gm, xc, f);
      assert(refl(h, tau, gm, xc)(i) == refl(h, tau, gm, f)(i));
    }
  }
@at L0.after
  let ghost u = rm(self);
  let ghost y = |i: int, c: int| fore(d, gm, gn, gn, colof(y0, c))(i);
  proof {
    r_upper(self);
    assert(upper(u, gn, gn));
    assert(nzdiag(u, gn)) by { assert forall|i: int| 0 <= i < gn implies #[trigger] u(i, i) != 0real by { assert(v(self.rdiag@[i]) != 0real); } }
    bwd_start(u, xdata@, y, gn, gx);
    assert(n * nx <= m * nx) by (nonlinear_arith) requires n <= m;
  }
@loop 1 for k
  invariant
    self.wf(), self.full(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), gn <= gm, u == rm(self), nzdiag(u, gn), xdata@.len() == m * nx, n * nx <= m * nx, m * nx <= isize::MAX, m * n <= isize::MAX,
    bwd(u, xdata@, y, gn, gx, $i), $lo == 0, $hi == n,
@at L1.start
  let ghost xk = xdata@;
  let ghost gk = k as int;
@loop 1.0 for j
  invariant
    self.wf(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), gn <= gm, u == rm(self), nzdiag(u, gn), xdata@.len() == m * nx, xk.len() == m * nx, n * nx <= m * nx, m * nx <= isize::MAX, m * n <= isize::MAX, gk == k, k < n,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == (if i2 == k && c < j { el(xk, gx, i2, c) / u(gk, gk) } else { el(xk, gx, i2, c) }),
@at L1.0.start
  let ghost dk = xdata@;
@at L1.0.end
  proof {
    let x = e_div(dk[k * gx + j], self.rdiag@[gk]);
    el_update(dk, gm, gx, gk, j as int, x);
    assert(xdata@ == dk.update(k * gx + j, x));
    assert(el(dk, gx, gk, j as int) == el(xk, gx, gk, j as int));
    assert(u(gk, gk) == v(self.rdiag@[gk]));
    assert(u(gk, gk) != 0real);
  }
@at L1.0.after
  let ghost xd = xdata@;
@loop 1.1 for i
  invariant
    self.wf(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), gn <= gm, u == rm(self), xdata@.len() == m * nx, xd.len() == m * nx, n * nx <= m * nx, m * nx <= isize::MAX, m * n <= isize::MAX, gk == k, k < n,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == (if i2 < i && i2 < k { el(xd, gx, i2, c) - el(xd, gx, gk, c) * u(i2, gk) } else { el(xd, gx, i2, c) }),
@loop 1.1.0 for j
  invariant
    self.wf(), m == gm, n == gn, nx == gx, gm == self.m(), gn == self.n(), gn <= gm, u == rm(self), xdata@.len() == m * nx, xd.len() == m * nx, n * nx <= m * nx, m * nx <= isize::MAX, m * n <= isize::MAX, gk == k, k < n, i < k,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == (if i2 < i || (i2 == i && c < j) { el(xd, gx, i2, c) - el(xd, gx, gk, c) * u(i2, gk) } else { el(xd, gx, i2, c) }),
@at L1.1.0.start
  let ghost dk = xdata@;
  proof {
    assert(i * gn + gk < self.qr.data@.len()) by (nonlinear_arith) requires 0 <= i < gm, gk < gn, self.qr.data@.len() == gm * gn;
  }
@at L1.1.0.end
  proof {
    let x = e_sub(dk[i * gx + j], e_mul(dk[k * gx + j], self.qr.data@[i * gn + k]));
    el_update(dk, gm, gx, i as int, j as int, x);
    assert(xdata@ == dk.update(i * gx + j, x));
    assert(el(dk, gx, i as int, j as int) == el(xd, gx, i as int, j as int));
    assert(el(dk, gx, gk, j as int) == el(xd, gx, gk, j as int));
    assert(u(i as int, gk) == v(self.qr.data@[i * gn + k]));
  }
@at L1.end
  proof {
    assert(u(gk, gk) != 0real);
    assert forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx implies #[trigger] el(xdata@, gx, i2, c) ==
      (if i2 < k { el(xk, gx, i2, c) - (el(xk, gx, gk, c) / u(gk, gk)) * u(i2, gk) } else if i2 == k { el(xk, gx, i2, c) / u(gk, gk) } else { el(xk, gx, i2, c) }) by {
      assert(el(xd, gx, gk, c) == el(xk, gx, gk, c) / u(gk, gk));
      assert(el(xd, gx, i2, c) == if i2 == k { el(xk, gx, i2, c) / u(gk, gk) } else { el(xk, gx, i2, c) });
    }
    bwd_step(u, xk, xdata@, y, gn, gx, gk);
  }
@at L1.after
  let ghost xf = xdata@;
@at end
  proof {
    bwd_done(u, xf, y, gn, gx);
    assert forall|a: Matrix<E>, x: Matrix<E>| #![trigger self.of(&a), x.wf()] self.of(&a) && a.wf() && x.shaped(gn, gx) && x.data@ == xdata@ implies normal(&a, &x, b) && least_squares(&a, &x, b) by {
      assert forall|i: int, j: int| 0 <= i < gn && 0 <= j < gx implies #[trigger] mp(u, fnof(&x), gn, i, j) == fore(d, gm, gn, gn, colof(y0, j))(i) by {
        assert forall|k: int| 0 <= k < gn implies #[trigger] fnof(&x)(k, j) == elm(xf, gx)(k, j) by {
          assert(0 <= k * gx + j < n * nx) by (nonlinear_arith) requires 0 <= k < gn, 0 <= j < gx, gn == n, gx == nx;
        }
        mp_ext(u, u, fnof(&x), elm(xf, gx), gn, i, i, j, j);
        assert(mp(u, elm(xf, gx), gn, i, j) == y(i, j));
      }
      qr_normal(self, &a, &x, b);
      normal_least(&a, &x, b);
    }
  }
