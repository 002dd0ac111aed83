@verbatim
// ---------------------------------------------------------------- C21: the pseudo-inverse of a matrix of full column rank
pub mod pin {
use super::*;
pub proof fn dot_mp(a: &Matrix<E>, b: &Matrix<E>, i: int, j: int, k: int)
  requires k >= 0,
  ensures v(dot(a, b, i, j, k)) == mp(fnof(a), fnof(b), k, i, j),
  decreases k,
{
  let f = |t: int| fnof(a)(i, t) * fnof(b)(t, j);
  if k > 0 { dot_mp(a, b, i, j, k - 1); assert(sum(f, 0, k) == sum(f, 0, k - 1) + f(k - 1)); }
}
pub proof fn product_mp(r: &Matrix<E>, a: &Matrix<E>, b: &Matrix<E>)
  requires is_product(r, a, b), a.wf(),
  ensures forall|i: int, j: int| 0 <= i < a.no_rows && 0 <= j < b.c() ==> #[trigger] fnof(r)(i, j) == mp(fnof(a), fnof(b), a.c(), i, j),
{
  assert forall|i: int, j: int| 0 <= i < a.no_rows && 0 <= j < b.c() implies #[trigger] fnof(r)(i, j) == mp(fnof(a), fnof(b), a.c(), i, j) by {
    assert(r.at(i, j) == dot(a, b, i, j, a.c()));
    dot_mp(a, b, i, j, a.c());
  }
}
// R'R*x = 0 only if R*x = 0
pub proof fn gram_null(r: Mt, m: int, n: int, x: Seq<real>)
  requires nullv(mm(tr(r), r, m), n, n, x), m >= 0, n >= 0,
  ensures nullv(r, m, n, x),
{
  let c = col(x);
  let rx = mm(r, c, n);
  let g = mm(tr(r), r, m);
  let xt = tr(c);
  let z = mm(tr(r), rx, m);
  // x'(R'(Rx)) = 0
  assert forall|i: int| 0 <= i < n implies #[trigger] z(i, 0) == 0real by {
    mp_assoc(tr(r), r, c, m, n, i, 0);
    assert(mp(g, c, n, i, 0) == 0real);
  }
  mp_zero(xt, z, n, 0, 0);
  mp_assoc(xt, tr(r), rx, n, m, 0, 0);
  let y = |i: int| rx(i, 0);
  let w = mm(xt, tr(r), n);
  let f = |k: int| w(0, k) * rx(k, 0);
  let q = |k: int| y(k) * y(k);
  assert forall|k: int| 0 <= k < m implies #[trigger] f(k) == q(k) by { mp_tr(r, c, n, k, 0); }
  sum_ext(f, q, 0, m);
  assert(vdot(y, y, m) == 0real);
  assert forall|i: int| 0 <= i < m implies #[trigger] mp(r, c, n, i, 0) == 0real by { if y(i) != 0real { dot_pos(y, m, i); } }
}
pub proof fn gram_dependent(r: Mt, g: Mt, m: int, n: int)
  requires m >= 0, n >= 0, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] g(i, j) == mp(tr(r), r, m, i, j),
  ensures dependent(g, n, n) <==> dependent(r, m, n),
{
  let g0 = mm(tr(r), r, m);
  if dependent(g, n, n) {
    let x = choose|x: Seq<real>| #[trigger] nullv(g, n, n, x) && nonzero(x);
    assert forall|i: int| 0 <= i < n implies #[trigger] mp(g0, col(x), n, i, 0) == 0real by {
      assert forall|k: int| 0 <= k < n implies #[trigger] g(i, k) == g0(i, k) by { }
      mp_ext(g, g0, col(x), col(x), n, i, i, 0, 0);
      assert(mp(g, col(x), n, i, 0) == 0real);
    }
    gram_null(r, m, n, x);
  }
  if dependent(r, m, n) {
    let x = choose|x: Seq<real>| #[trigger] nullv(r, m, n, x) && nonzero(x);
    assert forall|i: int| 0 <= i < n implies #[trigger] mp(g, col(x), n, i, 0) == 0real by {
      assert forall|k: int| 0 <= k < n implies #[trigger] g(i, k) == g0(i, k) by { }
      mp_ext(g, g0, col(x), col(x), n, i, i, 0, 0);
      mp_assoc(tr(r), r, col(x), m, n, i, 0);
      assert forall|k: int| 0 <= k < m implies #[trigger] mm(r, col(x), n)(k, 0) == 0real by { assert(mp(r, col(x), n, k, 0) == 0real); }
      mp_zero(tr(r), mm(r, col(x), n), m, i, 0);
    }
    assert(nullv(g, n, n, x));
  }
}
pub proof fn gram_same(qr: &QRDecomposition<E>, a: &Matrix<E>, c: int, e: int)
  requires qr.of(a), 0 <= c < qr.n(), 0 <= e < qr.n(),
  ensures mp(tr(fnof(a)), fnof(a), qr.m(), c, e) == mp(tr(rm(qr)), rm(qr), qr.m(), c, e),
{
  let d = qr.qr.data@; let m = qr.m(); let n = qr.n(); let dim = qr.dim();
  let re = rcol(d, qr.rdiag@, n, dim, e);
  let be = back(d, m, n, 0, dim, re);
  gram(qr, a, c, re);
  rcol_r(qr, e);
  reveal(qr_state);
  let f = |i: int| tr(fnof(a))(c, i) * fnof(a)(i, e);
  let f2 = |i: int| colof(fnof(a), c)(i) * be(i);
  assert forall|i: int| 0 <= i < m implies #[trigger] f(i) == f2(i) by { assert(be(i) == v(a.at(i, e))); }
  sum_ext(f, f2, 0, m);
  let g = |i: int| tr(rm(qr))(c, i) * rm(qr)(i, e);
  let g2 = |i: int| colof(rm(qr), c)(i) * re(i);
  assert forall|i: int| 0 <= i < m implies #[trigger] g(i) == g2(i) by { assert(re(i) == rm(qr)(i, e)); }
  sum_ext(g, g2, 0, m);
}
// a wide matrix has dependent columns
pub proof fn wide_dependent(qr: &QRDecomposition<E>, a: &Matrix<E>)
  requires qr.of(a), a.wf(), a.c() > a.no_rows,
  ensures dependent(fnof(a), qr.m(), qr.n()),
{
  let m = qr.m(); let n = qr.n();
  let r = rm(qr);
  qr_dependent(qr, a);
  r_upper(qr);
  if exists|k: int| 0 <= k < m && #[trigger] r(k, k) == 0real {
    let k = choose|k: int| 0 <= k < m && #[trigger] r(k, k) == 0real;
    let j = first_zero(r, k);
    upper_dep(r, m, n, j);
  } else {
    upper_dep(r, m, n, m);
  }
  assert(dependent(r, m, n));
}
// X = (A'A)^-1 A': the left inverse for which A*X is symmetric
pub open spec fn is_pinverse(a: &Matrix<E>, x: &Matrix<E>) -> bool {
  let m = a.no_rows as int;
  let n = a.c();
  &&& x.shaped(n, m)
  &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mp(fnof(x), fnof(a), m, i, j) == kd(i, j)
  &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] mp(fnof(a), fnof(x), n, i, j) == mp(fnof(a), fnof(x), n, j, i)
  &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] mp(mm(tr(fnof(a)), fnof(a), m), fnof(x), n, i, j) == v(a.at(j, i))
}
// the inverse of a symmetric matrix is symmetric
pub proof fn inv_sym(g: Mt, y: Mt, n: int, i: int, j: int)
  requires
    forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] g(i, j) == g(j, i),
    forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mp(g, y, n, i, j) == kd(i, j),
    0 <= i < n, 0 <= j < n,
  ensures y(i, j) == y(j, i),
{
  let yt = tr(y);
  // y'*g = 1
  assert forall|k: int| 0 <= k < n implies #[trigger] mm(yt, g, n)(i, k) == idm()(i, k) by {
    mp_tr(g, y, n, k, i);
    assert forall|t: int| 0 <= t < n implies #[trigger] tr(g)(t, k) == g(t, k) by { assert(g(k, t) == g(t, k)); }
    mp_ext(yt, yt, tr(g), g, n, i, i, k, k);
    assert(mp(g, y, n, k, i) == kd(k, i));
  }
  mp_assoc(yt, g, y, n, n, i, j);
  mp_ext(mm(yt, g, n), idm(), y, y, n, i, i, j, j);
  mp_id_l(y, n, i, j);
  assert forall|k: int| 0 <= k < n implies #[trigger] mm(g, y, n)(k, j) == idm()(k, j) by { assert(mp(g, y, n, k, j) == kd(k, j)); }
  mp_ext(yt, yt, mm(g, y, n), idm(), n, i, i, j, j);
  mp_id_r(yt, n, i, j);
}
pub proof fn pinverse_ok(a: &Matrix<E>, at: &Matrix<E>, g: &Matrix<E>, gi: &Matrix<E>, x: &Matrix<E>)
  requires
    a.wf(), at.shaped(a.c(), a.no_rows as int), forall|i: int, j: int| 0 <= i < a.c() && 0 <= j < a.no_rows ==> #[trigger] at.at(i, j) == a.at(j, i),
    g.shaped(a.c(), a.c()), forall|i: int, j: int| 0 <= i < a.c() && 0 <= j < a.c() ==> #[trigger] fnof(g)(i, j) == mp(tr(fnof(a)), fnof(a), a.no_rows as int, i, j),
    is_inverse(g, gi), is_product(x, gi, at),
  ensures is_pinverse(a, x),
{
  let m = a.no_rows as int;
  let n = a.c();
  let af = fnof(a); let xf = fnof(x); let gf = fnof(g); let yf = fnof(gi); let atf = fnof(at);
  let ata = mm(tr(af), af, m);
  product_mp(x, gi, at);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] atf(i, j) == tr(af)(i, j) by { assert(at.at(i, j) == a.at(j, i)); }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] xf(i, j) == mm(yf, tr(af), n)(i, j) by {
    assert forall|k: int| 0 <= k < n implies #[trigger] atf(k, j) == tr(af)(k, j) by { }
    mp_ext(yf, yf, atf, tr(af), n, i, i, j, j);
  }
  // X*A = gi*(A'A) = 1
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mp(xf, af, m, i, j) == kd(i, j) by {
    mp_ext(xf, mm(yf, tr(af), n), af, af, m, i, i, j, j);
    mp_assoc(yf, tr(af), af, n, m, i, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] ata(k, j) == gf(k, j) by { }
    mp_ext(yf, yf, ata, gf, n, i, i, j, j);
    assert(mp(yf, gf, n, i, j) == kd(i, j));
  }
  // A'A*X = g*gi*A' = A'
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] mp(ata, xf, n, i, j) == v(a.at(j, i)) by {
    assert forall|k: int| 0 <= k < n implies #[trigger] ata(i, k) == gf(i, k) by { }
    let yx = mm(yf, tr(af), n);
    assert forall|k: int| 0 <= k < n implies #[trigger] xf(k, j) == yx(k, j) by { }
    mp_ext(ata, gf, xf, yx, n, i, i, j, j);
    mp_assoc(gf, yf, tr(af), n, n, i, j);
    let gy = mm(gf, yf, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] gy(i, k) == idm()(i, k) by { assert(mp(gf, yf, n, i, k) == kd(i, k)); }
    mp_ext(gy, idm(), tr(af), tr(af), n, i, i, j, j);
    mp_id_l(tr(af), n, i, j);
  }
  // A*X = A*gi*A' is symmetric
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] gf(i, j) == gf(j, i) by {
    mp_tr(tr(af), af, m, i, j);
    let ttr = tr(tr(af));
    assert forall|k: int| 0 <= k < m implies #[trigger] ttr(k, i) == af(k, i) by { }
    mp_ext(tr(af), tr(af), ttr, af, m, j, j, i, i);
    assert(gf(j, i) == mp(tr(af), af, m, j, i));
  }
  let ag = mm(af, yf, n);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] mp(af, xf, n, i, j) == mp(af, xf, n, j, i) by {
    mp_tr(af, xf, n, j, i);
    assert forall|k: int| 0 <= k < n implies #[trigger] tr(xf)(i, k) == ag(i, k) by {
      assert(xf(k, i) == mm(yf, tr(af), n)(k, i));
      mp_tr(yf, tr(af), n, k, i);
      let ttr = tr(tr(af));
      assert forall|t: int| 0 <= t < n implies #[trigger] ttr(i, t) == af(i, t) by { }
      assert forall|t: int| 0 <= t < n implies #[trigger] tr(yf)(t, k) == yf(t, k) by { inv_sym(gf, yf, n, k, t); }
      mp_ext(ttr, af, tr(yf), yf, n, i, i, k, k);
    }
    mp_ext(tr(xf), ag, tr(af), tr(af), n, i, i, j, j);
    mp_assoc(af, yf, tr(af), n, n, i, j);
    let yx = mm(yf, tr(af), n);
    assert forall|k: int| 0 <= k < n implies #[trigger] xf(k, j) == yx(k, j) by { }
    mp_ext(af, af, xf, yx, n, i, i, j, j);
  }
}
}
pub use pin::*;
@endverbatim
@file matrix.rs
@fn Matrix::pinverse
@props C21
@pre !dependent(fnof(self), self.no_rows as int, self.c())
@requires self.wf(), self.c() * self.c() <= isize::MAX,
@ensures
  is_pinverse(self, &r),
@at let:r.after
  proof {
    let m = self.no_rows as int;
    let n = self.c();
    if n > m { wide_dependent(&qr, self); }
    qr_dependent(&qr, self);
    assert forall|rt: Matrix<E>, g: Matrix<E>| #![trigger is_product(&g, &rt, &r)] rt.shaped(n, m) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] rt.at(i, j) == r.at(j, i)) && is_product(&g, &rt, &r) implies
        g.shaped(n, n) && singular(&g) == dependent(fnof(self), m, n) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] fnof(&g)(i, j) == mp(tr(fnof(self)), fnof(self), m, i, j)) by {
      product_mp(&g, &rt, &r);
      let gf = fnof(&g);
      let rr = rm(&qr);
      assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] gf(i, j) == mp(tr(rr), rr, m, i, j) by {
        assert forall|k: int| 0 <= k < m implies #[trigger] fnof(&rt)(i, k) == tr(rr)(i, k) by { assert(rt.at(i, k) == r.at(k, i)); assert(crate::v(r.at(k, i)) == qr.r(k, i)); }
        assert forall|k: int| 0 <= k < m implies #[trigger] fnof(&r)(k, j) == rr(k, j) by { assert(crate::v(r.at(k, j)) == qr.r(k, j)); }
        mp_ext(fnof(&rt), tr(rr), fnof(&r), rr, m, i, i, j, j);
      }
      gram_dependent(rr, gf, m, n);
      assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] gf(i, j) == mp(tr(fnof(self)), fnof(self), m, i, j) by { gram_same(&qr, self, i, j); }
    }
    assert forall|at: Matrix<E>, g: Matrix<E>, gi: Matrix<E>, x: Matrix<E>| #![trigger is_inverse(&g, &gi), is_product(&x, &gi, &at)]
        at.shaped(n, m) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] at.at(i, j) == self.at(j, i)) &&
        g.shaped(n, n) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] fnof(&g)(i, j) == mp(tr(fnof(self)), fnof(self), m, i, j)) &&
        is_inverse(&g, &gi) && is_product(&x, &gi, &at) implies is_pinverse(self, &x) by { pinverse_ok(self, &at, &g, &gi, &x); }
  }
