@verbatim
// ---------------------------------------------------------------- quadratic forms
pub open spec fn quad(a: Mt, x: Seq<real>, n: int) -> real { mp(tr(col(x)), mm(a, col(x), n), n, 0, 0) }
pub open spec fn symmetric(a: Mt, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] a(i, j) == a(j, i) }
pub open spec fn posdef(a: Mt, n: int) -> bool { forall|x: Seq<real>| x.len() == n && nonzero(x) ==> #[trigger] quad(a, x, n) > 0real }
pub proof fn quad_mmt(m: Mt, x: Seq<real>, n: int)
  ensures quad(mm(m, tr(m), n), x, n) == sum(|t: int| rsq2(mp(tr(m), col(x), n, t, 0)), 0, n),
{
  let y = mm(tr(m), col(x), n);
  let my = mm(m, y, n);
  let mx = mm(mm(m, tr(m), n), col(x), n);
  assert forall|i: int| 0 <= i < n implies #[trigger] mx(i, 0) == my(i, 0) by { mp_assoc(m, tr(m), col(x), n, n, i, 0); }
  mp_ext(tr(col(x)), tr(col(x)), mx, my, n, 0, 0, 0, 0);
  mp_assoc(tr(col(x)), m, y, n, n, 0, 0);
  let f = |t: int| mm(tr(col(x)), m, n)(0, t) * y(t, 0);
  let g = |t: int| rsq2(mp(tr(m), col(x), n, t, 0));
  assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(t) by {
    mp_tr(tr(col(x)), m, n, 0, t);
    mp_ext(tr(m), tr(m), tr(tr(col(x))), col(x), n, t, t, 0, 0);
  }
  sum_ext(f, g, 0, n);
}
pub open spec fn rsq2(x: real) -> real { x * x }
pub proof fn rsq2_nonneg(x: real)
  ensures rsq2(x) >= 0real, rsq2(x) == 0real <==> x == 0real,
{ assert(x * x >= 0real && (x * x == 0real <==> x == 0real)) by (nonlinear_arith); }
// l*l' is positive definite for a lower triangular l with a non-zero diagonal
pub proof fn llt_posdef(l: Mt, a: Mt, n: int)
  requires lower(l, n), nzdiag(l, n), meq(a, mm(l, tr(l), n), n, n),
  ensures posdef(a, n),
{
  assert forall|x: Seq<real>| x.len() == n && nonzero(x) implies #[trigger] quad(a, x, n) > 0real by {
    quad_ext(a, mm(l, tr(l), n), x, n);
    quad_mmt(l, x, n);
    let g = |t: int| rsq2(mp(tr(l), col(x), n, t, 0));
    if forall|t: int| 0 <= t < n ==> #[trigger] mp(tr(l), col(x), n, t, 0) == 0real {
      let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] != 0real;
      assert(upper(tr(l), n, n));
      assert(nzdiag(tr(l), n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] tr(l)(i, i) != 0real by { assert(l(i, i) != 0real); } }
      upper_inj(tr(l), col(x), n, 0, i);
      assert(false);
    } else {
      let t = choose|t: int| 0 <= t < n && #[trigger] mp(tr(l), col(x), n, t, 0) != 0real;
      assert forall|k: int| 0 <= k < n implies #[trigger] g(k) >= 0real by { rsq2_nonneg(mp(tr(l), col(x), n, k, 0)); }
      sum_pos(g, 0, n, t);
      rsq2_nonneg(mp(tr(l), col(x), n, t, 0));
    }
  }
}
pub proof fn quad_ext(a: Mt, b: Mt, x: Seq<real>, n: int)
  requires
    forall|i: int, j: int| 0 <= i < n && 0 <= j < n && x[i] != 0real && x[j] != 0real ==> #[trigger] a(i, j) == b(i, j),
  ensures quad(a, x, n) == quad(b, x, n),
{
  let f = |i: int| tr(col(x))(0, i) * mm(a, col(x), n)(i, 0);
  let g = |i: int| tr(col(x))(0, i) * mm(b, col(x), n)(i, 0);
  assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by {
    if x[i] == 0real {
      let (p, q) = (mm(a, col(x), n)(i, 0), mm(b, col(x), n)(i, 0));
      assert(0real * p == 0real * q) by (nonlinear_arith);
    } else {
      let p = |k: int| a(i, k) * col(x)(k, 0);
      let q = |k: int| b(i, k) * col(x)(k, 0);
      assert forall|k: int| 0 <= k < n implies #[trigger] p(k) == q(k) by {
        if x[k] == 0real { assert(a(i, k) * 0real == b(i, k) * 0real) by (nonlinear_arith); } else { assert(a(i, k) == b(i, k)); }
      }
      sum_ext(p, q, 0, n);
    }
  }
  sum_ext(f, g, 0, n);
}
// ---------------------------------------------------------------- the factor, row by row
pub open spec fn cdot(d: Seq<E>, n: int, i: int, k: int, hi: int) -> real { sum(|t: int| el(d, n, i, t) * el(d, n, k, t), 0, hi) }
pub open spec fn chol_cell(d: Seq<E>, n: int, a: &Matrix<E>, i: int, k: int) -> bool {
  cdot(d, n, i, k, k + 1) == v(a.at(i, k)) && v(a.at(i, k)) == v(a.at(k, i))
}
#[verifier::opaque]
pub open spec fn chol_rows(d: Seq<E>, n: int, a: &Matrix<E>, j: int) -> bool {
  &&& forall|i: int, k: int| 0 <= k <= i && i < j ==> #[trigger] chol_cell(d, n, a, i, k)
  &&& forall|i: int, k: int| 0 <= i < j && i < k < n ==> #[trigger] el(d, n, i, k) == 0real
  &&& forall|i: int| 0 <= i < j ==> #[trigger] el(d, n, i, i) > 0real
}
pub proof fn cdot_ext(d: Seq<E>, e: Seq<E>, n: int, i: int, k: int, hi: int)
  requires
    forall|t: int| 0 <= t < hi ==> #[trigger] el(e, n, i, t) == el(d, n, i, t),
    forall|t: int| 0 <= t < hi ==> #[trigger] el(e, n, k, t) == el(d, n, k, t),
  ensures cdot(e, n, i, k, hi) == cdot(d, n, i, k, hi),
{
  let f = |t: int| el(d, n, i, t) * el(d, n, k, t);
  let g = |t: int| el(e, n, i, t) * el(e, n, k, t);
  assert forall|t: int| 0 <= t < hi implies #[trigger] f(t) == g(t) by { assert(el(e, n, i, t) == el(d, n, i, t)); assert(el(e, n, k, t) == el(d, n, k, t)); }
  sum_ext(f, g, 0, hi);
}
pub proof fn chol_start(d: Seq<E>, n: int, a: &Matrix<E>)
  ensures chol_rows(d, n, a, 0),
{ reveal(chol_rows); }
// rows below j do not matter
pub proof fn chol_frame(d: Seq<E>, e: Seq<E>, n: int, a: &Matrix<E>, j: int)
  requires chol_rows(d, n, a, j), 0 <= j <= n, forall|i: int, k: int| 0 <= i < j && 0 <= k < n ==> #[trigger] el(e, n, i, k) == el(d, n, i, k),
  ensures chol_rows(e, n, a, j),
{
  reveal(chol_rows);
  assert forall|i: int, k: int| 0 <= k <= i && i < j implies #[trigger] chol_cell(e, n, a, i, k) by { assert(chol_cell(d, n, a, i, k)); cdot_ext(d, e, n, i, k, k + 1); }
}
pub proof fn chol_pos(d: Seq<E>, n: int, a: &Matrix<E>, j: int, k: int)
  requires chol_rows(d, n, a, j), 0 <= k < j,
  ensures el(d, n, k, k) > 0real,
{ reveal(chol_rows); }
pub proof fn chol_step(d: Seq<E>, n: int, a: &Matrix<E>, j: int)
  requires
    chol_rows(d, n, a, j), 0 <= j < n,
    forall|k: int| 0 <= k < j ==> #[trigger] chol_cell(d, n, a, j, k),
    cdot(d, n, j, j, j + 1) == v(a.at(j, j)),
    forall|k: int| j < k < n ==> #[trigger] el(d, n, j, k) == 0real,
    el(d, n, j, j) > 0real,
  ensures chol_rows(d, n, a, j + 1),
{ reveal(chol_rows); }
// the finished factor
pub proof fn chol_final(d: Seq<E>, n: int, a: &Matrix<E>)
  requires chol_rows(d, n, a, n),
  ensures
    lower(elm(d, n), n), forall|i: int| 0 <= i < n ==> #[trigger] elm(d, n)(i, i) > 0real, meq(fnof(a), mm(elm(d, n), tr(elm(d, n)), n), n, n),
    symmetric(fnof(a), n), posdef(fnof(a), n),
{
  reveal(chol_rows);
  let l = elm(d, n);
  assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] fnof(a)(i, k) == fnof(a)(k, i) by {
    if k <= i { assert(chol_cell(d, n, a, i, k)); } else { assert(chol_cell(d, n, a, k, i)); }
  }
  assert forall|i: int, k: int| 0 <= i < k && k < n implies #[trigger] l(i, k) == 0real by { assert(el(d, n, i, k) == 0real); }
  assert forall|i: int| 0 <= i < n implies #[trigger] l(i, i) > 0real by { assert(el(d, n, i, i) > 0real); }
  assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] fnof(a)(i, k) == mm(l, tr(l), n)(i, k) by {
    let (p, q) = if k <= i { (i, k) } else { (k, i) };
    assert(chol_cell(d, n, a, p, q));
    let f = |t: int| l(p, t) * tr(l)(t, q);
    let g = |t: int| el(d, n, p, t) * el(d, n, q, t);
    sum_split(f, 0, q + 1, n);
    assert forall|t: int| q + 1 <= t < n implies #[trigger] f(t) == 0real by { assert(el(d, n, q, t) == 0real); assert(l(p, t) * 0real == 0real) by (nonlinear_arith); }
    sum_zero(f, q + 1, n);
    assert forall|t: int| 0 <= t < q + 1 implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, 0, q + 1);
    if k > i {
      let h = |t: int| l(i, t) * tr(l)(t, k);
      assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == h(t) by { let (x, y) = (l(k, t), l(i, t)); assert(x * y == y * x) by (nonlinear_arith); }
      sum_ext(f, h, 0, n);
    }
  }
  assert(nzdiag(l, n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] l(i, i) != 0real by { assert(l(i, i) > 0real); } }
  llt_posdef(l, fnof(a), n);
}
// a pivot that is not positive: the leading block, and with it the matrix, is not positive definite
pub open spec fn chol_m(d: Seq<E>, n: int, j: int) -> Mt { |i: int, t: int| if i > j || t >= j || t > i { 0real } else { el(d, n, i, t) } }
pub proof fn chol_fail(d: Seq<E>, n: int, a: &Matrix<E>, j: int)
  requires
    chol_rows(d, n, a, j), 0 <= j < n,
    forall|k: int| 0 <= k < j ==> #[trigger] chol_cell(d, n, a, j, k),
    v(a.at(j, j)) - cdot(d, n, j, j, j) <= 0real,
  ensures !posdef(fnof(a), n),
{
  reveal(chol_rows);
  let m = chol_m(d, n, j);
  let dd = v(a.at(j, j)) - cdot(d, n, j, j, j);
  let u = tr(m);
  assert(upper(u, n, n));
  assert forall|k: int| 0 <= k < j implies #[trigger] u(k, k) != 0real by { assert(el(d, n, k, k) > 0real); }
  upper_dep(u, n, n, j);
  nv_zero(u, n, j, 0);
  let x = nv(u, n, j, 0);
  let mt = mm(m, tr(m), n);
  let b = |i: int, k: int| mt(i, k) + if i == j && k == j { dd } else { 0real };
  assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n && x[i] != 0real && x[k] != 0real implies #[trigger] fnof(a)(i, k) == b(i, k) by {
    assert(i <= j && k <= j);
    let (p, q) = if k <= i { (i, k) } else { (k, i) };
    let f = |t: int| m(p, t) * tr(m)(t, q);
    let g = |t: int| el(d, n, p, t) * el(d, n, q, t);
    let hi = imin(q + 1, j);
    sum_split(f, 0, hi, n);
    assert forall|t: int| hi <= t < n implies #[trigger] f(t) == 0real by { assert(m(p, t) * 0real == 0real) by (nonlinear_arith); }
    sum_zero(f, hi, n);
    assert forall|t: int| 0 <= t < hi implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, 0, hi);
    if q < j { assert(chol_cell(d, n, a, p, q)); }
    if k > i {
      let h = |t: int| m(i, t) * tr(m)(t, k);
      assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == h(t) by { let (x, y) = (m(k, t), m(i, t)); assert(x * y == y * x) by (nonlinear_arith); }
      sum_ext(f, h, 0, n);
    }
  }
  quad_ext(fnof(a), b, x, n);
  // x' b x = |m' x|^2 + dd = dd
  quad_mmt(m, x, n);
  let g = |t: int| rsq2(mp(tr(m), col(x), n, t, 0));
  assert forall|t: int| 0 <= t < n implies #[trigger] g(t) == 0real by { assert(mp(u, col(x), n, t, 0) == 0real); }
  sum_zero(g, 0, n);
  let f0 = |i: int| tr(col(x))(0, i) * mm(mt, col(x), n)(i, 0);
  let f1 = |i: int| tr(col(x))(0, i) * mm(b, col(x), n)(i, 0);
  let e = |i: int| if i == j { dd } else { 0real };
  assert forall|i: int| 0 <= i < n implies #[trigger] f1(i) == f0(i) + e(i) by {
    let p = |k: int| mt(i, k) * col(x)(k, 0);
    let q = |k: int| b(i, k) * col(x)(k, 0);
    let w = |k: int| if i == j && k == j { dd } else { 0real };
    assert forall|k: int| 0 <= k < n implies #[trigger] q(k) == p(k) + w(k) by {
      let (s, y) = (mt(i, k), x[k]);
      if i == j && k == j { assert((s + dd) * 1real == s * 1real + dd) by (nonlinear_arith); } else { assert((s + 0real) * y == s * y) by (nonlinear_arith); }
    }
    sum_add(p, w, q, 0, n);
    let sp = sum(p, 0, n);
    let xi = x[i];
    if i == j { sum_single(w, 0, n, j); assert(xi == 1real); assert(1real * (sp + dd) == 1real * sp + dd) by (nonlinear_arith); }
    else { sum_zero(w, 0, n); assert(xi * (sp + 0real) == xi * sp) by (nonlinear_arith); }
  }
  sum_add(f0, e, f1, 0, n);
  sum_single(e, 0, n, j);
  assert(quad(b, x, n) == dd);
  assert(x.len() == n && nonzero(x));
}
// ---------------------------------------------------------------- substitution, one finished row at a time
pub open spec fn fdone(l: Mt, x: Seq<E>, y: Mt, n: int, nx: int, k: int) -> bool {
  &&& forall|i: int, c: int| 0 <= i < k && 0 <= c < nx ==> #[trigger] fdot(l, x, nx, i, c, i + 1) == y(i, c)
  &&& forall|i: int, c: int| k <= i < n && 0 <= c < nx ==> #[trigger] el(x, nx, i, c) == y(i, c)
}
pub open spec fn fdot(l: Mt, x: Seq<E>, nx: int, i: int, c: int, hi: int) -> real { sum(|t: int| l(i, t) * el(x, nx, t, c), 0, hi) }
pub proof fn fdot_ext(l: Mt, x: Seq<E>, z: Seq<E>, nx: int, i: int, c: int, hi: int)
  requires forall|t: int| 0 <= t < hi ==> #[trigger] el(z, nx, t, c) == el(x, nx, t, c),
  ensures fdot(l, z, nx, i, c, hi) == fdot(l, x, nx, i, c, hi),
{
  let f = |t: int| l(i, t) * el(x, nx, t, c);
  let g = |t: int| l(i, t) * el(z, nx, t, c);
  assert forall|t: int| 0 <= t < hi implies #[trigger] f(t) == g(t) by { assert(el(z, nx, t, c) == el(x, nx, t, c)); }
  sum_ext(f, g, 0, hi);
}
pub proof fn fdone_step(l: Mt, x: Seq<E>, z: Seq<E>, y: Mt, n: int, nx: int, k: int)
  requires
    fdone(l, x, y, n, nx, k), 0 <= k < n, l(k, k) != 0real,
    forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] el(z, nx, i, c) == if i == k { rdiv(el(x, nx, k, c) - fdot(l, x, nx, k, c, k), l(k, k)) } else { el(x, nx, i, c) },
  ensures fdone(l, z, y, n, nx, k + 1),
{
  assert forall|i: int, c: int| 0 <= i < k + 1 && 0 <= c < nx implies #[trigger] fdot(l, z, nx, i, c, i + 1) == y(i, c) by {
    if i < k { fdot_ext(l, x, z, nx, i, c, i + 1); assert(fdot(l, x, nx, i, c, i + 1) == y(i, c)); }
    else {
      fdot_ext(l, x, z, nx, k, c, k);
      let (s, p) = (el(x, nx, k, c) - fdot(l, x, nx, k, c, k), l(k, k));
      assert(el(z, nx, k, c) == s / p);
      assert(p * (s / p) == s) by (nonlinear_arith) requires p != 0real;
      assert(el(x, nx, k, c) == y(k, c));
    }
  }
  assert forall|i: int, c: int| k + 1 <= i < n && 0 <= c < nx implies #[trigger] el(z, nx, i, c) == y(i, c) by { assert(el(x, nx, i, c) == y(i, c)); }
}
pub proof fn fdone_done(l: Mt, x: Seq<E>, y: Mt, n: int, nx: int)
  requires fdone(l, x, y, n, nx, n), lower(l, n),
  ensures forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] mp(l, elm(x, nx), n, i, c) == y(i, c),
{
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] mp(l, elm(x, nx), n, i, c) == y(i, c) by {
    let f = |t: int| l(i, t) * elm(x, nx)(t, c);
    let g = |t: int| l(i, t) * el(x, nx, t, c);
    sum_split(f, 0, i + 1, n);
    assert forall|t: int| i + 1 <= t < n implies #[trigger] f(t) == 0real by { assert(l(i, t) == 0real); let w = elm(x, nx)(t, c); assert(0real * w == 0real) by (nonlinear_arith); }
    sum_zero(f, i + 1, n);
    assert forall|t: int| 0 <= t < i + 1 implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, 0, i + 1);
    assert(fdot(l, x, nx, i, c, i + 1) == y(i, c));
  }
}
// rows >= k finished, from below, with u upper triangular
pub open spec fn bdone(u: Mt, x: Seq<E>, y: Mt, n: int, nx: int, k: int) -> bool {
  &&& forall|i: int, c: int| k <= i < n && 0 <= c < nx ==> #[trigger] bdot(u, x, nx, i, c, i, n) == y(i, c)
  &&& forall|i: int, c: int| 0 <= i < k && 0 <= c < nx ==> #[trigger] el(x, nx, i, c) == y(i, c)
}
pub open spec fn bdot(u: Mt, x: Seq<E>, nx: int, i: int, c: int, lo: int, hi: int) -> real { sum(|t: int| u(i, t) * el(x, nx, t, c), lo, hi) }
pub proof fn bdone_step(u: Mt, x: Seq<E>, z: Seq<E>, y: Mt, n: int, nx: int, k: int)
  requires
    bdone(u, x, y, n, nx, k + 1), 0 <= k < n, u(k, k) != 0real,
    forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] el(z, nx, i, c) == if i == k { rdiv(el(x, nx, k, c) - bdot(u, x, nx, k, c, k + 1, n), u(k, k)) } else { el(x, nx, i, c) },
  ensures bdone(u, z, y, n, nx, k),
{
  assert forall|i: int, c: int| k <= i < n && 0 <= c < nx implies #[trigger] bdot(u, z, nx, i, c, i, n) == y(i, c) by {
    let f = |t: int| u(i, t) * el(x, nx, t, c);
    let g = |t: int| u(i, t) * el(z, nx, t, c);
    let lo = if i > k { i } else { k + 1 };
    assert forall|t: int| lo <= t < n implies #[trigger] f(t) == g(t) by { assert(el(z, nx, t, c) == el(x, nx, t, c)); }
    sum_ext(f, g, lo, n);
    if i > k { assert(bdot(u, x, nx, i, c, i, n) == y(i, c)); }
    else {
      sum_first(g, k, n);
      let (s, p) = (el(x, nx, k, c) - bdot(u, x, nx, k, c, k + 1, n), u(k, k));
      assert(el(z, nx, k, c) == s / p);
      assert(p * (s / p) == s) by (nonlinear_arith) requires p != 0real;
      assert(el(x, nx, k, c) == y(k, c));
    }
  }
  assert forall|i: int, c: int| 0 <= i < k && 0 <= c < nx implies #[trigger] el(z, nx, i, c) == y(i, c) by { assert(el(x, nx, i, c) == y(i, c)); }
}
pub proof fn bdone_done(u: Mt, x: Seq<E>, y: Mt, n: int, nx: int)
  requires bdone(u, x, y, n, nx, 0), upper(u, n, n),
  ensures forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] mp(u, elm(x, nx), n, i, c) == y(i, c),
{
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] mp(u, elm(x, nx), n, i, c) == y(i, c) by {
    let f = |t: int| u(i, t) * elm(x, nx)(t, c);
    let g = |t: int| u(i, t) * el(x, nx, t, c);
    sum_split(f, 0, i, n);
    assert forall|t: int| 0 <= t < i implies #[trigger] f(t) == 0real by { assert(u(i, t) == 0real); let w = elm(x, nx)(t, c); assert(0real * w == 0real) by (nonlinear_arith); }
    sum_zero(f, 0, i);
    assert forall|t: int| i <= t < n implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, i, n);
    assert(bdot(u, x, nx, i, c, i, n) == y(i, c));
  }
}
@endverbatim
@file decomp/cholesky.rs
@struct CholeskyDecomposition
@verbatim
impl CholeskyDecomposition<E> {
  pub open spec fn n(&self) -> int { self.l.no_rows as int }
  // lower triangular with a positive diagonal
  pub open spec fn wf(&self) -> bool {
    &&& self.l.wf() && self.l.no_rows == self.l.c()
    &&& lower(fnof(&self.l), self.n())
    &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] fnof(&self.l)(i, i) > 0real
  }
  // l*l' = a
  pub open spec fn of(&self, a: &Matrix<E>) -> bool {
    &&& self.wf() && self.n() == a.no_rows && self.n() == a.c()
    &&& meq(fnof(a), mm(fnof(&self.l), tr(fnof(&self.l)), self.n()), self.n(), self.n())
  }
}
@endverbatim
@fn CholeskyDecomposition::new
@props C17
@pre m.no_rows != m.c() || m.no_rows * m.no_rows <= usize::MAX
@requires m.wf(),
@ensures
  r is Some ==> r->0.of(m),
  r is Some <==> m.no_rows == m.c() && symmetric(fnof(m), m.c()) && posdef(fnof(m), m.c()),
@at let:n.after
  let ghost gn = n as int;
@at L0.before
  proof { chol_start(data@, gn, m); }
@loop 0 for j
  invariant
    m.wf(), m.no_rows == n, m.c() == n, gn == n, data@.len() == n * n,
    chol_rows(data@, gn, m, j as int),
@at L0.start
  let ghost d0 = data@;
  let ghost gj = j as int;
@loop 0.0 for k
  invariant
    m.wf(), m.no_rows == n, m.c() == n, gn == n, data@.len() == n * n, j < n, gj == j,
    chol_rows(data@, gn, m, gj),
    forall|t: int| 0 <= t < k ==> #[trigger] chol_cell(data@, gn, m, gj, t),
    v(d) == cdot(data@, gn, gj, gj, k as int),
@at L0.0.start
  let ghost dk = data@;
@loop 0.0.0 for i
  invariant
    m.wf(), m.no_rows == n, m.c() == n, gn == n, data@.len() == n * n, j < n, gj == j, k < j, data@ == dk,
    v(s) == cdot(dk, gn, gj, k as int, i as int),
@at L0.0.0.start
  proof { let (x, y) = (el(dk, gn, k as int, i as int), el(dk, gn, gj, i as int)); assert(x * y == y * x) by (nonlinear_arith); }
@at if1.before
  proof {
    let gk = k as int;
    el_update(dk, gn, gn, gj, gk, s);
    assert(data@ == dk.update(gj * gn + gk, s));
    chol_frame(dk, data@, gn, m, gj);
    chol_pos(dk, gn, m, gj, gk);
    let q = v(m.at(gj, gk)) - cdot(dk, gn, gj, gk, gk);
    let p = el(dk, gn, gk, gk);
    assert(crate::v(s) == q / p);
    assert((q / p) * p == q) by (nonlinear_arith) requires p != 0real;
    cdot_ext(dk, data@, gn, gj, gk, gk);
    cdot_ext(dk, data@, gn, gj, gj, gk);
    assert(el(data@, gn, gk, gk) == p);
    assert forall|t: int| 0 <= t < k implies #[trigger] chol_cell(data@, gn, m, gj, t) by { assert(chol_cell(dk, gn, m, gj, t)); cdot_ext(dk, data@, gn, gj, t, t + 1); }
    assert(cdot(data@, gn, gj, gk, gk + 1) == v(m.at(gj, gk)));
  }
@at if1.then
  proof { assert(fnof(m)(k as int, gj) != fnof(m)(gj, k as int)); }
@at L0.0.after
  let ghost d1 = data@;
@at if2.then
  proof { chol_fail(d1, gn, m, gj); }
@loop 0.1 for k
  invariant
    m.wf(), m.no_rows == n, m.c() == n, gn == n, data@.len() == n * n, j < n, gj == j,
    forall|i: int, t: int| 0 <= i < gn && 0 <= t < gn ==> #[trigger] el(data@, gn, i, t) == if i == gj && t == gj { v(e_sqrt(d)) } else if i == gj && gj < t < k { 0real } else { el(d1, gn, i, t) },
@at L0.1.before
  proof { el_update(d1, gn, gn, gj, gj, e_sqrt(d)); assert(data@ == d1.update(gj * gn + gj, e_sqrt(d))); }
@at L0.1.start
  let ghost dk = data@;
@at L0.1.end
  proof { el_update(dk, gn, gn, gj, k as int, e_zero()); assert(data@ == dk.update(gj * gn + k, e_zero())); }
@at L0.end
  proof {
    chol_frame(d1, data@, gn, m, gj);
    assert forall|t: int| 0 <= t < gj implies #[trigger] chol_cell(data@, gn, m, gj, t) by { assert(chol_cell(d1, gn, m, gj, t)); cdot_ext(d1, data@, gn, gj, t, t + 1); }
    cdot_ext(d1, data@, gn, gj, gj, gj);
    let q = v(d);
    rsqrt_def(q);
    assert(rsqrt(q) > 0real) by (nonlinear_arith) requires rsqrt(q) >= 0real, rsqrt(q) * rsqrt(q) == q, q > 0real;
    assert(el(data@, gn, gj, gj) == rsqrt(q));
    chol_step(data@, gn, m, gj);
  }
@at end
  proof {
    chol_final(data@, gn, m);
    assert forall|l: Matrix<E>| #![trigger l.wf()] l.shaped(gn, gn) && l.data@ == data@ implies lower(fnof(&l), gn) && (forall|i: int| 0 <= i < gn ==> #[trigger] fnof(&l)(i, i) > 0real) && meq(fnof(m), mm(fnof(&l), tr(fnof(&l)), gn), gn, gn) by {
      let q = elm(data@, gn);
      let p = fnof(&l);
      assert forall|i: int, k: int| 0 <= i < gn && 0 <= k < gn implies #[trigger] p(i, k) == q(i, k) by { }
      assert forall|i: int, k: int| 0 <= i < k && k < gn implies #[trigger] p(i, k) == 0real by { assert(q(i, k) == 0real); }
      assert forall|i: int| 0 <= i < gn implies #[trigger] p(i, i) > 0real by { assert(q(i, i) > 0real); }
      assert forall|i: int, k: int| 0 <= i < gn && 0 <= k < gn implies #[trigger] fnof(m)(i, k) == mm(p, tr(p), gn)(i, k) by {
        assert(fnof(m)(i, k) == mm(q, tr(q), gn)(i, k));
        mp_ext(p, q, tr(p), tr(q), gn, i, i, k, k);
      }
    }
  }

@fn CholeskyDecomposition::get_l
@props C17
@ensures
  *r == self.l,

@fn CholeskyDecomposition::solve
@props C18
@pre b.no_rows == self.n()
@requires self.wf(), b.wf(),
@ensures
  r.shaped(self.n(), b.c()),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() ==> solves(&a, &r, b),
@at let:nx.after
  let ghost gn = n as int;
  let ghost gx = nx as int;
  let ghost lf = fnof(&self.l);
  let ghost y0 = fnof(b);
  let ghost lt = tr(lf);
  proof {
    assert(nx == b.c());
    assert(nzdiag(lf, gn)) by { assert forall|i: int| 0 <= i < gn implies #[trigger] lf(i, i) != 0real by { assert(lf(i, i) > 0real); } }
    assert(nzdiag(lt, gn)) by { assert forall|i: int| 0 <= i < gn implies #[trigger] lt(i, i) != 0real by { assert(lf(i, i) > 0real); } }
    assert(fdone(lf, xdata@, y0, gn, gx, 0));
    assert(upper(lt, gn, gn));
  }
@loop 0 for k
  invariant
    self.wf(), b.wf(), *l == self.l, n == self.n(), gn == n, gx == nx, lf == fnof(&self.l), nzdiag(lf, gn), xdata@.len() == n * nx, n * nx <= isize::MAX,
    fdone(lf, xdata@, y0, gn, gx, k as int),
@at L0.start
  let ghost xk = xdata@;
  let ghost gk = k as int;
@loop 0.0 for j
  invariant
    self.wf(), b.wf(), *l == self.l, n == self.n(), gn == n, gx == nx, lf == fnof(&self.l), nzdiag(lf, gn), xdata@.len() == n * nx, xk.len() == n * nx, n * nx <= isize::MAX, k < n, gk == k,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if i2 == gk && c < j { rdiv(el(xk, gx, gk, c) - fdot(lf, xk, gx, gk, c, gk), lf(gk, gk)) } else { el(xk, gx, i2, c) },
@at L0.0.start
  let ghost xj = xdata@;
  let ghost gj = j as int;
@loop 0.0.0 for i
  invariant
    self.wf(), b.wf(), *l == self.l, n == self.n(), gn == n, gx == nx, lf == fnof(&self.l), xdata@.len() == n * nx, xj.len() == n * nx, xk.len() == n * nx, n * nx <= isize::MAX, k < n, j < nx, gj == j, gk == k,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx && !(i2 == gk && c == gj) ==> #[trigger] el(xdata@, gx, i2, c) == el(xj, gx, i2, c),
    forall|i2: int| 0 <= i2 < gk ==> #[trigger] el(xj, gx, i2, gj) == el(xk, gx, i2, gj),
    el(xj, gx, gk, gj) == el(xk, gx, gk, gj),
    el(xdata@, gx, gk, gj) == el(xk, gx, gk, gj) - fdot(lf, xk, gx, gk, gj, i as int),
@at L0.0.0.start
  let ghost dk = xdata@;
@at L0.0.0.end
  proof {
    let x = e_sub(dk[k * gx + j], e_mul(dk[i * gx + j], self.l.data@[k * gn + i]));
    el_update(dk, gn, gx, gk, gj, x);
    assert(xdata@ == dk.update(gk * gx + gj, x));
    assert(el(dk, gx, i as int, gj) == el(xj, gx, i as int, gj));
    assert(el(xj, gx, i as int, gj) == el(xk, gx, i as int, gj));
    assert(lf(gk, i as int) == v(self.l.data@[k * gn + i]));
    let (p, q) = (el(xk, gx, i as int, gj), lf(gk, i as int));
    assert(p * q == q * p) by (nonlinear_arith);
  }
@at L0.0.0.after
  let ghost dj = xdata@;
@at L0.0.end
  proof {
    let x = e_div(dj[k * gx + j], self.l.data@[k * gn + k]);
    el_update(dj, gn, gx, gk, gj, x);
    assert(xdata@ == dj.update(gk * gx + gj, x));
    assert(lf(gk, gk) == v(self.l.data@[k * gn + k]));
  }
@at L0.end
  proof { assert(lf(gk, gk) > 0real); fdone_step(lf, xk, xdata@, y0, gn, gx, gk); }
@at L0.after
  let ghost y = elm(xdata@, gx);
  proof { fdone_done(lf, xdata@, y0, gn, gx); assert(bdone(lt, xdata@, y, gn, gx, gn)); }
@loop 1 for k
  invariant
    self.wf(), b.wf(), *l == self.l, n == self.n(), gn == n, gx == nx, lf == fnof(&self.l), lt == tr(lf), nzdiag(lt, gn), xdata@.len() == n * nx, n * nx <= isize::MAX, $lo == 0, $hi == n,
    bdone(lt, xdata@, y, gn, gx, $i),
@at L1.start
  let ghost xk = xdata@;
  let ghost gk = k as int;
@loop 1.0 for j
  invariant
    self.wf(), b.wf(), *l == self.l, n == self.n(), gn == n, gx == nx, lf == fnof(&self.l), lt == tr(lf), nzdiag(lt, gn), xdata@.len() == n * nx, xk.len() == n * nx, n * nx <= isize::MAX, k < n, gk == k,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if i2 == gk && c < j { rdiv(el(xk, gx, gk, c) - bdot(lt, xk, gx, gk, c, gk + 1, gn), lt(gk, gk)) } else { el(xk, gx, i2, c) },
@at L1.0.start
  let ghost xj = xdata@;
  let ghost gj = j as int;
@loop 1.0.0 for i
  invariant
    self.wf(), b.wf(), *l == self.l, n == self.n(), gn == n, gx == nx, lf == fnof(&self.l), lt == tr(lf), xdata@.len() == n * nx, xj.len() == n * nx, xk.len() == n * nx, n * nx <= isize::MAX, k < n, j < nx, gj == j, gk == k,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx && !(i2 == gk && c == gj) ==> #[trigger] el(xdata@, gx, i2, c) == el(xj, gx, i2, c),
    forall|i2: int| gk < i2 < gn ==> #[trigger] el(xj, gx, i2, gj) == el(xk, gx, i2, gj),
    el(xj, gx, gk, gj) == el(xk, gx, gk, gj),
    el(xdata@, gx, gk, gj) == el(xk, gx, gk, gj) - bdot(lt, xk, gx, gk, gj, gk + 1, i as int),
@at L1.0.0.start
  let ghost dk = xdata@;
@at L1.0.0.end
  proof {
    let x = e_sub(dk[k * gx + j], e_mul(dk[i * gx + j], self.l.data@[i * gn + k]));
    el_update(dk, gn, gx, gk, gj, x);
    assert(xdata@ == dk.update(gk * gx + gj, x));
    assert(el(dk, gx, i as int, gj) == el(xj, gx, i as int, gj));
    assert(el(xj, gx, i as int, gj) == el(xk, gx, i as int, gj));
    assert(lt(gk, i as int) == v(self.l.data@[i * gn + k]));
    let (p, q) = (el(xk, gx, i as int, gj), lt(gk, i as int));
    assert(p * q == q * p) by (nonlinear_arith);
  }
@at L1.0.0.after
  let ghost dj = xdata@;
@at L1.0.end
  proof {
    let x = e_div(dj[k * gx + j], self.l.data@[k * gn + k]);
    el_update(dj, gn, gx, gk, gj, x);
    assert(xdata@ == dj.update(gk * gx + gj, x));
    assert(lt(gk, gk) == v(self.l.data@[k * gn + k]));
  }
@at L1.end
  proof { assert(lt(gk, gk) != 0real); bdone_step(lt, xk, xdata@, y, gn, gx, gk); }
@at end
  proof {
    bdone_done(lt, xdata@, y, gn, gx);
    assert forall|a: Matrix<E>, x: Matrix<E>| #![trigger self.of(&a), x.wf()] self.of(&a) && a.wf() && x.shaped(gn, gx) && x.data@ == xdata@ implies solves(&a, &x, b) by {
      assert forall|i: int, c: int| 0 <= i < gn && 0 <= c < gx implies #[trigger] mp(fnof(&a), fnof(&x), gn, i, c) == crate::v(b.at(i, c)) by {
        mp_ext(fnof(&a), mm(lf, lt, gn), fnof(&x), fnof(&x), gn, i, i, c, c);
        mp_assoc(lf, lt, fnof(&x), gn, gn, i, c);
        assert forall|k: int| 0 <= k < gn implies #[trigger] mm(lt, fnof(&x), gn)(k, c) == y(k, c) by {
          mp_ext(lt, lt, fnof(&x), elm(xdata@, gx), gn, k, k, c, c);
          assert(mp(lt, elm(xdata@, gx), gn, k, c) == y(k, c));
        }
        mp_ext(lf, lf, mm(lt, fnof(&x), gn), y, gn, i, i, c, c);
        assert(mp(lf, y, gn, i, c) == y0(i, c));
      }
    }
  }
