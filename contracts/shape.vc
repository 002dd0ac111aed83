@verbatim
// ---------------------------------------------------------------- C27: index safety and shapes, over the opaque element type
// Nothing here depends on what an element is: the element type is opaque and its operations uninterpreted, so the
// bounds hold for every element value and along every path, NaN and infinity included.

@endverbatim
@file internalutil.rs
@fn hypot
@props C27
@ensures true,
@file decomp/lu.rs
@struct LUDecomposition
@verbatim
impl LUDecomposition<E> {
  pub open spec fn m(&self) -> int { self.lu.no_rows as int }
  pub open spec fn n(&self) -> int { self.lu.c() }
  pub open spec fn wf(&self) -> bool { self.lu.wf() && self.piv@.len() == self.m() && forall|k: int| 0 <= k < self.m() ==> #[trigger] self.piv@[k] < self.m() }
}
pub open spec fn below(p: Seq<usize>, hi: int, m: int) -> bool { forall|k: int| 0 <= k < hi ==> #[trigger] p[k] < m }
@endverbatim
@fn LUDecomposition::new
@props C27
@attr #[verifier::loop_isolation(false)]
@requires a.wf(),
@ensures r.wf(), r.m() == a.no_rows, r.n() == a.c(),
@at let:n.after
  proof { assert(ludata@.len() == m * n); }
@loops
  ludata@.len() == m * n,
  pivdata@.len() == m,
  m == a.no_rows && n == a.c(),
  j <= p && (p < m || p == j),
@loop 0 for i
  invariant
    below(pivdata@, i as int, m as int),
@loop 1 for j
  invariant
    below(pivdata@, m as int, m as int),
@fn LUDecomposition::get_l
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(),
@ensures r.shaped(self.m(), imin(self.m(), self.n())),
@at let:n.after
  proof { assert(m * n <= self.lu.data@.len()) by (nonlinear_arith) requires m == self.m(), n <= self.n(), self.m() * self.n() == self.lu.data@.len(); }
@loops
  ldata@.len() == m * n,
@fn LUDecomposition::get_u
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(),
@ensures r.shaped(imin(self.m(), self.n()), self.n()),
@at let:n.after
  proof { assert(m * n <= self.lu.data@.len()) by (nonlinear_arith) requires m <= self.m(), n == self.n(), self.m() * self.n() == self.lu.data@.len(); }
@loops
  udata@.len() == m * n,
@fn LUDecomposition::get_p
@props C27
@requires self.wf(), self.m() * self.m() <= isize::MAX,
@ensures r.shaped(self.m(), self.m()),
@at start
  proof {
    assert forall|k: int| 0 <= k < self.m() implies #[trigger] self.piv@[k] * self.m() <= usize::MAX by {
      assert(self.piv@[k] < self.m());
      assert(self.piv@[k] * self.m() <= self.m() * self.m()) by (nonlinear_arith) requires 0 <= self.piv@[k] < self.m();
    }
  }
@fn LUDecomposition::get_piv
@props C27
@ensures *r == self.piv,
@fn LUDecomposition::is_non_singular
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(), self.n() <= self.m(),
@ensures true,
@loops
  true,
@at L0.start
  proof { assert(j * n + n <= self.m() * n); }
@fn LUDecomposition::is_singular
@props C27
@requires self.wf(), self.n() <= self.m(),
@ensures true,
@fn LUDecomposition::det
@props C27
@attr #[verifier::loop_isolation(false)]
@pre self.m() == self.n()
@requires self.wf(),
@ensures true,
@loops
  true,
@at L0.start
  proof { assert(j * n + n <= self.m() * n); }
@fn LUDecomposition::solve
@props C27
@attr #[verifier::loop_isolation(false)]
@pre self.m() == self.n() && b.no_rows == self.m()
@requires self.wf(), b.wf(),
@ensures r is Some ==> r->0.shaped(self.n(), b.c()),
@at let:nx.after
  proof { assert(m * nx == b.data@.len()); }
@loops
  xdata@.len() == m * nx,
@loop 0 for i
  invariant
    dest_idx == i * nx,
@loop 0.0 for j
  invariant
    dest_idx == i * nx + j,
@at L0.0.start
  proof { assert(self.piv@[i as int] < m); }
@at L0.end
  proof { assert((i + 1) * nx == i * nx + nx) by (nonlinear_arith); }
@file decomp/cholesky.rs
@struct CholeskyDecomposition
@fn CholeskyDecomposition::new
@props C27
@attr #[verifier::loop_isolation(false)]
@requires m.wf(),
@ensures m.no_rows != m.c() ==> r is None, r is Some ==> r->0.l.shaped(m.no_rows as int, m.no_rows as int),
@loops
  data@.len() == n * n,
@fn CholeskyDecomposition::get_l
@props C27
@ensures *r == self.l,
@fn CholeskyDecomposition::solve
@props C27
@attr #[verifier::loop_isolation(false)]
@pre self.l.no_rows == b.no_rows
@requires self.l.wf(), self.l.no_rows == self.l.c(), b.wf(),
@ensures r.shaped(b.no_rows as int, b.c()),
@at let:nx.after
  proof { assert(n * nx == b.data@.len()); }
@loops
  xdata@.len() == n * nx,
@file decomp/qr.rs
@struct QRDecomposition
@verbatim
impl QRDecomposition<E> {
  pub open spec fn m(&self) -> int { self.qr.no_rows as int }
  pub open spec fn n(&self) -> int { self.qr.c() }
  pub open spec fn wf(&self) -> bool { self.qr.wf() && self.rdiag@.len() == imin(self.m(), self.n()) }
}
@endverbatim
@fn QRDecomposition::new
@props C27
@attr #[verifier::loop_isolation(false)]
@requires m.wf(),
@ensures r.wf(), r.m() == m.no_rows, r.n() == m.c(),
@loops
  qrdata@.len() == m * n,
  rdiag@.len() == diag_count,
@fn QRDecomposition::perform_householder_reflection
@props C27
@attr #[verifier::loop_isolation(false)]
@requires minor < m, minor < n, m * n <= isize::MAX, old(qrdata)@.len() == m * n, old(rdiag)@.len() == imin(m as int, n as int),
@ensures final(qrdata)@.len() == m * n, final(rdiag)@.len() == imin(m as int, n as int),
@loops
  qrdata@.len() == m * n,
  rdiag@.len() == imin(m as int, n as int),
@fn QRDecomposition::is_full_rank
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(), self.n() <= self.m(),
@ensures true,
@loops
  true,
@fn QRDecomposition::get_h
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(),
@ensures r.shaped(self.m(), self.n()),
@loops
  hdata@.len() == m * n,
@fn QRDecomposition::get_r
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(),
@ensures r.shaped(self.m(), self.n()),
@loops
  rdata@.len() == m * n,
@fn QRDecomposition::get_q
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(), self.m() * self.m() <= isize::MAX,
@ensures r.shaped(self.m(), self.m()),
@loops
  qdata@.len() == m * m,
@fn QRDecomposition::solve
@props C27
@attr #[verifier::loop_isolation(false)]
@pre b.no_rows == self.m()
@requires self.wf(), b.wf(), self.n() <= self.m(),
@ensures r is Some ==> r->0.shaped(self.n(), b.c()),
@at let:m.after
  proof { assert(m * nx == b.data@.len()); assert(n * nx <= m * nx) by (nonlinear_arith) requires n <= m, nx >= 0; }
@loops
  xdata@.len() == m * nx,
@file decomp/svd.rs
@struct SVD
@verbatim
impl Clone for Matrix<E> {
  fn clone(&self) -> (r: Matrix<E>)
    ensures r.no_rows == self.no_rows, r.data@ == self.data@,
  {
    let d = self.data.clone();
    proof { assert(d@ =~= self.data@); }
    Matrix { no_rows: self.no_rows, data: d }
  }
}
impl SVD<E> {
  pub open spec fn m(&self) -> int { self.u.no_rows as int }
  pub open spec fn n(&self) -> int { self.v.no_rows as int }
  pub open spec fn wf(&self) -> bool { self.u.shaped(self.m(), self.m()) && self.v.shaped(self.n(), self.n()) && self.s.shaped(self.m(), self.n()) }
}
@endverbatim
@fn SVD::get_u
@props C27
@ensures *r == self.u,
@fn SVD::get_s
@props C27
@ensures *r == self.s,
@fn SVD::get_v
@props C27
@ensures *r == self.v,
@fn SVD::rank
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(),
@ensures r <= imin(self.m(), self.n()),
@loops
  r <= i,
@fn SVD::new
@props C27
@attr #[verifier::exec_allows_no_decreases_clause]
@requires a.wf(), a.no_rows * a.no_rows <= isize::MAX, a.c() * a.c() <= isize::MAX,
@ensures r.wf(), r.m() == a.no_rows, r.n() == a.c(),
@at L0.start
  let ghost k0 = k as int;
@at L0.2.start
  let ghost j0 = j as int;
@at L0.7.start
  let ghost j1 = j as int;
@at L0.8.start
  let ghost j2 = j as int;
@at L1.start
  let ghost j3 = j as int;
@at L2.start
  let ghost k2 = k as int;
@at L2.0.start
  let ghost j4 = j as int;
@at L3.start
  let ghost k3 = k as int;
@at L3.0.start
  let ghost j5 = j as int;
@at L5.start
  let ghost p0 = p as int;
@at L5.2.start
  let ghost jj2 = j as int;
@at L5.3.start
  let ghost jj3 = j as int;
@at L5.4.start
  let ghost jj4 = j as int;
@loops
  n >= 1 && n <= m && m * n <= isize::MAX && m * m <= isize::MAX && n * n <= isize::MAX,
  nct == imin(m - 1, n as int) && nrt == if n >= 2 { n - 2 } else { 0 },
  adata@.len() == m * n && sdata@.len() == n && edata@.len() == n && workdata@.len() == m && udata@.len() == m * m && vdata@.len() == n * n,
  k0 == k && 0 <= k0 < n && k0 < m,
  k0 < j0 < n && j0 == j,
  k0 < j1 < n && j1 == j,
  k0 < j2 < n && j2 == j,
  j3 == j && j3 < m,
  k2 == k && k2 < nct,
  j4 == j && j4 < m,
  k3 == k && k3 < n,
  j5 == j && j5 < n && k3 < nrt,
  0 <= p <= n && pp == n - 1,
  p0 == p && 1 <= p0,
@loop 2
  invariant
    $lo == 0, $hi == nct,
@loop 3
  invariant
    $lo == 0, $hi == n,
@loop 3.0 for j
  invariant
    k3 < nrt,
@loop 5.0
  invariant
    -1 <= k <= p - 2,
@loop 5.1
  invariant
    -1 <= k < p - 2, k <= ks <= p - 1,
@loop 5.2
  invariant
    2 <= p, 0 <= k, k - 1 <= j <= p - 2,
@loop 5.2.0 for i
  invariant
    2 <= p, jj2 == j, 0 <= jj2 <= p - 2,
@loop 5.3 for j
  invariant
    1 <= k < p,
@loop 5.3.0 for i
  invariant
    1 <= k < p, jj3 == j, 1 <= jj3 < p,
@loop 5.4 for j
  invariant
    0 <= k, 2 <= p,
@loop 5.4.0 for i
  invariant
    0 <= k, 2 <= p, 0 <= jj4 < p - 1, jj4 == j,
@loop 5.4.1 for i
  invariant
    0 <= k, 2 <= p, 0 <= jj4 < p - 1, jj4 == j,
@loop 5.5 for i
  invariant
    0 <= k < p,
@loop 5.6
  invariant
    0 <= k <= pp,
@loop 5.6.0 for i
  invariant
    0 <= k < pp,
@loop 5.6.1 for i
  invariant
    0 <= k < pp,
@file decomp/eigen.rs
@struct EigenDecomposition
@verbatim
// TRUSTED: a square root is never negative and its negation never positive; zero is neither
pub axiom fn sqrt_sign(x: E)
  ensures !e_lt(e_sqrt(x), e_zero()), !e_gt(e_neg(e_sqrt(x)), e_zero()), !e_lt(e_zero(), e_zero()), !e_gt(e_zero(), e_zero());
// the imaginary part at i, of order n: positive ones start a pair, negative ones end one
pub open spec fn im_ok(x: E, i: int, n: int) -> bool { (e_gt(x, e_zero()) ==> i + 1 < n) && (e_lt(x, e_zero()) ==> i >= 1) }
pub open spec fn ims_ok(e: Seq<E>, lo: int, n: int) -> bool { e.len() == n && forall|i: int| lo <= i < n ==> #[trigger] im_ok(e[i], i, n) }
impl EigenDecomposition<E> {
  pub open spec fn e_ok(&self) -> bool { ims_ok(self.e@, 0, self.n as int) }
  pub open spec fn wf(&self) -> bool { self.n > 0 && self.v.shaped(self.n as int, self.n as int) && self.d@.len() == self.n && self.e@.len() == self.n }
}
@endverbatim
@fn EigenDecomposition::tred2
@props C27
@requires n > 0, n * n <= isize::MAX, old(ddata)@.len() == n, old(edata)@.len() == n, old(vdata)@.len() == n * n,
@ensures final(ddata)@.len() == n, final(edata)@.len() == n, final(vdata)@.len() == n * n,
@at L1.start
  let ghost i1 = i as int;
@at L1.4.start
  let ghost j1 = j as int;
@at L1.7.start
  let ghost j2 = j as int;
@at L2.start
  let ghost i2 = i as int;
@at L2.1.start
  let ghost j3 = j as int;
@loops
  n > 0 && n * n <= isize::MAX && ddata@.len() == n && edata@.len() == n && vdata@.len() == n * n,
  i1 == i && 1 <= i < n,
  j1 == j && 0 <= j < i,
  j2 == j && 0 <= j < i,
  i2 == i && 0 <= i < n - 1,
  j3 == j && 0 <= j <= i,
@loop 1 for i
  invariant
    $lo == 1, $hi == n,
@fn EigenDecomposition::tql2
@props C27
@attr #[verifier::exec_allows_no_decreases_clause]
@requires n > 0, n * n <= isize::MAX, old(ddata)@.len() == n, old(edata)@.len() == n, old(vdata)@.len() == n * n,
@ensures final(ddata)@.len() == n, final(vdata)@.len() == n * n, final(edata)@.len() == n, ims_ok(final(edata)@, 0, n as int),
@at end
  proof { sqrt_sign(e_zero()); }
@at L1.start
  let ghost l1 = l as int;
@at L1.1.1.start
  let ghost i1 = i as int;
@at L2.start
  let ghost i2 = i as int;
@loops
  n > 0 && n * n <= isize::MAX && ddata@.len() == n && edata@.len() == n && vdata@.len() == n * n,
  l1 == l && 0 <= l < n,
  l <= m < n,
  i1 == i && l <= i < m,
  i2 == i && 0 <= i < n - 1,
@loop 1 for l
  invariant
    forall|i: int| 0 <= i < l ==> #[trigger] edata@[i] == e_zero(),
@loop 1.0
  invariant
    forall|i: int| 0 <= i < l ==> #[trigger] edata@[i] == e_zero(),
@loop 1.1
  invariant
    l < m, forall|i: int| 0 <= i < l ==> #[trigger] edata@[i] == e_zero(),
@loop 1.1.0 for i
  invariant
    l < m, forall|i: int| 0 <= i < l ==> #[trigger] edata@[i] == e_zero(),
@loop 1.1.1 for i
  invariant
    $lo == l, $hi == m, l < m, forall|i: int| 0 <= i < l ==> #[trigger] edata@[i] == e_zero(),
@loop 2 for i
  invariant
    forall|i: int| 0 <= i < n ==> #[trigger] edata@[i] == e_zero(),
@loop 2.0 for j
  invariant
    i <= k < n, forall|i: int| 0 <= i < n ==> #[trigger] edata@[i] == e_zero(),
@loop 2.1 for j
  invariant
    k < n, forall|i: int| 0 <= i < n ==> #[trigger] edata@[i] == e_zero(),
@fn EigenDecomposition::orthes
@props C27
@requires n > 0, n * n <= isize::MAX, old(hdata)@.len() == n * n, old(vdata)@.len() == n * n,
@ensures final(hdata)@.len() == n * n, final(vdata)@.len() == n * n,
@at L0.start
  let ghost m1 = m as int;
@at L0.3.start
  let ghost j1 = j as int;
@at L0.4.start
  let ghost i1 = i as int;
@at L1.start
  let ghost i2 = i as int;
@at L2.start
  let ghost m2 = m as int;
@at L2.1.start
  let ghost j2 = j as int;
@loops
  n > 0 && n * n <= isize::MAX && hdata@.len() == n * n && vdata@.len() == n * n && low == 0 && high == n - 1 && ort@.len() == n,
  m1 == m && 1 <= m < high,
  j1 == j && m <= j < n,
  i1 == i && 0 <= i < n,
  i2 == i && 0 <= i < n,
  m2 == m && 1 <= m < high,
  j2 == j && m <= j < n,
@loop 0.2 for i
  invariant
    $lo == m, $hi == n,
@loop 0.3.0 for i
  invariant
    $lo == m, $hi == n,
@loop 0.4.0 for j
  invariant
    $lo == m, $hi == n,
@loop 2 for m
  invariant
    $lo == 1, $hi == high,
@fn EigenDecomposition::cdiv
@props C27
@ensures true,
@fn EigenDecomposition::hqr2
@props C27
@attr #[verifier::exec_allows_no_decreases_clause]
@requires n > 0, n * n <= isize::MAX, old(ddata)@.len() == n, old(edata)@.len() == n, old(hdata)@.len() == n * n, old(vdata)@.len() == n * n,
@ensures final(ddata)@.len() == n, final(hdata)@.len() == n * n, final(vdata)@.len() == n * n, ims_ok(final(edata)@, 0, n as int),
@at let:nn.after
  let ghost gn = nn as int;
  proof { assert(nn <= nn * nn) by (nonlinear_arith) requires nn >= 1; }
@at L0.start
  let ghost i0 = i as int;
@at L1.start
  let ghost n1 = n as int;
  proof { sqrt_sign(e_zero()); }
@at if5.elseend
  proof { sqrt_sign(e_abs(q)); }
@at L1.8.start
  let ghost k1 = k as int;
@at if10.after
  // ASSUMED: fewer than 2^31 iterations for one eigenvalue
  proof { assume(iter < i32::MAX); }
@at L2.start
  let ghost n2 = n as int;
  proof { assert(im_ok(edata@[n2], n2, gn)); }
@at L2.0.start
  let ghost i1 = i as int;
@at L2.1.start
  let ghost i2 = i as int;
@at L3.start
  let ghost i3 = i as int;
@at L4.start
  let ghost j4 = j as int;
@at L4.0.start
  let ghost i4 = i as int;
@loops
  gn == nn && 1 <= nn && nn * nn <= isize::MAX && low == 0 && high == nn - 1 && ddata@.len() == nn && edata@.len() == nn && hdata@.len() == nn * nn && vdata@.len() == nn * nn,
  i0 == i && 0 <= i < nn,
  n1 == n && 0 <= n1 < nn && ims_ok(edata@, n1 + 1, gn),
  k1 == k && m <= k < n && 0 <= m,
  notlast == (k != n - 1),
  n2 == n && 0 <= n2 < nn && ims_ok(edata@, 0, gn),
  i1 == i && 0 <= i1 < n2,
  i2 == i && 0 <= i2 < n2 - 1,
  i3 == i && 0 <= i3 < nn,
  j4 == j && 0 <= j4 < nn && ims_ok(edata@, 0, gn),
  i4 == i && 0 <= i4 < nn,
@loop 1
  invariant
    -1 <= n < nn, ims_ok(edata@, n + 1, gn),
@loop 1.0
  invariant
    0 <= l <= n,
@loop 1.1 for j
  invariant
    1 <= n,
@loop 1.2 for i
  invariant
    1 <= n,
@loop 1.3 for i
  invariant
    1 <= n,
@loop 1.6
  invariant
    0 <= l <= m <= n - 2,
@loop 1.7 for i
  invariant
    0 <= l <= m <= n - 2,
@loop 1.8 for k
  invariant
    0 <= l <= m <= n - 2,
@loop 2 for n
  invariant
    ims_ok(edata@, 0, gn), $lo == 0, $hi == nn,
@loop 2.0 for i
  invariant
    $lo == 0, $hi == n, n2 == n, 0 <= l <= n,
@loop 2.0.0 for j
  invariant
    0 <= l <= n,
@loop 2.1 for i
  invariant
    $lo == 0, $hi == n - 1, n2 == n, 1 <= n, 0 <= l <= n - 1,
@loop 2.1.0 for j
  invariant
    0 <= l <= n - 1,
@loop 3 for i
  invariant
    ims_ok(edata@, 0, gn),
@loop 4 for j
  invariant
    ims_ok(edata@, 0, gn), $lo == low, $hi == nn,
@fn EigenDecomposition::new
@props C27
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::exec_allows_no_decreases_clause]
@pre a.no_rows == a.c()
@requires a.wf(),
@ensures r.wf(), r.e_ok(), r.n == a.no_rows,
@loops
  vdata@.len() == n * n,
  hdata@.len() == n * n,
@fn EigenDecomposition::get_v
@props C27
@ensures *r == self.v,
@fn EigenDecomposition::get_real_eigenvalues
@props C27
@ensures *r == self.d,
@fn EigenDecomposition::get_imag_eigenvalues
@props C27
@ensures *r == self.e,
@fn EigenDecomposition::get_d
@props C27
@attr #[verifier::loop_isolation(false)]
@requires self.wf(), self.e_ok(),
@ensures r.shaped(self.n as int, self.n as int),
@loops
  ddata@.len() == self.n * self.n,
@at L0.start
  proof { assert(im_ok(self.e@[i as int], i as int, self.n as int)); }
