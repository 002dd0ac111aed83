@verbatim
// ---------------------------------------------------------------- LU: what the packed buffer means
// sum of L(i, k) * U(k, j) over k < hi, in the packed buffer
pub open spec fn lud(d: Seq<E>, n: int, i: int, j: int, hi: int) -> real { sum(|k: int| el(d, n, i, k) * el(d, n, k, j), 0, hi) }
// value of (L*U)(i, j) before column j's multipliers are divided by the pivot (raw), and after
pub open spec fn lu_raw(d: Seq<E>, n: int, i: int, j: int) -> real { el(d, n, i, j) + lud(d, n, i, j, imin(i, j)) }
pub open spec fn lu_fin(d: Seq<E>, n: int, i: int, j: int) -> real {
  if i <= j { lu_raw(d, n, i, j) } else { el(d, n, i, j) * el(d, n, j, j) + lud(d, n, i, j, j) }
}
pub proof fn lud_ext(d: Seq<E>, e: Seq<E>, n: int, i: int, i2: int, j: int, hi: int)
  requires
    forall|k: int| 0 <= k < hi ==> #[trigger] el(e, n, i2, k) == el(d, n, i, k),
    forall|k: int| 0 <= k < hi ==> #[trigger] el(e, n, k, j) == el(d, n, k, j),
  ensures lud(e, n, i2, j, hi) == lud(d, n, i, j, hi),
{
  let f = |k: int| el(d, n, i, k) * el(d, n, k, j);
  let g = |k: int| el(e, n, i2, k) * el(e, n, k, j);
  assert forall|k: int| 0 <= k < hi implies #[trigger] f(k) == g(k) by { assert(el(e, n, i2, k) == el(d, n, i, k)); assert(el(e, n, k, j) == el(d, n, k, j)); }
  sum_ext(f, g, 0, hi);
}
// columns < j hold finished factors of the permuted matrix, columns >= j are still the permuted matrix
#[verifier::opaque]
pub open spec fn lu_state(d: Seq<E>, p: Seq<usize>, a: &Matrix<E>, j: int) -> bool {
  &&& forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < j && c < a.c() ==> #[trigger] lu_fin(d, a.c(), i, c) == v(a.at(p[i] as int, c))
  &&& forall|i: int, c: int| 0 <= c < j && c < i && i < a.no_rows && c < a.c() ==> rabs(#[trigger] el(d, a.c(), i, c)) <= 1real
  &&& forall|i: int, c: int| 0 <= i < a.no_rows && j <= c < a.c() ==> #[trigger] el(d, a.c(), i, c) == v(a.at(p[i] as int, c))
}
// column j is reduced but not yet divided by its pivot
#[verifier::opaque]
pub open spec fn lu_mid(d: Seq<E>, p: Seq<usize>, a: &Matrix<E>, j: int) -> bool {
  &&& forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < j && c < a.c() ==> #[trigger] lu_fin(d, a.c(), i, c) == v(a.at(p[i] as int, c))
  &&& forall|i: int, c: int| 0 <= c < j && c < i && i < a.no_rows && c < a.c() ==> rabs(#[trigger] el(d, a.c(), i, c)) <= 1real
  &&& forall|i: int| 0 <= i < a.no_rows ==> #[trigger] lu_raw(d, a.c(), i, j) == v(a.at(p[i] as int, j))
  &&& forall|i: int, c: int| 0 <= i < a.no_rows && j < c < a.c() ==> #[trigger] el(d, a.c(), i, c) == v(a.at(p[i] as int, c))
}
pub proof fn lu_phase_a(d0: Seq<E>, d2: Seq<E>, p: Seq<usize>, a: &Matrix<E>, j: int)
  requires
    lu_state(d0, p, a, j), 0 <= j < a.c(),
    forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < a.c() && c != j ==> #[trigger] el(d2, a.c(), i, c) == el(d0, a.c(), i, c),
    forall|i: int| 0 <= i < a.no_rows ==> #[trigger] lu_raw(d2, a.c(), i, j) == v(a.at(p[i] as int, j)),
  ensures lu_mid(d2, p, a, j),
{
  reveal(lu_state); reveal(lu_mid);
  let n = a.c();
  assert forall|i2: int, c: int| 0 <= i2 < a.no_rows && 0 <= c < j && c < n implies #[trigger] lu_fin(d2, n, i2, c) == v(a.at(p[i2] as int, c)) by {
    assert(lu_fin(d0, n, i2, c) == v(a.at(p[i2] as int, c)));
    lud_ext(d0, d2, n, i2, i2, c, imin(i2, c));
  }
}
pub proof fn lu_start(d: Seq<E>, p: Seq<usize>, a: &Matrix<E>)
  requires d == a.data@, forall|k: int| 0 <= k < a.no_rows ==> #[trigger] p[k] == k,
  ensures lu_state(d, p, a, 0),
{ reveal(lu_state); }
pub proof fn lu_rest(d: Seq<E>, p: Seq<usize>, a: &Matrix<E>, j: int, i: int, c: int)
  requires lu_state(d, p, a, j), 0 <= i < a.no_rows, j <= c < a.c(),
  ensures el(d, a.c(), i, c) == v(a.at(p[i] as int, c)),
{ reveal(lu_state); }
pub proof fn lu_phase_b(d2: Seq<E>, d3: Seq<E>, p2: Seq<usize>, p3: Seq<usize>, a: &Matrix<E>, j: int, p: int)
  requires
    lu_mid(d2, p2, a, j), 0 <= j < p, p < a.no_rows, j < a.c(),
    forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < a.c() ==> #[trigger] el(d3, a.c(), i, c) == el(d2, a.c(), sw(p, j, i), c),
    forall|i: int| 0 <= i < a.no_rows ==> #[trigger] p3[i] == p2[sw(p, j, i)],
  ensures lu_mid(d3, p3, a, j),
{
  reveal(lu_mid);
  let n = a.c();
  assert forall|i2: int, c: int| 0 <= i2 < a.no_rows && 0 <= c < j && c < n implies #[trigger] lu_fin(d3, n, i2, c) == v(a.at(p3[i2] as int, c)) by {
    let r = sw(p, j, i2);
    assert(lu_fin(d2, n, r, c) == v(a.at(p2[r] as int, c)));
    assert(imin(i2, c) == imin(r, c));
    lud_ext(d2, d3, n, r, i2, c, imin(i2, c));
    assert(el(d3, n, i2, c) == el(d2, n, r, c));
    if c < i2 { assert(el(d3, n, c, c) == el(d2, n, c, c)); }
    assert(p3[i2] == p2[r]);
  }
  assert forall|i2: int| 0 <= i2 < a.no_rows implies #[trigger] lu_raw(d3, n, i2, j) == v(a.at(p3[i2] as int, j)) by {
    let r = sw(p, j, i2);
    assert(lu_raw(d2, n, r, j) == v(a.at(p2[r] as int, j)));
    assert(imin(i2, j) == imin(r, j));
    lud_ext(d2, d3, n, r, i2, j, imin(i2, j));
    assert(el(d3, n, i2, j) == el(d2, n, r, j));
    assert(p3[i2] == p2[r]);
  }
  assert forall|i2: int, c: int| 0 <= c < j && c < i2 && i2 < a.no_rows && c < n implies rabs(#[trigger] el(d3, n, i2, c)) <= 1real by {
    assert(el(d3, n, i2, c) == el(d2, n, sw(p, j, i2), c));
  }
  assert forall|i2: int, c: int| 0 <= i2 < a.no_rows && j < c < n implies #[trigger] el(d3, n, i2, c) == v(a.at(p3[i2] as int, c)) by {
    assert(el(d3, n, i2, c) == el(d2, n, sw(p, j, i2), c));
    assert(p3[i2] == p2[sw(p, j, i2)]);
  }
}
pub proof fn lu_phase_c(d4: Seq<E>, d5: Seq<E>, p: Seq<usize>, a: &Matrix<E>, j: int)
  requires
    lu_mid(d4, p, a, j), 0 <= j < a.c(),
    forall|k: int| j <= k < a.no_rows ==> #[trigger] rabs(el(d4, a.c(), k, j)) <= rabs(el(d4, a.c(), j, j)),
    forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < a.c() ==> #[trigger] el(d5, a.c(), i, c) ==
      if c == j && j < i && el(d4, a.c(), j, j) != 0real { rdiv(el(d4, a.c(), i, c), el(d4, a.c(), j, j)) } else { el(d4, a.c(), i, c) },
  ensures lu_state(d5, p, a, j + 1),
{
  reveal(lu_state); reveal(lu_mid);
  let n = a.c();
  let gm = a.no_rows as int;
  let piv = el(d4, n, j, j);
  assert forall|i2: int, c: int| 0 <= i2 < gm && 0 <= c < j + 1 && c < n implies #[trigger] lu_fin(d5, n, i2, c) == v(a.at(p[i2] as int, c)) by {
    lud_ext(d4, d5, n, i2, i2, c, imin(i2, c));
    if c < j {
      assert(lu_fin(d4, n, i2, c) == v(a.at(p[i2] as int, c)));
      assert(el(d5, n, i2, c) == el(d4, n, i2, c));
      if c < i2 { assert(el(d5, n, c, c) == el(d4, n, c, c)); }
    } else {
      assert(lu_raw(d4, n, i2, j) == v(a.at(p[i2] as int, j)));
      assert(el(d5, n, i2, c) == if j < i2 && piv != 0real { rdiv(el(d4, n, i2, c), piv) } else { el(d4, n, i2, c) });
      if i2 > j {
        assert(el(d5, n, j, j) == piv);
        let x = el(d4, n, i2, j);
        if piv != 0real { assert((x / piv) * piv == x) by (nonlinear_arith) requires piv != 0real; }
        else { assert(rabs(x) <= rabs(piv)); assert(x == 0real); assert(x * piv == 0real) by (nonlinear_arith) requires x == 0real; }
      }
    }
  }
  assert forall|i2: int, c: int| 0 <= c < j + 1 && c < i2 && i2 < gm && c < n implies rabs(#[trigger] el(d5, n, i2, c)) <= 1real by {
    if c < j { assert(rabs(el(d4, n, i2, c)) <= 1real); assert(el(d5, n, i2, c) == el(d4, n, i2, c)); }
    else {
      let x = el(d4, n, i2, j);
      assert(rabs(x) <= rabs(piv));
      if piv != 0real { assert(rabs(x / piv) <= 1real) by (nonlinear_arith) requires piv != 0real, rabs(x) <= rabs(piv); }
    }
  }
}
@endverbatim
@file decomp/lu.rs
@struct LUDecomposition
@verbatim
impl LUDecomposition<E> {
  pub open spec fn m(&self) -> int { self.lu.no_rows as int }
  pub open spec fn n(&self) -> int { self.lu.c() }
  pub open spec fn at(&self, i: int, j: int) -> real { el(self.lu.data@, self.n(), i, j) }
  // the factors as functions of the packed buffer
  pub open spec fn l(&self, i: int, k: int) -> real { if i > k { self.at(i, k) } else if i == k { 1real } else { 0real } }
  pub open spec fn u(&self, k: int, j: int) -> real { if k <= j { self.at(k, j) } else { 0real } }
  pub open spec fn lk(&self, i: int, k: int, j: int) -> real { self.l(i, k) * self.u(k, j) }
  pub open spec fn dim(&self) -> int { imin(self.m(), self.n()) }
  pub open spec fn full(&self) -> bool { forall|j: int| 0 <= j < self.n() ==> #[trigger] self.at(j, j) != 0real }
  pub open spec fn wf(&self) -> bool { self.lu.wf() && perm_of(ints(self.piv@), self.pospivsign, self.m()) && is_perm(ints(self.piv@), self.m()) }
  // a decomposition of a
  pub open spec fn of(&self, a: &Matrix<E>) -> bool { self.wf() && self.lu.shaped(a.no_rows as int, a.c()) && lu_state(self.lu.data@, self.piv@, a, a.c()) }
  // L*U = P*A, L unit lower trapezoidal with entries of magnitude at most one
  pub open spec fn factors(&self, a: &Matrix<E>) -> bool {
    &&& self.wf() && self.lu.shaped(a.no_rows as int, a.c())
    &&& forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < a.c() ==> #[trigger] lu_prod(self, i, c) == v(a.at(self.piv@[i] as int, c))
    &&& forall|i: int, k: int| 0 <= i < a.no_rows && 0 <= k < self.dim() ==> rabs(#[trigger] self.l(i, k)) <= 1real
  }
}
pub open spec fn lu_prod(lu: &LUDecomposition<E>, i: int, c: int) -> real { sum(|k: int| lu.lk(i, k, c), 0, lu.dim()) }
// C13 over the contracts below: every decomposition of a factors a
pub proof fn of_factors(lu: &LUDecomposition<E>, a: &Matrix<E>)
  requires lu.of(a), a.wf(),
  ensures lu.factors(a),
{
  reveal(lu_state);
  let d = lu.lu.data@;
  let n = a.c();
  assert forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < n implies #[trigger] lu_prod(lu, i, c) == v(a.at(lu.piv@[i] as int, c)) by {
    assert(lu_fin(d, n, i, c) == v(a.at(lu.piv@[i] as int, c)));
    let f = |k: int| lu.lk(i, k, c);
    let g = |k: int| el(d, n, i, k) * el(d, n, k, c);
    let mn = imin(i, c);
    // past min(i, c) one of the two factors is zero
    assert forall|k: int| mn < k < lu.dim() implies #[trigger] f(k) == 0real by {
      if k > i { assert(lu.l(i, k) * lu.u(k, c) == 0real) by (nonlinear_arith) requires lu.l(i, k) == 0real; }
      else { assert(lu.l(i, k) * lu.u(k, c) == 0real) by (nonlinear_arith) requires lu.u(k, c) == 0real; }
    }
    sum_ext(f, g, 0, mn);
    assert(mn < lu.dim());
    sum_split(f, 0, mn, lu.dim());
    sum_first(f, mn, lu.dim());
    sum_zero(f, mn + 1, lu.dim());
    assert(f(mn) == lu.l(i, mn) * lu.u(mn, c));
    if i <= c { assert(lu.l(i, mn) * lu.u(mn, c) == lu.at(i, c)) by (nonlinear_arith) requires lu.l(i, mn) == 1real, lu.u(mn, c) == lu.at(i, c); }
  }
  assert forall|i: int, k: int| 0 <= i < a.no_rows && 0 <= k < lu.dim() implies rabs(#[trigger] lu.l(i, k)) <= 1real by {
    if i > k { assert(rabs(el(d, n, i, k)) <= 1real); }
  }
}
@endverbatim
@fn LUDecomposition::new
@props C13
@requires a.wf(),
@ensures
  r.of(a),
@at L0.before
  let ghost gm = m as int;
  let ghost gn = n as int;
@loop 0 for i
  invariant
    pivdata@.len() == m, forall|k: int| 0 <= k < i ==> #[trigger] pivdata@[k] == k,
@at L0.after
  proof {
    assert(ludata@ == a.data@);
    let e = Seq::<(int, int)>::empty();
    assert(ints(pivdata@) =~= after_swaps(gm, e));
    assert(swaps_ok(gm, e));
    assert(perm_of(ints(pivdata@), true, gm));
    lu_start(ludata@, pivdata@, a);
  }
@loop 1 for j
  invariant
    a.wf(), m == a.no_rows, n == a.c(), gm == m, gn == n, ludata@.len() == m * n, pivdata@.len() == m,
    perm_of(ints(pivdata@), pospivsign, gm),
    lu_state(ludata@, pivdata@, a, j as int),
@at L1.start
  let ghost d0 = ludata@;
  let ghost p0 = pivdata@;
@loop 1.0 for i
  invariant
    a.wf(), m == a.no_rows, n == a.c(), gm == m, gn == n, ludata@.len() == m * n, j < n, d0.len() == m * n, p0 == pivdata@, 
    lu_state(d0, p0, a, j as int),
    forall|i2: int, c: int| 0 <= i2 < gm && 0 <= c < gn && (c != j || i2 >= i) ==> #[trigger] el(ludata@, gn, i2, c) == el(d0, gn, i2, c),
    forall|i2: int| 0 <= i2 < i ==> #[trigger] lu_raw(ludata@, gn, i2, j as int) == v(a.at(p0[i2] as int, j as int)),
@loop 1.0.0 for k
  invariant
    a.wf(), m == a.no_rows, n == a.c(), gm == m, gn == n, ludata@.len() == m * n, i < m, j < n, $it.snapshot@.end == imin(i as int, j as int),
    v(s) == lud(ludata@, gn, i as int, j as int, k as int),
@at L1.0.0.before
  let ghost d1 = ludata@;
@at L1.0.end
  proof {
    let jj = j as int;
    let x = e_sub(d1[i * gn + jj], s);
    el_update(d1, gm, gn, i as int, jj, x);
    assert(ludata@ == d1.update(i * gn + jj, x));
    assert forall|i2: int| 0 <= i2 < i + 1 implies #[trigger] lu_raw(ludata@, gn, i2, jj) == v(a.at(p0[i2] as int, jj)) by {
      lud_ext(d1, ludata@, gn, i2, i2, jj, imin(i2, jj));
      if i2 < i { assert(lu_raw(d1, gn, i2, jj) == v(a.at(p0[i2] as int, jj))); }
      else { assert(el(d1, gn, i as int, jj) == el(d0, gn, i as int, jj)); lu_rest(d0, p0, a, jj, i as int, jj); }
    }
  }
@loop 1.1 for i
  invariant
    m == a.no_rows, n == a.c(), ludata@.len() == m * n, j < n, j <= p, p < m || p == j, gm == m, gn == n, a.wf(),
    forall|k: int| j <= k < i && k < gm ==> #[trigger] rabs(el(ludata@, gn, k, j as int)) <= rabs(el(ludata@, gn, p as int, j as int)),
@at L1.1.start
  proof { assert(i < m); assert(p < m); }
@at L1.1.after
  let ghost d2 = ludata@;
  proof { lu_phase_a(d0, d2, p0, a, j as int); }
@loop 1.2 for k
  invariant
    m == a.no_rows, n == a.c(), ludata@.len() == m * n, j < n, j < p, p < m, gm == m, gn == n, a.wf(), d2.len() == m * n,
    forall|i2: int, c: int| 0 <= i2 < gm && 0 <= c < gn ==> #[trigger] el(ludata@, gn, i2, c) ==
      if c < k && i2 == p { el(d2, gn, j as int, c) } else if c < k && i2 == j { el(d2, gn, p as int, c) } else { el(d2, gn, i2, c) },
@at L1.2.start
  let ghost dk = ludata@;
@at L1.2.end
  proof {
    let x = dk[j * gn + k];
    el_update(dk, gm, gn, p as int, k as int, x);
    el_update(dk.update(p * gn + k, x), gm, gn, j as int, k as int, dk[p * gn + k]);
    assert(ludata@ == dk.update(p * gn + k, x).update(j * gn + k, dk[p * gn + k]));
    assert forall|i2: int, c: int| 0 <= i2 < gm && 0 <= c < gn implies #[trigger] el(ludata@, gn, i2, c) ==
        (if c == k && i2 == p { el(dk, gn, j as int, c) } else if c == k && i2 == j { el(dk, gn, p as int, c) } else { el(dk, gn, i2, c) }) by { }
    assert(el(dk, gn, p as int, k as int) == el(d2, gn, p as int, k as int));
    assert(el(dk, gn, j as int, k as int) == el(d2, gn, j as int, k as int));
  }
@at if1.thenend
  proof {
    perm_swap(ints(p0), !pospivsign, gm, p as int, j as int);
    assert(ints(pivdata@) =~= swp(ints(p0), p as int, j as int));
    assert forall|i: int| 0 <= i < gm implies #[trigger] pivdata@[i] == p0[sw(p as int, j as int, i)] by { }
    lu_phase_b(d2, ludata@, p0, pivdata@, a, j as int, p as int);
    assert forall|k: int| j <= k < gm implies #[trigger] rabs(el(ludata@, gn, k, j as int)) <= rabs(el(ludata@, gn, j as int, j as int)) by {
      assert(rabs(el(d2, gn, sw(p as int, j as int, k), j as int)) <= rabs(el(d2, gn, p as int, j as int)));
    }
  }
@at if1.after
  let ghost d4 = ludata@;
@loop 1.3 for i
  invariant
    m == a.no_rows, n == a.c(), ludata@.len() == m * n, j < n, j < m, gm == m, gn == n, a.wf(), d4.len() == m * n,
    el(d4, gn, j as int, j as int) != 0real,
    forall|i2: int, c: int| 0 <= i2 < gm && 0 <= c < gn ==> #[trigger] el(ludata@, gn, i2, c) ==
      if c == j && j < i2 < i { rdiv(el(d4, gn, i2, c), el(d4, gn, j as int, j as int)) } else { el(d4, gn, i2, c) },
@at L1.3.start
  let ghost dk = ludata@;
@at L1.3.end
  proof {
    let x = e_div(dk[i * gn + j], dk[j * gn + j]);
    assert(el(dk, gn, i as int, j as int) == el(d4, gn, i as int, j as int));
    assert(el(dk, gn, j as int, j as int) == el(d4, gn, j as int, j as int));
    el_update(dk, gm, gn, i as int, j as int, x);
    assert(ludata@ == dk.update(i * gn + j, x));
  }
@at L1.end
  proof { lu_phase_c(d4, ludata@, pivdata@, a, j as int); }
@at end
  proof { perm_is(ints(pivdata@), pospivsign, gm); }

@fn LUDecomposition::get_l
@props C13
@requires self.wf(),
@ensures
  r.shaped(self.m(), self.dim()),
  forall|i: int, k: int| 0 <= i < self.m() && 0 <= k < self.dim() ==> v(#[trigger] r.at(i, k)) == self.l(i, k),
@at let:n.after
  proof {
    assert(m * n <= self.lu.data@.len()) by (nonlinear_arith) requires m == self.m(), n <= self.n(), self.m() * self.n() == self.lu.data@.len();
  }
@loop 0 for i
  invariant
    self.wf(), m == self.m(), n == self.dim(), m * n <= isize::MAX, ldata@.len() == m * n,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] ldata@[i2 * n + k]) == self.l(i2, k),
@loop 0.0 for j
  invariant
    self.wf(), m == self.m(), n == self.dim(), m * n <= isize::MAX, ldata@.len() == m * n, i < m,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] ldata@[i2 * n + k]) == self.l(i2, k),
    forall|k: int| 0 <= k < j ==> v(#[trigger] ldata@[i * n + k]) == self.l(i as int, k),

@fn LUDecomposition::get_u
@props C13
@requires self.wf(),
@ensures
  r.shaped(self.dim(), self.n()),
  forall|k: int, j: int| 0 <= k < self.dim() && 0 <= j < self.n() ==> v(#[trigger] r.at(k, j)) == self.u(k, j),
@at let:n.after
  proof {
    assert(m * n <= self.lu.data@.len()) by (nonlinear_arith) requires m <= self.m(), n == self.n(), self.m() * self.n() == self.lu.data@.len();
  }
@loop 0 for i
  invariant
    self.wf(), m == self.dim(), n == self.n(), m * n <= isize::MAX, udata@.len() == m * n,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] udata@[i2 * n + k]) == self.u(i2, k),
@loop 0.0 for j
  invariant
    self.wf(), m == self.dim(), n == self.n(), m * n <= isize::MAX, udata@.len() == m * n, i < m,
    forall|i2: int, k: int| 0 <= i2 < i && 0 <= k < n ==> v(#[trigger] udata@[i2 * n + k]) == self.u(i2, k),
    forall|k: int| 0 <= k < j ==> v(#[trigger] udata@[i * n + k]) == self.u(i as int, k),

@fn LUDecomposition::get_p
@props C13
@requires self.wf(), self.m() * self.m() <= isize::MAX,
@ensures
  r.shaped(self.m(), self.m()),
  forall|i: int, j: int| 0 <= i < self.m() && 0 <= j < self.m() ==> v(#[trigger] r.at(i, j)) == if j == self.piv@[i] { 1real } else { 0real },
@at start
  proof {
    assert forall|k: int| 0 <= k < self.m() implies 0 <= #[trigger] self.piv@[k] < self.m() by { assert(0 <= ints(self.piv@)[k] < self.m()); }
    assert forall|k: int| 0 <= k < self.m() implies #[trigger] self.piv@[k] * self.m() <= usize::MAX by {
      assert(self.piv@[k] < self.m());
      assert(self.piv@[k] * self.m() <= self.m() * self.m()) by (nonlinear_arith) requires 0 <= self.piv@[k] < self.m();
    }
  }

@fn LUDecomposition::get_piv
@props C13
@requires self.wf(),
@ensures
  *r == self.piv,
  is_perm(ints(r@), self.m()),

@fn LUDecomposition::is_non_singular
@props C14
@requires self.wf(), self.m() >= self.n(),
@ensures
  r == self.full(),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && self.m() == self.n() ==> r == !singular(&a),
@at start
  proof { assert forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && self.m() == self.n() implies singular(&a) == !self.full() by { lu_singular(self, &a); } }
@loop 0 for j
  invariant
    self.wf(), self.m() >= self.n(), n == self.n(),
    forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && self.m() == self.n() ==> singular(&a) == !self.full(),
    forall|k: int| 0 <= k < j ==> #[trigger] self.at(k, k) != 0real,
@at L0.start
  proof { assert(j * n + n <= self.m() * n); assert(self.at(j as int, j as int) == v(self.lu.data@[j * n + j])); }

@fn LUDecomposition::is_singular
@props C14
@requires self.wf(), self.m() >= self.n(),
@ensures
  r == !self.full(),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && self.m() == self.n() ==> r == singular(&a),
@end
@verbatim
// ---------------------------------------------------------------- C14: solving with the factors
pub open spec fn lm(lu: &LUDecomposition<E>) -> Mt { |i: int, k: int| lu.l(i, k) }
pub open spec fn um(lu: &LUDecomposition<E>) -> Mt { |k: int, j: int| lu.u(k, j) }
pub open spec fn prow(b: &Matrix<E>, p: Seq<usize>) -> Mt { |i: int, c: int| v(b.at(p[i] as int, c)) }
// a*x = b
pub open spec fn solves(a: &Matrix<E>, x: &Matrix<E>, b: &Matrix<E>) -> bool {
  &&& x.shaped(a.c(), b.c())
  &&& forall|i: int, c: int| 0 <= i < a.no_rows && 0 <= c < b.c() ==> #[trigger] mp(fnof(a), fnof(x), a.c(), i, c) == v(b.at(i, c))
}
// singular: some non-zero vector is mapped to zero
pub open spec fn singular(a: &Matrix<E>) -> bool { dependent(fnof(a), a.no_rows as int, a.c()) }
// a row of a is a row of L*U
pub proof fn lu_row(lu: &LUDecomposition<E>, a: &Matrix<E>, r: int) -> (i: int)
  requires lu.of(a), a.wf(), 0 <= r < a.no_rows, a.no_rows == a.c(),
  ensures 0 <= i < a.no_rows, lu.piv@[i] == r, forall|c: int| 0 <= c < a.c() ==> #[trigger] fnof(a)(r, c) == mm(lm(lu), um(lu), a.c())(i, c),
{
  let i = perm_hit(ints(lu.piv@), lu.pospivsign, a.no_rows as int, r);
  assert(ints(lu.piv@)[i] == lu.piv@[i]);
  of_factors(lu, a);
  assert forall|c: int| 0 <= c < a.c() implies #[trigger] fnof(a)(r, c) == mm(lm(lu), um(lu), a.c())(i, c) by {
    assert(lu_prod(lu, i, c) == v(a.at(lu.piv@[i] as int, c)));
    let f = |k: int| lu.lk(i, k, c);
    let g = |k: int| lm(lu)(i, k) * um(lu)(k, c);
    assert forall|k: int| 0 <= k < a.c() implies #[trigger] f(k) == g(k) by { }
    sum_ext(f, g, 0, a.c());
  }
  i
}
pub proof fn lu_tri(lu: &LUDecomposition<E>, n: int)
  requires lu.m() == n, lu.n() == n,
  ensures lower(lm(lu), n), upper(um(lu), n, n), nzdiag(lm(lu), n), forall|i: int| 0 <= i < n ==> #[trigger] lm(lu)(i, i) == 1real, lu.full() ==> nzdiag(um(lu), n),
{
  if lu.full() { assert forall|i: int| 0 <= i < n implies #[trigger] um(lu)(i, i) != 0real by { assert(lu.at(i, i) != 0real); } }
}
pub proof fn lu_solution(lu: &LUDecomposition<E>, a: &Matrix<E>, x: &Matrix<E>, y: Mt, b: &Matrix<E>)
  requires
    lu.of(a), a.wf(), a.no_rows == a.c(), x.shaped(a.c(), b.c()), b.wf(), b.no_rows == a.no_rows,
    forall|i: int, c: int| 0 <= i < a.c() && 0 <= c < b.c() ==> #[trigger] mp(um(lu), fnof(x), a.c(), i, c) == y(i, c),
    forall|i: int, c: int| 0 <= i < a.c() && 0 <= c < b.c() ==> #[trigger] mp(lm(lu), y, a.c(), i, c) == prow(b, lu.piv@)(i, c),
  ensures solves(a, x, b),
{
  let n = a.c();
  assert forall|r: int, c: int| 0 <= r < a.no_rows && 0 <= c < b.c() implies #[trigger] mp(fnof(a), fnof(x), n, r, c) == v(b.at(r, c)) by {
    let i = lu_row(lu, a, r);
    mp_ext(fnof(a), mm(lm(lu), um(lu), n), fnof(x), fnof(x), n, r, i, c, c);
    mp_assoc(lm(lu), um(lu), fnof(x), n, n, i, c);
    assert forall|k: int| 0 <= k < n implies #[trigger] mm(um(lu), fnof(x), n)(k, c) == y(k, c) by { assert(mp(um(lu), fnof(x), n, k, c) == y(k, c)); }
    mp_ext(lm(lu), lm(lu), mm(um(lu), fnof(x), n), y, n, i, i, c, c);
    assert(mp(lm(lu), y, n, i, c) == prow(b, lu.piv@)(i, c));
  }
}
// a zero pivot: some non-zero vector is mapped to zero, and the other way round
pub proof fn lu_singular(lu: &LUDecomposition<E>, a: &Matrix<E>)
  requires lu.of(a), a.wf(), a.no_rows == a.c(),
  ensures singular(a) == !lu.full(),
{
  let n = a.c();
  lu_tri(lu, n);
  if !lu.full() {
    let j0 = choose|j: int| 0 <= j < n && #[trigger] lu.at(j, j) == 0real;
    assert(um(lu)(j0, j0) == 0real);
    let j = first_zero(um(lu), j0);
    upper_dep(um(lu), n, n, j);
    let x = nv(um(lu), n, j, 0);
    assert(nullv(fnof(a), n, n, x)) by {
      assert forall|r: int| 0 <= r < n implies #[trigger] mp(fnof(a), col(x), n, r, 0) == 0real by {
        let i = lu_row(lu, a, r);
        mp_ext(fnof(a), mm(lm(lu), um(lu), n), col(x), col(x), n, r, i, 0, 0);
        mp_assoc(lm(lu), um(lu), col(x), n, n, i, 0);
        assert forall|k: int| 0 <= k < n implies #[trigger] mm(um(lu), col(x), n)(k, 0) == 0real by { assert(mp(um(lu), col(x), n, k, 0) == 0real); }
        mp_zero(lm(lu), mm(um(lu), col(x), n), n, i, 0);
      }
    }
    assert(singular(a));
  } else if singular(a) {
    let x = choose|x: Seq<real>| #[trigger] nullv(fnof(a), n, n, x) && nonzero(x);
    lu_inj(lu, a, col(x), 0);
    let i = choose|i: int| 0 <= i < x.len() && #[trigger] x[i] != 0real;
    assert(col(x)(i, 0) == 0real);
    assert(false);
  }
}
pub proof fn lu_inj(lu: &LUDecomposition<E>, a: &Matrix<E>, x: Mt, c: int)
  requires lu.of(a), a.wf(), a.no_rows == a.c(), lu.full(), forall|r: int| 0 <= r < a.c() ==> #[trigger] mp(fnof(a), x, a.c(), r, c) == 0real,
  ensures forall|i: int| 0 <= i < a.c() ==> #[trigger] x(i, c) == 0real,
{
  let n = a.c();
  lu_tri(lu, n);
  let ux = mm(um(lu), x, n);
  assert forall|i: int| 0 <= i < n implies #[trigger] mp(lm(lu), ux, n, i, c) == 0real by {
    let r = lu.piv@[i] as int;
    assert(0 <= ints(lu.piv@)[i] < n);
    of_factors(lu, a);
    mp_assoc(lm(lu), um(lu), x, n, n, i, c);
    assert forall|k: int| 0 <= k < n implies #[trigger] fnof(a)(r, k) == mm(lm(lu), um(lu), n)(i, k) by {
      assert(lu_prod(lu, i, k) == v(a.at(lu.piv@[i] as int, k)));
      let f = |t: int| lu.lk(i, t, k);
      let g = |t: int| lm(lu)(i, t) * um(lu)(t, k);
      assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(t) by { }
      sum_ext(f, g, 0, n);
    }
    mp_ext(fnof(a), mm(lm(lu), um(lu), n), x, x, n, r, i, c, c);
    assert(mp(fnof(a), x, n, r, c) == 0real);
  }
  assert forall|i: int| 0 <= i < n implies #[trigger] mp(um(lu), x, n, i, c) == 0real by {
    lower_inj(lm(lu), ux, n, c, i);
    assert(ux(i, c) == 0real);
  }
  assert forall|i: int| 0 <= i < n implies #[trigger] x(i, c) == 0real by { upper_inj(um(lu), x, n, c, i); }
}
@endverbatim
@fn LUDecomposition::solve
@props C14
@pre self.m() == self.n() && b.no_rows == self.m()
@requires self.wf(), b.wf(),
@ensures
  r is Some <==> self.full(),
  r is Some ==> r->0.shaped(self.n(), b.c()),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && r is Some ==> solves(&a, &r->0, b),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() ==> singular(&a) == (r is None),
@at start
  proof { assert forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && self.m() == self.n() implies singular(&a) == !self.full() by { lu_singular(self, &a); } }
@at let:nx.after
  let ghost gx = nx as int;
  let ghost gn = n as int;
  proof { assert(m * nx == b.data@.len()); }
@loop 0 for i
  invariant
    self.wf(), b.wf(), b.no_rows == self.m(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, nx == b.c(), $it.snapshot@.end == n,
    xdata@.len() == m * nx, dest_idx == i * nx, m * nx <= isize::MAX,
    forall|i2: int, c: int| 0 <= i2 < i && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == v(b.at(self.piv@[i2] as int, c)),
@at L0.start
  proof { assert(0 <= ints(self.piv@)[i as int] < self.m()); assert(self.piv@[i as int] < m); }
@loop 0.0 for j
  invariant
    self.wf(), b.wf(), b.no_rows == self.m(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, nx == b.c(), i < n, self.piv@[i as int] < m,
    xdata@.len() == m * nx, dest_idx == i * nx + j, m * nx <= isize::MAX, 
    forall|i2: int, c: int| 0 <= i2 < i && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == v(b.at(self.piv@[i2] as int, c)),
    forall|c: int| 0 <= c < j ==> #[trigger] el(xdata@, gx, i as int, c) == v(b.at(self.piv@[i as int] as int, c)),
@at L0.0.start
  let ghost dk = xdata@;
@at L0.0.end
  proof { el_update(dk, gn, gx, i as int, j as int, b.at(self.piv@[i as int] as int, j as int)); }
@at L0.end
  proof { assert((i + 1) * nx == i * nx + nx) by (nonlinear_arith); }
@at L0.after
  let ghost l = lm(self);
  let ghost u = um(self);
  let ghost y0 = prow(b, self.piv@);
  proof { lu_tri(self, gn); fwd_start(l, xdata@, y0, gn, gx); }
@loop 1 for k
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, l == lm(self), xdata@.len() == m * nx, m * nx <= isize::MAX,
    fwd(l, xdata@, y0, gn, gx, k as int),
@at L1.start
  let ghost xk = xdata@;
@loop 1.0 for i
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, l == lm(self), xdata@.len() == m * nx, xk.len() == m * nx, m * nx <= isize::MAX, k < n,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if k < i2 < i { el(xk, gx, i2, c) - el(xk, gx, k as int, c) * l(i2, k as int) } else { el(xk, gx, i2, c) },
@loop 1.0.0 for j
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, l == lm(self), xdata@.len() == m * nx, xk.len() == m * nx, m * nx <= isize::MAX, k < i, i < n,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if k < i2 < i || (i2 == i && c < j) { el(xk, gx, i2, c) - el(xk, gx, k as int, c) * l(i2, k as int) } else { el(xk, gx, i2, c) },
@at L1.0.0.start
  let ghost dk = xdata@;
@at L1.0.0.end
  proof {
    let x = e_sub(dk[i * gx + j], e_mul(dk[k * gx + j], self.lu.data@[i * gn + k]));
    el_update(dk, gn, gx, i as int, j as int, x);
    assert(xdata@ == dk.update(i * gx + j, x));
    assert(el(dk, gx, i as int, j as int) == el(xk, gx, i as int, j as int));
    assert(el(dk, gx, k as int, j as int) == el(xk, gx, k as int, j as int));
    assert(l(i as int, k as int) == v(self.lu.data@[i * gn + k]));
  }
@at L1.end
  proof { fwd_step(l, xk, xdata@, y0, gn, gx, k as int); }
@at L1.after
  let ghost y = elm(xdata@, gx);
  proof { fwd_done(l, xdata@, y0, gn, gx); bwd_start(u, xdata@, y, gn, gx); }
@loop 2 for k
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, u == um(self), nzdiag(u, gn), xdata@.len() == m * nx, m * nx <= isize::MAX,
    bwd(u, xdata@, y, gn, gx, $i), $lo == 0, $hi == n,
@at L2.start
  let ghost xk = xdata@;
@loop 2.0 for j
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, u == um(self), nzdiag(u, gn), xdata@.len() == m * nx, xk.len() == m * nx, m * nx <= isize::MAX, k < n,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if i2 == k && c < j { el(xk, gx, i2, c) / u(k as int, k as int) } else { el(xk, gx, i2, c) },
@at L2.0.start
  let ghost dk = xdata@;
@at L2.0.end
  proof {
    let x = e_div(dk[k * gx + j], self.lu.data@[k * gn + k]);
    el_update(dk, gn, gx, k as int, j as int, x);
    assert(xdata@ == dk.update(k * gx + j, x));
    assert(el(dk, gx, k as int, j as int) == el(xk, gx, k as int, j as int));
    assert(u(k as int, k as int) == v(self.lu.data@[k * gn + k]));
  }
@at L2.0.after
  let ghost xd = xdata@;
@loop 2.1 for i
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, u == um(self), nzdiag(u, gn), xdata@.len() == m * nx, xd.len() == m * nx, m * nx <= isize::MAX, k < n,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if i2 < i && i2 < k { el(xd, gx, i2, c) - el(xd, gx, k as int, c) * u(i2, k as int) } else { el(xd, gx, i2, c) },
@loop 2.1.0 for j
  invariant
    self.wf(), self.m() == self.n(), m == self.m(), n == m, gx == nx, gn == n, u == um(self), nzdiag(u, gn), xdata@.len() == m * nx, xd.len() == m * nx, m * nx <= isize::MAX, k < n, i < k,
    forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx ==> #[trigger] el(xdata@, gx, i2, c) == if i2 < i || (i2 == i && c < j) { el(xd, gx, i2, c) - el(xd, gx, k as int, c) * u(i2, k as int) } else { el(xd, gx, i2, c) },
@at L2.1.0.start
  let ghost dk = xdata@;
@at L2.1.0.end
  proof {
    let x = e_sub(dk[i * gx + j], e_mul(dk[k * gx + j], self.lu.data@[i * gn + k]));
    el_update(dk, gn, gx, i as int, j as int, x);
    assert(xdata@ == dk.update(i * gx + j, x));
    assert(el(dk, gx, i as int, j as int) == el(xd, gx, i as int, j as int));
    assert(el(dk, gx, k as int, j as int) == el(xd, gx, k as int, j as int));
    assert(u(i as int, k as int) == v(self.lu.data@[i * gn + k]));
  }
@at L2.end
  proof {
    assert(u(k as int, k as int) != 0real);
    assert forall|i2: int, c: int| 0 <= i2 < gn && 0 <= c < gx implies #[trigger] el(xdata@, gx, i2, c) ==
      (if i2 < k { el(xk, gx, i2, c) - (el(xk, gx, k as int, c) / u(k as int, k as int)) * u(i2, k as int) } else if i2 == k { el(xk, gx, i2, c) / u(k as int, k as int) } else { el(xk, gx, i2, c) }) by {
      assert(el(xd, gx, k as int, c) == el(xk, gx, k as int, c) / u(k as int, k as int));
      assert(el(xd, gx, i2, c) == if i2 == k { el(xk, gx, i2, c) / u(k as int, k as int) } else { el(xk, gx, i2, c) });
    }
    bwd_step(u, xk, xdata@, y, gn, gx, k as int);
  }
@at end
  proof {
    bwd_done(u, xdata@, y, gn, gx);
    assert forall|a: Matrix<E>, x: Matrix<E>| #![trigger self.of(&a), x.wf()] self.of(&a) && a.wf() && x.shaped(self.n(), b.c()) && x.data@ == xdata@ implies solves(&a, &x, b) by {
      assert forall|i: int, c: int| 0 <= i < a.c() && 0 <= c < b.c() implies #[trigger] mp(u, fnof(&x), gn, i, c) == y(i, c) by {
        assert(mp(u, elm(xdata@, gx), gn, i, c) == y(i, c));
        mp_ext(u, u, fnof(&x), elm(xdata@, gx), gn, i, i, c, c);
      }
      assert forall|i: int, c: int| 0 <= i < a.c() && 0 <= c < b.c() implies #[trigger] mp(l, y, gn, i, c) == y0(i, c) by { }
      lu_solution(self, &a, &x, y, b);
    }
  }
@verbatim
// ---------------------------------------------------------------- C15: the determinant from the factors
pub proof fn lu_det(lu: &LUDecomposition<E>, a: &Matrix<E>, d: spec_fn(Mt) -> real)
  requires lu.of(a), a.wf(), a.no_rows == a.c(), is_det(d, a.c()),
  ensures d(fnof(a)) == sgn(lu.pospivsign) * prodd(um(lu), 0, a.c()),
{
  let n = a.c();
  let p = ints(lu.piv@);
  let h = choose|h: Seq<(int, int)>| swaps_ok(n, h) && p == #[trigger] after_swaps(n, h) && lu.pospivsign == (h.len() % 2 == 0);
  det_perm(d, n, fnof(a), h);
  lu_tri(lu, n);
  of_factors(lu, a);
  let pa = rows_by(fnof(a), p);
  let m0 = u_upto(lm(lu), um(lu), n, 0);
  assert(meq(pa, m0, n, n)) by {
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] pa(i, j) == m0(i, j) by {
      assert(lu_prod(lu, i, j) == v(a.at(lu.piv@[i] as int, j)));
      assert(p[i] == lu.piv@[i]);
      let f = |k: int| lu.lk(i, k, j);
      let g = |k: int| lm(lu)(i, k) * um(lu)(k, j);
      assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { }
      sum_ext(f, g, 0, n);
    }
  }
  det_ext(d, n, pa, m0);
  det_lu(d, n, lm(lu), um(lu), 0);
  let (x, s) = (d(fnof(a)), sgn(lu.pospivsign));
  assert(s * (s * x) == x) by (nonlinear_arith) requires s == 1real || s == -1real;
}
@endverbatim
@fn LUDecomposition::det
@props C15
@pre self.m() == self.n()
@requires self.wf(),
@ensures
  (v(r) == 0real) == !self.full(),
  forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() ==> (v(r) == 0real) == singular(&a),
  forall|a: Matrix<E>, d: spec_fn(Mt) -> real| #![trigger self.of(&a), is_det(d, self.n())] self.of(&a) && a.wf() && is_det(d, self.n()) ==> v(r) == d(fnof(&a)),
@at start
  proof { assert forall|a: Matrix<E>| #![trigger self.of(&a)] self.of(&a) && a.wf() && self.m() == self.n() implies singular(&a) == !self.full() by { lu_singular(self, &a); } }
@loop 0 for j
  invariant
    self.wf(), self.m() == self.n(), n == self.n(),
    v(d) == sgn(self.pospivsign) * prodd(um(self), 0, j as int),
@at L0.start
  let ghost d0 = d;
  proof { assert(j * n + n <= self.m() * n); }
@at L0.end
  proof {
    assert(v(self.lu.data@[j * n + j]) == um(self)(j as int, j as int));
    let (x, y, z) = (sgn(self.pospivsign), prodd(um(self), 0, j as int), um(self)(j as int, j as int));
    assert((x * y) * z == x * (y * z)) by (nonlinear_arith);
  }
@at end
  proof {
    let u = um(self);
    let g = prodd(u, 0, n as int);
    prodd_zero(u, 0, n as int);
    assert(sgn(self.pospivsign) * g == 0real <==> g == 0real) by (nonlinear_arith) requires sgn(self.pospivsign) == 1real || sgn(self.pospivsign) == -1real;
    assert((exists|k: int| 0 <= k < n && #[trigger] u(k, k) == 0real) == !self.full()) by {
      if !self.full() { let k = choose|k: int| 0 <= k < n && #[trigger] self.at(k, k) == 0real; assert(u(k, k) == 0real); }
      if exists|k: int| 0 <= k < n && #[trigger] u(k, k) == 0real { let k = choose|k: int| 0 <= k < n && #[trigger] u(k, k) == 0real; assert(self.at(k, k) == 0real); }
    }
    assert forall|a: Matrix<E>, d2: spec_fn(Mt) -> real| #![trigger self.of(&a), is_det(d2, self.n())] self.of(&a) && a.wf() && is_det(d2, self.n()) implies v(d) == d2(fnof(&a)) by { lu_det(self, &a, d2); }
  }
