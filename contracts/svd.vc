@file decomp/svd.rs
@struct SVD
@verbatim
impl SVD<E> {
  pub open spec fn m(&self) -> int { self.u.no_rows as int }
  pub open spec fn n(&self) -> int { self.v.no_rows as int }
  pub open spec fn wf(&self) -> bool { self.u.shaped(self.m(), self.m()) && self.v.shaped(self.n(), self.n()) && self.s.shaped(self.m(), self.n()) }
  pub open spec fn dim(&self) -> int { imin(self.m(), self.n()) }
  // max(m, n) * s(0, 0) * epsilon
  pub open spec fn tol(&self) -> real { (imax(self.m(), self.n()) as real * v(self.s.at(0, 0))) * r_epsilon() }
}
pub open spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }
// how many of the first k diagonal elements exceed t
pub open spec fn above(s: &Matrix<E>, t: real, k: int) -> int
  decreases k
{ if k <= 0 { 0 } else { above(s, t, k - 1) + if v(s.at(k - 1, k - 1)) > t { 1int } else { 0 } } }
@endverbatim
@fn SVD::get_u
@props C22
@ensures *r == self.u,
@fn SVD::get_s
@props C22
@ensures *r == self.s,
@fn SVD::get_v
@props C22
@ensures *r == self.v,
@fn SVD::rank
@props C24
@requires self.wf(),
@ensures
  r == above(&self.s, self.tol(), self.dim()),
@loop 0 for i
  invariant
    self.wf(), v(tol) == self.tol(), 0 <= r <= i, r == above(&self.s, self.tol(), i as int),
@verbatim
impl SVD<E> {
  pub open spec fn of(&self, a: &Matrix<E>) -> bool {
    self.wf() && self.m() == a.no_rows && self.n() == a.c() && svd_ok(fnof(a), fnof(&self.u), fnof(&self.s), fnof(&self.v), self.m(), self.n())
  }
}
// orthogonal, diagonal (non-negative, non-increasing), and the product is a up to what dropping negligible elements costs
pub open spec fn svd_ok(a: Mt, u: Mt, s: Mt, w: Mt, m: int, n: int) -> bool {
  orth(u, m) && orth(w, n) && sing(s, m, n) && near(a, ubv(u, s, w, m, n), m, n, slack(a, m, n))
}
pub open spec fn sing(s: Mt, m: int, n: int) -> bool {
  &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < n && i != j ==> #[trigger] s(i, j) == 0real
  &&& forall|i: int| 0 <= i < imin(m, n) ==> #[trigger] s(i, i) >= 0real
  &&& forall|i: int, j: int| #![trigger s(i, i), s(j, j)] 0 <= i <= j < imin(m, n) ==> s(i, i) >= s(j, j)
}
pub proof fn svd_wide(a: &Matrix<E>, b: &Matrix<E>, p: &SVD<E>, r: &SVD<E>)
  requires
    a.wf(), p.of(b), b.shaped(a.c(), a.no_rows as int), forall|i: int, j: int| 0 <= i < a.c() && 0 <= j < a.no_rows ==> #[trigger] b.at(i, j) == a.at(j, i),
    r.u.no_rows == p.v.no_rows, r.u.data@ == p.v.data@, r.v.no_rows == p.u.no_rows, r.v.data@ == p.u.data@,
    r.s.shaped(p.s.c(), p.s.no_rows as int), forall|i: int, j: int| 0 <= i < p.s.c() && 0 <= j < p.s.no_rows ==> #[trigger] r.s.at(i, j) == p.s.at(j, i),
  ensures r.of(a),
{
  let (m, n) = (a.no_rows as int, a.c());
  let (fa, fb) = (fnof(a), fnof(b));
  let (u, s, w) = (fnof(&p.u), fnof(&p.s), fnof(&p.v));
  let (u2, s2, w2) = (fnof(&r.u), fnof(&r.s), fnof(&r.v));
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] u2(i, j) == w(i, j) by { }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] w2(i, j) == u(i, j) by { }
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] s2(i, j) == tr(s)(i, j) by { }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] fb(i, j) == tr(fa)(i, j) by { assert(b.at(i, j) == a.at(j, i)); }
  orth_ext(w, u2, m);
  orth_ext(u, w2, n);
  fro_tr(fa, m, n);
  fro_ext(fb, tr(fa), n, m);
  assert(slack(fa, m, n) == slack(fb, n, m));
  ubv_ext(u2, s2, w2, w, tr(s), u, m, n);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] fa(i, j) - ubv(u2, s2, w2, m, n)(i, j)) <= slack(fa, m, n) by {
    ubv_tr(u, s, w, n, m, j, i);
    assert(rabs(fb(j, i) - ubv(u, s, w, n, m)(j, i)) <= slack(fb, n, m));
    assert(fb(j, i) == tr(fa)(j, i));
    assert(ubv(u2, s2, w2, m, n)(i, j) == ubv(w, tr(s), u, m, n)(i, j));
  }
  assert forall|i: int| 0 <= i < imin(m, n) implies #[trigger] s2(i, i) >= 0real by { assert(s(i, i) >= 0real); }
  assert forall|i: int, j: int| #![trigger s2(i, i), s2(j, j)] 0 <= i <= j < imin(m, n) implies s2(i, i) >= s2(j, j) by { assert(s(i, i) >= s(j, j)); }
}
@endverbatim

@verbatim
impl Clone for Matrix<E> {
  fn clone(&self) -> (r: Matrix<E>)
    ensures r.no_rows == self.no_rows, r.data@ == self.data@,
  {
    let d = self.data.clone();
    proof { assert(d@ =~= self.data@); }
    Matrix { no_rows: self.no_rows, data: d }
  }
}
@endverbatim
@fn SVD::new
@props C22,C23
@attr #[verifier::exec_allows_no_decreases_clause]
@requires a.wf(), a.no_rows * a.no_rows <= isize::MAX, a.c() * a.c() <= isize::MAX,
@ensures
  r.of(a),
@at ret#0
  proof {
    assert forall|b: Matrix<E>, r: SVD<E>| #![trigger svd.of(&b), r.of(a)]
      svd.of(&b) && b.shaped(a.c(), a.no_rows as int) && (forall|i: int, j: int| 0 <= i < a.c() && 0 <= j < a.no_rows ==> #[trigger] b.at(i, j) == a.at(j, i))
      && r.u.no_rows == svd.v.no_rows && r.u.data@ == svd.v.data@ && r.v.no_rows == svd.u.no_rows && r.v.data@ == svd.u.data@
      && r.s.shaped(svd.s.c(), svd.s.no_rows as int) && (forall|i: int, j: int| 0 <= i < svd.s.c() && 0 <= j < svd.s.no_rows ==> #[trigger] r.s.at(i, j) == svd.s.at(j, i))
      implies r.of(a) by { svd_wide(a, &b, &svd, &r); }
  }
@at L0.before
  let ghost gm = m as int;
  let ghost gn = n as int;
  let ghost gc = nct as int;
  let ghost gr = nrt as int;
  let ghost fa = fnof(a);
  let ghost f2 = fro2(fa, gm, gn);
  let ghost mut ls = Seq::<Rf>::empty();
  let ghost mut rs = Seq::<Rf>::empty();
  proof {
    eps_pos();
    let x = mk(adata@, sdata@, edata@, gn, gr, 0, 0);
    assert forall|i: int, j: int| 0 <= i < gm && 0 <= j < gn implies #[trigger] fa(i, j) == x(i, j) by { }
    ph_start(fa, gm, gn, x);
    let t = tiny0();
    assert(0real * t == 0real) by (nonlinear_arith);
    assert(par(gm, gn, gc, gr));
    stored_none(udata@, sdata@, gm, 0);
    stored_none(vdata@, edata@, gn, 1);
  }
@loop 0 for k
  invariant
    gm == m, gn == n, gc == nct, gr == nrt, par(gm, gn, gc, gr), fa == fnof(a), f2 == fro2(fa, gm, gn), v(tiny) == tiny0(), $it.snapshot@.end == gc,
    sized(adata@, sdata@, edata@, workdata@, udata@, vdata@, gm, gn),
    ph(fa, ls, rs, gm, gn, k as int, mk(adata@, sdata@, edata@, gn, gr, k as int, k as int), (k + k) as real * tiny0(), f2),
    ls.len() == k, rs.len() == k, tails(ls, 0), tails(rs, 1),
    stored(ls, udata@, sdata@, gm, 0, k as int), stored(rs, vdata@, edata@, gn, 1, imin(k as int, gr)),
    forall|q: int| gr <= q < k ==> (#[trigger] rs[q]).t == 0real,
@at L0.start
  let ghost gk = k as int;
  let ghost ad0 = adata@;
  let ghost sd0 = sdata@;
  let ghost ed0 = edata@;
  let ghost ud0 = udata@;
  let ghost vd0 = vdata@;
  let ghost t0 = tiny0();
  let ghost x0 = mk(ad0, sd0, ed0, gn, gr, gk, gk);
  let ghost mut nrm = 0real;
  let ghost mut sg = 0real;
  proof { tiny_nonneg(); }
@loop 0.0 for i
  invariant
    gm == m, gn == n, gk == k, 0 <= gk < gm, gk < gn, dims(gm, gn), adata@ == ad0, ad0.len() == gm * gn, sd0.len() == gn,
    sdata@ == sd0.update(gk, sdata@[gk]), v(sdata@[gk]) >= 0real, v(sdata@[gk]) * v(sdata@[gk]) == colsq(ad0, gn, gk, gk, i as int),
@at L0.0.end
  proof {
    assert(sdata@ =~= sd0.update(gk, sdata@[gk]));
    assert(colsq(ad0, gn, gk, gk, i + 1) == colsq(ad0, gn, gk, gk, i as int) + el(ad0, gn, i as int, gk) * el(ad0, gn, i as int, gk));
  }
@at L0.0.before
  proof { assert(sdata@ =~= sd0.update(gk, sdata@[gk])); assert(0real * 0real == 0real) by (nonlinear_arith); }
@at L0.0.after
  proof { nrm = v(sdata@[gk]); }
@at if3.before
  proof { assert(sdata@ =~= sd0.update(gk, sdata@[gk])); }
@at L0.1.before
  proof {
    sg = v(sdata@[gk]);
    sign_ok(nrm, el(ad0, gn, gk, gk), t0);
    assert(sdata@ =~= sd0.update(gk, sdata@[gk]));
  }
@loop 0.1 for i
  invariant
    gm == m, gn == n, gk == k, 0 <= gk < gm, gk < gn, dims(gm, gn), ad0.len() == gm * gn, adata@.len() == gm * gn, sdata@.len() == gn,
    scaled(ad0, adata@, gn, gm, gk, sg, i as int), v(sdata@[gk]) == sg, sg != 0real,
@at L0.1.start
  let ghost dk = adata@;
@at L0.1.end
  proof { scaled_step(ad0, dk, gn, gm, gk, sg, i as int, e_div(dk[i * gn + gk], sdata@[gk])); }
@at L0.1.after
  let ghost ads = adata@;
@at if3.thenend
  proof { housed_done(ad0, ads, gn, gm, gk, sg, e_add(ads[gk * gn + gk], e_one())); }
@at if1.thenend
  proof { assert(sdata@ =~= sd0.update(gk, er(-sg))); }
@at if1.after
  let ghost ad1 = adata@;
  let ghost sd1 = sdata@;
  let ghost f = lrf(ad1, gn, gm, gk, sg);
  let ghost x1 = lcut(x0, gk, sg);
  proof {
    assert(sd1 == sd0.update(gk, er(-sg)));
    assert(col_pre(ad0, ad1, gm, gn, gk, nrm, sg, t0));
    left_start(ad0, ad1, sd0, ed0, gm, gn, gr, gk, nrm, sg, t0);
  }
@loop 0.2 for j
  invariant
    gm == m, gn == n, gk == k, gc == nct, gr == nrt, par(gm, gn, gc, gr), 0 <= gk < gc, sized(adata@, sdata@, edata@, workdata@, udata@, vdata@, gm, gn),
    sdata@ == sd1, ad1.len() == gm * gn, v(sd1[gk]) == -sg, sg != 0real ==> el(ad1, gn, gk, gk) != 0real, f == lrf(ad1, gn, gm, gk, sg),
    forall|t: int, c: int| gk <= t < gm && gk < c < gn ==> #[trigger] x1(t, c) == el(ad1, gn, t, c),
    lapplied(ad1, adata@, x1, f, gm, gn, gk, j as int),
    forall|c: int| gk < c < j ==> v(#[trigger] edata@[c]) == refl(f.h, f.t, gm, colof(x1, c))(gk),
    forall|q: int| 0 <= q <= gk ==> #[trigger] edata@[q] == ed0[q],
@at L0.2.start
  let ghost dc = adata@;
  let ghost gj = j as int;
  let ghost mut tt = 0real;
@loop 0.2.0 for i
  invariant
    gm == m, gn == n, gk == k, gj == j, 0 <= gk < gm, gk < gj < gn, dims(gm, gn), adata@ == dc, dc.len() == gm * gn,
    v(t) == coldot(dc, gn, gk, gj, gk, i as int),
@at L0.2.0.end
  proof { assert(coldot(dc, gn, gk, gj, gk, i + 1) == coldot(dc, gn, gk, gj, gk, i as int) + el(dc, gn, i as int, gk) * el(dc, gn, i as int, gj)); }
@at L0.2.1.before
  proof {
    tt = v(t);
    assert(el(dc, gn, gk, gk) == el(ad1, gn, gk, gk));
    neg_div(coldot(dc, gn, gk, gj, gk, gm), el(dc, gn, gk, gk));
  }
@loop 0.2.1 for i
  invariant
    gm == m, gn == n, gk == k, gj == j, 0 <= gk < gm, gk < gj < gn, dims(gm, gn), adata@.len() == gm * gn, dc.len() == gm * gn,
    axpyd(dc, adata@, gn, gm, gk, i as int, gk, gj, tt), v(t) == tt,
@at L0.2.1.start
  let ghost dr = adata@;
@at L0.2.1.end
  proof { axpyd_step(dc, dr, gn, gm, gk, i as int, gk, gj, tt, e_add(dr[i * gn + gj], e_mul(t, dr[i * gn + gk]))); }
@at if5.after
  proof { lapply_step(ad1, dc, adata@, x1, f, gm, gn, gk, gj, sg, tt); }
@at L0.2.end
  proof { assert(el(adata@, gn, gk, gj) == refl(f.h, f.t, gm, colof(x1, gj))(gk)); }
@at L0.2.after
  let ghost ad2 = adata@;
  let ghost ed2 = edata@;
  let ghost x2 = mk(ad2, sd1, ed2, gn, gr, gk, gk + 1);
  proof { left_done(ad0, ad1, ad2, sd0, sd1, ed0, ed2, gm, gn, gr, gk, nrm, sg, t0); }
@loop 0.3 for i
  invariant
    gm == m, gn == n, gk == k, 0 <= gk < gm, gk < gn, dims(gm, gn), adata@ == ad2, ad2.len() == gm * gn, udata@.len() == gm * gm, ud0.len() == gm * gm,
    forall|t: int| gk <= t < gm ==> #[trigger] el(ad2, gn, t, gk) == (f.h)(t),
    filled(ud0, udata@, gm, gk, i as int, gk, f.h),
@at L0.3.start
  let ghost dk = udata@;
@at L0.3.end
  proof { assert(el(ad2, gn, i as int, gk) == (f.h)(i as int)); filled_step(ud0, dk, gm, gk, i as int, gk, f.h, ad2[i * gn + gk]); }
@at if7.before
  let ghost ud1 = udata@;
  let ghost mut g = Rf { h: zerov(), t: 0real };
  let ghost mut x3 = x2;
  let ghost mut nrm2 = 0real;
  let ghost mut sg2 = 0real;
  proof { left_stored(ls, f, ud0, ud1, ad1, sd0, sd1, gm, gn, gk, sg); }
@at L0.4.before
  proof { assert(edata@ =~= ed2.update(gk, edata@[gk])); assert(0real * 0real == 0real) by (nonlinear_arith); }
@loop 0.4 for i
  invariant
    gm == m, gn == n, gk == k, 0 <= gk, gk + 1 < gn, ed2.len() == gn,
    edata@ == ed2.update(gk, edata@[gk]), v(edata@[gk]) >= 0real, v(edata@[gk]) * v(edata@[gk]) == vecsq(ed2, gk + 1, i as int),
@at L0.4.end
  proof {
    assert(edata@ =~= ed2.update(gk, edata@[gk]));
    assert(vecsq(ed2, gk + 1, i + 1) == vecsq(ed2, gk + 1, i as int) + v(ed2[i as int]) * v(ed2[i as int]));
  }
@at L0.4.after
  proof { nrm2 = v(edata@[gk]); }
@at if9.before
  proof { assert(edata@ =~= ed2.update(gk, edata@[gk])); }
@at L0.5.before
  proof {
    sg2 = v(edata@[gk]);
    sign_ok(nrm2, v(ed2[gk + 1]), t0);
    assert(edata@ =~= ed2.update(gk, edata@[gk]));
  }
@loop 0.5 for i
  invariant
    gm == m, gn == n, gk == k, 0 <= gk, gk + 1 < gn, ed2.len() == gn, edata@.len() == gn, v(edata@[gk]) == sg2, sg2 != 0real,
    forall|c: int| gk < c < gn ==> v(#[trigger] edata@[c]) == if c < i { v(ed2[c]) / sg2 } else { v(ed2[c]) },
    forall|q: int| 0 <= q < gk ==> #[trigger] edata@[q] == ed2[q],
@at if11.before
  let ghost ed3 = edata@;
  proof {
    g = rrf(ed3, gn, gk, sg2);
    x3 = rcut(x2, gk, sg2);
    assert(row_pre(ad2, ed2, ed3, gm, gn, gk, nrm2, sg2, t0));
    right_start(ad2, ed2, ed3, sd1, gm, gn, gr, gk, nrm2, sg2, t0);
  }
@loop 0.6 for i
  invariant
    gm == m, gk == k, 0 <= gk, workdata@.len() == gm, forall|t: int| gk < t < i ==> v(#[trigger] workdata@[t]) == 0real,
@loop 0.7 for j
  invariant
    gm == m, gn == n, gk == k, 0 <= gk, gk + 1 < gn, dims(gm, gn), adata@ == ad2, ad2.len() == gm * gn, edata@ == ed3, ed3.len() == gn, workdata@.len() == gm,
    forall|t: int| gk < t < gm ==> v(#[trigger] workdata@[t]) == rowdote(ed3, ad2, gn, t, gk + 1, j as int),
@loop 0.7.0 for i
  invariant
    gm == m, gn == n, gk == k, 0 <= gk < j, gk + 1 < gn, j < gn, dims(gm, gn), adata@ == ad2, ad2.len() == gm * gn, edata@ == ed3, ed3.len() == gn, workdata@.len() == gm,
    forall|t: int| gk < t < gm ==> v(#[trigger] workdata@[t]) == rowdote(ed3, ad2, gn, t, gk + 1, if t < i { j + 1 } else { j as int }),
@at L0.7.0.end
  proof { assert(rowdote(ed3, ad2, gn, i as int, gk + 1, j + 1) == rowdote(ed3, ad2, gn, i as int, gk + 1, j as int) + v(ed3[j as int]) * el(ad2, gn, i as int, j as int)); }
@loop 0.8 for j
  invariant
    gm == m, gn == n, gk == k, 0 <= gk, gk + 1 < gn, dims(gm, gn), adata@.len() == gm * gn, ad2.len() == gm * gn, edata@ == ed3, ed3.len() == gn, workdata@.len() == gm,
    forall|t: int| gk < t < gm ==> v(#[trigger] workdata@[t]) == rowdote(ed3, ad2, gn, t, gk + 1, gn),
    v(ed3[gk + 1]) != 0real, g.t == 1real / v(ed3[gk + 1]),
    rapplied(ad2, adata@, ed3, gm, gn, gk, j as int, g.t),
@at L0.8.start
  let ghost dc8 = adata@;
  let ghost gj = j as int;
@at let:t#1.after
  proof { neg_div(v(ed3[gj]), v(ed3[gk + 1])); }
@loop 0.8.0 for i
  invariant
    gm == m, gn == n, gk == k, gj == j, 0 <= gk < gj < gn, gk + 1 < gn, dims(gm, gn), adata@.len() == gm * gn, ad2.len() == gm * gn, workdata@.len() == gm, dc8.len() == gm * gn,
    forall|t: int| gk < t < gm ==> v(#[trigger] workdata@[t]) == rowdote(ed3, ad2, gn, t, gk + 1, gn),
    rapplied(ad2, dc8, ed3, gm, gn, gk, gj, g.t), rapplying(ad2, dc8, adata@, ed3, gm, gn, gk, gj, i as int, g.t), v(t) == -(g.t * v(ed3[gj])),
@at L0.8.0.start
  let ghost dr8 = adata@;
@at L0.8.0.end
  proof { rapply_step(ad2, dc8, dr8, ed3, gm, gn, gk, gj, i as int, g.t, e_add(dr8[i * gn + gj], e_mul(t, workdata@[i as int])), v(t), v(workdata@[i as int])); }
@at L0.8.end
  proof { rapply_done(ad2, dc8, adata@, ed3, gm, gn, gk, gj, g.t); }
@at if11.after
  proof { right_done(ad2, adata@, sd1, ed2, ed3, gm, gn, gr, gk, nrm2, sg2, t0); }
@loop 0.9 for i
  invariant
    gn == n, gk == k, 0 <= gk, gk + 1 < gn, edata@ == ed3, ed3.len() == gn, vdata@.len() == gn * gn, vd0.len() == gn * gn, gn * gn <= isize::MAX, g == rrf(ed3, gn, gk, sg2),
    filled(vd0, vdata@, gn, gk + 1, i as int, gk, g.h),
@at L0.9.start
  let ghost dk = vdata@;
@at L0.9.end
  proof { filled_step(vd0, dk, gn, gk + 1, i as int, gk, g.h, ed3[i as int]); }
@at if7.thenend
  proof { right_stored(rs, g, vd0, vdata@, ed0, ed3, gn, gk, sg2); }
@at L0.end
  proof {
    if gk >= gr {
      right_skip(adata@, sd1, edata@, gm, gn, gr, gk, t0);
      stored_keep(rs, g, vdata@, ed0, edata@, gn, 1, gr);
    }
    let x4 = mk(adata@, sdata@, edata@, gn, gr, gk + 1, gk + 1);
    ph_next(fa, ls, rs, gm, gn, gk, x0, x1, x2, x3, x4, f, g, t0, f2);
    ls = ls.push(f);
    rs = rs.push(g);
  }
@at L0.after
  let ghost ada = adata@;
  let ghost sda = sdata@;
  let ghost eda = edata@;
  let ghost uda = udata@;
  let ghost vda = vdata@;
  let ghost xa = mk(ada, sda, eda, gn, gr, gc, gc);
@at L1.before
  let ghost sdb = sdata@;
  let ghost edb = edata@;
  proof {
    assert(p == gn);
    bd_done(ada, sda, eda, sdb, edb, gm, gn, gc, gr);
    stored_x(ls, uda, sda, sdb, gm, 0, gc);
    stored_x(rs, vda, eda, edb, gn, 1, gr);
    assert(v(edb[gn - 1]) == 0real);
    unitcols_none(uda, gm, gc);
  }
@loop 1 for j
  invariant
    gm == m, gc == nct, gn == n, par(gm, gn, gc, gr), uda.len() == gm * gm, udata@.len() == gm * gm,
    unitcols(uda, udata@, gm, gc, j as int),
@at L1.start
  let ghost du = udata@;
  let ghost gj = j as int;
@loop 1.0 for i
  invariant
    gm == m, gj == j, 0 <= gj < gm, gm * gm <= isize::MAX, udata@.len() == gm * gm, du.len() == gm * gm, cleared(du, udata@, gm, i as int, gj),
@at L1.0.start
  let ghost dr = udata@;
@at L1.0.end
  proof { cleared_step(du, dr, gm, i as int, gj, e_zero()); }
@at L1.0.after
  let ghost dz = udata@;
@at L1.end
  proof {
    united_done(du, dz, gm, gj, e_one());
    unitcols_step(uda, du, udata@, gm, gc, gj);
  }
@at L1.after
  proof { gen_units(ls, uda, udata@, gm, gc); }
@loop 2 for k
  invariant
    gm == m, gc == nct, gn == n, par(gm, gn, gc, gr), uda.len() == gm * gm, udata@.len() == gm * gm, sdata@ == sdb, sdb.len() == gn, $lo == 0, $hi == gc, ls.len() == gc, tails(ls, 0),
    stored(ls, uda, sdb, gm, 0, gc), genned(ls, uda, udata@, gm, $i),
@at L2.start
  let ghost du = udata@;
  let ghost gk = k as int;
  proof { stored_at(ls, uda, sdb, gm, 0, gc, gk); if v(sdb[gk]) != 0real { genapp_begin(ls, uda, udata@, gm, gk); } }
@loop 2.0 for j
  invariant
    gm == m, gn == n, gk == k, 0 <= gk < gc, gc <= gn, dims(gm, gn), uda.len() == gm * gm, udata@.len() == gm * gm, sdb.len() == gn, ls.len() == gc, gk < gm,
    store1(ls[gk], uda, sdb, gm, 0, gk), v(sdb[gk]) != 0real,
    genapp(ls, uda, udata@, gm, gk, j as int),
@at L2.0.start
  let ghost dc = udata@;
  let ghost gj = j as int;
@loop 2.0.0 for i
  invariant
    gm == m, gk == k, gj == j, 0 <= gk < gj < gm, gm * gm <= isize::MAX, udata@ == dc, dc.len() == gm * gm,
    v(t) == coldot(dc, gm, gk, gj, gk, i as int),
@at L2.0.0.end
  proof { assert(coldot(dc, gm, gk, gj, gk, i + 1) == coldot(dc, gm, gk, gj, gk, i as int) + el(dc, gm, i as int, gk) * el(dc, gm, i as int, gj)); }
@at L2.0.1.before
  let ghost tt = v(t);
  proof {
    genapp_at(ls, uda, dc, gm, gk, gj, gk);
    neg_div(coldot(dc, gm, gk, gj, gk, gm), el(dc, gm, gk, gk));
  }
@loop 2.0.1 for i
  invariant
    gm == m, gk == k, gj == j, 0 <= gk < gj < gm, gm * gm <= isize::MAX, udata@.len() == gm * gm, dc.len() == gm * gm,
    axpyd(dc, udata@, gm, gm, gk, i as int, gk, gj, tt), v(t) == tt,
@at L2.0.1.start
  let ghost dr = udata@;
@at L2.0.1.end
  proof { axpyd_step(dc, dr, gm, gm, gk, i as int, gk, gj, tt, e_add(dr[i * gm + gj], e_mul(t, dr[i * gm + gk]))); }
@at L2.0.end
  proof { genapp_step(ls, uda, dc, udata@, sdb, gm, 0, gk, gj, tt); }
@at L2.1.before
  let ghost d2 = udata@;
@loop 2.1 for i
  invariant
    gm == m, gk == k, 0 <= gk < gm, gm * gm <= isize::MAX, udata@.len() == gm * gm, d2.len() == gm * gm, negated(d2, udata@, gm, gk, i as int, gk),
@at L2.1.start
  let ghost dr = udata@;
@at L2.1.end
  proof { negated_step(d2, dr, gm, gk, i as int, gk, e_neg(dr[i * gm + gk])); }
@at L2.1.after
  let ghost d3 = udata@;
@at L2.2.before
  let ghost d4 = udata@;
@loop 2.2 for i
  invariant
    gm == m, gk == k, 0 <= gk < gm, gm * gm <= isize::MAX, udata@.len() == gm * gm, d4.len() == gm * gm, cleared(d4, udata@, gm, i as int, gk),
@at L2.2.start
  let ghost dr = udata@;
@at L2.2.end
  proof { cleared_step(d4, dr, gm, i as int, gk, e_zero()); }
@at L2.2.after
  proof { genned_col(ls, uda, d2, d3, udata@, sdb, gm, gk, e_add(e_one(), d3[gk * gm + gk])); }
@loop 2.3 for i
  invariant
    gm == m, gk == k, 0 <= gk < gm, gm * gm <= isize::MAX, udata@.len() == gm * gm, du.len() == gm * gm, cleared(du, udata@, gm, i as int, gk),
@at L2.3.start
  let ghost dr = udata@;
@at L2.3.end
  proof { cleared_step(du, dr, gm, i as int, gk, e_zero()); }
@at L2.3.after
  let ghost dz = udata@;
@at if15.elseend
  proof {
    united_done(du, dz, gm, gk, e_one());
    genapp_none(ls, uda, du, gm, gk);
    genned_unit(ls, uda, du, udata@, gm, 0, gk);
  }
@at L3.before
  proof {
    gen_none_yet(rs, vda, gn);
  }
@loop 3 for k
  invariant
    gm == m, gr == nrt, gn == n, par(gm, gn, gc, gr), vda.len() == gn * gn, vdata@.len() == gn * gn, edata@ == edb, edb.len() == gn, $lo == 0, $hi == gn, rs.len() == gc, tails(rs, 1),
    stored(rs, vda, edb, gn, 1, gr), forall|q: int| gr <= q < gc ==> (#[trigger] rs[q]).t == 0real, genned(rs, vda, vdata@, gn, $i),
@at L3.start
  let ghost dv = vdata@;
  let ghost gk = k as int;
  proof { if gk < gr { stored_at(rs, vda, edb, gn, 1, gr, gk); if v(edb[gk]) != 0real { genapp_begin(rs, vda, vdata@, gn, gk); } } }
@at if16.before
  proof { if !(gk < gr && v(edb[gk]) != 0real) { genapp_none(rs, vda, vdata@, gn, gk); } }
@loop 3.0 for j
  invariant
    gm == m, gn == n, gk == k, 0 <= gk < gr, gr < gc, gk + 1 < gn, dims(gm, gn), vda.len() == gn * gn, vdata@.len() == gn * gn, edb.len() == gn, rs.len() == gc,
    store1(rs[gk], vda, edb, gn, 1, gk), v(edb[gk]) != 0real,
    genapp(rs, vda, vdata@, gn, gk, j as int),
@at L3.0.start
  let ghost dc = vdata@;
  let ghost gj = j as int;
@loop 3.0.0 for i
  invariant
    gn == n, gk == k, gj == j, 0 <= gk < gj < gn, gn * gn <= isize::MAX, vdata@ == dc, dc.len() == gn * gn,
    v(t) == coldot(dc, gn, gk, gj, gk + 1, i as int),
@at L3.0.0.end
  proof { assert(coldot(dc, gn, gk, gj, gk + 1, i + 1) == coldot(dc, gn, gk, gj, gk + 1, i as int) + el(dc, gn, i as int, gk) * el(dc, gn, i as int, gj)); }
@at L3.0.1.before
  let ghost tt = v(t);
  proof {
    genapp_at(rs, vda, dc, gn, gk, gj, gk + 1);
    neg_div(coldot(dc, gn, gk, gj, gk + 1, gn), el(dc, gn, gk + 1, gk));
  }
@loop 3.0.1 for i
  invariant
    gn == n, gk == k, gj == j, 0 <= gk < gj < gn, gn * gn <= isize::MAX, vdata@.len() == gn * gn, dc.len() == gn * gn,
    axpyd(dc, vdata@, gn, gn, gk + 1, i as int, gk, gj, tt), v(t) == tt,
@at L3.0.1.start
  let ghost dr = vdata@;
@at L3.0.1.end
  proof { axpyd_step(dc, dr, gn, gn, gk + 1, i as int, gk, gj, tt, e_add(dr[i * gn + gj], e_mul(t, dr[i * gn + gk]))); }
@at L3.0.end
  proof { genapp_step(rs, vda, dc, vdata@, edb, gn, 1, gk, gj, tt); }
@at L3.1.before
  let ghost d2 = vdata@;
@loop 3.1 for i
  invariant
    gn == n, gk == k, 0 <= gk < gn, gn * gn <= isize::MAX, vdata@.len() == gn * gn, d2.len() == gn * gn, cleared(d2, vdata@, gn, i as int, gk),
@at L3.1.start
  let ghost dr = vdata@;
@at L3.1.end
  proof { cleared_step(d2, dr, gn, i as int, gk, e_zero()); }
@at L3.1.after
  let ghost dz = vdata@;
@at L3.end
  proof {
    united_done(d2, dz, gn, gk, e_one());
    genned_unit(rs, vda, d2, vdata@, gn, 1, gk);
  }
@at L4.before
  let ghost fr = rsqrt(f2);
  let ghost th = thr(fr);
  proof { begin_it(fa, ls, rs, uda, vda, udata@, vdata@, xa, sdb, edb, gm, gn, gc, f2); }
@loop 4 for i
  invariant
    p == gn, sdata@ == sdb, edata@ == edb, sdb.len() == gn, edb.len() == gn, 0real <= v(norm) <= fr,
    forall|i: int| 0 <= i < gn ==> rabs(v(#[trigger] sdb[i])) <= fr,
    forall|i: int| 0 <= i < gn ==> rabs(v(#[trigger] edb[i])) <= fr,
@at L5.before
  let ghost tn = v(tiny);
  let ghost ep = v(eps);
  let ghost ic = It { a: fa, m: gm, n: gn, f2, fr, th, tn };
  proof {
    tiny_small(v(norm), fr);
    st_begin(ic, udata@, vdata@, sdata@, edata@);
  }
@loop 5
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 0 <= p <= gn, st(ic, udata@, vdata@, sdata@, edata@, p as int, 0real),
@loop 5.0
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 1 <= p <= gn, -1 <= k <= p - 2, st(ic, udata@, vdata@, sdata@, edata@, p as int, 0real), nonzeros(edata@, k + 1, p - 1),
  ensures
    k < 0 || v(edata@[k as int]) == 0real,
  decreases k + 1
@at if17.then
  proof { escan_drop(ic, udata@, vdata@, sdata@, edata@, p as int, k as int, e_zero()); }
@at if17.after
  proof { escan_keep(ic, udata@, vdata@, sdata@, edata@, p as int, k as int); }
@loop 5.1
  invariant_except_break
    st(ic, udata@, vdata@, sdata@, edata@, p as int, 0real), nonzeros(sdata@, ks + 1, p as int),
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 1 <= p <= gn, -1 <= k < p - 2, k <= ks <= p - 1,
  ensures
    ks == k ==> st(ic, udata@, vdata@, sdata@, edata@, p as int, 0real) && nonzeros(sdata@, k + 1, p as int),
    ks > k ==> st(ic, udata@, vdata@, sdata@, edata@, p as int, ic.th) && v(sdata@[ks as int]) == 0real,
  decreases ks - k
@at let:t#4.after
  let ghost y = if ks != k + 1 { rabs(v(edata@[ks - 1])) } else { 0real };
@at if21.then
  proof { sscan_drop(ic, udata@, vdata@, sdata@, edata@, p as int, ks as int, y, e_zero()); }
@at if21.after
  proof { sscan_keep(ic, udata@, vdata@, sdata@, edata@, p as int, ks as int, y); }
@at if24.then
  proof { dfl_start(ic, udata@, vdata@, sdata@, edata@, p as int, k as int, e_zero()); }
@loop 5.2
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 2 <= p <= gn, 0 <= k <= p - 2, k - 1 <= j <= p - 2, dfl(ic, udata@, vdata@, sdata@, edata@, p as int, k as int, j as int, v(f)),
  decreases j + 1
@at L5.2.start
  let ghost (vd0, sd0, ed0, f0, gj) = (vdata@, sdata@, edata@, v(f), j as int);
@at L5.2.0.before
  let ghost ct = t;
@loop 5.2.0 for i
  invariant
    gn == n, gn * gn <= isize::MAX, gj == j, 0 <= gj < p - 1, p <= gn, vdata@.len() == gn * gn, vd0.len() == gn * gn, rotd(vd0, vdata@, gn, i as int, gj, p - 1, v(cs), v(sn)),
@at L5.2.0.start
  let ghost dr = vdata@;
@at L5.2.0.end
  proof { rotd_step(vd0, dr, vdata@, gn, i as int, gj, p - 1, v(cs), v(sn), e_add(e_mul(cs, dr[i * n + gj]), e_mul(sn, dr[i * n + (p - 1)])), e_add(e_mul(e_neg(sn), dr[i * n + gj]), e_mul(cs, dr[i * n + (p - 1)]))); }
@at L5.2.0.after
  proof { dfl_step(ic, udata@, vd0, vdata@, sd0, sdata@, ed0, edata@, p as int, k as int, gj, f0, v(f), ct, e_mul(cs, ed0[gj - 1]), v(cs), v(sn)); }
@at L5.2.after
  proof { dfl_end(ic, udata@, vdata@, sdata@, edata@, p as int, k as int, v(f)); }
@at if26.then
  proof { spl_start(ic, udata@, vdata@, sdata@, edata@, p as int, k - 1, e_zero()); }
@loop 5.3 for j
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 2 <= p <= gn, 1 <= k <= p - 1, $it.snapshot@.end == p, spl(ic, udata@, vdata@, sdata@, edata@, p as int, k - 1, j as int, v(f)),
@at L5.3.start
  let ghost (ud0, sd0, ed0, f0, gj) = (udata@, sdata@, edata@, v(f), j as int);
@at L5.3.0.before
  let ghost ct = t;
@loop 5.3.0 for i
  invariant
    gm == m, gm * gm <= isize::MAX, gj == j, 1 <= k <= gj < p, p <= gm, udata@.len() == gm * gm, ud0.len() == gm * gm, rotd(ud0, udata@, gm, i as int, gj, k - 1, v(cs), v(sn)),
@at L5.3.0.start
  let ghost dr = udata@;
@at L5.3.0.end
  proof { rotd_step(ud0, dr, udata@, gm, i as int, gj, k - 1, v(cs), v(sn), e_add(e_mul(cs, dr[i * m + gj]), e_mul(sn, dr[i * m + (k - 1)])), e_add(e_mul(e_neg(sn), dr[i * m + gj]), e_mul(cs, dr[i * m + (k - 1)]))); }
@at L5.3.0.after
  proof { spl_step(ic, ud0, udata@, vdata@, sd0, sdata@, ed0, edata@, p as int, k - 1, gj, f0, v(f), ct, e_mul(cs, ed0[gj]), v(cs), v(sn)); }
@at L5.3.after
  proof { spl_end(ic, udata@, vdata@, sdata@, edata@, p as int, k - 1, v(f)); }
@at L5.4.before
  let ghost ed3 = edata@;
  proof {
    quot_nz(v(sdata@[k as int]), v(edata@[k as int]), v(scale));
    chs_start(ic, udata@, vdata@, sdata@, edata@, p as int, k as int, v(f), v(g));
  }
@loop 5.4 for j
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 2 <= p <= gn, 0 <= k <= p - 2, $it.snapshot@.end == p - 1, chs(ic, udata@, vdata@, sdata@, ed3, edata@, p as int, k as int, j as int, v(f), v(g)),
@at L5.4.start
  let ghost (vd0, ud0, sd0, ed0, f0, g0, gj) = (vdata@, udata@, sdata@, edata@, v(f), v(g), j as int);
@at L5.4.0.before
  let ghost ct = t;
@loop 5.4.0 for i
  invariant
    gn == n, gn * gn <= isize::MAX, gj == j, 0 <= gj, gj + 1 < gn, vdata@.len() == gn * gn, vd0.len() == gn * gn, rotd(vd0, vdata@, gn, i as int, gj, gj + 1, v(cs), v(sn)),
@at L5.4.0.start
  let ghost dr = vdata@;
@at L5.4.0.end
  proof { rotd_step(vd0, dr, vdata@, gn, i as int, gj, gj + 1, v(cs), v(sn), e_add(e_mul(cs, dr[i * n + gj]), e_mul(sn, dr[i * n + (gj + 1)])), e_add(e_mul(e_neg(sn), dr[i * n + gj]), e_mul(cs, dr[i * n + (gj + 1)]))); }
@at L5.4.0.after
  let ghost (sd1, ed1, f1, g1) = (sdata@, edata@, v(f), v(g));
  proof {
    chs_col(ic, ud0, vd0, vdata@, sd0, sd1, ed3, ed0, ed1, p as int, k as int, gj, f0, g0, f1, g1, ct, e_mul(cs, sd0[gj + 1]), e_sub(e_mul(cs, ed0[gj]), e_mul(sn, sd0[gj])), v(cs), v(sn));
  }
@at if31.before
  let ghost cu = t;
@loop 5.4.1 for i
  invariant
    gm == m, gm * gm <= isize::MAX, gj == j, 0 <= gj, gj + 1 < gm, udata@.len() == gm * gm, ud0.len() == gm * gm, rotd(ud0, udata@, gm, i as int, gj, gj + 1, v(cs), v(sn)),
@at L5.4.1.start
  let ghost dr = udata@;
@at L5.4.1.end
  proof { rotd_step(ud0, dr, udata@, gm, i as int, gj, gj + 1, v(cs), v(sn), e_add(e_mul(cs, dr[i * m + gj]), e_mul(sn, dr[i * m + (gj + 1)])), e_add(e_mul(e_neg(sn), dr[i * m + gj]), e_mul(cs, dr[i * m + (gj + 1)]))); }
@at L5.4.1.after
  proof {
    chs_row(ic, ud0, udata@, vdata@, sd1, sdata@, ed3, ed1, edata@, p as int, k as int, gj, f1, g1, v(f), v(g), cu, e_add(e_mul(e_neg(sn), ed1[gj]), e_mul(cs, sd1[gj + 1])), e_mul(cs, ed1[gj + 1]), v(cs), v(sn));
  }
@at L5.4.after
  proof { chs_end(ic, udata@, vdata@, sdata@, ed3, edata@, p as int, k as int, v(f), v(g), f); }
@at if33.before
  let ghost (sd4, vd4, gk4) = (sdata@, vdata@, k as int);
@loop 5.5 for i
  invariant
    gn == n, gn * gn <= isize::MAX, pp == gn - 1, gk4 == k, 0 <= gk4 < gn, vdata@.len() == gn * gn, vd4.len() == gn * gn, negated(vd4, vdata@, gn, 0, i as int, gk4),
@at L5.5.start
  let ghost dr = vdata@;
@at L5.5.end
  proof { negated_step(vd4, dr, gn, 0, i as int, gk4, e_neg(dr[i * n + gk4])); }
@at L5.5.after
  proof { srt_flip(ic, udata@, vd4, vdata@, sd4, edata@, p as int, gk4, sdata@[gk4]); }
@at if33.after
  proof { if !(v(sd4[gk4]) <= 0real) { srt_noflip(ic, udata@, vdata@, sdata@, edata@, p as int, gk4); } }
@loop 5.6
  invariant
    gm == m, gn == n, dims(gm, gn), it_ok(ic), ic.m == gm, ic.n == gn, ic.tn == v(tiny), v(eps) == r_epsilon(), pp == gn - 1,
    sz(ic, udata@, vdata@, sdata@, edata@), 1 <= p <= gn, p - 1 <= k <= pp, srt(ic, udata@, vdata@, sdata@, edata@, p as int, k as int),
  ensures
    k == pp || v(sdata@[k as int]) >= v(sdata@[k + 1]),
  decreases pp - k
@at L5.6.start
  let ghost (ud6, vd6, sd6, gk6) = (udata@, vdata@, sdata@, k as int);
@loop 5.6.0 for i
  invariant
    gn == n, gn * gn <= isize::MAX, gk6 == k, 0 <= gk6, gk6 + 1 < gn, vdata@.len() == gn * gn, vd6.len() == gn * gn, swapd(vd6, vdata@, gn, i as int, gk6),
@at L5.6.0.start
  let ghost dr = vdata@;
@at L5.6.0.end
  proof { swapd_step(vd6, dr, vdata@, gn, i as int, gk6); }
@loop 5.6.1 for i
  invariant
    gm == m, gm * gm <= isize::MAX, gk6 == k, 0 <= gk6, gk6 + 1 < gm, udata@.len() == gm * gm, ud6.len() == gm * gm, swapd(ud6, udata@, gm, i as int, gk6),
@at L5.6.1.start
  let ghost dr = udata@;
@at L5.6.1.end
  proof { swapd_step(ud6, dr, udata@, gm, i as int, gk6); }
@at L5.6.1.after
  proof { srt_step(ic, ud6, udata@, vd6, vdata@, sd6, sdata@, edata@, p as int, gk6); }
@at L5.6.after
  proof { srt_end(ic, udata@, vdata@, sdata@, edata@, p as int, k as int); }
@at end
  proof {
    assert forall|r: SVD<E>| #![trigger r.of(a)]
      r.u.shaped(gm, gm) && r.u.data@ == udata@ && r.v.shaped(gn, gn) && r.v.data@ == vdata@ && r.s.shaped(gm, gn)
      && (forall|i: int, j: int| 0 <= i < gm && 0 <= j < gn ==> #[trigger] r.s.at(i, j) == if i == j { sdata@[i] } else { e_zero() })
      implies r.of(a) by { svd_done(ic, udata@, vdata@, sdata@, edata@, a, &r); }
  }
