// ---------------------------------------------------------------- singular value decomposition: the steps of the reduction
pub mod svp {
use super::*;
pub open spec fn par(m: int, n: int, nct: int, nrt: int) -> bool { dims(m, n) && nct == imin(m - 1, n) && nrt == (if n >= 2 { n - 2 } else { 0 }) }
// the squares of column k, of row values
pub open spec fn colsq(d: Seq<E>, st: int, k: int, lo: int, hi: int) -> real { sum(|t: int| el(d, st, t, k) * el(d, st, t, k), lo, hi) }
pub open spec fn vecsq(e: Seq<E>, lo: int, hi: int) -> real { sum(|t: int| v(e[t]) * v(e[t]), lo, hi) }
pub open spec fn coldot(d: Seq<E>, st: int, hc: int, j: int, lo: int, hi: int) -> real { sum(|t: int| el(d, st, t, hc) * el(d, st, t, j), lo, hi) }
pub open spec fn rowdote(e: Seq<E>, d: Seq<E>, st: int, i: int, lo: int, hi: int) -> real { sum(|c: int| v(e[c]) * el(d, st, i, c), lo, hi) }
pub open spec fn unit_inv(x: real) -> real { 1real / x }
// column k scaled: x / sg, plus 1 in row k
pub open spec fn scaled(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, k: int, sg: real, i: int) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < rows && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == k && k <= t < i { el(d0, st, t, c) / sg } else { el(d0, st, t, c) }
}
pub open spec fn housed(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, k: int, sg: real) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < rows && 0 <= c < st ==> #[trigger] el(d1, st, t, c) ==
    if c == k && t >= k && sg != 0real { el(d0, st, t, c) / sg + (if t == k { 1real } else { 0real }) } else { el(d0, st, t, c) }
}
pub proof fn scaled_step(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, k: int, sg: real, i: int, x: E)
  requires scaled(d0, d1, st, rows, k, sg, i), 0 <= k <= i < rows, k < st, d0.len() == rows * st, v(x) == el(d1, st, i, k) / sg,
  ensures scaled(d0, d1.update(i * st + k, x), st, rows, k, sg, i + 1), 0 <= i * st + k < rows * st,
{
  el_update(d1, rows, st, i, k, x);
  assert(el(d1, st, i, k) == el(d0, st, i, k));
}
pub proof fn housed_done(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, k: int, sg: real, x: E)
  requires scaled(d0, d1, st, rows, k, sg, rows), 0 <= k < rows, k < st, d0.len() == rows * st, v(x) == el(d1, st, k, k) + 1real, sg != 0real,
  ensures housed(d0, d1.update(k * st + k, x), st, rows, k, sg), 0 <= k * st + k < rows * st,
{
  el_update(d1, rows, st, k, k, x);
  assert(el(d1, st, k, k) == el(d0, st, k, k) / sg);
}
// the reflection that step k applies from the left
pub open spec fn lrf(d: Seq<E>, st: int, m: int, k: int, sg: real) -> Rf { Rf { h: lv(d, st, m, k, k), t: if sg != 0real { 1real / el(d, st, k, k) } else { 0real } } }
pub open spec fn rrf(e: Seq<E>, n: int, k: int, sg: real) -> Rf { Rf { h: ev(e, k + 1, n), t: if sg != 0real { 1real / v(e[k + 1]) } else { 0real } } }
pub open spec fn lcut(x: Mt, k: int, sg: real) -> Mt { if sg != 0real { x } else { cutc(x, k, k) } }
pub open spec fn rcut(x: Mt, k: int, sg: real) -> Mt { if sg != 0real { x } else { cutr(x, k, k + 1) } }
pub open spec fn signed(nrm: real, sg: real, x: real, t0: real) -> bool {
  nrm >= 0real && if sg != 0real { sg * sg == nrm * nrm && x / sg >= 0real } else { nrm <= t0 }
}
pub proof fn col_step(x0: Mt, ad0: Seq<E>, ad1: Seq<E>, m: int, n: int, k: int, nrm: real, sg: real, t0: real)
  requires
    0 <= k < m, k < n, t0 >= 0real, forall|t: int| k <= t < m ==> #[trigger] x0(t, k) == el(ad0, n, t, k),
    nrm * nrm == colsq(ad0, n, k, k, m), signed(nrm, sg, el(ad0, n, k, k), t0), housed(ad0, ad1, n, m, k, sg),
  ensures ({
    let f = lrf(ad1, n, m, k, sg);
    let x1 = lcut(x0, k, sg);
    &&& is_refl(f.h, f.t, m) && zero_above(f.h, k) && (sg != 0real ==> el(ad1, n, k, k) != 0real)
    &&& smaller(x1, x0, m, n) && fro2(msub(x0, x1), m, n) <= t0 * t0
    &&& forall|t: int| 0 <= t < m ==> #[trigger] refl(f.h, f.t, m, colof(x1, k))(t) == if t < k { x1(t, k) } else if t == k { -sg } else { 0real }
    &&& forall|t: int, c: int| 0 <= t < m && 0 <= c < n && (t < k || c != k) ==> #[trigger] x1(t, c) == x0(t, c)
  }),
{
  let f = lrf(ad1, n, m, k, sg);
  let x1 = lcut(x0, k, sg);
  let p = |t: int| x0(t, k) * x0(t, k);
  let q = |t: int| el(ad0, n, t, k) * el(ad0, n, t, k);
  sum_ext(p, q, k, m);
  let xc = colof(x0, k);
  if sg != 0real {
    let pc = |t: int| xc(t) * xc(t);
    sum_ext(pc, q, k, m);
    assert forall|t: int| 0 <= t < m implies #[trigger] (f.h)(t) == (if t < k { 0real } else if t == k { xc(t) / sg + 1real } else { xc(t) / sg }) by {
      if t >= k { assert(x0(t, k) == el(ad0, n, t, k)); assert((f.h)(t) == el(ad1, n, t, k)); }
    }
    assert(x0(k, k) == el(ad0, n, k, k));
    house_vec(xc, nrm, sg, k, m, f.h);
    assert((f.h)(k) == el(ad1, n, k, k));
    uncut_small(x0, m, n, t0);
  } else {
    root_eq_le(nrm, t0);
    cutc_small(x0, m, n, k, k, colsq(ad0, n, k, k, m), t0);
    assert forall|t: int| 0 <= t < m implies #[trigger] refl(f.h, f.t, m, colof(x1, k))(t) == (if t < k { x1(t, k) } else if t == k { -sg } else { 0real }) by { refl_off(f.h, f.t, m, colof(x1, k), t); }
  }
}
pub proof fn row_step(x2: Mt, e2: Seq<E>, e3: Seq<E>, m: int, n: int, k: int, nrm: real, sg: real, t0: real)
  requires
    0 <= k < m, k + 1 < n, t0 >= 0real, forall|c: int| k < c < n ==> x2(k, c) == v(#[trigger] e2[c]),
    nrm * nrm == vecsq(e2, k + 1, n), signed(nrm, sg, v(e2[k + 1]), t0),
    forall|c: int| k < c < n ==> v(#[trigger] e3[c]) == if sg != 0real { v(e2[c]) / sg + (if c == k + 1 { 1real } else { 0real }) } else { v(e2[c]) },
  ensures ({
    let g = rrf(e3, n, k, sg);
    let x3 = rcut(x2, k, sg);
    &&& is_refl(g.h, g.t, n) && zero_above(g.h, k + 1) && (sg != 0real ==> v(e3[k + 1]) != 0real)
    &&& smaller(x3, x2, m, n) && fro2(msub(x2, x3), m, n) <= t0 * t0
    &&& forall|c: int| 0 <= c < n ==> #[trigger] refl(g.h, g.t, n, colof(tr(x3), k))(c) == if c < k + 1 { x3(k, c) } else if c == k + 1 { -sg } else { 0real }
    &&& forall|t: int, c: int| 0 <= t < m && 0 <= c < n && (t != k || c <= k) ==> #[trigger] x3(t, c) == x2(t, c)
  }),
{
  let g = rrf(e3, n, k, sg);
  let x3 = rcut(x2, k, sg);
  let p = |t: int| x2(k, t) * x2(k, t);
  let q = |t: int| v(e2[t]) * v(e2[t]);
  assert forall|t: int| k + 1 <= t < n implies #[trigger] p(t) == q(t) by { assert(x2(k, t) == v(e2[t])); }
  sum_ext(p, q, k + 1, n);
  let xc = colof(tr(x2), k);
  if sg != 0real {
    let pc = |t: int| xc(t) * xc(t);
    assert forall|t: int| k + 1 <= t < n implies #[trigger] pc(t) == q(t) by { assert(x2(k, t) == v(e2[t])); }
    sum_ext(pc, q, k + 1, n);
    assert forall|c: int| 0 <= c < n implies #[trigger] (g.h)(c) == (if c < k + 1 { 0real } else if c == k + 1 { xc(c) / sg + 1real } else { xc(c) / sg }) by {
      if c > k { assert(x2(k, c) == v(e2[c])); assert((g.h)(c) == v(e3[c])); }
    }
    assert(x2(k, k + 1) == v(e2[k + 1]));
    house_vec(xc, nrm, sg, k + 1, n, g.h);
    assert((g.h)(k + 1) == v(e3[k + 1]));
    uncut_small(x2, m, n, t0);
  } else {
    root_eq_le(nrm, t0);
    cutr_small(x2, m, n, k, k + 1, vecsq(e2, k + 1, n), t0);
    assert forall|c: int| 0 <= c < n implies #[trigger] refl(g.h, g.t, n, colof(tr(x3), k))(c) == (if c < k + 1 { x3(k, c) } else if c == k + 1 { -sg } else { 0real }) by { refl_off(g.h, g.t, n, colof(tr(x3), k), c); }
  }
}
// column j gets tt times column hc added, rows lo to i
pub open spec fn axpyd(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, lo: int, i: int, hc: int, j: int, tt: real) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < rows && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == j && lo <= t < i { el(d0, st, t, j) + tt * el(d0, st, t, hc) } else { el(d0, st, t, c) }
}
pub proof fn axpyd_step(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, lo: int, i: int, hc: int, j: int, tt: real, x: E)
  requires axpyd(d0, d1, st, rows, lo, i, hc, j, tt), 0 <= lo <= i < rows, 0 <= hc < st, 0 <= j < st, hc != j, d0.len() == rows * st, v(x) == el(d1, st, i, j) + tt * el(d1, st, i, hc),
  ensures axpyd(d0, d1.update(i * st + j, x), st, rows, lo, i + 1, hc, j, tt),
{
  el_update(d1, rows, st, i, j, x);
  assert(el(d1, st, i, j) == el(d0, st, i, j) && el(d1, st, i, hc) == el(d0, st, i, hc));
}
// which reflects column j
pub proof fn axpyd_refl(d0: Seq<E>, d1: Seq<E>, st: int, rows: int, lo: int, hc: int, j: int, tt: real, h: Vc, tau: real, x: Vc)
  requires
    axpyd(d0, d1, st, rows, lo, rows, hc, j, tt), 0 <= lo < rows, 0 <= hc < st, 0 <= j < st,
    forall|t: int| 0 <= t < rows ==> #[trigger] h(t) == if t >= lo { el(d0, st, t, hc) } else { 0real },
    forall|t: int| lo <= t < rows ==> #[trigger] x(t) == el(d0, st, t, j),
    tt == -(tau * coldot(d0, st, hc, j, lo, rows)),
  ensures forall|t: int| lo <= t < rows ==> #[trigger] refl(h, tau, rows, x)(t) == el(d1, st, t, j),
{
  dot_tail(h, x, lo, rows);
  let f = |t: int| h(t) * x(t);
  let g = |t: int| el(d0, st, t, hc) * el(d0, st, t, j);
  assert forall|t: int| lo <= t < rows implies #[trigger] f(t) == g(t) by { assert(h(t) == el(d0, st, t, hc)); assert(x(t) == el(d0, st, t, j)); }
  sum_ext(f, g, lo, rows);
  assert forall|t: int| lo <= t < rows implies #[trigger] refl(h, tau, rows, x)(t) == el(d1, st, t, j) by {
    let (p, q) = (tau * vdot(h, x, rows), h(t));
    assert((-p) * q == -(p * q)) by (nonlinear_arith);
    assert(x(t) == el(d0, st, t, j));
  }
}
pub proof fn neg_div(x: real, y: real)
  requires y != 0real,
  ensures (-x) / y == -((1real / y) * x), -(x / y) == (-x) / y,
{ assert((-x) / y == -((1real / y) * x)) by (nonlinear_arith) requires y != 0real; assert(-(x / y) == (-x) / y) by (nonlinear_arith) requires y != 0real; }
// the state while the columns after k are reflected
pub open spec fn lapplied(ad1: Seq<E>, cur: Seq<E>, x: Mt, f: Rf, m: int, n: int, k: int, j: int) -> bool {
  cur.len() == ad1.len() && forall|t: int, c: int| 0 <= t < m && 0 <= c < n ==> #[trigger] el(cur, n, t, c) == if k < c < j && t >= k { refl(f.h, f.t, m, colof(x, c))(t) } else { el(ad1, n, t, c) }
}
pub proof fn lapply_step(ad1: Seq<E>, c0: Seq<E>, c1: Seq<E>, x: Mt, f: Rf, m: int, n: int, k: int, j: int, sg: real, tt: real)
  requires
    lapplied(ad1, c0, x, f, m, n, k, j), 0 <= k < j < n, k < m, f == lrf(ad1, n, m, k, sg),
    forall|t: int, c: int| k <= t < m && k < c < n ==> #[trigger] x(t, c) == el(ad1, n, t, c),
    if sg != 0real { axpyd(c0, c1, n, m, k, m, k, j, tt) && tt == -(f.t * coldot(c0, n, k, j, k, m)) } else { c1 == c0 },
  ensures lapplied(ad1, c1, x, f, m, n, k, j + 1),
{
  let xc = colof(x, j);
  if sg != 0real {
    assert forall|t: int| 0 <= t < m implies #[trigger] (f.h)(t) == (if t >= k { el(c0, n, t, k) } else { 0real }) by { assert(el(c0, n, t, k) == el(ad1, n, t, k)); }
    assert forall|t: int| k <= t < m implies #[trigger] xc(t) == el(c0, n, t, j) by { assert(x(t, j) == el(ad1, n, t, j)); assert(el(c0, n, t, j) == el(ad1, n, t, j)); }
    axpyd_refl(c0, c1, n, m, k, k, j, tt, f.h, f.t, xc);
  }
  assert forall|t: int, c: int| 0 <= t < m && 0 <= c < n implies #[trigger] el(c1, n, t, c) == (if k < c < j + 1 && t >= k { refl(f.h, f.t, m, colof(x, c))(t) } else { el(ad1, n, t, c) }) by {
    assert(el(c0, n, t, c) == if k < c < j && t >= k { refl(f.h, f.t, m, colof(x, c))(t) } else { el(ad1, n, t, c) });
    if c == j && t >= k {
      if sg == 0real { refl_off(f.h, f.t, m, xc, t); assert(x(t, j) == el(ad1, n, t, j)); }
      else { assert(refl(f.h, f.t, m, xc)(t) == el(c1, n, t, j)); }
    }
  }
}
// the state while rows after k are reflected: columns < j done
pub open spec fn rapplied(ad: Seq<E>, cur: Seq<E>, e: Seq<E>, m: int, n: int, k: int, j: int, tau: real) -> bool {
  cur.len() == ad.len() && forall|t: int, c: int| 0 <= t < m && 0 <= c < n ==> #[trigger] el(cur, n, t, c) == if k < c < j && t > k { el(ad, n, t, c) - (tau * rowdote(e, ad, n, t, k + 1, n)) * v(e[c]) } else { el(ad, n, t, c) }
}
pub open spec fn rapplying(ad: Seq<E>, c0: Seq<E>, cur: Seq<E>, e: Seq<E>, m: int, n: int, k: int, j: int, i: int, tau: real) -> bool {
  cur.len() == ad.len() && forall|t: int, c: int| 0 <= t < m && 0 <= c < n ==> #[trigger] el(cur, n, t, c) == if c == j && k < t < i { el(ad, n, t, c) - (tau * rowdote(e, ad, n, t, k + 1, n)) * v(e[c]) } else { el(c0, n, t, c) }
}
pub proof fn rapply_step(ad: Seq<E>, c0: Seq<E>, cur: Seq<E>, e: Seq<E>, m: int, n: int, k: int, j: int, i: int, tau: real, x: E, tt: real, w: real)
  requires
    rapplied(ad, c0, e, m, n, k, j, tau), rapplying(ad, c0, cur, e, m, n, k, j, i, tau), 0 <= k < j < n, k < i < m, ad.len() == m * n,
    v(x) == el(cur, n, i, j) + tt * w, w == rowdote(e, ad, n, i, k + 1, n), tt == -(tau * v(e[j])),
  ensures rapplying(ad, c0, cur.update(i * n + j, x), e, m, n, k, j, i + 1, tau),
{
  el_update(cur, m, n, i, j, x);
  assert(el(cur, n, i, j) == el(c0, n, i, j) && el(c0, n, i, j) == el(ad, n, i, j));
  let z = v(e[j]);
  assert((-(tau * z)) * w == -((tau * w) * z)) by (nonlinear_arith);
}
pub proof fn rapply_done(ad: Seq<E>, c0: Seq<E>, cur: Seq<E>, e: Seq<E>, m: int, n: int, k: int, j: int, tau: real)
  requires rapplied(ad, c0, e, m, n, k, j, tau), rapplying(ad, c0, cur, e, m, n, k, j, m, tau), 0 <= k < j < n,
  ensures rapplied(ad, cur, e, m, n, k, j + 1, tau),
{
  assert forall|t: int, c: int| 0 <= t < m && 0 <= c < n implies #[trigger] el(cur, n, t, c) == (if k < c < j + 1 && t > k { el(ad, n, t, c) - (tau * rowdote(e, ad, n, t, k + 1, n)) * v(e[c]) } else { el(ad, n, t, c) }) by {
    assert(el(c0, n, t, c) == if k < c < j && t > k { el(ad, n, t, c) - (tau * rowdote(e, ad, n, t, k + 1, n)) * v(e[c]) } else { el(ad, n, t, c) });
  }
}
// rows after k are reflected
pub proof fn rapply_refl(ad: Seq<E>, ad2: Seq<E>, e: Seq<E>, x: Mt, g: Rf, m: int, n: int, k: int, sg: real)
  requires
    0 <= k < m, k + 1 < n, g == rrf(e, n, k, sg),
    forall|t: int, c: int| k < t < m && k < c < n ==> #[trigger] x(t, c) == el(ad, n, t, c),
    if sg != 0real { rapplied(ad, ad2, e, m, n, k, n, g.t) } else { ad2 == ad },
  ensures
    forall|t: int, c: int| k < t < m && k < c < n ==> #[trigger] el(ad2, n, t, c) == refl(g.h, g.t, n, colof(tr(x), t))(c),
    forall|t: int, c: int| 0 <= t <= k && 0 <= c < n && t < m ==> #[trigger] el(ad2, n, t, c) == el(ad, n, t, c),
{
  assert forall|t: int, c: int| k < t < m && k < c < n implies #[trigger] el(ad2, n, t, c) == refl(g.h, g.t, n, colof(tr(x), t))(c) by {
    let row = colof(tr(x), t);
    assert(x(t, c) == el(ad, n, t, c));
    if sg == 0real { refl_off(g.h, g.t, n, row, c); }
    else {
      dot_tail(g.h, row, k + 1, n);
      let p = |s: int| (g.h)(s) * row(s);
      let q = |s: int| v(e[s]) * el(ad, n, t, s);
      assert forall|s: int| k + 1 <= s < n implies #[trigger] p(s) == q(s) by { assert(x(t, s) == el(ad, n, t, s)); }
      sum_ext(p, q, k + 1, n);
    }
  }
}
// one more stored reflection
pub proof fn stored_push(fs: Seq<Rf>, f: Rf, d0: Seq<E>, d1: Seq<E>, x0: Seq<E>, x1: Seq<E>, st: int, off: int, k: int)
  requires
    stored(fs, d0, x0, st, off, k), fs.len() == k, 0 <= k, 0 <= off, k + off < st, store1(f, d1, x1, st, off, k),
    forall|i: int, c: int| 0 <= i < st && 0 <= c < k ==> #[trigger] el(d1, st, i, c) == el(d0, st, i, c),
    forall|q: int| 0 <= q < k ==> #[trigger] x1[q] == x0[q],
  ensures stored(fs.push(f), d1, x1, st, off, k + 1),
{ reveal(stored);
  assert forall|c: int| 0 <= c < k + 1 implies store1(#[trigger] fs.push(f)[c], d1, x1, st, off, c) by {
    if c < k {
      assert(fs.push(f)[c] == fs[c]);
      stored_same(fs[c], d0, d1, x0, x1, st, off, c);
    }
  }
}
pub proof fn stored_same(f: Rf, d0: Seq<E>, d1: Seq<E>, x0: Seq<E>, x1: Seq<E>, st: int, off: int, c: int)
  requires store1(f, d0, x0, st, off, c), 0 <= c, 0 <= off, c + off < st, forall|i: int| 0 <= i < st ==> #[trigger] el(d1, st, i, c) == el(d0, st, i, c), x1[c] == x0[c],
  ensures store1(f, d1, x1, st, off, c),
{
  assert forall|i: int| 0 <= i < st implies #[trigger] (f.h)(i) == lv(d1, st, st, c + off, c)(i) by { assert((f.h)(i) == lv(d0, st, st, c + off, c)(i)); assert(el(d1, st, i, c) == el(d0, st, i, c)); }
  assert(el(d1, st, c + off, c) == el(d0, st, c + off, c));
}
pub proof fn stored_keep(fs: Seq<Rf>, f: Rf, d: Seq<E>, x0: Seq<E>, x1: Seq<E>, st: int, off: int, k: int)
  requires stored(fs, d, x0, st, off, k), k <= fs.len(), 0 <= off, k + off <= st, forall|q: int| 0 <= q < k ==> #[trigger] x1[q] == x0[q],
  ensures stored(fs.push(f), d, x1, st, off, k),
{ reveal(stored);
  assert forall|c: int| 0 <= c < k implies store1(#[trigger] fs.push(f)[c], d, x1, st, off, c) by {
    assert(fs.push(f)[c] == fs[c]);
    stored_same(fs[c], d, d, x0, x1, st, off, c);
  }
}
pub proof fn tails_push(fs: Seq<Rf>, f: Rf, off: int, k: int)
  requires tails(fs, off), fs.len() == k, zero_above(f.h, k + off),
  ensures tails(fs.push(f), off),
{  reveal(tails); assert forall|q: int| 0 <= q < fs.push(f).len() implies zero_above((#[trigger] fs.push(f)[q]).h, q + off) by { if q < k { assert(fs.push(f)[q] == fs[q]); } } }
pub proof fn sign_ok(nrm: real, x: real, t0: real)
  requires nrm > 0real,
  ensures signed(nrm, nrm, x, t0) || x < 0real, signed(nrm, -nrm, x, t0) || x >= 0real,
{
  if x >= 0real { assert(x / nrm >= 0real) by (nonlinear_arith) requires x >= 0real, nrm > 0real; }
  else { let z = -nrm; assert(x / z >= 0real) by (nonlinear_arith) requires x < 0real, z < 0real; assert(z * z == nrm * nrm) by (nonlinear_arith) requires z == -nrm; }
}
pub proof fn twice_more(k: int, t: real)
  ensures (k + k) as real * t + t + t == ((k + 1) + (k + 1)) as real * t,
{
  let a = (k + k) as real;
  let b = ((k + 1) + (k + 1)) as real;
  assert(a * t + t + t == b * t) by (nonlinear_arith) requires b == a + 2real;
}
// column k of a buffer filled from row lo on
pub open spec fn filled(d0: Seq<E>, d1: Seq<E>, st: int, lo: int, i: int, k: int, h: Vc) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == k && lo <= t < i { h(t) } else { el(d0, st, t, c) }
}
pub proof fn filled_step(d0: Seq<E>, d1: Seq<E>, st: int, lo: int, i: int, k: int, h: Vc, x: E)
  requires filled(d0, d1, st, lo, i, k, h), 0 <= lo <= i < st, 0 <= k < st, d0.len() == st * st, v(x) == h(i),
  ensures filled(d0, d1.update(i * st + k, x), st, lo, i + 1, k, h),
{ el_update(d1, st, st, i, k, x); }
// one side of a reduction step, packed
#[verifier::opaque]
pub open spec fn half_l(x0: Mt, x1: Mt, x2: Mt, f: Rf, m: int, n: int, k: int, t0: real) -> bool {
  smaller(x1, x0, m, n) && fro2(msub(x0, x1), m, n) <= t0 * t0 && is_refl(f.h, f.t, m) && meq(lr(f, m, x1), x2, m, n) && zero_above(f.h, k)
}
#[verifier::opaque]
pub open spec fn half_r(x2: Mt, x3: Mt, x4: Mt, g: Rf, m: int, n: int, k: int, t0: real) -> bool {
  smaller(x3, x2, m, n) && fro2(msub(x2, x3), m, n) <= t0 * t0 && is_refl(g.h, g.t, n) && meq(rr(g, n, x3), x4, m, n) && zero_above(g.h, k + 1)
}
pub open spec fn col_pre(ad0: Seq<E>, ad1: Seq<E>, m: int, n: int, k: int, nrm: real, sg: real, t0: real) -> bool {
  0 <= k < m && k < n && t0 >= 0real && nrm * nrm == colsq(ad0, n, k, k, m) && signed(nrm, sg, el(ad0, n, k, k), t0) && housed(ad0, ad1, n, m, k, sg)
}
pub proof fn left_start(ad0: Seq<E>, ad1: Seq<E>, s0: Seq<E>, e0: Seq<E>, m: int, n: int, nrt: int, k: int, nrm: real, sg: real, t0: real)
  requires col_pre(ad0, ad1, m, n, k, nrm, sg, t0),
  ensures
    sg != 0real ==> el(ad1, n, k, k) != 0real,
    ({ let x1 = lcut(mk(ad0, s0, e0, n, nrt, k, k), k, sg); forall|t: int, c: int| k <= t < m && k < c < n ==> #[trigger] x1(t, c) == el(ad1, n, t, c) }),
{
  let x0 = mk(ad0, s0, e0, n, nrt, k, k);
  let x1 = lcut(x0, k, sg);
  col_step(x0, ad0, ad1, m, n, k, nrm, sg, t0);
  assert forall|t: int, c: int| k <= t < m && k < c < n implies #[trigger] x1(t, c) == el(ad1, n, t, c) by { assert(x1(t, c) == x0(t, c)); assert(el(ad1, n, t, c) == el(ad0, n, t, c)); }
}
pub proof fn left_done(ad0: Seq<E>, ad1: Seq<E>, ad2: Seq<E>, s0: Seq<E>, s1: Seq<E>, e0: Seq<E>, e2: Seq<E>, m: int, n: int, nrt: int, k: int, nrm: real, sg: real, t0: real)
  requires
    col_pre(ad0, ad1, m, n, k, nrm, sg, t0), s0.len() == n, s1 == s0.update(k, er(-sg)),
    ({ let f = lrf(ad1, n, m, k, sg); let x1 = lcut(mk(ad0, s0, e0, n, nrt, k, k), k, sg);
      lapplied(ad1, ad2, x1, f, m, n, k, n) && (forall|c: int| k < c < n ==> v(#[trigger] e2[c]) == refl(f.h, f.t, m, colof(x1, c))(k)) }),
    forall|q: int| 0 <= q <= k ==> #[trigger] e2[q] == e0[q],
  ensures
    half_l(mk(ad0, s0, e0, n, nrt, k, k), lcut(mk(ad0, s0, e0, n, nrt, k, k), k, sg), mk(ad2, s1, e2, n, nrt, k, k + 1), lrf(ad1, n, m, k, sg), m, n, k, t0),
    forall|t: int| k <= t < m ==> #[trigger] el(ad2, n, t, k) == (lrf(ad1, n, m, k, sg).h)(t),
    forall|c: int| k < c < n ==> v(#[trigger] e2[c]) == el(ad2, n, k, c),
{
  reveal(half_l);
  let x0 = mk(ad0, s0, e0, n, nrt, k, k);
  let x1 = lcut(x0, k, sg);
  let f = lrf(ad1, n, m, k, sg);
  col_step(x0, ad0, ad1, m, n, k, nrm, sg, t0);
  assert forall|t: int, c: int| 0 <= t < k && 0 <= c < n implies #[trigger] el(ad2, n, t, c) == el(ad0, n, t, c) by { assert(el(ad2, n, t, c) == el(ad1, n, t, c)); assert(el(ad1, n, t, c) == el(ad0, n, t, c)); }
  assert forall|t: int, c: int| k <= t < m && k < c < n implies #[trigger] el(ad2, n, t, c) == refl(f.h, f.t, m, colof(x1, c))(t) by { }
  left_mid(x1, ad0, s0, e0, ad2, s1, e2, m, n, nrt, k, f);
  assert forall|t: int| k <= t < m implies #[trigger] el(ad2, n, t, k) == (f.h)(t) by { assert(el(ad2, n, t, k) == el(ad1, n, t, k)); }
  assert forall|c: int| k < c < n implies v(#[trigger] e2[c]) == el(ad2, n, k, c) by { assert(el(ad2, n, k, c) == refl(f.h, f.t, m, colof(x1, c))(k)); }
}
pub proof fn left_stored(ls: Seq<Rf>, f: Rf, ud0: Seq<E>, ud1: Seq<E>, ad1: Seq<E>, s0: Seq<E>, s1: Seq<E>, m: int, n: int, k: int, sg: real)
  requires
    stored(ls, ud0, s0, m, 0, k), ls.len() == k, 0 <= k < m, k < n, f == lrf(ad1, n, m, k, sg), sg != 0real ==> el(ad1, n, k, k) != 0real,
    filled(ud0, ud1, m, k, m, k, f.h), s0.len() == n, s1 == s0.update(k, er(-sg)),
  ensures stored(ls.push(f), ud1, s1, m, 0, k + 1),
{ reveal(stored);
  assert(store1(f, ud1, s1, m, 0, k)) by {
    assert forall|t: int| 0 <= t < m implies #[trigger] (f.h)(t) == lv(ud1, m, m, k, k)(t) by { assert(el(ud1, m, t, k) == if k <= t < m { (f.h)(t) } else { el(ud0, m, t, k) }); }
    assert(el(ud1, m, k, k) == (f.h)(k));
  }
  stored_push(ls, f, ud0, ud1, s0, s1, m, 0, k);
}
pub open spec fn row_pre(ad2: Seq<E>, e2: Seq<E>, e3: Seq<E>, m: int, n: int, k: int, nrm: real, sg: real, t0: real) -> bool {
  &&& 0 <= k < m && k + 1 < n && t0 >= 0real && (forall|c: int| k < c < n ==> v(#[trigger] e2[c]) == el(ad2, n, k, c))
  &&& nrm * nrm == vecsq(e2, k + 1, n) && signed(nrm, sg, v(e2[k + 1]), t0)
  &&& forall|c: int| k < c < n ==> v(#[trigger] e3[c]) == if sg != 0real { v(e2[c]) / sg + (if c == k + 1 { 1real } else { 0real }) } else { v(e2[c]) }
  &&& v(e3[k]) == -sg
  &&& forall|q: int| 0 <= q < k ==> #[trigger] e3[q] == e2[q]
}
pub proof fn right_start(ad2: Seq<E>, e2: Seq<E>, e3: Seq<E>, s1: Seq<E>, m: int, n: int, nrt: int, k: int, nrm: real, sg: real, t0: real)
  requires row_pre(ad2, e2, e3, m, n, k, nrm, sg, t0),
  ensures sg != 0real ==> v(e3[k + 1]) != 0real,
{
  let x2 = mk(ad2, s1, e2, n, nrt, k, k + 1);
  assert forall|c: int| k < c < n implies x2(k, c) == v(#[trigger] e2[c]) by { }
  row_step(x2, e2, e3, m, n, k, nrm, sg, t0);
}
pub proof fn right_done(ad2: Seq<E>, ad3: Seq<E>, s1: Seq<E>, e2: Seq<E>, e3: Seq<E>, m: int, n: int, nrt: int, k: int, nrm: real, sg: real, t0: real)
  requires
    row_pre(ad2, e2, e3, m, n, k, nrm, sg, t0), k < nrt,
    if sg != 0real { rapplied(ad2, ad3, e3, m, n, k, n, rrf(e3, n, k, sg).t) } else { ad3 == ad2 },
  ensures
    half_r(mk(ad2, s1, e2, n, nrt, k, k + 1), rcut(mk(ad2, s1, e2, n, nrt, k, k + 1), k, sg), mk(ad3, s1, e3, n, nrt, k + 1, k + 1), rrf(e3, n, k, sg), m, n, k, t0),
{
  reveal(half_r);
  let x2 = mk(ad2, s1, e2, n, nrt, k, k + 1);
  let x3 = rcut(x2, k, sg);
  let g = rrf(e3, n, k, sg);
  assert forall|c: int| k < c < n implies x2(k, c) == v(#[trigger] e2[c]) by { }
  row_step(x2, e2, e3, m, n, k, nrm, sg, t0);
  assert forall|t: int, c: int| k < t < m && k < c < n implies #[trigger] x3(t, c) == el(ad2, n, t, c) by { assert(x3(t, c) == x2(t, c)); }
  rapply_refl(ad2, ad3, e3, x3, g, m, n, k, sg);
  right_mid(x3, ad2, s1, e2, ad3, e3, m, n, nrt, k, g);
}
pub proof fn right_stored(rs: Seq<Rf>, g: Rf, vd0: Seq<E>, vd1: Seq<E>, e0: Seq<E>, e3: Seq<E>, n: int, k: int, sg: real)
  requires
    stored(rs, vd0, e0, n, 1, k), rs.len() == k, 0 <= k, k + 1 < n, g == rrf(e3, n, k, sg), sg != 0real ==> v(e3[k + 1]) != 0real, v(e3[k]) == -sg,
    filled(vd0, vd1, n, k + 1, n, k, g.h), forall|q: int| 0 <= q < k ==> #[trigger] e3[q] == e0[q],
  ensures stored(rs.push(g), vd1, e3, n, 1, k + 1),
{ reveal(stored);
  assert(store1(g, vd1, e3, n, 1, k)) by {
    assert forall|t: int| 0 <= t < n implies #[trigger] (g.h)(t) == lv(vd1, n, n, k + 1, k)(t) by { assert(el(vd1, n, t, k) == if k + 1 <= t < n { (g.h)(t) } else { el(vd0, n, t, k) }); }
    assert(el(vd1, n, k + 1, k) == (g.h)(k + 1));
  }
  stored_push(rs, g, vd0, vd1, e0, e3, n, 1, k);
}
pub proof fn right_skip(ad: Seq<E>, s: Seq<E>, e: Seq<E>, m: int, n: int, nrt: int, k: int, t0: real)
  requires 0 <= k < m, k < n, nrt <= k, n - 2 <= nrt,
  ensures half_r(mk(ad, s, e, n, nrt, k, k + 1), mk(ad, s, e, n, nrt, k, k + 1), mk(ad, s, e, n, nrt, k + 1, k + 1), Rf { h: zerov(), t: 0real }, m, n, k, t0),
{
  reveal(half_r);
  let x2 = mk(ad, s, e, n, nrt, k, k + 1);
  uncut_small(x2, m, n, t0);
  right_none(ad, s, e, e, m, n, nrt, k, Rf { h: zerov(), t: 0real });
}
pub proof fn ph_next(a: Mt, ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x0: Mt, x1: Mt, x2: Mt, x3: Mt, x4: Mt, f: Rf, g: Rf, t0: real, f2: real)
  requires
    ph(a, ls, rs, m, n, k, x0, (k + k) as real * t0, f2), 0 <= k, t0 >= 0real, half_l(x0, x1, x2, f, m, n, k, t0), half_r(x2, x3, x4, g, m, n, k, t0),
    ls.len() == k, rs.len() == k, tails(ls, 0), tails(rs, 1),
  ensures ph(a, ls.push(f), rs.push(g), m, n, k + 1, x4, ((k + 1) + (k + 1)) as real * t0, f2), tails(ls.push(f), 0), tails(rs.push(g), 1),
{ reveal(tails);
  reveal(half_l);
  reveal(half_r);
  ph_step(a, ls, rs, m, n, k, x0, x1, x2, x3, x4, f, g, (k + k) as real * t0, t0, f2);
  twice_more(k, t0);
  tails_push(ls, f, 0, k);
  tails_push(rs, g, 1, k);
}
// ---- the reduction is complete
pub proof fn bd_done(ad: Seq<E>, s: Seq<E>, e: Seq<E>, s2: Seq<E>, e2: Seq<E>, m: int, n: int, nct: int, nrt: int)
  requires
    par(m, n, nct, nrt), ad.len() == m * n, s.len() == n, e.len() == n,
    s2 == if nct < n { s.update(nct, ad[nct * n + nct]) } else { s },
    e2 == (if nrt + 1 < n { e.update(nrt, ad[nrt * n + (n - 1)]) } else { e }).update(n - 1, er(0real)),
  ensures meq(mk(ad, s, e, n, nrt, nct, nct), bd(s2, e2), m, n),
{
  let x = mk(ad, s, e, n, nrt, nct, nct);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] x(i, j) == bd(s2, e2)(i, j) by { }
}
pub proof fn stored_x(fs: Seq<Rf>, d: Seq<E>, x0: Seq<E>, x1: Seq<E>, st: int, off: int, k: int)
  requires stored(fs, d, x0, st, off, k), 0 <= off, k + off <= st, forall|q: int| 0 <= q < k ==> #[trigger] x1[q] == x0[q],
  ensures stored(fs, d, x1, st, off, k),
{  reveal(stored); assert forall|c: int| 0 <= c < k implies store1(#[trigger] fs[c], d, x1, st, off, c) by { stored_same(fs[c], d, d, x0, x1, st, off, c); } }
pub proof fn stored_none(d: Seq<E>, x: Seq<E>, st: int, off: int)
  ensures stored(Seq::empty(), d, x, st, off, 0), tails(Seq::empty(), off),
{ reveal(stored); reveal(tails); }
pub proof fn stored_at(fs: Seq<Rf>, d: Seq<E>, x: Seq<E>, st: int, off: int, k: int, c: int)
  requires stored(fs, d, x, st, off, k), 0 <= c < k,
  ensures store1(fs[c], d, x, st, off, c),
{ reveal(stored); }
// ---- generation of the factors
pub open spec fn cleared(d0: Seq<E>, d1: Seq<E>, st: int, i: int, k: int) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == k && t < i { 0real } else { el(d0, st, t, c) }
}
pub proof fn cleared_step(d0: Seq<E>, d1: Seq<E>, st: int, i: int, k: int, x: E)
  requires cleared(d0, d1, st, i, k), 0 <= i < st, 0 <= k < st, d0.len() == st * st, v(x) == 0real,
  ensures cleared(d0, d1.update(i * st + k, x), st, i + 1, k),
{ el_update(d1, st, st, i, k, x); }
// column k becomes a unit vector
pub open spec fn united(d0: Seq<E>, d1: Seq<E>, st: int, k: int) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == k { kd(t, k) } else { el(d0, st, t, c) }
}
pub proof fn united_done(d0: Seq<E>, d1: Seq<E>, st: int, k: int, x: E)
  requires cleared(d0, d1, st, st, k), 0 <= k < st, d0.len() == st * st, v(x) == 1real,
  ensures united(d0, d1.update(k * st + k, x), st, k),
{  reveal(genned); reveal(genapp); el_update(d1, st, st, k, k, x); }
// columns from i on are those of the product of the reflections, the others still hold the reflections
#[verifier::opaque]
pub open spec fn genned(fs: Seq<Rf>, base: Seq<E>, d: Seq<E>, st: int, i: int) -> bool {
  d.len() == base.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d, st, t, c) == if c >= i { gen(fs, st, i)(t, c) } else { el(base, st, t, c) }
}
#[verifier::opaque]
pub open spec fn genapp(fs: Seq<Rf>, base: Seq<E>, d: Seq<E>, st: int, k: int, j: int) -> bool {
  d.len() == base.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d, st, t, c) == if c <= k { el(base, st, t, c) } else if c < j { gen(fs, st, k)(t, c) } else { gen(fs, st, k + 1)(t, c) }
}
pub proof fn genapp_step(fs: Seq<Rf>, base: Seq<E>, dc: Seq<E>, d1: Seq<E>, x: Seq<E>, st: int, off: int, k: int, j: int, tt: real)
  requires
    genapp(fs, base, dc, st, k, j), 0 <= k < fs.len(), 0 <= off, k + off < st, k < j < st, store1(fs[k], base, x, st, off, k), v(x[k]) != 0real,
    axpyd(dc, d1, st, st, k + off, st, k, j, tt), tt == -(fs[k].t * coldot(dc, st, k, j, k + off, st)),
  ensures genapp(fs, base, d1, st, k, j + 1),
{ reveal(genapp);
  let f = fs[k];
  let y = colof(gen(fs, st, k + 1), j);
  let lo = k + off;
  assert forall|t: int| 0 <= t < st implies #[trigger] (f.h)(t) == (if t >= lo { el(dc, st, t, k) } else { 0real }) by {
    assert((f.h)(t) == lv(base, st, st, lo, k)(t));
    assert(el(dc, st, t, k) == el(base, st, t, k));
  }
  assert forall|t: int| lo <= t < st implies #[trigger] y(t) == el(dc, st, t, j) by { }
  axpyd_refl(dc, d1, st, st, lo, k, j, tt, f.h, f.t, y);
  assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] el(d1, st, t, c) == (if c <= k { el(base, st, t, c) } else if c < j + 1 { gen(fs, st, k)(t, c) } else { gen(fs, st, k + 1)(t, c) }) by {
    assert(el(dc, st, t, c) == if c <= k { el(base, st, t, c) } else if c < j { gen(fs, st, k)(t, c) } else { gen(fs, st, k + 1)(t, c) });
    if c == j {
      assert(gen(fs, st, k)(t, j) == refl(f.h, f.t, st, y)(t));
      if t >= lo { assert(refl(f.h, f.t, st, y)(t) == el(d1, st, t, j)); } else { refl_off(f.h, f.t, st, y, t); }
    }
  }
}
pub proof fn genapp_at(fs: Seq<Rf>, base: Seq<E>, d: Seq<E>, st: int, k: int, j: int, t: int)
  requires genapp(fs, base, d, st, k, j), 0 <= t < st, 0 <= k < st,
  ensures el(d, st, t, k) == el(base, st, t, k),
{ reveal(genapp); }
pub proof fn genapp_begin(fs: Seq<Rf>, base: Seq<E>, d: Seq<E>, st: int, k: int)
  requires genned(fs, base, d, st, k + 1),
  ensures genapp(fs, base, d, st, k, k + 1),
{ reveal(genned); reveal(genapp); }
// a reflection that does nothing
pub proof fn gen_none(fs: Seq<Rf>, st: int, k: int)
  requires k >= fs.len() || 0 <= k && fs[k].t == 0real,
  ensures forall|t: int, c: int| #[trigger] gen(fs, st, k)(t, c) == gen(fs, st, k + 1)(t, c),
{
  assert forall|t: int, c: int| #[trigger] gen(fs, st, k)(t, c) == gen(fs, st, k + 1)(t, c) by {
    if k < fs.len() { refl_off(fs[k].h, fs[k].t, st, colof(gen(fs, st, k + 1), c), t); }
  }
}
pub proof fn genapp_none(fs: Seq<Rf>, base: Seq<E>, d: Seq<E>, st: int, k: int)
  requires genned(fs, base, d, st, k + 1), k >= fs.len() || 0 <= k && fs[k].t == 0real,
  ensures genapp(fs, base, d, st, k, st),
{ reveal(genned); reveal(genapp);
  gen_none(fs, st, k);
  assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] el(d, st, t, c) == (if c <= k { el(base, st, t, c) } else if c < st { gen(fs, st, k)(t, c) } else { gen(fs, st, k + 1)(t, c) }) by { }
}
// column k gets finished too
pub proof fn genned_next(fs: Seq<Rf>, base: Seq<E>, d0: Seq<E>, d1: Seq<E>, st: int, k: int)
  requires
    genapp(fs, base, d0, st, k, st), d1.len() == d0.len(),
    forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == k { gen(fs, st, k)(t, k) } else { el(d0, st, t, c) },
  ensures genned(fs, base, d1, st, k),
{ reveal(genned); reveal(genapp);
  assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] el(d1, st, t, c) == (if c >= k { gen(fs, st, k)(t, c) } else { el(base, st, t, c) }) by {
    assert(el(d0, st, t, c) == if c <= k { el(base, st, t, c) } else if c < st { gen(fs, st, k)(t, c) } else { gen(fs, st, k + 1)(t, c) });
  }
}
pub proof fn genned_unit(fs: Seq<Rf>, base: Seq<E>, d0: Seq<E>, d1: Seq<E>, st: int, off: int, k: int)
  requires
    genapp(fs, base, d0, st, k, st), 0 <= k < st, united(d0, d1, st, k), tails(fs, off), 0 <= off,
    off == 1 || off == 0 && 0 <= k < fs.len() && fs[k].t == 0real,
  ensures genned(fs, base, d1, st, k),
{ reveal(tails); reveal(genned); reveal(genapp);
  if off == 1 { gen_unit(fs, st, 1, k, k); } else { gen_none(fs, st, k); gen_unit(fs, st, 0, k + 1, k); }
  assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] el(d1, st, t, c) == (if c == k { gen(fs, st, k)(t, k) } else { el(d0, st, t, c) }) by {
    if c == k { assert(gen(fs, st, k)(t, k) == kd(t, k)); }
  }
  genned_next(fs, base, d0, d1, st, k);
}
// column k of the product, written from the reflection (which starts in row k)
pub open spec fn negated(d0: Seq<E>, d1: Seq<E>, st: int, lo: int, i: int, k: int) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c == k && lo <= t < i { -el(d0, st, t, c) } else { el(d0, st, t, c) }
}
pub proof fn negated_step(d0: Seq<E>, d1: Seq<E>, st: int, lo: int, i: int, k: int, x: E)
  requires negated(d0, d1, st, lo, i, k), 0 <= lo <= i < st, 0 <= k < st, d0.len() == st * st, v(x) == -el(d1, st, i, k),
  ensures negated(d0, d1.update(i * st + k, x), st, lo, i + 1, k),
{ el_update(d1, st, st, i, k, x); assert(el(d1, st, i, k) == el(d0, st, i, k)); }
pub proof fn genned_col(fs: Seq<Rf>, base: Seq<E>, d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, x: Seq<E>, st: int, k: int, y: E)
  requires
    genapp(fs, base, d0, st, k, st), 0 <= k < st, k < fs.len(), tails(fs, 0), store1(fs[k], base, x, st, 0, k), v(x[k]) != 0real, d0.len() == st * st,
    negated(d0, d1, st, k, st, k), v(y) == 1real + el(d1, st, k, k), cleared(d1.update(k * st + k, y), d2, st, k, k),
  ensures genned(fs, base, d2, st, k),
{ reveal(tails); reveal(genned); reveal(genapp);
  let f = fs[k];
  el_update(d1, st, st, k, k, y);
  gen_unit(fs, st, 0, k + 1, k);
  let u = colof(gen(fs, st, k + 1), k);
  assert forall|t: int| 0 <= t < st implies #[trigger] u(t) == unit(k)(t) by { assert(gen(fs, st, k + 1)(t, k) == kd(t, k)); }
  dot_ext(f.h, f.h, u, unit(k), st);
  dot_unit(f.h, k, st);
  let hk = (f.h)(k);
  assert(hk == lv(base, st, st, k, k)(k));
  assert((1real / hk) * hk == 1real) by (nonlinear_arith) requires hk != 0real;
  assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] el(d2, st, t, c) == (if c == k { gen(fs, st, k)(t, k) } else { el(d0, st, t, c) }) by {
    assert(el(d1.update(k * st + k, y), st, t, c) == if t == k && c == k { v(y) } else { el(d1, st, t, c) });
    assert(el(d1, st, t, c) == if c == k && k <= t < st { -el(d0, st, t, c) } else { el(d0, st, t, c) });
    if c == k {
      assert(el(d0, st, t, k) == el(base, st, t, k));
      assert((f.h)(t) == lv(base, st, st, k, k)(t));
      let h = (f.h)(t);
      assert(gen(fs, st, k)(t, k) == u(t) - (f.t * vdot(f.h, u, st)) * h);
      assert(1real * h == h) by (nonlinear_arith);
    }
  }
  genned_next(fs, base, d0, d2, st, k);
}
pub proof fn gen_start(fs: Seq<Rf>, d0: Seq<E>, d1: Seq<E>, st: int, i: int)
  requires i >= fs.len(), d1.len() == d0.len(), forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if c >= i { kd(t, c) } else { el(d0, st, t, c) },
  ensures genned(fs, d0, d1, st, i),
{  reveal(genned); }
pub proof fn gen_end(fs: Seq<Rf>, base: Seq<E>, d: Seq<E>, st: int)
  requires genned(fs, base, d, st, 0),
  ensures meq(elm(d, st), gen(fs, st, 0), st, st),
{  reveal(genned); assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] elm(d, st)(t, c) == gen(fs, st, 0)(t, c) by { assert(el(d, st, t, c) == gen(fs, st, 0)(t, c)); } }
#[verifier::opaque]
pub open spec fn unitcols(d0: Seq<E>, d1: Seq<E>, st: int, lo: int, j: int) -> bool {
  d1.len() == d0.len() && forall|t: int, c: int| 0 <= t < st && 0 <= c < st ==> #[trigger] el(d1, st, t, c) == if lo <= c < j { kd(t, c) } else { el(d0, st, t, c) }
}
pub proof fn unitcols_none(d0: Seq<E>, st: int, lo: int)
  ensures unitcols(d0, d0, st, lo, lo),
{ reveal(unitcols); }
pub proof fn unitcols_step(d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, st: int, lo: int, j: int)
  requires unitcols(d0, d1, st, lo, j), united(d1, d2, st, j), lo <= j < st,
  ensures unitcols(d0, d2, st, lo, j + 1),
{
  reveal(unitcols);
  assert forall|t: int, c: int| 0 <= t < st && 0 <= c < st implies #[trigger] el(d2, st, t, c) == (if lo <= c < j + 1 { kd(t, c) } else { el(d0, st, t, c) }) by {
    assert(el(d1, st, t, c) == if lo <= c < j { kd(t, c) } else { el(d0, st, t, c) });
  }
}
pub proof fn gen_units(fs: Seq<Rf>, d0: Seq<E>, d1: Seq<E>, st: int, i: int)
  requires i >= fs.len(), unitcols(d0, d1, st, i, st),
  ensures genned(fs, d0, d1, st, i),
{ reveal(unitcols); gen_start(fs, d0, d1, st, i); }
pub proof fn gen_none_yet(fs: Seq<Rf>, d: Seq<E>, st: int)
  requires st >= fs.len(),
  ensures genned(fs, d, d, st, st),
{ gen_start(fs, d, d, st, st); }
// ---- the start of the iteration
pub proof fn ms_begin(a: Mt, ls: Seq<Rf>, rs: Seq<Rf>, ud: Seq<E>, vd: Seq<E>, x: Mt, s: Seq<E>, e: Seq<E>, m: int, n: int, k: int, th: real, f2: real)
  requires
    ph(a, ls, rs, m, n, k, x, (k + k) as real * tiny0(), f2), meq(x, bd(s, e), m, n), meq(elm(ud, m), gen(ls, m, 0), m, m), meq(elm(vd, n), gen(rs, n, 0), n, n),
    0 <= k <= n, th >= tiny0(), tiny0() >= 0real,
  ensures ms(a, ud, vd, bd(s, e), m, n, budget(n, e, th), f2),
{
  let t0 = tiny0();
  ms_start(a, ls, rs, ud, vd, x, bd(s, e), m, n, k, (k + k) as real * t0, f2);
  nz_le(e, e, n);
  let (p, q) = ((k + k) as real, (3 * n - nz(e, n)) as real);
  assert(p * t0 <= q * th) by (nonlinear_arith) requires 0real <= p <= q, 0real <= t0 <= th;
  ms_ext(a, ud, vd, bd(s, e), bd(s, e), m, n, (k + k) as real * t0, budget(n, e, th), f2);
}
// no element exceeds the norm
pub proof fn entries(a: Mt, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, m: int, n: int, w: real, f2: real, fr: real, p: int)
  requires ms(a, ud, vd, bd(s, e), m, n, w, f2), 0 < n <= m, fr >= 0real, fr * fr == f2, zeros(e, p, n), p < n,
  ensures
    forall|i: int| 0 <= i < n ==> rabs(v(#[trigger] s[i])) <= fr,
    forall|i: int| 0 <= i < n ==> rabs(v(#[trigger] e[i])) <= fr,
{
  assert forall|i: int| 0 <= i < n implies rabs(v(#[trigger] s[i])) <= fr by { ms_entry(a, ud, vd, bd(s, e), m, n, w, f2, fr, i, i); }
  assert forall|i: int| 0 <= i < n implies rabs(v(#[trigger] e[i])) <= fr by { if i + 1 < n { ms_entry(a, ud, vd, bd(s, e), m, n, w, f2, fr, i, i + 1); } else { assert(v(e[i]) == 0real); } }
}
pub proof fn begin_it(fa: Mt, ls: Seq<Rf>, rs: Seq<Rf>, uda: Seq<E>, vda: Seq<E>, ud: Seq<E>, vd: Seq<E>, xa: Mt, s: Seq<E>, e: Seq<E>, m: int, n: int, k: int, f2: real)
  requires
    ph(fa, ls, rs, m, n, k, xa, (k + k) as real * tiny0(), f2), meq(xa, bd(s, e), m, n), genned(ls, uda, ud, m, 0), genned(rs, vda, vd, n, 0),
    0 <= k <= n, 0 < n <= m, f2 == fro2(fa, m, n), v(e[n - 1]) == 0real,
  ensures
    ms(fa, ud, vd, bd(s, e), m, n, budget(n, e, thr(rsqrt(f2))), f2), rsqrt(f2) >= 0real, rsqrt(f2) * rsqrt(f2) == f2, thr(rsqrt(f2)) >= 0real,
    forall|i: int| 0 <= i < n ==> rabs(v(#[trigger] s[i])) <= rsqrt(f2),
    forall|i: int| 0 <= i < n ==> rabs(v(#[trigger] e[i])) <= rsqrt(f2),
{
  let fr = rsqrt(f2);
  let th = thr(fr);
  fro_nonneg(fa, m, n);
  rsqrt_def(f2);
  thr_nonneg(fr);
  tiny_nonneg();
  gen_end(ls, uda, ud, m);
  gen_end(rs, vda, vd, n);
  ms_begin(fa, ls, rs, ud, vd, xa, s, e, m, n, k, th, f2);
  entries(fa, ud, vd, s, e, m, n, budget(n, e, th), f2, fr, n - 1);
}
pub proof fn tiny_small(z: real, fr: real)
  requires 0real <= z <= fr,
  ensures 0real <= tiny0() + r_epsilon() * (r_epsilon() * z) <= tiny0() + r_epsilon() * (r_epsilon() * fr), r_epsilon() > 0real,
{
  tiny_nonneg();
  let ep = r_epsilon();
  assert(ep * z <= ep * fr) by (nonlinear_arith) requires ep > 0real, z <= fr;
  assert(ep * z >= 0real) by (nonlinear_arith) requires ep > 0real, z >= 0real;
  let (y, y2) = (ep * z, ep * fr);
  assert(ep * y <= ep * y2) by (nonlinear_arith) requires ep > 0real, y <= y2;
  assert(ep * y >= 0real) by (nonlinear_arith) requires ep > 0real, y >= 0real;
}
}
pub use svp::*;
