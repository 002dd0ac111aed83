// ---------------------------------------------------------------- singular value decomposition: the argument
pub mod svl {
use super::*;
// ---- phase 1: reduction to bidiagonal form
// column k of a buffer (stride st) from row lo on
pub open spec fn lv(d: Seq<E>, st: int, m: int, lo: int, k: int) -> Vc { |i: int| if lo <= i < m { el(d, st, i, k) } else { 0real } }
// bidiagonal: diagonal s, superdiagonal e
pub open spec fn bd(s: Seq<E>, e: Seq<E>) -> Mt { |r: int, c: int| if r == c { v(s[r]) } else if c == r + 1 { v(e[r]) } else { 0real } }
// the partly reduced matrix: rows < rk and columns < ck are finished
pub open spec fn mk(ad: Seq<E>, s: Seq<E>, e: Seq<E>, n: int, nrt: int, rk: int, ck: int) -> Mt {
  |r: int, c: int| if r < rk || c < ck { if r == c { v(s[r]) } else if c == r + 1 { if r < nrt { v(e[r]) } else { el(ad, n, r, c) } } else { 0real } } else { el(ad, n, r, c) }
}
// x with column k zeroed from row lo on
pub open spec fn cutc(x: Mt, k: int, lo: int) -> Mt { |r: int, c: int| if c == k && r >= lo { 0real } else { x(r, c) } }
pub open spec fn cutr(x: Mt, k: int, lo: int) -> Mt { |r: int, c: int| if r == k && c >= lo { 0real } else { x(r, c) } }
pub proof fn fro_col(x: Mt, m: int, n: int, k: int, lo: int)
  requires 0 <= k < n, 0 <= lo <= m, forall|i: int, c: int| 0 <= i < m && 0 <= c < n && !(c == k && i >= lo) ==> #[trigger] x(i, c) == 0real,
  ensures fro2(x, m, n) == sum(|t: int| x(t, k) * x(t, k), lo, m),
{
  let f = |c: int| vdot(colof(x, c), colof(x, c), m);
  assert forall|c: int| 0 <= c < n && c != k implies #[trigger] f(c) == 0real by {
    let g = |t: int| colof(x, c)(t) * colof(x, c)(t);
    assert forall|t: int| 0 <= t < m implies #[trigger] g(t) == 0real by { assert(x(t, c) == 0real); assert(0real * 0real == 0real) by (nonlinear_arith); }
    sum_zero(g, 0, m);
  }
  sum_single(f, 0, n, k);
  assert forall|t: int| 0 <= t < lo implies #[trigger] colof(x, k)(t) == 0real by { assert(x(t, k) == 0real); }
  dot_tail(colof(x, k), colof(x, k), lo, m);
  let g = |t: int| colof(x, k)(t) * colof(x, k)(t);
  let h = |t: int| x(t, k) * x(t, k);
  sum_ext(g, h, lo, m);
}
pub proof fn fro_zero(x: Mt, m: int, n: int)
  requires forall|i: int, c: int| 0 <= i < m && 0 <= c < n ==> #[trigger] x(i, c) == 0real,
  ensures fro2(x, m, n) == 0real,
{
  let f = |c: int| vdot(colof(x, c), colof(x, c), m);
  assert forall|c: int| 0 <= c < n implies #[trigger] f(c) == 0real by {
    let g = |t: int| colof(x, c)(t) * colof(x, c)(t);
    assert forall|t: int| 0 <= t < m implies #[trigger] g(t) == 0real by { assert(x(t, c) == 0real); assert(0real * 0real == 0real) by (nonlinear_arith); }
    sum_zero(g, 0, m);
  }
  sum_zero(f, 0, n);
}
// what a cut removes
pub proof fn cutc_small(x: Mt, m: int, n: int, k: int, lo: int, q: real, t0: real)
  requires 0 <= k < n, 0 <= lo <= m, q == sum(|t: int| x(t, k) * x(t, k), lo, m), q <= t0 * t0,
  ensures fro2(msub(x, cutc(x, k, lo)), m, n) <= t0 * t0, smaller(cutc(x, k, lo), x, m, n),
{
  let d = msub(x, cutc(x, k, lo));
  fro_col(d, m, n, k, lo);
  let f = |t: int| d(t, k) * d(t, k);
  let g = |t: int| x(t, k) * x(t, k);
  sum_ext(f, g, lo, m);
}
pub proof fn cutr_small(x: Mt, m: int, n: int, k: int, lo: int, q: real, t0: real)
  requires 0 <= k < m, 0 <= lo <= n, q == sum(|t: int| x(k, t) * x(k, t), lo, n), q <= t0 * t0,
  ensures fro2(msub(x, cutr(x, k, lo)), m, n) <= t0 * t0, smaller(cutr(x, k, lo), x, m, n),
{
  let d = msub(x, cutr(x, k, lo));
  fro_tr(d, m, n);
  fro_col(tr(d), n, m, k, lo);
  let f = |t: int| tr(d)(t, k) * tr(d)(t, k);
  let g = |t: int| x(k, t) * x(k, t);
  sum_ext(f, g, lo, n);
}
pub proof fn uncut_small(x: Mt, m: int, n: int, t0: real)
  ensures fro2(msub(x, x), m, n) <= t0 * t0, smaller(x, x, m, n),
{
  fro_zero(msub(x, x), m, n);
  assert(t0 * t0 >= 0real) by (nonlinear_arith);
}
// a column orthogonal to h because their supports are disjoint
pub proof fn refl_disjoint(h: Vc, tau: real, m: int, x: Vc, lo: int)
  requires forall|t: int| 0 <= t < lo ==> #[trigger] h(t) == 0real, forall|t: int| lo <= t < m ==> #[trigger] x(t) == 0real,
  ensures veq(refl(h, tau, m, x), x, m),
{
  let f = |s: int| h(s) * x(s);
  assert forall|s: int| 0 <= s < m implies #[trigger] f(s) == 0real by {
    let (p, q) = (h(s), x(s));
    if s < lo { assert(p == 0real); assert(0real * q == 0real) by (nonlinear_arith); } else { assert(q == 0real); assert(p * 0real == 0real) by (nonlinear_arith); }
  }
  sum_zero(f, 0, m);
  assert forall|i: int| 0 <= i < m implies #[trigger] refl(h, tau, m, x)(i) == x(i) by { let b = h(i); assert((tau * 0real) * b == 0real) by (nonlinear_arith); }
}
// the reflection does nothing where h is zero
pub proof fn refl_off(h: Vc, tau: real, m: int, x: Vc, i: int)
  requires h(i) == 0real || tau == 0real,
  ensures refl(h, tau, m, x)(i) == x(i),
{
  let (p, q) = (vdot(h, x, m), h(i));
  if tau == 0real { assert((0real * p) * q == 0real) by (nonlinear_arith); } else { let z = tau * p; assert(z * 0real == 0real) by (nonlinear_arith); }
}
pub open spec fn zero_above(h: Vc, lo: int) -> bool { forall|t: int| 0 <= t < lo ==> #[trigger] h(t) == 0real }
pub proof fn left_mid(x: Mt, ad0: Seq<E>, s0: Seq<E>, e0: Seq<E>, ad1: Seq<E>, s1: Seq<E>, e1: Seq<E>, m: int, n: int, nrt: int, k: int, f: Rf)
  requires
    0 <= k < m, k < n, zero_above(f.h, k),
    forall|t: int, c: int| 0 <= t < m && 0 <= c < n && (t < k || c != k) ==> #[trigger] x(t, c) == mk(ad0, s0, e0, n, nrt, k, k)(t, c),
    forall|t: int| 0 <= t < m ==> #[trigger] refl(f.h, f.t, m, colof(x, k))(t) == (if t < k { x(t, k) } else if t == k { v(s1[k]) } else { 0real }),
    forall|t: int, c: int| 0 <= t < k && 0 <= c < n ==> #[trigger] el(ad1, n, t, c) == el(ad0, n, t, c),
    forall|t: int, c: int| k <= t < m && k < c < n ==> #[trigger] el(ad1, n, t, c) == refl(f.h, f.t, m, colof(x, c))(t),
    forall|q: int| 0 <= q < k ==> #[trigger] s1[q] == s0[q],
    forall|q: int| 0 <= q < k ==> #[trigger] e1[q] == e0[q],
  ensures meq(lr(f, m, x), mk(ad1, s1, e1, n, nrt, k, k + 1), m, n),
{
  let y = mk(ad1, s1, e1, n, nrt, k, k + 1);
  assert forall|t: int, c: int| 0 <= t < m && 0 <= c < n implies #[trigger] lr(f, m, x)(t, c) == y(t, c) by {
    if t < k || c != k { assert(x(t, c) == mk(ad0, s0, e0, n, nrt, k, k)(t, c)); }
    if t < k { assert(el(ad1, n, t, c) == el(ad0, n, t, c)); assert(s1[t] == s0[t]); assert(e1[t] == e0[t]); }
    if c < k {
      assert forall|i: int| k <= i < m implies #[trigger] colof(x, c)(i) == 0real by { assert(x(i, c) == mk(ad0, s0, e0, n, nrt, k, k)(i, c)); }
      refl_disjoint(f.h, f.t, m, colof(x, c), k);
      assert(refl(f.h, f.t, m, colof(x, c))(t) == x(t, c));
    } else if c == k {
      assert(refl(f.h, f.t, m, colof(x, k))(t) == (if t < k { x(t, k) } else if t == k { v(s1[k]) } else { 0real }));
    } else if t < k {
      refl_off(f.h, f.t, m, colof(x, c), t);
    } else { assert(el(ad1, n, t, c) == refl(f.h, f.t, m, colof(x, c))(t)); }
  }
}
pub proof fn right_mid(x: Mt, ad1: Seq<E>, s: Seq<E>, e0: Seq<E>, ad2: Seq<E>, e1: Seq<E>, m: int, n: int, nrt: int, k: int, g: Rf)
  requires
    0 <= k < m, k + 1 < n, k < nrt, zero_above(g.h, k + 1),
    forall|t: int, c: int| 0 <= t < m && 0 <= c < n && (t != k || c <= k) ==> #[trigger] x(t, c) == mk(ad1, s, e0, n, nrt, k, k + 1)(t, c),
    forall|c: int| 0 <= c < n ==> #[trigger] refl(g.h, g.t, n, colof(tr(x), k))(c) == (if c < k + 1 { x(k, c) } else if c == k + 1 { v(e1[k]) } else { 0real }),
    forall|t: int, c: int| 0 <= t <= k && 0 <= c < n ==> #[trigger] el(ad2, n, t, c) == el(ad1, n, t, c),
    forall|t: int, c: int| k < t < m && k < c < n ==> #[trigger] el(ad2, n, t, c) == refl(g.h, g.t, n, colof(tr(x), t))(c),
    forall|q: int| 0 <= q < k ==> #[trigger] e1[q] == e0[q],
  ensures meq(rr(g, n, x), mk(ad2, s, e1, n, nrt, k + 1, k + 1), m, n),
{
  let y = mk(ad2, s, e1, n, nrt, k + 1, k + 1);
  assert forall|t: int, c: int| 0 <= t < m && 0 <= c < n implies #[trigger] rr(g, n, x)(t, c) == y(t, c) by {
    let row = colof(tr(x), t);
    if t != k || c <= k { assert(x(t, c) == mk(ad1, s, e0, n, nrt, k, k + 1)(t, c)); }
    if t <= k { assert(el(ad2, n, t, c) == el(ad1, n, t, c)); if t < k { assert(e1[t] == e0[t]); } }
    if t < k {
      assert forall|i: int| k + 1 <= i < n implies #[trigger] row(i) == 0real by { assert(x(t, i) == mk(ad1, s, e0, n, nrt, k, k + 1)(t, i)); }
      refl_disjoint(g.h, g.t, n, row, k + 1);
      assert(refl(g.h, g.t, n, row)(c) == x(t, c));
    } else if t == k {
      assert(refl(g.h, g.t, n, row)(c) == (if c < k + 1 { x(k, c) } else if c == k + 1 { v(e1[k]) } else { 0real }));
    } else if c <= k {
      refl_off(g.h, g.t, n, row, c);
    } else { assert(el(ad2, n, t, c) == refl(g.h, g.t, n, row)(c)); }
  }
}
pub proof fn right_none(ad: Seq<E>, s: Seq<E>, e0: Seq<E>, e1: Seq<E>, m: int, n: int, nrt: int, k: int, g: Rf)
  requires 0 <= k < m, k < n, nrt <= k, n - 2 <= nrt, g.t == 0real, forall|q: int| 0 <= q < k ==> #[trigger] e1[q] == e0[q],
  ensures meq(rr(g, n, mk(ad, s, e0, n, nrt, k, k + 1)), mk(ad, s, e1, n, nrt, k + 1, k + 1), m, n),
{
  let x = mk(ad, s, e0, n, nrt, k, k + 1);
  assert forall|t: int, c: int| 0 <= t < m && 0 <= c < n implies #[trigger] rr(g, n, x)(t, c) == mk(ad, s, e1, n, nrt, k + 1, k + 1)(t, c) by {
    refl_off(g.h, g.t, n, colof(tr(x), t), c);
    if t < k { assert(e1[t] == e0[t]); }
  }
}
#[verifier::opaque]
pub open spec fn ph(a: Mt, ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x: Mt, w: real, f2: real) -> bool {
  near(a, unf(ls, rs, m, n, k, x), m, n, w) && fro2(x, m, n) <= f2 && refls(ls, m) && refls(rs, n) && ls.len() == k && rs.len() == k
}
pub proof fn ph_start(a: Mt, m: int, n: int, x: Mt)
  requires meq(a, x, m, n),
  ensures ph(a, Seq::<Rf>::empty(), Seq::<Rf>::empty(), m, n, 0, x, 0real, fro2(a, m, n)),
{
  reveal(ph);
  fro_ext(a, x, m, n);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] a(i, j) - unf(Seq::<Rf>::empty(), Seq::<Rf>::empty(), m, n, 0, x)(i, j)) <= 0real by { assert(a(i, j) == x(i, j)); }
}
pub proof fn ph_step(a: Mt, ls: Seq<Rf>, rs: Seq<Rf>, m: int, n: int, k: int, x: Mt, x1: Mt, x2: Mt, x3: Mt, x4: Mt, f: Rf, g: Rf, w: real, t0: real, f2: real)
  requires
    ph(a, ls, rs, m, n, k, x, w, f2), 0 <= k, t0 >= 0real,
    smaller(x1, x, m, n), fro2(msub(x, x1), m, n) <= t0 * t0,
    is_refl(f.h, f.t, m), meq(lr(f, m, x1), x2, m, n),
    smaller(x3, x2, m, n), fro2(msub(x2, x3), m, n) <= t0 * t0,
    is_refl(g.h, g.t, n), meq(rr(g, n, x3), x4, m, n),
  ensures ph(a, ls.push(f), rs.push(g), m, n, k + 1, x4, w + t0 + t0, f2),
{
  reveal(ph);
  let (lp, rp) = (ls.push(f), rs.push(g));
  // drop x - x1
  unf_sub(ls, rs, m, n, k, x, x1);
  unf_fro(ls, rs, m, n, k, msub(x, x1));
  fro_small(unf(ls, rs, m, n, k, msub(x, x1)), m, n, t0);
  near_sub(a, unf(ls, rs, m, n, k, x), unf(ls, rs, m, n, k, x1), unf(ls, rs, m, n, k, msub(x, x1)), m, n, w, t0);
  fro_drop(x, x1, m, n);
  // x1 = lr(f, x2)
  lr_fro(f, m, n, x1);
  fro_ext(lr(f, m, x1), x2, m, n);
  lr_lr(f, m, n, x1);
  lr_ext(f, m, n, lr(f, m, x1), x2);
  let y1 = lr(f, m, x2);
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] x1(i, c) == y1(i, c) by { assert(lr(f, m, lr(f, m, x1))(i, c) == x1(i, c)); assert(lr(f, m, lr(f, m, x1))(i, c) == y1(i, c)); }
  unf_ext(ls, rs, ls, rs, m, n, k, x1, y1);
  // drop x2 - x3 inside
  let y3 = lr(f, m, x3);
  let d = msub(y1, y3);
  lr_sub(f, m, n, x2, x3);
  lr_fro(f, m, n, msub(x2, x3));
  fro_ext(lr(f, m, msub(x2, x3)), d, m, n);
  unf_sub(ls, rs, m, n, k, y1, y3);
  unf_fro(ls, rs, m, n, k, d);
  fro_small(unf(ls, rs, m, n, k, d), m, n, t0);
  fro_drop(x2, x3, m, n);
  assert(near(a, unf(ls, rs, m, n, k, y1), m, n, w + t0)) by {
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] a(i, j) - unf(ls, rs, m, n, k, y1)(i, j)) <= w + t0 by {
      assert(unf(ls, rs, m, n, k, x1)(i, j) == unf(ls, rs, m, n, k, y1)(i, j));
      assert(rabs(a(i, j) - unf(ls, rs, m, n, k, x1)(i, j)) <= w + t0);
    }
  }
  near_sub(a, unf(ls, rs, m, n, k, y1), unf(ls, rs, m, n, k, y3), unf(ls, rs, m, n, k, d), m, n, w + t0, t0);
  // x3 = rr(g, x4)
  rr_fro(g, m, n, x3);
  fro_ext(rr(g, n, x3), x4, m, n);
  rr_rr(g, m, n, x3);
  rr_ext(g, m, n, rr(g, n, x3), x4);
  let y4 = rr(g, n, x4);
  assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] x3(i, c) == y4(i, c) by { assert(rr(g, n, rr(g, n, x3))(i, c) == x3(i, c)); assert(rr(g, n, rr(g, n, x3))(i, c) == y4(i, c)); }
  lr_ext(f, m, n, x3, y4);
  unf_ext(ls, rs, lp, rp, m, n, k, y3, lr(f, m, y4));
  assert(lp[k] == f && rp[k] == g);
  assert(unf(lp, rp, m, n, k + 1, x4) == unf(lp, rp, m, n, k, lr(f, m, y4)));
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] a(i, j) - unf(lp, rp, m, n, k + 1, x4)(i, j)) <= w + t0 + t0 by {
    assert(unf(ls, rs, m, n, k, y3)(i, j) == unf(lp, rp, m, n, k, lr(f, m, y4))(i, j));
    assert(rabs(a(i, j) - unf(ls, rs, m, n, k, y3)(i, j)) <= w + t0 + t0);
  }
  assert forall|q: int| 0 <= q < k + 1 implies is_refl((#[trigger] lp[q]).h, lp[q].t, m) by { if q < k { assert(lp[q] == ls[q]); } }
  assert forall|q: int| 0 <= q < k + 1 implies is_refl((#[trigger] rp[q]).h, rp[q].t, n) by { if q < k { assert(rp[q] == rs[q]); } }
}
// the reflections are the ones stored in the buffer
#[verifier::opaque]
pub open spec fn stored(fs: Seq<Rf>, d: Seq<E>, x: Seq<E>, st: int, off: int, k: int) -> bool {
  forall|c: int| 0 <= c < k ==> store1(#[trigger] fs[c], d, x, st, off, c)
}
pub open spec fn store1(f: Rf, d: Seq<E>, x: Seq<E>, st: int, off: int, c: int) -> bool {
  &&& veq(f.h, lv(d, st, st, c + off, c), st)
  &&& if v(x[c]) != 0real { el(d, st, c + off, c) != 0real && f.t == 1real / el(d, st, c + off, c) } else { f.t == 0real }
}
// gen(fs, k) leaves the unit vectors of earlier rows alone
pub proof fn gen_unit(fs: Seq<Rf>, m: int, off: int, k: int, c: int)
  requires 0 <= k, 0 <= c < k + off, 0 <= off, c < m, forall|q: int| 0 <= q < fs.len() ==> zero_above((#[trigger] fs[q]).h, q + off),
  ensures forall|i: int| 0 <= i < m ==> #[trigger] gen(fs, m, k)(i, c) == kd(i, c),
  decreases fs.len() - k,
{
  if k < fs.len() {
    gen_unit(fs, m, off, k + 1, c);
    let x = colof(gen(fs, m, k + 1), c);
    let f = fs[k];
    assert forall|t: int| k + off <= t < m implies #[trigger] x(t) == 0real by { assert(gen(fs, m, k + 1)(t, c) == kd(t, c)); }
    refl_disjoint(f.h, f.t, m, x, k + off);
    assert forall|i: int| 0 <= i < m implies #[trigger] gen(fs, m, k)(i, c) == kd(i, c) by { assert(refl(f.h, f.t, m, x)(i) == x(i)); assert(gen(fs, m, k + 1)(i, c) == kd(i, c)); }
  }
}
// ---- phase 2: the iteration on the bidiagonal matrix
#[verifier::opaque]
pub open spec fn ms(a: Mt, ud: Seq<E>, vd: Seq<E>, x: Mt, m: int, n: int, w: real, f2: real) -> bool {
  near(a, ubv(elm(ud, m), x, elm(vd, n), m, n), m, n, w) && orth(elm(ud, m), m) && orth(elm(vd, n), n) && fro2(x, m, n) <= f2
}
pub proof fn ms_start(a: Mt, ls: Seq<Rf>, rs: Seq<Rf>, ud: Seq<E>, vd: Seq<E>, x: Mt, b: Mt, m: int, n: int, k: int, w: real, f2: real)
  requires ph(a, ls, rs, m, n, k, x, w, f2), meq(x, b, m, n), meq(elm(ud, m), gen(ls, m, 0), m, m), meq(elm(vd, n), gen(rs, n, 0), n, n), 0 <= k,
  ensures ms(a, ud, vd, b, m, n, w, f2),
{
  reveal(ph); reveal(ms);
  let (u, z) = (gen(ls, m, 0), gen(rs, n, 0));
  gen_orth(ls, m, 0); gen_orth(rs, n, 0);
  orth_ext(u, elm(ud, m), m); orth_ext(z, elm(vd, n), n);
  fro_ext(x, b, m, n);
  unf_gen(ls, rs, m, n, 0, x);
  ubv_ext(elm(ud, m), b, elm(vd, n), u, x, z, m, n);
  let r = ubv(elm(ud, m), b, elm(vd, n), m, n);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] a(i, j) - r(i, j)) <= w by {
    assert(r(i, j) == ubv(u, x, z, m, n)(i, j));
    assert(unf(ls, rs, m, n, 0, ubv(u, x, z, m, n))(i, j) == unf(ls, rs, m, n, k, x)(i, j));
    assert(rabs(a(i, j) - unf(ls, rs, m, n, k, x)(i, j)) <= w);
  }
}
pub proof fn orth_ext(u: Mt, w: Mt, m: int)
  requires orth(u, m), meq(w, u, m, m),
  ensures orth(w, m),
{
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] mm(w, tr(w), m)(i, j) == idm()(i, j) by {
    assert forall|t: int| 0 <= t < m implies #[trigger] tr(w)(t, j) == tr(u)(t, j) by { assert(w(j, t) == u(j, t)); }
    mp_ext(w, u, tr(w), tr(u), m, i, i, j, j);
    assert(mm(u, tr(u), m)(i, j) == idm()(i, j));
  }
}
pub proof fn mix_orth(u: Mt, u2: Mt, m: int, p: int, q: int, a: real, b: real, c: real, d: real)
  requires orth(u, m), mixed(u, u2, m, m, p, q, a, b, c, d), orth2(a, b, c, d), 0 <= p < m, 0 <= q < m, p != q,
  ensures orth(u2, m),
{
  let (x, x2) = (tr(u), tr(u2));
  assert forall|i: int, k: int| 0 <= i < m && 0 <= k < m implies #[trigger] tr(x2)(i, k) == (if k == p { a * tr(x)(i, p) + b * tr(x)(i, q) } else if k == q { c * tr(x)(i, p) + d * tr(x)(i, q) } else { tr(x)(i, k) }) by { assert(u2(i, k) == tr(x2)(i, k)); }
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] mm(u2, tr(u2), m)(i, j) == idm()(i, j) by {
    mix_mp(u, u2, x, x2, m, m, m, p, q, a, b, c, d, i, j);
    assert(mm(u, tr(u), m)(i, j) == idm()(i, j));
  }
}
pub proof fn ms_cols(am: Mt, ud: Seq<E>, vd: Seq<E>, vd2: Seq<E>, x: Mt, x2: Mt, m: int, n: int, w: real, f2: real, p: int, q: int, a: real, b: real, c: real, d: real)
  requires
    ms(am, ud, vd, x, m, n, w, f2), mixed(elm(vd, n), elm(vd2, n), n, n, p, q, a, b, c, d), mixed(x, x2, m, n, p, q, a, b, c, d),
    orth2(a, b, c, d), 0 <= p < n, 0 <= q < n, p != q,
  ensures ms(am, ud, vd2, x2, m, n, w, f2),
{
  reveal(ms);
  let (z, z2, u) = (elm(vd, n), elm(vd2, n), elm(ud, m));
  mix_orth(z, z2, n, p, q, a, b, c, d);
  fro_cols(x, x2, m, n, p, q, a, b, c, d);
  let (y, y2) = (tr(z), tr(z2));
  assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] tr(y2)(i, k) == (if k == p { a * tr(y)(i, p) + b * tr(y)(i, q) } else if k == q { c * tr(y)(i, p) + d * tr(y)(i, q) } else { tr(y)(i, k) }) by { assert(z2(i, k) == tr(y2)(i, k)); }
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(u, x2, z2, m, n)(i, j)) <= w by {
    let (s, t) = (mm(x2, tr(z2), n), mm(x, tr(z), n));
    assert forall|k: int| 0 <= k < m implies #[trigger] s(k, j) == t(k, j) by { mix_mp(x, x2, y, y2, m, n, n, p, q, a, b, c, d, k, j); }
    mp_ext(u, u, s, t, m, i, i, j, j);
    assert(rabs(am(i, j) - ubv(u, x, z, m, n)(i, j)) <= w);
  }
}
pub proof fn ms_rows(am: Mt, ud: Seq<E>, ud2: Seq<E>, vd: Seq<E>, x: Mt, x2: Mt, m: int, n: int, w: real, f2: real, p: int, q: int, a: real, b: real, c: real, d: real)
  requires
    ms(am, ud, vd, x, m, n, w, f2), mixed(elm(ud, m), elm(ud2, m), m, m, p, q, a, b, c, d), mixed(tr(x), tr(x2), n, m, p, q, a, b, c, d),
    orth2(a, b, c, d), 0 <= p < m, 0 <= q < m, p != q,
  ensures ms(am, ud2, vd, x2, m, n, w, f2),
{
  reveal(ms);
  let (z, u, u2) = (elm(vd, n), elm(ud, m), elm(ud2, m));
  mix_orth(u, u2, m, p, q, a, b, c, d);
  fro_rows(x, x2, m, n, p, q, a, b, c, d);
  mix_left(x, x2, tr(z), m, n, n, p, q, a, b, c, d);
  let (s, t) = (mm(x2, tr(z), n), mm(x, tr(z), n));
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(u2, x2, z, m, n)(i, j)) <= w by {
    mix_mp(u, u2, t, s, m, m, n, p, q, a, b, c, d, i, j);
    assert(rabs(am(i, j) - ubv(u, x, z, m, n)(i, j)) <= w);
  }
}
// the same matrix, written differently
pub proof fn ms_ext(am: Mt, ud: Seq<E>, vd: Seq<E>, x: Mt, x2: Mt, m: int, n: int, w: real, w2: real, f2: real)
  requires ms(am, ud, vd, x, m, n, w, f2), meq(x, x2, m, n), w <= w2,
  ensures ms(am, ud, vd, x2, m, n, w2, f2),
{
  reveal(ms);
  let (z, u) = (elm(vd, n), elm(ud, m));
  ubv_ext(u, x, z, u, x2, z, m, n);
  fro_ext(x, x2, m, n);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(u, x2, z, m, n)(i, j)) <= w2 by {
    assert(ubv(u, x, z, m, n)(i, j) == ubv(u, x2, z, m, n)(i, j));
    assert(rabs(am(i, j) - ubv(u, x, z, m, n)(i, j)) <= w);
  }
}
// one element is dropped
pub proof fn ms_drop(am: Mt, ud: Seq<E>, vd: Seq<E>, x: Mt, x2: Mt, m: int, n: int, w: real, f2: real, r: int, c: int, t: real)
  requires
    ms(am, ud, vd, x, m, n, w, f2), 0 <= r < m, 0 <= c < n, rabs(x(r, c)) <= t,
    forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] x2(i, j) == if i == r && j == c { 0real } else { x(i, j) },
  ensures ms(am, ud, vd, x2, m, n, w + t, f2),
{
  reveal(ms);
  let (z, u) = (elm(vd, n), elm(ud, m));
  assert(smaller(x2, x, m, n));
  fro_drop(x, x2, m, n);
  let d = msub(x, x2);
  let xe = x(r, c);
  let (s, s2, sd) = (mm(x, tr(z), n), mm(x2, tr(z), n), mm(d, tr(z), n));
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(u, x2, z, m, n)(i, j)) <= w + t by {
    let zj = z(j, c);
    let ui = u(i, r);
    // column j of d*z'
    assert forall|k: int| 0 <= k < m implies #[trigger] sd(k, j) == (if k == r { xe * zj } else { 0real }) by {
      let f = |l: int| d(k, l) * tr(z)(l, j);
      assert forall|l: int| 0 <= l < n && l != c implies #[trigger] f(l) == 0real by { assert(x2(k, l) == x(k, l)); let b = tr(z)(l, j); assert(0real * b == 0real) by (nonlinear_arith); }
      assert(x2(k, c) == if k == r { 0real } else { x(k, c) });
      sum_single(f, 0, n, c);
      if k != r { assert(0real * zj == 0real) by (nonlinear_arith); }
    }
    assert forall|k: int| 0 <= k < m implies #[trigger] s2(k, j) == s(k, j) - sd(k, j) by { mp_lsub(x, x2, d, tr(z), m, n, k, j); }
    mp_sub(u, s, sd, s2, m, i, j);
    let g = |k: int| u(i, k) * sd(k, j);
    assert forall|k: int| 0 <= k < m && k != r implies #[trigger] g(k) == 0real by { assert(sd(k, j) == 0real); let b = u(i, k); assert(b * 0real == 0real) by (nonlinear_arith); }
    sum_single(g, 0, m, r);
    assert(sd(r, j) == xe * zj);
    assert(mp(u, sd, m, i, j) == ui * (xe * zj));
    orth_entry(u, m, i, r);
    orth_entry(z, n, j, c);
    abs_mul(ui, xe * zj); abs_mul(xe, zj);
    let (p, q, y) = (rabs(ui), rabs(zj), rabs(xe));
    assert(y * q <= y) by (nonlinear_arith) requires q <= 1real, y >= 0real;
    let yq = y * q;
    assert(yq >= 0real) by (nonlinear_arith) requires y >= 0real, q >= 0real, yq == y * q;
    assert(p * yq <= yq) by (nonlinear_arith) requires p <= 1real, yq >= 0real;
    assert(rabs(am(i, j) - ubv(u, x, z, m, n)(i, j)) <= w);
  }
}
pub proof fn abs_mul(x: real, y: real)
  ensures rabs(x * y) == rabs(x) * rabs(y),
{
  assert((-x) * y == -(x * y) && x * (-y) == -(x * y) && (-x) * (-y) == x * y) by (nonlinear_arith);
  if x >= 0real && y >= 0real { assert(x * y >= 0real) by (nonlinear_arith) requires x >= 0real, y >= 0real; }
  else if x < 0real && y < 0real { assert(x * y >= 0real) by (nonlinear_arith) requires x < 0real, y < 0real; }
  else if x < 0real { assert(x * y <= 0real) by (nonlinear_arith) requires x < 0real, y >= 0real; }
  else { assert(x * y <= 0real) by (nonlinear_arith) requires x >= 0real, y < 0real; }
}
// (x - x2)*z = x*z - x2*z
pub proof fn mp_lsub(x: Mt, x2: Mt, d: Mt, z: Mt, m: int, n: int, i: int, j: int)
  requires forall|l: int| 0 <= l < n ==> #[trigger] d(i, l) == x(i, l) - x2(i, l),
  ensures mp(x2, z, n, i, j) == mp(x, z, n, i, j) - mp(d, z, n, i, j),
{
  mp_tr(x2, z, n, i, j); mp_tr(x, z, n, i, j); mp_tr(d, z, n, i, j);
  assert forall|l: int| 0 <= l < n implies #[trigger] tr(x2)(l, i) == tr(x)(l, i) - tr(d)(l, i) by { assert(d(i, l) == x(i, l) - x2(i, l)); }
  mp_sub(tr(z), tr(x), tr(d), tr(x2), n, j, i);
}
// no element of an orthogonal matrix exceeds 1
pub proof fn orth_entry(u: Mt, m: int, i: int, r: int)
  requires orth(u, m), 0 <= i < m, 0 <= r < m,
  ensures rabs(u(i, r)) <= 1real,
{
  let f = |k: int| u(i, k) * tr(u)(k, i);
  assert forall|k: int| 0 <= k < m implies #[trigger] f(k) >= 0real by { let z = u(i, k); assert(z * z >= 0real) by (nonlinear_arith); }
  sum_pos(f, 0, m, r);
  assert(mm(u, tr(u), m)(i, i) == idm()(i, i));
  assert(1real * 1real == 1real) by (nonlinear_arith);
  root_le(u(i, r), 1real);
}
// column k of v and of x change sign
pub proof fn ms_flip(am: Mt, ud: Seq<E>, vd: Seq<E>, vd2: Seq<E>, x: Mt, x2: Mt, m: int, n: int, w: real, f2: real, k: int)
  requires
    ms(am, ud, vd, x, m, n, w, f2), 0 <= k < n,
    forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] el(vd2, n, i, j) == if j == k { -el(vd, n, i, j) } else { el(vd, n, i, j) },
    forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] x2(i, j) == if j == k { -x(i, j) } else { x(i, j) },
  ensures ms(am, ud, vd2, x2, m, n, w, f2),
{
  reveal(ms);
  let (z, z2, u) = (elm(vd, n), elm(vd2, n), elm(ud, m));
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(z2, tr(z2), n)(i, j) == idm()(i, j) by {
    flip_mp(z, z2, z, z2, n, k, i, j);
    assert(mm(z, tr(z), n)(i, j) == idm()(i, j));
  }
  assert(fro2(x2, m, n) == fro2(x, m, n)) by {
    let f = |c: int| vdot(colof(x, c), colof(x, c), m);
    let g = |c: int| vdot(colof(x2, c), colof(x2, c), m);
    assert forall|c: int| 0 <= c < n implies #[trigger] f(c) == g(c) by {
      let s = |t: int| colof(x, c)(t) * colof(x, c)(t);
      let s2 = |t: int| colof(x2, c)(t) * colof(x2, c)(t);
      assert forall|t: int| 0 <= t < m implies #[trigger] s(t) == s2(t) by { let b = x(t, c); assert(x2(t, c) == if c == k { -b } else { b }); assert((-b) * (-b) == b * b) by (nonlinear_arith); }
      sum_ext(s, s2, 0, m);
    }
    sum_ext(f, g, 0, n);
  }
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(u, x2, z2, m, n)(i, j)) <= w by {
    let (s, t) = (mm(x2, tr(z2), n), mm(x, tr(z), n));
    assert forall|l: int| 0 <= l < m implies #[trigger] s(l, j) == t(l, j) by {
      let (y, y2) = (z, z2);
      flip_mp(x, x2, z, z2, n, k, l, j);
    }
    mp_ext(u, u, s, t, m, i, i, j, j);
    assert(rabs(am(i, j) - ubv(u, x, z, m, n)(i, j)) <= w);
  }
}
proof fn flip_mp(x: Mt, x2: Mt, z: Mt, z2: Mt, n: int, k: int, i: int, j: int)
  requires
    forall|c: int| 0 <= c < n ==> #[trigger] x2(i, c) == if c == k { -x(i, c) } else { x(i, c) },
    forall|c: int| 0 <= c < n ==> #[trigger] z2(j, c) == if c == k { -z(j, c) } else { z(j, c) },
  ensures mp(x2, tr(z2), n, i, j) == mp(x, tr(z), n, i, j),
{
  let f = |c: int| x2(i, c) * tr(z2)(c, j);
  let g = |c: int| x(i, c) * tr(z)(c, j);
  assert forall|c: int| 0 <= c < n implies #[trigger] f(c) == g(c) by {
    let (a, b) = (x(i, c), z(j, c));
    assert(x2(i, c) == if c == k { -a } else { a });
    assert(z2(j, c) == if c == k { -b } else { b });
    assert((-a) * (-b) == a * b) by (nonlinear_arith);
  }
  sum_ext(f, g, 0, n);
}
// no element of s or e exceeds the norm
pub proof fn ms_entry(am: Mt, ud: Seq<E>, vd: Seq<E>, x: Mt, m: int, n: int, w: real, f2: real, fr: real, i: int, j: int)
  requires ms(am, ud, vd, x, m, n, w, f2), 0 <= i < m, 0 <= j < n, fr >= 0real, fr * fr == f2,
  ensures rabs(x(i, j)) <= fr,
{ reveal(ms); fro_entry(x, m, n, i, j); root_le(x(i, j), fr); }
// a buffer whose first i rows have columns p and q rotated
pub open spec fn rotd(d0: Seq<E>, d1: Seq<E>, m: int, i: int, p: int, q: int, cs: real, sn: real) -> bool {
  d1.len() == d0.len() && forall|r: int, c: int| 0 <= r < m && 0 <= c < m ==> #[trigger] el(d1, m, r, c) ==
    if r < i && c == p { cs * el(d0, m, r, p) + sn * el(d0, m, r, q) } else if r < i && c == q { -sn * el(d0, m, r, p) + cs * el(d0, m, r, q) } else { el(d0, m, r, c) }
}
pub proof fn rotd_step(d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, m: int, i: int, p: int, q: int, cs: real, sn: real, x: E, y: E)
  requires
    rotd(d0, d1, m, i, p, q, cs, sn), d0.len() == m * m, 0 <= i < m, 0 <= p < m, 0 <= q < m, p != q,
    d2 =~= d1.update(i * m + q, y).update(i * m + p, x),
    v(x) == cs * el(d1, m, i, p) + sn * el(d1, m, i, q), v(y) == -sn * el(d1, m, i, p) + cs * el(d1, m, i, q),
  ensures rotd(d0, d2, m, i + 1, p, q, cs, sn),
{
  el_update(d1, m, m, i, q, y);
  el_update(d1.update(i * m + q, y), m, m, i, p, x);
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < m implies #[trigger] el(d2, m, r, c) ==
    (if r < i + 1 && c == p { cs * el(d0, m, r, p) + sn * el(d0, m, r, q) } else if r < i + 1 && c == q { -sn * el(d0, m, r, p) + cs * el(d0, m, r, q) } else { el(d0, m, r, c) }) by {
    assert(el(d1, m, i, p) == el(d0, m, i, p) && el(d1, m, i, q) == el(d0, m, i, q));
    if r == i && c == p { } else if r == i && c == q { } else { assert(el(d2, m, r, c) == el(d1, m, r, c)); }
  }
}
pub proof fn rotd_done(d0: Seq<E>, d1: Seq<E>, m: int, p: int, q: int, cs: real, sn: real)
  requires rotd(d0, d1, m, m, p, q, cs, sn),
  ensures mixed(elm(d0, m), elm(d1, m), m, m, p, q, cs, sn, -sn, cs),
{
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < m implies #[trigger] elm(d1, m)(r, c) == (if c == p { cs * elm(d0, m)(r, p) + sn * elm(d0, m)(r, q) } else if c == q { -sn * elm(d0, m)(r, p) + cs * elm(d0, m)(r, q) } else { elm(d0, m)(r, c) }) by { assert(el(d1, m, r, c) == elm(d1, m)(r, c)); }
}
// a*x + b*y with zeros
pub proof fn comb0(a: real, b: real, x: real, y: real)
  ensures x == 0real && y == 0real ==> a * x + b * y == 0real, x == 0real ==> a * x + b * y == b * y, y == 0real ==> a * x + b * y == a * x,
{
  if x == 0real { assert(a * 0real == 0real) by (nonlinear_arith); }
  if y == 0real { assert(b * 0real == 0real) by (nonlinear_arith); }
}
// one element outside the two diagonals (or in place of one of theirs)
pub open spec fn bx(s: Seq<E>, e: Seq<E>, r0: int, c0: int, f: real) -> Mt { |r: int, c: int| if r == r0 && c == c0 { f } else { bd(s, e)(r, c) } }
// deflation, one step: column j and column l = p-1
pub proof fn deflate_step(s: Seq<E>, e: Seq<E>, s2: Seq<E>, e2: Seq<E>, m: int, n: int, l: int, k: int, j: int, f: real, g: real, t: real, cs: real, sn: real)
  requires
    0 <= k <= j < l < n, n <= m, s.len() == n, e.len() == n, v(s[l]) == 0real, v(e[l - 1]) == 0real, v(e[l]) == 0real || l + 1 == n, k == 0 || v(e[k - 1]) == 0real,
    cs * v(s[j]) + sn * f == t, -sn * v(s[j]) + cs * f == 0real,
    s2 == s.update(j, er(t)),
    if j == k { e2 == e } else { e2 == e.update(j - 1, er(cs * v(e[j - 1]))) && g == -sn * v(e[j - 1]) },
    j == l - 1 || j < l - 1,
  ensures mixed(bx(s, e, j, l, f), if j == k { bd(s2, e2) } else { bx(s2, e2, j - 1, l, g) }, m, n, j, l, cs, sn, -sn, cs),
{
  let x = bx(s, e, j, l, f);
  let y = if j == k { bd(s2, e2) } else { bx(s2, e2, j - 1, l, g) };
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] y(r, c) == (if c == j { cs * x(r, j) + sn * x(r, l) } else if c == l { -sn * x(r, j) + cs * x(r, l) } else { x(r, c) }) by {
    comb0(cs, sn, x(r, j), x(r, l));
    comb0(-sn, cs, x(r, j), x(r, l));
    if r == j { } else if r == j - 1 { } else if r == l { } else if r == l - 1 { } else { }
  }
}
// splitting, one step: rows j and l = k-1
pub proof fn split_step(s: Seq<E>, e: Seq<E>, s2: Seq<E>, e2: Seq<E>, m: int, n: int, l: int, j: int, f: real, g: real, t: real, cs: real, sn: real)
  requires
    0 <= l < j < n, n <= m, s.len() == n, e.len() == n, v(s[l]) == 0real, v(e[l]) == 0real,
    cs * v(s[j]) + sn * f == t, -sn * v(s[j]) + cs * f == 0real,
    s2 == s.update(j, er(t)), e2 == e.update(j, er(cs * v(e[j]))), g == -sn * v(e[j]),
  ensures mixed(tr(bx(s, e, l, j, f)), tr(bx(s2, e2, l, j + 1, g)), n, m, j, l, cs, sn, -sn, cs),
{
  let x = tr(bx(s, e, l, j, f));
  let y = tr(bx(s2, e2, l, j + 1, g));
  assert forall|c: int, r: int| 0 <= c < n && 0 <= r < m implies #[trigger] y(c, r) == (if r == j { cs * x(c, j) + sn * x(c, l) } else if r == l { -sn * x(c, j) + cs * x(c, l) } else { x(c, r) }) by {
    comb0(cs, sn, x(c, j), x(c, l));
    comb0(-sn, cs, x(c, j), x(c, l));
    if c == j { } else if c == j + 1 { } else { }
  }
}
// the chase: at the head of step j > k the element (j-1, j) is f and (j-1, j+1) is g
pub open spec fn chb(s: Seq<E>, e: Seq<E>, k: int, j: int, f: real, g: real) -> Mt {
  |r: int, c: int| if k < j && r == j - 1 && c == j { f } else if k < j && r == j - 1 && c == j + 1 { g } else { bd(s, e)(r, c) }
}
// after its column rotation: (j, j) is f and (j+1, j) is g
pub open spec fn chc(s: Seq<E>, e: Seq<E>, j: int, f: real, g: real) -> Mt { |r: int, c: int| if r == j && c == j { f } else if r == j + 1 && c == j { g } else { bd(s, e)(r, c) } }
pub proof fn chase_col(s: Seq<E>, e: Seq<E>, s2: Seq<E>, e2: Seq<E>, m: int, n: int, k: int, j: int, f: real, g: real, f2: real, g2: real, t: real, cs: real, sn: real)
  requires
    0 <= k <= j, j + 1 < n, n <= m, s.len() == n, e.len() == n, k == 0 || v(e[k - 1]) == 0real,
    cs * f + sn * g == t, -sn * f + cs * g == 0real,
    s2 == s.update(j + 1, er(cs * v(s[j + 1]))),
    e2 == (if j == k { e } else { e.update(j - 1, er(t)) }).update(j, er(cs * v(e[j]) - sn * v(s[j]))),
    f2 == cs * v(s[j]) + sn * v(e[j]), g2 == sn * v(s[j + 1]),
  ensures mixed(chb(s, e, k, j, f, g), chc(s2, e2, j, f2, g2), m, n, j, j + 1, cs, sn, -sn, cs),
{
  let x = chb(s, e, k, j, f, g);
  let y = chc(s2, e2, j, f2, g2);
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] y(r, c) == (if c == j { cs * x(r, j) + sn * x(r, j + 1) } else if c == j + 1 { -sn * x(r, j) + cs * x(r, j + 1) } else { x(r, c) }) by {
    comb0(cs, sn, x(r, j), x(r, j + 1));
    comb0(-sn, cs, x(r, j), x(r, j + 1));
    let (p, q) = (v(s[j]), v(e[j]));
    assert((-sn) * p == -(sn * p)) by (nonlinear_arith);
    if r == j { } else if r == j + 1 { } else if r == j - 1 { } else { }
  }
}
pub proof fn chase_row(s: Seq<E>, e: Seq<E>, s2: Seq<E>, e2: Seq<E>, m: int, n: int, k: int, j: int, f: real, g: real, f2: real, g2: real, t: real, cs: real, sn: real)
  requires
    0 <= k <= j, j + 1 < n, n <= m, s.len() == n, e.len() == n,
    cs * f + sn * g == t, -sn * f + cs * g == 0real,
    s2 =~= s.update(j, er(t)).update(j + 1, er(-sn * v(e[j]) + cs * v(s[j + 1]))),
    e2 == e.update(j + 1, er(cs * v(e[j + 1]))),
    f2 == cs * v(e[j]) + sn * v(s[j + 1]), g2 == sn * v(e[j + 1]),
  ensures mixed(tr(chc(s, e, j, f, g)), tr(chb(s2, e2, k, j + 1, f2, g2)), n, m, j, j + 1, cs, sn, -sn, cs),
{
  let x = tr(chc(s, e, j, f, g));
  let y = tr(chb(s2, e2, k, j + 1, f2, g2));
  assert forall|c: int, r: int| 0 <= c < n && 0 <= r < m implies #[trigger] y(c, r) == (if r == j { cs * x(c, j) + sn * x(c, j + 1) } else if r == j + 1 { -sn * x(c, j) + cs * x(c, j + 1) } else { x(c, r) }) by {
    comb0(cs, sn, x(c, j), x(c, j + 1));
    comb0(-sn, cs, x(c, j), x(c, j + 1));
    if c == j { } else if c == j + 1 { } else if c == j + 2 { } else { }
  }
}
// ---- the number of non-zero superdiagonal elements bounds what can still be dropped
pub open spec fn nz(e: Seq<E>, n: int) -> int
  decreases n
{ if n <= 0 { 0 } else { nz(e, n - 1) + if v(e[n - 1]) != 0real { 1int } else { 0 } } }
pub proof fn nz_le(e: Seq<E>, e2: Seq<E>, n: int)
  requires forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real ==> v(e2[i]) == 0real,
  ensures nz(e2, n) <= nz(e, n), 0 <= nz(e2, n) <= n || n < 0,
  decreases n,
{ if n > 0 { nz_le(e, e2, n - 1); assert(v(e[n - 1]) == 0real ==> v(e2[n - 1]) == 0real); } }
pub proof fn nz_less(e: Seq<E>, e2: Seq<E>, n: int, q: int)
  requires forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real ==> v(e2[i]) == 0real, 0 <= q < n, v(e[q]) != 0real, v(e2[q]) == 0real,
  ensures nz(e2, n) + 1 <= nz(e, n),
  decreases n,
{
  assert(v(e[n - 1]) == 0real ==> v(e2[n - 1]) == 0real);
  if q < n - 1 { nz_less(e, e2, n - 1, q); } else { nz_le(e, e2, n - 1); }
}
// the Householder vector of column x from row lo on (sg: its norm with a sign, or 0 when negligible)
pub proof fn house_vec(x: Vc, nrm: real, sg: real, lo: int, m: int, h: Vc)
  requires
    0 <= lo < m, nrm * nrm == sum(|t: int| x(t) * x(t), lo, m), sg * sg == nrm * nrm, sg != 0real, x(lo) / sg >= 0real,
    forall|t: int| 0 <= t < m ==> #[trigger] h(t) == if t < lo { 0real } else if t == lo { x(t) / sg + 1real } else { x(t) / sg },
  ensures
    h(lo) != 0real, is_refl(h, 1real / h(lo), m),
    forall|t: int| 0 <= t < m ==> #[trigger] refl(h, 1real / h(lo), m, x)(t) == if t < lo { x(t) } else if t == lo { -sg } else { 0real },
{
  let w = |t: int| if t < lo { 0real } else { x(t) / sg };
  let a = -1real;
  dot_tail(w, w, lo, m);
  let f = |t: int| x(t) * x(t);
  let g = |t: int| w(t) * w(t);
  let c = 1real / (sg * sg);
  assert(sg * sg > 0real) by (nonlinear_arith) requires sg != 0real;
  assert forall|t: int| lo <= t < m implies #[trigger] g(t) == c * f(t) by {
    let y = x(t);
    assert((y / sg) * (y / sg) == (1real / (sg * sg)) * (y * y)) by (nonlinear_arith) requires sg != 0real, sg * sg > 0real;
  }
  sum_scale(f, g, c, lo, m);
  let q = sg * sg;
  assert((1real / q) * q == 1real) by (nonlinear_arith) requires q > 0real;
  assert(a * a == 1real) by (nonlinear_arith) requires a == -1real;
  let wl = w(lo);
  assert(a * wl <= 0real) by (nonlinear_arith) requires a == -1real, wl >= 0real;
  let tau = 2real / vdot(h, h, m);
  house(w, a, lo, m, h);
  house_col(x, w, sg, a, lo, m, h, tau);
  let hl = h(lo);
  let hh = vdot(h, h, m);
  assert(a * hl == -hl) by (nonlinear_arith) requires a == -1real;
  assert(-1real / (-hl) == 1real / hl) by (nonlinear_arith) requires hl != 0real;
  assert(tau == 1real / hl);
  assert((2real / hh) * hh == 2real) by (nonlinear_arith) requires hh > 0real;
  assert(sg * a == -sg) by (nonlinear_arith) requires a == -1real;
}
pub proof fn root_eq_le(x: real, t: real)
  requires 0real <= x <= t,
  ensures x * x <= t * t,
{ assert(x * x <= t * t) by (nonlinear_arith) requires 0real <= x, x <= t; }
pub open spec fn ev(e: Seq<E>, lo: int, hi: int) -> Vc { |q: int| if lo <= q < hi { v(e[q]) } else { 0real } }
pub open spec fn zerov() -> Vc { |q: int| 0real }
#[verifier::opaque]
pub open spec fn tails(fs: Seq<Rf>, off: int) -> bool { forall|q: int| 0 <= q < fs.len() ==> zero_above((#[trigger] fs[q]).h, q + off) }
pub open spec fn sized(ad: Seq<E>, sd: Seq<E>, ed: Seq<E>, wd: Seq<E>, ud: Seq<E>, vd: Seq<E>, m: int, n: int) -> bool {
  ad.len() == m * n && sd.len() == n && ed.len() == n && wd.len() == m && ud.len() == m * m && vd.len() == n * n && dims(m, n)
}
pub open spec fn dims(m: int, n: int) -> bool { 0 < n <= m && m * m <= isize::MAX && m * n <= isize::MAX && n * n <= isize::MAX }
// -- dropping in phase 2
pub proof fn drop_e(am: Mt, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, e2: Seq<E>, m: int, n: int, th: real, f2: real, k: int)
  requires
    ms(am, ud, vd, bd(s, e), m, n, budget(n, e, th), f2), 0 <= k, k + 1 < n, n <= m, e.len() == n, e2.len() == n, th >= 0real,
    rabs(v(e[k])) <= th, v(e2[k]) == 0real, forall|q: int| 0 <= q < n && q != k ==> #[trigger] e2[q] == e[q],
  ensures ms(am, ud, vd, bd(s, e2), m, n, budget(n, e2, th), f2),
{
  assert forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real implies v(e2[i]) == 0real by { if i != k { assert(e2[i] == e[i]); } }
  nz_le(e, e2, n);
  let (a, b) = ((3 * n - nz(e, n)) as real, (3 * n - nz(e2, n)) as real);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] bd(s, e2)(i, j) == (if i == k && j == k + 1 { 0real } else { bd(s, e)(i, j) }) by { if j == i + 1 && i != k { assert(e2[i] == e[i]); } }
  if v(e[k]) == 0real {
    assert(a * th <= b * th) by (nonlinear_arith) requires a <= b, th >= 0real;
    ms_ext(am, ud, vd, bd(s, e), bd(s, e2), m, n, budget(n, e, th), budget(n, e2, th), f2);
  } else {
    nz_less(e, e2, n, k);
    ms_drop(am, ud, vd, bd(s, e), bd(s, e2), m, n, budget(n, e, th), f2, k, k + 1, th);
    assert(a * th + th <= b * th) by (nonlinear_arith) requires a + 1real <= b, th >= 0real;
    ms_ext(am, ud, vd, bd(s, e2), bd(s, e2), m, n, budget(n, e, th) + th, budget(n, e2, th), f2);
  }
}
pub proof fn drop_s(am: Mt, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, s2: Seq<E>, e: Seq<E>, m: int, n: int, w: real, th: real, f2: real, k: int)
  requires
    ms(am, ud, vd, bd(s, e), m, n, w, f2), 0 <= k < n, n <= m, s.len() == n, s2.len() == n,
    rabs(v(s[k])) <= th, v(s2[k]) == 0real, forall|q: int| 0 <= q < n && q != k ==> #[trigger] s2[q] == s[q],
  ensures ms(am, ud, vd, bd(s2, e), m, n, w + th, f2),
{
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] bd(s2, e)(i, j) == (if i == k && j == k { 0real } else { bd(s, e)(i, j) }) by { if j == i && i != k { assert(s2[i] == s[i]); } }
  ms_drop(am, ud, vd, bd(s, e), bd(s2, e), m, n, w, f2, k, k, th);
}
// the budget after a superdiagonal element has gone
pub proof fn budget_less(e: Seq<E>, e2: Seq<E>, n: int, th: real, k: int)
  requires 0 <= k < n, e.len() == n, e2.len() == n, th >= 0real, v(e[k]) != 0real, v(e2[k]) == 0real, forall|q: int| 0 <= q < n && q != k ==> #[trigger] e2[q] == e[q],
  ensures budget(n, e, th) + th <= budget(n, e2, th),
{
  assert forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real implies v(e2[i]) == 0real by { if i != k { assert(e2[i] == e[i]); } }
  nz_less(e, e2, n, k);
  let (a, b) = ((3 * n - nz(e, n)) as real, (3 * n - nz(e2, n)) as real);
  assert(a * th + th <= b * th) by (nonlinear_arith) requires a + 1real <= b, th >= 0real;
}
pub proof fn budget_le(e: Seq<E>, e2: Seq<E>, n: int, th: real)
  requires 0 <= n, th >= 0real, forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real ==> v(e2[i]) == 0real,
  ensures budget(n, e, th) <= budget(n, e2, th),
{
  nz_le(e, e2, n);
  let (a, b) = ((3 * n - nz(e, n)) as real, (3 * n - nz(e2, n)) as real);
  assert(a * th <= b * th) by (nonlinear_arith) requires a <= b, th >= 0real;
}
// every threshold the iteration uses is at most thr
pub proof fn thr_bound(fr: real, tn: real, ep: real, x: real, y: real, t: real)
  requires fr >= 0real, ep == r_epsilon(), 0real <= tn <= tiny0() + ep * (ep * fr), 0real <= x <= fr, 0real <= y <= fr, t <= tn + ep * (x + y),
  ensures t <= thr(fr), tn + ep * (x + y) >= 0real,
{
  tiny_nonneg();
  let (s, d) = (x + y, fr + fr);
  assert(ep * s <= ep * d) by (nonlinear_arith) requires ep > 0real, s <= d;
  assert(ep * s >= 0real) by (nonlinear_arith) requires ep > 0real, s >= 0real;
}
pub proof fn thr_nonneg(fr: real)
  requires fr >= 0real,
  ensures thr(fr) >= tiny0(), thr(fr) >= 0real,
{
  tiny_nonneg();
  let ep = r_epsilon();
  assert(ep * fr >= 0real) by (nonlinear_arith) requires ep > 0real, fr >= 0real;
  let q = ep * fr;
  assert(ep * q >= 0real) by (nonlinear_arith) requires ep > 0real, q >= 0real;
  let d = fr + fr;
  assert(ep * d >= 0real) by (nonlinear_arith) requires ep > 0real, d >= 0real;
}
// a buffer whose first i rows have columns k and k+1 swapped
pub open spec fn swapd(d0: Seq<E>, d1: Seq<E>, m: int, i: int, k: int) -> bool {
  d1.len() == d0.len() && forall|r: int, c: int| 0 <= r < m && 0 <= c < m ==> #[trigger] el(d1, m, r, c) ==
    if r < i && c == k { el(d0, m, r, k + 1) } else if r < i && c == k + 1 { el(d0, m, r, k) } else { el(d0, m, r, c) }
}
pub proof fn swapd_step(d0: Seq<E>, d1: Seq<E>, d2: Seq<E>, m: int, i: int, k: int)
  requires
    swapd(d0, d1, m, i, k), d0.len() == m * m, 0 <= i < m, 0 <= k, k + 1 < m,
    d2 =~= d1.update(i * m + (k + 1), d1[i * m + k]).update(i * m + k, d1[i * m + (k + 1)]),
  ensures swapd(d0, d2, m, i + 1, k),
{
  el_update(d1, m, m, i, k + 1, d1[i * m + k]);
  el_update(d1.update(i * m + (k + 1), d1[i * m + k]), m, m, i, k, d1[i * m + (k + 1)]);
  assert(el(d1, m, i, k) == el(d0, m, i, k) && el(d1, m, i, k + 1) == el(d0, m, i, k + 1));
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < m implies #[trigger] el(d2, m, r, c) ==
    (if r < i + 1 && c == k { el(d0, m, r, k + 1) } else if r < i + 1 && c == k + 1 { el(d0, m, r, k) } else { el(d0, m, r, c) }) by {
    if r == i && (c == k || c == k + 1) { } else { assert(el(d2, m, r, c) == el(d1, m, r, c)); }
  }
}
pub proof fn swapd_done(d0: Seq<E>, d1: Seq<E>, m: int, k: int)
  requires swapd(d0, d1, m, m, k), 0 <= k, k + 1 < m,
  ensures mixed(elm(d0, m), elm(d1, m), m, m, k, k + 1, 0real, 1real, 1real, 0real),
{
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < m implies #[trigger] elm(d1, m)(r, c) == (if c == k { 0real * elm(d0, m)(r, k) + 1real * elm(d0, m)(r, k + 1) } else if c == k + 1 { 1real * elm(d0, m)(r, k) + 0real * elm(d0, m)(r, k + 1) } else { elm(d0, m)(r, c) }) by {
    assert(el(d1, m, r, c) == elm(d1, m)(r, c));
    let (a, b) = (elm(d0, m)(r, k), elm(d0, m)(r, k + 1));
    assert(0real * a == 0real && 1real * a == a && 0real * b == 0real && 1real * b == b) by (nonlinear_arith);
  }
}
// exchanging two neighbouring singular values
pub proof fn ms_swap(am: Mt, ud: Seq<E>, ud2: Seq<E>, vd: Seq<E>, vd2: Seq<E>, s: Seq<E>, s2: Seq<E>, e: Seq<E>, m: int, n: int, w: real, f2: real, k: int)
  requires
    ms(am, ud, vd, bd(s, e), m, n, w, f2), 0 <= k, k + 1 < n, n <= m, s.len() == n, e.len() == n, swapd(ud, ud2, m, m, k), swapd(vd, vd2, n, n, k),
    s2 =~= s.update(k, s[k + 1]).update(k + 1, s[k]), k == 0 || v(e[k - 1]) == 0real, v(e[k]) == 0real, v(e[k + 1]) == 0real || k + 2 == n,
  ensures ms(am, ud2, vd2, bd(s2, e), m, n, w, f2),
{
  let x = bd(s, e);
  let y = |r: int, c: int| if c == k { x(r, k + 1) } else if c == k + 1 { x(r, k) } else { x(r, c) };
  let z = bd(s2, e);
  assert(orth2(0real, 1real, 1real, 0real)) by { assert(0real * 0real == 0real && 1real * 1real == 1real && 0real * 1real == 0real && 1real * 0real == 0real) by (nonlinear_arith); }
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] y(r, c) == (if c == k { 0real * x(r, k) + 1real * x(r, k + 1) } else if c == k + 1 { 1real * x(r, k) + 0real * x(r, k + 1) } else { x(r, c) }) by {
    let (a, b) = (x(r, k), x(r, k + 1));
    assert(0real * a == 0real && 1real * a == a && 0real * b == 0real && 1real * b == b) by (nonlinear_arith);
  }
  swapd_done(vd, vd2, n, k);
  swapd_done(ud, ud2, m, k);
  ms_cols(am, ud, vd, vd2, x, y, m, n, w, f2, k, k + 1, 0real, 1real, 1real, 0real);
  assert forall|c: int, r: int| 0 <= c < n && 0 <= r < m implies #[trigger] tr(z)(c, r) == (if r == k { 0real * tr(y)(c, k) + 1real * tr(y)(c, k + 1) } else if r == k + 1 { 1real * tr(y)(c, k) + 0real * tr(y)(c, k + 1) } else { tr(y)(c, r) }) by {
    let (a, b) = (tr(y)(c, k), tr(y)(c, k + 1));
    assert(0real * a == 0real && 1real * a == a && 0real * b == 0real && 1real * b == b) by (nonlinear_arith);
    if c == k { } else if c == k + 1 { } else if c == k + 2 { } else { }
  }
  ms_rows(am, ud, ud2, vd2, y, z, m, n, w, f2, k, k + 1, 0real, 1real, 1real, 0real);
}
// sorted, non-negative from p on
pub open spec fn ordered(s: Seq<E>, p: int, n: int) -> bool {
  (forall|i: int, j: int| #![trigger s[i], s[j]] p <= i < j < n ==> v(s[i]) >= v(s[j])) && (forall|i: int| p <= i < n ==> v(#[trigger] s[i]) >= 0real)
}
// ordered except that s[k] may be smaller than what follows
pub open spec fn ordered_but(s: Seq<E>, p: int, n: int, k: int) -> bool {
  (forall|i: int, j: int| #![trigger s[i], s[j]] p <= i < j < n && i != k ==> v(s[i]) >= v(s[j])) && (forall|i: int| p <= i < n ==> v(#[trigger] s[i]) >= 0real)
}
pub open spec fn zeros(e: Seq<E>, p: int, n: int) -> bool { forall|i: int| 0 <= i && p <= i < n ==> v(#[trigger] e[i]) == 0real }
pub open spec fn nonzeros(e: Seq<E>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i && lo <= i < hi ==> v(#[trigger] e[i]) != 0real }
// ---- the result
// the largest error that setting negligible elements to zero can add up to
pub open spec fn tiny0() -> real { rdiv(r_tiny(), r_epsilon()) }
pub open spec fn thr(fr: real) -> real { tiny0() + r_epsilon() * (r_epsilon() * fr) + r_epsilon() * (fr + fr) }
pub open spec fn slack(a: Mt, m: int, n: int) -> real { (3 * imin(m, n)) as real * thr(rsqrt(fro2(a, m, n))) }
pub open spec fn budget(n: int, e: Seq<E>, th: real) -> real { (3 * n - nz(e, n)) as real * th }
pub proof fn tiny_nonneg()
  ensures tiny0() >= 0real, r_epsilon() > 0real,
{
  eps_pos();
  let (x, y) = (r_tiny(), r_epsilon());
  assert(x / y >= 0real) by (nonlinear_arith) requires x >= 0real, y > 0real;
}
pub proof fn ubv_tr(u: Mt, s: Mt, w: Mt, m: int, n: int, i: int, j: int)
  ensures ubv(u, s, w, m, n)(i, j) == ubv(w, tr(s), u, n, m)(j, i),
{
  let y = mm(s, tr(w), n);
  mp_tr(u, y, m, i, j);
  // = sum_k tr(y)(j, k) * tr(u)(k, i),  tr(y) = w * tr(s)
  let z = mm(w, tr(s), n);
  assert forall|k: int| 0 <= k < m implies #[trigger] tr(y)(j, k) == z(j, k) by {
    mp_tr(s, tr(w), n, k, j);
    mp_ext(tr(tr(w)), w, tr(s), tr(s), n, j, j, k, k);
  }
  mp_ext(tr(y), z, tr(u), tr(u), m, j, j, i, i);
  mp_assoc(w, tr(s), tr(u), n, m, j, i);
}
}
pub use svl::*;
