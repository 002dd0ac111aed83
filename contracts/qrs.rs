// ---------------------------------------------------------------- the shifted QR sweep
pub mod qrm {
use super::*;
// one element is replaced
pub proof fn ms_change(am: Mt, ud: Seq<E>, vd: Seq<E>, x: Mt, x2: Mt, m: int, n: int, w: real, f2: real, r: int, c: int, t: real, g2: real)
  requires
    ms(am, ud, vd, x, m, n, w, f2), 0 <= r < m, 0 <= c < n, rabs(x(r, c) - x2(r, c)) <= t,
    forall|i: int, j: int| 0 <= i < m && 0 <= j < n && (i != r || j != c) ==> #[trigger] x2(i, j) == x(i, j),
    g2 == f2 - x(r, c) * x(r, c) + x2(r, c) * x2(r, c),
  ensures ms(am, ud, vd, x2, m, n, w + t, g2),
{
  reveal(ms);
  let (z, u) = (elm(vd, n), elm(ud, m));
  fro_change(x, x2, m, n, r, c);
  let d = msub(x, x2);
  let xe = x(r, c) - x2(r, c);
  let (s, s2, sd) = (mm(x, tr(z), n), mm(x2, tr(z), n), mm(d, tr(z), n));
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(u, x2, z, m, n)(i, j)) <= w + t by {
    let zj = z(j, c);
    let ui = u(i, r);
    assert forall|k: int| 0 <= k < m implies #[trigger] sd(k, j) == (if k == r { xe * zj } else { 0real }) by {
      let f = |l: int| d(k, l) * tr(z)(l, j);
      assert forall|l: int| 0 <= l < n && l != c implies #[trigger] f(l) == 0real by { assert(x2(k, l) == x(k, l)); let b = tr(z)(l, j); assert(0real * b == 0real) by (nonlinear_arith); }
      sum_single(f, 0, n, c);
      if k != r { assert(x2(k, c) == x(k, c)); assert(0real * zj == 0real) by (nonlinear_arith); }
    }
    assert forall|k: int| 0 <= k < m implies #[trigger] s2(k, j) == s(k, j) - sd(k, j) by { mp_lsub(x, x2, d, tr(z), m, n, k, j); }
    mp_sub(u, s, sd, s2, m, i, j);
    let g = |k: int| u(i, k) * sd(k, j);
    assert forall|k: int| 0 <= k < m && k != r implies #[trigger] g(k) == 0real by { assert(sd(k, j) == 0real); let b = u(i, k); assert(b * 0real == 0real) by (nonlinear_arith); }
    sum_single(g, 0, m, r);
    assert(sd(r, j) == xe * zj);
    assert(mp(u, sd, m, i, j) == ui * (xe * zj));
    orth_entry(u, m, i, r);
    orth_entry(z, n, j, c);
    abs_mul(ui, xe * zj); abs_mul(xe, zj);
    let (p, q, y) = (rabs(ui), rabs(zj), rabs(xe));
    assert(y * q <= y) by (nonlinear_arith) requires q <= 1real, y >= 0real;
    let yq = y * q;
    assert(yq >= 0real) by (nonlinear_arith) requires y >= 0real, q >= 0real, yq == y * q;
    assert(p * yq <= yq) by (nonlinear_arith) requires p <= 1real, yq >= 0real;
    assert(rabs(am(i, j) - ubv(u, x, z, m, n)(i, j)) <= w);
  }
}
proof fn sum_one(f: spec_fn(int) -> real, g: spec_fn(int) -> real, lo: int, hi: int, p: int)
  requires lo <= p < hi, forall|k: int| lo <= k < hi && k != p ==> #[trigger] f(k) == g(k),
  ensures sum(g, lo, hi) == sum(f, lo, hi) + (g(p) - f(p)),
{
  let d = |k: int| if k == p { g(k) - f(k) } else { 0real };
  assert forall|k: int| lo <= k < hi implies #[trigger] g(k) == f(k) + d(k) by { if k != p { assert(f(k) == g(k)); } }
  sum_add(f, d, g, lo, hi);
  sum_single(d, lo, hi, p);
}
pub proof fn fro_change(x: Mt, x2: Mt, m: int, n: int, r: int, c: int)
  requires 0 <= r < m, 0 <= c < n, forall|i: int, j: int| 0 <= i < m && 0 <= j < n && (i != r || j != c) ==> #[trigger] x2(i, j) == x(i, j),
  ensures fro2(x2, m, n) == fro2(x, m, n) - x(r, c) * x(r, c) + x2(r, c) * x2(r, c),
{
  let f = |j: int| vdot(colof(x, j), colof(x, j), m);
  let g = |j: int| vdot(colof(x2, j), colof(x2, j), m);
  assert forall|j: int| 0 <= j < n && j != c implies #[trigger] f(j) == g(j) by {
    assert forall|t: int| 0 <= t < m implies #[trigger] colof(x, j)(t) == colof(x2, j)(t) by { assert(x2(t, j) == x(t, j)); }
    dot_ext(colof(x, j), colof(x2, j), colof(x, j), colof(x2, j), m);
  }
  sum_one(f, g, 0, n, c);
  let p = |t: int| colof(x, c)(t) * colof(x, c)(t);
  let q = |t: int| colof(x2, c)(t) * colof(x2, c)(t);
  assert forall|t: int| 0 <= t < m && t != r implies #[trigger] p(t) == q(t) by { assert(x2(t, c) == x(t, c)); }
  sum_one(p, q, 0, m, r);
}
// a reflection from both sides
pub proof fn ms_refl(am: Mt, vd: Seq<E>, vd2: Seq<E>, x: Mt, y: Mt, n: int, w: real, f2: real, f: Rf)
  requires ms(am, vd, vd, x, n, n, w, f2), is_refl(f.h, f.t, n), meq(elm(vd2, n), rr(f, n, elm(vd, n)), n, n), meq(y, rr(f, n, lr(f, n, x)), n, n),
  ensures ms(am, vd2, vd2, y, n, n, w, f2),
{
  reveal(ms);
  let (z, z2) = (elm(vd, n), elm(vd2, n));
  let b = rr(f, n, lr(f, n, x));
  // norms
  rr_fro(f, n, n, lr(f, n, x)); lr_fro(f, n, n, x); fro_ext(y, b, n, n);
  let zr = rr(f, n, z);
  let zt = tr(z);
  let lt = lr(f, n, zt);
  // tr(zr) == lr(tr z)
  // x = rr(lr(y)): products
  let l = lr(f, n, x);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ubv(z2, y, z2, n, n)(i, j) == ubv(z, x, z, n, n)(i, j) by {
    ubv_ext(z2, y, z2, zr, b, zr, n, n);
    // b zr' = rr(l) lr(z') = l z'
    let bz = mm(b, tr(zr), n);
    let xz = mm(x, zt, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] bz(k, j) == lr(f, n, xz)(k, j) by {
      rl_mp(f, n, l, zt, k, j);
      mp_ext(b, rr(f, n, l), tr(zr), lt, n, k, k, j, j);
      lr_mp2(f, n, x, zt, k, j);
    }
    mp_ext(zr, zr, bz, lr(f, n, xz), n, i, i, j, j);
    rl_mp(f, n, z, xz, i, j);
  }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rabs(#[trigger] am(i, j) - ubv(z2, y, z2, n, n)(i, j)) <= w by { assert(rabs(am(i, j) - ubv(z, x, z, n, n)(i, j)) <= w); }
  // orthogonality
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(z2, tr(z2), n)(i, j) == idm()(i, j) by {
    assert forall|t: int| 0 <= t < n implies #[trigger] tr(z2)(t, j) == tr(zr)(t, j) by { assert(z2(j, t) == zr(j, t)); }
    mp_ext(z2, zr, tr(z2), tr(zr), n, i, i, j, j);
    mp_ext(zr, zr, tr(zr), lt, n, i, i, j, j);
    rl_mp(f, n, z, zt, i, j);
    assert(mm(z, tr(z), n)(i, j) == idm()(i, j));
  }
}
// rr(x) * lr(y) = x * y
proof fn rl_mp(f: Rf, n: int, x: Mt, y: Mt, i: int, j: int)
  requires is_refl(f.h, f.t, n), 0 <= i < n, 0 <= j < n,
  ensures mp(rr(f, n, x), lr(f, n, y), n, i, j) == mp(x, y, n, i, j),
{
  let (a, b) = (colof(tr(x), i), colof(y, j));
  refl_dot(f.h, f.t, n, a, b);
  let p = |k: int| refl(f.h, f.t, n, a)(k) * refl(f.h, f.t, n, b)(k);
  let q = |k: int| rr(f, n, x)(i, k) * lr(f, n, y)(k, j);
  sum_ext(p, q, 0, n);
  let p = |k: int| a(k) * b(k);
  let q = |k: int| x(i, k) * y(k, j);
  sum_ext(p, q, 0, n);
}
// lr(x) * y = lr(x * y)
proof fn lr_mp2(f: Rf, n: int, x: Mt, y: Mt, i: int, j: int)
  requires 0 <= i < n, 0 <= j < n,
  ensures mp(lr(f, n, x), y, n, i, j) == lr(f, n, mm(x, y, n))(i, j),
{ lr_mp(f, n, n, x, y); assert(lr(f, n, mm(x, y, n))(i, j) == mm(lr(f, n, x), y, n)(i, j)); }
// the shift stays on the diagonal
pub open spec fn ej(ex: real, cur: int) -> Mt { |r: int, c: int| if r == c && r <= cur { ex } else { 0real } }
pub proof fn ej_refl(f: Rf, n: int, ex: real, cur: int)
  requires is_refl(f.h, f.t, n), forall|t: int| cur < t < n ==> #[trigger] (f.h)(t) == 0real,
  ensures meq(rr(f, n, lr(f, n, ej(ex, cur))), ej(ex, cur), n, n),
{
  let x = ej(ex, cur);
  let h = f.h;
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] lr(f, n, x)(i, c) == rr(f, n, x)(i, c) by {
    ej_dot(h, n, ex, cur, c); ej_dot(h, n, ex, cur, i);
    dot_ext(h, h, colof(tr(x), i), colof(x, i), n);
    let (t, a, b) = (f.t, h(i), h(c));
    assert((t * (ex * b)) * a == (t * (ex * a)) * b) by (nonlinear_arith);
  }
  rr_ext(f, n, n, lr(f, n, x), rr(f, n, x));
  rr_rr(f, n, n, x);
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] rr(f, n, lr(f, n, x))(i, c) == x(i, c) by {
    assert(rr(f, n, lr(f, n, x))(i, c) == rr(f, n, rr(f, n, x))(i, c));
  }
}
proof fn ej_dot(h: Vc, n: int, ex: real, cur: int, c: int)
  requires 0 <= c < n, forall|t: int| cur < t < n ==> #[trigger] h(t) == 0real,
  ensures vdot(h, colof(ej(ex, cur), c), n) == ex * h(c),
{
  let f = |t: int| h(t) * colof(ej(ex, cur), c)(t);
  assert forall|t: int| 0 <= t < n && t != c implies #[trigger] f(t) == 0real by { let a = h(t); assert(a * 0real == 0real) by (nonlinear_arith); }
  sum_single(f, 0, n, c);
  let a = h(c);
  assert(a * ex == ex * a) by (nonlinear_arith);
  if c > cur { assert(a == 0real); assert(ex * a == 0real && a * 0real == 0real) by (nonlinear_arith) requires a == 0real; }
}
// ---- what the buffer means during a sweep: rows up to cur are active and Hessenberg, with a bulge at kb
pub open spec fn alive(e: Seq<E>, cur: int, kb: int, r: int, c: int) -> bool {
  r <= c || (r == c + 1 && (r <= cur || v(e[r]) < 0real)) || (r <= cur && (((r == kb + 1 || r == kb + 2) && c == kb - 1) || (r == kb + 2 && c == kb)))
}
pub open spec fn sm(h: Seq<E>, e: Seq<E>, n: int, cur: int, kb: int) -> Mt { |r: int, c: int| if alive(e, cur, kb, r, c) { el(h, n, r, c) } else { 0real } }
// what the code keeps zero: the second and third subdiagonals from column k on
pub open spec fn szeros(h: Seq<E>, n: int, cur: int, k: int, kb: int) -> bool {
  forall|r: int, c: int| k <= c && 0 <= r <= cur && (r == c + 2 || r == c + 3) && !(kb == k && r == k + 2 && c == k) ==> #[trigger] el(h, n, r, c) == 0real
}
// the matrix the reflection is applied to: column k - 1 is the reflection of (g, 0, 0)
pub open spec fn sxk(h: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, g: real, f: Rf) -> Mt {
  |r: int, c: int| if c == k - 1 && k <= r <= k + 2 { g * kd(r, k) - (f.t * g) * (f.h)(r) } else { sm(h, e, n, cur, kb)(r, c) }
}
pub open spec fn ref3(f: Rf, n: int, cur: int, k: int) -> bool {
  &&& 0 <= k < cur < n && is_refl(f.h, f.t, n) && (f.h)(k) == 1real
  &&& forall|t: int| 0 <= t < n && (t < k || t > k + 2 || t > cur) ==> #[trigger] (f.h)(t) == 0real
}
pub open spec fn kbk(k: int, kb: int, cur: int) -> bool { kb == k || kb == cur }
pub open spec fn last_ok(e: Seq<E>, n: int, cur: int) -> bool { cur + 1 < n ==> v(e[cur + 1]) >= 0real }
pub open spec fn wrote(h0: Seq<E>, hw: Seq<E>, n: int, k: int) -> bool { hw.len() == h0.len() && forall|r: int, c: int| 0 <= r < n && 0 <= c < n && (r != k || c != k - 1) ==> #[trigger] el(hw, n, r, c) == el(h0, n, r, c) }
// the rows are done
pub open spec fn m1(h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, f: Rf, r: int, c: int) -> real {
  if c >= k { if (f.h)(r) != 0real { el(h1, n, r, c) } else { sm(h0, e, n, cur, kb)(r, c) } }
  else if c == k - 1 && r >= k { if r == k { el(hw, n, k, k - 1) } else { 0real } }
  else { sm(h0, e, n, cur, kb)(r, c) }
}
proof fn sw_dotc(h0: Seq<E>, hw: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, f: Rf, c: int)
  requires ref3(f, n, cur, k), kbk(k, kb, cur), szeros(h0, n, cur, k, kb), wrote(h0, hw, n, k), k <= c < n,
  ensures vdot(f.h, colof(sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f), c), n) == cs(f.h, hw, n, c, k, n),
{
  let x = colof(sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f), c);
  dot_tail(f.h, x, k, n);
  let (p, q) = (|t: int| (f.h)(t) * x(t), |t: int| (f.h)(t) * el(hw, n, t, c));
  assert forall|t: int| k <= t < n implies #[trigger] p(t) == q(t) by {
    let (a, b) = (x(t), el(hw, n, t, c));
    if (f.h)(t) == 0real { assert(0real * a == 0real && 0real * b == 0real) by (nonlinear_arith); }
    else { assert(el(hw, n, t, c) == el(h0, n, t, c)); assert(t <= k + 2 && t <= cur); }
  }
  sum_ext(p, q, k, n);
}
proof fn sw_left(h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, f: Rf, r: int, c: int)
  requires
    ref3(f, n, cur, k), kbk(k, kb, cur), szeros(h0, n, cur, k, kb), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), 0 <= r < n, 0 <= c < n,
  ensures lr(f, n, sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f))(r, c) == m1(h0, hw, h1, e, n, cur, k, kb, f, r, c),
{
  let g = el(hw, n, k, k - 1);
  let xx = sxk(h0, e, n, cur, k, kb, g, f);
  let x = colof(xx, c);
  if c >= k {
    sw_dotc(h0, hw, e, n, cur, k, kb, f, c);
    let s = f.t * cs(f.h, hw, n, c, k, n);
    if (f.h)(r) == 0real { assert(s * 0real == 0real) by (nonlinear_arith); }
    else {
      assert(k <= r <= k + 2 && r <= cur);
      assert(el(h1, n, r, c) == el(hw, n, r, c) - s * (f.h)(r));
      assert(el(hw, n, r, c) == el(h0, n, r, c));
    }
  } else if c == k - 1 {
    let y = |t: int| if t < k { x(t) } else { g * kd(t, k) };
    let p = |t: int| (f.h)(t) * y(t);
    assert forall|t: int| 0 <= t < n && t != k implies #[trigger] p(t) == 0real by {
      let (a, b) = ((f.h)(t), y(t));
      if t < k { assert(a == 0real); assert(0real * b == 0real) by (nonlinear_arith); } else { assert(g * 0real == 0real) by (nonlinear_arith); assert(b == 0real); assert(a * 0real == 0real) by (nonlinear_arith); }
    }
    sum_single(p, 0, n, k);
    assert(1real * (g * 1real) == g && g * 1real == g && g * 0real == 0real) by (nonlinear_arith);
    assert(vdot(f.h, y, n) == g);
    let z = refl(f.h, f.t, n, y);
    assert forall|t: int| 0 <= t < n implies #[trigger] z(t) == x(t) by {
      let s = f.t * g;
      if t < k || t > k + 2 { assert(s * 0real == 0real) by (nonlinear_arith); }
    }
    refl_refl(f.h, f.t, n, y);
    refl_ext(f.h, f.h, f.t, n, z, x);
    assert(refl(f.h, f.t, n, z)(r) == refl(f.h, f.t, n, x)(r));
    assert(refl(f.h, f.t, n, z)(r) == y(r));
  } else {
    let p = |t: int| (f.h)(t) * x(t);
    assert forall|t: int| 0 <= t < n implies #[trigger] p(t) == 0real by {
      let (a, b) = ((f.h)(t), x(t));
      if a == 0real { assert(0real * b == 0real) by (nonlinear_arith); } else { assert(k <= t <= k + 2 && t <= cur); assert(b == 0real); assert(a * 0real == 0real) by (nonlinear_arith); }
    }
    sum_zero(p, 0, n);
    let b = (f.h)(r);
    assert((f.t * 0real) * b == 0real) by (nonlinear_arith);
  }
}
pub open spec fn lastrow(cur: int, k: int) -> int { (if cur <= k + 3 { cur } else { k + 3 }) + 1 }
proof fn sw_dotr(h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, f: Rf, i: int)
  requires
    ref3(f, n, cur, k), kbk(k, kb, cur), szeros(h0, n, cur, k, kb), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), 0 <= i < n, last_ok(e, n, cur),
  ensures
    vdot(f.h, colof(tr(lr(f, n, sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f))), i), n) == if i < lastrow(cur, k) { rs(f.h, h1, n, i, k, n) } else { 0real },
{
  let l = lr(f, n, sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f));
  let x = colof(tr(l), i);
  dot_tail(f.h, x, k, n);
  let (p, q) = (|t: int| (f.h)(t) * x(t), |t: int| (f.h)(t) * el(h1, n, i, t));
  if i < lastrow(cur, k) {
    assert forall|t: int| k <= t < n implies #[trigger] p(t) == q(t) by {
      let (a, b) = (x(t), el(h1, n, i, t));
      if (f.h)(t) == 0real { assert(0real * a == 0real && 0real * b == 0real) by (nonlinear_arith); }
      else {
        sw_left(h0, hw, h1, e, n, cur, k, kb, f, i, t);
        sw_stored(h0, hw, h1, e, n, cur, k, kb, f, i, t);
      }
    }
    sum_ext(p, q, k, n);
  } else {
    assert forall|t: int| k <= t < n implies #[trigger] p(t) == 0real by {
      let (a, b) = ((f.h)(t), x(t));
      if a == 0real { assert(0real * b == 0real) by (nonlinear_arith); }
      else { sw_left(h0, hw, h1, e, n, cur, k, kb, f, i, t); assert((f.h)(i) == 0real); assert(b == 0real); assert(a * 0real == 0real) by (nonlinear_arith); }
    }
    sum_zero(p, k, n);
  }
}
// in the rows that are touched the buffer is what it stands for
proof fn sw_stored(h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, f: Rf, i: int, c: int)
  requires
    ref3(f, n, cur, k), kbk(k, kb, cur), szeros(h0, n, cur, k, kb), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), 0 <= i < lastrow(cur, k), k <= c < n,
  ensures m1(h0, hw, h1, e, n, cur, k, kb, f, i, c) == el(h1, n, i, c),
{
  let s = f.t * cs(f.h, hw, n, c, k, n);
  if (f.h)(i) == 0real {
    assert(s * 0real == 0real) by (nonlinear_arith);
    assert(el(h1, n, i, c) == el(hw, n, i, c));
    assert(el(hw, n, i, c) == el(h0, n, i, c));
  }
}
pub proof fn sweep_eq(h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, h2: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, f: Rf)
  requires
    ref3(f, n, cur, k), kbk(k, kb, cur), szeros(h0, n, cur, k, kb), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), rap(h1, h2, n, k, lastrow(cur, k), 0, f.h, f.t), last_ok(e, n, cur),
  ensures
    meq(rr(f, n, lr(f, n, sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f))), sm(h2, e, n, cur, k + 1), n, n),
    szeros(h2, n, cur, k + 1, k + 1),
{
  let x = sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f);
  let (l, y, z) = (lr(f, n, x), rr(f, n, lr(f, n, x)), sm(h2, e, n, cur, k + 1));
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] y(r, c) == z(r, c) by {
    sw_dotr(h0, hw, h1, e, n, cur, k, kb, f, r);
    sw_left(h0, hw, h1, e, n, cur, k, kb, f, r, c);
    let s = f.t * vdot(f.h, colof(tr(l), r), n);
    if c < k {
      assert(s * 0real == 0real) by (nonlinear_arith);
      assert(y(r, c) == l(r, c));
      assert(el(h2, n, r, c) == el(h1, n, r, c)); assert(el(h1, n, r, c) == el(hw, n, r, c));
      if r != k || c != k - 1 { assert(el(hw, n, r, c) == el(h0, n, r, c)); }
    } else if r < lastrow(cur, k) {
      sw_stored(h0, hw, h1, e, n, cur, k, kb, f, r, c);
      assert(el(h2, n, r, c) == el(h1, n, r, c) - s * (f.h)(c));
      assert(alive(e, cur, k + 1, r, c));
    } else {
      let b = (f.h)(c);
      assert((f.t * 0real) * b == 0real) by (nonlinear_arith);
      assert(el(h2, n, r, c) == el(h1, n, r, c));
      let a = f.t * cs(f.h, hw, n, c, k, n);
      assert(a * 0real == 0real) by (nonlinear_arith);
      assert((f.h)(r) == 0real);
      assert(el(h1, n, r, c) == el(hw, n, r, c)); assert(el(hw, n, r, c) == el(h0, n, r, c));
    }
  }
  assert forall|r: int, c: int| k + 1 <= c && 0 <= r <= cur && (r == c + 2 || r == c + 3) && !(r == k + 3 && c == k + 1) implies #[trigger] el(h2, n, r, c) == 0real by {
    assert(el(h2, n, r, c) == el(h1, n, r, c));
    let a = f.t * cs(f.h, hw, n, c, k, n);
    assert(a * 0real == 0real) by (nonlinear_arith);
    assert((f.h)(r) == 0real);
    assert(el(h1, n, r, c) == el(hw, n, r, c)); assert(el(hw, n, r, c) == el(h0, n, r, c));
  }
}
// the buffer and the shift
pub open spec fn sx(h: Seq<E>, e: Seq<E>, n: int, cur: int, kb: int, ex: real) -> Mt { |r: int, c: int| sm(h, e, n, cur, kb)(r, c) + ej(ex, cur)(r, c) }
pub open spec fn madd(x: Mt, y: Mt) -> Mt { |r: int, c: int| x(r, c) + y(r, c) }
proof fn two_sided_add(f: Rf, n: int, x: Mt, y: Mt)
  ensures meq(rr(f, n, lr(f, n, madd(x, y))), madd(rr(f, n, lr(f, n, x)), rr(f, n, lr(f, n, y))), n, n),
{
  let s = madd(x, y);
  let d = msub(s, y);
  lr_sub(f, n, n, s, y);
  rr_sub(f, n, n, lr(f, n, s), lr(f, n, y));
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] d(i, c) == x(i, c) by { }
  lr_ext(f, n, n, d, x);
  let (p, q) = (lr(f, n, d), msub(lr(f, n, s), lr(f, n, y)));
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] q(i, c) == lr(f, n, x)(i, c) by { assert(p(i, c) == q(i, c)); assert(p(i, c) == lr(f, n, x)(i, c)); }
  rr_ext(f, n, n, q, lr(f, n, x));
  let (u, w) = (rr(f, n, lr(f, n, s)), madd(rr(f, n, lr(f, n, x)), rr(f, n, lr(f, n, y))));
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] u(i, c) == w(i, c) by {
    assert(rr(f, n, q)(i, c) == rr(f, n, lr(f, n, x))(i, c));
    assert(rr(f, n, q)(i, c) == msub(u, rr(f, n, lr(f, n, y)))(i, c));
  }
}
// one reflection of the sweep
pub proof fn sweep_step(a: Mt, v0: Seq<E>, v2: Seq<E>, h0: Seq<E>, hw: Seq<E>, h1: Seq<E>, h2: Seq<E>, e: Seq<E>, n: int, cur: int, k: int, kb: int, ex: real, w: real, f2: real, f: Rf)
  requires
    ms(a, v0, v0, madd(sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f), ej(ex, cur)), n, n, w, f2),
    ref3(f, n, cur, k), kbk(k, kb, cur), szeros(h0, n, cur, k, kb), wrote(h0, hw, n, k), lap(hw, h1, n, k, n, k, f.h, f.t), rap(h1, h2, n, k, lastrow(cur, k), 0, f.h, f.t), last_ok(e, n, cur),
    rap(v0, v2, n, k, n, 0, f.h, f.t), v0.len() == n * n,
  ensures ms(a, v2, v2, sx(h2, e, n, cur, k + 1, ex), n, n, w, f2), szeros(h2, n, cur, k + 1, k + 1),
{
  let x = sxk(h0, e, n, cur, k, kb, el(hw, n, k, k - 1), f);
  let (s, y) = (ej(ex, cur), sx(h2, e, n, cur, k + 1, ex));
  sweep_eq(h0, hw, h1, h2, e, n, cur, k, kb, f);
  ej_refl(f, n, ex, cur);
  two_sided_add(f, n, x, s);
  let b = rr(f, n, lr(f, n, madd(x, s)));
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] y(i, c) == b(i, c) by {
    assert(b(i, c) == madd(rr(f, n, lr(f, n, x)), rr(f, n, lr(f, n, s)))(i, c));
    assert(rr(f, n, lr(f, n, x))(i, c) == sm(h2, e, n, cur, k + 1)(i, c));
    assert(rr(f, n, lr(f, n, s))(i, c) == s(i, c));
  }
  let (z, z2) = (elm(v0, n), elm(v2, n));
  let rz = rr(f, n, z);
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < n implies #[trigger] z2(i, c) == rz(i, c) by {
    assert(el(v2, n, i, c) == if c >= k { el(v0, n, i, c) - (f.t * rs(f.h, v0, n, i, k, n)) * (f.h)(c) } else { el(v0, n, i, c) });
    rs_dot(f.h, v0, n, i, k);
    if c < k { let q = f.t * vdot(f.h, colof(tr(z), i), n); assert(q * 0real == 0real) by (nonlinear_arith); }
  }
  ms_refl(a, v0, v2, madd(x, s), y, n, w, f2, f);
}
} // mod
pub use qrm::*;
