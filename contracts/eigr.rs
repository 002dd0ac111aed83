// ---------------------------------------------------------------- symmetric eigenproblem: the result
pub mod egr {
use super::*;
// a square matrix with orthonormal rows has orthonormal columns: I - U'U is a projection of trace zero
pub proof fn orth_cols(u: Mt, n: int)
  requires orth(u, n), n >= 0,
  ensures orth(tr(u), n),
{
  let t = tr(u);
  let p = mm(t, u, n);
  let q = |i: int, j: int| kd(i, j) - p(i, j);
  // p is symmetric and idempotent
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] p(i, j) == p(j, i) by {
    mp_tr(t, u, n, i, j);
    mp_ext(tr(u), t, tr(t), u, n, j, j, i, i);
  }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mp(p, p, n, i, j) == p(i, j) by {
    // (t u)(t u) = t (u (t u)) = t ((u t) u) = t u
    mp_assoc(t, u, p, n, n, i, j);
    let up = mm(u, p, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] up(k, j) == u(k, j) by {
      mp_assoc(u, t, u, n, n, k, j);
      assert forall|l: int| 0 <= l < n implies #[trigger] mm(u, t, n)(k, l) == idm()(k, l) by { }
      mp_ext(mm(u, t, n), idm(), u, u, n, k, k, j, j);
      mp_id_l(u, n, k, j);
    }
    mp_ext(t, t, up, u, n, i, i, j, j);
  }
  let g = |c: int| vdot(colof(q, c), colof(q, c), n);
  let h = |c: int| vdot(colof(u, c), colof(u, c), n);
  let one = |c: int| 1real;
  assert forall|c: int| 0 <= c < n implies #[trigger] one(c) == g(c) + h(c) by {
    // q'q = q
    let tq0 = tr(q);
    let f1 = |k: int| colof(q, c)(k) * colof(q, c)(k);
    let f2 = |k: int| q(c, k) * q(k, c);
    assert forall|k: int| 0 <= k < n implies #[trigger] f1(k) == f2(k) by { assert(p(k, c) == p(c, k)); }
    sum_ext(f1, f2, 0, n);
    assert(g(c) == mp(q, q, n, c, c));
    mp_sub(q, idm(), p, q, n, c, c);
    mp_id_r(q, n, c, c);
    // (q p)(c, c) = p(c, c) - (p p)(c, c) = 0
    mp_lsub(idm(), p, q, p, n, n, c, c);
    mp_id_l(p, n, c, c);
    assert(mp(q, p, n, c, c) == 0real);
    assert(g(c) == 1real - p(c, c));
    let f3 = |k: int| colof(u, c)(k) * colof(u, c)(k);
    let f4 = |k: int| t(c, k) * u(k, c);
    sum_ext(f3, f4, 0, n);
  }
  sum_add(g, h, one, 0, n);
  sum_ones(one, n);
  fro_tr(u, n, n);
  let r = |c: int| vdot(colof(t, c), colof(t, c), n);
  assert forall|c: int| 0 <= c < n implies #[trigger] r(c) == one(c) by {
    let f3 = |k: int| colof(t, c)(k) * colof(t, c)(k);
    let f4 = |k: int| u(c, k) * t(k, c);
    sum_ext(f3, f4, 0, n);
    assert(mm(u, t, n)(c, c) == idm()(c, c));
  }
  sum_ext(r, one, 0, n);
  assert(fro2(q, n, n) == 0real);
  let w = mm(t, tr(t), n);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] w(i, j) == idm()(i, j) by {
    mp_ext(t, t, tr(t), u, n, i, i, j, j);
    fro_entry(q, n, n, i, j);
    let x = q(i, j);
    assert(x == 0real) by (nonlinear_arith) requires x * x <= 0real;
  }
}
pub proof fn sum_ones(f: spec_fn(int) -> real, n: int)
  requires n >= 0, forall|k: int| 0 <= k < n ==> #[trigger] f(k) == 1real,
  ensures sum(f, 0, n) == n as real,
  decreases n,
{ if n > 0 { sum_ones(f, n - 1); assert(f(n - 1) == 1real); } }
pub proof fn sum_small(f: spec_fn(int) -> real, n: int, w: real)
  requires n >= 0, forall|k: int| 0 <= k < n ==> rabs(#[trigger] f(k)) <= w,
  ensures rabs(sum(f, 0, n)) <= n as real * w,
  decreases n,
{
  if n > 0 {
    sum_small(f, n - 1, w);
    assert(rabs(f(n - 1)) <= w);
    let (a, b) = ((n - 1) as real, n as real);
    assert(b * w == a * w + w) by (nonlinear_arith) requires b == a + 1real;
  } else { let b = n as real; assert(b * w == 0real) by (nonlinear_arith) requires b == 0real; }
}
// a = u x u' up to w gives a u = u x up to n w
pub proof fn sides(a: Mt, u: Mt, x: Mt, n: int, w: real)
  requires n >= 0, orth(u, n), orth(tr(u), n), near(a, ubv(u, x, u, n, n), n, n, w),
  ensures near(mm(a, u, n), mm(u, x, n), n, n, n as real * w),
{
  let t = tr(u);
  let b = ubv(u, x, u, n, n);
  let (au, ux, d) = (mm(a, u, n), mm(u, x, n), msub(a, b));
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rabs(#[trigger] au(i, j) - ux(i, j)) <= n as real * w by {
    // b u = u (x (t u)) = u x
    let xt = mm(x, t, n);
    mp_assoc(u, xt, u, n, n, i, j);
    let y = mm(xt, u, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] y(k, j) == x(k, j) by {
      mp_assoc(x, t, u, n, n, k, j);
      let tu = mm(t, u, n);
      assert forall|l: int| 0 <= l < n implies #[trigger] tu(l, j) == idm()(l, j) by {
        assert(mm(t, tr(t), n)(l, j) == idm()(l, j));
        mp_ext(t, t, u, tr(t), n, l, l, j, j);
      }
      mp_ext(x, x, tu, idm(), n, k, k, j, j);
      mp_id_r(x, n, k, j);
    }
    mp_ext(u, u, y, x, n, i, i, j, j);
    assert(mp(b, u, n, i, j) == mp(mm(u, xt, n), u, n, i, j));
    // the rest
    mp_lsub(a, b, d, u, n, n, i, j);
    let f = |k: int| d(i, k) * u(k, j);
    assert forall|k: int| 0 <= k < n implies rabs(#[trigger] f(k)) <= w by {
      orth_entry(u, n, k, j);
      assert(rabs(a(i, k) - b(i, k)) <= w);
      small_times(d(i, k), u(k, j), w);
    }
    sum_small(f, n, w);
  }
}
pub proof fn small_times(x: real, y: real, w: real)
  requires rabs(x) <= w, rabs(y) <= 1real,
  ensures rabs(x * y) <= w,
{
  let (a, b) = (rabs(x), rabs(y));
  assert(a * b <= w) by (nonlinear_arith) requires 0real <= a <= w, 0real <= b <= 1real;
  assert(rabs(x * y) == a * b) by {
    if x < 0real { if y < 0real { assert(x * y == a * b) by (nonlinear_arith) requires a == -x, b == -y; } else { assert(x * y == -(a * b)) by (nonlinear_arith) requires a == -x, b == y; } }
    else { if y < 0real { assert(x * y == -(a * b)) by (nonlinear_arith) requires a == x, b == -y; } else { assert(x * y == a * b) by (nonlinear_arith) requires a == x, b == y; } }
    assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
  }
}
// orthogonal eigenvectors; the product is a, and a v = v d, up to what dropping negligible elements costs; sorted
pub open spec fn eslack_of(a: Mt, n: int) -> real { eslack(rsqrt(fro2(a, n, n)), n) }
pub open spec fn eig_ok(a: Mt, d: Seq<E>, u: Mt, n: int) -> bool {
  orth(u, n) && orth(tr(u), n) && sorted_to(d, n, n) && near(a, ubv(u, dg(d), u, n, n), n, n, eslack_of(a, n)) && near(mm(a, u, n), mm(u, dg(d), n), n, n, n as real * eslack_of(a, n))
}
pub proof fn eig_ok_ext(a: Mt, b: Mt, d: Seq<E>, u: Mt, n: int)
  requires eig_ok(a, d, u, n), meq(a, b, n, n),
  ensures eig_ok(b, d, u, n),
{
  fro_ext(a, b, n, n);
  let (x, y, z) = (ubv(u, dg(d), u, n, n), mm(a, u, n), mm(b, u, n));
  let w = mm(u, dg(d), n);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rabs(#[trigger] b(i, j) - x(i, j)) <= eslack_of(b, n) by { assert(rabs(a(i, j) - x(i, j)) <= eslack_of(a, n)); assert(a(i, j) == b(i, j)); }
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rabs(#[trigger] z(i, j) - w(i, j)) <= n as real * eslack_of(b, n) by {
    assert(rabs(y(i, j) - w(i, j)) <= n as real * eslack_of(a, n));
    mp_ext(a, b, u, u, n, i, i, j, j);
  }
}
pub proof fn eig_start(a: Mt, v1: Seq<E>, d1: Seq<E>, e1: Seq<E>, n: int, f2: real)
  requires ms(a, v1, v1, tq(d1, e1), n, n, 0real, f2),
  ensures orth(elm(v1, n), n),
{ reveal(ms); }
pub proof fn eig_done(a: Mt, v1: Seq<E>, d1: Seq<E>, e1: Seq<E>, v2: Seq<E>, d2: Seq<E>, u: Mt, n: int)
  requires
    n > 0, ms(a, v1, v1, tq(d1, e1), n, n, 0real, fro2(a, n, n)), qst(ic_of(v1, d1, e1, n), v2, dg(d2), 4 * n), sorted_to(d2, n, n),
    meq(u, elm(v2, n), n, n),
  ensures eig_ok(a, d2, u, n),
{
  reveal(ms);
  let k = ic_of(v1, d1, e1, n);
  let (fa, ft) = (fro2(a, n, n), fro2(tq(d1, e1), n, n));
  fro_nonneg(a, n, n); fro_nonneg(tq(d1, e1), n, n);
  rsqrt_def(fa); rsqrt_def(ft);
  root_le(rsqrt(ft), rsqrt(fa));
  tiny_nonneg();
  let (x, y, z) = (r_epsilon(), 4real * rsqrt(ft), 4real * rsqrt(fa));
  assert(x * y <= x * z) by (nonlinear_arith) requires x > 0real, y <= z;
  let (c, t, s) = ((4 * n) as real, ethr(rsqrt(ft)), ethr(rsqrt(fa)));
  assert(c * t <= c * s) by (nonlinear_arith) requires c >= 0real, t <= s;
  let u2 = elm(v2, n);
  let b = ubv(u2, dg(d2), u2, n, n);
  let b2 = ubv(u, dg(d2), u, n, n);
  ubv_ext(u, dg(d2), u, u2, dg(d2), u2, n, n);
  orth_ext(u2, u, n);
  assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies rabs(#[trigger] a(i, j) - b2(i, j)) <= eslack_of(a, n) by {
    assert(rabs(a(i, j) - (k.a)(i, j)) <= 0real);
    assert(rabs((k.a)(i, j) - b(i, j)) <= c * t);
    assert(b(i, j) == b2(i, j));
  }
  orth_cols(u, n);
  sides(a, u, dg(d2), n, eslack_of(a, n));
}
}
pub use egr::*;
