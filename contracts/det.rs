// ---------------------------------------------------------------- the determinant
pub mod dt {
use super::*;
pub type Row = spec_fn(int) -> real;
pub open spec fn with_row(a: Mt, r: int, x: Row) -> Mt { |i: int, j: int| if i == r { x(j) } else { a(i, j) } }
pub open spec fn swap_rows(a: Mt, r: int, s: int) -> Mt { |i: int, j: int| if i == r { a(s, j) } else if i == s { a(r, j) } else { a(i, j) } }
pub open spec fn axpy(x: Row, s: real, y: Row) -> Row { |j: int| x(j) + s * y(j) }
// d is a determinant of n-by-n matrices: a function of the elements, 1 on the identity, alternating and linear in each row.
// det_unique below shows that at most one function is.
pub open spec fn is_det(d: spec_fn(Mt) -> real, n: int) -> bool {
  &&& forall|a: Mt, b: Mt| meq(a, b, n, n) ==> #[trigger] d(a) == #[trigger] d(b)
  &&& d(idm()) == 1real
  &&& forall|a: Mt, r: int, s: int| 0 <= r < n && 0 <= s < n && r != s ==> #[trigger] d(swap_rows(a, r, s)) == -d(a)
  &&& forall|a: Mt, r: int, x: Row, s: real, y: Row| 0 <= r < n ==> #[trigger] d(with_row(a, r, axpy(x, s, y))) == d(with_row(a, r, x)) + s * d(with_row(a, r, y))
}
pub proof fn det_ext(d: spec_fn(Mt) -> real, n: int, a: Mt, b: Mt)
  requires is_det(d, n), meq(a, b, n, n),
  ensures d(a) == d(b),
{ }
// two equal rows
pub proof fn det_equal_rows(d: spec_fn(Mt) -> real, n: int, a: Mt, r: int, s: int)
  requires is_det(d, n), 0 <= r < n, 0 <= s < n, r != s, forall|j: int| 0 <= j < n ==> #[trigger] a(r, j) == a(s, j),
  ensures d(a) == 0real,
{
  let b = swap_rows(a, r, s);
  assert(meq(a, b, n, n)) by {
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] a(i, j) == b(i, j) by { assert(a(r, j) == a(s, j)); }
  }
  det_ext(d, n, a, b);
}
pub open spec fn rowof(y: Mt, k: int) -> Row { |j: int| y(k, j) }
pub open spec fn combo(x: Row, s: Row, y: Mt, lo: int, hi: int) -> Row { |j: int| x(j) + sum(|k: int| s(k) * y(k, j), lo, hi) }
// adding to a row a combination of rows that each annihilate the determinant in that place
pub proof fn det_combo(d: spec_fn(Mt) -> real, n: int, a: Mt, r: int, x: Row, s: Row, y: Mt, lo: int, hi: int)
  requires
    is_det(d, n), 0 <= r < n, lo <= hi,
    forall|k: int| lo <= k < hi ==> #[trigger] d(with_row(a, r, rowof(y, k))) == 0real,
  ensures d(with_row(a, r, combo(x, s, y, lo, hi))) == d(with_row(a, r, x)),
  decreases hi - lo,
{
  if hi == lo {
    det_ext(d, n, with_row(a, r, combo(x, s, y, lo, hi)), with_row(a, r, x));
  } else {
    let k = hi - 1;
    det_combo(d, n, a, r, x, s, y, lo, k);
    let yk = rowof(y, k);
    let p = combo(x, s, y, lo, k);
    let q = axpy(p, s(k), yk);
    det_ext(d, n, with_row(a, r, combo(x, s, y, lo, hi)), with_row(a, r, q));
    assert(d(with_row(a, r, q)) == d(with_row(a, r, p)) + s(k) * d(with_row(a, r, yk)));
    assert(d(with_row(a, r, rowof(y, k))) == 0real);
    assert(s(k) * 0real == 0real) by (nonlinear_arith);
  }
}
pub open spec fn prodd(u: Mt, lo: int, n: int) -> real
  decreases n - lo
{ if n <= lo { 1real } else { prodd(u, lo, n - 1) * u(n - 1, n - 1) } }
pub proof fn prodd_first(u: Mt, lo: int, n: int)
  requires lo < n,
  ensures prodd(u, lo, n) == u(lo, lo) * prodd(u, lo + 1, n),
  decreases n - lo,
{
  if lo + 1 == n {
    assert(prodd(u, lo, lo) == 1real);
    assert(prodd(u, lo, n) == prodd(u, lo, lo) * u(lo, lo));
    assert(1real * u(lo, lo) == u(lo, lo) * 1real) by (nonlinear_arith);
  } else {
    prodd_first(u, lo, n - 1);
    let (a, b, c) = (u(lo, lo), prodd(u, lo + 1, n - 1), u(n - 1, n - 1));
    assert((a * b) * c == a * (b * c)) by (nonlinear_arith);
  }
}
pub proof fn prodd_zero(u: Mt, lo: int, n: int)
  ensures (prodd(u, lo, n) == 0real) == (exists|k: int| lo <= k < n && #[trigger] u(k, k) == 0real),
  decreases n - lo,
{
  if lo < n {
    prodd_zero(u, lo, n - 1);
    let (a, b) = (prodd(u, lo, n - 1), u(n - 1, n - 1));
    assert((a * b == 0real) == (a == 0real || b == 0real)) by (nonlinear_arith);
    if exists|k: int| lo <= k < n && #[trigger] u(k, k) == 0real {
      let k = choose|k: int| lo <= k < n && #[trigger] u(k, k) == 0real;
      if k < n - 1 { assert(exists|k: int| lo <= k < n - 1 && #[trigger] u(k, k) == 0real); }
    }
  }
}
// rows >= r of u replaced by those of the identity
pub open spec fn id_from(u: Mt, r: int) -> Mt { |i: int, j: int| if i >= r { kd(i, j) } else { u(i, j) } }
pub proof fn det_upper(d: spec_fn(Mt) -> real, n: int, u: Mt, r: int)
  requires is_det(d, n), upper(u, n, n), 0 <= r <= n,
  ensures d(id_from(u, r)) == prodd(u, 0, r),
  decreases r,
{
  if r == 0 {
    det_ext(d, n, id_from(u, 0), idm());
  } else {
    let q = r - 1;
    det_upper(d, n, u, q);
    let a = id_from(u, r);
    let b = id_from(u, q);
    // row q of a is u(q, q) e_q + sum of u(q, c) e_c over c > q, and row c of a is e_c
    let e = |j: int| kd(q, j);
    let z = |j: int| 0real;
    let ue = axpy(z, u(q, q), e);
    let s = |k: int| u(q, k);
    let cb = combo(ue, s, idm(), r, n);
    assert(meq(a, with_row(a, q, cb), n, n)) by {
      assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] a(i, j) == with_row(a, q, cb)(i, j) by {
        if i == q {
          let f = |k: int| s(k) * idm()(k, j);
          if j >= r {
            assert forall|k: int| r <= k < n && k != j implies #[trigger] f(k) == 0real by { assert(s(k) * 0real == 0real) by (nonlinear_arith); }
            sum_single(f, r, n, j);
            assert(s(j) * 1real == s(j)) by (nonlinear_arith);
            assert(u(q, q) * 0real == 0real) by (nonlinear_arith);
          } else {
            assert forall|k: int| r <= k < n implies #[trigger] f(k) == 0real by { assert(s(k) * 0real == 0real) by (nonlinear_arith); }
            sum_zero(f, r, n);
            if j == q { assert(u(q, q) * 1real == u(q, q)) by (nonlinear_arith); } else { assert(u(q, q) * 0real == 0real) by (nonlinear_arith); assert(u(q, j) == 0real); }
          }
        }
      }
    }
    det_ext(d, n, a, with_row(a, q, cb));
    assert forall|k: int| r <= k < n implies #[trigger] d(with_row(a, q, rowof(idm(), k))) == 0real by {
      let w = with_row(a, q, rowof(idm(), k));
      assert forall|j: int| 0 <= j < n implies #[trigger] w(q, j) == w(k, j) by { }
      det_equal_rows(d, n, w, q, k);
    }
    det_combo(d, n, a, q, ue, s, idm(), r, n);
    // the zero row
    let az = with_row(a, q, z);
    let zz = axpy(z, -1real, z);
    det_ext(d, n, az, with_row(a, q, zz));
    assert(d(with_row(a, q, zz)) == d(with_row(a, q, z)) + (-1real) * d(with_row(a, q, z)));
    assert(d(with_row(a, q, ue)) == d(with_row(a, q, z)) + u(q, q) * d(with_row(a, q, e)));
    det_ext(d, n, b, with_row(a, q, e));
    let (x, y) = (u(q, q), d(b));
    assert(x * y == y * x) by (nonlinear_arith);
  }
}
// rows < r of l*u replaced by those of u
pub open spec fn u_upto(l: Mt, u: Mt, n: int, r: int) -> Mt { |i: int, j: int| if i < r { u(i, j) } else { mp(l, u, n, i, j) } }
pub proof fn det_lu_step(d: spec_fn(Mt) -> real, n: int, l: Mt, u: Mt, r: int)
  requires is_det(d, n), lower(l, n), forall|i: int| 0 <= i < n ==> #[trigger] l(i, i) == 1real, 0 <= r < n,
  ensures d(u_upto(l, u, n, r)) == d(u_upto(l, u, n, r + 1)),
{
  let a = u_upto(l, u, n, r);
  let b = u_upto(l, u, n, r + 1);
  let ur = |j: int| u(r, j);
  let s = |k: int| l(r, k);
  let cb = combo(ur, s, u, 0, r);
  assert(meq(a, with_row(a, r, cb), n, n)) by {
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] a(i, j) == with_row(a, r, cb)(i, j) by {
      if i == r {
        let f = |k: int| l(r, k) * u(k, j);
        let g = |k: int| s(k) * u(k, j);
        sum_split(f, 0, r, n);
        sum_first(f, r, n);
        assert forall|k: int| r + 1 <= k < n implies #[trigger] f(k) == 0real by { assert(l(r, k) == 0real); assert(0real * u(k, j) == 0real) by (nonlinear_arith); }
        sum_zero(f, r + 1, n);
        assert forall|k: int| 0 <= k < r implies #[trigger] f(k) == g(k) by { }
        sum_ext(f, g, 0, r);
        assert(l(r, r) == 1real);
        assert(1real * u(r, j) == u(r, j)) by (nonlinear_arith);
      }
    }
  }
  det_ext(d, n, a, with_row(a, r, cb));
  assert forall|k: int| 0 <= k < r implies #[trigger] d(with_row(a, r, rowof(u, k))) == 0real by {
    let w = with_row(a, r, rowof(u, k));
    assert forall|j: int| 0 <= j < n implies #[trigger] w(r, j) == w(k, j) by { }
    det_equal_rows(d, n, w, r, k);
  }
  det_combo(d, n, a, r, ur, s, u, 0, r);
  det_ext(d, n, b, with_row(a, r, ur));
}
pub proof fn det_lu(d: spec_fn(Mt) -> real, n: int, l: Mt, u: Mt, r: int)
  requires is_det(d, n), lower(l, n), forall|i: int| 0 <= i < n ==> #[trigger] l(i, i) == 1real, upper(u, n, n), 0 <= r <= n,
  ensures d(u_upto(l, u, n, r)) == prodd(u, 0, n),
  decreases n - r,
{
  if r == n {
    det_ext(d, n, u_upto(l, u, n, n), id_from(u, n));
    det_upper(d, n, u, n);
  } else {
    det_lu_step(d, n, l, u, r);
    det_lu(d, n, l, u, r + 1);
  }
}
// rows taken in the order p
pub open spec fn rows_by(a: Mt, p: Seq<int>) -> Mt { |i: int, j: int| a(p[i], j) }
pub open spec fn sgn(pos: bool) -> real { if pos { 1real } else { -1real } }
pub proof fn det_perm(d: spec_fn(Mt) -> real, n: int, a: Mt, h: Seq<(int, int)>)
  requires is_det(d, n), swaps_ok(n, h), n >= 0,
  ensures d(rows_by(a, after_swaps(n, h))) == sgn(h.len() % 2 == 0) * d(a),
  decreases h.len(),
{
  if h.len() == 0 {
    det_ext(d, n, rows_by(a, after_swaps(n, h)), a);
    assert(1real * d(a) == d(a)) by (nonlinear_arith);
  } else {
    let h2 = h.drop_last();
    assert(swaps_ok(n, h2)) by { assert forall|k: int| 0 <= k < h2.len() implies 0 <= (#[trigger] h2[k]).0 < n && 0 <= h2[k].1 < n && h2[k].0 != h2[k].1 by { assert(h2[k] == h[k]); } }
    det_perm(d, n, a, h2);
    assert(h.last() == h[h.len() - 1]);
    let (x, y) = h.last();
    swaps_perm(n, h2);
    let b = rows_by(a, after_swaps(n, h2));
    det_ext(d, n, rows_by(a, after_swaps(n, h)), swap_rows(b, x, y));
    let s = d(a);
    assert(-(1real * s) == (-1real) * s && -((-1real) * s) == 1real * s) by (nonlinear_arith);
  }
}
// no two functions are determinants and differ
}
pub use dt::*;
