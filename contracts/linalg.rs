// ---------------------------------------------------------------- matrices as functions, products, triangular systems
pub type Mt = spec_fn(int, int) -> real;
pub open spec fn el(d: Seq<E>, n: int, i: int, j: int) -> real { v(d[i * n + j]) }
pub mod lin {
use super::*;
pub open spec fn fnof(m: &Matrix<E>) -> Mt { |i: int, j: int| v(m.at(i, j)) }
pub open spec fn elm(x: Seq<E>, nx: int) -> Mt { |i: int, j: int| el(x, nx, i, j) }
pub open spec fn tr(a: Mt) -> Mt { |i: int, j: int| a(j, i) }
pub open spec fn kd(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
pub open spec fn idm() -> Mt { |i: int, j: int| kd(i, j) }
pub open spec fn col(x: Seq<real>) -> Mt { |i: int, j: int| x[i] }
// (a*b)(i, j), the inner dimension being n
pub open spec fn mp(a: Mt, b: Mt, n: int, i: int, j: int) -> real { sum(|k: int| a(i, k) * b(k, j), 0, n) }
pub open spec fn mm(a: Mt, b: Mt, n: int) -> Mt { |i: int, j: int| mp(a, b, n, i, j) }
pub open spec fn meq(a: Mt, b: Mt, m: int, n: int) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] a(i, j) == b(i, j) }
pub proof fn mp_ext(a: Mt, a2: Mt, b: Mt, b2: Mt, n: int, i: int, i2: int, j: int, j2: int)
  requires
    forall|k: int| 0 <= k < n ==> #[trigger] a(i, k) == a2(i2, k),
    forall|k: int| 0 <= k < n ==> #[trigger] b(k, j) == b2(k, j2),
  ensures mp(a, b, n, i, j) == mp(a2, b2, n, i2, j2),
{
  let f = |k: int| a(i, k) * b(k, j);
  let g = |k: int| a2(i2, k) * b2(k, j2);
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(a(i, k) == a2(i2, k)); assert(b(k, j) == b2(k, j2)); }
  sum_ext(f, g, 0, n);
}
pub proof fn mp_assoc(a: Mt, b: Mt, c: Mt, n: int, p: int, i: int, j: int)
  ensures mp(mm(a, b, n), c, p, i, j) == mp(a, mm(b, c, p), n, i, j),
{
  // sum_k (sum_t a(i,t) b(t,k)) c(k,j)
  let f = |k: int, t: int| a(i, t) * b(t, k) * c(k, j);
  let lhs = |k: int| mm(a, b, n)(i, k) * c(k, j);
  assert forall|k: int| 0 <= k < p implies #[trigger] lhs(k) == inner(f, 0, n)(k) by {
    let g = |t: int| a(i, t) * b(t, k);
    let h = |t: int| f(k, t);
    let ck = c(k, j);
    assert forall|t: int| 0 <= t < n implies #[trigger] h(t) == ck * g(t) by { assert(a(i, t) * b(t, k) * ck == ck * (a(i, t) * b(t, k))) by (nonlinear_arith); }
    sum_scale(g, h, ck, 0, n);
    let s = sum(g, 0, n);
    assert(s * ck == ck * s) by (nonlinear_arith);
  }
  sum_ext(lhs, inner(f, 0, n), 0, p);
  sum_swap(f, 0, p, 0, n);
  let rhs = |t: int| a(i, t) * mm(b, c, p)(t, j);
  assert forall|t: int| 0 <= t < n implies #[trigger] rhs(t) == outer(f, 0, p)(t) by {
    let g = |k: int| b(t, k) * c(k, j);
    let h = |k: int| f(k, t);
    let at = a(i, t);
    assert forall|k: int| 0 <= k < p implies #[trigger] h(k) == at * g(k) by { assert(at * b(t, k) * c(k, j) == at * (b(t, k) * c(k, j))) by (nonlinear_arith); }
    sum_scale(g, h, at, 0, p);
  }
  sum_ext(rhs, outer(f, 0, p), 0, n);
}
// multiplying by the identity
pub proof fn mp_id_r(a: Mt, n: int, i: int, j: int)
  requires 0 <= j < n,
  ensures mp(a, idm(), n, i, j) == a(i, j),
{
  let f = |k: int| a(i, k) * idm()(k, j);
  assert forall|k: int| 0 <= k < n && k != j implies #[trigger] f(k) == 0real by { assert(a(i, k) * 0real == 0real) by (nonlinear_arith); }
  sum_single(f, 0, n, j);
  assert(a(i, j) * 1real == a(i, j)) by (nonlinear_arith);
}
pub proof fn mp_id_l(b: Mt, n: int, i: int, j: int)
  requires 0 <= i < n,
  ensures mp(idm(), b, n, i, j) == b(i, j),
{
  let f = |k: int| idm()(i, k) * b(k, j);
  assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by { assert(0real * b(k, j) == 0real) by (nonlinear_arith); }
  sum_single(f, 0, n, i);
  assert(1real * b(i, j) == b(i, j)) by (nonlinear_arith);
}
pub proof fn mp_zero(a: Mt, b: Mt, n: int, i: int, j: int)
  requires forall|k: int| 0 <= k < n ==> #[trigger] b(k, j) == 0real,
  ensures mp(a, b, n, i, j) == 0real,
{
  let f = |k: int| a(i, k) * b(k, j);
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 0real by { assert(b(k, j) == 0real); assert(a(i, k) * 0real == 0real) by (nonlinear_arith); }
  sum_zero(f, 0, n);
}
// (a*b)' = b'*a'
pub proof fn mp_tr(a: Mt, b: Mt, n: int, i: int, j: int)
  ensures mp(a, b, n, i, j) == mp(tr(b), tr(a), n, j, i),
{
  let f = |k: int| a(i, k) * b(k, j);
  let g = |k: int| tr(b)(j, k) * tr(a)(k, i);
  assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(a(i, k) * b(k, j) == b(k, j) * a(i, k)) by (nonlinear_arith); }
  sum_ext(f, g, 0, n);
}
pub proof fn mp_sub(a: Mt, b: Mt, c: Mt, d: Mt, n: int, i: int, j: int)
  requires forall|k: int| 0 <= k < n ==> #[trigger] d(k, j) == b(k, j) - c(k, j),
  ensures mp(a, d, n, i, j) == mp(a, b, n, i, j) - mp(a, c, n, i, j),
{
  let f = |k: int| a(i, k) * d(k, j);
  let g = |k: int| a(i, k) * c(k, j);
  let h = |k: int| a(i, k) * b(k, j);
  assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == f(k) + g(k) by {
    assert(d(k, j) == b(k, j) - c(k, j));
    let (x, y, z) = (a(i, k), b(k, j), c(k, j));
    assert(x * y == x * (y - z) + x * z) by (nonlinear_arith);
  }
  sum_add(f, g, h, 0, n);
}
// ---- null vectors
pub open spec fn nullv(a: Mt, m: int, n: int, x: Seq<real>) -> bool {
  x.len() == n && forall|i: int| 0 <= i < m ==> #[trigger] mp(a, col(x), n, i, 0) == 0real
}
pub open spec fn nonzero(x: Seq<real>) -> bool { exists|i: int| 0 <= i < x.len() && #[trigger] x[i] != 0real }
// the columns of the m-by-n matrix are linearly dependent; for a square matrix: it is singular
pub open spec fn dependent(a: Mt, m: int, n: int) -> bool { exists|x: Seq<real>| #[trigger] nullv(a, m, n, x) && nonzero(x) }
pub open spec fn lower(l: Mt, n: int) -> bool { forall|i: int, k: int| 0 <= i < k && k < n ==> #[trigger] l(i, k) == 0real }
pub open spec fn upper(u: Mt, m: int, n: int) -> bool { forall|i: int, k: int| 0 <= k < i && i < m && k < n ==> #[trigger] u(i, k) == 0real }
pub open spec fn nzdiag(a: Mt, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] a(i, i) != 0real }
// a lower triangular matrix with a non-zero diagonal is injective
pub proof fn lower_inj(l: Mt, x: Mt, n: int, j: int, i: int)
  requires lower(l, n), nzdiag(l, n), forall|r: int| 0 <= r < n ==> #[trigger] mp(l, x, n, r, j) == 0real, 0 <= i < n,
  ensures x(i, j) == 0real,
  decreases i,
{
  let f = |k: int| l(i, k) * x(k, j);
  assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by {
    if k < i { lower_inj(l, x, n, j, k); assert(l(i, k) * 0real == 0real) by (nonlinear_arith); }
    else { assert(l(i, k) == 0real); assert(0real * x(k, j) == 0real) by (nonlinear_arith); }
  }
  sum_single(f, 0, n, i);
  assert(mp(l, x, n, i, j) == 0real);
  let (a, b) = (l(i, i), x(i, j));
  assert(b == 0real) by (nonlinear_arith) requires a * b == 0real, a != 0real;
}
// an upper triangular matrix with a non-zero diagonal is injective
pub proof fn upper_inj(u: Mt, x: Mt, n: int, j: int, i: int)
  requires upper(u, n, n), nzdiag(u, n), forall|r: int| 0 <= r < n ==> #[trigger] mp(u, x, n, r, j) == 0real, 0 <= i < n,
  ensures x(i, j) == 0real,
  decreases n - i,
{
  let f = |k: int| u(i, k) * x(k, j);
  assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by {
    if k > i { upper_inj(u, x, n, j, k); assert(u(i, k) * 0real == 0real) by (nonlinear_arith); }
    else { assert(u(i, k) == 0real); assert(0real * x(k, j) == 0real) by (nonlinear_arith); }
  }
  sum_single(f, 0, n, i);
  assert(mp(u, x, n, i, j) == 0real);
  let (a, b) = (u(i, i), x(i, j));
  assert(b == 0real) by (nonlinear_arith) requires a * b == 0real, a != 0real;
}
// an upper triangular matrix with a zero on its diagonal has a null vector: back-substitute from the first zero
pub open spec fn rowdot(u: Mt, x: Seq<real>, r: int, lo: int, n: int) -> real { sum(|k: int| u(r, k) * x[k], lo, n) }
pub open spec fn nv(u: Mt, n: int, j: int, i: int) -> Seq<real>
  decreases j - i
{
  if i >= j { Seq::new(n as nat, |k: int| kd(k, j)) }
  else { let y = nv(u, n, j, i + 1); y.update(i, -(rowdot(u, y, i, i + 1, n)) / u(i, i)) }
}
pub proof fn nv_zero(u: Mt, n: int, j: int, i: int)
  requires 0 <= i <= j < n, forall|k: int| 0 <= k < j ==> #[trigger] u(k, k) != 0real,
  ensures
    nv(u, n, j, i).len() == n, nv(u, n, j, i)[j] == 1real,
    forall|k: int| j < k < n ==> #[trigger] nv(u, n, j, i)[k] == 0real,
    forall|r: int| i <= r < j ==> #[trigger] rowdot(u, nv(u, n, j, i), r, r, n) == 0real,
  decreases j - i,
{
  if i < j {
    nv_zero(u, n, j, i + 1);
    let y = nv(u, n, j, i + 1);
    let z = nv(u, n, j, i);
    assert forall|r: int| i <= r < j implies #[trigger] rowdot(u, z, r, r, n) == 0real by {
      let f = |k: int| u(r, k) * y[k];
      let g = |k: int| u(r, k) * z[k];
      if r > i {
        assert forall|k: int| r <= k < n implies #[trigger] f(k) == g(k) by { }
        sum_ext(f, g, r, n);
        assert(rowdot(u, y, r, r, n) == 0real);
      } else {
        assert forall|k: int| i + 1 <= k < n implies #[trigger] f(k) == g(k) by { }
        sum_ext(f, g, i + 1, n);
        sum_first(g, i, n);
        let s = sum(f, i + 1, n);
        let d = u(i, i);
        assert(d != 0real);
        assert(z[i] == (-s) / d);
        assert(d * ((-s) / d) == -s) by (nonlinear_arith) requires d != 0real;
      }
    }
  }
}
pub proof fn upper_dep(u: Mt, m: int, n: int, j: int)
  requires upper(u, m, n), 0 <= j < n, j < m ==> u(j, j) == 0real, forall|k: int| 0 <= k < j ==> #[trigger] u(k, k) != 0real, j <= m,
  ensures nullv(u, m, n, nv(u, n, j, 0)), nonzero(nv(u, n, j, 0)),
{
  nv_zero(u, n, j, 0);
  let x = nv(u, n, j, 0);
  assert(x[j] != 0real);
  assert forall|r: int| 0 <= r < m implies #[trigger] mp(u, col(x), n, r, 0) == 0real by {
    let f = |k: int| u(r, k) * col(x)(k, 0);
    let g = |k: int| u(r, k) * x[k];
    if r < j {
      sum_split(f, 0, r, n);
      assert forall|k: int| 0 <= k < r implies #[trigger] f(k) == 0real by { assert(u(r, k) == 0real); assert(0real * x[k] == 0real) by (nonlinear_arith); }
      sum_zero(f, 0, r);
      assert forall|k: int| r <= k < n implies #[trigger] f(k) == g(k) by { }
      sum_ext(f, g, r, n);
      assert(rowdot(u, nv(u, n, j, 0), r, r, n) == 0real);
    } else {
      assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == 0real by {
        if k < r { assert(u(r, k) == 0real); assert(0real * x[k] == 0real) by (nonlinear_arith); }
        else if k > j { assert(x[k] == 0real); assert(u(r, k) * 0real == 0real) by (nonlinear_arith); }
        else { assert(k == j && r == j); assert(u(j, j) == 0real); assert(0real * x[k] == 0real) by (nonlinear_arith); }
      }
      sum_zero(f, 0, n);
    }
  }
}
// the first zero on the diagonal
pub proof fn first_zero(u: Mt, j: int) -> (r: int)
  requires j >= 0, u(j, j) == 0real,
  ensures 0 <= r <= j, u(r, r) == 0real, forall|k: int| 0 <= k < r ==> #[trigger] u(k, k) != 0real,
  decreases j,
{
  if exists|k: int| 0 <= k < j && #[trigger] u(k, k) == 0real { let k = choose|k: int| 0 <= k < j && #[trigger] u(k, k) == 0real; first_zero(u, k) } else { j }
}
// ---- triangular substitution, in place, on the rows of x (n rows of nx elements)
pub open spec fn fwd(l: Mt, x: Seq<E>, y: Mt, n: int, nx: int, k: int) -> bool {
  forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] fwd_row(l, x, nx, k, i, c) == y(i, c)
}
pub open spec fn fwd_row(l: Mt, x: Seq<E>, nx: int, k: int, i: int, c: int) -> real { el(x, nx, i, c) + sum(|t: int| l(i, t) * el(x, nx, t, c), 0, imin(i, k)) }
pub proof fn fwd_start(l: Mt, x: Seq<E>, y: Mt, n: int, nx: int)
  requires forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] el(x, nx, i, c) == y(i, c),
  ensures fwd(l, x, y, n, nx, 0),
{
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] fwd_row(l, x, nx, 0, i, c) == y(i, c) by { assert(el(x, nx, i, c) == y(i, c)); }
}
pub proof fn fwd_step(l: Mt, x: Seq<E>, z: Seq<E>, y: Mt, n: int, nx: int, k: int)
  requires
    fwd(l, x, y, n, nx, k), 0 <= k < n,
    forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] el(z, nx, i, c) == if k < i { el(x, nx, i, c) - el(x, nx, k, c) * l(i, k) } else { el(x, nx, i, c) },
  ensures fwd(l, z, y, n, nx, k + 1),
{
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] fwd_row(l, z, nx, k + 1, i, c) == y(i, c) by {
    assert(fwd_row(l, x, nx, k, i, c) == y(i, c));
    let f = |t: int| l(i, t) * el(x, nx, t, c);
    let g = |t: int| l(i, t) * el(z, nx, t, c);
    let h = imin(i, k);
    assert forall|t: int| 0 <= t < h implies #[trigger] f(t) == g(t) by { assert(el(z, nx, t, c) == el(x, nx, t, c)); }
    sum_ext(f, g, 0, h);
    assert(el(z, nx, i, c) == if k < i { el(x, nx, i, c) - el(x, nx, k, c) * l(i, k) } else { el(x, nx, i, c) });
    if k < i {
      assert(el(z, nx, k, c) == el(x, nx, k, c));
      assert(sum(g, 0, k + 1) == sum(g, 0, k) + g(k));
      let (p, q) = (el(x, nx, k, c), l(i, k));
      assert(p * q == q * p) by (nonlinear_arith);
    }
  }
}
// the result: L*x = y for a unit lower triangular L
pub proof fn fwd_done(l: Mt, x: Seq<E>, y: Mt, n: int, nx: int)
  requires fwd(l, x, y, n, nx, n), lower(l, n), forall|i: int| 0 <= i < n ==> #[trigger] l(i, i) == 1real,
  ensures forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] mp(l, elm(x, nx), n, i, c) == y(i, c),
{
  let xm = elm(x, nx);
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] mp(l, xm, n, i, c) == y(i, c) by {
    assert(fwd_row(l, x, nx, n, i, c) == y(i, c));
    let f = |t: int| l(i, t) * xm(t, c);
    let g = |t: int| l(i, t) * el(x, nx, t, c);
    sum_split(f, 0, i, n);
    sum_first(f, i, n);
    assert forall|k: int| i + 1 <= k < n implies #[trigger] f(k) == 0real by { assert(l(i, k) == 0real); assert(0real * xm(k, c) == 0real) by (nonlinear_arith); }
    sum_zero(f, i + 1, n);
    assert forall|t: int| 0 <= t < i implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, 0, i);
    assert(l(i, i) == 1real);
    assert(1real * xm(i, c) == xm(i, c)) by (nonlinear_arith);
  }
}
// backward: rows >= k are finished
pub open spec fn bwd(u: Mt, x: Seq<E>, y: Mt, n: int, nx: int, k: int) -> bool {
  forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] bwd_row(u, x, n, nx, k, i, c) == y(i, c)
}
pub open spec fn bwd_row(u: Mt, x: Seq<E>, n: int, nx: int, k: int, i: int, c: int) -> real {
  let f = |t: int| u(i, t) * el(x, nx, t, c);
  if i >= k { sum(f, i, n) } else { el(x, nx, i, c) + sum(f, k, n) }
}
pub proof fn bwd_start(u: Mt, x: Seq<E>, y: Mt, n: int, nx: int)
  requires forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] el(x, nx, i, c) == y(i, c),
  ensures bwd(u, x, y, n, nx, n),
{
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] bwd_row(u, x, n, nx, n, i, c) == y(i, c) by { assert(el(x, nx, i, c) == y(i, c)); }
}
// row k is divided by the pivot, then subtracted from the rows above it
pub proof fn bwd_step(u: Mt, x: Seq<E>, z: Seq<E>, y: Mt, n: int, nx: int, k: int)
  requires
    bwd(u, x, y, n, nx, k + 1), 0 <= k < n, u(k, k) != 0real,
    forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] el(z, nx, i, c) ==
      if i < k { el(x, nx, i, c) - (el(x, nx, k, c) / u(k, k)) * u(i, k) } else if i == k { el(x, nx, i, c) / u(k, k) } else { el(x, nx, i, c) },
  ensures bwd(u, z, y, n, nx, k),
{
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] bwd_row(u, z, n, nx, k, i, c) == y(i, c) by {
    assert(bwd_row(u, x, n, nx, k + 1, i, c) == y(i, c));
    let f = |t: int| u(i, t) * el(x, nx, t, c);
    let g = |t: int| u(i, t) * el(z, nx, t, c);
    assert forall|t: int| k < t < n implies #[trigger] f(t) == g(t) by { assert(el(z, nx, t, c) == el(x, nx, t, c)); }
    let lo = if i > k { i } else { k + 1 };
    sum_ext(f, g, lo, n);
    if i <= k {
      sum_first(g, k, n);
      assert(el(z, nx, k, c) == el(x, nx, k, c) / u(k, k));
      let (p, q, w) = (el(x, nx, k, c), u(k, k), u(i, k));
      if i == k { assert(q * (p / q) == p) by (nonlinear_arith) requires q != 0real; }
      else {
        assert(el(z, nx, i, c) == el(x, nx, i, c) - (p / q) * w);
        let s = p / q;
        assert(s * w == w * s) by (nonlinear_arith);
      }
    }
  }
}
pub proof fn bwd_done(u: Mt, x: Seq<E>, y: Mt, n: int, nx: int)
  requires bwd(u, x, y, n, nx, 0), upper(u, n, n),
  ensures forall|i: int, c: int| 0 <= i < n && 0 <= c < nx ==> #[trigger] mp(u, elm(x, nx), n, i, c) == y(i, c),
{
  let xm = elm(x, nx);
  assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nx implies #[trigger] mp(u, xm, n, i, c) == y(i, c) by {
    assert(bwd_row(u, x, n, nx, 0, i, c) == y(i, c));
    let f = |t: int| u(i, t) * xm(t, c);
    let g = |t: int| u(i, t) * el(x, nx, t, c);
    sum_split(f, 0, i, n);
    assert forall|k: int| 0 <= k < i implies #[trigger] f(k) == 0real by { assert(u(i, k) == 0real); assert(0real * xm(k, c) == 0real) by (nonlinear_arith); }
    sum_zero(f, 0, i);
    assert forall|t: int| i <= t < n implies #[trigger] f(t) == g(t) by { }
    sum_ext(f, g, i, n);
  }
}
pub proof fn el_update(d: Seq<E>, m: int, n: int, i: int, j: int, x: E)
  requires 0 <= i < m, 0 <= j < n, d.len() == m * n,
  ensures
    0 <= i * n + j < m * n,
    forall|i2: int, c: int| 0 <= i2 < m && 0 <= c < n ==> #[trigger] el(d.update(i * n + j, x), n, i2, c) == if i2 == i && c == j { v(x) } else { el(d, n, i2, c) },
{
  broadcast use ix::index_facts;
  assert(i * n + n <= m * n);
  assert forall|i2: int, c: int| 0 <= i2 < m && 0 <= c < n implies #[trigger] el(d.update(i * n + j, x), n, i2, c) == (if i2 == i && c == j { v(x) } else { el(d, n, i2, c) }) by {
    assert(i2 * n + n <= m * n);
    if i2 != i { if i2 < i { assert(i2 * n + n <= i * n); } else { assert(i * n + n <= i2 * n); } }
  }
}
}
pub use lin::*;
