// ---------------------------------------------------------------- the eigenvectors
pub mod gfm {
use super::*;
pub open spec fn ab(x: Mt, j: int) -> spec_fn(int) -> real { |l: int| rabs(x(l, j)) }
pub open spec fn l1(x: Mt, n: int, j: int) -> real { sum(ab(x, j), 0, n) }
pub open spec fn lc(x: Mt, al: real, be: real, i: int, j: int, p: int) -> real { al * x(i, j) + be * x(i, p) }
// a x_j = al x_j + be x_p, up to b times the size of the vector (columns j and p are its real and imaginary parts)
pub open spec fn lw(x: Mt, n: int, j: int, p: int) -> real { l1(x, n, j) + if p == j { 0real } else { l1(x, n, p) } }
pub open spec fn near_eig(a: Mt, x: Mt, n: int, j: int, p: int, al: real, be: real, b: real) -> bool { forall|i: int| 0 <= i < n ==> rabs(#[trigger] mp(a, x, n, i, j) - lc(x, al, be, i, j, p)) <= b * lw(x, n, j, p) }
pub open spec fn nzcol(x: Mt, n: int, j: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] x(i, j) != 0real }
pub open spec fn eigcol(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, j: int, b: real) -> bool {
  &&& v(e[j]) == 0real ==> nzcol(x, n, j) && near_eig(a, x, n, j, j, v(d[j]), 0real, b)
  &&& v(e[j]) > 0real ==> j + 1 < n && v(e[j + 1]) == -v(e[j]) && v(d[j + 1]) == v(d[j])
  &&& v(e[j]) < 0real ==> j > 0 && v(e[j - 1]) == -v(e[j]) && v(d[j - 1]) == v(d[j]) && nzcol(x, n, j - 1)
        && near_eig(a, x, n, j - 1, j, v(d[j]), v(e[j]), b) && near_eig(a, x, n, j, j - 1, v(d[j]), -v(e[j]), b)
}
#[verifier::opaque]
pub open spec fn eig_cols(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, b: real) -> bool { d.len() == n && e.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] eigcol(a, x, d, e, n, j, b) }
proof fn l1_nonneg(x: Mt, n: int, j: int)
  ensures l1(x, n, j) >= 0real,
{ sum_nonneg(ab(x, j), 0, n); }
proof fn sum_abs(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
  requires n >= 0, forall|k: int| 0 <= k < n ==> rabs(#[trigger] f(k)) <= g(k),
  ensures rabs(sum(f, 0, n)) <= sum(g, 0, n),
  decreases n,
{ if n > 0 { sum_abs(f, g, n - 1); assert(rabs(f(n - 1)) <= g(n - 1)); } }
// rows of size w times the column
proof fn row_small(e: Mt, x: Mt, n: int, i: int, j: int, w: real)
  requires n >= 0, w >= 0real, forall|k: int| 0 <= k < n ==> rabs(#[trigger] e(i, k)) <= w,
  ensures rabs(mp(e, x, n, i, j)) <= w * l1(x, n, j),
{
  let f = |k: int| e(i, k) * x(k, j);
  let a = ab(x, j);
  let g = |k: int| w * a(k);
  assert forall|k: int| 0 <= k < n implies rabs(#[trigger] f(k)) <= g(k) by {
    abs_mul(e(i, k), x(k, j));
    let (p, q) = (rabs(e(i, k)), rabs(x(k, j)));
    assert(p <= w);
    assert(p * q <= w * q) by (nonlinear_arith) requires p <= w, q >= 0real;
  }
  sum_abs(f, g, n);
  sum_scale(a, g, w, 0, n);
}
proof fn lc_ext(t: Mt, x: Mt, n: int, al: real, be: real, i: int, j: int, p: int)
  ensures mp(t, |r: int, c: int| lc(x, al, be, r, c, p), n, i, j) == al * mp(t, x, n, i, j) + be * mp(t, x, n, i, p),
{
  let f = |k: int| t(i, k) * x(k, j);
  let g = |k: int| t(i, k) * x(k, p);
  let (f2, g2) = (|k: int| al * f(k), |k: int| be * g(k));
  let y = |r: int, c: int| lc(x, al, be, r, c, p);
  let h = |k: int| t(i, k) * y(k, j);
  sum_scale(f, f2, al, 0, n); sum_scale(g, g2, be, 0, n);
  assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == f2(k) + g2(k) by {
    let (a, b, c) = (t(i, k), x(k, j), x(k, p));
    let (ab1, bc) = (al * b, be * c);
    assert(a * (ab1 + bc) == a * ab1 + a * bc) by (nonlinear_arith);
    assert(a * ab1 == al * (a * b)) by (nonlinear_arith) requires ab1 == al * b;
    assert(a * bc == be * (a * c)) by (nonlinear_arith) requires bc == be * c;
  }
  sum_add(f2, g2, h, 0, n);
}
// x = z y
pub open spec fn prod(vd: Seq<E>, zd: Seq<E>, y: Mt, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] el(vd, n, i, j) == mp(elm(zd, n), y, n, i, j) }
// y = z' x
proof fn unprod(vd: Seq<E>, zd: Seq<E>, y: Mt, n: int, k: int, j: int)
  requires prod(vd, zd, y, n), orth(elm(zd, n), n), 0 <= k < n, 0 <= j < n,
  ensures mp(tr(elm(zd, n)), elm(vd, n), n, k, j) == y(k, j), rabs(y(k, j)) <= l1(elm(vd, n), n, j),
{
  let (z, x) = (elm(zd, n), elm(vd, n));
  let t = tr(z);
  orth_cols(z, n);
  let zy = mm(z, y, n);
  assert forall|l: int| 0 <= l < n implies #[trigger] x(l, j) == zy(l, j) by { assert(el(vd, n, l, j) == mp(z, y, n, l, j)); }
  mp_ext(t, t, x, zy, n, k, k, j, j);
  mp_assoc(t, z, y, n, n, k, j);
  let tz = mm(t, z, n);
  assert forall|l: int| 0 <= l < n implies #[trigger] tz(k, l) == idm()(k, l) by {
    assert(mm(t, tr(t), n)(k, l) == idm()(k, l));
    mp_ext(t, t, z, tr(t), n, k, k, l, l);
  }
  mp_ext(tz, idm(), y, y, n, k, k, j, j);
  mp_id_l(y, n, k, j);
  assert forall|l: int| 0 <= l < n implies rabs(#[trigger] t(k, l)) <= 1real by { orth_entry(z, n, l, k); }
  row_small(t, x, n, k, j, 1real);
  let s = l1(x, n, j);
  assert(1real * s == s) by (nonlinear_arith);
}
proof fn nonzero_of(vd: Seq<E>, zd: Seq<E>, y: Mt, n: int, k: int, j: int)
  requires prod(vd, zd, y, n), orth(elm(zd, n), n), 0 <= k < n, 0 <= j < n, y(k, j) != 0real,
  ensures nzcol(elm(vd, n), n, j),
{
  let (z, x) = (elm(zd, n), elm(vd, n));
  if !nzcol(x, n, j) {
    unprod(vd, zd, y, n, k, j);
    mp_zero(tr(z), x, n, k, j);
  }
}
// one column
proof fn col_eig(a: Mt, vd: Seq<E>, zd: Seq<E>, t: Mt, y: Mt, n: int, w: real, f2: real, j: int, p: int, al: real, be: real, b: real, c: real)
  requires
    ms(a, zd, zd, t, n, n, w, f2), prod(vd, zd, y, n), 0 <= j < n, 0 <= p < n, b >= 0real, w >= 0real,
    forall|r: int| 0 <= r < n ==> rabs(#[trigger] mp(t, y, n, r, j) - lc(y, al, be, r, j, p)) <= c, c == b * lw(elm(vd, n), n, j, p),
  ensures near_eig(a, elm(vd, n), n, j, p, al, be, w + n as real * b),
{
  reveal(ms);
  let (z, x) = (elm(zd, n), elm(vd, n));
  let zt = tr(z);
  let m = ubv(z, t, z, n, n);
  let e = msub(a, m);
  let s = lw(x, n, j, p);
  l1_nonneg(x, n, j); l1_nonneg(x, n, p);
  let ty = mm(t, y, n);
  let l = |r: int, c: int| lc(y, al, be, r, c, p);
  let ro = |r: int, c: int| ty(r, c) - l(r, c);
  assert forall|i: int| 0 <= i < n implies rabs(#[trigger] mp(a, x, n, i, j) - lc(x, al, be, i, j, p)) <= (w + n as real * b) * s by {
    // what a has beyond z t z'
    mp_lsub(a, m, e, x, n, n, i, j);
    assert forall|k: int| 0 <= k < n implies rabs(#[trigger] e(i, k)) <= w by { assert(rabs(a(i, k) - m(i, k)) <= w); }
    row_small(e, x, n, i, j, w);
    let s1 = l1(x, n, j);
    assert(w * s1 <= w * s) by (nonlinear_arith) requires s1 <= s, w >= 0real;
    // z t z' x = z t y
    let tz = mm(t, zt, n);
    mp_assoc(z, tz, x, n, n, i, j);
    let q = mm(tz, x, n);
    let zx = mm(zt, x, n);
    assert forall|k: int| 0 <= k < n implies #[trigger] q(k, j) == ty(k, j) by {
      mp_assoc(t, zt, x, n, n, k, j);
      assert forall|g: int| 0 <= g < n implies #[trigger] zx(g, j) == y(g, j) by { unprod(vd, zd, y, n, g, j); }
      mp_ext(t, t, zx, y, n, k, k, j, j);
    }
    mp_ext(z, z, q, ty, n, i, i, j, j);
    assert(mp(m, x, n, i, j) == mp(z, ty, n, i, j));
    // t y = al y_j + be y_p + ro
    mp_sub(z, ty, l, ro, n, i, j);
    lc_ext(z, y, n, al, be, i, j, p);
    assert(el(vd, n, i, j) == mp(z, y, n, i, j) && el(vd, n, i, p) == mp(z, y, n, i, p));
    assert(mp(z, l, n, i, j) == lc(x, al, be, i, j, p));
    let f = |k: int| z(i, k) * ro(k, j);
    let bs = b * s;
    assert(bs >= 0real) by (nonlinear_arith) requires bs == b * s, b >= 0real, s >= 0real;
    assert forall|k: int| 0 <= k < n implies rabs(#[trigger] f(k)) <= bs by {
      orth_entry(z, n, i, k);
      assert(rabs(mp(t, y, n, k, j) - lc(y, al, be, k, j, p)) <= c);
      small_times(ro(k, j), z(i, k), bs);
      let (x1, x2) = (ro(k, j), z(i, k));
      assert(x1 * x2 == x2 * x1) by (nonlinear_arith);
    }
    sum_small(f, n, bs);
    let c2 = n as real;
    assert((w + c2 * b) * s == w * s + c2 * (b * s)) by (nonlinear_arith);
  }
}
pub open spec fn colsok(t: Mt, y: Mt, d: Seq<E>, e: Seq<E>, n: int, be: real) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] colok(t, y, d, e, n, j, be) }
pub proof fn geig_final(a: Mt, vd: Seq<E>, zd: Seq<E>, t: Mt, y: Mt, d: Seq<E>, e: Seq<E>, n: int, w: real, f2: real, be: real)
  requires ms(a, zd, zd, t, n, n, w, f2), prod(vd, zd, y, n), colsok(t, y, d, e, n, be), evs(t, d, e, n, 0), be >= 0real, w >= 0real,
  ensures eig_cols(a, elm(vd, n), d, e, n, w + n as real * (be + be)),
{
  reveal(eig_cols);
  let b2 = be + be;
  let b = w + n as real * b2;
  let x = elm(vd, n);
  assert(orth(elm(zd, n), n)) by { reveal(ms); }
  assert(d.len() == n && e.len() == n) by { reveal(evs); }
  assert forall|j: int| 0 <= j < n implies #[trigger] eigcol(a, x, d, e, n, j, b) by {
    evs_at(t, d, e, n, 0, j);
    assert(colok(t, y, d, e, n, j, be));
    if v(e[j]) == 0real {
      nonzero_of(vd, zd, y, n, j, j);
      let dj = v(d[j]);
      let s = l1(x, n, j);
      let c = b2 * lw(x, n, j, j);
      l1_nonneg(x, n, j);
      assert forall|r: int| 0 <= r < n implies rabs(#[trigger] mp(t, y, n, r, j) - lc(y, dj, 0real, r, j, j)) <= c by {
        let yr = y(r, j);
        assert(0real * yr == 0real) by (nonlinear_arith);
        assert(rabs(mp(t, y, n, r, j) - dj * y(r, j)) <= be * rabs(y(r, j)));
        unprod(vd, zd, y, n, r, j);
        let ya = rabs(yr);
        assert(be * ya <= b2 * s) by (nonlinear_arith) requires ya <= s, b2 == be + be, be >= 0real, s >= 0real;
      }
      col_eig(a, vd, zd, t, y, n, w, f2, j, j, dj, 0real, b2, c);
    } else if v(e[j]) < 0real {
      evs_at(t, d, e, n, 0, j - 1);
      nonzero_of(vd, zd, y, n, j - 1, j - 1);
      let (dj, ej1) = (v(d[j]), v(e[j]));
      let s = lw(x, n, j, j - 1);
      let c = b2 * s;
      assert forall|r: int| 0 <= r < n implies be * prr(y, j, r, 0) <= c by { prr_small(vd, zd, y, n, j, r, be); }
      assert(lw(x, n, j - 1, j) == s);
      assert forall|r: int| 0 <= r < n implies rabs(#[trigger] mp(t, y, n, r, j - 1) - lc(y, dj, ej1, r, j - 1, j)) <= c by {
        assert(cres(t, y, n, j, dj, ej1, be, r));
        assert(be * prr(y, j, r, 0) <= c);
      }
      assert forall|r: int| 0 <= r < n implies rabs(#[trigger] mp(t, y, n, r, j) - lc(y, dj, -ej1, r, j, j - 1)) <= c by {
        assert(cres(t, y, n, j, dj, ej1, be, r));
        assert(be * prr(y, j, r, 0) <= c);
        let q = y(r, j - 1);
        assert((-ej1) * q == -(ej1 * q)) by (nonlinear_arith);
      }
      col_eig(a, vd, zd, t, y, n, w, f2, j - 1, j, dj, ej1, b2, c);
      col_eig(a, vd, zd, t, y, n, w, f2, j, j - 1, dj, -ej1, b2, c);
    }
  }
}
proof fn prr_small(vd: Seq<E>, zd: Seq<E>, y: Mt, n: int, j: int, r: int, be: real)
  requires prod(vd, zd, y, n), orth(elm(zd, n), n), 0 < j < n, 0 <= r < n, be >= 0real,
  ensures be * prr(y, j, r, 0) <= (be + be) * lw(elm(vd, n), n, j, j - 1),
{
  unprod(vd, zd, y, n, r, j); unprod(vd, zd, y, n, r, j - 1);
  if r > 0 { unprod(vd, zd, y, n, r - 1, j); unprod(vd, zd, y, n, r - 1, j - 1); }
  let (x, s) = (prr(y, j, r, 0), lw(elm(vd, n), n, j, j - 1));
  assert(x <= 2real * s);
  assert(be * x <= (be + be) * s) by (nonlinear_arith) requires x <= 2real * s, be >= 0real;
}
// the matrix was zero: the vectors are the columns of the orthogonal matrix
pub proof fn zero_cols(t: Mt, d: Seq<E>, e: Seq<E>, n: int)
  requires evs(t, d, e, n, 0), forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] t(r, c) == 0real,
  ensures colsok(t, idm(), d, e, n, 0real),
{
  assert forall|j: int| 0 <= j < n implies #[trigger] colok(t, idm(), d, e, n, j, 0real) by {
    evs_at(t, d, e, n, 0, j);
    if j > 0 { evs_at(t, d, e, n, 0, j - 1); }
    if v(e[j]) < 0real { zero_pair(v(d[j - 1]), v(e[j - 1])); }
    if v(e[j]) == 0real {
      assert(v(d[j]) == 0real);
      assert forall|r: int| 0 <= r < n implies rabs(#[trigger] mp(t, idm(), n, r, j) - v(d[j]) * idm()(r, j)) <= 0real * rabs(idm()(r, j)) by {
        mp_id_r(t, n, r, j);
        assert(t(r, j) == 0real);
        let (x, y) = (idm()(r, j), rabs(idm()(r, j)));
        assert(0real * x == 0real && 0real * y == 0real) by (nonlinear_arith);
      }
    }
  }
}
proof fn zero_pair(d: real, e: real)
  requires 0real + 0real == d + d, (0real - d) * (0real - d) - 0real * 0real == e * e,
  ensures e == 0real,
{
  assert(0real * 0real == 0real);
  assert(d == 0real);
  assert((0real - d) * (0real - d) == 0real) by (nonlinear_arith) requires d == 0real;
  assert(e == 0real) by (nonlinear_arith) requires e * e == 0real;
}
pub proof fn prod_id(zd: Seq<E>, n: int)
  ensures prod(zd, zd, idm(), n),
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] el(zd, n, i, j) == mp(elm(zd, n), idm(), n, i, j) by { mp_id_r(elm(zd, n), n, i, j); } }
// the same vectors for a matrix nearby
pub proof fn eig_near(a: Mt, a2: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, b: real, w: real)
  requires eig_cols(a, x, d, e, n, b), near(a2, a, n, n, w), w >= 0real, n >= 0,
  ensures eig_cols(a2, x, d, e, n, w + b),
{
  reveal(eig_cols);
  assert forall|j: int| 0 <= j < n implies #[trigger] eigcol(a2, x, d, e, n, j, w + b) by {
    assert(eigcol(a, x, d, e, n, j, b));
    if v(e[j]) == 0real { near_more(a, a2, x, n, j, j, v(d[j]), 0real, b, w); }
    if v(e[j]) < 0real { near_more(a, a2, x, n, j - 1, j, v(d[j]), v(e[j]), b, w); near_more(a, a2, x, n, j, j - 1, v(d[j]), -v(e[j]), b, w); }
  }
}
proof fn near_more(a: Mt, a2: Mt, x: Mt, n: int, j: int, p: int, al: real, be: real, b: real, w: real)
  requires near_eig(a, x, n, j, p, al, be, b), near(a2, a, n, n, w), w >= 0real, n >= 0,
  ensures near_eig(a2, x, n, j, p, al, be, w + b),
{
  let e = msub(a2, a);
  let s = lw(x, n, j, p);
  let s1 = l1(x, n, j);
  l1_nonneg(x, n, p);
  assert forall|i: int| 0 <= i < n implies rabs(#[trigger] mp(a2, x, n, i, j) - lc(x, al, be, i, j, p)) <= (w + b) * s by {
    assert(rabs(mp(a, x, n, i, j) - lc(x, al, be, i, j, p)) <= b * s);
    mp_lsub(a2, a, e, x, n, n, i, j);
    assert forall|k: int| 0 <= k < n implies rabs(#[trigger] e(i, k)) <= w by { assert(rabs(a2(i, k) - a(i, k)) <= w); }
    row_small(e, x, n, i, j, w);
    assert(w * s1 <= w * s) by (nonlinear_arith) requires s1 <= s, w >= 0real;
    assert((w + b) * s == w * s + b * s) by (nonlinear_arith);
  }
}
pub proof fn eig_wider(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, b: real, b2: real)
  requires eig_cols(a, x, d, e, n, b), b <= b2, n >= 0,
  ensures eig_cols(a, x, d, e, n, b2),
{ assert(near(a, a, n, n, b2 - b)); eig_near(a, a, x, d, e, n, b, b2 - b); }
// ---- the size of the matrix
#[verifier::opaque]
pub open spec fn nrm(h: Seq<E>, n: int, i: int, j: int, x: real, fr: real) -> bool {
  0real <= x <= (i * n + j) as real * fr && forall|r: int, c: int| 0 <= r < n && 0 <= c < n && r <= c + 1 && (r < i || (r == i && c < j)) ==> rabs(#[trigger] el(h, n, r, c)) <= x
}
pub proof fn nrm_start(h: Seq<E>, n: int, fr: real)
  requires fr >= 0real,
  ensures nrm(h, n, 0, 0, 0real, fr),
{ reveal(nrm); let z = (0 * n + 0) as real; assert(0 * n + 0 == 0); assert(z * fr == 0real) by (nonlinear_arith) requires z == 0real; }
pub proof fn nrm_skip(h: Seq<E>, n: int, i: int, j: int, x: real, fr: real)
  requires nrm(h, n, i, 0, x, fr), fr >= 0real, 0 <= j, j == 0 || j == i - 1,
  ensures nrm(h, n, i, j, x, fr),
{
  reveal(nrm);
  let (a, b) = ((i * n + 0) as real, (i * n + j) as real);
  assert(a * fr <= b * fr) by (nonlinear_arith) requires a <= b, fr >= 0real;
}
pub proof fn nrm_add(h: Seq<E>, n: int, i: int, j: int, x: real, y: real, fr: real)
  requires nrm(h, n, i, j, x, fr), 0 <= i < n, 0 <= j < n, rabs(el(h, n, i, j)) <= fr, y == x + rabs(el(h, n, i, j)),
  ensures nrm(h, n, i, j + 1, y, fr),
{
  reveal(nrm);
  let (a, b) = ((i * n + j) as real, (i * n + (j + 1)) as real);
  assert(b * fr == a * fr + fr) by (nonlinear_arith) requires b == a + 1real;
}
pub proof fn nrm_row(h: Seq<E>, n: int, i: int, x: real, fr: real)
  requires nrm(h, n, i, n, x, fr), 0 <= i,
  ensures nrm(h, n, i + 1, 0, x, fr),
{ reveal(nrm); assert((i + 1) * n + 0 == i * n + n) by (nonlinear_arith); }
pub proof fn nrm_done(h: Seq<E>, n: int, x: real, fr: real)
  requires nrm(h, n, n, 0, x, fr), n > 0, fr >= 0real, fr * fr == fro2(hess(h, n), n, n),
  ensures 0real <= x <= (n * n) as real * fr, x == 0real ==> fr == 0real,
{
  reveal(nrm);
  if x == 0real {
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] hess(h, n)(r, c) == 0real by { if r <= c + 1 { assert(rabs(el(h, n, r, c)) <= x); } }
    fro_zero(hess(h, n), n, n);
    assert(fr == 0real) by (nonlinear_arith) requires fr * fr == 0real;
  }
}
// the matrix that the orthogonal matrix and the Hessenberg matrix stand for, and its size
pub open spec fn uhu(zd: Seq<E>, h: Seq<E>, n: int) -> Mt { ubv(elm(zd, n), hess(h, n), elm(zd, n), n, n) }
pub open spec fn hfro(h: Seq<E>, n: int) -> real { rsqrt(fro2(hess(h, n), n, n)) }
pub proof fn start_ms(zd: Seq<E>, h: Seq<E>, n: int)
  requires orth(elm(zd, n), n), n > 0,
  ensures ({ let (z, x) = (elm(zd, n), hess(h, n)); let fr = rsqrt(fro2(x, n, n)); ms(ubv(z, x, z, n, n), zd, zd, x, n, n, 0real, fr * fr) && fr >= 0real && fr * fr == fro2(x, n, n)
    && forall|r: int, c: int| 0 <= r < n && 0 <= c < n && r <= c + 1 ==> rabs(#[trigger] el(h, n, r, c)) <= fr }),
{
  let (z, x) = (elm(zd, n), hess(h, n));
  let fr = rsqrt(fro2(x, n, n));
  fro_nonneg(x, n, n);
  rsqrt_def(fro2(x, n, n));
  let a = ubv(z, x, z, n, n);
  reveal(ms);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && r <= c + 1 implies rabs(#[trigger] el(h, n, r, c)) <= fr by {
    ms_entry(a, zd, zd, x, n, n, 0real, fr * fr, fr, r, c);
    assert(x(r, c) == el(h, n, r, c));
  }
}
// ---- how often something is thrown away
pub open spec fn cwid(c: int, dl: real) -> real { c as real * dl }
pub proof fn cw_zero(dl: real)
  ensures cwid(0, dl) == 0real,
{ let z = 0int as real; assert(z * dl == 0real) by (nonlinear_arith) requires z == 0real; }
pub proof fn cw_next(c: int, dl: real)
  ensures cwid(c + 1, dl) == cwid(c, dl) + dl,
{ let (a, b) = (c as real, (c + 1) as real); assert(b * dl == a * dl + dl) by (nonlinear_arith) requires b == a + 1real; }
pub proof fn cw_le(c: int, c2: int, dl: real)
  requires 0 <= c <= c2, dl >= 0real,
  ensures 0real <= cwid(c, dl) <= cwid(c2, dl),
{ let (a, b) = (c as real, c2 as real); assert(0real <= a * dl <= b * dl) by (nonlinear_arith) requires 0real <= a <= b, dl >= 0real; }
pub open spec fn hqn(n: int, fr: real) -> real { (n * n) as real * fr }
pub open spec fn hqb(n: int, fr: real) -> real { cwid(n * 2147483648, dlt(r_epsilon(), fr, hqn(n, fr))) + n as real * (bew(r_epsilon(), hqn(n, fr)) + bew(r_epsilon(), hqn(n, fr))) }
pub proof fn bew_le(ep: real, x: real, y: real)
  requires ep > 0real, 0real <= x <= y,
  ensures 0real <= bew(ep, x) <= bew(ep, y),
{
  let (a, b) = (ep * x, ep * y);
  assert(0real <= a <= b) by (nonlinear_arith) requires a == ep * x, b == ep * y, 0real <= x <= y, ep > 0real;
  assert(0real <= ep * a <= ep * b) by (nonlinear_arith) requires 0real <= a <= b, ep > 0real;
}
pub proof fn dlt_pos(fr: real, n: int)
  requires fr >= 0real, n >= 0,
  ensures
    dlt(r_epsilon(), fr, hqn(n, fr)) >= 0real, hqn(n, fr) >= 0real, 0real <= sdt(r_epsilon(), fr, hqn(n, fr)) <= dlt(r_epsilon(), fr, hqn(n, fr)),
    4real * sdt(r_epsilon(), fr, hqn(n, fr)) <= dlt(r_epsilon(), fr, hqn(n, fr)), 27real * (r_epsilon() * fr) <= dlt(r_epsilon(), fr, hqn(n, fr)), r_epsilon() * fr >= 0real,
{
  eps_pos();
  let c = (n * n) as real;
  assert(n * n >= 0) by (nonlinear_arith);
  assert(c * fr >= 0real) by (nonlinear_arith) requires c >= 0real, fr >= 0real;
  let e = r_epsilon();
  assert(e * fr >= 0real) by (nonlinear_arith) requires e > 0real, fr >= 0real;
  sdt_le(r_epsilon(), fr, hqn(n, fr), 0real, r_epsilon() * (0real + r_epsilon() * hqn(n, fr)));
}
proof fn hqb_ge(n: int, c: int, x: real, fr: real)
  requires 0 <= c <= n * 2147483648, 0real <= x <= hqn(n, fr), fr >= 0real, n >= 0,
  ensures cwid(c, dlt(r_epsilon(), fr, hqn(n, fr))) + n as real * (bew(r_epsilon(), x) + bew(r_epsilon(), x)) <= hqb(n, fr), n as real * (bew(r_epsilon(), x) + bew(r_epsilon(), x)) >= 0real, hqb(n, fr) >= 0real,
{
  eps_pos();
  dlt_pos(fr, n);
  cw_le(c, n * 2147483648, dlt(r_epsilon(), fr, hqn(n, fr)));
  bew_le(r_epsilon(), x, hqn(n, fr));
  let (k, a, b) = (n as real, bew(r_epsilon(), x), bew(r_epsilon(), hqn(n, fr)));
  assert(0real <= k * (a + a) <= k * (b + b)) by (nonlinear_arith) requires k >= 0real, 0real <= a <= b;
}
pub proof fn hq_done(a: Mt, zd: Seq<E>, vd: Seq<E>, h0: Seq<E>, h2: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, c: int, x: real, fr: real)
  requires
    ms(a, zd, zd, qt(h0, e, n), n, n, cwid(c, dlt(r_epsilon(), fr, hqn(n, fr))), fr * fr), evs(qt(h0, e, n), d, e, n, 0),
    cols(qt(h0, e, n), h2, d, e, n, 0, bew(r_epsilon(), x)), bt(zd, vd, h2, n, 0, -1), 0real <= x <= hqn(n, fr), fr >= 0real, n > 0, 0 <= c <= n * 2147483648,
  ensures eig_cols(a, elm(vd, n), d, e, n, hqb(n, fr)),
{
  let (t, y) = (qt(h0, e, n), xm(h2, n));
  let (w, be) = (cwid(c, dlt(r_epsilon(), fr, hqn(n, fr))), bew(r_epsilon(), x));
  eps_pos();
  dlt_pos(fr, n);
  cw_le(c, c, dlt(r_epsilon(), fr, hqn(n, fr)));
  bew_le(r_epsilon(), x, x);
  assert(colsok(t, y, d, e, n, be)) by { reveal(cols); }
  assert(prod(vd, zd, y, n)) by { reveal(bt); }
  geig_final(a, vd, zd, t, y, d, e, n, w, fr * fr, be);
  hqb_ge(n, c, x, fr);
  eig_wider(a, elm(vd, n), d, e, n, w + n as real * (be + be), hqb(n, fr));
}
// the matrix was zero
pub proof fn hq_zero(a: Mt, zd: Seq<E>, h0: Seq<E>, d: Seq<E>, e: Seq<E>, n: int, c: int, fr: real)
  requires ms(a, zd, zd, qt(h0, e, n), n, n, cwid(c, dlt(r_epsilon(), fr, hqn(n, fr))), fr * fr), evs(qt(h0, e, n), d, e, n, 0), fr == 0real, n > 0, 0 <= c <= n * 2147483648,
  ensures eig_cols(a, elm(zd, n), d, e, n, hqb(n, fr)),
{
  let t = qt(h0, e, n);
  let w = cwid(c, dlt(r_epsilon(), fr, hqn(n, fr)));
  assert(0real * 0real == 0real);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] t(r, c) == 0real by { ms_entry(a, zd, zd, t, n, n, w, fr * fr, 0real, r, c); }
  zero_cols(t, d, e, n);
  prod_id(zd, n);
  dlt_pos(fr, n);
  cw_le(c, c, dlt(r_epsilon(), fr, hqn(n, fr)));
  geig_final(a, zd, zd, t, idm(), d, e, n, w, fr * fr, 0real);
  hqb_ge(n, c, 0real, fr);
  let k = n as real;
  assert(k * (0real + 0real) == 0real) by (nonlinear_arith);
  eig_wider(a, elm(zd, n), d, e, n, w + n as real * (0real + 0real), hqb(n, fr));
}
// ---- the eigendecomposition
pub open spec fn dmt(d: Seq<E>, e: Seq<E>) -> Mt { |i: int, j: int| if j == i { v(d[i]) } else if (j == i + 1 && v(e[i]) > 0real) || (j == i - 1 && v(e[i]) < 0real) { v(e[i]) } else { 0real } }
// the conjugate pairs stand next to each other, the one with the positive imaginary part first
pub open spec fn paired(d: Seq<E>, e: Seq<E>, n: int, j: int) -> bool {
  (v(e[j]) > 0real ==> j + 1 < n && v(e[j + 1]) == -v(e[j]) && v(d[j + 1]) == v(d[j])) && (v(e[j]) < 0real ==> j > 0 && v(e[j - 1]) == -v(e[j]) && v(d[j - 1]) == v(d[j]))
}
// the size of the vector column j belongs to: the column, or the real and imaginary parts
pub open spec fn vsz(x: Mt, e: Seq<E>, n: int, j: int) -> real { lw(x, n, j, if v(e[j]) > 0real { j + 1 } else if v(e[j]) < 0real { j - 1 } else { j }) }
// column j of a*v and of v*d
pub open spec fn vd_col(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, j: int, b: real) -> bool { forall|i: int| 0 <= i < n ==> rabs(#[trigger] mp(a, x, n, i, j) - mp(x, dmt(d, e), n, i, j)) <= b * vsz(x, e, n, j) }
pub open spec fn geig_col(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, j: int, b: real) -> bool {
  paired(d, e, n, j) && vd_col(a, x, d, e, n, j, b) && (v(e[j]) >= 0real ==> nzcol(x, n, j))
}
pub open spec fn geig_ok(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, b: real) -> bool { d.len() == n && e.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] geig_col(a, x, d, e, n, j, b) }
pub open spec fn gew(a: Mt, n: int) -> real { hw(n) + hqb(n, rsqrt(fro2(a, n, n))) }
proof fn sum_at2(f: spec_fn(int) -> real, n: int, p: int, q: int)
  requires 0 <= p < n, 0 <= q < n, p != q, forall|k: int| 0 <= k < n && k != p && k != q ==> #[trigger] f(k) == 0real,
  ensures sum(f, 0, n) == f(p) + f(q),
{
  let s = f(p) + f(q);
  let g = |k: int| if k == p { s } else { 0real };
  sum_two(f, g, 0, n, p, q);
  sum_single(g, 0, n, p);
}
proof fn vd_at(x: Mt, d: Seq<E>, e: Seq<E>, n: int, i: int, j: int)
  requires 0 <= i < n, 0 <= j < n, paired(d, e, n, j), j > 0 && v(e[j - 1]) > 0real ==> v(e[j]) < 0real, j + 1 < n && v(e[j + 1]) < 0real ==> v(e[j]) > 0real,
  ensures
    v(e[j]) == 0real ==> mp(x, dmt(d, e), n, i, j) == lc(x, v(d[j]), 0real, i, j, j),
    v(e[j]) > 0real ==> mp(x, dmt(d, e), n, i, j) == lc(x, v(d[j]), v(e[j + 1]), i, j, j + 1),
    v(e[j]) < 0real ==> mp(x, dmt(d, e), n, i, j) == lc(x, v(d[j]), v(e[j - 1]), i, j, j - 1),
{
  let m = dmt(d, e);
  let f = |k: int| x(i, k) * m(k, j);
  let dj = v(d[j]);
  let xj = x(i, j);
  assert(xj * dj == dj * xj && 0real * xj == 0real) by (nonlinear_arith);
  let p = if v(e[j]) > 0real { j + 1 } else { j - 1 };
  assert forall|k: int| 0 <= k < n && k != j && !(v(e[j]) != 0real && k == p) implies #[trigger] f(k) == 0real by {
    assert(m(k, j) == 0real);
    let y = x(i, k);
    assert(y * 0real == 0real) by (nonlinear_arith);
  }
  if v(e[j]) == 0real {
    sum_single(f, 0, n, j);
  } else {
    sum_at2(f, n, j, p);
    let (y, z) = (x(i, p), v(e[p]));
    assert(y * z == z * y) by (nonlinear_arith);
  }
}
proof fn col_done(a: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int, b: real, j: int)
  requires eig_cols(a, x, d, e, n, b), 0 <= j < n,
  ensures geig_col(a, x, d, e, n, j, b),
{
  reveal(eig_cols);
  assert(eigcol(a, x, d, e, n, j, b));
  if j > 0 { assert(eigcol(a, x, d, e, n, j - 1, b)); }
  if j + 1 < n { assert(eigcol(a, x, d, e, n, j + 1, b)); }
  assert forall|i: int| 0 <= i < n implies rabs(#[trigger] mp(a, x, n, i, j) - mp(x, dmt(d, e), n, i, j)) <= b * vsz(x, e, n, j) by {
    vd_at(x, d, e, n, i, j);
    if v(e[j]) == 0real { assert(rabs(mp(a, x, n, i, j) - lc(x, v(d[j]), 0real, i, j, j)) <= b * lw(x, n, j, j)); }
    else if v(e[j]) > 0real { assert(near_eig(a, x, n, j, j + 1, v(d[j + 1]), v(e[j + 1]), b)); }
    else { assert(near_eig(a, x, n, j, j - 1, v(d[j]), -v(e[j]), b)); }
  }
}
proof fn dlt_le(n: int, f: real, g: real)
  requires 0real <= f <= g, n >= 0,
  ensures hqb(n, f) <= hqb(n, g),
{
  eps_pos();
  let ep = r_epsilon();
  let c = (n * n) as real;
  assert(n * n >= 0) by (nonlinear_arith);
  let (x, y) = (hqn(n, f), hqn(n, g));
  assert(0real <= c * f <= c * g) by (nonlinear_arith) requires c >= 0real, 0real <= f <= g;
  bew_le(ep, x, y);
  let (k, p, q) = (n as real, bew(ep, x), bew(ep, y));
  assert(k * (p + p) <= k * (q + q)) by (nonlinear_arith) requires k >= 0real, p <= q;
  assert(ep * f <= ep * g) by (nonlinear_arith) requires ep > 0real, f <= g;
  let (a1, a2) = (ep * x, ep * y);
  assert(a1 <= a2) by (nonlinear_arith) requires a1 == ep * x, a2 == ep * y, ep > 0real, x <= y;
  let (s1, s2) = (6real * f + x + a1, 6real * g + y + a2);
  assert(ep * s1 <= ep * s2) by (nonlinear_arith) requires ep > 0real, s1 <= s2;
  let (d1, d2) = (dlt(ep, f, x), dlt(ep, g, y));
  let m = (n * 2147483648) as real;
  assert(m * d1 <= m * d2) by (nonlinear_arith) requires m >= 0real, d1 <= d2;
}
pub proof fn geig_done(a: Mt, zd: Seq<E>, h: Seq<E>, vd: Seq<E>, d: Seq<E>, e: Seq<E>, n: int)
  requires ms(a, zd, zd, hess(h, n), n, n, hw(n), fro2(a, n, n)), eig_cols(uhu(zd, h, n), elm(vd, n), d, e, n, hqb(n, hfro(h, n))), n > 0,
  ensures geig_ok(a, elm(vd, n), d, e, n, gew(a, n)), v(e[0]) >= 0real, v(e[n - 1]) <= 0real,
{
  reveal(ms);
  let x = elm(vd, n);
  let (f1, f2) = (fro2(hess(h, n), n, n), fro2(a, n, n));
  fro_nonneg(hess(h, n), n, n);
  rsqrt_def(f1); rsqrt_def(f2);
  let (g1, g2) = (rsqrt(f1), rsqrt(f2));
  assert(near(a, uhu(zd, h, n), n, n, hw(n)));
  assert(hw(n) >= 0real) by { assert(rabs(a(0, 0) - uhu(zd, h, n)(0, 0)) <= hw(n)); }
  assert(g1 <= g2) by { assert(g1 * g1 <= g2 * g2); root_le(g1, g2); }
  dlt_le(n, g1, g2);
  eig_near(uhu(zd, h, n), a, x, d, e, n, hqb(n, g1), hw(n));
  eig_wider(a, x, d, e, n, hw(n) + hqb(n, g1), gew(a, n));
  assert(d.len() == n && e.len() == n) by { reveal(eig_cols); }
  assert forall|j: int| 0 <= j < n implies #[trigger] geig_col(a, x, d, e, n, j, gew(a, n)) by { col_done(a, x, d, e, n, gew(a, n), j); }
  assert(geig_col(a, x, d, e, n, 0, gew(a, n)) && geig_col(a, x, d, e, n, n - 1, gew(a, n)));
}
pub proof fn geig_ok_ext(a: Mt, a2: Mt, x: Mt, d: Seq<E>, e: Seq<E>, n: int)
  requires geig_ok(a, x, d, e, n, gew(a, n)), meq(a, a2, n, n),
  ensures geig_ok(a2, x, d, e, n, gew(a2, n)),
{
  fro_ext(a, a2, n, n);
  assert forall|j: int| 0 <= j < n implies #[trigger] geig_col(a2, x, d, e, n, j, gew(a2, n)) by {
    assert(geig_col(a, x, d, e, n, j, gew(a, n)));
    assert forall|i: int| 0 <= i < n implies rabs(#[trigger] mp(a2, x, n, i, j) - mp(x, dmt(d, e), n, i, j)) <= gew(a2, n) * vsz(x, e, n, j) by {
      assert forall|k: int| 0 <= k < n implies #[trigger] a2(i, k) == a(i, k) by { assert(a(i, k) == a2(i, k)); }
      mp_ext(a2, a, x, x, n, i, i, j, j);
      assert(rabs(mp(a, x, n, i, j) - mp(x, dmt(d, e), n, i, j)) <= gew(a, n) * vsz(x, e, n, j));
    }
  }
}
} // mod
pub use gfm::*;
