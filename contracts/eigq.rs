// ---------------------------------------------------------------- symmetric eigenproblem: the QL iteration
pub mod egq {
use super::*;
// symmetric tridiagonal: e[q] couples q and q+1; the diagonal from l on is stored less f
pub open spec fn tg(d: Seq<E>, e: Seq<E>, f: real, l: int) -> Mt {
  |r: int, c: int| if r == c { v(d[r]) + if r >= l { f } else { 0real } } else if c == r + 1 { v(e[r]) } else if r == c + 1 { v(e[c]) } else { 0real }
}
pub open spec fn dg(d: Seq<E>) -> Mt { |r: int, c: int| if r == c { v(d[r]) } else { 0real } }
// the largest element the iteration treats as negligible; fr: the Frobenius norm
pub open spec fn ethr(fr: real) -> real { tiny0() + r_epsilon() * (4real * fr) }
pub open spec fn eslack(fr: real, n: int) -> real { (4 * n) as real * ethr(fr) }
// ---- rotating rows and columns alike
pub open spec fn mixc(x: Mt, p: int, q: int, a: real, b: real, c: real, d: real) -> Mt { |r: int, k: int| if k == p { a * x(r, p) + b * x(r, q) } else if k == q { c * x(r, p) + d * x(r, q) } else { x(r, k) } }
pub open spec fn mixr(x: Mt, p: int, q: int, a: real, b: real, c: real, d: real) -> Mt { |r: int, k: int| if r == p { a * x(p, k) + b * x(q, k) } else if r == q { c * x(p, k) + d * x(q, k) } else { x(r, k) } }
pub proof fn ms_sim(am: Mt, vd: Seq<E>, vd2: Seq<E>, x: Mt, z: Mt, n: int, w: real, f2: real, p: int, q: int, a: real, b: real, c: real, d: real)
  requires
    ms(am, vd, vd, x, n, n, w, f2), mixed(elm(vd, n), elm(vd2, n), n, n, p, q, a, b, c, d), orth2(a, b, c, d), 0 <= p < n, 0 <= q < n, p != q,
    meq(mixr(mixc(x, p, q, a, b, c, d), p, q, a, b, c, d), z, n, n),
  ensures ms(am, vd2, vd2, z, n, n, w, f2),
{
  let y = mixc(x, p, q, a, b, c, d);
  let u = mixr(y, p, q, a, b, c, d);
  ms_cols(am, vd, vd, vd2, x, y, n, n, w, f2, p, q, a, b, c, d);
  ms_rows(am, vd, vd2, vd2, y, u, n, n, w, f2, p, q, a, b, c, d);
  ms_ext(am, vd2, vd2, u, z, n, n, w, w, f2);
}
// ---- one step of the sweep
// between rotations: rows below j are done
pub open spec fn qo(e: Seq<E>, j: int, c: real, s: real, p: real, q: int) -> real { if q == j { s * p } else if q == j - 1 { c * v(e[q]) } else { v(e[q]) } }
pub open spec fn qm(d: Seq<E>, e: Seq<E>, f: real, l: int, j: int, c: real, s: real, p: real) -> Mt {
  |r: int, k: int| if r == k { (if r == j { c * p } else { v(d[r]) }) + if r >= l { f } else { 0real } }
    else if k == r + 1 { qo(e, j, c, s, p, r) } else if r == k + 1 { qo(e, j, c, s, p, k) }
    else if r == j - 1 && k == j + 1 { s * v(e[r]) } else if k == j - 1 && r == j + 1 { s * v(e[k]) } else { 0real }
}
// the numbers of one rotation
pub open spec fn rotnum(c: real, s: real, p: real, ei: real, r: real, c2: real, s2: real) -> bool {
  r > 0real && r * r == p * p + ei * ei && c2 == p / r && s2 == ei / r
}
pub proof fn rotnum_facts(c: real, s: real, p: real, ei: real, r: real, c2: real, s2: real)
  requires rotnum(c, s, p, ei, r, c2, s2),
  ensures c2 * c2 + s2 * s2 == 1real, c2 * r == p, s2 * r == ei, s2 * p == c2 * ei, s2 * ei + c2 * p == r,
{
  assert(c2 * r == p) by (nonlinear_arith) requires c2 == p / r, r > 0real;
  assert(s2 * r == ei) by (nonlinear_arith) requires s2 == ei / r, r > 0real;
  let q = r * r;
  assert(q > 0real) by (nonlinear_arith) requires q == r * r, r > 0real;
  assert((c2 * c2 + s2 * s2) * q == q) by (nonlinear_arith) requires c2 * r == p, s2 * r == ei, q == r * r, q == p * p + ei * ei;
  let z = c2 * c2 + s2 * s2;
  assert(z == 1real) by (nonlinear_arith) requires z * q == q, q > 0real;
  assert(s2 * p == c2 * ei) by (nonlinear_arith) requires c2 * r == p, s2 * r == ei;
  assert(s2 * ei + c2 * p == z * r) by (nonlinear_arith) requires c2 * r == p, s2 * r == ei, z == c2 * c2 + s2 * s2;
  assert(1real * r == r);
}
// the 2-by-2 block that is rotated
proof fn block(c: real, di: real, f: real, g: real, h: real, c2: real, s2: real)
  requires c2 * c2 + s2 * s2 == 1real, s2 * h == c2 * g,
  ensures
    c2 * (c2 * (di + f) + (-s2) * g) + (-s2) * (c2 * g + (-s2) * (h + f)) == c2 * (c2 * di - s2 * g) + f,
    s2 * (c2 * (di + f) + (-s2) * g) + c2 * (c2 * g + (-s2) * (h + f)) == s2 * (c2 * di - s2 * g),
    c2 * (s2 * (di + f) + c2 * g) + (-s2) * (s2 * g + c2 * (h + f)) == s2 * (c2 * di - s2 * g),
    s2 * (s2 * (di + f) + c2 * g) + c2 * (s2 * g + c2 * (h + f)) == h + s2 * (c2 * g + s2 * di) + f,
{
  let (cc, ss, cs) = (c2 * c2, s2 * s2, c2 * s2);
  let (sh, cg) = (s2 * h, c2 * g);
  // each product in terms of cc, ss, cs
  assert(c2 * (c2 * (di + f) + (-s2) * g) == cc * di + cc * f - s2 * cg) by (nonlinear_arith) requires cc == c2 * c2, cg == c2 * g;
  assert((-s2) * (c2 * g + (-s2) * (h + f)) == -(s2 * cg) + s2 * sh + ss * f) by (nonlinear_arith) requires ss == s2 * s2, cg == c2 * g, sh == s2 * h;
  assert(c2 * (c2 * di - s2 * g) == cc * di - s2 * cg) by (nonlinear_arith) requires cc == c2 * c2, cg == c2 * g;
  assert(cc * f + ss * f == f) by (nonlinear_arith) requires cc + ss == 1real;
  assert(s2 * (c2 * (di + f) + (-s2) * g) == cs * di + cs * f - s2 * (s2 * g)) by (nonlinear_arith) requires cs == c2 * s2;
  assert(c2 * (c2 * g + (-s2) * (h + f)) == c2 * cg - c2 * sh - cs * f) by (nonlinear_arith) requires cs == c2 * s2, cg == c2 * g, sh == s2 * h;
  assert(s2 * (c2 * di - s2 * g) == cs * di - s2 * (s2 * g)) by (nonlinear_arith) requires cs == c2 * s2;
  assert(c2 * (s2 * (di + f) + c2 * g) == cs * di + cs * f + c2 * cg) by (nonlinear_arith) requires cs == c2 * s2, cg == c2 * g;
  assert((-s2) * (s2 * g + c2 * (h + f)) == -(s2 * (s2 * g)) - c2 * sh - cs * f) by (nonlinear_arith) requires cs == c2 * s2, sh == s2 * h;
  assert(s2 * (s2 * (di + f) + c2 * g) == ss * di + ss * f + s2 * cg) by (nonlinear_arith) requires ss == s2 * s2, cg == c2 * g;
  assert(c2 * (s2 * g + c2 * (h + f)) == s2 * cg + cc * h + cc * f) by (nonlinear_arith) requires cc == c2 * c2, cg == c2 * g;
  assert(s2 * (c2 * g + s2 * di) == s2 * cg + ss * di) by (nonlinear_arith) requires ss == s2 * s2, cg == c2 * g;
  assert(cc * h == h - s2 * sh) by (nonlinear_arith) requires cc == 1real - s2 * s2, sh == s2 * h;
}
// d2, e2, c2, s2, p2: after the rotation of i = j-1 and j
pub proof fn qm_step(d: Seq<E>, e: Seq<E>, d2: Seq<E>, e2: Seq<E>, f: real, l: int, n: int, j: int, c: real, s: real, p: real, r: real, c2: real, s2: real, p2: real)
  requires
    0 <= l < j < n, d.len() == n, e.len() == n,
    rotnum(c, s, p, v(e[j - 1]), r, c2, s2),
    p2 == c2 * v(d[j - 1]) - s2 * (c * v(e[j - 1])),
    d2.len() == n, forall|q: int| 0 <= q < n && q != j ==> #[trigger] d2[q] == d[q], v(d2[j]) == c * p + s2 * (c2 * (c * v(e[j - 1])) + s2 * v(d[j - 1])),
    e2.len() == n, forall|q: int| 0 <= q < n && q != j ==> #[trigger] e2[q] == e[q], v(e2[j]) == s * r,
  ensures
    orth2(c2, -s2, s2, c2),
    meq(mixr(mixc(qm(d, e, f, l, j, c, s, p), j - 1, j, c2, -s2, s2, c2), j - 1, j, c2, -s2, s2, c2), qm(d2, e2, f, l, j - 1, c2, s2, p2), n, n),
{
  let i = j - 1;
  let (di, ei) = (v(d[i]), v(e[i]));
  let (g, h) = (c * ei, c * p);
  rotnum_facts(c, s, p, ei, r, c2, s2);
  assert((-s2) * (-s2) == s2 * s2) by (nonlinear_arith);
  assert(c2 * (-s2) + s2 * c2 == 0real) by (nonlinear_arith);
  assert(s2 * h == c2 * g) by (nonlinear_arith) requires h == c * p, g == c * ei, s2 * p == c2 * ei;
  block(c, di, f, g, h, c2, s2);
  let x = qm(d, e, f, l, j, c, s, p);
  let y = mixc(x, i, j, c2, -s2, s2, c2);
  let z = mixr(y, i, j, c2, -s2, s2, c2);
  let t = qm(d2, e2, f, l, i, c2, s2, p2);
  assert(x(i, i) == di + f && x(j, j) == h + f && x(i, j) == g && x(j, i) == g);
  // bulge: (i, j+1) and (j, j+1)
  let (b0, b1) = (s * ei, s * p);
  assert(c2 * b0 + (-s2) * b1 == 0real) by (nonlinear_arith) requires b0 == s * ei, b1 == s * p, s2 * p == c2 * ei;
  assert(s2 * b0 + c2 * b1 == s * r) by (nonlinear_arith) requires b0 == s * ei, b1 == s * p, s2 * ei + c2 * p == r;
  if j + 1 < n { assert(x(i, j + 1) == b0 && x(j + 1, i) == b0 && x(j, j + 1) == b1 && x(j + 1, j) == b1); }
  if i >= 1 { assert(x(i, i - 1) == v(e[i - 1]) && x(i - 1, i) == v(e[i - 1]) && x(j, i - 1) == 0real && x(i - 1, j) == 0real); }
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] z(a, b) == t(a, b) by {
    if (a == i || a == j) && (b == i || b == j) {
      assert(y(i, i) == c2 * (di + f) + (-s2) * g);
      assert(y(i, j) == s2 * (di + f) + c2 * g);
      assert(y(j, i) == c2 * g + (-s2) * (h + f));
      assert(y(j, j) == s2 * g + c2 * (h + f));
    } else if a == i || a == j {
      assert(y(i, b) == x(i, b) && y(j, b) == x(j, b));
      comb0(c2, -s2, x(i, b), x(j, b));
      comb0(s2, c2, x(i, b), x(j, b));
      if b == j + 1 { } else if b == i - 1 { assert(e2[i - 1] == e[i - 1]); } else { assert(x(i, b) == 0real && x(j, b) == 0real); assert(t(a, b) == 0real); }
    } else if b == i || b == j {
      comb0(c2, -s2, x(a, i), x(a, j));
      comb0(s2, c2, x(a, i), x(a, j));
      if a == j + 1 { } else if a == i - 1 { assert(e2[i - 1] == e[i - 1]); } else { assert(x(a, i) == 0real && x(a, j) == 0real); assert(t(a, b) == 0real); }
    } else {
      assert(z(a, b) == x(a, b));
      if a == b { assert(d2[a] == d[a]); } else if b == a + 1 { assert(e2[a] == e[a]); } else if a == b + 1 { assert(e2[b] == e[b]); }
    }
  }
}
pub proof fn qm_start(d: Seq<E>, e: Seq<E>, em: Seq<E>, f: real, l: int, n: int, m: int)
  requires 0 <= l <= m < n, d.len() == n, e.len() == n, em.len() == n, v(em[m]) == 0real, forall|q: int| 0 <= q < n && q != m ==> #[trigger] em[q] == e[q],
  ensures meq(tg(d, em, f, l), qm(d, e, f, l, m, 1real, 0real, v(d[m])), n, n),
{
  let x = tg(d, em, f, l);
  let p = v(d[m]);
  let y = qm(d, e, f, l, m, 1real, 0real, p);
  assert(0real * p == 0real && 1real * p == p) by (nonlinear_arith);
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] x(a, b) == y(a, b) by {
    if b == a + 1 { if a != m { assert(em[a] == e[a]); } let z = v(e[a]); assert(1real * z == z) by (nonlinear_arith); }
    else if a == b + 1 { if b != m { assert(em[b] == e[b]); } let z = v(e[b]); assert(1real * z == z) by (nonlinear_arith); }
    else if a == m - 1 && b == m + 1 { let z = v(e[a]); assert(0real * z == 0real) by (nonlinear_arith); }
    else if b == m - 1 && a == m + 1 { let z = v(e[b]); assert(0real * z == 0real) by (nonlinear_arith); }
  }
}
pub proof fn qm_end(d: Seq<E>, e: Seq<E>, d2: Seq<E>, e2: Seq<E>, f: real, l: int, n: int, c: real, s: real, p: real)
  requires
    0 <= l < n, d.len() == n, e.len() == n, l > 0 ==> v(e[l - 1]) == 0real,
    d2.len() == n, forall|q: int| 0 <= q < n && q != l ==> #[trigger] d2[q] == d[q], v(d2[l]) == c * p,
    e2.len() == n, forall|q: int| 0 <= q < n && q != l ==> #[trigger] e2[q] == e[q], v(e2[l]) == s * p,
  ensures meq(qm(d, e, f, l, l, c, s, p), tg(d2, e2, f, l), n, n),
{
  let x = qm(d, e, f, l, l, c, s, p);
  let y = tg(d2, e2, f, l);
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] x(a, b) == y(a, b) by {
    assert(c * 0real == 0real && s * 0real == 0real) by (nonlinear_arith);
    if a == b { if a != l { assert(d2[a] == d[a]); } }
    else if b == a + 1 { if a != l { assert(e2[a] == e[a]); } }
    else if a == b + 1 { if b != l { assert(e2[b] == e[b]); } }
  }
}
// ---- the shift
pub open spec fn shifted(g: real, dl1: real, e: real, p: real, r: real, d0: real, d1: real) -> bool {
  e != 0real && p == (dl1 - g) / (2real * e) && r * r == p * p + 1real && (p < 0real ==> r <= 0real) && (p >= 0real ==> r >= 0real) && d0 == rdiv(e, p + r) && d1 == e * (p + r)
}
pub proof fn shift_facts(g: real, dl1: real, e: real, p: real, r: real, d0: real, d1: real)
  requires shifted(g, dl1, e, p, r, d0, d1),
  ensures p + r != 0real, d0 * d1 == e * e, d1 != 0real, d1 == dl1 - (g - d0),
{
  let q = p + r;
  if q == 0real {
    assert(r == -p);
    assert((-p) * (-p) == p * p) by (nonlinear_arith);
  }
  assert(d0 == e / q);
  assert(d0 * q == e) by (nonlinear_arith) requires d0 == e / q, q != 0real;
  assert(d0 * (e * q) == e * (d0 * q)) by (nonlinear_arith);
  assert(e * q != 0real) by (nonlinear_arith) requires e != 0real, q != 0real;
  // 1/q = r - p
  assert(q * (r - p) == 1real) by (nonlinear_arith) requires q == p + r, r * r == p * p + 1real;
  let z = r - p;
  assert(d0 == e * z) by (nonlinear_arith) requires d0 * q == e, q * z == 1real;
  let te = 2real * e;
  assert(te != 0real);
  let y = dl1 - g;
  assert(p * te == y) by (nonlinear_arith) requires p == y / te, te != 0real;
  assert(p * (2real * e) == 2real * (e * p)) by (nonlinear_arith);
  assert(e * (p + r) == e * p + e * r && e * (r - p) == e * r - e * p) by (nonlinear_arith);
}
// the shift stays within twice the norm: f2 is an eigenvalue of a leading 2-by-2 block
pub proof fn shift_bound(a: real, b: real, e: real, lam: real, fr: real)
  requires (a - lam) * (b - lam) == e * e, rabs(a) <= fr, rabs(b) <= fr, rabs(e) <= fr,
  ensures rabs(lam) <= 2real * fr,
{
  let mu = a + b - lam;
  assert(lam * lam + mu * mu == a * a + b * b + 2real * (e * e)) by (nonlinear_arith) requires (a - lam) * (b - lam) == e * e, mu == a + b - lam;
  assert(mu * mu >= 0real) by (nonlinear_arith);
  sq_le(a, fr); sq_le(b, fr); sq_le(e, fr);
  let t = 2real * fr;
  assert(t * t == 4real * (fr * fr)) by (nonlinear_arith) requires t == 2real * fr;
  root_le(lam, t);
}
pub proof fn sq_le(a: real, t: real)
  requires rabs(a) <= t,
  ensures a * a <= t * t,
{
  let y = rabs(a);
  assert(y * y == a * a) by (nonlinear_arith) requires y == a || y == -a;
  assert(y * y <= t * t) by (nonlinear_arith) requires 0real <= y, y <= t;
}
// ---- the value of p after the sweep, as the code recomputes it
pub proof fn last_p(c: real, s: real, pj: real, c2: real, s2: real, c3: real, el1: real, el: real, dl: real, dl1: real, p: real)
  requires
    s * pj == c * el, pj == c2 * dl1 - s2 * (c3 * el1), p == c * dl - s * (c2 * el), dl * dl1 == el * el, dl1 != 0real,
  ensures p == rdiv((((-s) * s2) * c3) * el1 * el, dl1),
{
  let k = (((-s) * s2) * c3) * el1 * el;
  let z = c2 * dl1;
  let t = c3 * el1;
  let y = s2 * t;
  let se = s * el;
  // p * dl1 = c * el^2 - s*c2*el*dl1
  let ce = c2 * el;
  let sce = s * ce;
  let cd = c * dl;
  assert(p * dl1 == cd * dl1 - sce * dl1) by (nonlinear_arith) requires p == cd - sce;
  assert(cd * dl1 == c * (dl * dl1)) by (nonlinear_arith) requires cd == c * dl;
  let sc = c * el;
  assert(c * (el * el) == sc * el) by (nonlinear_arith) requires sc == c * el;
  assert((s * pj) * el == se * pj) by (nonlinear_arith) requires se == s * el;
  assert(sce == se * c2) by (nonlinear_arith) requires sce == s * ce, ce == c2 * el, se == s * el;
  assert(sce * dl1 == se * z) by (nonlinear_arith) requires sce == se * c2, z == c2 * dl1;
  assert(se * pj == se * z - se * y) by (nonlinear_arith) requires pj == z - y;
  // k = -(se * y)
  let u = (-s) * s2;
  assert((u * c3) * el1 == u * t) by (nonlinear_arith) requires t == c3 * el1;
  let w = u * t;
  assert(w == (-s) * y) by (nonlinear_arith) requires w == u * t, u == (-s) * s2, y == s2 * t;
  assert(w * el == -(se * y)) by (nonlinear_arith) requires w == (-s) * y, se == s * el;
  assert(k == w * el);
  assert(p * dl1 == k);
  assert(p == k / dl1) by (nonlinear_arith) requires p * dl1 == k, dl1 != 0real;
}
// ---- sorting
pub open spec fn swapg(d0: Seq<E>, d1: Seq<E>, m: int, i: int, p: int, q: int) -> bool {
  d1.len() == d0.len() && forall|r: int, c: int| 0 <= r < m && 0 <= c < m ==> #[trigger] el(d1, m, r, c) ==
    if r < i && c == p { el(d0, m, r, q) } else if r < i && c == q { el(d0, m, r, p) } else { el(d0, m, r, c) }
}
pub proof fn swapg_step(d0: Seq<E>, d1: Seq<E>, m: int, i: int, p: int, q: int)
  requires swapg(d0, d1, m, i, p, q), d0.len() == m * m, 0 <= i < m, 0 <= p < m, 0 <= q < m, p != q,
  ensures swapg(d0, d1.update(i * m + p, d1[i * m + q]).update(i * m + q, d1[i * m + p]), m, i + 1, p, q),
{
  let d2 = d1.update(i * m + p, d1[i * m + q]).update(i * m + q, d1[i * m + p]);
  el_update(d1, m, m, i, p, d1[i * m + q]);
  el_update(d1.update(i * m + p, d1[i * m + q]), m, m, i, q, d1[i * m + p]);
  assert(el(d1, m, i, p) == el(d0, m, i, p) && el(d1, m, i, q) == el(d0, m, i, q));
  assert forall|r: int, c: int| 0 <= r < m && 0 <= c < m implies #[trigger] el(d2, m, r, c) ==
    (if r < i + 1 && c == p { el(d0, m, r, q) } else if r < i + 1 && c == q { el(d0, m, r, p) } else { el(d0, m, r, c) }) by {
    if r == i && (c == p || c == q) { } else { assert(el(d2, m, r, c) == el(d1, m, r, c)); }
  }
}
pub proof fn swap_diag(am: Mt, vd: Seq<E>, vd2: Seq<E>, d: Seq<E>, d2: Seq<E>, n: int, w: real, f2: real, p: int, q: int)
  requires
    ms(am, vd, vd, dg(d), n, n, w, f2), swapg(vd, vd2, n, n, p, q), 0 <= p < n, 0 <= q < n, p != q, d.len() == n,
    d2.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] d2[k] == if k == p { d[q] } else if k == q { d[p] } else { d[k] },
  ensures ms(am, vd2, vd2, dg(d2), n, n, w, f2),
{
  let (u, u2) = (elm(vd, n), elm(vd2, n));
  assert(0real * 0real == 0real && 1real * 1real == 1real && 0real * 1real == 0real && 1real * 0real == 0real) by (nonlinear_arith);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] u2(r, c) == (if c == p { 0real * u(r, p) + 1real * u(r, q) } else if c == q { 1real * u(r, p) + 0real * u(r, q) } else { u(r, c) }) by {
    assert(el(vd2, n, r, c) == u2(r, c));
    let (a, b) = (u(r, p), u(r, q));
    assert(0real * a == 0real && 1real * a == a && 0real * b == 0real && 1real * b == b) by (nonlinear_arith);
  }
  let x = dg(d);
  let y = mixc(x, p, q, 0real, 1real, 1real, 0real);
  let z = mixr(y, p, q, 0real, 1real, 1real, 0real);
  let t = dg(d2);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] z(r, c) == t(r, c) by {
    exch(x(r, p), x(r, q)); exch(x(p, p), x(p, q)); exch(x(q, p), x(q, q));
    exch(y(p, c), y(q, c));
  }
  ms_sim(am, vd, vd2, x, t, n, w, f2, p, q, 0real, 1real, 1real, 0real);
}
pub proof fn exch(a: real, b: real)
  ensures 0real * a + 1real * b == b, 1real * a + 0real * b == a,
{ assert(0real * a == 0real && 1real * a == a && 0real * b == 0real && 1real * b == b) by (nonlinear_arith); }
}
pub use egq::*;
