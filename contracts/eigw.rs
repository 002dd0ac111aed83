// ---------------------------------------------------------------- symmetric eigenproblem: the states of tql2
pub mod egw {
use super::*;
pub struct Ic { pub a: Mt, pub n: int, pub f2: real, pub fr: real, pub th: real }
pub open spec fn ic_ok(k: Ic) -> bool { k.n > 0 && k.fr >= 0real && k.fr * k.fr == k.f2 && k.th == ethr(k.fr) && k.th >= 0real }
pub open spec fn qst(k: Ic, vd: Seq<E>, x: Mt, w: int) -> bool { ms(k.a, vd, vd, x, k.n, k.n, w as real * k.th, k.f2) }
pub open spec fn lens(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>) -> bool { vd.len() == k.n * k.n && d.len() == k.n && e.len() == k.n }
pub open spec fn tsmall(e: E, tst: real) -> bool { rabs(v(e)) <= tiny0() + r_epsilon() * tst }
// ---- before eigenvalue l is looked for
pub open spec fn ost(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, f: real, l: int) -> bool {
  lens(k, vd, d, e) && 0 <= l <= k.n && rabs(f) <= 2real * k.fr && v(e[k.n - 1]) == 0real && zeros(e.take(l), 0, l) && qst(k, vd, tg(d, e, f, l), 4 * l)
}
pub proof fn zero_at(e: Seq<E>, l: int, q: int)
  requires zeros(e.take(l), 0, l), 0 <= q < l <= e.len(),
  ensures v(e[q]) == 0real,
{ assert(e.take(l)[q] == e[q]); assert(v(e.take(l)[q]) == 0real); }
pub proof fn zeros_take(e: Seq<E>, e2: Seq<E>, l: int, l2: int)
  requires zeros(e.take(l), 0, l), 0 <= l <= l2 <= e.len(), e2.len() == e.len(), forall|q: int| 0 <= q < l ==> #[trigger] e2[q] == e[q], forall|q: int| l <= q < l2 ==> v(#[trigger] e2[q]) == 0real,
  ensures zeros(e2.take(l2), 0, l2),
{
  assert forall|q: int| 0 <= q < l2 implies v(#[trigger] e2.take(l2)[q]) == 0real by {
    assert(e2.take(l2)[q] == e2[q]);
    if q < l { zero_at(e, l, q); assert(e2[q] == e[q]); }
  }
}
pub open spec fn ic_of(v0: Seq<E>, d: Seq<E>, e: Seq<E>, n: int) -> Ic {
  let x = tq(d, e);
  let f2 = fro2(x, n, n);
  let fr = rsqrt(f2);
  Ic { a: ubv(elm(v0, n), x, elm(v0, n), n, n), n, f2, fr, th: ethr(fr) }
}
pub proof fn o_start(v0: Seq<E>, d: Seq<E>, e0: Seq<E>, e: Seq<E>, n: int)
  requires
    n > 0, orth(elm(v0, n), n), v0.len() == n * n, d.len() == n, e0.len() == n, e.len() == n,
    forall|q: int| 0 <= q < n - 1 ==> #[trigger] e[q] == e0[q + 1], v(e[n - 1]) == 0real,
  ensures ic_ok(ic_of(v0, d, e0, n)), ost(ic_of(v0, d, e0, n), v0, d, e, 0real, 0),
{
  let k = ic_of(v0, d, e0, n);
  let x = tq(d, e0);
  fro_nonneg(x, n, n);
  rsqrt_def(k.f2);
  thr_pos(k.fr);
  let y = tg(d, e, 0real, 0);
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] x(a, b) == y(a, b) by {
    if b == a + 1 { assert(e[a] == e0[a + 1]); } else if a == b + 1 { assert(e[b] == e0[b + 1]); }
  }
  let w = 0int as real * k.th;
  assert(w == 0real) by (nonlinear_arith) requires w == 0real * k.th;
  reveal(ms);
  assert(ms(k.a, v0, v0, x, n, n, 0real, k.f2));
  ms_ext(k.a, v0, v0, x, y, n, n, 0real, w, k.f2);
  assert(zeros(e.take(0), 0, 0));
}
pub proof fn thr_pos(fr: real)
  requires fr >= 0real,
  ensures ethr(fr) >= 0real,
{
  tiny_nonneg();
  let (x, y) = (r_epsilon(), 4real * fr);
  assert(x * y >= 0real) by (nonlinear_arith) requires x > 0real, y >= 0real;
}
pub proof fn small_th(k: Ic, e: E, tst: real)
  requires ic_ok(k), tsmall(e, tst), 0real <= tst <= 4real * k.fr,
  ensures rabs(v(e)) <= k.th,
{
  tiny_nonneg();
  let (x, y) = (r_epsilon(), 4real * k.fr);
  assert(x * tst <= x * y) by (nonlinear_arith) requires x > 0real, tst <= y;
}
pub proof fn not_small(e: E, tst: real)
  requires !tsmall(e, tst), tst >= 0real,
  ensures v(e) != 0real,
{
  tiny_nonneg();
  let x = r_epsilon();
  assert(x * tst >= 0real) by (nonlinear_arith) requires x > 0real, tst >= 0real;
}
pub proof fn o_bounds(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, f: real, l: int)
  requires ic_ok(k), ost(k, vd, d, e, f, l), l < k.n,
  ensures rabs(v(d[l])) + rabs(v(e[l])) <= 4real * k.fr,
{
  let x = tg(d, e, f, l);
  ms_entry(k.a, vd, vd, x, k.n, k.n, (4 * l) as real * k.th, k.f2, k.fr, l, l);
  assert(x(l, l) == v(d[l]) + f);
  if l + 1 < k.n {
    ms_entry(k.a, vd, vd, x, k.n, k.n, (4 * l) as real * k.th, k.f2, k.fr, l, l + 1);
    assert(x(l, l + 1) == v(e[l]));
  }
}
// both elements of a negligible pair are dropped
proof fn drop2(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, e2: Seq<E>, f: real, l: int, w: int, q: int)
  requires
    ic_ok(k), d.len() == k.n, e.len() == k.n, 0 <= q < k.n - 1, e2 == e.update(q, e_zero()), rabs(v(e[q])) <= k.th, qst(k, vd, tg(d, e, f, l), w),
  ensures qst(k, vd, tg(d, e2, f, l), w + 2),
{
  let x = tg(d, e, f, l);
  let z = tg(d, e2, f, l);
  let y = |a: int, b: int| if a == q && b == q + 1 { 0real } else { x(a, b) };
  assert(x(q, q + 1) == v(e[q]) && x(q + 1, q) == v(e[q]));
  let (t, ww) = (k.th, w as real * k.th);
  ms_drop(k.a, vd, vd, x, y, k.n, k.n, ww, k.f2, q, q + 1, t);
  assert(y(q + 1, q) == x(q + 1, q));
  assert forall|a: int, b: int| 0 <= a < k.n && 0 <= b < k.n implies #[trigger] z(a, b) == if a == q + 1 && b == q { 0real } else { y(a, b) } by {
    if b == a + 1 && a != q { assert(e2[a] == e[a]); } else if a == b + 1 && b != q { assert(e2[b] == e[b]); }
  }
  ms_drop(k.a, vd, vd, y, z, k.n, k.n, ww + t, k.f2, q + 1, q, t);
  assert(ww + t + t == (w + 2) as real * t) by (nonlinear_arith) requires ww == w as real * t;
}
pub proof fn widen(k: Ic, vd: Seq<E>, x: Mt, y: Mt, w: int, w2: int)
  requires ic_ok(k), qst(k, vd, x, w), meq(x, y, k.n, k.n), w <= w2,
  ensures qst(k, vd, y, w2),
{
  let (a, b, t) = (w as real, w2 as real, k.th);
  assert(a * t <= b * t) by (nonlinear_arith) requires a <= b, t >= 0real;
  ms_ext(k.a, vd, vd, x, y, k.n, k.n, a * t, b * t, k.f2);
}
// ---- while eigenvalue l is looked for in the block l..m
pub open spec fn ist(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, f: real, l: int, m: int) -> bool {
  lens(k, vd, d, e) && 0 <= l <= m < k.n && rabs(f) <= 2real * k.fr && v(e[k.n - 1]) == 0real && zeros(e.take(l), 0, l) && qst(k, vd, tg(d, e.update(m, e_zero()), f, l), 4 * l + 2)
}
pub proof fn o_open(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, f: real, l: int, m: int, tst: real)
  requires ic_ok(k), ost(k, vd, d, e, f, l), l <= m < k.n, m < k.n - 1 ==> tsmall(e[m], tst), 0real <= tst <= 4real * k.fr,
  ensures ist(k, vd, d, e, f, l, m),
{
  let e2 = e.update(m, e_zero());
  if m < k.n - 1 {
    small_th(k, e[m], tst);
    drop2(k, vd, d, e, e2, f, l, 4 * l, m);
  } else {
    let (x, y) = (tg(d, e, f, l), tg(d, e2, f, l));
    assert forall|a: int, b: int| 0 <= a < k.n && 0 <= b < k.n implies #[trigger] x(a, b) == y(a, b) by {
      if b == a + 1 { assert(e2[a] == e[a]); } else if a == b + 1 { assert(e2[b] == e[b]); }
    }
    widen(k, vd, x, y, 4 * l, 4 * l + 2);
  }
}
// eigenvalue l is found
pub proof fn o_close(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, f: real, l: int, m: int, tst: real, dl: E)
  requires
    ic_ok(k), ist(k, vd, d, e, f, l, m), 0real <= tst <= 4real * k.fr, l < m ==> v(e[m]) == 0real && tsmall(e[l], tst), v(dl) == v(d[l]) + f,
  ensures ost(k, vd, d.update(l, dl), e.update(l, e_zero()), f, l + 1),
{
  let n = k.n;
  let e1 = e.update(m, e_zero());
  let e2 = e1.update(l, e_zero());
  let e3 = e.update(l, e_zero());
  let d3 = d.update(l, dl);
  let z = tg(d3, e3, f, l + 1);
  let y = tg(d, e2, f, l);
  if l < m {
    assert(e1[l] == e[l]);
    small_th(k, e[l], tst);
    drop2(k, vd, d, e1, e2, f, l, 4 * l + 2, l);
  } else {
    assert(e2 =~= e1);
    assert(meq(tg(d, e1, f, l), y, n, n));
    widen(k, vd, tg(d, e1, f, l), y, 4 * l + 2, 4 * l + 4);
  }
  assert forall|q: int| 0 <= q < n implies v(#[trigger] e2[q]) == v(e3[q]) by { }
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] y(a, b) == z(a, b) by {
    if a == b { if a != l { assert(d3[a] == d[a]); } } else if b == a + 1 { assert(v(e2[a]) == v(e3[a])); } else if a == b + 1 { assert(v(e2[b]) == v(e3[b])); }
  }
  widen(k, vd, y, z, 4 * l + 4, 4 * (l + 1));
  zeros_take(e, e3, l, l + 1);
}
// the shift; h: its size
pub proof fn i_shift(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, d2: Seq<E>, f: real, l: int, m: int, p: real, r: real, h: real)
  requires
    ic_ok(k), ist(k, vd, d, e, f, l, m), l < m, d2.len() == k.n, shifted(v(d[l]), v(d[l + 1]), v(e[l]), p, r, v(d2[l]), v(d2[l + 1])), h == v(d[l]) - v(d2[l]),
    forall|q: int| 0 <= q < l ==> #[trigger] d2[q] == d[q], forall|q: int| l + 2 <= q < k.n ==> v(#[trigger] d2[q]) == v(d[q]) - h,
  ensures ist(k, vd, d2, e, f + h, l, m), v(d2[l]) * v(d2[l + 1]) == v(e[l]) * v(e[l]), v(d2[l + 1]) != 0real,
{
  let n = k.n;
  shift_facts(v(d[l]), v(d[l + 1]), v(e[l]), p, r, v(d2[l]), v(d2[l + 1]));
  let e1 = e.update(m, e_zero());
  let x = tg(d, e1, f, l);
  let y = tg(d2, e1, f + h, l);
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] x(a, b) == y(a, b) by {
    if a == b { if a < l { assert(d2[a] == d[a]); } else if a >= l + 2 { assert(v(d2[a]) == v(d[a]) - h); } }
  }
  let w = (4 * l + 2) as real * k.th;
  ms_entry(k.a, vd, vd, x, n, n, w, k.f2, k.fr, l, l);
  ms_entry(k.a, vd, vd, x, n, n, w, k.f2, k.fr, l + 1, l + 1);
  ms_entry(k.a, vd, vd, x, n, n, w, k.f2, k.fr, l, l + 1);
  assert(e1[l] == e[l]);
  assert(x(l, l + 1) == v(e[l]) && x(l, l) == v(d[l]) + f && x(l + 1, l + 1) == v(d[l + 1]) + f);
  shift_bound(v(d[l]) + f, v(d[l + 1]) + f, v(e[l]), f + h, k.fr);
  widen(k, vd, x, y, 4 * l + 2, 4 * l + 2);
}
// ---- the sweep: rows from j on are done; ds, es: what the sweep started from
pub struct Sw { pub ds: Seq<E>, pub es: Seq<E>, pub f: real, pub l: int, pub m: int }
pub open spec fn sw_ok(k: Ic, w: Sw) -> bool {
  w.ds.len() == k.n && w.es.len() == k.n && 0 <= w.l < w.m < k.n && rabs(w.f) <= 2real * k.fr && v(w.es[k.n - 1]) == 0real && zeros(w.es.take(w.l), 0, w.l)
    && forall|q: int| w.l <= q < w.m ==> v(#[trigger] w.es[q]) != 0real
}
pub struct Nm { pub c: real, pub s: real, pub p: real, pub c2: real, pub s2: real, pub c3: real, pub pj: real }
#[verifier::opaque]
pub open spec fn sw(k: Ic, w: Sw, vd: Seq<E>, d: Seq<E>, e: Seq<E>, j: int, z: Nm) -> bool {
  lens(k, vd, d, e) && w.l <= j <= w.m && (forall|q: int| 0 <= q <= j ==> #[trigger] d[q] == w.ds[q])
    && (forall|q: int| (0 <= q <= j && q < w.m || w.m < q < k.n) ==> #[trigger] e[q] == w.es[q])
    && (j < w.m ==> v(e[w.m]) == 0real && z.s != 0real && z.s * z.pj == z.c * v(w.es[j]) && z.pj == z.c2 * v(w.ds[j + 1]) - z.s2 * (z.c3 * v(w.es[j + 1])))
    && (forall|q: int| j < q < w.m ==> v(#[trigger] e[q]) != 0real)
    && z.p == z.c * v(w.ds[j]) - z.s * (z.c2 * v(w.es[j]))
    && (j == w.m ==> z.c == 1real && z.s == 0real)
    && qst(k, vd, qm(d, e, w.f, w.l, j, z.c, z.s, z.p), 4 * w.l + 2)
}
pub proof fn sw_start(k: Ic, w: Sw, vd: Seq<E>, z: Nm)
  requires ic_ok(k), sw_ok(k, w), ist(k, vd, w.ds, w.es, w.f, w.l, w.m), z.c == 1real, z.s == 0real, z.c2 == 1real, z.p == v(w.ds[w.m]),
  ensures sw(k, w, vd, w.ds, w.es, w.m, z),
{
  reveal(sw);
  let (d, e, m) = (w.ds, w.es, w.m);
  let em = e.update(m, e_zero());
  assert(v(em[m]) == 0real);
  qm_start(d, e, em, w.f, w.l, k.n, m);
  widen(k, vd, tg(d, em, w.f, w.l), qm(d, e, w.f, w.l, m, 1real, 0real, z.p), 4 * w.l + 2, 4 * w.l + 2);
  let (x, y) = (z.p, 1real * v(e[m]));
  assert(1real * x == x && 0real * y == 0real) by (nonlinear_arith);
}
pub proof fn sw_look(k: Ic, w: Sw, vd: Seq<E>, d: Seq<E>, e: Seq<E>, j: int, z: Nm)
  requires sw(k, w, vd, d, e, j, z), sw_ok(k, w), w.l < j,
  ensures lens(k, vd, d, e), d[j - 1] == w.ds[j - 1], e[j - 1] == w.es[j - 1], v(e[j - 1]) != 0real, j <= w.m,
{ reveal(sw); assert(e[j - 1] == w.es[j - 1]); assert(d[j - 1] == w.ds[j - 1]); }
pub proof fn sw_step(k: Ic, w: Sw, vd: Seq<E>, vd2: Seq<E>, d: Seq<E>, e: Seq<E>, d2: Seq<E>, e2: Seq<E>, j: int, z: Nm, r: real, z2: Nm)
  requires
    ic_ok(k), sw_ok(k, w), sw(k, w, vd, d, e, j, z), w.l < j, is_hypot(r, z.p, v(e[j - 1])),
    z2.c == rdiv(z.p, r), z2.s == rdiv(v(e[j - 1]), r), z2.p == z2.c * v(d[j - 1]) - z2.s * (z.c * v(e[j - 1])), z2.c2 == z.c, z2.s2 == z.s, z2.c3 == z.c2, z2.pj == z.p,
    d2.len() == d.len(), forall|q: int| 0 <= q < k.n && q != j ==> #[trigger] d2[q] == d[q], v(d2[j]) == z.c * z.p + z2.s * (z2.c * (z.c * v(e[j - 1])) + z2.s * v(d[j - 1])),
    e2.len() == e.len(), forall|q: int| 0 <= q < k.n && q != j ==> #[trigger] e2[q] == e[q], v(e2[j]) == z.s * r,
    rotd(vd, vd2, k.n, k.n, j - 1, j, z2.c, -z2.s), vd2.len() == vd.len(),
  ensures sw(k, w, vd2, d2, e2, j - 1, z2),
{
  reveal(sw);
  let i = j - 1;
  let ei = v(e[i]);
  assert(e[i] == w.es[i] && d[i] == w.ds[i]);
  let p = z.p;
  assert(p * p >= 0real && ei * ei > 0real) by (nonlinear_arith) requires ei != 0real;
  assert(r > 0real) by (nonlinear_arith) requires r >= 0real, r * r > 0real;
  rotnum_facts(z.c, z.s, p, ei, r, z2.c, z2.s);
  qm_step(d, e, d2, e2, w.f, w.l, k.n, j, z.c, z.s, p, r, z2.c, z2.s, z2.p);
  rotd_done(vd, vd2, k.n, i, j, z2.c, -z2.s);
  let s2 = z2.s;
  assert(-(-s2) == s2);
  ms_sim(k.a, vd, vd2, qm(d, e, w.f, w.l, j, z.c, z.s, p), qm(d2, e2, w.f, w.l, i, z2.c, z2.s, z2.p), k.n, (4 * w.l + 2) as real * k.th, k.f2, i, j, z2.c, -z2.s, z2.s, z2.c);
  let s0 = z.s;
  if j < w.m {
    assert(s0 * r != 0real) by (nonlinear_arith) requires s0 != 0real, r > 0real;
    assert(e2[w.m] == e[w.m]);
  } else {
    assert(s0 * r == 0real) by (nonlinear_arith) requires s0 == 0real;
  }
  assert(s2 != 0real) by { if s2 == 0real { assert(0real * r == 0real) by (nonlinear_arith); } }
  assert forall|q: int| i < q < w.m implies v(#[trigger] e2[q]) != 0real by { if q != j { assert(e2[q] == e[q]); } }
}
// after the sweep
pub proof fn sw_end(k: Ic, w: Sw, vd: Seq<E>, d: Seq<E>, e: Seq<E>, d2: Seq<E>, e2: Seq<E>, z: Nm, dl: E, el: E, p: real)
  requires
    ic_ok(k), sw_ok(k, w), sw(k, w, vd, d, e, w.l, z), v(w.ds[w.l]) * v(w.ds[w.l + 1]) == v(w.es[w.l]) * v(w.es[w.l]), v(w.ds[w.l + 1]) != 0real,
    p == rdiv((((-z.s) * z.s2) * z.c3) * v(w.es[w.l + 1]) * v(e[w.l]), v(w.ds[w.l + 1])),
    v(dl) == z.c * p, v(el) == z.s * p, d2 == d.update(w.l, dl), e2 == e.update(w.l, el),
  ensures ist(k, vd, d2, e2, w.f, w.l, w.m), v(e2[w.m]) == 0real, forall|q: int| w.l < q < w.m ==> v(#[trigger] e2[q]) != 0real,
{
  reveal(sw);
  let (l, m, n) = (w.l, w.m, k.n);
  assert(e[l] == w.es[l] && d[l] == w.ds[l]);
  last_p(z.c, z.s, z.pj, z.c2, z.s2, z.c3, v(w.es[l + 1]), v(w.es[l]), v(w.ds[l]), v(w.ds[l + 1]), z.p);
  if l > 0 { zero_at(w.es, l, l - 1); assert(e[l - 1] == w.es[l - 1]); }
  qm_end(d, e, d2, e2, w.f, l, n, z.c, z.s, z.p);
  let x = qm(d, e, w.f, l, l, z.c, z.s, z.p);
  let y = tg(d2, e2, w.f, l);
  let e3 = e2.update(m, e_zero());
  let t = tg(d2, e3, w.f, l);
  assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] x(a, b) == t(a, b) by {
    assert(x(a, b) == y(a, b));
    if b == a + 1 { assert(v(e3[a]) == v(e2[a])); } else if a == b + 1 { assert(v(e3[b]) == v(e2[b])); }
  }
  widen(k, vd, x, t, 4 * l + 2, 4 * l + 2);
  assert forall|q: int| 0 <= q < l implies #[trigger] e2[q] == w.es[q] by { assert(e[q] == w.es[q]); }
  zeros_take(w.es, e2, l, l);
  if m < n - 1 { assert(e2[n - 1] == e[n - 1]); assert(e[n - 1] == w.es[n - 1]); }
  assert forall|q: int| l < q < m implies v(#[trigger] e2[q]) != 0real by { assert(e2[q] == e[q]); }
}
// ---- all eigenvalues are found
pub proof fn o_end(k: Ic, vd: Seq<E>, d: Seq<E>, e: Seq<E>, f: real)
  requires ic_ok(k), ost(k, vd, d, e, f, k.n),
  ensures qst(k, vd, dg(d), 4 * k.n), forall|q: int| 0 <= q < k.n ==> v(#[trigger] e[q]) == 0real,
{
  let n = k.n;
  assert forall|q: int| 0 <= q < n implies v(#[trigger] e[q]) == 0real by { zero_at(e, n, q); }
  let (x, y) = (tg(d, e, f, n), dg(d));
  assert(meq(x, y, n, n));
  widen(k, vd, x, y, 4 * n, 4 * n);
}
pub open spec fn sorted_to(d: Seq<E>, i: int, n: int) -> bool { forall|p: int, q: int| 0 <= p < i && p < q < n ==> v(#[trigger] d[p]) >= v(#[trigger] d[q]) }
pub proof fn sort_step(d: Seq<E>, d2: Seq<E>, i: int, k: int, n: int)
  requires
    sorted_to(d, i, n), 0 <= i <= k < n, d.len() == n, d2.len() == n, forall|q: int| i <= q < n ==> v(#[trigger] d[q]) <= v(d[k]),
    forall|q: int| 0 <= q < n ==> #[trigger] d2[q] == if q == i { d[k] } else if q == k { d[i] } else { d[q] },
  ensures sorted_to(d2, i + 1, n),
{
  assert forall|p: int, q: int| 0 <= p < i + 1 && p < q < n implies v(#[trigger] d2[p]) >= v(#[trigger] d2[q]) by {
    let (a, b) = (if p == i { k } else if p == k { i } else { p }, if q == i { k } else if q == k { i } else { q });
    assert(d2[p] == d[a] && d2[q] == d[b]);
    if p < i { assert(a == p && b > p); } else { assert(a == k && b >= i); }
  }
}
}
pub use egw::*;
