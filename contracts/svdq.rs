// ---------------------------------------------------------------- singular value decomposition: the iteration
pub mod svq {
use super::*;
// what stays the same during the iteration: the matrix, its size, its norm, and the largest element that may be dropped
pub struct It { pub a: Mt, pub m: int, pub n: int, pub f2: real, pub fr: real, pub th: real, pub tn: real }
pub open spec fn it_ok(c: It) -> bool {
  0 < c.n <= c.m && c.fr >= 0real && c.fr * c.fr == c.f2 && c.th == thr(c.fr) && c.th >= 0real && 0real <= c.tn <= tiny0() + r_epsilon() * (r_epsilon() * c.fr)
}
pub open spec fn sz(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>) -> bool { ud.len() == c.m * c.m && vd.len() == c.n * c.n && s.len() == c.n && e.len() == c.n }
pub open spec fn base(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int) -> bool { it_ok(c) && sz(c, ud, vd, s, e) && 0 <= p <= c.n && zeros(e, p - 1, c.n) && ordered(s, p, c.n) }
pub open spec fn msx(c: It, ud: Seq<E>, vd: Seq<E>, x: Mt, e: Seq<E>, d: real) -> bool { ms(c.a, ud, vd, x, c.m, c.n, budget(c.n, e, c.th) + d, c.f2) }
// between steps: singular values from p on are final, d has been dropped beyond the budget
#[verifier::opaque]
pub open spec fn st(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, d: real) -> bool {
  base(c, ud, vd, s, e, p) && msx(c, ud, vd, bd(s, e), e, d)
}
// the superdiagonal element before k is zero
pub open spec fn cut_at(e: Seq<E>, k: int) -> bool { k == 0 || v(e[k - 1]) == 0real }
pub proof fn er_v(x: E)
  ensures x == er(v(x)),
{ }
pub proof fn st_begin(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>)
  requires it_ok(c), sz(c, ud, vd, s, e), ms(c.a, ud, vd, bd(s, e), c.m, c.n, budget(c.n, e, c.th), c.f2), v(e[c.n - 1]) == 0real,
  ensures st(c, ud, vd, s, e, c.n, 0real),
{ reveal(st); assert(budget(c.n, e, c.th) + 0real == budget(c.n, e, c.th)); }
pub proof fn mono(c: It, ud: Seq<E>, vd: Seq<E>, x: Mt, x2: Mt, e: Seq<E>, e2: Seq<E>, d: real)
  requires msx(c, ud, vd, x, e, d), meq(x, x2, c.m, c.n), c.n >= 0, c.th >= 0real, forall|i: int| 0 <= i < c.n && v(#[trigger] e[i]) == 0real ==> v(e2[i]) == 0real,
  ensures msx(c, ud, vd, x2, e2, d),
{
  budget_le(e, e2, c.n, c.th);
  ms_ext(c.a, ud, vd, x, x2, c.m, c.n, budget(c.n, e, c.th) + d, budget(c.n, e2, c.th) + d, c.f2);
}
// ---- looking for negligible elements
proof fn bounded(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, i: int)
  requires st(c, ud, vd, s, e, p, 0real), 0 <= i < c.n,
  ensures rabs(v(s[i])) <= c.fr, rabs(v(e[i])) <= c.fr,
{
  reveal(st);
  let n = c.n;
  assert(zeros(e, n - 1, n));
  entries(c.a, ud, vd, s, e, c.m, n, budget(n, e, c.th) + 0real, c.f2, c.fr, n - 1);
}
pub proof fn escan_drop(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, x: E)
  requires st(c, ud, vd, s, e, p, 0real), 0 <= k, k + 1 < p, rabs(v(e[k])) <= c.tn + r_epsilon() * (rabs(v(s[k])) + rabs(v(s[k + 1]))), v(x) == 0real,
  ensures st(c, ud, vd, s, e.update(k, x), p, 0real),
{
  reveal(st);
  let e2 = e.update(k, x);
  bounded(c, ud, vd, s, e, p, k);
  bounded(c, ud, vd, s, e, p, k + 1);
  thr_bound(c.fr, c.tn, r_epsilon(), rabs(v(s[k])), rabs(v(s[k + 1])), rabs(v(e[k])));
  drop_e(c.a, ud, vd, s, e, e2, c.m, c.n, c.th, c.f2, k);
}
pub proof fn escan_keep(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int)
  requires st(c, ud, vd, s, e, p, 0real), 0 <= k, k + 1 < p, !(rabs(v(e[k])) <= c.tn + r_epsilon() * (rabs(v(s[k])) + rabs(v(s[k + 1])))),
  ensures v(e[k]) != 0real,
{
  reveal(st);
  bounded(c, ud, vd, s, e, p, k);
  bounded(c, ud, vd, s, e, p, k + 1);
  thr_bound(c.fr, c.tn, r_epsilon(), rabs(v(s[k])), rabs(v(s[k + 1])), c.tn + r_epsilon() * (rabs(v(s[k])) + rabs(v(s[k + 1]))));
}
pub proof fn sscan_drop(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, y: real, x: E)
  requires
    st(c, ud, vd, s, e, p, 0real), 0 <= k < p, y == 0real || k > 0 && y == rabs(v(e[k - 1])),
    rabs(v(s[k])) <= c.tn + r_epsilon() * (rabs(v(e[k])) + y), v(x) == 0real,
  ensures st(c, ud, vd, s.update(k, x), e, p, c.th),
{
  reveal(st);
  let s2 = s.update(k, x);
  bounded(c, ud, vd, s, e, p, k);
  if k > 0 { bounded(c, ud, vd, s, e, p, k - 1); }
  thr_bound(c.fr, c.tn, r_epsilon(), rabs(v(e[k])), y, rabs(v(s[k])));
  drop_s(c.a, ud, vd, s, s2, e, c.m, c.n, budget(c.n, e, c.th) + 0real, c.th, c.f2, k);
  assert(budget(c.n, e, c.th) + 0real + c.th == budget(c.n, e, c.th) + c.th);
}
pub proof fn sscan_keep(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, y: real)
  requires
    st(c, ud, vd, s, e, p, 0real), 0 <= k < p, y == 0real || k > 0 && y == rabs(v(e[k - 1])),
    !(rabs(v(s[k])) <= c.tn + r_epsilon() * (rabs(v(e[k])) + y)),
  ensures v(s[k]) != 0real,
{
  reveal(st);
  bounded(c, ud, vd, s, e, p, k);
  if k > 0 { bounded(c, ud, vd, s, e, p, k - 1); }
  thr_bound(c.fr, c.tn, r_epsilon(), rabs(v(e[k])), y, c.tn + r_epsilon() * (rabs(v(e[k])) + y));
}
// ---- s[p-1] is zero: column p-1 is rotated away, from row p-2 up to row k
#[verifier::opaque]
pub open spec fn dfl(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, j: int, f: real) -> bool {
  &&& base(c, ud, vd, s, e, p) && 0 <= k <= p - 2 && k - 1 <= j <= p - 2 && v(s[p - 1]) == 0real && v(e[p - 2]) == 0real && cut_at(e, k) && nonzeros(e, k, j)
  &&& if j >= k { f != 0real && msx(c, ud, vd, bx(s, e, j, p - 1, f), e, 0real) } else { msx(c, ud, vd, bd(s, e), e, 0real) }
}
pub proof fn dfl_start(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, x: E)
  requires st(c, ud, vd, s, e, p, c.th), 0 <= k <= p - 2, v(s[p - 1]) == 0real, cut_at(e, k), nonzeros(e, k, p - 1), v(x) == 0real,
  ensures dfl(c, ud, vd, s, e.update(p - 2, x), p, k, p - 2, v(e[p - 2])),
{
  reveal(st); reveal(dfl);
  let e2 = e.update(p - 2, x);
  let f = v(e[p - 2]);
  budget_less(e, e2, c.n, c.th, p - 2);
  assert(meq(bd(s, e), bx(s, e2, p - 2, p - 1, f), c.m, c.n));
  ms_ext(c.a, ud, vd, bd(s, e), bx(s, e2, p - 2, p - 1, f), c.m, c.n, budget(c.n, e, c.th) + c.th, budget(c.n, e2, c.th) + 0real, c.f2);
}
pub proof fn dfl_step(c: It, ud: Seq<E>, vd: Seq<E>, vd2: Seq<E>, s: Seq<E>, s2: Seq<E>, e: Seq<E>, e2: Seq<E>, p: int, k: int, j: int, f: real, g: real, t: E, x: E, cs: real, sn: real)
  requires
    dfl(c, ud, vd, s, e, p, k, j, f), j >= k, is_hypot(v(t), v(s[j]), f), cs == rdiv(v(s[j]), v(t)), sn == rdiv(f, v(t)), s2 == s.update(j, t),
    if j == k { e2 == e } else { e2 == e.update(j - 1, x) && v(x) == cs * v(e[j - 1]) && g == -sn * v(e[j - 1]) },
    rotd(vd, vd2, c.n, c.n, j, p - 1, cs, sn),
  ensures dfl(c, ud, vd2, s2, e2, p, k, j - 1, g),
{
  reveal(dfl);
  let (m, n, l) = (c.m, c.n, p - 1);
  rot_of(v(t), v(s[j]), f);
  orth2_rot(cs, sn);
  rotd_done(vd, vd2, n, j, l, cs, sn);
  er_v(t); er_v(x);
  deflate_step(s, e, s2, e2, m, n, l, k, j, f, g, v(t), cs, sn);
  let y = if j == k { bd(s2, e2) } else { bx(s2, e2, j - 1, l, g) };
  ms_cols(c.a, ud, vd, vd2, bx(s, e, j, l, f), y, m, n, budget(n, e, c.th) + 0real, c.f2, j, l, cs, sn, -sn, cs);
  assert forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real implies v(e2[i]) == 0real by { if j > k && i == j - 1 { assert(cs * 0real == 0real) by (nonlinear_arith); } }
  assert(meq(y, y, m, n));
  mono(c, ud, vd2, y, y, e, e2, 0real);
  if j > k {
    let ej = v(e[j - 1]);
    assert(-sn * ej != 0real) by (nonlinear_arith) requires sn != 0real, ej != 0real;
  }
}
pub proof fn dfl_end(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, f: real)
  requires dfl(c, ud, vd, s, e, p, k, k - 1, f),
  ensures st(c, ud, vd, s, e, p, 0real),
{ reveal(dfl); reveal(st); }
// ---- s[l] is zero: row l is rotated away, from column l+1 on
#[verifier::opaque]
pub open spec fn spl(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, l: int, j: int, f: real) -> bool {
  &&& base(c, ud, vd, s, e, p) && 0 <= l < j <= p && l + 2 <= p && v(s[l]) == 0real && v(e[l]) == 0real && nonzeros(e, j, p - 1)
  &&& (f != 0real || j == p) && (j == p ==> f == 0real)
  &&& msx(c, ud, vd, bx(s, e, l, j, f), e, 0real)
}
pub proof fn spl_start(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, l: int, x: E)
  requires st(c, ud, vd, s, e, p, c.th), 0 <= l, l + 2 <= p, v(s[l]) == 0real, nonzeros(e, l, p - 1), v(x) == 0real,
  ensures spl(c, ud, vd, s, e.update(l, x), p, l, l + 1, v(e[l])),
{
  reveal(st); reveal(spl);
  let e2 = e.update(l, x);
  let f = v(e[l]);
  budget_less(e, e2, c.n, c.th, l);
  assert(meq(bd(s, e), bx(s, e2, l, l + 1, f), c.m, c.n));
  ms_ext(c.a, ud, vd, bd(s, e), bx(s, e2, l, l + 1, f), c.m, c.n, budget(c.n, e, c.th) + c.th, budget(c.n, e2, c.th) + 0real, c.f2);
}
pub proof fn spl_step(c: It, ud: Seq<E>, ud2: Seq<E>, vd: Seq<E>, s: Seq<E>, s2: Seq<E>, e: Seq<E>, e2: Seq<E>, p: int, l: int, j: int, f: real, g: real, t: E, x: E, cs: real, sn: real)
  requires
    spl(c, ud, vd, s, e, p, l, j, f), j < p, is_hypot(v(t), v(s[j]), f), cs == rdiv(v(s[j]), v(t)), sn == rdiv(f, v(t)), s2 == s.update(j, t),
    e2 == e.update(j, x), v(x) == cs * v(e[j]), g == -sn * v(e[j]), rotd(ud, ud2, c.m, c.m, j, l, cs, sn),
  ensures spl(c, ud2, vd, s2, e2, p, l, j + 1, g),
{
  reveal(spl);
  let (m, n) = (c.m, c.n);
  rot_of(v(t), v(s[j]), f);
  orth2_rot(cs, sn);
  rotd_done(ud, ud2, m, j, l, cs, sn);
  er_v(t); er_v(x);
  split_step(s, e, s2, e2, m, n, l, j, f, g, v(t), cs, sn);
  let y = bx(s2, e2, l, j + 1, g);
  ms_rows(c.a, ud, ud2, vd, bx(s, e, l, j, f), y, m, n, budget(n, e, c.th) + 0real, c.f2, j, l, cs, sn, -sn, cs);
  let ej = v(e[j]);
  assert forall|i: int| 0 <= i < n && v(#[trigger] e[i]) == 0real implies v(e2[i]) == 0real by { if i == j { assert(cs * 0real == 0real) by (nonlinear_arith); } }
  assert(meq(y, y, m, n));
  mono(c, ud2, vd, y, y, e, e2, 0real);
  if j + 1 < p { assert(-sn * ej != 0real) by (nonlinear_arith) requires sn != 0real, ej != 0real; } else { assert(ej == 0real); assert(-sn * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn spl_end(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, l: int, f: real)
  requires spl(c, ud, vd, s, e, p, l, p, f),
  ensures st(c, ud, vd, s, e, p, 0real),
{
  reveal(spl); reveal(st);
  assert(meq(bx(s, e, l, p, f), bd(s, e), c.m, c.n));
  mono(c, ud, vd, bx(s, e, l, p, f), bd(s, e), e, e, 0real);
}
// ---- one QR step: the bulge is chased from k down to p-1
pub open spec fn chz(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e0: Seq<E>, e: Seq<E>, p: int, k: int, j: int) -> bool {
  &&& base(c, ud, vd, s, e, p) && 0 <= k <= j <= p - 1 && k <= p - 2 && cut_at(e, k) && nonzeros(s, j + 1, p) && nonzeros(e, j + 1, p - 1)
  &&& nonzeros(e0, k, p - 1) && forall|q: int| 0 <= q < c.n && !(k <= q < p - 1) ==> v(#[trigger] e[q]) == v(e0[q])
}
#[verifier::opaque]
pub open spec fn chs(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e0: Seq<E>, e: Seq<E>, p: int, k: int, j: int, f: real, g: real) -> bool {
  chz(c, ud, vd, s, e0, e, p, k, j) && (if j < p - 1 { g != 0real && (j == k ==> v(e[j]) != 0real) } else { g == 0real }) && msx(c, ud, vd, chb(s, e, k, j, f, g), e0, 0real)
}
#[verifier::opaque]
pub open spec fn chm(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e0: Seq<E>, e: Seq<E>, p: int, k: int, j: int, f: real, g: real) -> bool {
  &&& base(c, ud, vd, s, e, p) && 0 <= k <= j < p - 1 && cut_at(e, k) && nonzeros(s, j + 2, p) && nonzeros(e, j + 1, p - 1) && g != 0real
  &&& nonzeros(e0, k, p - 1) && forall|q: int| 0 <= q < c.n && !(k <= q < p - 1) ==> v(#[trigger] e[q]) == v(e0[q])
  &&& msx(c, ud, vd, chc(s, e, j, f, g), e0, 0real)
}
pub proof fn chs_start(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, f: real, g: real)
  requires st(c, ud, vd, s, e, p, 0real), 0 <= k <= p - 2, cut_at(e, k), nonzeros(e, k, p - 1), nonzeros(s, k, p), g != 0real,
  ensures chs(c, ud, vd, s, e, e, p, k, k, f, g),
{
  reveal(st); reveal(chs);
  assert(meq(bd(s, e), chb(s, e, k, k, f, g), c.m, c.n));
  mono(c, ud, vd, bd(s, e), chb(s, e, k, k, f, g), e, e, 0real);
}
// the first half of a step: columns j and j+1
pub proof fn chs_col(c: It, ud: Seq<E>, vd: Seq<E>, vd2: Seq<E>, s: Seq<E>, s2: Seq<E>, e0: Seq<E>, e: Seq<E>, e2: Seq<E>, p: int, k: int, j: int, f: real, g: real, f2: real, g2: real, t: E, x: E, y: E, cs: real, sn: real)
  requires
    chs(c, ud, vd, s, e0, e, p, k, j, f, g), j < p - 1, is_hypot(v(t), f, g), cs == rdiv(f, v(t)), sn == rdiv(g, v(t)),
    s2 =~= s.update(j + 1, x), v(x) == cs * v(s[j + 1]), e2 == (if j == k { e } else { e.update(j - 1, t) }).update(j, y), v(y) == cs * v(e[j]) - sn * v(s[j]),
    f2 == cs * v(s[j]) + sn * v(e[j]), g2 == sn * v(s[j + 1]), rotd(vd, vd2, c.n, c.n, j, j + 1, cs, sn),
  ensures chm(c, ud, vd2, s2, e0, e2, p, k, j, f2, g2),
{
  reveal(chs); reveal(chm);
  let (m, n) = (c.m, c.n);
  rot_of(v(t), f, g);
  orth2_rot(cs, sn);
  rotd_done(vd, vd2, n, j, j + 1, cs, sn);
  er_v(t); er_v(x); er_v(y);
  chase_col(s, e, s2, e2, m, n, k, j, f, g, f2, g2, v(t), cs, sn);
  ms_cols(c.a, ud, vd, vd2, chb(s, e, k, j, f, g), chc(s2, e2, j, f2, g2), m, n, budget(n, e0, c.th) + 0real, c.f2, j, j + 1, cs, sn, -sn, cs);
  let sj = v(s[j + 1]);
  assert(sn * sj != 0real) by (nonlinear_arith) requires sn != 0real, sj != 0real;
}
// the second half: rows j and j+1
pub proof fn chs_row(c: It, ud: Seq<E>, ud2: Seq<E>, vd: Seq<E>, s: Seq<E>, s2: Seq<E>, e0: Seq<E>, e: Seq<E>, e2: Seq<E>, p: int, k: int, j: int, f: real, g: real, f2: real, g2: real, t: E, x: E, y: E, cs: real, sn: real)
  requires
    chm(c, ud, vd, s, e0, e, p, k, j, f, g), is_hypot(v(t), f, g), cs == rdiv(f, v(t)), sn == rdiv(g, v(t)),
    s2 =~= s.update(j, t).update(j + 1, x), v(x) == -sn * v(e[j]) + cs * v(s[j + 1]), e2 == e.update(j + 1, y), v(y) == cs * v(e[j + 1]),
    f2 == cs * v(e[j]) + sn * v(s[j + 1]), g2 == sn * v(e[j + 1]), rotd(ud, ud2, c.m, c.m, j, j + 1, cs, sn),
  ensures chs(c, ud2, vd, s2, e0, e2, p, k, j + 1, f2, g2),
{
  reveal(chs); reveal(chm);
  let (m, n) = (c.m, c.n);
  rot_of(v(t), f, g);
  orth2_rot(cs, sn);
  rotd_done(ud, ud2, m, j, j + 1, cs, sn);
  er_v(t); er_v(x); er_v(y);
  chase_row(s, e, s2, e2, m, n, k, j, f, g, f2, g2, v(t), cs, sn);
  ms_rows(c.a, ud, ud2, vd, chc(s, e, j, f, g), chb(s2, e2, k, j + 1, f2, g2), m, n, budget(n, e0, c.th) + 0real, c.f2, j, j + 1, cs, sn, -sn, cs);
  let ej = v(e[j + 1]);
  if j + 1 < p - 1 { assert(sn * ej != 0real) by (nonlinear_arith) requires sn != 0real, ej != 0real; }
  else { assert(ej == 0real); assert(sn * 0real == 0real && cs * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn chs_end(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e0: Seq<E>, e: Seq<E>, p: int, k: int, f: real, g: real, x: E)
  requires chs(c, ud, vd, s, e0, e, p, k, p - 1, f, g), v(x) == f,
  ensures st(c, ud, vd, s, e.update(p - 2, x), p, 0real),
{
  reveal(chs); reveal(st);
  let e2 = e.update(p - 2, x);
  assert(meq(chb(s, e, k, p - 1, f, g), bd(s, e2), c.m, c.n));
  mono(c, ud, vd, chb(s, e, k, p - 1, f, g), bd(s, e2), e0, e2, 0real);
}
// ---- s[p-1] is a singular value: it is made non-negative and moved to its place
#[verifier::opaque]
pub open spec fn srt(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int) -> bool {
  it_ok(c) && sz(c, ud, vd, s, e) && 1 <= p <= c.n && p - 1 <= k < c.n && zeros(e, p - 2, c.n) && ordered_but(s, p - 1, c.n, k) && msx(c, ud, vd, bd(s, e), e, 0real)
}
pub proof fn srt_flip(c: It, ud: Seq<E>, vd: Seq<E>, vd2: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int, x: E)
  requires st(c, ud, vd, s, e, p, 0real), 1 <= p, k == p - 1, cut_at(e, k), v(s[k]) <= 0real, v(x) == -v(s[k]), negated(vd, vd2, c.n, 0, c.n, k),
  ensures srt(c, ud, vd2, s.update(k, x), e, p, k),
{
  reveal(st); reveal(srt);
  let s2 = s.update(k, x);
  assert forall|i: int, j: int| 0 <= i < c.n && 0 <= j < c.n implies #[trigger] el(vd2, c.n, i, j) == (if j == k { -el(vd, c.n, i, j) } else { el(vd, c.n, i, j) }) by { }
  assert forall|i: int, j: int| 0 <= i < c.m && 0 <= j < c.n implies #[trigger] bd(s2, e)(i, j) == (if j == k { -bd(s, e)(i, j) } else { bd(s, e)(i, j) }) by { }
  ms_flip(c.a, ud, vd, vd2, bd(s, e), bd(s2, e), c.m, c.n, budget(c.n, e, c.th) + 0real, c.f2, k);
}
pub proof fn srt_noflip(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int)
  requires st(c, ud, vd, s, e, p, 0real), 1 <= p, k == p - 1, cut_at(e, k), v(s[k]) >= 0real,
  ensures srt(c, ud, vd, s, e, p, k),
{ reveal(st); reveal(srt); }
pub proof fn srt_step(c: It, ud: Seq<E>, ud2: Seq<E>, vd: Seq<E>, vd2: Seq<E>, s: Seq<E>, s2: Seq<E>, e: Seq<E>, p: int, k: int)
  requires
    srt(c, ud, vd, s, e, p, k), k + 1 < c.n, v(s[k]) < v(s[k + 1]), s2 =~= s.update(k, s[k + 1]).update(k + 1, s[k]),
    swapd(vd, vd2, c.n, c.n, k), swapd(ud, ud2, c.m, c.m, k),
  ensures srt(c, ud2, vd2, s2, e, p, k + 1),
{
  reveal(srt);
  ms_swap(c.a, ud, ud2, vd, vd2, s, s2, e, c.m, c.n, budget(c.n, e, c.th) + 0real, c.f2, k);
  let (q, n) = (p - 1, c.n);
  assert forall|i: int, j: int| #![trigger s2[i], s2[j]] q <= i < j < n && i != k + 1 implies v(s2[i]) >= v(s2[j]) by {
    let a = if i == k { k + 1 } else { i };
    let b = if j == k { k + 1 } else if j == k + 1 { k } else { j };
    assert(s2[i] == s[a] && s2[j] == s[b]);
    if i == k {
      if j > k + 1 { assert(v(s[k + 1]) >= v(s[j])); }
    } else if i < k { assert(v(s[i]) >= v(s[b])); }
    else { assert(v(s[i]) >= v(s[j])); }
  }
  assert forall|i: int| q <= i < n implies v(#[trigger] s2[i]) >= 0real by { let a = if i == k { k + 1 } else if i == k + 1 { k } else { i }; assert(s2[i] == s[a]); }
}
pub proof fn srt_end(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, p: int, k: int)
  requires srt(c, ud, vd, s, e, p, k), k + 1 == c.n || v(s[k]) >= v(s[k + 1]),
  ensures st(c, ud, vd, s, e, p - 1, 0real),
{
  reveal(srt); reveal(st);
  let (q, n) = (p - 1, c.n);
  assert forall|i: int, j: int| #![trigger s[i], s[j]] q <= i < j < n implies v(s[i]) >= v(s[j]) by {
    if i == k && j > k + 1 { assert(v(s[k + 1]) >= v(s[j])); }
  }
}
// ---- the result
pub proof fn st_end(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, u: Mt, w: Mt, x: Mt)
  requires
    st(c, ud, vd, s, e, 0, 0real), c.f2 == fro2(c.a, c.m, c.n), c.fr == rsqrt(c.f2), meq(elm(ud, c.m), u, c.m, c.m), meq(elm(vd, c.n), w, c.n, c.n),
    forall|i: int, j: int| 0 <= i < c.m && 0 <= j < c.n ==> #[trigger] x(i, j) == if i == j { v(s[i]) } else { 0real },
  ensures svd_ok(c.a, u, x, w, c.m, c.n),
{
  reveal(st); reveal(ms);
  let (m, n) = (c.m, c.n);
  meq_sym(elm(ud, m), u, m, m); meq_sym(elm(vd, n), w, n, n);
  orth_ext(elm(ud, m), u, m); orth_ext(elm(vd, n), w, n);
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] bd(s, e)(i, j) == x(i, j) by { if j == i + 1 { assert(v(e[i]) == 0real); } }
  ubv_ext(elm(ud, m), bd(s, e), elm(vd, n), u, x, w, m, n);
  nz_le(e, e, n);
  let (p, q, th) = ((3 * n - nz(e, n)) as real, (3 * imin(m, n)) as real, c.th);
  assert(p * th <= q * th) by (nonlinear_arith) requires p <= q, th >= 0real;
  assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies rabs(#[trigger] (c.a)(i, j) - ubv(u, x, w, m, n)(i, j)) <= slack(c.a, m, n) by {
    assert(ubv(elm(ud, m), bd(s, e), elm(vd, n), m, n)(i, j) == ubv(u, x, w, m, n)(i, j));
    assert(rabs((c.a)(i, j) - ubv(elm(ud, m), bd(s, e), elm(vd, n), m, n)(i, j)) <= budget(n, e, th) + 0real);
  }
  assert forall|i: int, j: int| #![trigger x(i, i), x(j, j)] 0 <= i <= j < imin(m, n) implies x(i, i) >= x(j, j) by { assert(x(i, i) == v(s[i]) && x(j, j) == v(s[j])); }
  assert forall|i: int| 0 <= i < imin(m, n) implies #[trigger] x(i, i) >= 0real by { assert(x(i, i) == v(s[i])); }
}
pub proof fn svd_done(c: It, ud: Seq<E>, vd: Seq<E>, s: Seq<E>, e: Seq<E>, a: &Matrix<E>, r: &SVD<E>)
  requires
    st(c, ud, vd, s, e, 0, 0real), c.a == fnof(a), c.f2 == fro2(c.a, c.m, c.n), c.fr == rsqrt(c.f2), a.wf(), c.m == a.no_rows, c.n == a.c(),
    r.u.shaped(c.m, c.m), r.u.data@ == ud, r.v.shaped(c.n, c.n), r.v.data@ == vd, r.s.shaped(c.m, c.n),
    forall|i: int, j: int| 0 <= i < c.m && 0 <= j < c.n ==> #[trigger] r.s.at(i, j) == if i == j { s[i] } else { e_zero() },
  ensures r.of(a),
{
  let (u, w, x) = (fnof(&r.u), fnof(&r.v), fnof(&r.s));
  assert forall|i: int, j: int| 0 <= i < c.m && 0 <= j < c.m implies #[trigger] elm(ud, c.m)(i, j) == u(i, j) by { }
  assert forall|i: int, j: int| 0 <= i < c.n && 0 <= j < c.n implies #[trigger] elm(vd, c.n)(i, j) == w(i, j) by { }
  assert forall|i: int, j: int| 0 <= i < c.m && 0 <= j < c.n implies #[trigger] x(i, j) == (if i == j { v(s[i]) } else { 0real }) by { assert(r.s.at(i, j) == if i == j { s[i] } else { e_zero() }); }
  st_end(c, ud, vd, s, e, u, w, x);
}
pub proof fn quot_nz(a: real, b: real, sc: real)
  requires a != 0real, b != 0real, sc >= rabs(a),
  ensures rdiv(a, sc) * rdiv(b, sc) != 0real,
{
  let (p, q) = (a / sc, b / sc);
  assert(p * sc == a && q * sc == b) by (nonlinear_arith) requires p == a / sc, q == b / sc, sc > 0real;
  assert(0real * sc == 0real) by (nonlinear_arith);
  assert(p != 0real && q != 0real);
  assert(p * q != 0real) by (nonlinear_arith) requires p != 0real, q != 0real;
}
pub proof fn meq_sym(x: Mt, y: Mt, m: int, n: int)
  requires meq(x, y, m, n),
  ensures meq(y, x, m, n),
{ assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] y(i, j) == x(i, j) by { assert(x(i, j) == y(i, j)); } }
}
pub use svq::*;
