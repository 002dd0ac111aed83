@file decomp/eigen.rs
@struct EigenDecomposition
@fn EigenDecomposition::tred2
@props C25
@requires
  n > 0, n * n <= isize::MAX, old(ddata)@.len() == n, old(edata)@.len() == n, old(vdata)@.len() == n * n, symm(elm(old(vdata)@, n as int), n as int),
@ensures
  final(ddata)@.len() == n, final(edata)@.len() == n, final(vdata)@.len() == n * n, orth(elm(final(vdata)@, n as int), n as int),
  ms(elm(old(vdata)@, n as int), final(vdata)@, final(vdata)@, tq(final(ddata)@, final(edata)@), n as int, n as int, 0real, fro2(elm(old(vdata)@, n as int), n as int, n as int)),
@at start
  let ghost gn = n as int;
  let ghost ga = elm(vdata@, gn);
  let ghost f2 = fro2(ga, gn, gn);
  let ghost mut fs = Seq::<Rf>::empty();
@loop 0 for j
  invariant
    gn == n, n > 0, n * n <= isize::MAX, ddata@.len() == n, edata@.len() == n, vdata@.len() == n * n, ga == elm(vdata@, gn),
    forall|c: int| 0 <= c < j ==> v(#[trigger] ddata@[c]) == el(vdata@, gn, gn - 1, c),
@at L1.before
  proof { tst_start(ga, vdata@, ddata@, edata@, gn); }
@loop 1 for i
  invariant
    $lo == 1, $hi == n, gn == n, n > 0, n * n <= isize::MAX, 
    tst(ga, fs, vdata@, ddata@, edata@, gn, $i - 1, f2),
@at L1.start
  let ghost (vd0, ds0, ed0, gi) = (vdata@, ddata@, edata@, i as int);
@loop 1.0 for k
  invariant
    gn == n, gi == i, 1 <= gi < gn, ddata@ == ds0, ds0.len() == gn,
    v(scale) >= 0real, forall|q: int| 0 <= q < k ==> rabs(v(#[trigger] ds0[q])) <= v(scale),
    (forall|q: int| 0 <= q < k ==> v(#[trigger] ds0[q]) == 0real) ==> v(scale) == 0real,
@at L1.0.end
  proof {
    if forall|q: int| 0 <= q < k + 1 ==> v(#[trigger] ds0[q]) == 0real { assert(v(ds0[k as int]) == 0real); assert forall|q: int| 0 <= q < k implies v(#[trigger] ds0[q]) == 0real by { } }
  }
@loop 1.1 for j
  invariant
    gn == n, gi == i, 1 <= gi < gn, n * n <= isize::MAX, ddata@.len() == gn, ds0.len() == gn, ed0.len() == gn, vdata@.len() == gn * gn, vd0.len() == gn * gn, zcross(vd0, vdata@, gn, gi, j as int),
    edata@ == ed0.update(gi, ds0[gi - 1]),
    forall|c: int| 0 <= c < j ==> v(#[trigger] ddata@[c]) == el(vd0, gn, gi - 1, c), forall|c: int| gi < c < gn ==> #[trigger] ddata@[c] == ds0[c],
@at L1.1.start
  let ghost dk = vdata@;
@at L1.1.end
  proof { assert(el(dk, gn, gi - 1, j as int) == el(vd0, gn, gi - 1, j as int)); zcross_step(vd0, dk, gn, gi, j as int, e_zero()); }
@loop 1.2 for k
  invariant
    gn == n, gi == i, 1 <= gi < gn, ddata@.len() == gn, ds0.len() == gn, v(scale) > 0real,
    forall|q: int| 0 <= q < gn ==> v(#[trigger] ddata@[q]) == if q < k { v(ds0[q]) / v(scale) } else { v(ds0[q]) },
    forall|q: int| gi <= q < gn ==> #[trigger] ddata@[q] == ds0[q],
    v(h) == sqs(ds0, v(scale), k as int),
@at L1.2.after
  let ghost sc = v(scale);
  proof { sqs_pos(ds0, sc, gi); root_of(v(h), rsqrt(v(h))); }
@at L1.3.before
  let ghost (du, e1, hv, gg) = (ddata@, edata@, v(h), v(g));
  proof {
    let y = v(ds0[gi - 1]) / sc;
    if y > 0real { assert(gg * y <= 0real) by (nonlinear_arith) requires gg < 0real, y > 0real; } else { assert(gg * y <= 0real) by (nonlinear_arith) requires gg > 0real, y <= 0real; }
    hvec_refl(vd0, ds0, ed0, du, gn, gi, sc, gg, hv);
  }
@loop 1.3 for j
  invariant
    gn == n, gi == i, 1 <= gi < gn, edata@.len() == gn, e1.len() == gn, forall|q: int| 0 <= q < j ==> v(#[trigger] edata@[q]) == 0real, forall|q: int| gi <= q < gn ==> #[trigger] edata@[q] == e1[q],
@loop 1.4 for j
  invariant
    gn == n, gi == i, 1 <= gi < gn, n * n <= isize::MAX, ddata@ == du, du.len() == gn, vdata@.len() == gn * gn, vd0.len() == gn * gn, edata@.len() == gn, e1.len() == gn,
    ucol(vd0, vdata@, gn, gi, j as int, du),
    forall|q: int| 0 <= q < gi ==> v(#[trigger] edata@[q]) == ps(vd0, gn, du, q, if q < j { gi } else { j as int }),
    forall|q: int| gi <= q < gn ==> #[trigger] edata@[q] == e1[q],
@at L1.4.start
  let ghost (dk, gj) = (vdata@, j as int);
@at L1.4.0.before
  proof {
    ucol_step(vd0, dk, gn, gi, gj, du, f);
    assert(ps(vd0, gn, du, gj, gj + 1) == ps(vd0, gn, du, gj, gj) + sl(vd0, gn, gj, gj) * v(du[gj]));
    assert(el(vdata@, gn, gj, gj) == el(vd0, gn, gj, gj));
  }
@loop 1.4.0 for k
  invariant
    gn == n, gi == i, gj == j, 0 <= gj < gi, gi < gn, n * n <= isize::MAX, ddata@ == du, du.len() == gn, vdata@.len() == gn * gn, vd0.len() == gn * gn, edata@.len() == gn, e1.len() == gn,
    ucol(vd0, vdata@, gn, gi, gj + 1, du), v(f) == v(du[gj]), v(g) == ps(vd0, gn, du, gj, k as int),
    forall|q: int| 0 <= q < gi && q != gj ==> v(#[trigger] edata@[q]) == ps(vd0, gn, du, q, if q < gj { gi } else if q < k { gj + 1 } else { gj }),
    forall|q: int| gi <= q < gn ==> #[trigger] edata@[q] == e1[q],
@at L1.4.0.end
  proof {
    assert(el(vdata@, gn, k as int, gj) == el(vd0, gn, k as int, gj));
    assert(ps(vd0, gn, du, gj, k + 1) == ps(vd0, gn, du, gj, k as int) + sl(vd0, gn, gj, k as int) * v(du[k as int]));
    assert(ps(vd0, gn, du, k as int, gj + 1) == ps(vd0, gn, du, k as int, gj) + sl(vd0, gn, k as int, gj) * v(du[gj]));
  }
@at L1.4.after
  let ghost (vd4, e4) = (vdata@, edata@);
@loop 1.5 for j
  invariant
    gn == n, gi == i, 1 <= gi < gn, ddata@ == du, du.len() == gn, edata@.len() == gn, e4.len() == gn, v(h) == hv, hv > 0real,
    forall|q: int| 0 <= q < gi ==> v(#[trigger] edata@[q]) == if q < j { v(e4[q]) / hv } else { v(e4[q]) },
    forall|q: int| gi <= q < gn ==> #[trigger] edata@[q] == e4[q],
    v(f) == fsum(e4, du, hv, j as int),
@at L1.6.before
  let ghost ghh = v(hh);
@loop 1.6 for j
  invariant
    gn == n, gi == i, 1 <= gi < gn, ddata@ == du, du.len() == gn, edata@.len() == gn, e4.len() == gn, v(hh) == ghh,
    forall|q: int| 0 <= q < gi ==> v(#[trigger] edata@[q]) == if q < j { v(e4[q]) / hv - ghh * v(du[q]) } else { v(e4[q]) / hv },
    forall|q: int| gi <= q < gn ==> #[trigger] edata@[q] == e4[q],
@at L1.6.after
  let ghost e6 = edata@;
  let ghost (gu, gq) = (upto(du, gi), qvec(e6, gi));
@loop 1.7 for j
  invariant
    gn == n, gi == i, 1 <= gi < gn, n * n <= isize::MAX, ddata@.len() == gn, du.len() == gn, vdata@.len() == gn * gn, vd4.len() == gn * gn, edata@ == e6, e6.len() == gn,
    gu == upto(du, gi), gq == qvec(e6, gi), r2(vd4, vdata@, gn, gi, j as int, j as int, gu, gq),
    forall|c: int| 0 <= c < j ==> v(#[trigger] ddata@[c]) == el(vdata@, gn, gi - 1, c), forall|c: int| j <= c < gn ==> #[trigger] ddata@[c] == du[c],
@at L1.7.start
  let ghost (dj, gj) = (vdata@, j as int);
@loop 1.7.0 for k
  invariant
    gn == n, gi == i, gj == j, 0 <= gj < gi, gi < gn, n * n <= isize::MAX, ddata@.len() == gn, du.len() == gn, vdata@.len() == gn * gn, vd4.len() == gn * gn, edata@ == e6, e6.len() == gn,
    gu == upto(du, gi), gq == qvec(e6, gi), r2(vd4, vdata@, gn, gi, gj, k as int, gu, gq), v(f) == gu(gj), v(g) == gq(gj),
    forall|c: int| j <= c < gn ==> #[trigger] ddata@[c] == du[c],
@at L1.7.0.start
  let ghost dk = vdata@;
@at L1.7.0.end
  proof { r2_in(vd4, dk, gn, gi, gj, k as int, gu, gq, vdata@[k * gn + gj]); }
@at L1.7.0.after
  let ghost dn = vdata@;
@at L1.7.end
  proof {
    r2_out(vd4, dn, gn, gi, gj, gu, gq, e_zero());
    assert forall|c: int| 0 <= c < gj + 1 implies v(#[trigger] ddata@[c]) == el(vdata@, gn, gi - 1, c) by {
      assert(el(vdata@, gn, gi - 1, c) == el(dn, gn, gi - 1, c));
      if c < gj { assert(el(dj, gn, gi - 1, c) == el(dn, gn, gi - 1, c)); }
    }
  }
@at if0.then
  proof { assert forall|t: int| 0 <= t < gi implies v(#[trigger] ds0[t]) == 0real by { assert(rabs(v(ds0[t])) <= v(scale)); } }
@at if0.thenend
  proof {
    tst_skip(ga, fs, vd0, ds0, ed0, edata@, vdata@, ddata@, gn, gi, f2, h);
    fs = fs.push(Rf { h: upto(edata@, 0), t: 0real });
  }
@at if0.elseend
  proof {
    tst_step(ga, fs, vd0, ds0, ed0, du, e4, e6, vd4, vdata@, ddata@, gn, gi, f2, sc, gg, hv, ghh, h);
    fs = fs.push(Rf { h: upto(du, gi), t: 1real / hv });
  }
@at L1.after
  let ghost (d1, ds1, e1) = (vdata@, ddata@, edata@);
  proof { acs_start(ga, fs, d1, ds1, e1, gn, f2); }
@loop 2 for i
  invariant
    gn == n, n > 0, n * n <= isize::MAX, edata@ == e1, e1.len() == gn, acs(fs, d1, ds1, vdata@, ddata@, gn, i as int),
@at L2.start
  let ghost (d0, ds0, gi) = (vdata@, ddata@, i as int);
@at if2.before
  let ghost da = vdata@;
  let ghost hv = v(h);
@loop 2.0 for k
  invariant
    gn == n, gi == i, 0 <= gi < gn - 1, n * n <= isize::MAX, ddata@.len() == gn, vdata@ == da, da.len() == gn * gn, hv != 0real, v(h) == hv, ds0.len() == gn,
    forall|q: int| 0 <= q < k ==> v(#[trigger] ddata@[q]) == el(da, gn, q, gi + 1) / hv, forall|q: int| gi < q < gn ==> #[trigger] ddata@[q] == ds0[q],
@loop 2.1 for j
  invariant
    gn == n, gi == i, 0 <= gi < gn - 1, n * n <= isize::MAX, ddata@.len() == gn, vdata@.len() == gn * gn, da.len() == gn * gn, hv != 0real, ds0.len() == gn,
    forall|q: int| 0 <= q <= gi ==> v(#[trigger] ddata@[q]) == el(da, gn, q, gi + 1) / hv, forall|q: int| gi < q < gn ==> #[trigger] ddata@[q] == ds0[q],
    apl(da, vdata@, gn, gi, j as int, 0, hv),
@at L2.1.start
  let ghost (dj, gj) = (vdata@, j as int);
@loop 2.1.0 for k
  invariant
    gn == n, gi == i, gj == j, 0 <= gj <= gi, gi < gn - 1, n * n <= isize::MAX, vdata@ == dj, dj.len() == gn * gn, da.len() == gn * gn,
    apl(da, vdata@, gn, gi, gj, 0, hv), v(g) == gsum(da, gn, gi, gj, k as int),
@at L2.1.0.end
  proof {
    assert(gsum(da, gn, gi, gj, k + 1) == gsum(da, gn, gi, gj, k as int) + el(da, gn, k as int, gi + 1) * el(da, gn, k as int, gj));
    assert(el(dj, gn, k as int, gi + 1) == el(da, gn, k as int, gi + 1));
    assert(el(dj, gn, k as int, gj) == el(da, gn, k as int, gj));
  }
@loop 2.1.1 for k
  invariant
    gn == n, gi == i, gj == j, 0 <= gj <= gi, gi < gn - 1, n * n <= isize::MAX, vdata@.len() == gn * gn, da.len() == gn * gn, ddata@.len() == gn, hv != 0real,
    forall|q: int| 0 <= q <= gi ==> v(#[trigger] ddata@[q]) == el(da, gn, q, gi + 1) / hv,
    apl(da, vdata@, gn, gi, gj, k as int, hv), v(g) == gsum(da, gn, gi, gj, gi + 1),
@at L2.1.1.start
  let ghost dk = vdata@;
@at L2.1.1.end
  proof { apl_step(da, dk, gn, gi, gj, k as int, hv, vdata@[k * gn + gj]); }
@at L2.2.before
  let ghost db = vdata@;
@loop 2.2 for k
  invariant
    gn == n, gi == i, 0 <= gi < gn - 1, n * n <= isize::MAX, vdata@.len() == gn * gn, db.len() == gn * gn, zcol(db, vdata@, gn, gi, k as int),
@at L2.2.start
  let ghost dk = vdata@;
@at L2.2.end
  proof { zcol_step(db, dk, gn, gi, k as int, e_zero()); }
@at L2.end
  proof { acs_step(fs, d1, ds1, d0, ds0, da, db, vdata@, ddata@, gn, gi, e_one()); }
@at L2.after
  let ghost (d3, ds3) = (vdata@, ddata@);
@loop 3 for j
  invariant
    gn == n, n > 0, n * n <= isize::MAX, ddata@.len() == gn, vdata@.len() == gn * gn, d3.len() == gn * gn, zlast(d3, vdata@, gn, j as int),
    forall|c: int| 0 <= c < j ==> v(#[trigger] ddata@[c]) == el(d3, gn, gn - 1, c),
@at L3.start
  let ghost dk = vdata@;
@at L3.end
  proof { assert(el(dk, gn, gn - 1, j as int) == el(d3, gn, gn - 1, j as int)); zlast_step(d3, dk, gn, j as int, e_zero()); }
@at L3.after
  proof { acs_end(ga, fs, d1, ds1, e1, d3, ds3, vdata@, ddata@, gn, f2, e_one(), e_zero()); }
@at end
  proof { eig_start(ga, vdata@, ddata@, edata@, gn, f2); }
@fn EigenDecomposition::tql2
@props C25
@attr #[verifier::exec_allows_no_decreases_clause]
@requires
  n > 0, n * n <= isize::MAX, old(ddata)@.len() == n, old(edata)@.len() == n, old(vdata)@.len() == n * n, orth(elm(old(vdata)@, n as int), n as int),
@ensures
  final(ddata)@.len() == n, final(edata)@.len() == n, final(vdata)@.len() == n * n,
  forall|q: int| 0 <= q < n ==> v(#[trigger] final(edata)@[q]) == 0real,
  qst(ic_of(old(vdata)@, old(ddata)@, old(edata)@, n as int), final(vdata)@, dg(final(ddata)@), 4 * n),
  sorted_to(final(ddata)@, n as int, n as int),
  forall|a: Mt| #[trigger] ms(a, old(vdata)@, old(vdata)@, tq(old(ddata)@, old(edata)@), n as int, n as int, 0real, fro2(a, n as int, n as int)) ==> eig_ok(a, final(ddata)@, elm(final(vdata)@, n as int), n as int),
@at start
  let ghost gn = n as int;
  let ghost (v0, d0, e0) = (vdata@, ddata@, edata@);
  let ghost ic = ic_of(v0, d0, e0, gn);
@loop 0 for i
  invariant
    gn == n, n > 0, n * n <= isize::MAX, edata@.len() == n, e0.len() == n,
    forall|q: int| 0 <= q < i - 1 ==> #[trigger] edata@[q] == e0[q + 1], forall|q: int| i - 1 <= q < n ==> #[trigger] edata@[q] == e0[q],
@at L1.before
  proof { o_start(v0, d0, e0, edata@, gn); tiny_nonneg(); }
@loop 1 for l
  invariant
    gn == n, n > 0, n * n <= isize::MAX, ic_ok(ic), ic.n == gn, v(eps) == r_epsilon(), v(tiny) == tiny0(),
    0real <= v(tst1) <= 4real * ic.fr, lens(ic, vdata@, ddata@, edata@), ost(ic, vdata@, ddata@, edata@, v(f), l as int),
@at L1.start
  let ghost gl = l as int;
  let ghost (va, da, ea, fa) = (vdata@, ddata@, edata@, v(f));
  proof { o_bounds(ic, va, da, ea, fa, gl); }
@loop 1.0
  invariant
    gn == n, gl == l, 0 <= gl < gn, ic_ok(ic), ic.n == gn, l <= m, m <= n - 1, edata@ == ea, ea.len() == gn, v(eps) == r_epsilon(), v(tiny) == tiny0(), v(tst1) >= 0real,
    forall|q: int| gl <= q < m ==> v(#[trigger] ea[q]) != 0real,
  ensures
    m < n - 1 ==> tsmall(ea[m as int], v(tst1)),
  decreases n - m
@at L1.0.end
  proof { not_small(ea[m - 1], v(tst1)); }
@at L1.0.after
  let ghost gm = m as int;
  let ghost gt = v(tst1);
  proof { o_open(ic, va, da, ea, fa, gl, gm, gt); }
@loop 1.1
  invariant_except_break
    forall|q: int| gl <= q < gm ==> v(#[trigger] edata@[q]) != 0real,
  invariant
    gn == n, n > 0, n * n <= isize::MAX, gl == l, gm == m, 0 <= gl < gm, gm < gn, ic_ok(ic), ic.n == gn, v(eps) == r_epsilon(), v(tiny) == tiny0(), 0real <= gt, v(tst1) == gt,
    lens(ic, vdata@, ddata@, edata@), ist(ic, vdata@, ddata@, edata@, v(f), gl, gm),
  ensures
    v(edata@[gm]) == 0real, tsmall(edata@[gl], gt),
@at L1.1.start
  let ghost (vb, db, eb, fb) = (vdata@, ddata@, edata@, v(f));
@at if2.before
  let ghost gh0 = v(r);
@loop 1.1.0 for i
  invariant
    gn == n, gl == l, gl + 1 < gn, ddata@.len() == gn, db.len() == gn,
    forall|q: int| 0 <= q < gl ==> #[trigger] ddata@[q] == db[q], forall|q: int| gl + 2 <= q < i ==> v(#[trigger] ddata@[q]) == v(db[q]) - v(h), forall|q: int| i <= q < gn ==> #[trigger] ddata@[q] == db[q],
    v(ddata@[gl]) == gd0, v(ddata@[gl + 1]) == gd1,
@at L1.1.0.before
  let ghost (gd0, gd1) = (v(ddata@[gl]), v(ddata@[gl + 1]));
  let ghost (gp, gr, gh) = (v(p), v(r), v(h));
@at L1.1.0.after
  proof {
    let (y, ny) = (gh0, -gh0);
    assert(ny * ny == y * y) by (nonlinear_arith) requires ny == -y;
    assert(1real * 1real == 1real) by (nonlinear_arith);
    assert(gr * gr == gp * gp + 1real);
    assert(2real * v(eb[gl]) != 0real);
    assert(shifted(v(db[gl]), v(db[gl + 1]), v(eb[gl]), gp, gr, gd0, gd1));
    i_shift(ic, vb, db, eb, ddata@, fb, gl, gm, gp, gr, gh);
  }
  let ghost w = Sw { ds: ddata@, es: edata@, f: fb + gh, l: gl, m: gm };
  let ghost mut z = Nm { c: 1real, s: 0real, p: v(ddata@[gm]), c2: 1real, s2: 0real, c3: 1real, pj: 0real };
  proof { sw_start(ic, w, vb, z); }
@loop 1.1.1 for i
  invariant
    $lo == gl, $hi == gm, gn == n, n > 0, n * n <= isize::MAX, gl == l, gm == m, 0 <= gl < gm, gm < gn, ic_ok(ic), ic.n == gn, sw_ok(ic, w), w.l == gl, w.m == gm,
    lens(ic, vdata@, ddata@, edata@), sw(ic, w, vdata@, ddata@, edata@, $i as int, z),
    z.c == v(c), z.s == v(s), z.p == v(p), z.c2 == v(c2), z.s2 == v(s2), z.c3 == v(c3),
@at L1.1.1.start
  let ghost (vc, dc, ec, gi, z0) = (vdata@, ddata@, edata@, i as int, z);
  proof { sw_look(ic, w, vc, dc, ec, gi + 1, z0); }
@at L1.1.1.0.before
  let ghost gr2 = v(r);
@loop 1.1.1.0 for k
  invariant
    gn == n, n * n <= isize::MAX, gi == i, 0 <= gi < gn - 1, vdata@.len() == gn * gn, vc.len() == gn * gn, rotd(vc, vdata@, gn, k as int, gi, gi + 1, v(c), -v(s)),
@at L1.1.1.0.start
  let ghost vk = vdata@;
@at L1.1.1.0.end
  proof {
    let (x, y) = (-v(s), el(vk, gn, k as int, gi + 1));
    assert(x * y == -(v(s) * y)) by (nonlinear_arith) requires x == -v(s);
    rotd_step(vc, vk, vdata@, gn, k as int, gi, gi + 1, v(c), -v(s), vdata@[k * gn + gi], vdata@[k * gn + (gi + 1)]);
  }
@at L1.1.1.end
  proof {
    z = Nm { c: v(c), s: v(s), p: v(p), c2: v(c2), s2: v(s2), c3: v(c3), pj: z0.p };
    sw_step(ic, w, vc, vdata@, dc, ec, ddata@, edata@, gi + 1, z0, gr2, z);
  }
@at L1.1.1.after
  let ghost (vd, dd, ed) = (vdata@, ddata@, edata@);
@at if3.before
  proof { sw_end(ic, w, vd, dd, ed, ddata@, edata@, z, ddata@[gl], edata@[gl], v(p)); }
@at L1.end
  proof { o_close(ic, vdata@, dl, el, v(f), gl, gm, gt, ddata@[gl]); }
@at if3.after
  proof { not_small(edata@[gl], gt); }
@at if1.after
  let ghost (dl, el) = (ddata@, edata@);
@at L2.before
  proof { o_end(ic, vdata@, ddata@, edata@, v(f)); }
@loop 2 for i
  invariant
    gn == n, n > 0, n * n <= isize::MAX, ic_ok(ic), ic.n == gn, lens(ic, vdata@, ddata@, edata@), qst(ic, vdata@, dg(ddata@), 4 * gn), sorted_to(ddata@, i as int, gn),
    forall|q: int| 0 <= q < gn ==> v(#[trigger] edata@[q]) == 0real,
@at L2.start
  let ghost (vs, ds, gi) = (vdata@, ddata@, i as int);
@loop 2.0 for j
  invariant
    gn == n, gi == i, 0 <= gi < gn - 1, ddata@ == ds, ds.len() == gn, gi <= k < gn, p == ds[k as int], forall|q: int| gi <= q < j ==> v(#[trigger] ds[q]) <= v(p),
@at if5.then
  let ghost gk = k as int;
@loop 2.1 for j
  invariant
    gn == n, gi == i, gk == k, 0 <= gi < gk, gk < gn, n * n <= isize::MAX, vdata@.len() == gn * gn, vs.len() == gn * gn, swapg(vs, vdata@, gn, j as int, gi, gk),
@at L2.1.start
  let ghost vk = vdata@;
@at L2.1.end
  proof { swapg_step(vs, vk, gn, j as int, gi, gk); }
@at if5.thenend
  proof {
    sort_step(ds, ddata@, gi, gk, gn);
    swap_diag(ic.a, vs, vdata@, ds, ddata@, gn, (4 * gn) as real * ic.th, ic.f2, gi, gk);
  }
@at if5.after
  proof { if k == i { assert forall|q: int| 0 <= q < gn implies #[trigger] ddata@[q] == if q == gi { ds[gi] } else { ds[q] } by { } sort_step(ds, ddata@, gi, gi, gn); } }
@at end
  proof {
    assert forall|a: Mt| #[trigger] ms(a, v0, v0, tq(d0, e0), gn, gn, 0real, fro2(a, gn, gn)) implies eig_ok(a, ddata@, elm(vdata@, gn), gn) by {
      eig_done(a, v0, d0, e0, vdata@, ddata@, elm(vdata@, gn), gn);
    }
  }
@fn EigenDecomposition::orthes
@props C25
@assume
@requires
  false,
@fn EigenDecomposition::hqr2
@props C25
@assume
@requires
  false,
@verbatim
impl EigenDecomposition<E> {
  pub open spec fn wf(&self) -> bool { self.n > 0 && self.n * self.n <= isize::MAX && self.d@.len() == self.n && self.e@.len() == self.n && self.v.shaped(self.n as int, self.n as int) }
  pub open spec fn blocks(&self) -> bool { v(self.e@[0]) >= 0real && v(self.e@[self.n - 1]) <= 0real }
  // element (i, j) of the block diagonal matrix
  pub open spec fn dat(&self, i: int, j: int) -> real {
    if j == i { v(self.d@[i]) } else if j == i + 1 && v(self.e@[i]) > 0real || j == i - 1 && v(self.e@[i]) < 0real { v(self.e@[i]) } else { 0real }
  }
}
@endverbatim
@fn EigenDecomposition::new
@props C25
@requires
  a.wf(), a.no_rows == a.c(), symm(fnof(a), a.c()),
@ensures
  r.wf(), r.n == a.no_rows, eig_ok(fnof(a), r.d@, elm(r.v.data@, r.n as int), r.n as int), forall|q: int| 0 <= q < r.n ==> v(#[trigger] r.e@[q]) == 0real,
@loop 0
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), symm(fnof(a), a.c()), issymmetric,
  decreases n - j
@loop 0.0
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), symm(fnof(a), a.c()), issymmetric, j < n,
  decreases n - i
@loop 1 for i
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), n * n <= isize::MAX, vdata@.len() == n * n,
    forall|r: int, c: int| 0 <= r < i && 0 <= c < n ==> #[trigger] el(vdata@, n as int, r, c) == v(a.at(r, c)),
@loop 1.0 for j
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), n * n <= isize::MAX, vdata@.len() == n * n, i < n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n && (r < i || r == i && c < j) ==> #[trigger] el(vdata@, n as int, r, c) == v(a.at(r, c)),
@at L0.0.start
  proof { assert(fnof(a)(i as int, j as int) == fnof(a)(j as int, i as int)); }
@at if0.thentail
  proof { eig_ok_ext(va, fa, ddata@, elm(vdata@, gn), gn); }
@loop 2 for j
  invariant
    false,
@loop 2.0 for i
  invariant
    false,
@at L1.0.start
  let ghost dk = vdata@;
@at L1.0.end
  proof { el_update(dk, n as int, n as int, i as int, j as int, a.at(i as int, j as int)); }
@at L1.after
  let ghost (fa, va, gn) = (fnof(a), elm(vdata@, n as int), n as int);
  let ghost v0 = vdata@;
  proof {
    assert(meq(va, fa, gn, gn));
    assert forall|r: int, c: int| 0 <= r < gn && 0 <= c < gn implies #[trigger] va(r, c) == va(c, r) by { assert(fa(r, c) == fa(c, r)); assert(va(r, c) == fa(r, c)); assert(va(c, r) == fa(c, r)); }
  }
@fn EigenDecomposition::get_v
@props C25
@ensures *r == self.v,
@fn EigenDecomposition::get_real_eigenvalues
@props C25
@ensures *r == self.d,
@fn EigenDecomposition::get_imag_eigenvalues
@props C25
@ensures *r == self.e,
@fn EigenDecomposition::get_d
@props C25
@requires
  self.wf(), self.blocks(),
@ensures
  r.shaped(self.n as int, self.n as int), forall|i: int, j: int| 0 <= i < self.n && 0 <= j < self.n ==> v(#[trigger] r.at(i, j)) == self.dat(i, j),
@loop 0 for i
  invariant
    self.wf(), self.blocks(), ddata@.len() == self.n * self.n,
    forall|r: int, c: int| 0 <= r < i && 0 <= c < self.n ==> #[trigger] el(ddata@, self.n as int, r, c) == self.dat(r, c),
@loop 0.0 for j
  invariant
    self.wf(), self.blocks(), i < self.n, ddata@.len() == self.n * self.n,
    forall|r: int, c: int| 0 <= r < self.n && 0 <= c < self.n && (r < i || r == i && c < j) ==> #[trigger] el(ddata@, self.n as int, r, c) == if r < i { self.dat(r, c) } else { 0real },
@at end
  proof { assert forall|i: int, j: int| 0 <= i < self.n && 0 <= j < self.n implies v(#[trigger] ddata@[i * self.n + j]) == self.dat(i, j) by { assert(el(ddata@, self.n as int, i, j) == self.dat(i, j)); } }
@at L0.0.start
  let ghost dk = ddata@;
@at L0.0.end
  proof { el_update(dk, self.n as int, self.n as int, i as int, j as int, e_zero()); }
@at L0.0.after
  let ghost dz = ddata@;
  proof { el_update(dz, self.n as int, self.n as int, i as int, i as int, self.d@[i as int]); }
@at L0.end
  proof {
    let (n, gi, ei) = (self.n as int, i as int, self.e@[i as int]);
    let dd = dz.update(gi * n + gi, self.d@[gi]);
    if v(ei) > 0real { el_update(dd, n, n, gi, gi + 1, ei); } else if v(ei) < 0real { el_update(dd, n, n, gi, gi - 1, ei); }
  }
