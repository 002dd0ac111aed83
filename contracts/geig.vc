@file decomp/eigen.rs
@struct EigenDecomposition
@fn EigenDecomposition::orthes
@props C26
@requires
  n > 0, n * n <= isize::MAX, old(hdata)@.len() == n * n, old(vdata)@.len() == n * n,
@ensures
  final(hdata)@.len() == n * n, final(vdata)@.len() == n * n,
  ms(elm(old(hdata)@, n as int), final(vdata)@, final(vdata)@, hess(final(hdata)@, n as int), n as int, n as int, hw(n as int), fro2(elm(old(hdata)@, n as int), n as int, n as int)),
@at start
  let ghost gn = n as int;
  let ghost ga = elm(hdata@, gn);
  let ghost f2 = fro2(ga, gn, gn);
  let ghost mut fs = Seq::<Rf>::empty();
@at L0.before
  proof { hst_start(ga, ort@, hdata@, gn); }
@loop 0 for m
  invariant
    gn == n, n > 0, n * n <= isize::MAX, low == 0, high == n - 1, v(tiny) == tiny0(),
    gn >= 2 ==> 1 <= m, fs.len() == (if gn >= 2 { m - 1 } else { 0 }), hst(ga, fs, ort@, hdata@, gn, if gn >= 2 { m - 1 } else { 0 }, f2),
@at L0.start
  let ghost (gm, d0, o0) = (m as int, hdata@, ort@);
@loop 0.0 for i
  invariant
    gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@ == d0, d0.len() == gn * gn,
    v(scale) == cabs(d0, gn, gm - 1, gm, i as int),
@at if0.before
  proof { sq_abs(|t: int| el(d0, gn, t, gm - 1), gm, gn); sum_ext(|t: int| rabs((|t: int| el(d0, gn, t, gm - 1))(t)), |t: int| rabs(el(d0, gn, t, gm - 1)), gm, gn); tiny_nonneg(); }
@loop 0.1 for i
  invariant
    gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@.len() == gn * gn, d0.len() == gn * gn, v(scale) == 0real, zdown(d0, hdata@, gn, gm, i as int),
@at L0.1.start
  let ghost dk = hdata@;
@at L0.1.end
  proof { zdown_step(d0, dk, gn, gm, i as int, e_zero()); }
@at if0.thenend
  proof {
    hst_skip(ga, fs, o0, d0, hdata@, gn, gm, f2);
    fs = fs.push(Rf { h: zerov(), t: 0real });
  }
@loop 0.2 for i
  invariant
    $lo == m, $hi == n, gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@ == d0, d0.len() == gn * gn, o0.len() == gn, v(scale) > 0real,
    ovec(o0, ort@, d0, gn, gm, v(scale), $i as int), v(h) == csqs(d0, gn, gm - 1, v(scale), $i as int, gn),
@at L0.2.end
  proof { csqs_first(d0, gn, gm - 1, v(scale), i as int, gn); }
@at L0.2.after
  let ghost sc = v(scale);
  proof { csqs_pos(d0, gn, gm - 1, sc, gm); root_of(v(h), rsqrt(v(h))); }
@at L0.3.before
  let ghost (o1, hv, gg) = (ort@, v(h), v(g));
  let ghost (gu, tau) = (uvq(o1, gn, gm), 1real / hv);
  proof {
    let y = el(d0, gn, gm, gm - 1) / sc;
    if y > 0real { assert(gg * y <= 0real) by (nonlinear_arith) requires gg < 0real, y > 0real; } else { assert(gg * y <= 0real) by (nonlinear_arith) requires gg > 0real, y <= 0real; }
    hes_refl(d0, o1, gn, gm, sc, gg, hv);
  }
@loop 0.3 for j
  invariant
    gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@.len() == gn * gn, d0.len() == gn * gn, ort@ == o1, o1.len() == gn, v(h) == hv, hv > 0real, gu == uvq(o1, gn, gm), tau == 1real / hv,
    lap(d0, hdata@, gn, gm, j as int, gm, gu, tau),
@at L0.3.start
  let ghost (dj, gj) = (hdata@, j as int);
@loop 0.3.0 for i
  invariant
    $lo == m, $hi == n, gn == n, gm == m, gj == j, 1 <= gm < gn - 1, gm <= gj < gn, high == n - 1, n * n <= isize::MAX, hdata@ == dj, dj.len() == gn * gn, d0.len() == gn * gn, ort@ == o1, o1.len() == gn, gu == uvq(o1, gn, gm),
    lap(d0, dj, gn, gm, gj, gm, gu, tau), v(f) == cs(gu, d0, gn, gj, $i as int, gn),
@at L0.3.0.end
  proof { cs_first(gu, d0, gn, gj, i as int, gn); assert(el(dj, gn, i as int, gj) == el(d0, gn, i as int, gj)); }
@at L0.3.0.after
  let ghost fc = v(f);
@at L0.3.1.before
  proof { assert(v(f) == fc / hv); }
@loop 0.3.1 for i
  invariant
    gn == n, gm == m, gj == j, 1 <= gm < gn - 1, gm <= gj < gn, high == n - 1, n * n <= isize::MAX, hdata@.len() == gn * gn, d0.len() == gn * gn, ort@ == o1, o1.len() == gn, gu == uvq(o1, gn, gm), hv > 0real, tau == 1real / hv,
    lap(d0, hdata@, gn, gm, gj, i as int, gu, tau), fc == cs(gu, d0, gn, gj, gm, gn), v(f) == fc / hv,
@at L0.3.1.start
  let ghost dk = hdata@;
@at L0.3.1.end
  proof { by_recip(fc, hv, gu(i as int)); lap_step(d0, dk, gn, gm, gj, i as int, gu, tau, hdata@[i * gn + gj]); }
@at L0.3.end
  proof { lap_next(d0, hdata@, gn, gm, gj, gu, tau); }
@at L0.3.after
  let ghost d1 = hdata@;
@loop 0.4 for i
  invariant
    gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@.len() == gn * gn, d1.len() == gn * gn, ort@ == o1, o1.len() == gn, v(h) == hv, hv > 0real, gu == uvq(o1, gn, gm), tau == 1real / hv,
    rap(d1, hdata@, gn, gm, i as int, 0, gu, tau),
@at L0.4.start
  let ghost (di, gi) = (hdata@, i as int);
@loop 0.4.0 for j
  invariant
    $lo == m, $hi == n, gn == n, gm == m, gi == i, 1 <= gm < gn - 1, 0 <= gi < gn, high == n - 1, n * n <= isize::MAX, hdata@ == di, di.len() == gn * gn, d1.len() == gn * gn, ort@ == o1, o1.len() == gn, gu == uvq(o1, gn, gm),
    rap(d1, di, gn, gm, gi, 0, gu, tau), v(f) == rs(gu, d1, gn, gi, $i as int, gn),
@at L0.4.0.end
  proof { rs_first(gu, d1, gn, gi, j as int, gn); assert(el(di, gn, gi, j as int) == el(d1, gn, gi, j as int)); }
@at L0.4.0.after
  let ghost fr = v(f);
@loop 0.4.1 for j
  invariant
    gn == n, gm == m, gi == i, 1 <= gm < gn - 1, 0 <= gi < gn, high == n - 1, n * n <= isize::MAX, hdata@.len() == gn * gn, d1.len() == gn * gn, ort@ == o1, o1.len() == gn, gu == uvq(o1, gn, gm), hv > 0real, tau == 1real / hv,
    rap(d1, hdata@, gn, gm, gi, j as int, gu, tau), fr == rs(gu, d1, gn, gi, gm, gn), v(f) == fr / hv,
@at L0.4.1.start
  let ghost dk = hdata@;
@at L0.4.1.end
  proof { by_recip(fr, hv, gu(j as int)); rap_step(d1, dk, gn, gm, gi, j as int, gu, tau, hdata@[gi * gn + j]); }
@at L0.4.after
  let ghost d2 = hdata@;
@at if1.thenend
  proof {
    el_update(d2, gn, gn, gm, gm - 1, hdata@[gm * gn + (gm - 1)]);
    hst_step(ga, fs, o0, o1, ort@, d0, d1, d2, hdata@, gn, gm, f2, sc, gg, hv);
    fs = fs.push(Rf { h: hvq(ort@, hdata@, gn, gm - 1), t: -1real / (v(ort@[gm]) * el(hdata@, gn, gm, gm - 1)) });
  }
@at L0.after
  let ghost (ho, hd) = (ort@, hdata@);
@loop 1 for i
  invariant
    gn == n, n > 0, n * n <= isize::MAX, vdata@.len() == n * n,
    forall|r: int, c: int| 0 <= r < i && 0 <= c < gn ==> #[trigger] el(vdata@, gn, r, c) == kd(r, c),
@loop 1.0 for j
  invariant
    gn == n, n > 0, n * n <= isize::MAX, vdata@.len() == n * n, 0 <= i < n,
    forall|r: int, c: int| 0 <= r <= i && 0 <= c < gn && (r < i || c < j) ==> #[trigger] el(vdata@, gn, r, c) == kd(r, c),
@at L1.0.start
  let ghost vk = vdata@;
@at L1.0.end
  proof { el_update(vk, gn, gn, i as int, j as int, vdata@[i * gn + j]); }
@at L2.before
  proof {
    assert forall|r: int, c: int| 0 <= r < gn && 0 <= c < gn implies #[trigger] elm(vdata@, gn)(r, c) == idm()(r, c) by { assert(el(vdata@, gn, r, c) == kd(r, c)); }
    hacc_start(fs, ho, hd, vdata@, gn);
  }
@loop 2 for m
  invariant
    $lo == 1, $hi == high, gn == n, n > 0, n * n <= isize::MAX, low == 0, high == n - 1, hdata@ == hd, fs.len() == (if gn >= 2 { gn - 2 } else { 0 }),
    hacc(fs, ho, ort@, hd, vdata@, gn, if gn >= 2 { $i - 1 } else { 0 }),
@at L2.start
  let ghost (gm, v0, o0) = (m as int, vdata@, ort@);
@loop 2.0 for i
  invariant
    gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@ == hd, hd.len() == gn * gn, ort@.len() == gn, o0.len() == gn,
    forall|t: int| gm < t < i ==> v(#[trigger] ort@[t]) == el(hd, gn, t, gm - 1), forall|t: int| 0 <= t <= gm ==> #[trigger] ort@[t] == o0[t],
@at L2.0.after
  let ghost o1 = ort@;
  let ghost (om, hx) = (v(o1[gm]), el(hd, gn, gm, gm - 1));
  let ghost (gu, tau) = (uvq(o1, gn, gm), -1real / (om * hx));
  proof { reveal(hsd); assert(hsd1(fs[gm - 1], ho, hd, gn, gm - 1)); assert(o1[gm] == ho[gm]); }
@loop 2.1 for j
  invariant
    gn == n, gm == m, 1 <= gm < gn - 1, high == n - 1, n * n <= isize::MAX, hdata@ == hd, hd.len() == gn * gn, ort@ == o1, o1.len() == gn, vdata@.len() == gn * gn, v0.len() == gn * gn,
    om == v(o1[gm]), hx == el(hd, gn, gm, gm - 1), om != 0real, hx != 0real, gu == uvq(o1, gn, gm), tau == -1real / (om * hx),
    lap(v0, vdata@, gn, gm, j as int, gm, gu, tau),
@at L2.1.start
  let ghost (vj, gj) = (vdata@, j as int);
@loop 2.1.0 for i
  invariant
    gn == n, gm == m, gj == j, 1 <= gm < gn - 1, gm <= gj < gn, high == n - 1, n * n <= isize::MAX, ort@ == o1, o1.len() == gn, vdata@ == vj, vj.len() == gn * gn, v0.len() == gn * gn, gu == uvq(o1, gn, gm),
    lap(v0, vj, gn, gm, gj, gm, gu, tau), v(g) == cs(gu, v0, gn, gj, gm, i as int),
@at L2.1.0.end
  proof {
    assert(el(vj, gn, i as int, gj) == el(v0, gn, i as int, gj));
    assert(cs(gu, v0, gn, gj, gm, i + 1) == cs(gu, v0, gn, gj, gm, i as int) + gu(i as int) * el(v0, gn, i as int, gj));
  }
@at L2.1.0.after
  let ghost gs = v(g);
@loop 2.1.1 for i
  invariant
    gn == n, gm == m, gj == j, 1 <= gm < gn - 1, gm <= gj < gn, high == n - 1, n * n <= isize::MAX, ort@ == o1, o1.len() == gn, vdata@.len() == gn * gn, v0.len() == gn * gn, om != 0real, hx != 0real, gu == uvq(o1, gn, gm), tau == -1real / (om * hx),
    lap(v0, vdata@, gn, gm, gj, i as int, gu, tau), gs == cs(gu, v0, gn, gj, gm, gn), v(g) == (gs / om) / hx,
@at L2.1.1.start
  let ghost vk = vdata@;
@at L2.1.1.end
  proof { twice_div(gs, om, hx, gu(i as int)); lap_step(v0, vk, gn, gm, gj, i as int, gu, tau, vdata@[i * gn + gj]); }
@at L2.1.end
  proof { lap_next(v0, vdata@, gn, gm, gj, gu, tau); }
@at L2.end
  proof { hacc_step(fs, ho, o0, ort@, hd, v0, vdata@, gn, gm); }
@at end
  proof { hes_done(ga, fs, ho, ort@, hd, vdata@, gn, f2); }
// (r0 + i r1)(yr + i yi) = xr + i xi
@fn EigenDecomposition::cdiv
@props C26
@ensures
  (v(yr) != 0real || v(yi) != 0real) ==> v(r.0) * v(yr) - v(r.1) * v(yi) == v(xr) && v(r.0) * v(yi) + v(r.1) * v(yr) == v(xi),
@at start
  proof {
    let (a, b, c, e) = (v(xr), v(xi), v(yr), v(yi));
    if rabs(c) > rabs(e) { cdiv_exact(a, b, c, e); } else if e != 0real { cdiv_exact_swap(a, b, c, e); }
  }
@fn EigenDecomposition::hqr2
@props C26
@attr #[verifier::rlimit(600)]
@attr #[verifier::exec_allows_no_decreases_clause]
@requires
  n > 0, n * n <= isize::MAX, old(ddata)@.len() == n, old(edata)@.len() == n, old(hdata)@.len() == n * n, old(vdata)@.len() == n * n,
  orth(elm(old(vdata)@, n as int), n as int),
@ensures
  final(ddata)@.len() == n, final(edata)@.len() == n, final(hdata)@.len() == n * n, final(vdata)@.len() == n * n,
  eig_cols(uhu(old(vdata)@, old(hdata)@, n as int), elm(final(vdata)@, n as int), final(ddata)@, final(edata)@, n as int, hqb(n as int, hfro(old(hdata)@, n as int))),
@at let:nn.after
  let ghost gn = nn as int;
  let ghost (h00, z00) = (hdata@, vdata@);
  let ghost (ga, fr) = (uhu(z00, h00, gn), hfro(h00, gn));
  let ghost dl = dlt(r_epsilon(), fr, hqn(gn, fr));
  let ghost sd = sdt(r_epsilon(), fr, hqn(gn, fr));
  proof { assert(nn <= nn * nn) by (nonlinear_arith) requires nn >= 1; eps_pos(); start_ms(z00, h00, gn); dlt_pos(fr, gn); nrm_start(h00, gn, fr); }
@at L0.start
  let ghost i0 = i as int;
  proof { nrm_skip(h00, gn, i0, if i0 - 1 > 0 { i0 - 1 } else { 0 }, v(norm), fr); }
@at L0.0.start
  let ghost nk = v(norm);
@at L0.0.end
  proof { assert(rabs(el(h00, gn, i0, j as int)) <= fr); nrm_add(h00, gn, i0, j as int, nk, v(norm), fr); }
@at L0.end
  proof { nrm_row(h00, gn, i0, v(norm), fr); }
@at L0.after
  proof { nrm_done(h00, gn, v(norm), fr); }
@at L1.before
  let ghost nm1 = v(norm);
  let ghost mut cnt = 0int;
  proof { cw_zero(dl); p1_start(ga, vdata@, hdata@, ddata@, edata@, gn, fr); }
@at L1.start
  let ghost (n1, h1, v1, d1, e1, x1, c1, t1) = (n as int, hdata@, vdata@, ddata@, edata@, v(exshift), cnt, iter as int);
  let ghost cw = cwid(c1, dl);
  proof { p1_len(ga, v1, h1, d1, e1, gn, n1, x1, cw, fr); cw_next(c1, dl); }
@at if2.then
  proof {
    let li = l as int;
    p1_at(ga, v1, h1, d1, e1, gn, n1, x1, cw, fr, li); p1_at(ga, v1, h1, d1, e1, gn, n1, x1, cw, fr, li - 1);
    sdt_le2(v(eps), fr, hqn(gn, fr), nm1, v(s), rabs(el(h1, gn, li, li - 1)));
  }
@at if2.after
  proof { thr_ge(v(eps), nm1, v(s)); assert(el(h1, gn, l as int, l - 1) != 0real); }
@at if3.thenend
  proof {
    p1_one(ga, v1, h1, d1, e1, hdata@, ddata@, edata@, gn, n1, x1, cw, fr, dl, hdata@[n1 * gn + n1], e_zero());
    cnt = c1 + 1;
  }
@at if5.before
  let ghost (gx, gx1, h3) = (hdata@[n1 * gn + n1], hdata@[(n1 - 1) * gn + (n1 - 1)], hdata@);
  let ghost (gb, gw, gz0) = (v(p), v(w), v(z));
  let ghost (ha, hb, hc, hd) = (el(h1, gn, n1 - 1, n1 - 1), el(h1, gn, n1 - 1, n1), el(h1, gn, n1, n1 - 1), el(h1, gn, n1, n1));
  proof {
    assert(h3 =~= dg2(h1, gn, n1, gx, gx1));
    assert(v(gx) == hd + x1 && v(gx1) == ha + x1 && gb == (ha - hd) / 2real && gw == hc * hb);
    rsqrt_def(rabs(v(q)));
  }
@at if5.elseend
  proof {
    root_of(-v(q), gz0);
    p1_cx(ga, v1, h1, d1, e1, h3, ddata@, edata@, gn, n1, x1, cw, fr, dl, gx, gx1, gb, ddata@[n1 - 1], ddata@[n1], edata@[n1 - 1], edata@[n1]);
  }
@at L1.1.before
  let ghost (rp, rq, gz, gs, gr, d2, e2) = (v(p), v(q), v(z), v(s), v(r), ddata@, edata@);
  proof {
    let (pa, qa) = (hc / gs, gz / gs);
    assert(pa * pa >= 0real && qa * qa >= 0real) by (nonlinear_arith);
    rsqrt_def(pa * pa + qa * qa);
    assert(d2 =~= d1.update(n1 - 1, d2[n1 - 1]).update(n1, d2[n1]));
    assert(e2 =~= e1.update(n1 - 1, e_zero()).update(n1, e_zero()));
    assert(gr * gr == pa * pa + qa * qa);
  }
@at L1.1.start
  let ghost hk = hdata@;
@at L1.1.end
  proof { rowrot_step(h3, hk, gn, n1, j as int, rq, rp, hdata@[(n1 - 1) * gn + j], hdata@[n1 * gn + j]); assert(hdata@ =~= hk.update((n1 - 1) * gn + j, hdata@[(n1 - 1) * gn + j]).update(n1 * gn + j, hdata@[n1 * gn + j])); }
@at L1.1.after
  let ghost h4 = hdata@;
@at L1.2.start
  let ghost hk = hdata@;
@at L1.2.end
  proof { assert(hdata@ =~= hk.update(i * gn + (n1 - 1), hdata@[i * gn + (n1 - 1)]).update(i * gn + n1, hdata@[i * gn + n1])); rotc_step(h4, hk, hdata@, gn, i as int, n1, rq, rp, hdata@[i * gn + (n1 - 1)], hdata@[i * gn + n1]); }
@at L1.3.start
  let ghost vk = vdata@;
@at L1.3.end
  proof { assert(vdata@ =~= vk.update(i * gn + (n1 - 1), vdata@[i * gn + (n1 - 1)]).update(i * gn + n1, vdata@[i * gn + n1])); rotc_step(v1, vk, vdata@, gn, i as int, n1, rq, rp, vdata@[i * gn + (n1 - 1)], vdata@[i * gn + n1]); }
@at if5.thenend
  proof { p1_real(ga, v1, vdata@, h1, h3, h4, hdata@, d1, e1, d2, e2, gn, n1, x1, cw, fr, dl, gx, gx1, rp, rq, gz, gz0, gs, gr, d2[n1 - 1], d2[n1], e_zero()); }
@at if4.thenend
  proof { cnt = c1 + 1; }
@at if9.before
  let ghost (sx0, sy0, sw0) = (v(x), v(y), v(w));
  proof { p1_at(ga, v1, h1, d1, e1, gn, n1, x1, cw, fr, n1); assert(dsh(h1, h1, gn, 0, sx0)); }
@at L1.4.start
  let ghost hk = hdata@;
@at L1.4.end
  proof { dsh_step(h1, hk, gn, i as int, sx0, hdata@[i * gn + i]); assert(hdata@ =~= hk.update(i * gn + i, hdata@[i * gn + i])); }
@at L1.4.after
  proof { p1_shift(ga, v1, h1, hdata@, d1, e1, gn, n1, x1, cw, fr, sx0); }
@at if9.after
  let ghost (h6, x6) = (hdata@, v(exshift));
  proof {
    assert(p1(ga, v1, h6, d1, e1, gn, n1, x6, cw, fr));
    assert(forall|i: int| 0 < i <= n1 ==> #[trigger] el(h6, gn, i, i - 1) == el(h1, gn, i, i - 1));
  }
@at if11.then
  let ghost q0 = v(s);
@at if12.after
  let ghost s1 = v(s);
@at L1.5.before
  let ghost ss = v(s);
  proof {
    let dd = (sy0 - sx0) / 2real;
    root_of(q0, rsqrt(q0));
    prod_le(el(h1, gn, n1, n1 - 1), el(h1, gn, n1 - 1, n1), fr);
    shift30(sx0, dd, sw0, rsqrt(q0), s1, ss, fr);
    assert(dsh(h6, h6, gn, 0, ss));
  }
@at L1.5.start
  let ghost hk = hdata@;
@at L1.5.end
  proof { dsh_step(h6, hk, gn, i as int, ss, hdata@[i * gn + i]); assert(hdata@ =~= hk.update(i * gn + i, hdata@[i * gn + i])); }
@at L1.5.after
  proof { p1_shift(ga, v1, h6, hdata@, d1, e1, gn, n1, x6, cw, fr, ss); }
@at if10.after
  // ASSUMED: fewer than 2^31 iterations for one eigenvalue
  proof { assume(iter < i32::MAX); }
  let ghost (h7, x7) = (hdata@, v(exshift));
  proof {
    assert(p1(ga, v1, h7, d1, e1, gn, n1, x7, cw, fr));
    assert(forall|i: int| 0 < i <= n1 ==> #[trigger] el(h7, gn, i, i - 1) == el(h1, gn, i, i - 1));
    assert(forall|i: int| l < i <= n1 ==> #[trigger] el(h7, gn, i, i - 1) != 0real);
  }
@at if13.before
  proof {
    let mi = m as int;
    let (gzz, rr) = (el(h7, gn, mi, mi), v(x) - el(h7, gn, mi, mi));
    let p0 = rdiv(rr * (v(y) - gzz) - v(w), el(h7, gn, mi + 1, mi)) + el(h7, gn, mi, mi + 1);
    let q0 = el(h7, gn, mi + 1, mi + 1) - gzz - rr - (v(y) - gzz);
    let r0 = el(h7, gn, mi + 2, mi + 1);
    assert(el(h7, gn, mi + 2, (mi + 2) - 1) != 0real);
    normed(p0, q0, r0, v(s), v(p), v(q), v(r));
  }
@at if14.then
  proof {
    let mi = m as int;
    p1_at(ga, v1, h7, d1, e1, gn, n1, x7, cw, fr, mi); p1_at(ga, v1, h7, d1, e1, gn, n1, x7, cw, fr, mi - 1); p1_at(ga, v1, h7, d1, e1, gn, n1, x7, cw, fr, mi + 1);
    small_two(rabs(el(h7, gn, mi, mi - 1)), rabs(v(q)) + rabs(v(r)), rabs(v(p)), v(eps), rabs(el(h7, gn, mi - 1, mi - 1)) + rabs(el(h7, gn, mi, mi)) + rabs(el(h7, gn, mi + 1, mi + 1)), fr);
  }
@at L1.7.start
  let ghost hk = hdata@;
@at L1.7.end
  proof { zl_step(h7, hk, hdata@, gn, m as int, i as int, e_zero(), e_zero()); }
@at L1.7.after
  let ghost h8 = hdata@;
  proof { p2_start(ga, v1, h7, h8, d1, e1, gn, n1, m as int, x7, cw, fr); }
@at L1.8.start
  let ghost (k1, hk0, vk0) = (k as int, hdata@, vdata@);
  let ghost gw2 = cwid(c1 + 1, dl);
  let ghost (k0p, k0q, k0r) = (el(hk0, gn, k1, k1 - 1), el(hk0, gn, k1 + 1, k1 - 1), if k1 + 1 != n1 { el(hk0, gn, k1 + 2, k1 - 1) } else { 0real });
  proof { p2_len(ga, vk0, hk0, d1, e1, gn, n1, k1, if k1 == m { n1 } else { k1 }, x7, if k1 == m { cw } else { gw2 }, fr); }
@at if18.then
  proof { p2_skip(ga, vk0, hk0, d1, e1, gn, n1, k1, x7, gw2, fr); }
@at if19.before
  let ghost (gp, gq, gr, xo) = (v(p), v(q), v(r), v(x));
  let ghost g2 = gp * gp + gq * gq + gr * gr;
  proof { if k1 != m { normed(k0p, k0q, k0r, xo, gp, gq, gr); } assert(g2 > 0real); }
@at if20.before
  let ghost gs = v(s);
  proof { sgn_root(g2, gp, gs); }
@at if21.after
  let ghost hw0 = hdata@;
  let ghost gg = el(hw0, gn, k1, k1 - 1);
  proof { if k1 > 0 { el_update(hk0, gn, gn, k1, k1 - 1, hw0[k1 * gn + (k1 - 1)]); } assert(wrote(hk0, hw0, gn, k1)); }
@at L1.8.0.before
  let ghost (fq, fz, fx) = (v(q), v(r), v(x));
  proof {
    refl3(gp, gq, gr, gs, fx, v(y), v(z), fq, fz);
    ref3_ok(gn, n1, k1, fq, fz, fx);
  }
@at L1.8.0.start
  let ghost hj = hdata@;
@at L1.8.0.end
  proof { row3(hw0, hj, hdata@, gn, k1, j as int, fq, fz, fx, notlast, v(p), hdata@[(k1 + 2) * gn + j], hdata@[k1 * gn + j], hdata@[(k1 + 1) * gn + j]); }
@at L1.8.0.after
  let ghost hr = hdata@;
@at L1.8.1.start
  let ghost hj = hdata@;
@at L1.8.1.end
  proof { col3(hr, hj, hdata@, gn, k1, i as int, fq, fz, fx, notlast, v(p), hdata@[i * gn + (k1 + 2)], hdata@[i * gn + k1], hdata@[i * gn + (k1 + 1)]); }
@at L1.8.2.start
  let ghost vj = vdata@;
@at L1.8.2.end
  proof { col3(vk0, vj, vdata@, gn, k1, i as int, fq, fz, fx, notlast, v(p), vdata@[i * gn + (k1 + 2)], vdata@[i * gn + k1], vdata@[i * gn + (k1 + 1)]); }
@at L1.8.2.after
  proof {
    let f = f3(k1, fq, fz, fx);
    if k1 != m {
      col_mid(gp, gq, gr, gs, xo, k0p, k0q, k0r, fx, v(y), v(z), fq, fz, gg);
      p2_mid(ga, vk0, vdata@, hk0, hw0, hr, hdata@, d1, e1, gn, n1, k1, x7, gw2, fr, f);
    } else {
      if k1 > 0 { col_first(k0p, gg, gp, gq, gr, gs, fx, v(y), v(z), fq, fz, k1, 9real * (r_epsilon() * fr), dl, sd); }
      p2_first(ga, vk0, vdata@, hk0, hw0, hr, hdata@, d1, e1, gn, n1, k1, x7, cw, fr, f, dl);
    }
  }
@at L1.8.after
  proof { p2_end(ga, vdata@, hdata@, d1, e1, gn, n1, x7, cwid(c1 + 1, dl), fr); }
@at if4.elseend
  proof { cnt = c1 + 1; }
@at if26.before
  proof { p1_end(ga, vdata@, hdata@, ddata@, edata@, gn, v(exshift), cwid(cnt, dl), fr); }
@at if26.then
  proof { hq_zero(ga, vdata@, hdata@, ddata@, edata@, gn, cnt, fr); }
@at L2.before
  let ghost (h0, gd, ge, vd1) = (hdata@, ddata@, edata@, vdata@);
  let ghost gt = qt(h0, ge, gn);
  let ghost (ep, nm) = (v(eps), v(norm));
  let ghost be = bew(ep, nm);
  proof {
    assert(be > 0real) by (nonlinear_arith) requires be == 6real * (ep * nm) + ep * (ep * nm), ep > 0real, nm > 0real;
    back_start(h0, gd, ge, gn, be);
  }
@at L2.start
  let ghost (n2, hs) = (n as int, hdata@);
  let ghost (gp, gq) = (v(ddata@[n2]), v(edata@[n2]));
  proof { pair_of(h0, gd, ge, gn, n2); rst_start(hs, gn, n2); if n2 + 1 < gn { pair_of(h0, gd, ge, gn, n2 + 1); } }
@at L2.0.before
  proof {
    unt_down(h0, hs, gn, cc(ge, gn, n2 + 1), cc(ge, gn, n2 + 1) - 1, 0, n2, n2, n2);
    rp_start(h0, ge, hs, gn, n2, gp, be, e_one());
    unt_set(h0, hs, hs, gn, n2, n2, n2, n2, n2, n2, e_one());
  }
@at L2.0.start
  let ghost (i1, hi, l1) = (i as int, hdata@, l as int);
  proof {
    pair_of(h0, gd, ge, gn, i1); pair_of(h0, gd, ge, gn, i1 + 1);
    unt_at(h0, hi, gn, n2, n2, l1, i1, i1);
    if v(ge[i1]) > 0real {
      unt_at(h0, hi, gn, n2, n2, l1, i1, i1 + 1); unt_at(h0, hi, gn, n2, n2, l1, i1 + 1, i1); pair_eqs(h0, gd, ge, gn, i1, gp);
    }
  }
@at L2.0.0.after
  proof { hd_td(h0, ge, hi, gn, i1, n2, n2, n2, l1); }
  let ghost (gw, gr, gz, gs) = (v(w), v(r), v(z), v(s));
@at if30.after
  proof { real_row(gw, gr, v(hdata@[i1 * gn + n2]), ep, nm); rp_one(h0, gd, ge, hs, hi, gn, n2, i1, gp, be, gw, gr, hdata@[i1 * gn + n2]); }
@at if31.before
  let ghost x1 = hdata@[i1 * gn + n2];
@at if31.after
  let ghost x2 = hdata@[(i1 + 1) * gn + n2];
  proof {
    solve_real(gw, v(x), v(y), gz, gr, gs, v(gd[i1]) - gp, v(ge[i1]), v(q), v(x1), v(x2));
    rp_two(h0, gd, ge, hs, hi, gn, n2, i1, gp, be, gw, gz, gr, gs, x1, x2);
  }
@at if32.before
  let ghost hx = hdata@;
@at L2.0.1.before
  let ghost gtt = v(t);
  proof { assert(gtt > 0real) by { if gtt == 0real { assert((ep * gtt) * gtt == 0real) by (nonlinear_arith) requires gtt == 0real; } } }
@at L2.0.1.start
  let ghost (j5, hk) = (j as int, hdata@);
@at L2.0.1.end
  proof { scl_step(hx, hk, gn, n2, i1, j5, gtt, hdata@[j5 * gn + n2]); }
@at L2.0.1.after
  proof { rp_scale(h0, ge, hs, hx, hdata@, gn, n2, i1, gp, be, gtt); }
@at L2.0.after
  proof { pair_of(h0, gd, ge, gn, 0); real_done(h0, gd, ge, hs, hdata@, gn, n2, gp, be); }
@at if34.before
  proof {
    let c0 = cc(ge, gn, n2 + 1);
    unt_down(h0, hs, gn, c0, c0 - 1, 0, n2 - 1, n2, n2 + 1);
    unt_at(h0, hs, gn, n2 - 1, n2, n2 + 1, n2, n2); unt_at(h0, hs, gn, n2 - 1, n2, n2 + 1, n2 - 1, n2); unt_at(h0, hs, gn, n2 - 1, n2, n2 + 1, n2, n2 - 1); unt_at(h0, hs, gn, n2 - 1, n2, n2 + 1, n2 - 1, n2 - 1);
    pair_eqs(h0, gd, ge, gn, n2 - 1, gp);
  }
  let ghost (gb, gc, w2, z2) = (el(h0, gn, n2 - 1, n2), el(h0, gn, n2, n2 - 1), el(h0, gn, n2 - 1, n2 - 1) - gp, el(h0, gn, n2, n2) - gp);
@at L2.1.before
  proof {
    let (y1, y2, y3, y4) = (hdata@[(n2 - 1) * gn + (n2 - 1)], hdata@[(n2 - 1) * gn + n2], hdata@[n2 * gn + (n2 - 1)], hdata@[n2 * gn + n2]);
    assert(0real * 0real == 0real);
    assert(gq * gq == (-gq) * (-gq)) by (nonlinear_arith);
    cpair0(gb, gc, w2, z2, gp, gq, v(y1), v(y2), rabs(gc) > rabs(gb));
    cp_start(h0, gd, ge, hs, hs, gn, n2, gp, gq, be, y1, y2, y3, y4);
    assert(hdata@ == set4(hs, gn, n2, y1, y2, y3, y4));
  }
@at L2.1.start
  let ghost (i2, hi, l2) = (i as int, hdata@, l as int);
  proof {
    pair_of(h0, gd, ge, gn, i2); pair_of(h0, gd, ge, gn, i2 + 1);
    unt_at(h0, hi, gn, n2 - 1, n2, l2, i2, i2);
    if v(ge[i2]) > 0real {
      unt_at(h0, hi, gn, n2 - 1, n2, l2, i2, i2 + 1); unt_at(h0, hi, gn, n2 - 1, n2, l2, i2 + 1, i2); pair_eqs(h0, gd, ge, gn, i2, gp);
    }
  }
@at L2.1.0.after
  proof { hd_td(h0, ge, hi, gn, i2, n2 - 1, n2 - 1, n2, l2); hd_td(h0, ge, hi, gn, i2, n2, n2 - 1, n2, l2); }
@at if35.before
  let ghost (gw, gra, gsa, gz, gr, gs) = (v(w), v(ra), v(sa), v(z), v(r), v(s));
@at if36.thenend
  proof { cp_one(h0, gd, ge, hs, hi, gn, n2, i2, gp, gq, be, gw, gra, gsa, hdata@[i2 * gn + (n2 - 1)], hdata@[i2 * gn + n2]); }
@at if37.before
  let ghost (vr0, vi0) = (v(vr), v(vi));
  proof {
    let (u, ei) = (v(gd[i2]) - gp, v(ge[i2]));
    assert((u * 2real) * gq == gq * (u + u)) by (nonlinear_arith);
    if vr0 == 0real && vi0 == 0real {
      assert(u == 0real) by (nonlinear_arith) requires (u * 2real) * gq == 0real, gq != 0real;
      assert(ei == -gq) by (nonlinear_arith) requires u * u + ei * ei - gq * gq == 0real, u == 0real, ei > 0real, gq < 0real;
      assert(gw + gz == 0real);
      assert(gw * gz - gq * gq - v(x) * v(y) == 0real);
    }
  }
@at if38.before
  let ghost (a1, b1) = (hdata@[i2 * gn + (n2 - 1)], hdata@[i2 * gn + n2]);
@at if38.after
  proof {
    let (a2, b2) = (hdata@[(i2 + 1) * gn + (n2 - 1)], hdata@[(i2 + 1) * gn + n2]);
    let first = rabs(v(x)) > rabs(gz) + rabs(gq);
    if first {
      let (m1, m2, vx, va, vb) = (-gra - gw * v(a1) + gq * v(b1), -gsa - gw * v(b1) - gq * v(a1), v(x), v(a2), v(b2));
      assert(va * vx == m1) by (nonlinear_arith) requires va == m1 / vx, vx != 0real;
      assert(vb * vx == m2) by (nonlinear_arith) requires vb == m2 / vx, vx != 0real;
    }
    if vr0 == 0real && vi0 == 0real {
      let en = ep * nm;
      assert(en > 0real) by (nonlinear_arith) requires en == ep * nm, ep > 0real, nm > 0real;
      assert(ep * en >= 0real) by (nonlinear_arith) requires ep > 0real, en > 0real;
      coll_cx(gw, v(x), v(y), gz, gq, gra, gsa, gr, gs, v(vr), en, v(a1), v(b1), v(a2), v(b2), first, be);
    } else {
      solve_cx(gw, v(x), v(y), gz, gq, gra, gsa, gr, gs, vr0, vi0, v(a1), v(b1), v(a2), v(b2), first);
      res_zero(gw, v(x), v(y), gz, gq, gra, gsa, gr, gs, v(a1), v(b1), v(a2), v(b2), be);
    }
    cp_two(h0, gd, ge, hs, hi, gn, n2, i2, gp, gq, be, gw, gz, gra, gsa, gr, gs, a1, b1, a2, b2);
  }
@at if39.before
  let ghost hx = hdata@;
@at L2.1.1.before
  let ghost gtt = v(t);
  proof { assert(gtt > 0real) by { if gtt == 0real { assert((ep * gtt) * gtt == 0real) by (nonlinear_arith) requires gtt == 0real; } } }
@at L2.1.1.start
  let ghost (j5, hk) = (j as int, hdata@);
@at L2.1.1.end
  proof { scl_step2(hx, hk, gn, n2, i2, j5, gtt, hdata@[j5 * gn + (n2 - 1)], hdata@[j5 * gn + n2]); }
@at L2.1.1.after
  proof { cp_scale(h0, ge, hs, hx, hdata@, gn, n2, i2, gp, gq, be, gtt); }
@at L2.1.after
  proof { pair_of(h0, gd, ge, gn, 0); cx_done(h0, gd, ge, hs, hdata@, gn, n2, gp, gq, be); }
@at L2.end
  proof { if gq > 0real { pair_first(h0, gd, ge, hdata@, gn, n2, be); } }
@at L2.after
  let ghost h2 = hdata@;
@at L3.start
  let ghost i3 = i as int;
@at L4.before
  proof { bt_start(vd1, h2, gn); }
@at end
  proof { hq_done(ga, vd1, vdata@, h0, h2, gd, ge, gn, cnt, nm1, fr); }
@at L4.start
  let ghost j4 = j as int;
@at L4.end
  proof { bt_next(vd1, vdata@, h2, gn, j4); }
@at L4.0.start
  let ghost (i4, vk) = (i as int, vdata@);
@at L4.0.0.after
  proof { bt_row(vd1, vk, h2, gn, i4, j4); }
@at L4.0.end
  proof { bt_step(vd1, vk, h2, gn, i4, j4, vdata@[i4 * gn + j4]); }
@loops
  gn == nn && 1 <= nn && nn * nn <= isize::MAX && low == 0 && high == nn - 1 && ddata@.len() == nn && edata@.len() == nn && hdata@.len() == nn * nn && vdata@.len() == nn * nn && v(eps) == r_epsilon() && r_epsilon() > 0real,
  i0 == i && 0 <= i0 < nn,
  n1 == n && 0 <= n1 < nn && p1(ga, v1, h1, d1, e1, gn, n1, x1, cw, fr) && cw == cwid(c1, dl) && fr >= 0real && dl == dlt(r_epsilon(), fr, hqn(gn, fr)) && sd == sdt(r_epsilon(), fr, hqn(gn, fr)) && 0real <= sd <= dl && nm1 == v(norm) && 0real <= nm1 <= hqn(gn, fr) && h1.len() == gn * gn && v1.len() == gn * gn && d1.len() == gn && e1.len() == gn,
  k1 == k && m <= k < n && 0 <= m && hk0.len() == gn * gn && vk0.len() == gn * gn,
  notlast == (k != n - 1),
  n2 == n && gt == qt(h0, ge, gn) && evs(gt, gd, ge, gn, 0) && ddata@ == gd && edata@ == ge && ep == v(eps) && nm == v(norm) && be == bew(ep, nm) && nm > 0real && be > 0real && h0.len() == gn * gn && vd1.len() == gn * gn,
  j4 == j && gt == qt(h0, ge, gn) && evs(gt, gd, ge, gn, 0) && ddata@ == gd && edata@ == ge && ep == v(eps) && nm == v(norm) && be == bew(ep, nm) && nm > 0real && be > 0real && h0.len() == gn * gn && vd1.len() == gn * gn,
  i3 == i && gt == qt(h0, ge, gn) && evs(gt, gd, ge, gn, 0) && ddata@ == gd && edata@ == ge && ep == v(eps) && nm == v(norm) && be == bew(ep, nm) && nm > 0real && be > 0real && h0.len() == gn * gn && vd1.len() == gn * gn,
  n2 == n && 0 <= n2 < nn && gp == v(gd[n2]) && gq == v(ge[n2]) && v(p) == gp && hs.len() == gn * gn,
  i1 == i && 0 <= i1 < n2,
  i2 == i && 0 <= i2 < n2 - 1,
  i3 == i && 0 <= i3 < nn,
  j4 == j && 0 <= j4 < nn,
  i4 == i && 0 <= i4 < nn,
@loop 0 for i
  invariant
    hdata@ == h00, vdata@ == z00, fr >= 0real, nrm(h00, gn, i as int, 0, v(norm), fr),
    forall|r: int, c: int| 0 <= r < gn && 0 <= c < gn && r <= c + 1 ==> rabs(#[trigger] el(h00, gn, r, c)) <= fr,
@loop 0.0 for j
  invariant
    hdata@ == h00, vdata@ == z00, fr >= 0real, i0 - 1 <= j, nrm(h00, gn, i0, j as int, v(norm), fr),
    forall|r: int, c: int| 0 <= r < gn && 0 <= c < gn && r <= c + 1 ==> rabs(#[trigger] el(h00, gn, r, c)) <= fr,
@loop 1
  invariant
    -1 <= n < nn, 0 <= iter, n == -1 ==> iter == 0, 0 <= cnt <= (gn - 1 - n) * 2147483648 + iter,
    nm1 == v(norm), 0real <= nm1 <= hqn(gn, fr), fr >= 0real, dl == dlt(r_epsilon(), fr, hqn(gn, fr)), sd == sdt(r_epsilon(), fr, hqn(gn, fr)), 0real <= sd <= dl, 4real * sd <= dl, 27real * (r_epsilon() * fr) <= dl, r_epsilon() * fr >= 0real,
    p1(ga, vdata@, hdata@, ddata@, edata@, gn, n as int, v(exshift), cwid(cnt, dl), fr),
@loop 1.0
  invariant
    0 <= l <= n, hdata@ == h1, forall|i: int| l < i <= n ==> #[trigger] el(h1, gn, i, i - 1) != 0real,
  ensures
    l > 0 ==> rabs(el(h1, gn, l as int, l - 1)) <= sd,
@loop 1.1 for j
  invariant
    1 <= n, v(p) == rp, v(q) == rq, h3.len() == gn * gn, rowrot(h3, hdata@, gn, n1, j as int, rq, rp),
@loop 1.2 for i
  invariant
    1 <= n, v(p) == rp, v(q) == rq, h4.len() == gn * gn, rotd(h4, hdata@, gn, i as int, n1 - 1, n1, rq, rp),
@loop 1.3 for i
  invariant
    1 <= n, v(p) == rp, v(q) == rq, rotd(v1, vdata@, gn, i as int, n1 - 1, n1, rq, rp),
@loop 1.4 for i
  invariant
    v(x) == sx0, dsh(h1, hdata@, gn, i as int, sx0),
@loop 1.5 for i
  invariant
    v(s) == ss, h6.len() == gn * gn, dsh(h6, hdata@, gn, i as int, ss),
@loop 1.6
  invariant
    0 <= l <= m <= n - 2, hdata@ == h7, p1(ga, v1, h7, d1, e1, gn, n1, x7, cw, fr), forall|i: int| l < i <= n1 ==> #[trigger] el(h7, gn, i, i - 1) != 0real,
  ensures
    v(p) * v(p) + v(q) * v(q) + v(r) * v(r) > 0real,
    m == l || rabs(el(h7, gn, m as int, m - 1)) * (rabs(v(q)) + rabs(v(r))) <= (9real * (r_epsilon() * fr)) * rabs(v(p)),
@loop 1.7 for i
  invariant
    0 <= l <= m <= n - 2, h7.len() == gn * gn, zl(h7, hdata@, gn, m as int, i as int),
@loop 1.8 for k
  invariant
    0 <= l <= m <= n - 2, m <= k, v(exshift) == x7, ddata@ == d1, edata@ == e1,
    k == m ==> p2(ga, vdata@, hdata@, d1, e1, gn, n1, k as int, n1, x7, cw, fr),
    k > m ==> p2(ga, vdata@, hdata@, d1, e1, gn, n1, k as int, k as int, x7, cwid(c1 + 1, dl), fr),
    cwid(c1 + 1, dl) == cw + dl,
    4real * sd <= dl, 27real * (r_epsilon() * fr) <= dl, r_epsilon() * fr >= 0real,
    k == m ==> v(p) * v(p) + v(q) * v(q) + v(r) * v(r) > 0real
      && (m > 0 ==> if m == l { rabs(el(hdata@, gn, m as int, m - 1)) <= sd } else { rabs(el(hdata@, gn, m as int, m - 1)) * (rabs(v(q)) + rabs(v(r))) <= (9real * (r_epsilon() * fr)) * rabs(v(p)) }),
@loop 1.8.0 for j
  invariant
    k + 1 <= n, hw0.len() == gn * gn, v(x) == fx, v(y) == fx * fq, v(z) == fx * fz, v(q) == fq, v(r) == fz, !notlast ==> fz == 0real, lap(hw0, hdata@, gn, k1, j as int, k1, u3(k1, fq, fz), fx),
@loop 1.8.1 for i
  invariant
    k + 1 <= n, hr.len() == gn * gn, v(x) == fx, v(y) == fx * fq, v(z) == fx * fz, v(q) == fq, v(r) == fz, !notlast ==> fz == 0real, rap(hr, hdata@, gn, k1, i as int, 0, u3(k1, fq, fz), fx),
@loop 1.8.2 for i
  invariant
    k + 1 <= n, v(x) == fx, v(y) == fx * fq, v(z) == fx * fz, v(q) == fq, v(r) == fz, !notlast ==> fz == 0real, rap(vk0, vdata@, gn, k1, i as int, 0, u3(k1, fq, fz), fx),
@loop 2 for n
  invariant
    gt == qt(h0, ge, gn) && evs(gt, gd, ge, gn, 0) && ddata@ == gd && edata@ == ge && ep == v(eps) && nm == v(norm) && be == bew(ep, nm) && nm > 0real && be > 0real && h0.len() == gn * gn && vd1.len() == gn * gn,
    $lo == 0, $hi == nn, vdata@ == vd1, cols(gt, hdata@, gd, ge, gn, $i as int, be), unt(h0, hdata@, gn, cc(ge, gn, $i as int), cc(ge, gn, $i as int) - 1, 0),
@loop 2.0 for i
  invariant
    $lo == 0, $hi == n, vdata@ == vd1, 0 <= l <= n, gq == 0real,
    rp(gt, hdata@, gn, n2, l as int, gp, be), unt(h0, hdata@, gn, n2, n2, l as int), rst(hs, hdata@, gn, n2),
    v(ge[$i as int]) < 0real ==> l == $i + 1 && v(z) == gt($i as int, $i as int) - gp && v(s) == bdot(gt, hdata@, gn, $i as int, n2, l as int, n2 + 1),
    v(ge[$i as int]) >= 0real ==> l == $i,
@loop 2.0.0 for j
  invariant
    0 <= l <= n, hdata@ == hi, l1 == l, v(r) == hdot(hi, gn, i1, n2, l1, j as int),
@loop 2.0.1 for j
  invariant
    gtt == v(t), gtt > 0real, hx.len() == gn * gn, scl(hx, hdata@, gn, n2, n2, i1, j as int, gtt),
@loop 2.1 for i
  invariant
    $lo == 0, $hi == n - 1, vdata@ == vd1, 1 <= n, 0 <= l <= n - 1, gq < 0real, v(q) == gq,
    cp(gt, hdata@, gn, n2, l as int, gp, gq, be), unt(h0, hdata@, gn, n2 - 1, n2, l as int), rst(hs, hdata@, gn, n2),
    v(ge[$i as int]) < 0real ==> l == $i + 1 && v(z) == gt($i as int, $i as int) - gp && v(r) == bdot(gt, hdata@, gn, $i as int, n2 - 1, l as int, n2 + 1) && v(s) == bdot(gt, hdata@, gn, $i as int, n2, l as int, n2 + 1),
    v(ge[$i as int]) >= 0real ==> l == $i,
@loop 2.1.0 for j
  invariant
    0 <= l <= n - 1, hdata@ == hi, l2 == l, v(ra) == hdot(hi, gn, i2, n2 - 1, l2, j as int), v(sa) == hdot(hi, gn, i2, n2, l2, j as int),
@loop 2.1.1 for j
  invariant
    gtt == v(t), gtt > 0real, hx.len() == gn * gn, scl(hx, hdata@, gn, n2 - 1, n2, i2, j as int, gtt),
@loop 3 for i
  invariant
    gt == qt(h0, ge, gn) && evs(gt, gd, ge, gn, 0) && ddata@ == gd && edata@ == ge && ep == v(eps) && nm == v(norm) && be == bew(ep, nm) && nm > 0real && be > 0real && h0.len() == gn * gn && vd1.len() == gn * gn,
    vdata@ == vd1, hdata@ == h2, cols(gt, h2, gd, ge, gn, 0, be),
@loop 4 for j
  invariant
    gt == qt(h0, ge, gn) && evs(gt, gd, ge, gn, 0) && ddata@ == gd && edata@ == ge && ep == v(eps) && nm == v(norm) && be == bew(ep, nm) && nm > 0real && be > 0real && h0.len() == gn * gn && vd1.len() == gn * gn,
    $lo == low, $hi == nn, hdata@ == h2, cols(gt, h2, gd, ge, gn, 0, be), bt(vd1, vdata@, h2, gn, 0, $i - 1),
@loop 4.0 for i
  invariant
    hdata@ == h2, bt(vd1, vdata@, h2, gn, i as int, j4),
@loop 4.0.0 for k
  invariant
    hdata@ == h2, h2.len() == gn * gn, vdata@ == vk, v(z) == sum(|q: int| el(vk, gn, i4, q) * el(h2, gn, q, j4), 0, k as int),
@fn EigenDecomposition::tred2
@props C26
@assume
@requires
  false,
@fn EigenDecomposition::tql2
@props C26
@assume
@requires
  false,
@fn EigenDecomposition::new
@props C26
@requires
  a.wf(), a.no_rows == a.c(), !symm(fnof(a), a.c()),
@ensures
  r.wf(), r.n == a.no_rows, r.blocks(), geig_ok(fnof(a), elm(r.v.data@, r.n as int), r.d@, r.e@, r.n as int, gew(fnof(a), r.n as int)),
@loop 0
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), issymmetric ==> forall|r: int, c: int| 0 <= r < n && 0 <= c < j ==> v(#[trigger] a.at(r, c)) == v(a.at(c, r)),
  ensures
    issymmetric ==> symm(fnof(a), a.c()),
  decreases n - j
@loop 0.0
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), j < n, issymmetric ==> forall|r: int, c: int| 0 <= r < n && 0 <= c <= j && (c < j || r < i) ==> v(#[trigger] a.at(r, c)) == v(a.at(c, r)),
  decreases n - i
@loop 1 for i
  invariant
    false,
@loop 1.0 for j
  invariant
    false,
@loop 2 for j
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), n * n <= isize::MAX, hdata@.len() == n * n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < j ==> #[trigger] el(hdata@, n as int, r, c) == v(a.at(r, c)),
@loop 2.0 for i
  invariant
    n == a.c(), a.wf(), a.no_rows == a.c(), n * n <= isize::MAX, hdata@.len() == n * n, j < n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n && (c < j || c == j && r < i) ==> #[trigger] el(hdata@, n as int, r, c) == v(a.at(r, c)),
@at L2.0.start
  let ghost dk = hdata@;
@at L2.0.end
  proof { el_update(dk, n as int, n as int, i as int, j as int, a.at(i as int, j as int)); }
@at L2.after
  let ghost (fa, gn) = (fnof(a), n as int);
  let ghost a0 = elm(hdata@, gn);
  proof { assert(meq(a0, fa, gn, gn)); }
@at call:orthes.after
  let ghost (zd, hd1) = (vdata@, hdata@);
  proof { assert(orth(elm(zd, gn), gn)) by { reveal(ms); } }
@at if0.elsetail
  proof {
    geig_done(a0, zd, hd1, vdata@, ddata@, edata@, gn);
    geig_ok_ext(a0, fa, elm(vdata@, gn), ddata@, edata@, gn);
  }
@verbatim
impl EigenDecomposition<E> {
  pub open spec fn wf(&self) -> bool { self.n > 0 && self.n * self.n <= isize::MAX && self.d@.len() == self.n && self.e@.len() == self.n && self.v.shaped(self.n as int, self.n as int) }
  pub open spec fn blocks(&self) -> bool { v(self.e@[0]) >= 0real && v(self.e@[self.n - 1]) <= 0real }
  // element (i, j) of the block diagonal matrix
  pub open spec fn dat(&self, i: int, j: int) -> real {
    if j == i { v(self.d@[i]) } else if j == i + 1 && v(self.e@[i]) > 0real || j == i - 1 && v(self.e@[i]) < 0real { v(self.e@[i]) } else { 0real }
  }
}
@endverbatim
@fn EigenDecomposition::get_v
@props C26
@ensures *r == self.v,
@fn EigenDecomposition::get_real_eigenvalues
@props C26
@ensures *r == self.d,
@fn EigenDecomposition::get_imag_eigenvalues
@props C26
@ensures *r == self.e,
@fn EigenDecomposition::get_d
@props C26
@requires
  self.wf(), self.blocks(),
@ensures
  r.shaped(self.n as int, self.n as int), forall|i: int, j: int| 0 <= i < self.n && 0 <= j < self.n ==> v(#[trigger] r.at(i, j)) == self.dat(i, j),
@loop 0 for i
  invariant
    self.wf(), self.blocks(), ddata@.len() == self.n * self.n,
    forall|r: int, c: int| 0 <= r < i && 0 <= c < self.n ==> #[trigger] el(ddata@, self.n as int, r, c) == self.dat(r, c),
@loop 0.0 for j
  invariant
    self.wf(), self.blocks(), i < self.n, ddata@.len() == self.n * self.n,
    forall|r: int, c: int| 0 <= r < self.n && 0 <= c < self.n && (r < i || r == i && c < j) ==> #[trigger] el(ddata@, self.n as int, r, c) == if r < i { self.dat(r, c) } else { 0real },
@at end
  proof { assert forall|i: int, j: int| 0 <= i < self.n && 0 <= j < self.n implies v(#[trigger] ddata@[i * self.n + j]) == self.dat(i, j) by { assert(el(ddata@, self.n as int, i, j) == self.dat(i, j)); } }
@at L0.0.start
  let ghost dk = ddata@;
@at L0.0.end
  proof { el_update(dk, self.n as int, self.n as int, i as int, j as int, e_zero()); }
@at L0.0.after
  let ghost dz = ddata@;
  proof { el_update(dz, self.n as int, self.n as int, i as int, i as int, self.d@[i as int]); }
@at L0.end
  proof {
    let (n, gi, ei) = (self.n as int, i as int, self.e@[i as int]);
    let dd = dz.update(gi * n + gi, self.d@[gi]);
    if v(ei) > 0real { el_update(dd, n, n, gi, gi + 1, ei); } else if v(ei) < 0real { el_update(dd, n, n, gi, gi - 1, ei); }
  }
