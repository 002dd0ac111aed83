// C13 - C27: the decompositions and the solvers built on them.
use crate::ck;
use crate::ctx::*;
use crate::mat::*;
use crate::q::{self, Q};
use la::*;

type R = Result<(), String>;

fn eqq(what: &str, got: &M<Q>, want: &M<Q>) -> R {
    if q::poisoned() {
        return Ok(());
    }
    ck!(got.r == want.r && got.c == want.c, "{}: shape {}x{}, expected {}x{}", what, got.r, got.c, want.r, want.c);
    ck!(got.d == want.d, "{}: {:?}, expected {:?} (exact arithmetic)", what, got.d, want.d);
    Ok(())
}
fn wide<T: Fl>(m: &Matrix<T>) -> M<f64> {
    M::of(m).map(|v| v.w())
}
fn shape<T: Copy>(what: &str, m: &Matrix<T>, r: usize, c: usize) -> R {
    ck!(m.rows() == r && m.cols() == c && m.get_data().len() == r * c, "{}: shape {}x{} with {} elements, expected {}x{}", what, m.rows(), m.cols(), m.get_data().len(), r, c);
    Ok(())
}
fn small(what: &str, d: &M<f64>, tol: f64) -> R {
    let x = d.maxabs();
    ck!(x <= tol, "{}: off by {:e}, tolerance {:e}", what, x, tol);
    Ok(())
}
fn orth(what: &str, q: &M<f64>, tol: f64) -> R {
    small(&format!("{0}'*{0} = I", what), &q.t().mul(q).sub(&M::id(q.c)), tol)
}
fn fl<T: Fl>(a: &M<f64>) -> M<T> {
    a.map(|v| T::of(v))
}
// a power of two: scaling by it is exact
fn pow2(c: &mut Ctx, lim: i64) -> f64 {
    if c.chance(2) {
        1.0
    } else {
        2f64.powi(c.range(-lim, lim) as i32)
    }
}
// right-hand sides: a few columns, sometimes many; sometimes with zeros
fn rhs<T: Fl>(c: &mut Ctx, m: usize) -> M<T> {
    let nb = if c.chance(15) { 5 + c.below(40) } else { 1 + c.below(4) };
    let sparse = c.chance(4);
    M::by(m, nb, |_, _| T::of(if sparse && c.chance(2) { 0.0 } else { c.sym() }))
}
fn square_l(c: &mut Ctx, big: usize, side: usize) -> usize {
    match c.large_square(side) {
        Some(n) => n,
        None => square_shape(c, big),
    }
}
fn square_shape(c: &mut Ctx, big: usize) -> usize {
    if (c.idx as usize) < 3 * big {
        1 + (c.idx as usize) % big
    } else {
        1 + c.below(big)
    }
}

// ---- C13
fn perm_ok(piv: &[usize], m: usize) -> R {
    let mut seen = vec![false; m];
    ck!(piv.len() == m, "pivot vector of length {} for {} rows", piv.len(), m);
    for &p in piv {
        ck!(p < m && !seen[p], "pivot vector {:?} is not a permutation of 0..{}", piv, m);
        seen[p] = true;
    }
    Ok(())
}
fn c13q(c: &mut Ctx) -> R {
    let (m, n) = c.shape(4, 5);
    let a = gen_q(c, m, n);
    c.note(&format!("exact A={}", a.show()));
    let lu = LUDecomposition::new(&a.la());
    let (l, u, p) = (M::of(&lu.get_l()), M::of(&lu.get_u()), M::of(&lu.get_p()));
    if q::poisoned() {
        return Ok(());
    }
    let piv = lu.get_piv().clone();
    perm_ok(&piv, m)?;
    let k = m.min(n);
    eqq("P", &p, &M::by(m, m, |i, j| Q::int((piv[i] == j) as i64)))?;
    ck!(l.r == m && l.c == k && u.r == k && u.c == n, "factor shapes {}x{}, {}x{}", l.r, l.c, u.r, u.c);
    for i in 0..m {
        for j in 0..k {
            let v = l.at(i, j);
            ck!(i > j || v == Q::int((i == j) as i64), "L({},{}) = {:?}", i, j, v);
            ck!(v <= Q::int(1) && v >= Q::int(-1), "L({},{}) = {:?} is larger than one", i, j, v);
        }
    }
    for i in 0..k {
        for j in 0..n {
            ck!(i <= j || u.at(i, j).is0(), "U({},{}) = {:?}", i, j, u.at(i, j));
        }
    }
    eqq("L*U = P*A", &l.mul(&u), &M::by(m, n, |i, j| a.at(piv[i], j)))
}
fn c13f<T: Fl>(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(5, 14, 9000, 130);
    let a = fl::<T>(&gen_f(c, m, n));
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let w = a.map(|v| v.w());
    if w.maxabs() > 1e30 || (w.maxabs() != 0.0 && w.maxabs() < 1e-15 && T::NAME == "f32") {
        c.trivial = true;
        return Ok(());
    }
    let lu = LUDecomposition::new(&a.la());
    let (l, u, p) = (wide(&lu.get_l()), wide(&lu.get_u()), wide(&lu.get_p()));
    let piv = lu.get_piv().clone();
    perm_ok(&piv, m)?;
    let k = m.min(n);
    ck!(p == M::by(m, m, |i, j| (piv[i] == j) as u8 as f64), "get_p is not the matrix of {:?}", piv);
    ck!(l.r == m && l.c == k && u.r == k && u.c == n, "factor shapes {}x{}, {}x{}", l.r, l.c, u.r, u.c);
    for i in 0..m {
        for j in 0..k {
            let v = l.at(i, j);
            ck!(i > j || v == (i == j) as u8 as f64, "L({},{}) = {:?}", i, j, v);
            ck!(v.abs() <= 1.0, "L({},{}) = {:?} is larger than one", i, j, v);
        }
    }
    for i in 0..k {
        for j in 0..n {
            ck!(i <= j || u.at(i, j) == 0.0, "U({},{}) = {:?}", i, j, u.at(i, j));
        }
    }
    let pa = M::by(m, n, |i, j| w.at(piv[i], j));
    let bound = l.abs().mul(&u.abs());
    let diff = l.mul(&u).sub(&pa);
    for i in 0..m * n {
        let tol = 4.0 * (k + 4) as f64 * T::EPS * (bound.d[i] + pa.d[i].abs()) + 1e-37;
        ck!(diff.d[i].abs() <= tol, "L*U - P*A has an entry {:e}, tolerance {:e}", diff.d[i], tol);
    }
    Ok(())
}

// ---- C14, C15, C16 in exact arithmetic
fn c14q(c: &mut Ctx) -> R {
    let n = square_shape(c, 5);
    let a = gen_q(c, n, n);
    let nb = 1 + c.below(3);
    let b = M::by(n, nb, |_, _| Q::int(c.range(-5, 5)));
    c.note(&format!("exact A={} B={}", a.show(), b.show()));
    let want = solve(&a, &b);
    let x = a.la();
    let lu = LUDecomposition::new(&x);
    let got = x.solve(&b.la());
    let got2 = lu.solve(&b.la());
    if q::poisoned() {
        return Ok(());
    }
    for g in [&got, &got2].iter() {
        match (g, &want) {
            (Some(g), Some(w)) => eqq("X", &M::of(g), w)?,
            (None, None) => {}
            (Some(g), None) => return Err(format!("A is singular but solve returned {:?}", g.get_data())),
            (None, Some(w)) => return Err(format!("A is non-singular (X = {:?}) but solve returned nothing", w.d)),
        }
    }
    let sing = want.is_none();
    ck!(x.is_singular() == sing && lu.is_singular() == sing, "is_singular: {} / {}, expected {}", x.is_singular(), lu.is_singular(), sing);
    ck!(x.is_non_singular() != sing && lu.is_non_singular() != sing, "is_non_singular");
    Ok(())
}
fn c14f<T: Fl>(c: &mut Ctx) -> R {
    let n = square_l(c, 10, 130);
    let mut a = gen_f(c, n, n);
    if c.chance(4) {
        // rows of any magnitude, each with a dominant diagonal: never singular
        let e: Vec<f64> = (0..n).map(|_| pow2(c, if T::EPS < 1e-10 { 200 } else { 20 })).collect();
        a = M::by(n, n, |i, j| e[i] * (c.sym() + if i == j { 1.5 * n as f64 } else { 0.0 }));
    }
    let a = fl::<T>(&a);
    let b: M<T> = rhs(c, n);
    let nb = b.c;
    c.note(&format!("{} A={} B={}", T::NAME, a.show(), b.show()));
    let x = a.la();
    let lu = LUDecomposition::new(&x);
    let (g, g2) = (x.solve(&b.la()), lu.solve(&b.la()));
    ck!(g.is_some() == g2.is_some() && g.is_some() == x.is_non_singular() && g.is_some() == lu.is_non_singular(), "solve and the predicates disagree");
    ck!(x.is_singular() == lu.is_singular() && x.is_singular() != x.is_non_singular(), "is_singular and is_non_singular disagree");
    let w = a.map(|v| v.w());
    let zero_line = (0..n).any(|i| (0..n).all(|j| w.at(i, j) == 0.0)) || (0..n).any(|j| (0..n).all(|i| w.at(i, j) == 0.0));
    ck!(!zero_line || g.is_none(), "a matrix with a zero row or column was solved");
    if let (Some(g), Some(g2)) = (g, g2) {
        shape("X", &g, n, nb)?;
        ck!(g.get_data() == g2.get_data() || wide(&g).maxabs().is_nan(), "Matrix::solve and LU::solve differ");
        let xs = wide(&g);
        let u = wide(&lu.get_u());
        if !xs.maxabs().is_finite() || xs.maxabs() > 1e30 || w.maxabs() > 1e30 || w.maxabs() < 1e-30 {
            c.trivial = true;
            return Ok(());
        }
        let growth = wide(&lu.get_l()).abs().mul(&u.abs()).maxabs();
        let tol = 60.0 * (n * n) as f64 * T::EPS * ((growth + w.maxabs()) * xs.maxabs() + 1.0) + 1e-37;
        small("A*X - B", &w.mul(&xs).sub(&b.map(|v| v.w())), tol)?;
    } else {
        // triangular with a non-zero diagonal is never singular
        let tri = (0..n).all(|i| w.at(i, i) != 0.0 && (0..i).all(|j| w.at(i, j) == 0.0));
        let dom = (0..n).all(|i| w.at(i, i).abs() > 1.01 * (0..n).filter(|&j| j != i).map(|j| w.at(i, j).abs()).sum::<f64>());
        ck!(!tri && !dom, "a non-singular (triangular or dominant) matrix was not solved");
    }
    Ok(())
}
fn c14shape(c: &mut Ctx) -> R {
    let (m, n) = c.shape(4, 7);
    let h = 1 + c.below(8);
    c.note(&format!("A {}x{}, B {}x2", m, n, h));
    let x = M::by(m, n, |i, j| if i == j { 4.0 } else { 1.0 / (1.0 + (i * 3 + j) as f64) }).la();
    let b = M::by(h, 2, |i, j| (i + j) as f64).la();
    let lu = LUDecomposition::new(&x);
    let ok = m == n && h == m;
    ck!(panics(|| x.solve(&b)) == !ok, "Matrix::solve: expected {}", if ok { "an answer" } else { "a panic" });
    ck!(panics(|| lu.solve(&b)) == !ok, "LU::solve: expected {}", if ok { "an answer" } else { "a panic" });
    ck!(panics(|| x.is_singular()) == (m != n), "is_singular of {}x{}", m, n);
    ck!(panics(|| x.is_non_singular()) == (m != n), "is_non_singular of {}x{}", m, n);
    // the refusal must not depend on the matrix being singular
    let z = Matrix::<f64>::zero(m, n);
    ck!(ok || panics(|| z.solve(&b)), "Matrix::solve of a zero {}x{} matrix with {} rows on the right answered", m, n, h);
    ck!(m == n || panics(|| z.is_singular()), "is_singular of a zero {}x{} matrix answered", m, n);
    Ok(())
}
fn c15q(c: &mut Ctx) -> R {
    let n = square_shape(c, 5);
    let a = gen_q(c, n, n);
    c.note(&format!("exact A={}", a.show()));
    let want = det(&a);
    let g = a.la().det();
    let g2 = LUDecomposition::new(&a.la()).det();
    if q::poisoned() {
        return Ok(());
    }
    ck!(g == want && g2 == want, "det = {:?} / {:?}, expected {:?} (exact arithmetic)", g, g2, want);
    Ok(())
}
fn c15f(c: &mut Ctx) -> R {
    if let Some(n) = c.large_square(130) {
        // a reflection of a scaled permutation: the determinant is known
        let v: Vec<f64> = (0..n).map(|_| c.sym()).collect();
        let vv: f64 = v.iter().map(|x| x * x).sum();
        let d: Vec<f64> = (0..n).map(|_| *c.pick(&[1.0, -1.0, 2.0, 0.5, 1.5])).collect();
        let mut p: Vec<usize> = (0..n).collect();
        let mut want: f64 = -d.iter().product::<f64>();
        for i in (1..n).rev() {
            let j = c.below(i + 1);
            if i != j {
                p.swap(i, j);
                want = -want;
            }
        }
        let w = M::by(n, n, |i, j| ((p[i] == j) as u8 as f64 - 2.0 * v[p[i]] * v[j] / vv) * d[j]);
        c.note(&format!("f64 A={}", w.show()));
        let g = w.la().det();
        ck!((g - want).abs() <= 1e-9 * want.abs(), "det = {:?}, expected {:?}", g, want);
        return Ok(());
    }
    let n = square_shape(c, 7);
    // integer matrices: the reference is exact
    let lim = *c.pick(&[1i64, 2, 4]);
    let a = M::by(n, n, |_, _| Q::int(c.range(-lim, lim)));
    let w = a.map(|v| v.f());
    c.note(&format!("f64 A={}", w.show()));
    let want = det(&a).f();
    // Hadamard's bound on the determinant and its minors
    let had: f64 = (0..n).map(|i| (0..n).map(|j| w.at(i, j) * w.at(i, j)).sum::<f64>().sqrt().max(1.0)).product();
    let g = w.la().det();
    ck!((g - want).abs() <= 1e-11 * had, "det = {:?}, expected {:?}", g, want);
    let s = pow2(c, 100);
    let gs = w.map(|v| v * s).la().det() / s.powi(n as i32);
    ck!((gs - want).abs() <= 1e-11 * had, "det of the matrix scaled by {:e} = {:?}, expected {:?} after scaling back", s, gs, want);
    let (m, k) = (1 + c.below(5), 1 + c.below(5));
    if m != k {
        let r = M::by(m, k, |i, j| (i * 2 + j) as f64).la();
        ck!(panics(|| r.det()), "det of {}x{} answered", m, k);
        ck!(panics(|| LUDecomposition::new(&r).det()), "LU det of {}x{} answered", m, k);
        ck!(panics(|| Matrix::<f64>::zero(m, k).det()), "det of a zero {}x{} answered", m, k);
    }
    Ok(())
}
fn c16q(c: &mut Ctx) -> R {
    let n = square_shape(c, 5);
    let a = gen_q(c, n, n);
    c.note(&format!("exact A={}", a.show()));
    let want = solve(&a, &M::id(n));
    let g = a.la().inverse();
    if q::poisoned() {
        return Ok(());
    }
    match (&g, &want) {
        (Some(g), Some(w)) => {
            let g = M::of(g);
            eqq("inverse", &g, w)?;
            eqq("A*X = I", &a.mul(&g), &M::id(n))?;
            eqq("X*A = I", &g.mul(&a), &M::id(n))
        }
        (None, None) => Ok(()),
        (Some(g), None) => Err(format!("A is singular but inverse returned {:?}", g.get_data())),
        (None, Some(w)) => Err(format!("A is non-singular (inverse {:?}) but inverse returned nothing", w.d)),
    }
}
fn c16f(c: &mut Ctx) -> R {
    let n = square_l(c, 9, 130);
    // well conditioned: identity plus something of norm below one
    let a = near_orth(c, n, n);
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.below(i + 1);
        p.swap(i, j);
    }
    let s = pow2(c, 200);
    let a = M::by(n, n, |i, j| s * a.at(p[i], j));
    c.note(&format!("f64 A={}", a.show()));
    let g = match a.la().inverse() {
        Some(g) => wide(&g),
        None => return Err("a well conditioned matrix has no inverse".to_string()),
    };
    small("A*X - I", &a.mul(&g).sub(&M::id(n)), 1e-11)?;
    small("X*A - I", &g.mul(&a).sub(&M::id(n)), 1e-11)?;
    let (m, k) = (1 + c.below(5), 1 + c.below(5));
    if m != k {
        ck!(panics(|| Matrix::<f64>::zero(m, k).inverse()), "inverse of {}x{} answered", m, k);
        ck!(panics(|| M::by(m, k, |i, j| if i == j { 1.0 } else { 0.5 }).la().inverse()), "inverse of {}x{} answered", m, k);
    }
    Ok(())
}

// ---- C17, C18
fn spd_q(c: &mut Ctx, n: usize) -> (M<Q>, M<Q>) {
    let l = M::by(n, n, |i, j| {
        if i > j {
            if c.chance(4) {
                Q::int(0)
            } else {
                Q::int(c.range(-3, 3))
            }
        } else if i == j {
            if c.chance(4) {
                Q::new(c.range(1, 3) as i128, 2)
            } else {
                Q::int(c.range(1, 4))
            }
        } else {
            Q::int(0)
        }
    });
    let s = *c.pick(&[Q::int(1), Q::int(1), Q::int(1), Q::new(1, 1 << 10), Q::new(1, 10_000), Q::int(1 << 8)]);
    let l = l.map(|x| x * s);
    (l.mul(&l.t()), l)
}
fn c17q(c: &mut Ctx) -> R {
    let n = square_shape(c, 6);
    let (mut a, l) = spd_q(c, n);
    let kind = c.below(6);
    let mut ok = true;
    match kind {
        0 if n > 1 => {
            // not symmetric, anywhere
            let (i, j) = (c.below(n), c.below(n));
            if i != j {
                let v = a.at(i, j) + *c.pick(&[Q::int(1), Q::new(1, 1 << 40), Q::int(-1)]);
                a.put(i, j, v);
                ok = false;
            }
        }
        1 => {
            // singular or indefinite: lower one diagonal element of A to make pivot k zero or negative
            let k = c.below(n);
            let v = a.at(k, k) - l.at(k, k) * l.at(k, k) - *c.pick(&[Q::int(0), Q::int(0), Q::int(1), Q::new(1, 1 << 40)]);
            a.put(k, k, v);
            ok = false;
        }
        _ => {}
    }
    c.note(&format!("exact A={}", a.show()));
    let g = CholeskyDecomposition::new(&a.la());
    if q::poisoned() {
        return Ok(());
    }
    match g {
        None => ck!(!ok, "a symmetric positive definite matrix was refused"),
        Some(g) => {
            ck!(ok, "a matrix that is not symmetric positive definite got the factor {:?}", g.get_l().get_data());
            eqq("L", &M::of(g.get_l()), &l)?
        }
    }
    Ok(())
}
fn c17f<T: Fl>(c: &mut Ctx) -> R {
    let n = square_l(c, 9, 130);
    let g = if c.chance(4) { near_orth(c, n, n) } else { M::by(n, n, |_, _| c.sym()) };
    let mut a = g.mul(&g.t());
    for i in 0..n {
        a.put(i, i, a.at(i, i) + 0.5);
    }
    let s = 10f64.powi(c.range(-8, 8) as i32) * pow2(c, if T::EPS < 1e-10 { 300 } else { 30 });
    let a = fl::<T>(&M::by(n, n, |i, j| a.at(i.min(j), i.max(j)) * s));
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let w = a.map(|v| v.w());
    let ch = match CholeskyDecomposition::new(&a.la()) {
        Some(ch) => ch,
        None => return Err("a positive definite matrix was refused".to_string()),
    };
    let l = wide(ch.get_l());
    shape("L", ch.get_l(), n, n)?;
    for i in 0..n {
        ck!(l.at(i, i) > 0.0, "L({0},{0}) = {1}", i, l.at(i, i));
        for j in i + 1..n {
            ck!(l.at(i, j) == 0.0, "L({},{}) = {}", i, j, l.at(i, j));
        }
    }
    small("L*L' - A", &l.mul(&l.t()).sub(&w), 20.0 * (n + 2) as f64 * T::EPS * w.maxabs())?;
    // broken variants are refused
    if n > 1 {
        let i = c.below(n);
        let j = (i + 1 + c.below(n - 1)) % n;
        let mut b = a.clone();
        b.put(i, j, b.at(i, j) + T::of(s * 0.25));
        ck!(CholeskyDecomposition::new(&b.la()).is_none(), "a matrix with A({0},{1}) != A({1},{0}) was factored", i, j);
        let mut b = a.clone();
        b.put(i, j, T::of(w.at(i, j) * (1.0 + 4.0 * T::EPS)));
        ck!(b.at(i, j) == b.at(j, i) || CholeskyDecomposition::new(&b.la()).is_none(), "a matrix with A({0},{1}) != A({1},{0}) (last bits) was factored", i, j);
        // determinant of a 2x2 block negative
        let mut b = a.clone();
        let big = T::of(w.maxabs() * 3.0);
        b.put(i, j, big);
        b.put(j, i, big);
        ck!(CholeskyDecomposition::new(&b.la()).is_none(), "an indefinite matrix was factored");
    }
    let i = c.below(n);
    let mut b = a.clone();
    b.put(i, i, T::of(*c.pick(&[0.0, -1.0, -0.0])));
    ck!(CholeskyDecomposition::new(&b.la()).is_none(), "a matrix with A({0},{0}) <= 0 was factored", i);
    let (m, k) = (1 + c.below(5), 1 + c.below(5));
    if m != k {
        ck!(CholeskyDecomposition::new(&Matrix::<T>::id(m, k)).is_none(), "a {}x{} matrix was factored", m, k);
    }
    Ok(())
}
fn c18q(c: &mut Ctx) -> R {
    let n = square_shape(c, 5);
    let (a, _) = spd_q(c, n);
    let nb = 1 + c.below(4);
    let b = M::by(n, nb, |_, _| Q::int(c.range(-5, 5)));
    c.note(&format!("exact A={} B={}", a.show(), b.show()));
    let ch = match CholeskyDecomposition::new(&a.la()) {
        Some(ch) => ch,
        None => {
            ck!(q::poisoned(), "a positive definite matrix was refused");
            return Ok(());
        }
    };
    let x = ch.solve(&b.la());
    let h = 1 + c.below(6);
    ck!(h == n || panics(|| ch.solve(&M::by(h, nb, |_, _| Q::int(1)).la())), "a right-hand side with {} rows was accepted for {}x{}", h, n, n);
    if q::poisoned() {
        return Ok(());
    }
    eqq("A*X", &a.mul(&M::of(&x)), &b)
}
fn c18f<T: Fl>(c: &mut Ctx) -> R {
    let n = square_l(c, 9, 130);
    let g = if c.chance(4) { near_orth(c, n, n) } else { M::by(n, n, |_, _| c.sym()) };
    let mut a = g.mul(&g.t());
    for i in 0..n {
        a.put(i, i, a.at(i, i) + 0.5);
    }
    let s = pow2(c, if T::EPS < 1e-10 { 300 } else { 20 });
    let a = fl::<T>(&M::by(n, n, |i, j| s * a.at(i.min(j), i.max(j))));
    let b: M<T> = rhs(c, n);
    let nb = b.c;
    c.note(&format!("{} A={} B={}", T::NAME, a.show(), b.show()));
    let w = a.map(|v| v.w());
    let ch = match CholeskyDecomposition::new(&a.la()) {
        Some(ch) => ch,
        None => return Err("a positive definite matrix was refused".to_string()),
    };
    let x = ch.solve(&b.la());
    shape("X", &x, n, nb)?;
    let x = wide(&x);
    small("A*X - B", &w.mul(&x).sub(&b.map(|v| v.w())), 100.0 * (n * n) as f64 * T::EPS * (w.maxabs() * x.maxabs() + 1.0))
}

// the product of the reflections I - 2 h h' / (h' h) that the columns h of a Householder matrix define
macro_rules! reflections {
    ($h:expr, $zero:expr) => {{
        let h = $h;
        let (m, mut q) = (h.r, M::id(h.r));
        for k in (0..h.r.min(h.c)).rev() {
            if h.at(k, k) == $zero {
                continue;
            }
            let mut w = $zero;
            for i in k..m {
                w = w + h.at(i, k) * h.at(i, k);
            }
            for j in 0..m {
                let mut p = $zero;
                for i in k..m {
                    p = p + h.at(i, k) * q.at(i, j);
                }
                let f = (p + p) / w;
                for i in k..m {
                    let x = q.at(i, j) - f * h.at(i, k);
                    q.put(i, j, x);
                }
            }
        }
        q
    }};
}
// ---- C19, C20, C21
// A = Q0*R0 with a rational orthogonal Q0: Householder's norms are then rational, so the library's
// algorithm runs exactly.
fn qr_q(c: &mut Ctx, m: usize, n: usize, deficient: bool) -> M<Q> {
    let mut a = M::by(m, n, |i, j| {
        if i < j {
            Q::int(c.range(-3, 3))
        } else if i == j {
            Q::int(*c.pick(&[1, 2, -1, -2, 3, 5]))
        } else {
            Q::int(0)
        }
    });
    if deficient {
        let k = c.below(n.min(m));
        a.put(k, k, Q::int(0));
    }
    for _ in 0..2 {
        let u = M::by(m, 1, |_, _| Q::int(c.range(-1, 2)));
        let uu = u.t().mul(&u).at(0, 0);
        if uu.is0() {
            continue;
        }
        let f = Q::int(2) / uu;
        let ua = u.t().mul(&a);
        a = M::by(m, n, |i, j| a.at(i, j) - f * u.at(i, 0) * ua.at(0, j));
    }
    let s = *c.pick(&[Q::int(1), Q::int(1), Q::int(1), Q::new(1, 1 << 10), Q::new(1, 10_000_000), Q::int(1 << 8)]);
    a.map(|x| x * s)
}
fn c19q(c: &mut Ctx) -> R {
    let (m, n) = c.shape(4, 4);
    let def = c.chance(3);
    let a = qr_q(c, m, n, def);
    c.note(&format!("exact A={}", a.show()));
    let qr = QRDecomposition::new(&a.la());
    let (qq, r, h) = (M::of(&qr.get_q()), M::of(&qr.get_r()), M::of(&qr.get_h()));
    if q::poisoned() {
        return Ok(());
    }
    ck!(qq.r == m && qq.c == m && r.r == m && r.c == n && h.r == m && h.c == n, "factor shapes");
    eqq("Q'*Q", &qq.t().mul(&qq), &M::id(m))?;
    eqq("Q*R", &qq.mul(&r), &a)?;
    for i in 0..m {
        for j in 0..n {
            ck!(i <= j || r.at(i, j).is0(), "R({},{}) = {:?}", i, j, r.at(i, j));
            ck!(i >= j || h.at(i, j).is0(), "H({},{}) = {:?}", i, j, h.at(i, j));
        }
    }
    let hq: M<Q> = reflections!(&h, Q::int(0));
    if q::poisoned() {
        return Ok(());
    }
    eqq("the product of the reflections of H", &hq, &qq)
}
fn qr_scale_ok<T: Fl>(w: &M<f64>) -> bool {
    let lim = if T::NAME == "f32" { 1e-12 } else { 1e-120 };
    (0..w.c).all(|j| (0..w.r).all(|i| w.at(i, j) == 0.0 || w.at(i, j).abs() > lim)) && w.maxabs() < 1.0 / lim
}
fn any_f(c: &mut Ctx, small: usize, big: usize) -> M<f64> {
    if c.idx > 60 && c.chance(30) {
        big_low_rank(c)
    } else {
        let (m, n) = c.shape_l(small, big, 4300, 130);
        gen_f(c, m, n)
    }
}
fn c19f<T: Fl>(c: &mut Ctx) -> R {
    let a = fl::<T>(&any_f(c, 5, 12));
    let (m, n) = (a.r, a.c);
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let w = a.map(|v| v.w());
    if !qr_scale_ok::<T>(&w) {
        c.trivial = true;
        return Ok(());
    }
    let qr = QRDecomposition::new(&a.la());
    let (gq, gr, gh) = (qr.get_q(), qr.get_r(), qr.get_h());
    shape("Q", &gq, m, m)?;
    shape("R", &gr, m, n)?;
    shape("H", &gh, m, n)?;
    let (q, r, h) = (wide(&gq), wide(&gr), wide(&gh));
    for i in 0..m {
        for j in 0..n {
            ck!(i <= j || r.at(i, j) == 0.0, "R({},{}) = {:?}", i, j, r.at(i, j));
            ck!(i >= j || h.at(i, j) == 0.0, "H({},{}) = {:?}", i, j, h.at(i, j));
        }
    }
    let k = 60.0 * (m + n) as f64 * T::EPS;
    orth("Q", &q, k)?;
    let hq: M<f64> = reflections!(&h, 0.0);
    small("Q - the product of the reflections of H", &hq.sub(&q), k)?;
    small("Q*R - A", &q.mul(&r).sub(&w), k * w.fro())
}
fn c20q(c: &mut Ctx) -> R {
    let n = square_shape(c, 3);
    let m = n + c.below(3);
    let def = c.chance(3);
    let a = qr_q(c, m, n, def);
    let nb = 1 + c.below(3);
    let b = M::by(m, nb, |_, _| Q::int(c.range(-5, 5)));
    c.note(&format!("exact A={} B={}", a.show(), b.show()));
    let full = reduce(&a).rank == n;
    let qr = QRDecomposition::new(&a.la());
    let g = qr.solve(&b.la());
    if q::poisoned() {
        return Ok(());
    }
    ck!(qr.is_full_rank() == full, "is_full_rank = {}, expected {}", !full, full);
    match g {
        None => ck!(!full, "A has full column rank but solve returned nothing"),
        Some(g) => {
            ck!(full, "A is rank deficient but solve returned {:?}", g.get_data());
            let x = M::of(&g);
            ck!(x.r == n && x.c == nb, "solution is {}x{}, expected {}x{}", x.r, x.c, n, nb);
            let res = a.t().mul(&a.mul(&x).sub(&b));
            eqq("A'*(A*X - B)", &res, &M::by(n, nb, |_, _| Q::int(0)))?
        }
    }
    Ok(())
}
fn c20f<T: Fl>(c: &mut Ctx) -> R {
    let n = square_l(c, 7, 130);
    let m = n + if c.chance(2) { 0 } else { c.below(6) };
    let mut w = gen_f(c, m, n);
    if c.chance(2) {
        let s = pow2(c, 30);
        let d = if c.chance(2) { 2.0 } else { 1.5 * n as f64 };
        w = M::by(m, n, |i, j| s * ((if i == j { d } else { 0.0 }) + c.sym()));
    }
    let zc = c.chance(5);
    if zc {
        let j = c.below(n);
        for i in 0..m {
            w.put(i, j, 0.0);
        }
    }
    let a = fl::<T>(&w);
    let b: M<T> = rhs(c, m);
    let nb = b.c;
    c.note(&format!("{} A={} B={}", T::NAME, a.show(), b.show()));
    let w = a.map(|v| v.w());
    if !qr_scale_ok::<T>(&w) {
        c.trivial = true;
        return Ok(());
    }
    let qr = QRDecomposition::new(&a.la());
    let h = 1 + c.below(9);
    ck!(h == m || panics(|| qr.solve(&M::by(h, nb, |_, _| T::of(1.0)).la())), "a right-hand side with {} rows was accepted for {}x{}", h, m, n);
    let g = qr.solve(&b.la());
    ck!(g.is_some() == qr.is_full_rank(), "solve and is_full_rank disagree");
    let zero_col = (0..n).any(|j| (0..m).all(|i| w.at(i, j) == 0.0));
    ck!(!zero_col || g.is_none(), "A has a zero column but was solved");
    match g {
        None => {
            let dom = m == n && (0..n).all(|i| w.at(i, i).abs() > 1.01 * (0..n).filter(|&j| j != i).map(|j| w.at(i, j).abs()).sum::<f64>());
            ck!(!dom, "a non-singular (dominant) matrix was not solved");
        }
        Some(g) => {
            shape("X", &g, n, nb)?;
            let x = wide(&g);
            if !x.maxabs().is_finite() || x.maxabs() > 1e25 {
                c.trivial = true;
                return Ok(());
            }
            let res = w.mul(&x).sub(&b.map(|v| v.w()));
            let tol = 200.0 * ((m + n) * n) as f64 * T::EPS * w.fro() * (w.fro() * x.fro() + res.fro() + b.map(|v| v.w()).fro());
            small("A'*(A*X - B)", &w.t().mul(&res), tol + 1e-37)?;
            if m == n {
                let tol = 200.0 * ((m + n) * n) as f64 * T::EPS * (w.fro() * x.fro() + b.map(|v| v.w()).fro());
                small("A*X - B", &res, tol + 1e-37)?;
            }
        }
    }
    Ok(())
}
fn c21q(c: &mut Ctx) -> R {
    let n = square_shape(c, 3);
    let m = n + c.below(3);
    let a = qr_q(c, m, n, false);
    c.note(&format!("exact A={}", a.show()));
    let g = a.la().pinverse();
    if q::poisoned() {
        return Ok(());
    }
    let ata = a.t().mul(&a);
    let want = solve(&ata, &a.t()).unwrap();
    eqq("pinverse", &M::of(&g), &want)
}
fn c21f(c: &mut Ctx) -> R {
    let n = square_l(c, 6, 130);
    let m = n + c.below(5);
    let a = near_orth(c, m, n);
    let mut p: Vec<usize> = (0..m).collect();
    for i in (1..m).rev() {
        let j = c.below(i + 1);
        p.swap(i, j);
    }
    let s = pow2(c, 200);
    let a = M::by(m, n, |i, j| s * a.at(p[i], j));
    c.note(&format!("f64 A={}", a.show()));
    let g = a.la().pinverse();
    shape("pinverse", &g, n, m)?;
    let x = wide(&g);
    small("X*A - I", &x.mul(&a).sub(&M::id(n)), 1e-11)?;
    let ax = a.mul(&x);
    small("A*X symmetric", &ax.sub(&ax.t()), 1e-11)?;
    // the range of X' is the range of A: X = (X A) X
    small("X*A*X - X", &x.mul(&ax).sub(&x).map(|v| v * s), 1e-11)
}

// ---- C22, C23, C24
fn svd_in<T: Fl>(c: &mut Ctx) -> M<T> {
    let a = fl::<T>(&any_f(c, 6, 14));
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let lim = if T::NAME == "f32" { 1e15 } else { 1e100 };
    if a.map(|v| v.w()).maxabs() > lim || a.d.iter().any(|v| v.w() != 0.0 && v.w().abs() < 1.0 / lim) {
        c.trivial = true;
    }
    a
}
fn c22<T: Fl>(c: &mut Ctx) -> R {
    let a = svd_in::<T>(c);
    let (m, n) = (a.r, a.c);
    if c.trivial {
        return Ok(());
    }
    let s = SVD::new(&a.la());
    shape("U", s.get_u(), m, m)?;
    shape("S", s.get_s(), m, n)?;
    shape("V", s.get_v(), n, n)?;
    let (u, v, d) = (wide(s.get_u()), wide(s.get_v()), wide(s.get_s()));
    let k = 60.0 * (m + n) as f64 * T::EPS;
    orth("U", &u, k)?;
    orth("V", &v, k)?;
    let mut last = f64::INFINITY;
    for i in 0..m {
        for j in 0..n {
            if i != j {
                ck!(d.at(i, j) == 0.0, "S({},{}) = {}", i, j, d.at(i, j));
            } else {
                ck!(d.at(i, i) >= 0.0 && d.at(i, i) <= last, "singular values {:?} are not non-negative and non-increasing", (0..m.min(n)).map(|i| d.at(i, i)).collect::<Vec<_>>());
                last = d.at(i, i);
            }
        }
    }
    Ok(())
}
fn c23<T: Fl>(c: &mut Ctx) -> R {
    let a = svd_in::<T>(c);
    if c.trivial {
        return Ok(());
    }
    let s = SVD::new(&a.la());
    let (u, v, d) = (wide(s.get_u()), wide(s.get_v()), wide(s.get_s()));
    let w = a.map(|x| x.w());
    small("U*S*V' - A", &u.mul(&d).mul(&v.t()).sub(&w), 60.0 * (a.r + a.c) as f64 * T::EPS * w.fro())
}
fn c24<T: Fl>(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(6, 12, 1500, 66);
    // a known spectrum, with values on both sides of the tolerance
    let k = m.min(n);
    let a: M<f64> = if c.chance(2) {
        gen_f(c, m, n)
    } else {
        let mut s: Vec<f64> = (0..k).map(|_| *c.pick(&[1.0, 0.5, 3.0, 1e-3, 0.0, 0.0, T::EPS * 0.5, T::EPS * (m.max(n) as f64) * 2.0, T::EPS * (m.max(n) as f64) * 40.0, T::EPS * 1.5])).collect();
        s.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let d = M::by(m, n, |i, j| if i == j { s[i] } else { 0.0 });
        if c.chance(2) {
            d
        } else {
            let mut p: Vec<usize> = (0..m).collect();
            for i in (1..m).rev() {
                let j = c.below(i + 1);
                p.swap(i, j);
            }
            M::by(m, n, |i, j| d.at(p[i], j))
        }
    };
    let a = fl::<T>(&a);
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let lim = if T::NAME == "f32" { 1e15 } else { 1e100 };
    if a.map(|v| v.w()).maxabs() > lim {
        c.trivial = true;
        return Ok(());
    }
    let s = SVD::new(&a.la());
    let d = M::of(s.get_s());
    let tol = T::of(m.max(n) as f64) * d.at(0, 0) * T::of(T::EPS);
    let want = (0..k).filter(|&i| d.at(i, i) > tol).count();
    let got = s.rank();
    ck!(got == want, "rank = {}, but {} singular values of {:?} exceed {:?}", got, want, (0..k).map(|i| d.at(i, i)).collect::<Vec<_>>(), tol);
    Ok(())
}

// ---- C25, C26
fn c25<T: Fl>(c: &mut Ctx) -> R {
    let mut n = square_l(c, 12, 48);
    let mut g = gen_f(c, n, n);
    if c.idx > 60 && c.chance(30) {
        let b = big_low_rank(c);
        n = b.r.min(b.c);
        g = M::by(n, n, |i, j| b.at(i.min(j), i.max(j)));
        if c.chance(2) {
            g = b.mul(&b.t());
            n = b.r;
        }
    }
    let kind = c.below(5);
    let mut a = M::by(n, n, |i, j| g.at(i.min(j), i.max(j)));
    if kind == 0 {
        // integer spectrum with repeats, rotated
        let lam: Vec<f64> = (0..n).map(|_| c.range(-2, 2) as f64).collect();
        let mut q: M<f64> = M::id(n);
        for _ in 0..2 {
            let u: Vec<f64> = (0..n).map(|_| c.sym()).collect();
            let uu: f64 = u.iter().map(|x| x * x).sum();
            if uu > 0.0 {
                q = q.mul(&M::by(n, n, |i, j| (i == j) as u8 as f64 - 2.0 * u[i] * u[j] / uu));
            }
        }
        let b = q.mul(&M::by(n, n, |i, j| if i == j { lam[i] } else { 0.0 })).mul(&q.t());
        a = M::by(n, n, |i, j| b.at(i.min(j), i.max(j)));
    } else if kind == 1 {
        // tridiagonal
        a = M::by(n, n, |i, j| if i.max(j) - i.min(j) <= 1 { a.at(i, j) } else { 0.0 });
    }
    let a = fl::<T>(&a);
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let w = a.map(|x| x.w());
    let lim = if T::NAME == "f32" { 1e15 } else { 1e100 };
    if w.maxabs() > lim || w.d.iter().any(|v| *v != 0.0 && v.abs() < 1.0 / lim) {
        c.trivial = true;
        return Ok(());
    }
    let e = EigenDecomposition::new(&a.la());
    let (v, d) = (wide(e.get_v()), wide(&e.get_d()));
    shape("V", e.get_v(), n, n)?;
    shape("D", &e.get_d(), n, n)?;
    let (re, im) = (e.get_real_eigenvalues(), e.get_imag_eigenvalues());
    ck!(re.len() == n && im.len() == n, "{} real and {} imaginary parts for {}x{}", re.len(), im.len(), n, n);
    for i in 0..n {
        ck!(im[i].w() == 0.0, "imaginary part {} = {}", i, im[i].w());
        ck!(i == 0 || re[i].w() <= re[i - 1].w(), "eigenvalues {:?} are not non-increasing", re);
        for j in 0..n {
            let x = if i == j { re[i].w() } else { 0.0 };
            ck!(d.at(i, j) == x, "D({},{}) = {}, expected {}", i, j, d.at(i, j), x);
        }
    }
    let k = 60.0 * (n + 2) as f64 * T::EPS;
    orth("V", &v, k)?;
    small("A*V - V*D", &w.mul(&v).sub(&v.mul(&d)), k * w.fro())
}
fn badeigs() -> Vec<M<f64>> {
    let mk = |n: usize, d: &[f64]| M { r: n, c: n, d: d.to_vec() };
    vec![
        mk(5, &[0., 0., 0., 0., 0., 0., 0., 0., 0., 1., 0., 0., 0., 1., 0., 1., 1., 0., 0., 1., 1., 0., 1., 0., 1.]),
        mk(4, &[4., 1., 1., 1., 1., 2., 3., 1., 1., 3., 10., 2., 1., 1., 2., 10.5]),
        mk(4, &[0., 1., 0., 0., 1., 0., 2e-7, 0., 0., -2e-7, 0., 1., 0., 0., 1., 0.]),
        mk(2, &[0., 1., -1., 0.]),
        mk(3, &[0., 1., 0., 0., 0., 1., 1., 0., 0.]),
        mk(4, &[0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 1., 0., 0., 0.]),
        mk(3, &[2., 1., 0., 0., 2., 1., 0., 0., 2.]),
        mk(4, &[1., 1., 0., 0., 0., 1., 0., 0., 0., 0., 1., 1., 0., 0., 0., 1.]),
        mk(4, &[0., 1., 0., 0., -1., 0., 0., 0., 0., 0., 0., 1., 0., 0., -1., 0.]),
        mk(4, &[0., 1., 1., 0., -1., 0., 0., 1., 0., 0., 0., 1., 0., 0., -1., 0.]),
        mk(3, &[0., 0., 0., 1., 0., 0., 0., 1., 0.]),
        mk(2, &[1., 1e-8, 0., 1.]),
        mk(3, &[-149., -50., -154., 537., 180., 546., -27., -9., -25.]),
        mk(2, &[0., 1., 0., 0.]),
        // the same complex pair twice, far from a rotation
        mk(4, &[0., -1e-16, 1., 0., 1., 0., 0., 0.165849, 0., 0., 0., -1e-16, 0., 0., 1., 0.]),
        mk(4, &[0., 0., 0., 1., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0.]),
        mk(6, &[0., 0., 0., 0., 0., 1., 1., 0., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 0., 1., 0.]),
    ]
}
fn c26<T: Fl>(c: &mut Ctx) -> R {
    let zoo = badeigs();
    let a = if (c.idx as usize) < zoo.len() {
        zoo[c.idx as usize].clone()
    } else {
        let n = c.large_square(40).unwrap_or(2 + c.below(9));
        match c.below(6) {
            0 => {
                // block triangular with complex pairs
                M::by(n, n, |i, j| {
                    if i / 2 == j / 2 {
                        if i == j {
                            1.0
                        } else if i < j {
                            2.0
                        } else {
                            -2.0
                        }
                    } else if i < j {
                        c.range(-2, 2) as f64
                    } else {
                        0.0
                    }
                })
            }
            1 => M::by(n, n, |i, j| if i + 1 == j { 1.0 } else if i == n - 1 { c.range(-3, 3) as f64 } else { 0.0 }),
            2 => M::by(n, n, |i, j| if i == j { 2.0 } else if i + 1 == j { 1.0 } else { 0.0 }),
            3 => M::by(n, n, |i, j| if i + 1 >= j { c.sym() } else { 0.0 }), // lower Hessenberg
            4 if c.idx > 60 && c.chance(10) => {
                let b = big_low_rank(c);
                let n = b.r.min(b.c);
                M::by(n, n, |i, j| b.at(i, j))
            }
            _ => gen_f(c, n, n),
        }
    };
    let a = fl::<T>(&a);
    let n = a.r;
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let w = a.map(|x| x.w());
    let sym = (0..n).all(|i| (0..n).all(|j| w.at(i, j) == w.at(j, i)));
    let lim = if T::NAME == "f32" { 1e8 } else { 1e60 };
    if sym || w.maxabs() > lim || w.d.iter().any(|v| *v != 0.0 && v.abs() < 1.0 / lim) {
        c.trivial = true;
        return Ok(());
    }
    let e = EigenDecomposition::new(&a.la());
    shape("V", e.get_v(), n, n)?;
    let gd = e.get_d();
    shape("D", &gd, n, n)?;
    let (v, d) = (wide(e.get_v()), wide(&gd));
    let (re, im) = (e.get_real_eigenvalues(), e.get_imag_eigenvalues());
    ck!(re.len() == n && im.len() == n, "{} real and {} imaginary parts for {}x{}", re.len(), im.len(), n, n);
    let mut want = M::by(n, n, |i, j| if i == j { re[i].w() } else { 0.0 });
    let mut i = 0;
    while i < n {
        let m = im[i].w();
        if m == 0.0 {
            i += 1;
            continue;
        }
        ck!(m > 0.0 && i + 1 < n && im[i + 1].w() == -m && re[i + 1].w() == re[i].w(), "eigenvalues {:?} + i{:?} are not real numbers and adjacent conjugate pairs", re, im);
        want.put(i, i + 1, m);
        want.put(i + 1, i, -m);
        i += 2;
    }
    ck!(d == want, "D = {:?}, but the eigenvalues are {:?} + i{:?}", d.d, re, im);
    let k = 400.0 * (n + 2) as f64 * T::EPS;
    ck!(v.maxabs() > 0.0, "V is zero");
    if v.maxabs() > lim * lim {
        c.trivial = true;
        return Ok(());
    }
    let res = w.mul(&v).sub(&v.mul(&d));
    small("A*V - V*D", &res, k * w.fro() * v.fro())?;
    // and vector by vector: a complex one is two columns
    let mut j = 0;
    while j < n {
        let m = if im[j].w() > 0.0 { 2 } else { 1 };
        let size = (j..j + m).map(|c| (0..n).map(|i| v.at(i, c).abs()).sum::<f64>()).sum::<f64>();
        small(&format!("A*V - V*D, column {}", j), &M::by(n, m, |i, c| res.at(i, j + c)), k * w.fro() * size)?;
        j += m;
    }
    Ok(())
}
fn c26shape(c: &mut Ctx) -> R {
    let (m, n) = c.shape(5, 8);
    c.note(&format!("{}x{}", m, n));
    let z = M::by(m, n, |i, j| (i * 2 + j) as f64).la();
    ck!(panics(|| EigenDecomposition::new(&z)) == (m != n), "EigenDecomposition::new of {}x{}: expected {}", m, n, if m == n { "an answer" } else { "a panic" });
    let z = Matrix::<f64>::zero(m, n);
    ck!(panics(|| EigenDecomposition::new(&z)) == (m != n), "EigenDecomposition::new of a zero {}x{}: expected {}", m, n, if m == n { "an answer" } else { "a panic" });
    // one element at the edge of underflow among zeros: the iteration still has to end
    let k = 2 + c.below(4);
    let (i, j) = (c.below(k), c.below(k));
    let x = [1e-300, -1e-305, 2e-310, 1e-320][c.below(4)];
    c.note(&format!("{}x{} zero but for ({},{}) = {:e}", k, k, i, j, x));
    let z: Matrix<f64> = M::by(k, k, |r, s| if (r, s) == (i, j) { x } else { 0.0 }).la();
    let e = EigenDecomposition::new(&z);
    ck!(e.get_real_eigenvalues().iter().chain(e.get_imag_eigenvalues().iter()).all(|v: &f64| *v <= 1e-299 && *v >= -1e-299), "eigenvalues {:?} + i{:?}", e.get_real_eigenvalues(), e.get_imag_eigenvalues());
    Ok(())
}

// ---- C27
fn c27(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(7, 16, 2500, 66);
    let w = gen_f(c, m, n);
    c.note(&format!("f64 A={}", w.show()));
    let x = w.la();
    let k = m.min(n);
    let lu = LUDecomposition::new(&x);
    shape("LU L", &lu.get_l(), m, k)?;
    shape("LU U", &lu.get_u(), k, n)?;
    shape("LU P", &lu.get_p(), m, m)?;
    ck!(lu.get_piv().len() == m, "pivot vector length {}", lu.get_piv().len());
    let qr = QRDecomposition::new(&x);
    shape("QR Q", &qr.get_q(), m, m)?;
    shape("QR R", &qr.get_r(), m, n)?;
    shape("QR H", &qr.get_h(), m, n)?;
    let s = SVD::new(&x);
    shape("SVD U", s.get_u(), m, m)?;
    shape("SVD S", s.get_s(), m, n)?;
    shape("SVD V", s.get_v(), n, n)?;
    s.rank();
    let nb = 1 + c.below(3);
    let b = M::by(m, nb, |_, _| c.sym()).la();
    if m >= n {
        qr.is_full_rank();
        if let Some(g) = qr.solve(&b) {
            shape("QR solution", &g, n, nb)?;
        }
    } else {
        match std::panic::catch_unwind(|| qr.solve(&b)) {
            Ok(Some(g)) => return Err(format!("QR solve of a wide {}x{} matrix answered {:?}", m, n, g.get_data())),
            _ => {}
        }
    }
    let ch = CholeskyDecomposition::new(&x);
    if m != n {
        ck!(ch.is_none(), "Cholesky factored a {}x{} matrix", m, n);
        ck!(panics(|| lu.solve(&b)), "LU solve of a {}x{} matrix answered", m, n);
        ck!(panics(|| EigenDecomposition::new(&x)), "eigendecomposition of a {}x{} matrix answered", m, n);
    } else {
        if let Some(ch) = ch {
            shape("Cholesky L", ch.get_l(), n, n)?;
            shape("Cholesky solution", &ch.solve(&b), n, nb)?;
        }
        if let Some(g) = lu.solve(&b) {
            shape("LU solution", &g, n, nb)?;
        }
        lu.det();
        lu.is_singular();
        let e = EigenDecomposition::new(&x);
        shape("eigen V", e.get_v(), n, n)?;
        shape("eigen D", &e.get_d(), n, n)?;
        ck!(e.get_real_eigenvalues().len() == n && e.get_imag_eigenvalues().len() == n, "eigenvalue count");
        let sy = M::by(n, n, |i, j| w.at(i.min(j), i.max(j))).la();
        let e = EigenDecomposition::new(&sy);
        shape("eigen V", e.get_v(), n, n)?;
        shape("eigen D", &e.get_d(), n, n)?;
        let sq = M::by(n, n, |i, j| (0..n).map(|k| w.at(i, k) * w.at(j, k)).sum::<f64>() + (i == j) as u8 as f64 * 1e-3).la();
        if let Some(ch) = CholeskyDecomposition::new(&sq) {
            shape("Cholesky L", ch.get_l(), n, n)?;
            shape("Cholesky solution", &ch.solve(&b), n, nb)?;
        }
    }
    Ok(())
}

// element values at the edges of the format, where NaN and infinity steer the data-dependent loops
fn c27x(c: &mut Ctx) -> R {
    use crate::fuel::{fuel, Spent, W};
    let (m, n) = (1 + c.below(5), 1 + c.below(5));
    let pool = [0.0, 1.0, -1.0, 2.0, 3.0, -0.5, 1e308, -1e308, 1.7e308, -1.7e308, 1e154, 2e154, 1e160, 1e200, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-300, 1e-160, 5e-324];
    let lim = *c.pick(&[6usize, 12, 15, 17, 18, 21]);
    let d: Vec<f64> = (0..m * n).map(|_| pool[c.below(lim)]).collect();
    let s: Vec<f64> = (0..n * n).map(|i| d[((i / n).min(i % n) * n + (i / n).max(i % n)) % (m * n)]).collect();
    let b: Vec<f64> = (0..m).map(|_| pool[c.below(lim)]).collect();
    c.note(&format!("{}x{} {:?} rhs {:?}; symmetric {}x{} {:?}", m, n, d, b, n, n, s));
    let mk = |r: usize, d: &[f64]| Matrix::new(r, d.len() / r, d.iter().map(|&x| W(x)).collect::<Vec<W>>());
    let (x, sy, b) = (mk(m, &d), mk(n, &s), mk(m, &b));
    let k = m.min(n);
    let mut run = |what: &str, f: &dyn Fn() -> R| -> R {
        fuel(20_000);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) if e.is::<Spent>() => Ok(()),
            Err(e) => Err(format!("{} panicked: {}", what, crate::panic_text(e))),
        }
    };
    let shape = |what: &str, g: &Matrix<W>, r: usize, q: usize| -> R {
        ck!(g.rows() == r && g.cols() == q && g.get_data().len() == r * q, "{}: {}x{} with {} elements, expected {}x{}", what, g.rows(), g.cols(), g.get_data().len(), r, q);
        Ok(())
    };
    run("LU", &|| {
        let lu = LUDecomposition::new(&x);
        shape("LU L", &lu.get_l(), m, k)?;
        shape("LU U", &lu.get_u(), k, n)?;
        shape("LU P", &lu.get_p(), m, m)?;
        if m == n {
            lu.det();
            if let Some(g) = lu.solve(&b) {
                shape("LU solution", &g, n, 1)?;
            }
        }
        Ok(())
    })?;
    run("QR", &|| {
        let qr = QRDecomposition::new(&x);
        shape("QR Q", &qr.get_q(), m, m)?;
        shape("QR R", &qr.get_r(), m, n)?;
        shape("QR H", &qr.get_h(), m, n)?;
        if m >= n {
            if let Some(g) = qr.solve(&b) {
                shape("QR solution", &g, n, 1)?;
            }
        }
        Ok(())
    })?;
    run("Cholesky", &|| {
        let mut l = vec![];
        l.extend(CholeskyDecomposition::new(&x));
        ck!(m == n || l.is_empty(), "Cholesky factored a {}x{} matrix", m, n);
        l.extend(CholeskyDecomposition::new(&sy));
        for ch in l {
            shape("Cholesky L", ch.get_l(), n, n)?;
        }
        Ok(())
    })?;
    run("SVD", &|| {
        let s = SVD::new(&x);
        shape("SVD U", s.get_u(), m, m)?;
        shape("SVD S", s.get_s(), m, n)?;
        shape("SVD V", s.get_v(), n, n)?;
        s.rank();
        Ok(())
    })?;
    for (z, what) in [(&x, "eigendecomposition"), (&sy, "symmetric eigendecomposition")] {
        if z.rows() == z.cols() {
            run(what, &|| {
                let e = EigenDecomposition::new(z);
                shape("eigen V", e.get_v(), n, n)?;
                shape("eigen D", &e.get_d(), n, n)?;
                ck!(e.get_real_eigenvalues().len() == n && e.get_imag_eigenvalues().len() == n, "eigenvalue count");
                Ok(())
            })?;
        }
    }
    Ok(())
}

pub fn subs(v: &mut Vec<Sub>) {
    v.push(sub("C13", "exact", c13q, 200));
    v.push(sub("C13", "f64", c13f::<f64>, 100));
    v.push(sub("C13", "f32", c13f::<f32>, 40));
    v.push(sub("C14", "exact", c14q, 200));
    v.push(sub("C14", "f64", c14f::<f64>, 80));
    v.push(sub("C14", "f32", c14f::<f32>, 40));
    v.push(sub("C14", "shapes", c14shape, 60));
    v.push(sub("C15", "exact", c15q, 200));
    v.push(sub("C15", "f64", c15f, 60));
    v.push(sub("C16", "exact", c16q, 200));
    v.push(sub("C16", "f64", c16f, 40));
    v.push(sub("C17", "exact", c17q, 200));
    v.push(sub("C17", "f64", c17f::<f64>, 60));
    v.push(sub("C17", "f32", c17f::<f32>, 40));
    v.push(sub("C18", "exact", c18q, 100));
    v.push(sub("C18", "f64", c18f::<f64>, 60));
    v.push(sub("C18", "f32", c18f::<f32>, 40));
    v.push(sub("C19", "exact", c19q, 200));
    v.push(sub("C19", "f64", c19f::<f64>, 150));
    v.push(sub("C19", "f32", c19f::<f32>, 60));
    v.push(sub("C20", "exact", c20q, 200));
    v.push(sub("C20", "f64", c20f::<f64>, 100));
    v.push(sub("C20", "f32", c20f::<f32>, 40));
    v.push(sub("C21", "exact", c21q, 200));
    v.push(sub("C21", "f64", c21f, 40));
    v.push(sub("C22", "f64", c22::<f64>, 200));
    v.push(sub("C22", "f32", c22::<f32>, 60));
    v.push(sub("C23", "f64", c23::<f64>, 200));
    v.push(sub("C23", "f32", c23::<f32>, 60));
    v.push(sub("C24", "f64", c24::<f64>, 200));
    v.push(sub("C24", "f32", c24::<f32>, 60));
    v.push(sub("C25", "f64", c25::<f64>, 200));
    v.push(sub("C25", "f32", c25::<f32>, 60));
    v.push(sub("C26", "f64", c26::<f64>, 300));
    v.push(sub("C26", "f32", c26::<f32>, 60));
    v.push(sub("C26", "shapes", c26shape, 120));
    v.push(sub("C27", "shapes", c27, 150));
    v.push(sub("C27", "extreme", c27x, 4000));
}
