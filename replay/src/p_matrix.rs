// C01 - C10: structure, access, rearrangement, arithmetic.
use crate::ck;
use crate::ctx::*;
use crate::mat::M;
use crate::quat::Quat;
use la::*;
use num::Zero;
use std::cell::Cell;

type R = Result<(), String>;

fn tag(c: &mut Ctx, small: usize, big: usize) -> M<i64> {
    let (m, n) = c.shape_l(small, big, 4300, 300);
    let a = M::by(m, n, |i, j| (i * n + j) as i64 * 7 + 3);
    c.note(&format!("A={}x{} tagged", m, n));
    a
}
fn same<T: Copy + PartialEq + std::fmt::Debug>(what: &str, got: &Matrix<T>, want: &M<T>) -> R {
    ck!(got.rows() == want.r && got.cols() == want.c, "{}: shape {}x{}, expected {}x{}", what, got.rows(), got.cols(), want.r, want.c);
    ck!(*got.get_data() == want.d, "{}: elements {:?}, expected {:?}", what, got.get_data(), want.d);
    Ok(())
}
fn bits(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8000000000000
    } else {
        x.to_bits()
    }
}
fn same_bits(what: &str, got: &Matrix<f64>, want: &M<f64>) -> R {
    ck!(got.rows() == want.r && got.cols() == want.c, "{}: shape {}x{}, expected {}x{}", what, got.rows(), got.cols(), want.r, want.c);
    for k in 0..want.d.len() {
        ck!(got.get_data().len() == want.d.len() && bits(got.get_data()[k]) == bits(want.d[k]), "{}: elements {:?}, expected {:?}", what, got.get_data(), want.d);
    }
    Ok(())
}
fn well<T: Copy>(what: &str, m: &Matrix<T>, r: usize, c: usize) -> R {
    ck!(m.rows() == r && m.cols() == c, "{}: shape {}x{}, expected {}x{}", what, m.rows(), m.cols(), r, c);
    ck!(m.rows() >= 1 && m.cols() >= 1, "{}: empty matrix", what);
    ck!(m.get_data().len() == r * c, "{}: {} elements for {}x{}", what, m.get_data().len(), r, c);
    Ok(())
}

// ---- C01
const BIG: [(usize, usize); 6] = [
    (1 << 63, 2),
    (2, 1 << 63),
    (1 << 32, 1 << 32),
    (usize::MAX, usize::MAX),
    (usize::MAX / 3 + 1, 3),
    ((1 << 60) + 1, 16),
];
fn c01_new(c: &mut Ctx) -> R {
    let (r, k) = if c.chance(8) { *c.pick(&BIG) } else { (c.below(6), c.below(6)) };
    let p = r.wrapping_mul(k);
    let len = match c.below(4) {
        0 => p.wrapping_add(1) % 40,
        1 => c.below(30),
        _ => p % 64,
    };
    c.note(&format!("new({}, {}, {} elements)", r, k, len));
    let ok = r > 0 && k > 0 && r.checked_mul(k) == Some(len);
    let data: Vec<u8> = (0..len).map(|x| x as u8).collect();
    let m = std::panic::catch_unwind(|| Matrix::new(r, k, data.clone()));
    match m {
        Err(_) => ck!(!ok, "rejected a valid request"),
        Ok(m) => {
            ck!(ok, "accepted: produced {}x? with {} elements", m.rows(), m.get_data().len());
            well("new", &m, r, k)?;
            ck!(*m.get_data() == data, "new changed the data");
        }
    }
    Ok(())
}
fn c01_ctor(c: &mut Ctx) -> R {
    let (r, k) = if c.chance(6) { *c.pick(&BIG) } else { (c.below(6), c.below(6)) };
    let which = c.below(8);
    let name = ["id", "zero", "random", "zero_vector", "one_vector", "vector", "row_vector", "diag"][which];
    // the vector constructors with a small length only
    let (r, k) = if which >= 3 { (r % 8, k % 8) } else { (r, k) };
    c.note(&format!("{}({}, {})", name, r, k));
    let (ok, er, ec) = match which {
        0 | 1 | 2 => (r > 0 && k > 0 && r.checked_mul(k).is_some(), r, k),
        3 | 4 | 5 => (r > 0, r, 1),
        6 => (r > 0, 1, r),
        _ => (r > 0, r, r),
    };
    if ok && er.checked_mul(ec).map_or(true, |x| x > 1 << 20) {
        c.trivial = true;
        return Ok(());
    }
    let v: Vec<u8> = vec![9; if which >= 5 { r } else { 0 }];
    let m = std::panic::catch_unwind(|| match which {
        0 => Matrix::<u8>::id(r, k),
        1 => Matrix::<u8>::zero(r, k),
        2 => Matrix::<u8>::random(r, k),
        3 => Matrix::<u8>::zero_vector(r),
        4 => Matrix::<u8>::one_vector(r),
        5 => Matrix::vector(v.clone()),
        6 => Matrix::row_vector(v.clone()),
        _ => Matrix::diag(v.clone()),
    });
    match m {
        Err(_) => ck!(!ok, "rejected a valid request"),
        Ok(m) => {
            ck!(ok, "accepted: produced {} rows with {} elements", m.rows(), m.get_data().len());
            well(name, &m, er, ec)?;
        }
    }
    let len = c.below(5);
    let (r, k) = (c.below(5), c.below(5));
    c.note(&format!("block_diag({}, {}, {} elements)", r, k, len));
    let ok = r > 0 && k > 0 && len == r.min(k);
    match std::panic::catch_unwind(|| Matrix::block_diag(r, k, vec![5i64; len])) {
        Err(_) => ck!(!ok, "block_diag rejected a valid request"),
        Ok(m) => {
            ck!(ok, "block_diag accepted");
            well("block_diag", &m, r, k)?
        }
    }
    Ok(())
}
fn c01_ops(c: &mut Ctx) -> R {
    let a = tag(c, 5, 9);
    let (m, n) = (a.r, a.c);
    let x = a.la();
    well("map", &x.map(&|&v: &i64| v as u8), m, n)?;
    well("reduce", &x.reduce(&vec![0i64; n], &|&s: &i64, &v: &i64| s + v), 1, n)?;
    well("t", &x.t(), n, m)?;
    let mut y = a.la();
    y.mt();
    well("mt", &y, n, m)?;
    well("scale", &x.scale(2), m, n)?;
    well("add", &(&x + &x), m, n)?;
    well("sub", &(&x - &x), m, n)?;
    well("neg", &(-&x), m, n)?;
    well("elem_mul", &x.elem_mul(&x), m, n)?;
    well("elem_div", &x.elem_div(&x), m, n)?;
    let k = 1 + c.below(6);
    let b = M::by(n, k, |i, j| (i + 3 * j) as i64);
    well("mul", &(&x * &b.la()), m, k)?;
    let mut y = a.la();
    y.mmul(&b.la());
    well("mmul", &y, m, k)?;
    let w = 1 + c.below(5);
    c.note(&format!("k={} w={}", k, w));
    well("cr", &x.cr(&M::by(m, w, |_, _| 1i64).la()), m, n + w)?;
    well("|", &(x.clone() | &M::by(m, w, |_, _| 1i64).la()), m, n + w)?;
    well("cb", &x.cb(&M::by(w, n, |_, _| 1i64).la()), m + w, n)?;
    well("get_column", &x.get_column(c.below(n)), m, 1)?;
    if m > 1 && n > 1 {
        well("minor", &x.minor(c.below(m), c.below(n)), m - 1, n - 1)?;
    } else {
        ck!(panics(|| x.minor(0, 0)), "minor of a {}x{} matrix is empty but was returned", m, n);
    }
    let (r0, c0) = (c.below(m + 1), c.below(n + 1));
    let (r1, c1) = (r0 + c.below(m + 1 - r0), c0 + c.below(n + 1 - c0));
    c.note(&format!("sub_matrix({},{},{},{})", r0, c0, r1, c1));
    if r1 > r0 && c1 > c0 {
        well("sub_matrix", &x.sub_matrix(r0, c0, r1, c1), r1 - r0, c1 - c0)?;
    } else {
        ck!(panics(|| x.sub_matrix(r0, c0, r1, c1)), "empty sub_matrix was returned");
    }
    let sel: Vec<bool> = (0..m).map(|_| c.chance(2)).collect();
    let cnt = sel.iter().filter(|&&b| b).count();
    c.note(&format!("rows {:?}", sel));
    if cnt > 0 {
        well("select_rows", &x.select_rows(&sel), cnt, n)?;
        well("filter_rows", &x.filter_rows(&|_, r| sel[r]), cnt, n)?;
    } else {
        ck!(panics(|| x.select_rows(&sel)), "select_rows returned an empty matrix");
        ck!(panics(|| x.filter_rows(&|_, r| sel[r])), "filter_rows returned an empty matrix");
    }
    let sel: Vec<bool> = (0..n).map(|_| c.chance(2)).collect();
    let cnt = sel.iter().filter(|&&b| b).count();
    c.note(&format!("columns {:?}", sel));
    if cnt > 0 {
        well("select_columns", &x.select_columns(&sel), m, cnt)?;
        well("filter_columns", &x.filter_columns(&|_, r| sel[r]), m, cnt)?;
    } else {
        ck!(panics(|| x.select_columns(&sel)), "select_columns returned an empty matrix");
        ck!(panics(|| x.filter_columns(&|_, r| sel[r])), "filter_columns returned an empty matrix");
    }
    let pr: Vec<usize> = (0..c.below(m + 2)).map(|_| c.below(m)).collect();
    let pc: Vec<usize> = (0..c.below(n + 2)).map(|_| c.below(n)).collect();
    c.note(&format!("permute {:?} {:?}", pr, pc));
    if pr.is_empty() {
        ck!(panics(|| x.permute_rows(&pr)), "permute_rows returned an empty matrix");
    } else {
        well("permute_rows", &x.permute_rows(&pr), pr.len(), n)?;
    }
    if pc.is_empty() {
        ck!(panics(|| x.permute_columns(&pc)), "permute_columns returned an empty matrix");
    } else {
        well("permute_columns", &x.permute_columns(&pc), m, pc.len())?;
    }
    Ok(())
}

// ---- C02
fn c02(c: &mut Ctx) -> R {
    let a = tag(c, 5, 8);
    let (m, n) = (a.r, a.c);
    let mut x = a.la();
    ck!(x.rows() == m && x.cols() == n, "shape");
    ck!(*x.get_data() == a.d, "get_data is not the row-major data");
    for i in 0..m {
        for j in 0..n {
            let want = a.at(i, j);
            ck!(x.get(i, j) == want, "get({},{}) = {}, expected {}", i, j, x.get(i, j), want);
            ck!(*x.get_ref(i, j) == want, "get_ref({},{})", i, j);
            ck!(x[(i, j)] == want, "index ({},{})", i, j);
            ck!(*x.get_mref(i, j) == want, "get_mref({},{})", i, j);
            ck!(x.get_data()[i * n + j] == want, "get_data at ({},{})", i, j);
        }
    }
    // writes
    let (i, j) = (c.below(m), c.below(n));
    let mut e = a.clone();
    e.put(i, j, -5);
    x.set(i, j, -5);
    same(&format!("set({},{})", i, j), &x, &e)?;
    let (i, j) = (c.below(m), c.below(n));
    e.put(i, j, -6);
    *x.get_mref(i, j) = -6;
    same(&format!("get_mref({},{}) write", i, j), &x, &e)?;
    let (i, j) = (c.below(m), c.below(n));
    e.put(i, j, -7);
    x.get_mut_data()[i * n + j] = -7;
    same("get_mut_data write", &x, &e)?;
    // out of range
    let bad = [
        (m, 0),
        (0, n),
        (m, n),
        (m - 1, n),
        (m, n - 1),
        (0, m * n - 1),
        (m * n, 0),
        (usize::MAX, 0),
        (0, usize::MAX),
        (usize::MAX, usize::MAX),
        ((usize::MAX / n).wrapping_add(1), 0),
        ((usize::MAX / n).wrapping_add(1), n - 1),
        (1usize << 63, 0),
        (c.below(m), n + c.below(3)),
        (m + c.below(3), c.below(n)),
    ];
    for &(i, j) in bad.iter() {
        if i < m && j < n {
            continue;
        }
        ck!(panics(|| x.get(i, j)), "get({},{}) of a {}x{} matrix answered", i, j, m, n);
        ck!(panics(|| *x.get_ref(i, j)), "get_ref({},{}) of a {}x{} matrix answered", i, j, m, n);
        ck!(panics(|| x[(i, j)]), "index ({},{}) of a {}x{} matrix answered", i, j, m, n);
        ck!(panics(|| *x.get_mref(i, j)), "get_mref({},{}) of a {}x{} matrix answered", i, j, m, n);
        ck!(panics(|| x.set(i, j, 0)), "set({},{}) of a {}x{} matrix accepted", i, j, m, n);
        same("after a rejected access", &x, &e)?;
    }
    Ok(())
}

// ---- C03
fn c03(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(6, 12, 20000, 300);
    c.note(&format!("{}x{}", m, n));
    same("id i64", &Matrix::<i64>::id(m, n), &M::by(m, n, |i, j| (i == j) as i64))?;
    same("id u8", &Matrix::<u8>::id(m, n), &M::by(m, n, |i, j| (i == j) as u8))?;
    same_bits("id f64", &Matrix::<f64>::id(m, n), &M::by(m, n, |i, j| (i == j) as u8 as f64))?;
    same("zero i64", &Matrix::<i64>::zero(m, n), &M::by(m, n, |_, _| 0))?;
    same_bits("zero f64", &Matrix::<f64>::zero(m, n), &M::by(m, n, |_, _| 0.0))?;
    same("zero_vector", &Matrix::<i64>::zero_vector(m), &M::by(m, 1, |_, _| 0))?;
    same("one_vector", &Matrix::<i64>::one_vector(m), &M::by(m, 1, |_, _| 1))?;
    same_bits("zero_vector f64", &Matrix::<f64>::zero_vector(m), &M::by(m, 1, |_, _| 0.0))?;
    same_bits("one_vector f64", &Matrix::<f64>::one_vector(m), &M::by(m, 1, |_, _| 1.0))?;
    let v: Vec<i64> = (0..m).map(|_| c.range(-50, 50)).collect();
    c.note(&format!("v={:?}", v));
    same("vector", &Matrix::vector(v.clone()), &M::by(m, 1, |i, _| v[i]))?;
    same("row_vector", &Matrix::row_vector(v.clone()), &M::by(1, m, |_, j| v[j]))?;
    same("diag", &Matrix::diag(v.clone()), &M::by(m, m, |i, j| if i == j { v[i] } else { 0 }))?;
    let w: Vec<i64> = (0..m.min(n)).map(|_| c.range(-50, 50)).collect();
    same("block_diag", &Matrix::block_diag(m, n, w.clone()), &M::by(m, n, |i, j| if i == j { w[i] } else { 0 }))?;
    if n != m {
        ck!(panics(|| Matrix::block_diag(m, n, vec![1i64; m.max(n)])), "block_diag accepted too many values");
    }
    Ok(())
}

// ---- C04
fn c04(c: &mut Ctx) -> R {
    let a = tag(c, 9, 17);
    let x = a.la();
    let t = x.t();
    same("t", &t, &a.t())?;
    same("original after t", &x, &a)?;
    same("t.t", &t.t(), &a)?;
    let mut y = a.la();
    y.mt();
    same("mt", &y, &a.t())?;
    y.mt();
    same("mt twice", &y, &a)?;
    let b = a.map(|v| v as u8);
    let mut y = b.la();
    y.mt();
    same("mt u8", &y, &b.t())
}

// ---- C05
fn c05(c: &mut Ctx) -> R {
    let a = tag(c, 5, 9);
    let w = 1 + c.below(7);
    let b = M::by(a.r, w, |i, j| -((i * w + j) as i64) - 1);
    let d = M::by(w, a.c, |i, j| -((i * a.c + j) as i64) - 1);
    c.note(&format!("B with {} lines", w));
    let (x, y, z) = (a.la(), b.la(), d.la());
    let wr = M::by(a.r, a.c + w, |i, j| if j < a.c { a.at(i, j) } else { b.at(i, j - a.c) });
    let wb = M::by(a.r + w, a.c, |i, j| if i < a.r { a.at(i, j) } else { d.at(i - a.r, j) });
    same("cr", &x.cr(&y), &wr)?;
    same("|", &(x.clone() | &y), &wr)?;
    same("cb", &x.cb(&z), &wb)?;
    same("cr with itself", &x.cr(&x), &M::by(a.r, 2 * a.c, |i, j| a.at(i, j % a.c)))?;
    same("operand", &x, &a)?;
    same("operand", &y, &b)?;
    same("operand", &z, &d)?;
    let h = 1 + c.below(9);
    c.note(&format!("other height {}", h));
    if h != a.r {
        let o = M::by(h, w, |_, _| 0i64).la();
        ck!(panics(|| x.cr(&o)), "cr accepted heights {} and {}", a.r, h);
        ck!(panics(|| x.clone() | &o), "| accepted heights {} and {}", a.r, h);
    }
    if h != a.c {
        let o = M::by(w, h, |_, _| 0i64).la();
        ck!(panics(|| x.cb(&o)), "cb accepted widths {} and {}", a.c, h);
    }
    Ok(())
}

// ---- C06
fn c06(c: &mut Ctx) -> R {
    let a = tag(c, 6, 9);
    let (m, n) = (a.r, a.c);
    let x = a.la();
    for _ in 0..3 {
        let (r, k) = (c.below(m), c.below(n));
        if m > 1 && n > 1 {
            let w = M::by(m - 1, n - 1, |i, j| a.at(if i < r { i } else { i + 1 }, if j < k { j } else { j + 1 }));
            same(&format!("minor({},{})", r, k), &x.minor(r, k), &w)?;
        } else {
            ck!(panics(|| x.minor(r, k)), "minor of {}x{}", m, n);
        }
    }
    let big = [m, m + 1, m + c.below(4), usize::MAX];
    for &r in big.iter() {
        ck!(panics(|| x.minor(r, 0)), "minor({},0) of {}x{} answered", r, m, n);
    }
    let big = [n, n + 1, n + c.below(4), usize::MAX];
    for &k in big.iter() {
        ck!(panics(|| x.minor(0, k)), "minor(0,{}) of {}x{} answered", k, m, n);
        ck!(panics(|| x.get_column(k)), "get_column({}) of {}x{} answered", k, m, n);
    }
    for k in 0..n {
        same(&format!("get_column({})", k), &x.get_column(k), &M::by(m, 1, |i, _| a.at(i, k)))?;
    }
    for _ in 0..6 {
        let (r0, r1) = (c.below(m + 2), c.below(m + 3));
        let (c0, c1) = (c.below(n + 2), c.below(n + 3));
        let ok = r0 < r1 && r1 <= m && c0 < c1 && c1 <= n;
        c.note(&format!("sub_matrix({},{},{},{})", r0, c0, r1, c1));
        match std::panic::catch_unwind(|| x.sub_matrix(r0, c0, r1, c1)) {
            Err(_) => ck!(!ok, "sub_matrix({},{},{},{}) of {}x{} rejected", r0, c0, r1, c1, m, n),
            Ok(g) => {
                ck!(ok, "sub_matrix({},{},{},{}) of {}x{} answered", r0, c0, r1, c1, m, n);
                same("sub_matrix", &g, &M::by(r1 - r0, c1 - c0, |i, j| a.at(r0 + i, c0 + j)))?
            }
        }
    }
    same("whole sub_matrix", &x.sub_matrix(0, 0, m, n), &a)?;
    same("original", &x, &a)
}

// ---- C07
fn c07(c: &mut Ctx) -> R {
    let a = tag(c, 5, 9);
    let (m, n) = (a.r, a.c);
    let x = a.la();
    let pr: Vec<usize> = (0..1 + c.below(m + 4)).map(|_| c.below(m)).collect();
    let pc: Vec<usize> = (0..1 + c.below(n + 4)).map(|_| c.below(n)).collect();
    c.note(&format!("rows {:?} columns {:?}", pr, pc));
    same("permute_rows", &x.permute_rows(&pr), &M::by(pr.len(), n, |i, j| a.at(pr[i], j)))?;
    same("permute_columns", &x.permute_columns(&pc), &M::by(m, pc.len(), |i, j| a.at(i, pc[j])))?;
    let bad = [m, m + 1, usize::MAX, (usize::MAX / n).wrapping_add(1)];
    for &b in bad.iter() {
        if b < m {
            continue;
        }
        let mut p = pr.clone();
        let at = c.below(p.len());
        p[at] = b;
        ck!(panics(|| x.permute_rows(&p)), "permute_rows {:?} of {} rows answered", p, m);
    }
    let bad = [n, n + 1, usize::MAX];
    for &b in bad.iter() {
        let mut p = pc.clone();
        let at = c.below(p.len());
        p[at] = b;
        ck!(panics(|| x.permute_columns(&p)), "permute_columns {:?} of {} columns answered", p, n);
    }
    let mut rs: Vec<bool> = (0..m).map(|_| c.chance(2)).collect();
    let at = c.below(m);
    rs[at] = true;
    let mut cs: Vec<bool> = (0..n).map(|_| c.chance(2)).collect();
    let at = c.below(n);
    cs[at] = true;
    c.note(&format!("masks {:?} {:?}", rs, cs));
    let ri: Vec<usize> = (0..m).filter(|&i| rs[i]).collect();
    let ci: Vec<usize> = (0..n).filter(|&i| cs[i]).collect();
    let wr = M::by(ri.len(), n, |i, j| a.at(ri[i], j));
    let wc = M::by(m, ci.len(), |i, j| a.at(i, ci[j]));
    same("select_rows", &x.select_rows(&rs), &wr)?;
    same("select_columns", &x.select_columns(&cs), &wc)?;
    same("filter_rows", &x.filter_rows(&|y, r| y.get(r, 0) == a.at(r, 0) && rs[r]), &wr)?;
    same("filter_columns", &x.filter_columns(&|y, k| y.get(0, k) == a.at(0, k) && cs[k]), &wc)?;
    let mut longer = rs.clone();
    longer.push(c.chance(2));
    ck!(panics(|| x.select_rows(&longer)), "select_rows accepted a mask of {} for {} rows", m + 1, m);
    let mut longer = cs.clone();
    longer.push(c.chance(2));
    ck!(panics(|| x.select_columns(&longer)), "select_columns accepted a mask of {} for {} columns", n + 1, n);
    if m > 1 {
        let mut s = rs[..m - 1].to_vec();
        s[0] = true;
        ck!(panics(|| x.select_rows(&s)), "select_rows accepted a short mask");
    }
    if n > 1 {
        let mut s = cs[..n - 1].to_vec();
        s[0] = true;
        ck!(panics(|| x.select_columns(&s)), "select_columns accepted a short mask");
    }
    same("original", &x, &a)
}

// ---- C08
fn c08(c: &mut Ctx) -> R {
    let a = tag(c, 5, 9);
    let (m, n) = (a.r, a.c);
    let x = a.la();
    let calls = Cell::new(0usize);
    let g = x.map(&|&v: &i64| {
        calls.set(calls.get() + 1);
        (v % 251) as u8
    });
    same("map", &g, &a.map(|v| (v % 251) as u8))?;
    ck!(calls.get() == m * n, "map called the function {} times for {} elements", calls.get(), m * n);
    same("original after map", &x, &a)?;
    calls.set(0);
    let mut y = a.la();
    y.mmap(&|&v: &i64| {
        calls.set(calls.get() + 1);
        v * 3 - 1
    });
    same("mmap", &y, &a.map(|v| v * 3 - 1))?;
    ck!(calls.get() == m * n, "mmap called the function {} times for {} elements", calls.get(), m * n);
    // elements that compare equal and are not, or are not equal to themselves
    let e = elems(c, m, n);
    c.note(&format!("E={}", e.show()));
    same("map of floats", &e.la().map(&|v: &f64| v.to_bits()), &e.map(|v| v.to_bits()))?;
    let mut y = e.la();
    y.mmap(&|v: &f64| 1.0 / *v);
    same_bits("mmap of floats", &y, &e.map(|v| 1.0 / v))?;
    // a fold in which order, initial value and element all show
    let init: Vec<i64> = (0..n).map(|j| 1000 + j as i64).collect();
    let f = |&s: &i64, &v: &i64| (s.wrapping_mul(31)).wrapping_add(v);
    let w = M::by(1, n, |_, j| {
        let mut s = init[j];
        for i in 0..m {
            s = f(&s, &a.at(i, j));
        }
        s
    });
    same("reduce", &x.reduce(&init, &f), &w)?;
    // another result type
    let i2: Vec<u8> = (0..n).map(|j| j as u8).collect();
    let f2 = |&s: &u8, &v: &i64| s.wrapping_mul(5).wrapping_add(v as u8);
    let w2 = M::by(1, n, |_, j| {
        let mut s = i2[j];
        for i in 0..m {
            s = f2(&s, &a.at(i, j));
        }
        s
    });
    same("reduce to u8", &x.reduce(&i2, &f2), &w2)?;
    same("original after reduce", &x, &a)?;
    for &l in [n - 1, n + 1, 0, n * 2].iter() {
        if l != n {
            ck!(panics(|| x.reduce(&vec![0i64; l], &f)), "reduce accepted {} initial values for {} columns", l, n);
        }
    }
    Ok(())
}

// ---- C09
fn elems(c: &mut Ctx, m: usize, n: usize) -> M<f64> {
    M::by(m, n, |_, _| match c.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => 1e300,
        3 => -1e-300,
        4 => f64::INFINITY,
        5 => f64::NAN,
        6 => 1.0,
        _ => c.sym() * 10.0,
    })
}
fn quats(c: &mut Ctx, m: usize, n: usize) -> M<Quat> {
    M::by(m, n, |_, _| Quat(c.range(-9, 9), c.range(-9, 9), c.range(-9, 9), c.range(-9, 9)))
}
fn zip<T: Copy, F: Fn(T, T) -> T>(a: &M<T>, b: &M<T>, f: F) -> M<T> {
    M::by(a.r, a.c, |i, j| f(a.at(i, j), b.at(i, j)))
}
fn c09f(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(4, 8, 4300, 300);
    let (a, b) = (elems(c, m, n), elems(c, m, n));
    let k = c.sym() * 4.0;
    c.note(&format!("A={} B={} k={}", a.show(), b.show(), k));
    let (x, y) = (a.la(), b.la());
    let add = zip(&a, &b, |p, q| p + q);
    let sub = zip(&a, &b, |p, q| p - q);
    same_bits("&+&", &(&x + &y), &add)?;
    same_bits("v+&", &(x.clone() + &y), &add)?;
    same_bits("&+v", &(&x + y.clone()), &add)?;
    same_bits("v+v", &(x.clone() + y.clone()), &add)?;
    same_bits("&-&", &(&x - &y), &sub)?;
    same_bits("v-&", &(x.clone() - &y), &sub)?;
    same_bits("&-v", &(&x - y.clone()), &sub)?;
    same_bits("v-v", &(x.clone() - y.clone()), &sub)?;
    let mut z = x.clone();
    z.madd(&y);
    same_bits("madd", &z, &add)?;
    let mut z = x.clone();
    z.msub(&y);
    same_bits("msub", &z, &sub)?;
    let neg = a.map(|v| -v);
    same_bits("-&", &(-&x), &neg)?;
    same_bits("-v", &(-x.clone()), &neg)?;
    let mut z = x.clone();
    z.mneg();
    same_bits("mneg", &z, &neg)?;
    same_bits("scale", &x.scale(k), &a.map(|v| k * v))?;
    let mut z = x.clone();
    z.mscale(k);
    same_bits("mscale", &z, &a.map(|v| k * v))?;
    let em = zip(&a, &b, |p, q| p * q);
    let ed = zip(&a, &b, |p, q| p / q);
    same_bits("elem_mul", &x.elem_mul(&y), &em)?;
    let mut z = x.clone();
    z.melem_mul(&y);
    same_bits("melem_mul", &z, &em)?;
    same_bits("elem_div", &x.elem_div(&y), &ed)?;
    let mut z = x.clone();
    z.melem_div(&y);
    same_bits("melem_div", &z, &ed)?;
    same_bits("self operand", &(&x - &x), &zip(&a, &a, |p, q| p - q))?;
    same_bits("left operand", &x, &a)?;
    same_bits("right operand", &y, &b)
}
fn c09q(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(4, 7, 4300, 300);
    let (a, b) = (quats(c, m, n), quats(c, m, n));
    c.note(&format!("quaternions A={} B={}", a.show(), b.show()));
    let (x, y) = (a.la(), b.la());
    same("elem_mul", &x.elem_mul(&y), &zip(&a, &b, |p, q| p * q))?;
    let mut z = x.clone();
    z.melem_mul(&y);
    same("melem_mul", &z, &zip(&a, &b, |p, q| p * q))?;
    same("elem_div", &x.elem_div(&y), &zip(&a, &b, |p, q| p / q))?;
    let mut z = x.clone();
    z.melem_div(&y);
    same("melem_div", &z, &zip(&a, &b, |p, q| p / q))?;
    same("sub", &(&x - &y), &zip(&a, &b, |p, q| p - q))?;
    // scale and mscale must agree with each other
    let k = Quat(2, -1, 3, 5);
    let mut z = x.clone();
    z.mscale(k);
    let s = x.scale(k);
    ck!(z.get_data() == s.get_data() && s.rows() == m && s.cols() == n, "scale and mscale differ");
    same("operand", &x, &a)?;
    same("operand", &y, &b)
}
fn c09shape(c: &mut Ctx) -> R {
    let (m, n) = c.shape(4, 6);
    let (p, q) = match c.below(4) {
        0 => (n, m),
        1 => (m * n, 1),
        2 => (1, m * n),
        _ => (1 + c.below(6), 1 + c.below(6)),
    };
    c.note(&format!("{}x{} with {}x{}", m, n, p, q));
    if (m, n) == (p, q) {
        c.trivial = true;
        return Ok(());
    }
    let x = M::by(m, n, |_, _| 2i64).la();
    let y = M::by(p, q, |_, _| 3i64).la();
    ck!(panics(|| &x + &y), "&+& accepted");
    ck!(panics(|| x.clone() + &y), "v+& accepted");
    ck!(panics(|| &x + y.clone()), "&+v accepted");
    ck!(panics(|| x.clone() + y.clone()), "v+v accepted");
    ck!(panics(|| &x - &y), "&-& accepted");
    ck!(panics(|| x.clone() - &y), "v-& accepted");
    ck!(panics(|| &x - y.clone()), "&-v accepted");
    ck!(panics(|| x.clone() - y.clone()), "v-v accepted");
    ck!(panics(|| x.elem_mul(&y)), "elem_mul accepted");
    ck!(panics(|| x.elem_div(&y)), "elem_div accepted");
    ck!(panics(|| x.clone().madd(&y)), "madd accepted");
    ck!(panics(|| x.clone().msub(&y)), "msub accepted");
    ck!(panics(|| x.clone().melem_mul(&y)), "melem_mul accepted");
    ck!(panics(|| x.clone().melem_div(&y)), "melem_div accepted");
    Ok(())
}

// ---- C10
fn prod<T: Copy + Zero + std::ops::Mul<Output = T>>(a: &M<T>, b: &M<T>) -> M<T> {
    M::by(a.r, b.c, |i, j| {
        let mut s = T::zero();
        for t in 0..a.c {
            s = s + a.at(i, t) * b.at(t, j);
        }
        s
    })
}
fn c10_forms<T: Copy + PartialEq + std::fmt::Debug + num::Num + std::ops::Neg<Output = T>>(a: &M<T>, b: &M<T>) -> R {
    let w = prod(a, b);
    let (x, y) = (a.la(), b.la());
    same("&*&", &(&x * &y), &w)?;
    same("v*&", &(x.clone() * &y), &w)?;
    same("&*v", &(&x * y.clone()), &w)?;
    same("v*v", &(x.clone() * y.clone()), &w)?;
    let mut z = x.clone();
    z.mmul(&y);
    same("mmul", &z, &w)?;
    same("operand", &x, a)?;
    same("operand", &y, b)
}
fn c10q(c: &mut Ctx) -> R {
    let (m, k) = c.shape_l(4, 7, 4300, 130);
    let n = if m * k > 200 && c.chance(2) { *c.pick(&[16, 31, 32, 33, 64, 65]) } else { 1 + c.below(7) };
    let (a, b) = (quats(c, m, k), quats(c, k, n));
    c.note(&format!("quaternions A={} B={}", a.show(), b.show()));
    c10_forms(&a, &b)
}
fn c10f(c: &mut Ctx) -> R {
    let (m, k) = c.shape_l(4, 9, 4300, 300);
    let n = if m * k > 300 && c.chance(2) { *c.pick(&[16, 31, 32, 33, 64, 65]) } else { 1 + c.below(9) };
    // every third case: zeros of both signs, infinities, NaN and extreme values among the elements
    let special = c.idx % 3 == 2;
    let (a, b) = if special { (elems(c, m, k), elems(c, k, n)) } else { let a = M::by(m, k, |_, _| c.sym() * 10f64.powi(c.range(-8, 8) as i32)); (a, M::by(k, n, |_, _| c.sym() * 10f64.powi(c.range(-8, 8) as i32))) };
    c.note(&format!("A={} B={}", a.show(), b.show()));
    let w = prod(&a, &b);
    let x = a.la();
    same_bits("&*&", &(&x * &b.la()), &w)?;
    let mut z = x.clone();
    z.mmul(&b.la());
    same_bits("mmul", &z, &w)?;
    if m == k {
        let mut z = x.clone();
        z.mmul(&x);
        same_bits("mmul with an equal matrix", &z, &prod(&a, &a))?;
    }
    let bad = 1 + c.below(9);
    if bad != k {
        let y = M::by(bad, n, |_, _| 1.0).la();
        ck!(panics(|| &x * &y), "&*& accepted {}x{} * {}x{}", m, k, bad, n);
        ck!(panics(|| x.clone() * &y), "v*& accepted {}x{} * {}x{}", m, k, bad, n);
        ck!(panics(|| &x * y.clone()), "&*v accepted {}x{} * {}x{}", m, k, bad, n);
        ck!(panics(|| x.clone() * y.clone()), "v*v accepted {}x{} * {}x{}", m, k, bad, n);
        ck!(panics(|| x.clone().mmul(&y)), "mmul accepted {}x{} * {}x{}", m, k, bad, n);
    }
    Ok(())
}

pub fn subs(v: &mut Vec<Sub>) {
    v.push(sub("C01", "new", c01_new, 400));
    v.push(sub("C01", "constructors", c01_ctor, 400));
    v.push(sub("C01", "operations", c01_ops, 80));
    v.push(sub("C02", "access", c02, 60));
    v.push(sub("C03", "constructors", c03, 60));
    v.push(sub("C04", "transpose", c04, 120));
    v.push(sub("C05", "concat", c05, 80));
    v.push(sub("C06", "extract", c06, 120));
    v.push(sub("C07", "select", c07, 100));
    v.push(sub("C08", "map-reduce", c08, 60));
    v.push(sub("C09", "float", c09f, 60));
    v.push(sub("C09", "ring", c09q, 60));
    v.push(sub("C09", "shapes", c09shape, 60));
    v.push(sub("C10", "ring", c10q, 60));
    v.push(sub("C10", "float", c10f, 60));
}
