// C11 - C12: trace and norms, predicates.
use crate::ck;
use crate::ctx::*;
use crate::mat::*;
use la::*;

type R = Result<(), String>;

fn near(what: &str, got: f64, want: f64, tol: f64) -> R {
    ck!(got == want || (got - want).abs() <= tol, "{} = {:e}, expected {:e}", what, got, want);
    Ok(())
}
fn vals<T: Fl>(c: &mut Ctx, m: usize, n: usize) -> M<T> {
    let s = 10f64.powi(c.range(-6, 6) as i32);
    let k = c.below(4);
    M::by(m, n, |_, _| {
        T::of(match k {
            0 => c.range(-4, 4) as f64,
            1 => c.sym() * s,
            2 => c.sym() * 10f64.powi(c.range(-5, 5) as i32),
            _ => {
                if c.chance(2) {
                    0.0
                } else {
                    -c.unit() * s
                }
            }
        })
    })
}
fn c11<T: Fl>(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(5, 9, 4300, 300);
    let a: M<T> = vals(c, m, n);
    c.note(&format!("{} A={}", T::NAME, a.show()));
    let w = a.map(|v| v.w());
    let x = a.la();
    let k = 8.0 * (m * n + 4) as f64 * T::EPS;
    let mut tr = 0.0;
    let mut tra = 0.0;
    for i in 0..m.min(n) {
        tr += w.at(i, i);
        tra += w.at(i, i).abs();
    }
    near("trace", x.trace().w(), tr, k * tra)?;
    let fro = w.d.iter().map(|v| v * v).sum::<f64>().sqrt();
    near("frobenius_norm", x.frobenius_norm().w(), fro, k * fro)?;
    // the vector norms of a column
    let v = M { r: m * n, c: 1, d: a.d.clone() };
    let y = v.la();
    let one = w.d.iter().map(|v| v.abs()).sum::<f64>();
    let inf = w.maxabs();
    near("vector_1_norm", y.vector_1_norm().w(), one, k * one)?;
    near("vector_2_norm", y.vector_2_norm().w(), fro, k * fro)?;
    near("vector_euclidean_norm", y.vector_euclidean_norm().w(), fro, k * fro)?;
    near("length", y.length().w(), fro, k * fro)?;
    near("vector_inf_norm", y.vector_inf_norm().w(), inf, 0.0)?;
    let p = *c.pick(&[1.0, 2.0, 3.0, 4.0, 1.5, 2.5]);
    c.note(&format!("p={}", p));
    let s = w.maxabs();
    let pn = if s == 0.0 { 0.0 } else { s * w.d.iter().map(|v| (v.abs() / s).powf(p)).sum::<f64>().powf(1.0 / p) };
    if s == 0.0 || s.powf(p) > 1e-30 {
        near("vector_p_norm", y.vector_p_norm(T::of(p)).w(), pn, 50.0 * k * pn)?;
    }
    ck!(*x.get_data() == a.d && x.rows() == m, "the matrix changed");
    if n > 1 {
        ck!(panics(|| x.vector_1_norm()), "vector_1_norm accepted {} columns", n);
        ck!(panics(|| x.vector_2_norm()), "vector_2_norm accepted {} columns", n);
        ck!(panics(|| x.vector_euclidean_norm()), "vector_euclidean_norm accepted {} columns", n);
        ck!(panics(|| x.length()), "length accepted {} columns", n);
        ck!(panics(|| x.vector_inf_norm()), "vector_inf_norm accepted {} columns", n);
        ck!(panics(|| x.vector_p_norm(T::of(2.0))), "vector_p_norm accepted {} columns", n);
    }
    Ok(())
}

fn close<T: Fl>(a: T, b: T) -> bool {
    // the fixed tolerance, in the element type's own arithmetic
    num::abs(a - b) < T::of(1.0e-6)
}
fn c12<T: Fl>(c: &mut Ctx) -> R {
    let (m, n) = c.shape_l(4, 7, 4300, 300);
    let a: M<T> = if c.chance(3) { vals(c, m, n) } else { M::by(m, n, |_, _| T::of(c.range(-2, 2) as f64)) };
    let x = a.la();
    c.note(&format!("{} A={}", T::NAME, a.show()));
    ck!(x.is_square() == (m == n), "is_square of {}x{}", m, n);
    ck!(x.is_not_square() == (m != n), "is_not_square of {}x{}", m, n);
    // a neighbour: the same elements, a few moved by about the tolerance
    let mut b = a.clone();
    for _ in 0..c.below(3) {
        let k = c.below(m * n);
        let d = *c.pick(&[1e-6, -1e-6, 0.9e-6, 1.1e-6, -1.1e-6, -0.5e-6, 1.0, -1.0, f64::NAN, 3e-6]);
        b.d[k] = b.d[k] + T::of(d);
    }
    c.note(&format!("B={}", b.show()));
    let want = (0..m * n).all(|k| close(a.d[k], b.d[k]));
    ck!(x.approx_eq(&b.la()) == want, "approx_eq is {}, expected {}", !want, want);
    let wantr = (0..m * n).all(|k| close(b.d[k], a.d[k]));
    ck!(b.la().approx_eq(&x) == wantr, "approx_eq (swapped) is {}, expected {}", !wantr, wantr);
    let e = T::of(*c.pick(&[1e-3, 1.0, 1e-7, 5.0]));
    for k in 0..m * n {
        let (p, q) = (a.d[k], b.d[k]);
        ck!(ApproxEq::approx_eq(&p, &q) == close(p, q), "approx_eq({:?},{:?})", p, q);
        ck!(p.approx_eq_eps(&q, &e) == (num::abs(p - q) < e), "approx_eq_eps({:?},{:?},{:?})", p, q, e);
    }
    // same elements in another shape
    if m != n {
        let s = M { r: n, c: m, d: a.d.clone() };
        ck!(!x.approx_eq(&s.la()), "approx_eq of {}x{} and {}x{}", m, n, n, m);
    }
    if m > 1 {
        let s = M { r: m - 1, c: n, d: a.d[..(m - 1) * n].to_vec() };
        ck!(!x.approx_eq(&s.la()) && !s.la().approx_eq(&x), "approx_eq of different heights");
    }
    // symmetry
    ck!(m == n || !x.is_symmetric(), "is_symmetric of {}x{}", m, n);
    ck!(x.is_non_symmetric() == !x.is_symmetric(), "is_non_symmetric");
    let k = m;
    let mut s = M::by(k, k, |i, j| a.d[(i.min(j) * 3 + i.max(j)) % (m * n)]);
    if c.chance(2) && k > 1 {
        let i = 1 + c.below(k - 1);
        let j = c.below(i);
        let d = *c.pick(&[0.5e-6, 0.9e-6, 1.2e-6, 1.0, -1.0, -1.2e-6]);
        if c.chance(2) {
            s.put(i, j, s.at(j, i) + T::of(d));
        } else {
            s.put(j, i, s.at(i, j) + T::of(d));
        }
    }
    let mut want = true;
    for i in 0..k {
        for j in 0..i {
            want = want && close(s.at(i, j), s.at(j, i));
        }
    }
    c.note(&format!("S={}", s.show()));
    ck!(s.la().is_symmetric() == want, "is_symmetric is {}, expected {}", !want, want);
    ck!(s.la().is_non_symmetric() == !want, "is_non_symmetric is {}, expected {}", want, !want);
    Ok(())
}

pub fn subs(v: &mut Vec<Sub>) {
    v.push(sub("C11", "norms-f64", c11::<f64>, 80));
    v.push(sub("C11", "norms-f32", c11::<f32>, 40));
    v.push(sub("C12", "predicates-f64", c12::<f64>, 120));
    v.push(sub("C12", "predicates-f32", c12::<f32>, 60));
}
