//! J01: the comparison helpers of the test-support crate.
use crate::engine::*;
use crate::{ensure, note};
use aether_core::attitude::Quaternion;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Body, ICRF};
use aether_test::assert::{coding::*, function::*, matrix::*, vector::*};
use std::cell::RefCell;

fn panics(f: impl FnOnce()) -> bool { guarded(f).is_err() }

fn value(s: &mut Src) -> f64 {
    match s.draw(19) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => s.draw(20) as f64 - 10.0,
        _ => s.sym(10.0),
    }
}
/// a partner of `x` at, just inside, just outside or far from the tolerance
fn partner(s: &mut Src, x: f64, tol: f64) -> f64 {
    let sg = if s.bool() { 1.0 } else { -1.0 };
    match s.draw(9) {
        0..=3 => x,
        4 => x + sg * tol,
        5 => x + sg * tol * 0.99,
        6 => x + sg * tol * 1.01,
        7 => x + sg * s.logf(1e-12, 1e6),
        8 => value(s),
        _ => x + sg * tol * s.f(0.0, 1.0),
    }
}
fn diff(x: f64, y: f64) -> f64 { (x - y).abs() }
fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }

fn tol(s: &mut Src) -> f64 { match s.draw(5) { 0 => 0.0, 1 => 1.0, 2 => 0.25, _ => s.logf(1e-14, 1e3) } }

fn draw_pair(s: &mut Src, n: usize) -> (Vec<f64>, Vec<f64>, f64) {
    let t = tol(s);
    let plain = s.bool();
    let mut a = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let x = if plain { s.sym(10.0) } else { value(s) };
        let y = partner(s, x, t);
        a.push(x);
        // whether equal infinities agree is not judged
        b.push(if x.is_infinite() && y == x { 1.0 } else { y });
    }
    s.nt(a.iter().zip(&b).any(|(x, y)| !(x == y)));
    s.label_if(a.iter().chain(&b).any(|x| x.is_nan()), "NaN present");
    s.label_if(a.iter().chain(&b).any(|x| x.is_infinite()), "infinity present");
    (a, b, t)
}
fn worst(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| diff(*x, *y)).fold(0.0, |m: f64, d| if m.is_nan() || d.is_nan() { f64::NAN } else if d > m { d } else { m })
}

fn worst_ignoring_nan(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| diff(*x, *y)).fold(0.0, f64::max) }

fn vectors<const N: usize>(s: &mut Src) -> R {
    let (av, bv, t) = draw_pair(s, N);
    let (mut x, mut y) = ([0.0; N], [0.0; N]);
    x.copy_from_slice(&av);
    y.copy_from_slice(&bv);
    let (a, b) = (Vector::new(x), Vector::new(y));
    note!(s, "{av:?} against {bv:?} tol {t:e}");
    let bad = av.iter().zip(&bv).position(|(x, y)| !(diff(*x, *y) <= t));
    s.label_if(bad.is_some(), "outside");
    match (vector_approx_eq(&a, &b, t), bad) {
        (Ok(()), None) => {}
        (Ok(()), Some(i)) => return Err(Fail::new(format!("accepted although element {i} differs: {} {} (tolerance {t:e})", av[i], bv[i]))),
        (Err(e), None) => return Err(Fail::new(format!("refused although every element is within {t:e}: {e:?}"))),
        (Err(VectorAssertError::ValueMismatch { index, left, right, .. }), Some(_)) => {
            ensure!(index < N && same(left, av[index]) && same(right, bv[index]) && !(diff(left, right) <= t), "reported element {index} ({left}, {right}) is not one that differs");
        }
        (Err(e), Some(_)) => return Err(Fail::new(format!("unexpected error {e:?}"))),
    }
    ensure!(panics(|| assert_vector_approx_eq(&a, &b, t)) == bad.is_some(), "assert_vector_approx_eq disagrees with vector_approx_eq");
    let (m, w) = (vector_max_abs_diff(&a, &b), worst(&av, &bv));
    if w.is_nan() && m == worst_ignoring_nan(&av, &bv) {
        s.finding("max-abs-diff-ignores-nan", format!("vector_max_abs_diff gives {m} although a difference is NaN"))?;
    } else {
        ensure!(same(m, w), "vector_max_abs_diff gives {m}, largest difference is {w}");
    }
    ensure!(panics(|| assert_vector_finite(&a)) == av.iter().any(|x| !x.is_finite()), "assert_vector_finite is wrong about {av:?}");
    Ok(())
}
fn vec_any(s: &mut Src) -> R {
    if s.chance(1, 40) { return vectors::<67>(s) }
    match s.draw(4) { 0 => vectors::<1>(s), 1 => vectors::<2>(s), 2 => vectors::<3>(s), 3 => vectors::<4>(s), _ => vectors::<7>(s) }
}

fn matrices<const M: usize, const N: usize>(s: &mut Src) -> R {
    let (av, bv, t) = draw_pair(s, M * N);
    let a = Matrix::<f64, M, N>::new(std::array::from_fn(|r| std::array::from_fn(|c| av[r * N + c])));
    let b = Matrix::<f64, M, N>::new(std::array::from_fn(|r| std::array::from_fn(|c| bv[r * N + c])));
    note!(s, "{M}x{N} {av:?} against {bv:?} tol {t:e}");
    let bad = av.iter().zip(&bv).position(|(x, y)| !(diff(*x, *y) <= t));
    s.label_if(bad.is_some(), "outside");
    match (matrix_approx_eq(&a, &b, t), bad) {
        (Ok(()), None) => {}
        (Ok(()), Some(i)) => return Err(Fail::new(format!("accepted although element {i} differs: {} {} (tolerance {t:e})", av[i], bv[i]))),
        (Err(e), None) => return Err(Fail::new(format!("refused although every element is within {t:e}: {e:?}"))),
        (Err(MatrixAssertError::ValueMismatch { row, col, left, right, .. }), Some(_)) => {
            ensure!(row < M && col < N && same(left, av[row * N + col]) && same(right, bv[row * N + col]) && !(diff(left, right) <= t), "reported element ({row},{col}) ({left}, {right}) is not one that differs");
        }
        (Err(e), Some(_)) => return Err(Fail::new(format!("unexpected error {e:?}"))),
    }
    ensure!(panics(|| assert_matrix_approx_eq(&a, &b, t)) == bad.is_some(), "assert_matrix_approx_eq disagrees with matrix_approx_eq");
    let (m, w) = (matrix_max_abs_diff(&a, &b), worst(&av, &bv));
    if w.is_nan() && m == worst_ignoring_nan(&av, &bv) {
        s.finding("max-abs-diff-ignores-nan", format!("matrix_max_abs_diff gives {m} although a difference is NaN"))?;
    } else {
        ensure!(same(m, w), "matrix_max_abs_diff gives {m}, largest difference is {w}");
    }
    ensure!(panics(|| assert_matrix_finite(&a)) == av.iter().any(|x| !x.is_finite()), "assert_matrix_finite is wrong about {av:?}");
    if av.iter().chain(&bv).all(|x| x.is_finite()) {
        let f = av.iter().map(|x| x * x).sum::<f64>().sqrt();
        let g = matrix_frobenius_norm(&a);
        ensure!((f - g).abs() <= 1e-13 * f, "matrix_frobenius_norm {g}, want {f}");
        let f = av.iter().zip(&bv).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
        let g = matrix_diff_frobenius(&a, &b);
        ensure!((f - g).abs() <= 1e-13 * f, "matrix_diff_frobenius {g}, want {f}");
    }
    Ok(())
}
fn mat_any(s: &mut Src) -> R {
    if s.chance(1, 40) { return matrices::<13, 18>(s) }
    match s.draw(5) { 0 => matrices::<1, 1>(s), 1 => matrices::<2, 2>(s), 2 => matrices::<2, 3>(s), 3 => matrices::<4, 2>(s), 4 => matrices::<1, 5>(s), _ => matrices::<5, 5>(s) }
}

fn symmetric<const N: usize>(s: &mut Src) -> R {
    let t = tol(s);
    let mut a = Matrix::<f64, N, N>::zeros();
    let mut ok = true;
    let mut off = 0;
    let few = s.bool();
    for i in 0..N {
        a.data[i][i] = s.sym(10.0);
        for j in i + 1..N {
            let x = if s.chance(1, 30) { f64::NAN } else { s.sym(10.0) };
            let y = if few && s.chance(3, 4) { x } else { partner(s, x, t) };
            if x.is_infinite() || y.is_infinite() { return Ok(()) }
            let (x, y) = if s.bool() { (x, y) } else { (y, x) };
            a.data[i][j] = x;
            a.data[j][i] = y;
            if !((x - y).abs() <= t) { ok = false; off += 1 }
        }
    }
    s.nt(true);
    s.label_if(off == 1, "exactly one pair outside");
    note!(s, "{:?} tol {t:e}", a.data);
    let refused = panics(|| assert_matrix_symmetric(&a, t));
    ensure!(refused != ok, "assert_matrix_symmetric {} a matrix that is {}symmetric within {t:e}", if refused { "refuses" } else { "accepts" }, if ok { "" } else { "not " });
    Ok(())
}
fn sym_any(s: &mut Src) -> R {
    if s.chance(1, 40) { return symmetric::<19>(s) }
    match s.draw(4) { 0 => symmetric::<1>(s), 1 => symmetric::<2>(s), 2 => symmetric::<3>(s), 3 => symmetric::<4>(s), _ => symmetric::<6>(s) }
}

fn grid(s: &mut Src) -> R {
    let m = *s.pick(&[1.0, 100.0]);
    let a = s.sym(m);
    let b = match s.draw(5) { 0 => a, 1 => a - s.logf(1e-3, 1e3), _ => a + s.logf(1e-3, 1e3) };
    let n = s.draw(30) as usize;
    let t = tol(s);
    // errors by node index: mostly nothing, a few bumps anywhere, sometimes NaN or infinite
    let mut e = vec![0.0; n + 1];
    for _ in 0..s.draw(3) {
        let i = s.draw(n as u64) as usize;
        e[i] = match s.draw(9) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => t, 3 => -t, 4 => 2.0 * t, _ => s.sym(2.0 * t) };
    }
    let base = s.bool();
    s.nt(e.iter().any(|x| *x != 0.0) && n > 1);
    note!(s, "[{a},{b}] n={n} tol={t:e} errors {e:?}");
    let seen = RefCell::new(vec![]);
    let seen1 = RefCell::new(vec![]);
    let f0 = |x: f64| { let k = seen.borrow().len(); seen.borrow_mut().push(x); if base { 0.0 } else { -e[k.min(n)] } };
    let f1 = |x: f64| { let k = seen1.borrow().len(); seen1.borrow_mut().push(x); if base { e[k.min(n)] } else { 0.0 } };
    let r = guarded(|| assert_max_abs_error_on_grid(f0, f1, a, b, n, t));
    if n == 0 {
        ensure!(r.is_err(), "zero samples accepted");
        return Ok(());
    }
    let big = e.iter().any(|x| x.is_infinite() && !t.is_finite());
    if big { return Ok(()) }
    let w = e.iter().fold(0.0, |m: f64, d| if m.is_nan() || d.is_nan() { f64::NAN } else { m.max(d.abs()) });
    let inside = w <= t;
    s.label_if(w.is_nan(), "NaN error");
    s.label_if(inside, "inside");
    // a NaN error among errors that are otherwise inside
    let rest = e.iter().fold(0.0, |m: f64, d| m.max(d.abs()));
    let nan_ignored = w.is_nan() && matches!(r, Ok((_, err)) if err == rest && rest <= t);
    if nan_ignored { s.finding("grid-ignores-nan", format!("assert_max_abs_error_on_grid accepts functions whose difference is NaN at a node (tolerance {t:e})"))?; }
    let (w, inside) = if nan_ignored { (rest, true) } else { (w, inside) };
    match r {
        Ok(_) if !inside => return Err(Fail::new(format!("accepted a largest error of {w} (tolerance {t:e})"))),
        Err(_) if inside => return Err(Fail::new(format!("refused a largest error of {w} (tolerance {t:e})"))),
        Err(_) => return Ok(()),
        Ok((x, err)) => {
            ensure!(err == w, "reports {err} as the largest error, it is {w}");
            for v in [seen.borrow(), seen1.borrow()] {
                ensure!(v.len() == n + 1, "{} nodes were evaluated for {n} samples", v.len());
                for (i, xi) in v.iter().enumerate() {
                    let want = a + (b - a) * (i as f64 / n as f64);
                    ensure!((xi - want).abs() <= 1e-13 * (a.abs() + b.abs()), "node {i} is {xi}, want {want}");
                }
            }
            if w > 0.0 {
                let at = seen.borrow().iter().zip(&e).any(|(v, d)| *v == x && d.abs() == w);
                ensure!(at, "reports the worst point at {x}, where the error is not {w}");
            }
        }
    }
    Ok(())
}

fn coding<const N: usize>(s: &mut Src) -> R {
    let v: Vector<f64, N> = Vector::new(std::array::from_fn(|_| match s.draw(5) { 0 => s.any_f64_bits(), _ => s.sym(10.0) }));
    if v.data.iter().any(|x| x.is_nan()) { return Ok(()) }
    s.nt(N > 0);
    note!(s, "{:?}", v.data);
    ensure!(!panics(|| assert_vector_equivalence(&v)), "round trip assertion fails on {:?}", v.data);
    let q: Quaternion<f64, ICRF<f64>, Body<f64>> = Quaternion::new(s.sym(1.0), s.sym(1.0), s.sym(1.0), s.sym(1.0));
    ensure!(!panics(|| assert_quaternion_equivalence(&q)), "quaternion round trip assertion fails");
    Ok(())
}
fn code_any(s: &mut Src) -> R {
    match s.draw(4) { 0 => coding::<1>(s), 1 => coding::<3>(s), 2 => coding::<16>(s), 3 => coding::<100>(s), _ => coding::<127>(s) }
}

pub fn register(r: &mut Registry) {
    r.add("J01", "vectors", 10_000, "element pairs at, just inside and outside the tolerance, NaN and infinities; non-trivial: some element differs", vec_any);
    r.add("J01", "matrices", 10_000, "same for matrices, with the norms", mat_any);
    r.add("J01", "symmetric", 10_000, "mirrored pairs at, inside and outside the tolerance; every case is non-trivial", sym_any);
    r.add("J01", "grid", 10_000, "prescribed errors at grid nodes, including NaN, infinite and at the tolerance; non-trivial: some error, several nodes", grid);
    r.add("J01", "coding", 2_000, "vectors of any element bits (no NaN) and quaternions; non-trivial: not empty", code_any);
}
