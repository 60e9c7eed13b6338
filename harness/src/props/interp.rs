//! G01 interpolation.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::math::Vector;
use aether_interp::{inverse_lerp, lerp, remap, CubicSpline, PolynomialInterpolator};

fn lerp_case(s: &mut Src) -> R {
    let m = *s.pick(&[1.0, 1e-3, 1e6]);
    let (a, b) = (s.sym(m), s.sym(m));
    let t = match s.draw(3) { 0 => 0.0, 1 => 1.0, 2 => s.f(0.0, 1.0), _ => s.sym(5.0) };
    note!(s, "a={a} b={b} t={t}");
    s.nt(a != b && t != 0.0 && t != 1.0);
    let tol = 1e-14 * (a.abs() + b.abs()) * (1.0 + t.abs());
    let y = lerp(a, b, t);
    ensure!(close(y, a * (1.0 - t) + b * t, tol), "lerp({a},{b},{t}) = {y}");
    if t == 0.0 { ensure!(y == a, "lerp at 0 is {y}, not {a}"); }
    // vectors component by component
    let va = [a, s.sym(m), s.sym(m), s.sym(m)];
    let vb = [b, s.sym(m), s.sym(m), s.sym(m)];
    let v = lerp(Vector::new(va), Vector::new(vb), t);
    for i in 0..4 {
        let tol = 1e-14 * (va[i].abs() + vb[i].abs()) * (1.0 + t.abs());
        ensure!(close(v[i], va[i] * (1.0 - t) + vb[i] * t, tol), "vector lerp component {i}: {} from {} {} at {t}", v[i], va[i], vb[i]);
    }
    // inverse
    if a == b {
        ensure!(inverse_lerp(a, b, s.sym(10.0)) == 0.0, "degenerate range does not give parameter 0");
        let o = s.sym(5.0);
        let q = remap(s.sym(10.0), a, b, o, s.sym(5.0));
        ensure!(q == o, "remap from a degenerate range gives {q}, not {o}");
        return Ok(());
    }
    if (b - a).abs() < 1e-9 * m { return Ok(()) }
    let x = a + (b - a) * t;
    let u = inverse_lerp(a, b, x);
    let cond = (a.abs() + b.abs()) * (1.0 + t.abs()) / (b - a).abs();
    ensure!(close(u, t, 1e-14 * cond + 1e-15), "inverse_lerp({a},{b},{x}) = {u}, expected {t}");
    ensure!(inverse_lerp(a, b, a) == 0.0 && inverse_lerp(a, b, b) == 1.0, "inverse_lerp at the ends is not 0 and 1");
    let w = s.sym(m);
    let back = lerp(a, b, inverse_lerp(a, b, w));
    let mag = a.abs() + b.abs() + w.abs();
    ensure!(close(back, w, 1e-13 * mag), "lerp(inverse_lerp({w})) = {back} on [{a},{b}]");
    let (c, d) = (s.sym(7.0), s.sym(7.0));
    let r = remap(w, a, b, c, d);
    let f = (w - a) / (b - a);
    let want = c + (d - c) * f;
    ensure!(close(r, want, 1e-13 * (c.abs() + d.abs()) * (1.0 + f.abs()) * (1.0 + mag / (b - a).abs())), "remap({w},[{a},{b}]->[{c},{d}]) = {r}, expected {want}");
    Ok(())
}

/// strictly increasing nodes
fn nodes(s: &mut Src, n: usize) -> Vec<f64> {
    let h = if s.chance(1, 20) { s.logf(1e-6, 1e8) } else { *s.pick(&[1.0, 0.01, 100.0]) };
    let mut x = s.sym(10.0) * h;
    let even = s.chance(1, 3);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(x);
        x += h * if even { 1.0 } else { s.logf(0.05, 20.0) };
    }
    v
}
fn values(s: &mut Src, n: usize) -> Vec<f64> {
    let m = if s.chance(1, 20) { s.logf(1e-12, 1e12) } else { *s.pick(&[1.0, 1e-4, 1e5]) };
    (0..n).map(|_| s.sym(m)).collect()
}
fn lagrange(xs: &[f64], x: f64) -> Vec<f64> {
    (0..xs.len()).map(|i| {
        let mut p = 1.0;
        for k in 0..xs.len() { if k != i { p *= (x - xs[k]) / (xs[i] - xs[k]); } }
        p
    }).collect()
}
fn poly_n<const N: usize>(s: &mut Src) -> R {
    let mut xs = nodes(s, N);
    // any order
    for i in (1..N).rev() { let j = s.range(0, i); xs.swap(i, j); }
    let coef: Vec<f64> = (0..N).map(|_| s.sym(3.0)).collect();
    let is_poly = s.bool();
    let c0 = xs.iter().sum::<f64>() / N.max(1) as f64;
    let w = xs.iter().fold(0.0f64, |a, x| a.max((x - c0).abs())).max(1e-9);
    let horner = |x: f64| coef.iter().rev().fold(0.0, |a, c| a * ((x - c0) / w) + c);
    let hmag = |x: f64| coef.iter().rev().fold(0.0, |a, c| a * ((x - c0) / w).abs() + c.abs());
    let ys: Vec<f64> = if is_poly { xs.iter().map(|&x| horner(x)).collect() } else { values(s, N) };
    note!(s, "N={N} xs={xs:?} ys={ys:?}");
    s.nt(N >= 3);
    let vx = Vector::new(core::array::from_fn::<f64, N, _>(|i| xs[i]));
    let vy = Vector::new(core::array::from_fn::<f64, N, _>(|i| ys[i]));
    let p = match PolynomialInterpolator::new(vx, vy) { Ok(p) => p, Err(e) => return Err(Fail::new(format!("distinct nodes refused: {e}"))) };
    ensure!(p.degree() == N - 1, "degree {} for {N} nodes", p.degree());
    for i in 0..N {
        let y = p.evaluate(xs[i]);
        ensure!(y == ys[i], "at node {} the interpolant gives {y}, data {}", xs[i], ys[i]);
    }
    let (lo, hi) = xs.iter().fold((f64::MAX, f64::MIN), |(a, b), &x| (a.min(x), b.max(x)));
    for _ in 0..4 {
        let span = (hi - lo).max(1.0);
        let x = s.f(lo - 0.3 * span, hi + 0.3 * span);
        if xs.iter().any(|k| (x - k).abs() <= 1e-12 * span) { continue }
        let l = lagrange(&xs, x);
        let (mut want, mut mag, mut leb) = (0.0, 0.0, 0.0);
        for i in 0..N { want += l[i] * ys[i]; mag += (l[i] * ys[i]).abs(); leb += l[i].abs(); }
        // beyond this the interpolation problem itself is hopeless in double precision
        if leb > 1e9 { continue }
        let y = p.evaluate(x);
        let tol = 1e-12 * (mag + leb * want.abs());
        ensure!(close(y, want, tol), "p({x}) = {y}, Lagrange form {want} (tol {tol:e})");
        if is_poly {
            let h = horner(x);
            let mut e = hmag(x);
            for i in 0..N { e += l[i].abs() * hmag(xs[i]); }
            ensure!(close(y, h, 1e-12 * (e + leb * h.abs())), "degree {} polynomial at {x}: {y}, true value {h}", N - 1);
        }
    }
    // refusal
    if N >= 2 {
        let (i, j) = (s.range(0, N - 1), s.range(0, N - 1));
        if i != j {
            let mut d = vx;
            d[i] = d[j];
            s.label("duplicate nodes refused");
            ensure!(PolynomialInterpolator::new(d, vy).is_err(), "duplicate node {} accepted", d[j]);
            let mut d = vx;
            d[i] = f64::NAN;
            ensure!(PolynomialInterpolator::new(d, vy).is_err(), "NaN node accepted");
        }
    }
    Ok(())
}
fn poly_case(s: &mut Src) -> R {
    if s.chance(1, 60) { return poly_n::<20>(s) }
    match s.draw(8) {
        0 => poly_n::<1>(s), 1 => poly_n::<2>(s), 2 => poly_n::<3>(s), 3 => poly_n::<4>(s), 4 => poly_n::<5>(s),
        5 => poly_n::<6>(s), 6 => poly_n::<8>(s), 7 => poly_n::<12>(s),
        _ => {
            ensure!(PolynomialInterpolator::<0>::new(Vector::new([]), Vector::new([])).is_err(), "no nodes accepted");
            Ok(())
        }
    }
}

/// second derivatives of the natural spline by dense elimination
fn natural(xs: &[f64], ys: &[f64]) -> Vec<f64> {
    let n = xs.len();
    let mut a = vec![vec![0.0; n + 1]; n];
    a[0][0] = 1.0;
    a[n - 1][n - 1] = 1.0;
    for i in 1..n - 1 {
        let (h0, h1) = (xs[i] - xs[i - 1], xs[i + 1] - xs[i]);
        a[i][i - 1] = if i == 1 { 0.0 } else { h0 / 6.0 }; // the end curvatures are zero
        a[i][i] = (h0 + h1) / 3.0;
        a[i][i + 1] = if i == n - 2 { 0.0 } else { h1 / 6.0 };
        a[i][n] = (ys[i + 1] - ys[i]) / h1 - (ys[i] - ys[i - 1]) / h0;
    }
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a[i][k].abs().partial_cmp(&a[j][k].abs()).unwrap()).unwrap();
        a.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            if f != 0.0 { for j in k..=n { a[i][j] -= f * a[k][j]; } }
        }
    }
    let mut m = vec![0.0; n];
    for k in (0..n).rev() {
        let mut t = a[k][n];
        for j in k + 1..n { t -= a[k][j] * m[j]; }
        m[k] = t / a[k][k];
    }
    m
}
fn spline_n<const N: usize>(s: &mut Src) -> R {
    let xs = nodes(s, N);
    let line = s.chance(1, 4);
    let (k0, k1) = (s.sym(5.0), s.sym(5.0));
    let ys: Vec<f64> = if line { xs.iter().map(|x| k0 + k1 * x).collect() } else { values(s, N) };
    note!(s, "N={N} xs={xs:?} ys={ys:?}");
    s.nt(N >= 4 && !line);
    s.label_if(line, "straight line");
    let vx = Vector::new(core::array::from_fn::<f64, N, _>(|i| xs[i]));
    let vy = Vector::new(core::array::from_fn::<f64, N, _>(|i| ys[i]));
    let sp = match CubicSpline::new(vx, vy) { Ok(p) => p, Err(e) => return Err(Fail::new(format!("increasing nodes refused: {e}"))) };
    ensure!(sp.sample_count() == N, "sample_count {} for {N}", sp.sample_count());
    let m = natural(&xs, &ys);
    let ymax = ys.iter().fold(0.0f64, |a, y| a.max(y.abs()));
    let slope = (1..N).fold(0.0f64, |a, i| a.max((ys[i].abs() + ys[i - 1].abs()) / (xs[i] - xs[i - 1])));
    let hmin = (1..N).fold(f64::MAX, |a, i| a.min(xs[i] - xs[i - 1]));
    let dm = slope / hmin; // scale of the curvature data, for rounding
    let span = xs[N - 1] - xs[0];
    let mut order: Vec<f64> = Vec::new();
    for i in 0..N { order.push(xs[i]); }
    for _ in 0..5 { let x = s.f(xs[0] - 0.5 * span, xs[N - 1] + 0.5 * span); order.push(x); }
    for i in (1..order.len()).rev() { let j = s.range(0, i); order.swap(i, j); }
    for &x in &order {
        let mut i = 0;
        while i + 2 < N && x > xs[i + 1] { i += 1 }
        let h = xs[i + 1] - xs[i];
        // Taylor form from the left node
        let t = x - xs[i];
        let b1 = (ys[i + 1] - ys[i]) / h - h * (2.0 * m[i] + m[i + 1]) / 6.0;
        let want = ys[i] + t * (b1 + t * (m[i] / 2.0 + t * (m[i + 1] - m[i]) / (6.0 * h)));
        let r = 1.0 + (t / h).abs();
        let tol = 1e-12 * (ymax * r + dm * h * h * r * r * r);
        let y = sp.evaluate(x);
        ensure!(close(y, want, tol), "s({x}) = {y}, natural spline {want} (tol {tol:e})");
        if let Some(j) = xs.iter().position(|k| *k == x) {
            ensure!(close(y, ys[j], 1e-12 * (ymax + dm * h * h)), "at node {x} the spline gives {y}, data {}", ys[j]);
        }
        if line {
            let w = k0 + k1 * x;
            ensure!(close(y, w, tol + 1e-12 * (k0.abs() + (k1 * x).abs())), "straight line at {x}: {y} instead of {w}");
        }
    }
    // refusal of unordered, duplicate and undefined nodes
    let i = s.range(0, N - 2);
    let mut d = vx;
    match s.draw(2) {
        0 => d[i + 1] = d[i],
        1 => { let t = d[i]; d[i] = d[i + 1]; d[i + 1] = t; }
        _ => d[i] = f64::NAN,
    }
    ensure!(CubicSpline::new(d, vy).is_err(), "nodes {d:?} accepted");
    Ok(())
}
fn spline_case(s: &mut Src) -> R {
    if s.chance(1, 60) { return if s.bool() { spline_n::<40>(s) } else { spline_n::<65>(s) } }
    match s.draw(8) {
        0 => spline_n::<2>(s), 1 => spline_n::<3>(s), 2 => spline_n::<4>(s), 3 => spline_n::<5>(s), 4 => spline_n::<6>(s),
        5 => spline_n::<7>(s), 6 => spline_n::<10>(s), 7 => spline_n::<16>(s),
        _ => {
            ensure!(CubicSpline::<1>::new(Vector::new([0.0]), Vector::new([1.0])).is_err(), "one node accepted");
            ensure!(guarded(|| CubicSpline::<0>::new(Vector::new([]), Vector::new([])).is_err()) == Ok(true), "no nodes accepted");
            Ok(())
        }
    }
}

pub fn register(r: &mut Registry) {
    r.add("G01", "lerp", 200, "distinct ends and an interior or outside parameter", lerp_case);
    r.add("G01", "polynomial", 100, "at least three nodes", poly_case);
    r.add("G01", "spline", 100, "at least four nodes, not on a line", spline_case);
}
