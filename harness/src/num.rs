//! Small reference numerics written independently of the code under test.
#![allow(dead_code)]
use aether_core::real::Real;

pub trait Fl: Real + Default + core::fmt::Display + Send + Sync + 'static + core::ops::AddAssign + core::ops::SubAssign {
    const E: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Fl for f32 {
    const E: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
}
impl Fl for f64 {
    const E: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
}

/// any exponent the type has, subnormals included
pub fn extreme<T: Fl>(s: &mut crate::engine::Src) -> T {
    let (lo, hi) = if T::E > 1e-10 { (-145, 127) } else { (-1060, 1023) };
    let e = s.irange(lo, hi) as i32;
    let m = 1.0 + s.unit();
    // in two factors: the power of two itself may be subnormal
    T::of(s.sgn() * m * 2f64.powi(e / 2) * 2f64.powi(e - e / 2))
}
/// comfortably inside the normal range of the type
pub fn normal<T: Fl>(x: f64) -> bool {
    let (lo, hi) = if T::E > 1e-10 { (1e-36, 1e38) } else { (1e-306, 1e307) };
    x.abs() > lo && x.abs() < hi
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    // NaN never agrees; equal infinities do
    a == b || (a - b).abs() <= tol
}
pub fn rel(a: f64, b: f64, tol: f64) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= tol * a.abs().max(b.abs())
}
pub fn rel1(a: f64, b: f64, tol: f64) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= tol * a.abs().max(b.abs()).max(1.0)
}
/// angular distance modulo 2 pi
pub fn adiff(a: f64, b: f64) -> f64 {
    let t = 2.0 * std::f64::consts::PI;
    let d = (a - b).rem_euclid(t);
    d.min(t - d)
}

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];
pub fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 { dot(a, a).sqrt() }
pub fn scale(a: V3, k: f64) -> V3 { [a[0] * k, a[1] * k, a[2] * k] }
pub fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn unit(a: V3) -> V3 { scale(a, 1.0 / norm(a)) }
pub fn mv(m: &M3, v: V3) -> V3 { [dot(m[0], v), dot(m[1], v), dot(m[2], v)] }
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..3 { r[i][j] += a[i][k] * b[k][j]; } } }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { r[i][j] = a[j][i]; } }
    r
}
pub fn det3(a: &M3) -> f64 { dot(a[0], cross(a[1], a[2])) }
pub const I3: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
pub fn mdiff(a: &M3, b: &M3) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..3 { for j in 0..3 {
        let e = (a[i][j] - b[i][j]).abs();
        if e.is_nan() { return f64::INFINITY }
        d = d.max(e);
    } }
    d
}
pub fn vdiff(a: V3, b: V3) -> f64 {
    let mut d: f64 = 0.0;
    for i in 0..3 {
        let e = (a[i] - b[i]).abs();
        if e.is_nan() { return f64::INFINITY }
        d = d.max(e);
    }
    d
}
/// passive elementary rotations (frame turns by +a about the axis)
pub fn rx(a: f64) -> M3 { let (s, c) = a.sin_cos(); [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]] }
pub fn ry(a: f64) -> M3 { let (s, c) = a.sin_cos(); [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]] }
pub fn rz(a: f64) -> M3 { let (s, c) = a.sin_cos(); [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]] }
/// active rotation of vectors by angle a about unit axis n (Rodrigues)
pub fn rodrigues(n: V3, a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    let k = 1.0 - c;
    let [x, y, z] = n;
    [
        [c + x * x * k, x * y * k - z * s, x * z * k + y * s],
        [y * x * k + z * s, c + y * y * k, y * z * k - x * s],
        [z * x * k - y * s, z * y * k + x * s, c + z * z * k],
    ]
}

// ---- general dense matrices as row vectors
pub type D = Vec<Vec<f64>>;
pub fn dmul(a: &D, b: &D) -> D {
    let (m, n, p) = (a.len(), b.len(), if b.is_empty() { 0 } else { b[0].len() });
    let mut r = vec![vec![0.0; p]; m];
    for i in 0..m { for j in 0..p { let mut s = 0.0; for k in 0..n { s += a[i][k] * b[k][j]; } r[i][j] = s; } }
    r
}
pub fn deye(n: usize) -> D {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}
pub fn dtr(a: &D) -> D {
    if a.is_empty() { return vec![] }
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
pub fn dnorm_inf(a: &D) -> f64 {
    a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}
/// inverse by full-pivoting Gauss-Jordan; None when singular to working precision
pub fn dinv(a: &D) -> Option<D> {
    let n = a.len();
    let mut m: D = a.iter().enumerate().map(|(i, r)| {
        let mut v = r.clone();
        v.extend((0..n).map(|j| if i == j { 1.0 } else { 0.0 }));
        v
    }).collect();
    let mut cols: Vec<usize> = (0..n).collect();
    let big = a.iter().flatten().fold(0.0f64, |x, y| x.max(y.abs()));
    for k in 0..n {
        let (mut pi, mut pj, mut pv) = (k, k, -1.0);
        for i in k..n { for j in k..n { if m[i][j].abs() > pv { pv = m[i][j].abs(); pi = i; pj = j; } } }
        if pv <= big * 1e-15 * n as f64 || pv == 0.0 { return None }
        m.swap(k, pi);
        if pj != k { for r in m.iter_mut() { r.swap(k, pj); } cols.swap(k, pj); }
        let d = m[k][k];
        for x in m[k].iter_mut() { *x /= d; }
        let row = m[k].clone();
        for i in 0..n { if i != k {
            let f = m[i][k];
            if f != 0.0 { for (x, y) in m[i].iter_mut().zip(&row) { *x -= f * y; } }
        } }
    }
    let mut r = vec![vec![0.0; n]; n];
    for i in 0..n { for j in 0..n { r[cols[i]][j] = m[i][n + j]; } }
    Some(r)
}
pub fn dcond(a: &D) -> f64 {
    match dinv(a) { Some(i) => dnorm_inf(a) * dnorm_inf(&i), None => f64::INFINITY }
}
/// determinant by fraction-free (Bareiss) elimination on integers: exact
pub fn det_int(a: &[Vec<i64>]) -> i128 {
    let n = a.len();
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let mut sign = 1i128;
    let mut prev = 1i128;
    for k in 0..n {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&i| m[i][k] != 0) {
                Some(i) => { m.swap(k, i); sign = -sign; }
                None => return 0,
            }
        }
        for i in k + 1..n { for j in k + 1..n {
            m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
        } }
        prev = m[k][k];
    }
    sign * m[n - 1][n - 1]
}
/// Gauss-Legendre nodes/weights on [-1,1]
pub fn gauss_legendre(n: usize) -> Vec<(f64, f64)> {
    let mut out = Vec::new();
    for i in 0..n {
        let mut x = (std::f64::consts::PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut dp = 0.0;
        for _ in 0..100 {
            let (mut p0, mut p1) = (1.0, x);
            for k in 2..=n {
                let p2 = ((2 * k - 1) as f64 * x * p1 - (k - 1) as f64 * p0) / k as f64;
                p0 = p1;
                p1 = p2;
            }
            dp = n as f64 * (x * p1 - p0) / (x * x - 1.0);
            let d = p1 / dp;
            x -= d;
            if d.abs() < 1e-16 { break }
        }
        out.push((x, 2.0 / ((1.0 - x * x) * dp * dp)));
    }
    out
}
