//! H01 sample moments, H02 distributions.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::math::{Matrix, Vector};
use aether_rand::randomizers::XorShift64Star;
use aether_stats::*;
use std::f64::consts::PI;

fn v<T: Fl, const N: usize>(a: &[f64]) -> Vector<T, N> { Vector::new(core::array::from_fn(|i| T::of(a[i]))) }
fn mat<T: Fl, const N: usize, const M: usize>(a: &D) -> Matrix<T, N, M> { Matrix { data: core::array::from_fn(|i| core::array::from_fn(|j| T::of(a[i][j]))) } }

struct Set { x: D, max: Vec<f64>, dev: Vec<f64>, mean: Vec<f64> }
fn set<T: Fl>(s: &mut Src, n: usize, dim: usize) -> Set {
    let mut x: D = vec![];
    // now and then in units far from one
    let unit = if s.chance(1, 20) { if T::E < 1e-10 { s.logf(1e-9, 1e9) } else { s.logf(1e-4, 1e6) } } else { 1.0 };
    s.label_if(unit != 1.0, "very large or small units");
    let off: Vec<f64> = (0..dim).map(|_| if s.bool() { unit * s.sym(50.0) } else { 0.0 }).collect();
    let sc: Vec<f64> = (0..dim).map(|_| unit * *s.pick(&[1.0, 0.1, 30.0])).collect();
    let style = s.draw(3);
    let lag = s.f(-1.0, 1.0);
    for _ in 0..n {
        let mut r: Vec<f64> = (0..dim).map(|i| off[i] + match style { 0 => s.irange(-3, 3) as f64, _ => s.sym(1.0) * sc[i] }).collect();
        if style == 2 && dim > 1 { r[1] = off[1] + lag * (r[0] - off[0]) + s.sym(0.1) * sc[1]; }
        for t in r.iter_mut() { *t = T::of(*t).f(); }
        x.push(r);
    }
    let mean: Vec<f64> = (0..dim).map(|i| {
        // compensated sum
        let (mut a, mut c) = (0.0f64, 0.0f64);
        for r in &x { let t = a + r[i]; c += if a.abs() >= r[i].abs() { (a - t) + r[i] } else { (r[i] - t) + a }; a = t; }
        (a + c) / n.max(1) as f64
    }).collect();
    let max = (0..dim).map(|i| x.iter().fold(0.0f64, |a, r| a.max(r[i].abs()))).collect();
    let dev = (0..dim).map(|i| x.iter().fold(0.0f64, |a, r| a.max((r[i] - mean[i]).abs()))).collect();
    Set { x, max, dev, mean }
}
fn cross_ref(a: &Set, b: &Set, i: usize, j: usize) -> f64 {
    let n = a.x.len();
    let mut t = 0.0;
    for k in 0..n { t += (a.x[k][i] - a.mean[i]) * (b.x[k][j] - b.mean[j]); }
    t / (n as f64 - 1.0)
}
fn cov_tol(e: f64, n: usize, a: &Set, i: usize, b: &Set, j: usize) -> f64 {
    let n = n as f64 + 2.0;
    let (da, db) = (n * e * a.max[i], n * e * b.max[j]);
    4.0 * (n * e * a.dev[i] * b.dev[j] + da * b.dev[j] + db * a.dev[i] + da * db) * 2.0
}
fn moments_n<T: Fl, const N: usize, const M: usize>(s: &mut Src) -> R {
    let n = *s.pick(&[2usize, 3, 5, 1, 0, 8, 20, 40]);
    let n = if n == 40 { s.range(2, 60) } else { n };
    let a = set::<T>(s, n, N);
    let b = set::<T>(s, n, M);
    let e = T::E;
    note!(s, "{} x={:?} y={:?}", T::NAME, a.x, b.x);
    s.nt(n >= 3);
    let xs: Vec<Vector<T, N>> = a.x.iter().map(|r| v(r)).collect();
    let ys: Vec<Vector<T, M>> = b.x.iter().map(|r| v(r)).collect();
    // errors
    if n == 0 {
        ensure!(mean::<T, N>(&xs) == Err(CovarianceError::EmptySamples) && sample_covariance::<T, N>(&xs).err() == Some(CovarianceError::EmptySamples), "no samples accepted");
        ensure!(sample_cross_covariance(&xs, &ys).err() == Some(CovarianceError::EmptySamples), "no samples accepted");
        return Ok(());
    }
    let longer: Vec<Vector<T, M>> = ys.iter().copied().chain([ys[0]]).collect();
    ensure!(sample_cross_covariance(&xs, &longer).err() == Some(CovarianceError::SampleCountMismatch), "{n} against {} samples accepted", n + 1);
    ensure!(sample_cross_covariance(&longer, &xs).err() == Some(CovarianceError::SampleCountMismatch), "{} against {n} samples accepted", n + 1);
    let m = match mean(&xs) { Ok(m) => m, Err(x) => return Err(Fail::new(format!("mean refused: {x:?}"))) };
    for i in 0..N {
        ensure!(close(m[i].f(), a.mean[i], (n as f64 + 2.0) * e * a.max[i]), "mean component {i}: {}, sum over count {}", m[i], a.mean[i]);
    }
    if n == 1 {
        ensure!(sample_covariance(&xs).err() == Some(CovarianceError::InsufficientSamples) && sample_cross_covariance(&xs, &ys).err() == Some(CovarianceError::InsufficientSamples), "a single sample accepted");
        return Ok(());
    }
    let c = sample_covariance(&xs).map_err(|x| Fail::new(format!("covariance refused: {x:?}")))?;
    let k = sample_cross_covariance(&xs, &ys).map_err(|x| Fail::new(format!("cross-covariance refused: {x:?}")))?;
    let kt = sample_cross_covariance(&ys, &xs).map_err(|x| Fail::new(format!("cross-covariance refused: {x:?}")))?;
    let cc = sample_cross_covariance(&xs, &xs).map_err(|x| Fail::new(format!("cross-covariance refused: {x:?}")))?;
    for i in 0..N {
        for j in 0..N {
            let (w, tol) = (cross_ref(&a, &a, i, j), cov_tol(e, n, &a, i, &a, j));
            ensure!(close(c.data[i][j].f(), w, tol), "covariance [{i}][{j}] = {}, definition {w} (tol {tol:e})", c.data[i][j]);
            ensure!(close(c.data[i][j].f(), c.data[j][i].f(), tol), "covariance not symmetric");
            ensure!(close(cc.data[i][j].f(), w, tol), "cross-covariance of x with itself [{i}][{j}] = {}, covariance {w}", cc.data[i][j]);
        }
        for j in 0..M {
            let (w, tol) = (cross_ref(&a, &b, i, j), cov_tol(e, n, &a, i, &b, j));
            ensure!(close(k.data[i][j].f(), w, tol), "cross-covariance [{i}][{j}] = {}, definition {w}", k.data[i][j]);
            ensure!(close(kt.data[j][i].f(), w, tol), "cross-covariance of (y,x) is not the transpose at [{j}][{i}]: {} against {w}", kt.data[j][i]);
        }
    }
    // positive semidefinite
    for _ in 0..2 {
        let z: Vec<f64> = (0..N).map(|_| s.sym(1.0)).collect();
        let (mut q, mut t) = (0.0, 0.0);
        for i in 0..N { for j in 0..N { q += z[i] * c.data[i][j].f() * z[j]; t += (z[i] * z[j]).abs() * cov_tol(e, n, &a, i, &a, j); } }
        ensure!(q >= -t, "covariance is not positive semidefinite: {q}");
    }
    // shift and axis scaling
    let sh: Vec<f64> = (0..N).map(|_| s.irange(-16, 16) as f64).collect();
    let ax = s.range(0, N - 1);
    let f = *s.pick(&[2.0, -1.0, 0.5, -4.0]);
    let mut xs2 = xs.clone();
    for r in xs2.iter_mut() { for i in 0..N { r[i] = T::of((r[i].f() + sh[i]) * if i == ax { f } else { 1.0 }); } }
    let c2 = sample_covariance(&xs2).map_err(|x| Fail::new(format!("covariance refused: {x:?}")))?;
    for i in 0..N { for j in 0..N {
        let g = (if i == ax { f } else { 1.0 }) * (if j == ax { f } else { 1.0 });
        let mut big = Set { x: vec![], max: a.max.clone(), dev: a.dev.clone(), mean: vec![] };
        for q in 0..N { big.max[q] += sh[q].abs(); }
        let tol = 2.0 * cov_tol(e, n, &big, i, &big, j) * g.abs();
        ensure!(close(c2.data[i][j].f(), g * c.data[i][j].f(), tol), "after shifting by {sh:?} and scaling axis {ax} by {f}: [{i}][{j}] = {}, expected {}", c2.data[i][j], g * c.data[i][j].f());
    } }
    // correlation
    let var: Vec<f64> = (0..N).map(|i| c.data[i][i].f()).collect();
    if var.iter().any(|x| *x == 0.0) {
        s.label("axis without variance");
        ensure!(correlation_from_covariance(&c).err() == Some(CovarianceError::ZeroVarianceAxis) && standard_deviations_from_covariance(&c).err() == Some(CovarianceError::ZeroVarianceAxis), "axis without variance accepted");
    } else if var.iter().all(|x| *x > 1e3 * e) {
        roundtrip::<T, N>(s, &c, true)?;
    }
    Ok(())
}
fn roundtrip<T: Fl, const N: usize>(_s: &mut Src, c: &Matrix<T, N, N>, sampled: bool) -> R {
    let e = T::E;
    let sd = standard_deviations_from_covariance(c).map_err(|x| Fail::new(format!("standard deviations of {c:?} refused: {x:?}")))?;
    let r = correlation_from_covariance(c).map_err(|x| Fail::new(format!("correlation of {c:?} refused: {x:?}")))?;
    let back = covariance_from_correlation(&r, &sd);
    for i in 0..N {
        let w = c.data[i][i].f().sqrt();
        ensure!(close(sd[i].f(), w, 4.0 * e * w), "standard deviation {i}: {}, root of the variance {w}", sd[i]);
        ensure!(close(r.data[i][i].f(), 1.0, 8.0 * e), "diagonal correlation {}", r.data[i][i]);
        for j in 0..N {
            let w = c.data[i][j].f() / (c.data[i][i].f() * c.data[j][j].f()).sqrt();
            ensure!(close(r.data[i][j].f(), w, 16.0 * e * w.abs().max(1e-30)), "correlation [{i}][{j}] = {}, expected {w}", r.data[i][j]);
            // n-sample rounding can exceed one by a little
            if sampled { ensure!(r.data[i][j].f().abs() <= 1.0 + 1e3 * e, "correlation {} outside [-1,1]", r.data[i][j]); }
            ensure!(close(back.data[i][j].f(), c.data[i][j].f(), 32.0 * e * c.data[i][j].f().abs()), "back from correlation [{i}][{j}] = {}, covariance {}", back.data[i][j], c.data[i][j]);
        }
    }
    Ok(())
}
fn moments(s: &mut Src) -> R {
    if s.chance(1, 40) { return moments_n::<f64, 11, 9>(s) }
    match s.draw(5) {
        0 => moments_n::<f64, 1, 1>(s), 1 => moments_n::<f64, 2, 3>(s), 2 => moments_n::<f64, 3, 2>(s), 3 => moments_n::<f64, 4, 1>(s),
        4 => moments_n::<f32, 2, 2>(s), _ => moments_n::<f32, 3, 1>(s),
    }
}
fn corr_n<T: Fl, const N: usize>(s: &mut Src) -> R {
    // an explicit covariance: B B^T with scales
    let b: D = (0..N).map(|_| (0..N).map(|_| s.sym(1.0)).collect()).collect();
    let top = if T::E < 1e-10 { 1e12 } else { 1e8 };
    let sc: Vec<f64> = (0..N).map(|_| if s.chance(1, 10) { s.logf(0.05, top) } else { s.logf(0.05, 1e3) }).collect();
    let mut c = dmul(&b, &dtr(&b));
    for i in 0..N { c[i][i] += 0.1; }
    for i in 0..N { for j in 0..N { c[i][j] *= sc[i] * sc[j]; } }
    let mut m = mat::<T, N, N>(&c);
    for i in 0..N { for j in 0..i { m.data[i][j] = m.data[j][i]; } }
    note!(s, "{} {m:?}", T::NAME);
    s.nt(N > 1);
    roundtrip::<T, N>(s, &m, true)?;
    // no or negative variance
    let i = s.range(0, N - 1);
    m.data[i][i] = T::of(*s.pick(&[0.0, -1.0, -1e-3]));
    ensure!(standard_deviations_from_covariance(&m).err() == Some(CovarianceError::ZeroVarianceAxis) && correlation_from_covariance(&m).err() == Some(CovarianceError::ZeroVarianceAxis), "variance {} accepted", m.data[i][i]);
    // correlation and deviations chosen freely
    let sd: Vec<f64> = (0..N).map(|_| T::of(if s.chance(1, 10) { s.logf(1e-9, 1e9) } else { s.logf(1e-2, 1e2) }).f()).collect();
    let r: D = (0..N).map(|i| (0..N).map(|j| if i == j { 1.0 } else { T::of(s.f(-1.0, 1.0)).f() }).collect()).collect();
    let k = covariance_from_correlation(&mat::<T, N, N>(&r), &v::<T, N>(&sd));
    for i in 0..N { for j in 0..N {
        let w = r[i][j] * sd[i] * sd[j];
        ensure!(close(k.data[i][j].f(), w, 8.0 * T::E * w.abs()), "covariance [{i}][{j}] = {} from correlation {} and deviations {} {}", k.data[i][j], r[i][j], sd[i], sd[j]);
    } }
    Ok(())
}
fn corr(s: &mut Src) -> R {
    if s.chance(1, 40) { return corr_n::<f64, 11>(s) }
    match s.draw(4) { 0 => corr_n::<f64, 1>(s), 1 => corr_n::<f64, 2>(s), 2 => corr_n::<f64, 3>(s), 3 => corr_n::<f64, 5>(s), _ => corr_n::<f32, 3>(s) }
}

// ------------------------------------------------------------------ H02
fn npdf(x: f64, mu: f64, sd: f64) -> f64 { let z = (x - mu) / sd; (-0.5 * z * z).exp() / (sd * (2.0 * PI).sqrt()) }
fn gauss_t<T: Fl>(s: &mut Src) -> R {
    let unit = if s.chance(1, 20) { s.logf(1e-9, 1e9) } else { 1.0 };
    s.label_if(unit != 1.0, "very large or small units");
    let mu = T::of(unit * s.sym(20.0)).f();
    let sd = T::of(unit * s.logf(1e-2, 1e2)).f();
    note!(s, "{} N({mu}, {sd}^2)", T::NAME);
    s.nt(mu != 0.0 && sd != 1.0);
    let g = Gaussian::<T>::new(T::of(mu), T::of(sd));
    for _ in 0..4 {
        let z = s.sym(8.0);
        let x = T::of(mu + z * sd).f();
        let p = g.pdf(T::of(x)).f();
        let w = npdf(x, mu, sd);
        let zz = (x - mu) / sd;
        let t = (20.0 + 8.0 * zz * zz) * T::E * w + if T::E > 1e-10 { 1e-37 } else { 0.0 };
        ensure!(p >= 0.0 && close(p, w, t), "pdf({x}) = {p}, closed form {w}");
        let y = T::of(2.0 * mu - x).f();
        if y - mu == mu - x { ensure!(close(g.pdf(T::of(y)).f(), p, t), "density is not symmetric about the mean"); }
    }
    // total mass, mean and variance by the (spectrally accurate) trapezoid rule
    let h = sd / 4.0;
    let (mut m0, mut m1, mut m2) = (0.0, 0.0, 0.0);
    for k in -40..=40 {
        let x = T::of(mu + k as f64 * h).f();
        let p = g.pdf(T::of(x)).f() * h;
        m0 += p;
        m1 += p * (x - mu) / sd;
        m2 += p * ((x - mu) / sd).powi(2);
    }
    let tol = 1e-12 + 300.0 * T::E * (1.0 + mu.abs() / sd);
    ensure!(close(m0, 1.0, tol) && close(m1, 0.0, tol) && close(m2, 1.0, 3.0 * tol), "total mass {m0}, mean offset {m1}, variance ratio {m2}");
    // maximum likelihood
    let n = s.range(1, 25);
    let x: Vec<f64> = (0..n).map(|_| T::of(mu + sd * s.sym(3.0)).f()).collect();
    let fit = Gaussian::<T>::fit_mle(&x.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
    let m = x.iter().sum::<f64>() / n as f64;
    let var = x.iter().map(|x| (x - m).powi(2)).sum::<f64>() / n as f64;
    let big = x.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let nn = n as f64 + 4.0;
    ensure!(close(fit.mu.f(), m, nn * T::E * big), "fitted mean {} of {x:?}, expected {m}", fit.mu);
    let sdw = var.sqrt();
    ensure!(fit.sigma.f() > 0.0 && close(fit.sigma.f(), sdw, 4.0 * nn * T::E * (big + sdw) + 1.1 * T::E), "fitted deviation {} of {x:?}, maximum likelihood gives {sdw}", fit.sigma);
    if sdw > 1e-3 * big && sdw > 100.0 * T::E && n > 1 {
        s.label("likelihood compared");
        let ll = |mu: f64, sd: f64| x.iter().map(|x| -(sd.ln()) - 0.5 * ((x - mu) / sd).powi(2)).sum::<f64>();
        let best = ll(fit.mu.f(), fit.sigma.f());
        let (dm, ds) = (s.sgn() * s.logf(0.01, 1.0) * sdw, (s.sgn() * s.logf(0.01, 0.7)).exp());
        let noise = 1e3 * T::E * nn * (1.0 + best.abs()) * (1.0 + big / sdw);
        for (a, b) in [(dm, 1.0), (0.0, ds), (dm, ds)] {
            let o = ll(fit.mu.f() + a, fit.sigma.f() * b);
            ensure!(o <= best + noise, "parameters {} {} are more likely ({o}) than the fit {} {} ({best}) for {x:?}", fit.mu.f() + a, fit.sigma.f() * b, fit.mu, fit.sigma);
        }
    }
    let e = Gaussian::<T>::fit_mle(&[]);
    ensure!(e.sigma.f() > 0.0 && e.mu.f().is_finite(), "fit of no samples is not a distribution: {e:?}");
    Ok(())
}
fn gauss(s: &mut Src) -> R { if s.chance(1, 3) { gauss_t::<f32>(s) } else { gauss_t::<f64>(s) } }
fn discrete(s: &mut Src) -> R {
    let p = s.f(0.0, 1.0);
    let b = Bernoulli::<f64>::new(p);
    ensure!(b.pmf(1) == p && close(b.pmf(0), 1.0 - p, 1e-16), "bernoulli({p}): {} {}", b.pmf(0), b.pmf(1));
    let x = s.range(2, 255) as u8;
    ensure!(b.pmf(x) == 0.0, "bernoulli({p}) gives {x} the probability {}", b.pmf(x));
    let tot: f64 = (0..=255u8).map(|k| b.pmf(k)).sum();
    ensure!(close(tot, 1.0, 1e-15), "bernoulli({p}) sums to {tot}");
    let n = s.range(1, 40);
    let xs: Vec<u8> = (0..n).map(|_| s.chance(1, 3) as u8).collect();
    let ones = xs.iter().filter(|x| **x == 1).count();
    note!(s, "p={p} samples={xs:?}");
    s.nt(ones > 0 && ones < n);
    let w = ones as f64 / n as f64;
    let f = Bernoulli::<f64>::fit_mle(&xs);
    ensure!(close(f.p, w, 1e-15), "bernoulli fit of {ones}/{n}: {}", f.p);
    let f32fit = Bernoulli::<f32>::fit_mle(&xs);
    ensure!(close(f32fit.p as f64, w, 1e-6), "bernoulli fit of {ones}/{n} in f32: {}", f32fit.p);
    let e = Bernoulli::<f64>::fit_mle(&[]);
    ensure!((0.0..=1.0).contains(&e.p), "fit of no samples: {}", e.p);
    // many samples: more than a byte can count
    if s.chance(1, 20) {
        let m = s.range(200, 3000);
        let f = Bernoulli::<f64>::fit_mle(&vec![1u8; m]);
        ensure!(f.p == 1.0, "fit of {m} ones: {}", f.p);
    }
    // categorical
    let k = s.range(1, 8);
    let counts: Vec<usize> = (0..k).map(|_| if s.chance(1, 4) { 0 } else { s.range(0, 1000) }).collect();
    let total: usize = counts.iter().sum();
    if total > 0 {
        let c = Categorical::<f64>::fit_mle(&counts);
        let mut sum = 0.0;
        for (i, n) in counts.iter().enumerate() {
            let w = *n as f64 / total as f64;
            ensure!(close(c.pmf(i), w, 1e-15), "category {i} of {counts:?}: {}, expected {w}", c.pmf(i));
            sum += c.pmf(i);
        }
        ensure!(close(sum, 1.0, 1e-14), "fit of {counts:?} sums to {sum}");
        let out = k + s.range(0, 5);
        ensure!(c.pmf(out) == 0.0, "category {out} of {k} has probability {}", c.pmf(out));
        // no other distribution is more likely
        let mut q: Vec<f64> = (0..k).map(|_| s.logf(1e-3, 1.0)).collect();
        let t: f64 = q.iter().sum();
        for z in q.iter_mut() { *z /= t; }
        let ll = |p: &dyn Fn(usize) -> f64| counts.iter().enumerate().filter(|(_, n)| **n > 0).map(|(i, n)| *n as f64 * p(i).ln()).sum::<f64>();
        let (a, o) = (ll(&|i| c.pmf(i)), ll(&|i| q[i]));
        ensure!(o <= a + 1e-9 * a.abs() + 1e-9, "{q:?} is more likely than the fit for {counts:?}");
    }
    Ok(())
}
/// lower Cholesky factor
fn chol(a: &D) -> Option<D> {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n { for j in 0..=i {
        let mut t = a[i][j];
        for k in 0..j { t -= l[i][k] * l[j][k]; }
        if i == j { if t <= 0.0 { return None } l[i][i] = t.sqrt(); } else { l[i][j] = t / l[j][j]; }
    } }
    Some(l)
}
fn mvn_n<T: Fl, const N: usize>(s: &mut Src) -> R {
    let diag = s.chance(1, 4);
    let unit = if s.chance(1, 20) { s.logf(if T::E < 1e-10 { 1e-9 } else { 0.01 }, if T::E < 1e-10 { 1e6 } else { 1e2 }) } else { 1.0 };
    let sc: Vec<f64> = (0..N).map(|_| unit * s.logf(0.1, 10.0)).collect();
    let b: D = (0..N).map(|i| (0..N).map(|j| if i == j { 1.0 } else if j < i && !diag { s.sym(0.8) } else { 0.0 }).collect()).collect();
    let mut c = dmul(&b, &dtr(&b));
    for i in 0..N { for j in 0..N { c[i][j] = T::of(c[i][j] * sc[i] * sc[j]).f(); } }
    for i in 0..N { for j in 0..i { c[i][j] = c[j][i]; } }
    let mu: Vec<f64> = (0..N).map(|_| T::of(unit * s.sym(5.0)).f()).collect();
    note!(s, "{} mean={mu:?} cov={c:?}", T::NAME);
    s.nt(N > 1 && !diag);
    s.label_if(diag, "diagonal");
    let cond = dcond(&c);
    if cond * T::E > 1e-3 { return Ok(()) }
    let l = match chol(&c) { Some(l) => l, None => return Ok(()) };
    let d = MultivariateNormal::<T, N>::new(v(&mu), mat(&c));
    let logdet: f64 = (0..N).map(|i| 2.0 * l[i][i].ln()).sum();
    for _ in 0..3 {
        let z: Vec<f64> = (0..N).map(|_| s.sym(2.0)).collect();
        let x: Vec<f64> = (0..N).map(|i| T::of(mu[i] + (0..=i).map(|k| l[i][k] * z[k]).sum::<f64>()).f()).collect();
        // Mahalanobis distance by forward substitution
        let mut y = vec![0.0; N];
        for i in 0..N { let mut t = x[i] - mu[i]; for k in 0..i { t -= l[i][k] * y[k]; } y[i] = t / l[i][i]; }
        let q: f64 = y.iter().map(|t| t * t).sum();
        let w = (-0.5 * q - 0.5 * logdet - 0.5 * N as f64 * (2.0 * PI).ln()).exp();
        let p = d.pdf(&v(&x)).f();
        let tol = w * T::E * (100.0 * N as f64) * (1.0 + q) * (1.0 + cond);
        ensure!(p >= 0.0 && close(p, w, tol), "pdf({x:?}) = {p}, closed form {w} (tol {tol:e})");
        if diag {
            let w: f64 = (0..N).map(|i| npdf(x[i], mu[i], c[i][i].sqrt())).product();
            ensure!(close(p, w, tol), "diagonal covariance: {p}, product of the marginals {w}");
        }
        // change of variables with powers of two and a permutation (exact)
        let k: Vec<f64> = (0..N).map(|_| *s.pick(&[2.0, 0.5, -1.0, 4.0])).collect();
        let r = s.range(0, N - 1);
        let pi = |i: usize| (i + r) % N;
        let c2: D = (0..N).map(|i| (0..N).map(|j| c[pi(i)][pi(j)] * k[i] * k[j]).collect()).collect();
        let mu2: Vec<f64> = (0..N).map(|i| mu[pi(i)] * k[i]).collect();
        let x2: Vec<f64> = (0..N).map(|i| x[pi(i)] * k[i]).collect();
        let p2 = MultivariateNormal::<T, N>::new(v(&mu2), mat(&c2)).pdf(&v(&x2)).f();
        let jac: f64 = k.iter().map(|t| t.abs()).product();
        ensure!(close(p2 * jac, p, 2.0 * tol * 40.0), "density after scaling the axes by {k:?} and rotating them by {r}: {p2} x {jac}, before {p}");
    }
    // total mass on a grid
    if N <= 2 && T::E < 1e-10 && s.chance(1, 8) {
        let mut tot = 0.0;
        let h = 0.5;
        let m = 18i32;
        for i in -m..=m { for j in if N == 2 { -m..=m } else { 0..=0 } {
            let z = [i as f64 * h, j as f64 * h];
            let x: Vec<f64> = (0..N).map(|a| mu[a] + (0..=a).map(|k| l[a][k] * z[k]).sum::<f64>()).collect();
            tot += d.pdf(&v(&x)).f() * h.powi(N as i32);
        } }
        tot *= (0..N).map(|i| l[i][i]).product::<f64>();
        s.label("integrated");
        ensure!(close(tot, 1.0, 1e-7), "total mass {tot}");
    }
    Ok(())
}
fn mvn(s: &mut Src) -> R {
    if s.chance(1, 40) { return mvn_n::<f64, 9>(s) }
    match s.draw(4) { 0 => mvn_n::<f64, 1>(s), 1 => mvn_n::<f64, 2>(s), 2 => mvn_n::<f64, 3>(s), 3 => mvn_n::<f64, 4>(s), _ => mvn_n::<f32, 2>(s) }
}
fn sampling(s: &mut Src) -> R {
    let seed = mix(s.draw(u64::MAX));
    let (mu, sd) = (s.sym(10.0), s.logf(0.01, 100.0));
    let single = s.chance(1, 4);
    note!(s, "seed {seed} N({mu},{sd}^2) f32={single}");
    s.nt(true);
    let n = 3000;
    let mut r = XorShift64Star::new(seed);
    let x: Vec<f64> = if single {
        let g = Gaussian::<f32>::new(mu as f32, sd as f32);
        (0..n).map(|_| g.sample(&mut r) as f64).collect()
    } else {
        let g = Gaussian::<f64>::new(mu, sd);
        (0..n).map(|_| g.sample(&mut r)).collect()
    };
    let e = if single { 1e-6 } else { 1e-14 };
    let m = x.iter().sum::<f64>() / n as f64;
    let z = (m - mu) / sd * (n as f64).sqrt();
    ensure!(z.abs() < 7.0 + e * mu.abs() / sd * 60.0, "mean of {n} samples {m}: {z:.1} standard errors from {mu}");
    let w = x.iter().map(|x| (x - mu).powi(2)).sum::<f64>() / n as f64 / (sd * sd);
    let z = (w - 1.0) / (2.0 / n as f64).sqrt();
    ensure!(z.abs() < 8.5, "variance ratio of {n} samples {w}");
    let inside = x.iter().filter(|x| (**x - mu).abs() < sd).count() as f64 / n as f64;
    ensure!((inside - 0.6827).abs() < 7.0 * (0.6827f64 * 0.3173 / n as f64).sqrt(), "{inside} of the samples lie within one deviation");
    // same seed: the standard normal, scaled and moved
    let mut r = XorShift64Star::new(seed);
    let g = Gaussian::<f64>::new(0.0, 1.0);
    for (i, x) in x.iter().enumerate().take(50) {
        let z = g.sample(&mut r);
        ensure!(close(*x, mu + sd * z, 4.0 * e * (mu.abs() + sd * z.abs())), "sample {i}: {x}, mean + deviation x standard sample {}", mu + sd * z);
    }
    Ok(())
}

/// sample sets far larger than the other checks use
fn big(s: &mut Src) -> (usize, Vec<f64>, f64) {
    let n = match s.draw(4) { 0 => s.range(26, 300), 1 => s.range(26, 300), 2 => s.range(300, 3000), 3 => s.range(3000, 20_000), _ => s.range(60_000, 80_000) };
    let seed = mix(s.draw(u64::MAX));
    let (off, sc) = (if s.bool() { s.sym(50.0) } else { 0.0 }, s.logf(0.1, 10.0));
    let mut g = seed;
    let x = (0..n).map(|_| { g = mix(g.wrapping_add(0x9E37_79B9_7F4A_7C15)); off + sc * ((g >> 11) as f64 / (1u64 << 52) as f64 - 1.0) }).collect();
    (n, x, off.abs() + sc)
}
fn acc(x: impl Iterator<Item = f64>) -> f64 {
    let (mut a, mut c) = (0.0f64, 0.0f64);
    for r in x { let t = a + r; c += if a.abs() >= r.abs() { (a - t) + r } else { (r - t) + a }; a = t; }
    a + c
}
fn big_moments(s: &mut Src) -> R {
    let (n, x, top) = big(s);
    let k = s.sym(1.0);
    note!(s, "{n} samples up to {top}");
    s.nt(true);
    let y: Vec<f64> = x.iter().rev().zip(&x).map(|(a, b)| k * a + (1.0 - k) * b).collect();
    let nf = n as f64;
    let (mx, my) = (acc(x.iter().copied()) / nf, acc(y.iter().copied()) / nf);
    let c2 = |p: &[f64], mp: f64, q: &[f64], mq: f64| acc(p.iter().zip(q).map(|(a, b)| (a - mp) * (b - mq))) / (nf - 1.0);
    let w = [[c2(&x, mx, &x, mx), c2(&x, mx, &y, my)], [c2(&x, mx, &y, my), c2(&y, my, &y, my)]];
    let xs: Vec<Vector<f64, 2>> = x.iter().zip(&y).map(|(a, b)| Vector::new([*a, *b])).collect();
    let ys: Vec<Vector<f64, 1>> = y.iter().map(|b| Vector::new([*b])).collect();
    let tol = 1e-15 * nf * 3.0 * top;
    let m = mean(&xs).map_err(|e| Fail::new(format!("{e:?}")))?;
    ensure!(close(m[0], mx, tol) && close(m[1], my, tol), "mean of {n} samples {:?}, sums give {mx} {my}", m.data);
    let c = sample_covariance(&xs).map_err(|e| Fail::new(format!("{e:?}")))?;
    let q = sample_cross_covariance(&xs, &ys).map_err(|e| Fail::new(format!("{e:?}")))?;
    let tol = 1e-15 * nf * 40.0 * top * top;
    for i in 0..2 {
        ensure!(close(q.data[i][0], w[i][1], tol), "cross-covariance {i} of {n} samples {}, definition gives {}", q.data[i][0], w[i][1]);
        for j in 0..2 { ensure!(close(c.data[i][j], w[i][j], tol), "covariance {i} {j} of {n} samples {}, definition gives {}", c.data[i][j], w[i][j]); }
    }
    Ok(())
}
fn big_fits(s: &mut Src) -> R {
    let (n, x, top) = big(s);
    note!(s, "{n} samples up to {top}");
    s.nt(true);
    let nf = n as f64;
    let m = acc(x.iter().copied()) / nf;
    let sd = (acc(x.iter().map(|x| (x - m) * (x - m))) / nf).sqrt();
    let f = Gaussian::<f64>::fit_mle(&x);
    ensure!(close(f.mu, m, 1e-15 * nf * top) && close(f.sigma, sd, 1e-15 * nf * 20.0 * (top + top * top / sd)), "fit of {n} samples gives {} {}, maximum likelihood {m} {sd}", f.mu, f.sigma);
    let cut = s.sym(1.2);
    let bits: Vec<u8> = x.iter().map(|t| (*t > m + cut * sd) as u8).collect();
    let ones = bits.iter().filter(|b| **b == 1).count();
    let b = Bernoulli::<f64>::fit_mle(&bits);
    ensure!(close(b.p, ones as f64 / nf, 1e-15), "bernoulli fit of {ones}/{n}: {}", b.p);
    let b = Bernoulli::<f32>::fit_mle(&bits);
    ensure!(close(b.p as f64, ones as f64 / nf, 1e-6), "bernoulli fit of {ones}/{n} in f32: {}", b.p);
    // many categories, large counts
    let k = s.range(1, 600);
    let width = s.range(1, 40);
    let counts: Vec<usize> = (0..k).map(|i| (mix(i as u64 ^ n as u64) >> (64 - width)) as usize).collect();
    let total: usize = counts.iter().sum();
    if total > 0 {
        let c = Categorical::<f64>::fit_mle(&counts);
        for (i, z) in counts.iter().enumerate() {
            let w = *z as f64 / total as f64;
            ensure!(close(c.pmf(i), w, 1e-14 * w), "category {i} of {k}: {}, expected {z}/{total}", c.pmf(i));
        }
        ensure!(c.pmf(k) == 0.0, "category {k} of {k} has probability {}", c.pmf(k));
    }
    Ok(())
}
fn phi(x: f64) -> f64 {
    let z = x.abs();
    let pdf = (-z * z / 2.0).exp() / (2.0 * PI).sqrt();
    let (mut t, mut sum, mut k) = (z, z, 1.0);
    while t > 1e-17 * sum && k < 400.0 { t *= z * z / (2.0 * k + 1.0); sum += t; k += 1.0; }
    let p = 0.5 + pdf * sum;
    if x >= 0.0 { p } else { 1.0 - p }
}
/// how many of many samples fall beyond each of a ladder of levels
fn tails(s: &mut Src) -> R {
    let seed = mix(s.draw(u64::MAX));
    let single = s.chance(1, 4);
    let n = 4_000_000;
    let (mu, sd) = (s.sym(10.0), s.logf(0.5, 20.0));
    note!(s, "seed {seed} N({mu},{sd}^2) f32={single}");
    s.nt(true);
    let mut r = XorShift64Star::new(seed);
    let (g, h) = (Gaussian::<f64>::new(mu, sd), Gaussian::<f32>::new(mu as f32, sd as f32));
    let levels = [-4.4, -4.0, -3.7, -3.3, -3.0, -2.5, -2.0, -1.0, 0.0, 1.0, 2.0, 2.5, 3.0, 3.3, 3.7, 4.0, 4.4];
    let mut c = [0u32; 17];
    for _ in 0..n {
        let x = (if single { h.sample(&mut r) as f64 } else { g.sample(&mut r) } - mu) / sd;
        for (k, l) in levels.iter().enumerate() { if if *l < 0.0 { x < *l } else { x > *l } { c[k] += 1 } }
    }
    for (k, l) in levels.iter().enumerate() {
        let e = n as f64 * phi(-l.abs());
        // rounding of single precision moves the level by less than 1e-5 deviations
        ensure!((c[k] as f64 - e).abs() < 8.0 * e.sqrt() + 12.0 + if single { 40.0 } else { 0.0 }, "{} of {n} samples beyond {l} deviations, expected {e:.1}", c[k]);
    }
    Ok(())
}

pub fn register(r: &mut Registry) {
    r.add("H01", "large sets", 200, "every case: 26 to 80000 samples", big_moments);
    r.add("H02", "large fits", 200, "every case: 26 to 80000 samples", big_fits);
    r.add("H02", "tails", 1, "every case: 4000000 samples", tails);
    r.add("H01", "moments", 225_000, "at least three samples", moments);
    r.add("H01", "correlation", 150_000, "more than one axis", corr);
    r.add("H02", "gaussian", 100_000, "mean and deviation not the standard ones", gauss);
    r.add("H02", "discrete", 100_000, "both outcomes observed", discrete);
    r.add("H02", "multivariate", 100_000, "several correlated axes", mvn);
    r.add("H02", "sampling", 2000, "every case: 3000 samples", sampling);
}
