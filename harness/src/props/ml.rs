//! H03 regression, H04 classifiers.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::math::Vector;
use aether_ml::classification::lda_qda::{Lda, Qda};
use aether_ml::classification::naive_bayes::GaussianNB;
use aether_ml::classification::perceptron::Perceptron;
use aether_ml::classification::svm::LinearSvm;
use aether_ml::regression::linear::LinearRegression;
use aether_ml::regression::logistic::LogisticRegression;
use aether_ml::regression::ridge::RidgeRegression;
use aether_opt::gradient_descent::GradientDescentGeneric;
use std::f64::consts::PI;

fn v<T: Fl, const N: usize>(a: &[f64]) -> Vector<T, N> { Vector::new(core::array::from_fn(|i| T::of(a[i]))) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Lin, Ridge, Logi, Svm, Perc }
/// rows x with targets; for the classifiers y is -1 or 1 (Svm, Perc), 0 or 1 (Logi)
#[derive(Clone, Debug)]
struct Data { x: D, y: Vec<f64> }
/// the documented loss; `reg` multiplies |w|^2
fn loss(k: Kind, d: &Data, p: &[f64], reg: f64) -> f64 {
    let n = p.len() - 1;
    let m = d.x.len() as f64;
    let mut t = 0.0;
    for (x, y) in d.x.iter().zip(&d.y) {
        let s: f64 = p[n] + (0..n).map(|i| p[i] * x[i]).sum::<f64>();
        t += match k {
            Kind::Lin | Kind::Ridge => (s - y) * (s - y),
            Kind::Logi => { let z = if *y == 0.0 { s } else { -s }; z.max(0.0) + (-z.abs()).exp().ln_1p() }
            Kind::Svm => (1.0 - y * s).max(0.0),
            Kind::Perc => (-y * s).max(0.0),
        };
    }
    t / m + reg * (0..n).map(|i| p[i] * p[i]).sum::<f64>()
}
/// its gradient, the size of the summed terms (for rounding), and whether a kink is close
fn grad(k: Kind, d: &Data, p: &[f64], reg: f64) -> (Vec<f64>, Vec<f64>, bool) {
    let n = p.len() - 1;
    let m = d.x.len() as f64;
    let mut g = vec![0.0; n + 1];
    let mut a = vec![0.0; n + 1];
    let mut kink = false;
    for (x, y) in d.x.iter().zip(&d.y) {
        let s: f64 = p[n] + (0..n).map(|i| p[i] * x[i]).sum::<f64>();
        let sm: f64 = p[n].abs() + (0..n).map(|i| (p[i] * x[i]).abs()).sum::<f64>();
        let (e, em) = match k {
            Kind::Lin | Kind::Ridge => (2.0 * (s - y), 2.0 * (sm + y.abs())),
            Kind::Logi => (1.0 / (1.0 + (-s).exp()) - y, 1.0 + sm),
            Kind::Svm => { if (y * s - 1.0).abs() <= 1e-5 * (1.0 + sm) { kink = true } (if y * s < 1.0 { -y } else { 0.0 }, 1.0) }
            Kind::Perc => { if s.abs() <= 1e-5 * (sm + 1e-3) { kink = true } (if y * s < 0.0 { -y } else { 0.0 }, 1.0) }
        };
        for i in 0..=n {
            let xi = if i < n { x[i] } else { 1.0 };
            g[i] += e * xi / m;
            a[i] += em * xi.abs() / m;
        }
    }
    for i in 0..n { g[i] += 2.0 * reg * p[i]; a[i] += (2.0 * reg * p[i]).abs(); }
    (g, a, kink)
}
/// upper bound of the curvature of the smooth losses
fn curv(k: Kind, d: &Data, reg: f64) -> f64 {
    let t = d.x.iter().map(|x| 1.0 + x.iter().map(|t| t * t).sum::<f64>()).sum::<f64>() / d.x.len() as f64;
    match k { Kind::Logi => t / 4.0, _ => 2.0 * t + 2.0 * reg }
}
fn gen_data<T: Fl>(s: &mut Src, k: Kind, n: usize) -> Data {
    // mostly small sets; a few large ones, where a size limit in the code would show
    let m = if s.chance(1, 200) { s.range(25, 1500) } else { s.range(1, 24) };
    s.label_if(m > 24, "large data set");
    let truth: Vec<f64> = (0..=n).map(|_| s.sym(2.0)).collect();
    let off = if s.chance(1, 3) { s.sym(3.0) } else { 0.0 };
    let noise = *s.pick(&[0.1, 0.0, 1.0]);
    let mut d = Data { x: vec![], y: vec![] };
    for _ in 0..m {
        let x: Vec<f64> = (0..n).map(|_| T::of(off + s.sym(2.0)).f()).collect();
        let t = truth[n] + (0..n).map(|i| truth[i] * x[i]).sum::<f64>() + noise * s.sym(1.0);
        d.y.push(match k {
            Kind::Lin | Kind::Ridge => T::of(t).f(),
            Kind::Logi => if t > 0.0 { 1.0 } else { 0.0 },
            _ => if t > 0.0 { 1.0 } else { -1.0 },
        });
        d.x.push(x);
    }
    d
}
struct State<T: Fl, const N: usize> { w: Vector<T, N>, b: T }
/// one epoch (or optimiser run) of the code under test
fn run<T: Fl, const N: usize, const M: usize>(k: Kind, st: &mut State<T, N>, d: &Data, lr: f64, reg: f64, opt: Option<GradientDescentGeneric<T, M>>) {
    let xs: Vec<Vector<T, N>> = d.x.iter().map(|x| v(x)).collect();
    let yf: Vec<T> = d.y.iter().map(|y| T::of(*y)).collect();
    let yu: Vec<u8> = d.y.iter().map(|y| *y as u8).collect();
    let yi: Vec<i8> = d.y.iter().map(|y| *y as i8).collect();
    macro_rules! go {
        ($m:expr, $y:expr) => {{
            let mut m = $m;
            m.weights = st.w;
            m.bias = st.b;
            m.lr = T::of(lr);
            match opt { None => m.train_epoch(&xs, $y), Some(o) => m.fit_with_optimizer::<M>(&xs, $y, o) }
            st.w = m.weights;
            st.b = m.bias;
        }};
    }
    match k {
        Kind::Lin => go!(LinearRegression::<T, N>::new(), &yf),
        Kind::Ridge => { let mut r = RidgeRegression::<T, N>::new(); r.alpha = T::of(reg); go!(r, &yf) }
        Kind::Logi => go!(LogisticRegression::<T, N>::new(), &yu),
        Kind::Svm => { let mut r = LinearSvm::<T, N>::new(); r.c = T::of(reg); go!(r, &yi) }
        Kind::Perc => go!(Perceptron::<T, N>::new(), &yi),
    }
}
fn params<T: Fl, const N: usize>(st: &State<T, N>) -> Vec<f64> { (0..N).map(|i| st.w[i].f()).chain([st.b.f()]).collect() }
fn start<T: Fl, const N: usize>(s: &mut Src) -> State<T, N> {
    if s.chance(1, 4) { return State { w: Vector::new([T::of(0.0); N]), b: T::of(0.0) } }
    let p: Vec<f64> = (0..=N).map(|_| s.sym(2.0)).collect();
    State { w: v(&p), b: T::of(p[N]) }
}
fn gen_reg<T: Fl>(s: &mut Src, k: Kind) -> f64 {
    match k { Kind::Ridge => T::of(*s.pick(&[0.1, 0.0, 1.0, 3.0])).f(), Kind::Svm => T::of(*s.pick(&[1.0, 0.1, 10.0])).f(), _ => 0.0 }
}
fn step_close<T: Fl>(what: &str, got: &[f64], p: &[f64], lr: f64, g: &(Vec<f64>, Vec<f64>, bool), m: usize) -> R {
    for i in 0..got.len() {
        let w = p[i] - lr * g.0[i];
        let tol = T::E * (8.0 + 4.0 * m as f64 + 4.0 * got.len() as f64) * (p[i].abs() + lr * g.1[i]) + 1e-300;
        ensure!(close(got[i], w, tol), "{what}: parameter {i} becomes {}, gradient step gives {w} (before {}, rate {lr}, gradient {})", got[i], p[i], g.0[i]);
    }
    Ok(())
}

fn epoch_n<T: Fl, const N: usize, const M: usize>(s: &mut Src, k: Kind) -> R {
    let d = gen_data::<T>(s, k, N);
    let reg = gen_reg::<T>(s, k);
    let m = d.x.len();
    // weight of |w|^2 in the loss an epoch descends
    let lreg = match k { Kind::Ridge => reg, Kind::Svm => 1.0 / (reg * m as f64), _ => 0.0 };
    let mut st = start::<T, N>(s);
    let small = s.bool();
    let l = curv(k, &d, lreg);
    let lr = T::of(if small { s.logf(1e-3, 1.0) / l } else { s.logf(1e-3, 0.5) }).f();
    note!(s, "{k:?} {} N={N} {d:?} regularisation={reg} rate={lr} start={:?}", T::NAME, params(&st));
    s.nt(m >= 2);
    // empty data change nothing
    let p = params(&st);
    run::<T, N, M>(k, &mut st, &Data { x: vec![], y: vec![] }, lr, reg, None);
    ensure!(params(&st) == p, "an epoch over no data changed {p:?} to {:?}", params(&st));
    run::<T, N, M>(k, &mut st, &Data { x: vec![], y: vec![] }, lr, reg, Some(GradientDescentGeneric::new()));
    ensure!(params(&st) == p, "fitting no data changed {p:?} to {:?}", params(&st));
    // another order
    let mut sh = d.clone();
    for i in (1..m).rev() { let j = s.range(0, i); sh.x.swap(i, j); sh.y.swap(i, j); }
    for e in 0..s.range(1, 4) {
        let p = params(&st);
        let g = grad(k, &d, &p, lreg);
        if g.2 { return Ok(()) }
        let mut other = State { w: st.w, b: st.b };
        run::<T, N, M>(k, &mut st, &d, lr, reg, None);
        run::<T, N, M>(k, &mut other, &sh, lr, reg, None);
        let q = params(&st);
        step_close::<T>(&format!("{k:?} epoch {e}"), &q, &p, lr, &g, m)?;
        step_close::<T>(&format!("{k:?} epoch {e} with the samples in another order"), &params(&other), &p, lr, &g, m)?;
        if small && matches!(k, Kind::Lin | Kind::Ridge | Kind::Logi) {
            let (a, b) = (loss(k, &d, &p, lreg), loss(k, &d, &q, lreg));
            let noise = T::E * 100.0 * m as f64 * (a + 1.0) * (1.0 + p.iter().map(|x| x * x).sum::<f64>());
            ensure!(b <= a + noise, "{k:?}: an epoch with rate {lr} (curvature {l}) raises the loss from {a} to {b}");
        }
    }
    // prediction
    let p = params(&st);
    for _ in 0..2 {
        let x: Vec<f64> = (0..N).map(|_| T::of(s.sym(3.0)).f()).collect();
        let z: f64 = p[N] + (0..N).map(|i| p[i] * x[i]).sum::<f64>();
        let zm: f64 = p[N].abs() + (0..N).map(|i| (p[i] * x[i]).abs()).sum::<f64>();
        let tol = 8.0 * T::E * (N as f64 + 1.0) * zm;
        let xv = v::<T, N>(&x);
        match k {
            Kind::Lin => { let mut r = LinearRegression::<T, N>::new(); r.weights = st.w; r.bias = st.b; let y = r.predict(&xv).f(); ensure!(close(y, z, tol), "prediction {y}, model value {z}"); }
            Kind::Ridge => { let mut r = RidgeRegression::<T, N>::new(); r.weights = st.w; r.bias = st.b; let y = r.predict(&xv).f(); ensure!(close(y, z, tol), "prediction {y}, model value {z}"); }
            Kind::Svm => { let mut r = LinearSvm::<T, N>::new(); r.weights = st.w; r.bias = st.b; let y = r.decision(&xv).f(); ensure!(close(y, z, tol), "decision value {y}, model value {z}"); }
            Kind::Logi => {
                let mut r = LogisticRegression::<T, N>::new();
                r.weights = st.w;
                r.bias = st.b;
                let pr = r.predict_probability(&xv).f();
                let w = 1.0 / (1.0 + (-z).exp());
                ensure!(close(pr, w, 8.0 * T::E + tol * w * (1.0 - w)), "probability {pr}, logistic function of {z} is {w}");
                if z.abs() > tol + 16.0 * T::E { let c = r.predict(&xv); ensure!(c == (z > 0.0) as u8, "class {c} for probability {w}"); }
                // extreme scores saturate
                r.bias = T::of(s.sgn() * 2000.0);
                let pr = r.predict_probability(&xv).f();
                ensure!(pr == if r.bias.f() > 0.0 { 1.0 } else { 0.0 }, "probability {pr} for a score near {}", r.bias);
            }
            Kind::Perc => {}
        }
    }
    Ok(())
}
fn dispatch(s: &mut Src, k: Kind, f64s: [fn(&mut Src, Kind) -> R; 4], f32s: fn(&mut Src, Kind) -> R) -> R {
    if s.chance(1, 30) { return f64s[3](s, k) }
    match s.draw(3) { 0 => f64s[0](s, k), 1 => f64s[1](s, k), 2 => f64s[2](s, k), _ => f32s(s, k) }
}
fn reg_epoch(s: &mut Src) -> R {
    let k = *s.pick(&[Kind::Lin, Kind::Ridge, Kind::Logi]);
    dispatch(s, k, [epoch_n::<f64, 1, 2>, epoch_n::<f64, 2, 3>, epoch_n::<f64, 4, 5>, epoch_n::<f64, 18, 19>], epoch_n::<f32, 3, 4>)
}
fn svm_epoch(s: &mut Src) -> R {
    dispatch(s, Kind::Svm, [epoch_n::<f64, 1, 2>, epoch_n::<f64, 2, 3>, epoch_n::<f64, 4, 5>, epoch_n::<f64, 18, 19>], epoch_n::<f32, 3, 4>)
}
/// an optimiser run is a run on the documented loss: a few plain steps, and a line search
fn fit_n<T: Fl, const N: usize, const M: usize>(s: &mut Src, k: Kind) -> R {
    let d = gen_data::<T>(s, k, N);
    let reg = gen_reg::<T>(s, k);
    let m = d.x.len();
    let lreg = match k { Kind::Ridge => reg, Kind::Svm => 0.5 / reg, _ => 0.0 };
    let mut st = start::<T, N>(s);
    let l = curv(k, &d, lreg);
    let lr = T::of(s.logf(1e-2, 0.9) / l).f();
    let steps = s.range(1, 4);
    note!(s, "{k:?} {} N={N} {d:?} regularisation={reg} rate={lr} steps={steps} start={:?}", T::NAME, params(&st));
    s.nt(m >= 2);
    let p0 = params(&st);
    let mut none = State { w: st.w, b: st.b };
    run::<T, N, M>(k, &mut none, &Data { x: vec![], y: vec![] }, lr, reg, Some(GradientDescentGeneric::new()));
    ensure!(params(&none) == p0, "{k:?}: fitting no data changed {p0:?} to {:?}", params(&none));
    let mut opt = GradientDescentGeneric::<T, M>::new();
    opt.backtracking(true).learning_rate(T::of(10.0 * lr)).tolerances(T::of(0.0), T::of(0.0)).max_iters(steps as u32 * 5);
    let mut ls = State { w: st.w, b: st.b };
    run::<T, N, M>(k, &mut ls, &d, lr, reg, Some(opt));
    let (a, b) = (loss(k, &d, &p0, lreg), loss(k, &d, &params(&ls), lreg));
    ensure!(b <= a + 100.0 * T::E * m as f64 * (a + 1.0) * (1.0 + p0.iter().map(|x| x * x).sum::<f64>()), "{k:?}: fitting with a line search raised the loss from {a} to {b}");
    // the optimiser driven by the documented loss and gradient from outside ends at the same parameters
    // (judged where tiny noise in the loss does not change the path, so rounding does not decide a step)
    if T::E < 1e-10 {
        let ext = |seed: u64| -> (Vec<f64>, bool) {
            let kink = std::cell::Cell::new(false);
            let pv = |q: &Vector<T, M>| -> Vec<f64> { (0..M).map(|i| q[i].f()).collect() };
            let f = |q: &Vector<T, M>| {
                let q = pv(q);
                let h = (q.iter().fold(seed, |h, x| (h ^ x.to_bits()).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23)) >> 40) as f64 / (1u64 << 24) as f64 - 0.5;
                T::of(loss(k, &d, &q, lreg) * (1.0 + if seed == 0 { 0.0 } else { 1e-9 * h }))
            };
            let g = |q: &Vector<T, M>| { let g = grad(k, &d, &pv(q), lreg); kink.set(kink.get() || g.2); Vector::new(core::array::from_fn(|i| T::of(g.0[i]))) };
            let mut o = opt;
            let r = o.minimize(Vector::new(core::array::from_fn(|i| T::of(p0[i]))), f, g);
            (pv(&r.0), kink.get())
        };
        let (r0, kink) = ext(0);
        let same = |a: &[f64], b: &[f64], t: f64| { let mx = a.iter().fold(1.0f64, |m, x| m.max(x.abs())); a.iter().zip(b).all(|(x, y)| close(*x, *y, t * mx)) };
        // a logistic loss near zero is known only to few digits
        if !kink && (k != Kind::Logi || b > 1e-3) && [1, 2, 3].iter().all(|&i| same(&r0, &ext(i).0, 1e-12)) {
            s.label("compared with the optimiser on the documented loss");
            let q = params(&ls);
            ensure!(same(&r0, &q, 1e-8), "{k:?}: fitting with a line search ends at {q:?}, the same optimiser on the documented loss at {r0:?}");
        }
    }
    // fixed steps, one by one
    opt.backtracking(false).learning_rate(T::of(lr)).max_iters(1);
    for e in 0..steps {
        let p = params(&st);
        let g = grad(k, &d, &p, lreg);
        if g.2 { return Ok(()) }
        run::<T, N, M>(k, &mut st, &d, lr, reg, Some(opt));
        step_close::<T>(&format!("{k:?} fit, step {e}"), &params(&st), &p, lr, &g, m)?;
    }
    // and in one go
    opt.max_iters(steps as u32);
    let mut all = State { w: v::<T, N>(&p0), b: T::of(p0[N]) };
    run::<T, N, M>(k, &mut all, &d, lr, reg, Some(opt));
    let (x, y) = (params(&all), params(&st));
    let mx = y.iter().chain(&p0).fold(1.0f64, |a, b| a.max(b.abs())).min(1e300);
    for i in 0..=N { ensure!(close(x[i], y[i], 1e3 * T::E * mx), "{k:?}: {steps} steps in one fit give {x:?}, one at a time {y:?}"); }
    Ok(())
}
fn reg_fit(s: &mut Src) -> R {
    let k = *s.pick(&[Kind::Lin, Kind::Ridge, Kind::Logi]);
    dispatch(s, k, [fit_n::<f64, 1, 2>, fit_n::<f64, 2, 3>, fit_n::<f64, 4, 5>, fit_n::<f64, 18, 19>], fit_n::<f32, 3, 4>)
}
fn cls_fit(s: &mut Src) -> R {
    let k = *s.pick(&[Kind::Svm, Kind::Perc]);
    dispatch(s, k, [fit_n::<f64, 1, 2>, fit_n::<f64, 2, 3>, fit_n::<f64, 4, 5>, fit_n::<f64, 18, 19>], fit_n::<f32, 3, 4>)
}
/// closed-form and stationary solutions
fn opt_n<const N: usize, const M: usize>(s: &mut Src) -> R {
    let k = *s.pick(&[Kind::Lin, Kind::Ridge, Kind::Logi]);
    let mut d = gen_data::<f64>(s, k, N);
    if k == Kind::Logi {
        // every point with both labels: a finite, well conditioned optimum
        let base = d.clone();
        d = Data { x: vec![], y: vec![] };
        for x in &base.x {
            let ones = s.range(1, 3);
            for q in 0..4 { d.x.push(x.clone()); d.y.push(if q < ones { 1.0 } else { 0.0 }); }
        }
    }
    let reg = gen_reg::<f64>(s, k);
    let m = d.x.len() as f64;
    // Gram matrix of [x, 1] (half the Hessian)
    let mut h = vec![vec![0.0; N + 1]; N + 1];
    let mut r = vec![0.0; N + 1];
    for (x, y) in d.x.iter().zip(&d.y) {
        let a: Vec<f64> = x.iter().copied().chain([1.0]).collect();
        for i in 0..=N { r[i] += a[i] * y / m; for j in 0..=N { h[i][j] += a[i] * a[j] / m; } }
    }
    if k == Kind::Ridge { for i in 0..N { h[i][i] += reg; } }
    let hi = match dinv(&h) { Some(x) => x, None => return Ok(()) };
    let cond = dnorm_inf(&h) * dnorm_inf(&hi);
    if cond > 300.0 { return Ok(()) }
    let lmin = 1.0 / dnorm_inf(&hi) * if k == Kind::Logi { 0.1 } else { 2.0 };
    let l = curv(k, &d, reg);
    let mut st = start::<f64, N>(s);
    let line = s.bool();
    note!(s, "{k:?} N={N} {d:?} regularisation={reg} line={line} start={:?}", params(&st));
    s.nt(true);
    let mut opt = GradientDescentGeneric::<f64, M>::new();
    opt.backtracking(line).learning_rate(if line { 8.0 / l } else { 1.0 / l }).armijo(0.1, 0.5).tolerances(1e-9, 0.0).max_iters(40_000);
    run::<f64, N, M>(k, &mut st, &d, 0.1, reg, Some(opt));
    let p = params(&st);
    ensure!(p.iter().all(|x| x.is_finite()), "{k:?} fit ends at {p:?}");
    let best = loss(k, &d, &p, reg);
    // rounding of the loss blinds the line search
    let pn = p.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    let blind = if line { 300.0 * (f64::EPSILON * (best + 1.0) * l).sqrt() * pn } else { 0.0 };
    if k == Kind::Logi {
        let g = grad(k, &d, &p, 0.0).0;
        let gn = g.iter().map(|x| x * x).sum::<f64>().sqrt();
        ensure!(gn <= 2e-9 + blind, "logistic fit ends at {p:?} with gradient {gn:e} (allowed {:e})", 2e-9 + blind);
    } else {
        let w: Vec<f64> = (0..=N).map(|i| (0..=N).map(|j| hi[i][j] * r[j]).sum()).collect();
        let tol = (2e-9 + blind) / lmin * 2.0 + 1e-12 * cond * pn;
        for i in 0..=N { ensure!(close(p[i], w[i], tol), "{k:?} fit gives {p:?}, closed form {w:?} (allowed {tol:e})"); }
        // the optimum is a fixed point of an epoch
        let mut o = State { w: v::<f64, N>(&w), b: w[N] };
        run::<f64, N, M>(k, &mut o, &d, 1.0 / l, reg, None);
        let q = params(&o);
        let wn = w.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        for i in 0..=N { ensure!(close(q[i], w[i], 1e-11 * cond * wn), "{k:?}: an epoch moves the closed-form optimum {w:?} to {q:?}"); }
    }
    Ok(())
}
fn reg_opt(s: &mut Src) -> R {
    match s.draw(2) { 0 => opt_n::<1, 2>(s), 1 => opt_n::<2, 3>(s), _ => opt_n::<3, 4>(s) }
}

// ------------------------------------------------------------------ H04
fn argmax(sc: &[f64]) -> (usize, f64) {
    let mut b = 0;
    for i in 1..sc.len() { if sc[i] > sc[b] { b = i } }
    let mut second = f64::NEG_INFINITY;
    for (i, x) in sc.iter().enumerate() { if i != b && *x > second { second = *x } }
    (b, sc[b] - second)
}
struct Cls { x: D, y: Vec<usize>, k: usize }
fn gen_cls(s: &mut Src, n: usize) -> Cls {
    let k = s.range(1, 4);
    let mut c = Cls { x: vec![], y: vec![], k };
    let skew = s.sym(0.7);
    let far = if s.chance(1, 4) { s.sym(30.0) } else { 0.0 };
    for j in 0..k {
        let ctr: Vec<f64> = (0..n).map(|_| far + s.sym(3.0)).collect();
        let sc: Vec<f64> = (0..n).map(|_| *s.pick(&[1.0, 0.3, 3.0])).collect();
        let cnt = if s.chance(1, 8) { s.range(0, 2) } else if s.chance(1, 400) { s.range(n + 13, 1500) } else { s.range(n + 2, n + 12) };
        for _ in 0..cnt {
            let mut x: Vec<f64> = (0..n).map(|i| sc[i] * s.sym(1.0)).collect();
            for i in 1..n { x[i] += skew * x[i - 1]; }
            for i in 0..n { x[i] += ctr[i]; }
            c.x.push(x);
            c.y.push(j);
        }
    }
    for i in (1..c.x.len()).rev() { let j = s.range(0, i); c.x.swap(i, j); c.y.swap(i, j); }
    // now and then in units far from one
    if s.chance(1, 20) { let u = s.logf(1e-4, 1e8); for x in c.x.iter_mut().flatten() { *x *= u; } }
    c
}
struct Stat { count: Vec<usize>, mean: D, cov: Vec<D>, big: f64 }
fn stats(c: &Cls, n: usize) -> Stat {
    let mut st = Stat { count: vec![0; c.k], mean: vec![vec![0.0; n]; c.k], cov: vec![vec![vec![0.0; n]; n]; c.k], big: 1e-9 };
    for (x, y) in c.x.iter().zip(&c.y) { st.count[*y] += 1; for i in 0..n { st.mean[*y][i] += x[i]; st.big = st.big.max(x[i].abs()); } }
    for j in 0..c.k { for i in 0..n { if st.count[j] > 0 { st.mean[j][i] /= st.count[j] as f64; } } }
    // sums of squares about the mean
    for (x, y) in c.x.iter().zip(&c.y) { for i in 0..n { for j in 0..n { st.cov[*y][i][j] += (x[i] - st.mean[*y][i]) * (x[j] - st.mean[*y][j]); } } }
    st
}
fn quad(a: &D, d: &[f64]) -> f64 { let n = d.len(); (0..n).map(|i| (0..n).map(|j| d[i] * a[i][j] * d[j]).sum::<f64>()).sum() }
fn logdet(a: &D) -> f64 {
    // elimination with pivoting
    let n = a.len();
    let mut m = a.clone();
    let mut l = 0.0;
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| m[i][k].abs().partial_cmp(&m[j][k].abs()).unwrap()).unwrap();
        m.swap(k, p);
        l += m[k][k].abs().ln();
        for i in k + 1..n { let f = m[i][k] / m[k][k]; for j in k..n { m[i][j] -= f * m[k][j]; } }
    }
    l
}
fn disc_n<const N: usize>(s: &mut Src) -> R {
    let c = gen_cls(s, N);
    let st = stats(&c, N);
    let m = c.x.len();
    note!(s, "N={N} classes={} counts={:?} x={:?} y={:?}", c.k, st.count, c.x, c.y);
    s.nt(st.count.iter().filter(|n| **n >= N + 2).count() >= 2);
    s.label_if(st.count.iter().any(|n| *n < 2), "class with fewer than two samples");
    let xs: Vec<Vector<f64, N>> = c.x.iter().map(|x| v(x)).collect();
    let (l, q, g) = (Lda::<N>::fit(&xs, &c.y, c.k), Qda::<N>::fit(&xs, &c.y, c.k), GaussianNB::<N>::fit(&xs, &c.y, c.k));
    ensure!(l.means.len() == c.k && l.priors.len() == c.k && q.means.len() == c.k && q.priors.len() == c.k && q.covs.len() == c.k && g.class_prior.len() == c.k && g.class_mean.len() == c.k && g.class_var.len() == c.k, "not one entry per class");
    let tol = 1e-12 * st.big * (m as f64 + 4.0);
    let tol2 = 1e-12 * st.big * st.big * (m as f64 + 4.0);
    let mut pooled = vec![vec![0.0; N]; N];
    if m > 0 {
        for j in 0..c.k {
            let pr = st.count[j] as f64 / m as f64;
            ensure!(close(l.priors[j], pr, 1e-14) && close(q.priors[j], pr, 1e-14) && close(g.class_prior[j], pr, 1e-14), "prior of class {j}: {} {} {}, frequency {pr}", l.priors[j], q.priors[j], g.class_prior[j]);
            ensure!(g.class_count[j] == st.count[j], "count of class {j}: {}, {} samples", g.class_count[j], st.count[j]);
            for i in 0..N {
                for (w, x) in [("lda", l.means[j][i]), ("qda", q.means[j][i]), ("naive bayes", g.class_mean[j][i])] {
                    ensure!(close(x, st.mean[j][i], tol), "{w} mean of class {j}, component {i}: {x}, samples give {}", st.mean[j][i]);
                }
                if st.count[j] > 0 {
                    let w = st.cov[j][i][i] / st.count[j] as f64;
                    ensure!(close(g.class_var[j][i], w, tol2), "naive bayes variance of class {j}, component {i}: {}, samples give {w}", g.class_var[j][i]);
                }
                for i2 in 0..N {
                    let w = st.cov[j][i][i2] / (st.count[j].max(2) - 1) as f64;
                    ensure!(close(q.covs[j].data[i][i2], w, tol2), "covariance of class {j} [{i}][{i2}]: {}, samples give {w}", q.covs[j].data[i][i2]);
                    pooled[i][i2] += pr * w;
                }
            }
        }
        for i in 0..N { for j in 0..N { ensure!(close(l.pooled_cov.data[i][j], pooled[i][j], tol2), "pooled covariance [{i}][{j}]: {}, classes give {}", l.pooled_cov.data[i][j], pooled[i][j]); } }
    }
    // decisions
    let linv = dinv(&pooled);
    let lc = linv.as_ref().map(|i| dnorm_inf(i) * dnorm_inf(&pooled)).unwrap_or(f64::INFINITY);
    for _ in 0..4 {
        let x: Vec<f64> = if m > 0 && s.chance(3, 4) { let i = s.range(0, m - 1); c.x[i].iter().map(|t| t + s.sym(2.0)).collect() } else { (0..N).map(|_| s.sym(20.0)).collect() };
        let xv = v::<f64, N>(&x);
        let (pl, pq, pg) = (l.predict(&xv), q.predict(&xv), g.predict(&xv));
        ensure!(pl < c.k && pq < c.k && pg < c.k, "predicted classes {pl} {pq} {pg} of {}", c.k);
        if m == 0 { continue }
        // linear discriminant
        if let (Some(inv), true) = (&linv, lc < 1e6 && dnorm_inf(linv.as_ref().unwrap()) < 1e6) {
            let sc: Vec<f64> = (0..c.k).map(|j| {
                let mu = &st.mean[j];
                let a: f64 = (0..N).map(|a| (0..N).map(|b| x[a] * inv[a][b] * mu[b]).sum::<f64>()).sum();
                a - 0.5 * quad(inv, mu) + (st.count[j] as f64 / m as f64).ln()
            }).collect();
            let (b, gap) = argmax(&sc);
            let xb = st.big.max(x.iter().fold(0.0f64, |a, t| a.max(t.abs())));
            let noise = 1e-11 * (1.0 + lc) * (1.0 + xb * xb * dnorm_inf(inv)) * m as f64;
            if gap > noise { s.label("lda decided"); ensure!(pl == b, "lda predicts {pl} for {x:?}; discriminants {sc:?}"); }
        }
        // quadratic discriminant: only when every class that has samples has a usable covariance
        let mut sc = vec![f64::NEG_INFINITY; c.k];
        let (mut usable, mut noise) = (true, 0.0f64);
        for j in 0..c.k {
            if st.count[j] == 0 { continue }
            let cov: D = st.cov[j].iter().map(|r| r.iter().map(|t| t / (st.count[j].max(2) - 1) as f64).collect()).collect();
            let cond = dcond(&cov);
            if st.count[j] < 2 || !(cond < 1e6) { usable = false; continue }
            let inv = dinv(&cov).unwrap();
            if dnorm_inf(&inv) > 1e6 { usable = false; continue }
            let d: Vec<f64> = (0..N).map(|i| x[i] - st.mean[j][i]).collect();
            let qd = quad(&inv, &d);
            sc[j] = -0.5 * logdet(&cov) - 0.5 * qd + (st.count[j] as f64 / m as f64).ln();
            let db = d.iter().fold(st.big, |a, t| a.max(t.abs()));
            noise = noise.max(1e-11 * (1.0 + cond) * (1.0 + db * db * dnorm_inf(&inv)) * m as f64);
        }
        if usable {
            let (b, gap) = argmax(&sc);
            if gap > noise { s.label("qda decided"); ensure!(pq == b, "qda predicts {pq} for {x:?}; discriminants {sc:?}"); }
        }
        // naive bayes
        let mut sc = vec![f64::NEG_INFINITY; c.k];
        let (mut usable, mut noise) = (true, 1e-10);
        for j in 0..c.k {
            if st.count[j] == 0 { continue }
            let mut t = (st.count[j] as f64 / m as f64).ln();
            for i in 0..N {
                let var = st.cov[j][i][i] / st.count[j] as f64;
                if var < 1e-6 { usable = false }
                let d = x[i] - st.mean[j][i];
                t -= 0.5 * ((2.0 * PI * var).ln() + d * d / var);
                noise += 1e-11 * m as f64 * (1.0 + st.big * st.big / var) * (1.0 + d * d / var);
            }
            sc[j] = t;
        }
        if usable {
            let (b, gap) = argmax(&sc);
            if gap > noise { s.label("naive bayes decided"); ensure!(pg == b, "naive bayes predicts {pg} for {x:?}; log posteriors {sc:?}"); }
        }
        // a class without samples is never chosen when another has some
        ensure!(st.count[pg] > 0, "naive bayes predicts the empty class {pg} for {x:?}");
        if lc < 1e6 && linv.as_ref().is_some_and(|i| dnorm_inf(i) < 1e6) { ensure!(st.count[pl] > 0, "lda predicts the empty class {pl} for {x:?}"); }
    }
    Ok(())
}
fn disc(s: &mut Src) -> R {
    if s.chance(1, 20) { return disc_n::<9>(s) }
    match s.draw(3) { 0 => disc_n::<1>(s), 1 => disc_n::<2>(s), 2 => disc_n::<3>(s), _ => disc_n::<4>(s) }
}
/// perceptron on a dyadic grid: every sum is exact
fn perc_n<T: Fl, const N: usize>(s: &mut Src) -> R {
    let m = if s.chance(1, 200) { s.range(17, 400) } else { s.range(1, 16) };
    let sep = s.bool();
    let lr = *s.pick(&[1.0, 0.5, 0.25, 2.0]);
    let truth: Vec<f64> = (0..=N).map(|_| s.irange(-4, 4) as f64).collect();
    let (mut x, mut y): (D, Vec<i8>) = (vec![], vec![]);
    for _ in 0..m {
        let r: Vec<f64> = (0..N).map(|_| s.irange(-8, 8) as f64 / 2.0).collect();
        let z = truth[N] + (0..N).map(|i| truth[i] * r[i]).sum::<f64>();
        if sep && z == 0.0 { continue }
        y.push(if sep { z.signum() as i8 } else { *s.pick(&[1i8, -1]) });
        x.push(r);
    }
    if x.is_empty() { return Ok(()) }
    let mut p: Vec<f64> = (0..=N).map(|_| if s.bool() { s.irange(-4, 4) as f64 } else { 0.0 }).collect();
    note!(s, "{} N={N} x={x:?} y={y:?} rate={lr} start={p:?}", T::NAME);
    s.nt(x.len() >= 2);
    let mut pc = Perceptron::<T, N>::new();
    pc.weights = v(&p);
    pc.bias = T::of(p[N]);
    pc.lr = T::of(lr);
    let xs: Vec<Vector<T, N>> = x.iter().map(|r| v(r)).collect();
    pc.train_epoch(&[], &[]);
    let mut updates = 0;
    let epochs = if sep { 400 } else { s.range(1, 6) };
    let mut clean = false;
    for e in 0..epochs {
        let before = updates;
        for (r, l) in x.iter().zip(&y) {
            let z = p[N] + (0..N).map(|i| p[i] * r[i]).sum::<f64>();
            if z * *l as f64 <= 0.0 {
                updates += 1;
                for i in 0..N { p[i] += lr * *l as f64 * r[i]; }
                p[N] += lr * *l as f64;
            }
        }
        pc.train_epoch(&xs, &y);
        let got: Vec<f64> = (0..N).map(|i| pc.weights[i].f()).chain([pc.bias.f()]).collect();
        ensure!(got == p, "after epoch {e}: {got:?}, perceptron rule gives {p:?}");
        if updates == before { clean = true; break }
    }
    for (r, l) in x.iter().zip(&y) {
        let z = p[N] + (0..N).map(|i| p[i] * r[i]).sum::<f64>();
        let raw = pc.predict_raw(&v(r)).f();
        ensure!(raw == z, "raw value {raw}, model {z}");
        let c = pc.predict(&v(r));
        ensure!(c == if z >= 0.0 { 1 } else { -1 }, "class {c} for the value {z}");
        if clean { ensure!(c == *l, "an epoch without mistakes leaves {r:?} on the wrong side"); s.label("separated"); }
    }
    Ok(())
}
fn perc(s: &mut Src) -> R { if s.chance(1, 20) { return if s.bool() { perc_n::<f64, 1>(s) } else { perc_n::<f64, 19>(s) } } match s.draw(2) { 0 => perc_n::<f64, 2>(s), 1 => perc_n::<f64, 3>(s), _ => perc_n::<f32, 2>(s) } }

pub fn register(r: &mut Registry) {
    r.add("H03", "epoch", 300, "at least two samples", reg_epoch);
    r.add("H03", "fit", 300, "at least two samples", reg_fit);
    r.add("H03", "optimum", 2, "a well conditioned problem", reg_opt);
    r.add("H04", "discriminants", 100, "at least two classes with enough samples", disc);
    r.add("H04", "perceptron", 100, "at least two samples", perc);
    r.add("H04", "svm epoch", 100, "at least two samples", svm_epoch);
    r.add("H04", "fit", 100, "at least two samples", cls_fit);
}
