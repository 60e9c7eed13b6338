//! G02 gradient descent, G03 stochastic optimisers, G04 random generator.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::math::Vector;
use aether_core::real::Real;
use aether_opt::gradient_descent::{GDStochastic, GDStochasticParallel, GradientDescentGeneric};
use aether_rand::randomizers::XorShift64Star;
use std::cell::RefCell;
use std::sync::Mutex;

// ------------------------------------------------------------------ objectives
#[derive(Clone, Debug)]
struct Obj<const N: usize> { kind: u64, a: [[f64; N]; N], c: [f64; N], off: f64, lmax: f64, lmin: f64 }
impl<const N: usize> Obj<N> {
    fn gen(s: &mut Src, kind: u64) -> Self {
        // A = R^T D R built from plane rotations: exact spectrum bounds
        let kappa = if N == 1 { 1.0 } else { *s.pick(&[1.0, 3.0, 10.0, 25.0]) };
        let sc = *s.pick(&[1.0, 0.05, 40.0]);
        let mut a = [[0.0; N]; N];
        for i in 0..N { a[i][i] = sc * match i { 0 => 1.0, 1 => kappa, _ => s.f(1.0, kappa) }; }
        if N > 1 && s.bool() {
            for i in 0..N - 1 {
                let (sn, cs) = s.angle(3.0).sin_cos();
                for r in 0..N { let (x, y) = (a[r][i], a[r][i + 1]); a[r][i] = cs * x + sn * y; a[r][i + 1] = cs * y - sn * x; }
                for r in 0..N { let (x, y) = (a[i][r], a[i + 1][r]); a[i][r] = cs * x + sn * y; a[i + 1][r] = cs * y - sn * x; }
            }
        }
        let mut c = [0.0; N];
        for x in c.iter_mut() { *x = s.sym(3.0); }
        let off = if s.chance(1, 4) { s.sym(2.0) } else { 0.0 };
        let (lmin, mut lmax) = (sc, sc * kappa);
        if kind == 1 { lmax += 1.0; }
        Obj { kind, a, c, off, lmax, lmin }
    }
    fn f(&self, x: &[f64; N]) -> f64 {
        let mut q = self.off;
        for i in 0..N { for j in 0..N { q += 0.5 * (x[i] - self.c[i]) * self.a[i][j] * (x[j] - self.c[j]); } }
        match self.kind {
            0 => q,
            3 => { // a barrier: no value outside the positive orthant
                let mut r = self.off;
                for i in 0..N { r += self.bar(i) * x[i] - x[i].ln(); }
                r
            }
            1 => { for i in 0..N { let z = x[i].abs(); q += z + (-2.0 * z).exp().ln_1p() - std::f64::consts::LN_2; } q }
            _ => { // a curved valley
                let mut r = self.off;
                for i in 0..N { r += (1.0 - x[i]) * (1.0 - x[i]); if i + 1 < N { r += 10.0 * (x[i + 1] - x[i] * x[i]).powi(2); } }
                r
            }
        }
    }
    fn bar(&self, i: usize) -> f64 { 0.2 + self.c[i].abs() }
    fn g(&self, x: &[f64; N]) -> [f64; N] {
        let mut g = [0.0; N];
        if self.kind == 3 {
            for i in 0..N { g[i] = self.bar(i) - 1.0 / x[i]; }
        } else if self.kind <= 1 {
            for i in 0..N {
                for j in 0..N { g[i] += self.a[i][j] * (x[j] - self.c[j]); }
                if self.kind == 1 { g[i] += x[i].tanh(); }
            }
        } else {
            for i in 0..N {
                g[i] -= 2.0 * (1.0 - x[i]);
                if i + 1 < N { let t = x[i + 1] - x[i] * x[i]; g[i] -= 40.0 * x[i] * t; g[i + 1] += 20.0 * t; }
            }
        }
        g
    }
}
fn arr<T: Fl, const N: usize>(v: &Vector<T, N>) -> [f64; N] { core::array::from_fn(|i| v[i].f()) }
fn vec_of<T: Fl, const N: usize>(a: &[f64; N]) -> Vector<T, N> { Vector::new(core::array::from_fn(|i| T::of(a[i]))) }
fn nrm<const N: usize>(a: &[f64; N]) -> f64 { a.iter().map(|x| x * x).sum::<f64>().sqrt() }
fn dist<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 { let d: [f64; N] = core::array::from_fn(|i| a[i] - b[i]); nrm(&d) }
fn clampv<const N: usize>(x: &[f64; N], b: &Option<([f64; N], [f64; N])>) -> [f64; N] {
    match b { None => *x, Some((lo, hi)) => core::array::from_fn(|i| x[i].max(lo[i]).min(hi[i])) }
}
fn gen_bounds<const N: usize, T: Fl>(s: &mut Src, c: &[f64; N]) -> Option<([f64; N], [f64; N])> {
    if !s.bool() { return None }
    let mut lo = [f64::NEG_INFINITY; N];
    let mut hi = [f64::INFINITY; N];
    for i in 0..N {
        let w = if s.chance(1, 10) { 0.0 } else { s.logf(0.1, 5.0) };
        let l = c[i] + s.sym(4.0);
        if s.chance(4, 5) { lo[i] = T::of(l).f(); }
        if s.chance(4, 5) { hi[i] = T::of(l + w).f(); }
        if hi[i] < lo[i] { hi[i] = lo[i]; }
    }
    Some((lo, hi))
}
fn inside<const N: usize>(x: &[f64; N], b: &Option<([f64; N], [f64; N])>) -> bool {
    match b { None => true, Some((lo, hi)) => (0..N).all(|i| x[i] >= lo[i] && x[i] <= hi[i]) }
}

// ------------------------------------------------------------------ G02
fn gd_n<T: Fl, const N: usize>(s: &mut Src) -> R {
    let line = s.bool();
    // the curved valley only with a line search: fixed steps may diverge there
    let kind = *s.pick(if line { &[0u64, 0, 0, 1, 1, 2, 2, 3][..] } else { &[0, 0, 1][..] });
    let mut ob = Obj::<N>::gen(s, kind);
    // now and then an objective in units far from one
    let unit = if kind == 0 && line && s.chance(1, 6) { if T::E > 1e-10 { s.logf(1e-3, 1e6) } else { s.logf(1e-6, 1e12) } } else { 1.0 };
    if unit != 1.0 {
        for r in ob.a.iter_mut() { for v in r.iter_mut() { *v *= unit; } }
        ob.lmax *= unit;
        ob.lmin *= unit;
        s.label("objective in large or small units");
    }
    let ob = ob;
    let bounds = if kind == 3 { None } else { gen_bounds::<N, T>(s, &ob.c) };
    let mu = if s.chance(1, 3) { s.f(0.0, 0.95) } else { 0.0 };
    let lrel = if line { s.logf(0.2, 20.0) } else { s.logf(0.05, 1.4) };
    let scale_l = if kind == 2 { 200.0 } else { ob.lmax };
    let lr = T::of(lrel / scale_l).f();
    let c1 = T::of(*s.pick(&[1e-4, 0.1, 0.3])).f();
    let tau = T::of(*s.pick(&[0.5, 0.3, 0.8])).f();
    let tg = T::of(unit * *s.pick(&[1e-6, 1e-4, 1e-2, 0.0])).f();
    let ts = T::of(*s.pick(&[1e-6, 1e-9, 1e-3, 0.0])).f();
    let max = if line { *s.pick(&[20_000u32, 0, 1, 7, 100]) } else { *s.pick(&[60u32, 0, 1, 5, 300]) };
    let start: [f64; N] = core::array::from_fn(|_| { let v = s.sym(5.0); T::of(if kind == 3 { v.abs() + 0.05 } else { v }).f() });
    let st = *s.pick(&[0u8, 1]);
    // settings outside their range fall back to the documented safe value, settings not made keep the documented default
    let odd = if s.chance(1, 5) { 1 + s.draw(6) } else { 0 };
    let c_1 = T::of(1.0);
    let (mut rlr, mut rmu, mut rtau, mut rtg, mut rts) = (T::of(lr), T::of(mu), T::of(tau), T::of(tg), T::of(ts));
    let (mut lr, mut mu, mut c1, mut tau, mut tg, mut ts) = (lr, mu, c1, tau, tg, ts);
    match odd {
        1 => { rmu = T::of(-s.f(0.01, 2.0)); mu = 0.0; }
        2 => { rtau = T::of(-*s.pick(&[0.0, 1.0, 0.3])); tau = 0.5; }
        3 => { rtau = T::of(*s.pick(&[1.0, 1.5, 40.0])); tau = T::of(0.9).f(); }
        4 => { rtg = T::of(-s.f(0.0, 1.0)); rts = T::of(-s.f(0.0, 1.0)); tg = 0.0; ts = 0.0; }
        5 => { rlr = T::of(-s.f(0.0, 1.0)); lr = 0.0; }
        6 => { lr = T::of(1e-2).f(); c1 = T::of(1e-4).f(); tau = 0.5; mu = 0.0; tg = T::of(1e-6).f(); ts = tg; }
        7 if !line => { rmu = c_1 + c_1; mu = T::of(0.999999).f(); }
        _ => {}
    }
    s.label_if((1..=5).contains(&odd) || odd == 7, "setting out of range");
    s.label_if(odd == 6, "documented defaults");
    note!(s, "{} N={N} {ob:?} line={line} bounds={bounds:?} mu={mu} lr={lr} c1={c1} tau={tau} tg={tg} ts={ts} max={max} odd={odd} start={start:?}", T::NAME);
    s.label(if line { "line search" } else { "fixed step" });
    s.label_if(bounds.is_some(), "bounds");
    mu = T::of(mu).f();
    let mut gd = GradientDescentGeneric::<T, N>::new();
    if odd == 6 {
        if !line { gd.backtracking(false); }
        if max != 20_000 { gd.max_iters(max); }
    } else {
        gd.backtracking(line).armijo(T::of(c1), rtau).learning_rate(rlr).momentum(rmu).tolerances(rtg, rts).max_iters(max);
    }
    let max = if odd == 6 && max == 20_000 { 10_000 } else { max };
    if let Some((lo, hi)) = &bounds {
        gd.set_bounds(core::array::from_fn(|i| T::of(lo[i])), core::array::from_fn(|i| T::of(hi[i])));
    } else if st == 1 {
        // bounds that were set and cleared again do not act
        gd.set_bounds([T::of(0.25); N], [T::of(0.25); N]);
        gd.clear_bounds();
    }
    let fe: RefCell<Vec<([f64; N], f64)>> = RefCell::new(vec![]);
    let ge: RefCell<Vec<([f64; N], [f64; N])>> = RefCell::new(vec![]);
    let fun = |x: &Vector<T, N>| { let a = arr(x); let v = T::of(ob.f(&a)); fe.borrow_mut().push((a, v.f())); v };
    let gra = |x: &Vector<T, N>| { let a = arr(x); let g = vec_of::<T, N>(&ob.g(&a)); ge.borrow_mut().push((a, arr(&g))); g };
    let (x, fx, it, conv) = gd.minimize(vec_of::<T, N>(&start), fun, gra);
    let (x, fx) = (arr(&x), fx.f());
    let (fe, ge) = (fe.into_inner(), ge.into_inner());
    s.nt(it >= 3);
    let wild = odd == 6 && !line && lr * scale_l > 1.9; // a fixed default step diverges on steep objectives
    if wild && !(nrm(&x) < 1e100) { return Ok(()) }
    // the log-cosh terms carry rounding of order one
    let kindr = if kind == 1 { N as f64 } else { 0.0 };
    let p0 = clampv(&start, &bounds);
    let f0 = T::of(ob.f(&p0)).f();
    let e = T::E;
    let tiny = if T::E > 1e-10 { 1e-18 } else { 1e-145 }; // squares below this underflow
    if max > 0 && !(f0.is_finite()) { return Err(Fail::new(format!("generator: start {p0:?}"))) }
    ensure!(fx == T::of(ob.f(&x)).f(), "returned value {fx} is not the objective at the returned point {x:?}");
    ensure!(inside(&x, &bounds), "returned point {x:?} violates the bounds");
    ensure!(it <= max && ge.len() as u64 <= it as u64 + 1, "{it} iterations, {} gradients, limit {max}", ge.len());
    ensure!(conv || it == max, "stopped after {it} of {max} iterations without convergence");
    if ge.is_empty() {
        ensure!(max == 0 && !conv, "no gradient was evaluated, converged={conv}");
        return ensure_eq(&x, &p0);
    }
    // iterates: points where the gradient was taken, then the returned point
    let mut its: Vec<[f64; N]> = ge.iter().map(|p| p.0).collect();
    ensure!(its[0] == p0, "first iterate {:?} is not the (projected) start {p0:?}", its[0]);
    let by_grad = its[its.len() - 1] == x && it as usize == its.len() - 1;
    if !by_grad { its.push(x); }
    ensure!(its.len() == it as usize + 1, "{it} iterations reported, {} steps taken", its.len() - 1);
    for (a, _) in &ge { ensure!(inside(a, &bounds), "iterate {a:?} violates the bounds"); }
    let mut moved = [0.0; N];
    let mut amin = lr;
    for k in 0..its.len() - 1 {
        let (p, q) = (its[k], its[k + 1]);
        let g = ge[k].1;
        let gn = nrm(&g);
        ensure!(gn > tg * (1.0 - 8.0 * e) - tiny, "went on from {p:?} with gradient norm {gn:e} <= {tg:e}");
        let mag = nrm(&p) + nrm(&q) + lr * gn;
        if !line {
            let t: [f64; N] = core::array::from_fn(|i| p[i] - lr * g[i] + mu * moved[i]);
            let w = clampv(&t, &bounds);
            let d = dist(&w, &q);
            ensure!(d.is_finite() || !nrm(&w).is_finite(), "step {k}: {q:?}, recursion gives {w:?}");
            ensure!(d <= 16.0 * e * mag, "step {k}: {q:?}, recursion gives {w:?} (x - lr g + mu v; g={g:?}, v={moved:?})");
        } else {
            let (fp, fq) = (T::of(ob.f(&p)).f(), T::of(ob.f(&q)).f());
            ensure!(fq <= fp, "step {k} of the line search goes up from {fp} to {fq}");
            if q != p {
                // q = P(p + a d) with a = lr tau^j, first to meet the Armijo decrease; d = -g + mu v
                // where that descends, otherwise -g
                let dm: [f64; N] = core::array::from_fn(|i| -g[i] + mu * moved[i]);
                let sl: f64 = (0..N).map(|i| g[i] * dm[i]).sum();
                let unsure = 32.0 * e * gn * (gn + mu * nrm(&moved)) + tiny * tiny;
                let neg: [f64; N] = core::array::from_fn(|i| -g[i]);
                let dirs: &[[f64; N]] = if mu == 0.0 || sl > unsure { &[neg] } else if sl < -unsure { &[dm] } else { &[dm, neg] };
                s.label_if(mu != 0.0 && sl < -unsure && k == 1, "line search along the momentum direction");
                let mut why = String::new();
                let mut good = None;
                for d in dirs {
                    let mut a = lr;
                    let mag = mag + lr * nrm(d);
                    let mut ok = false;
                    for _ in 0..400 {
                        let t: [f64; N] = core::array::from_fn(|i| p[i] + a * d[i]);
                        let w = clampv(&t, &bounds);
                        let dec: f64 = if bounds.is_some() { (0..N).map(|i| g[i] * (w[i] - p[i])).sum::<f64>().min(0.0) } else { a * (0..N).map(|i| g[i] * d[i]).sum::<f64>() };
                        let mut sens = gn;
                        if kind == 3 { for v in w { sens += 1.0 / v.abs().max(1e-300); } }
                        let fuzz = 64.0 * e * (fp.abs() + fq.abs() + sens * mag + kindr) + tiny * tiny;
                        if dist(&w, &q) <= 64.0 * e * mag {
                            ok = true;
                            if fq > fp + c1 * dec + fuzz { why = format!("accepted without sufficient decrease: {fp} -> {fq}, slope {dec}, c1 {c1}"); ok = false; }
                            break;
                        }
                        // an earlier trial was rejected: it must have failed
                        let fw = ob.f(&w);
                        let edge = kind == 3 && w.iter().any(|v| v.abs() <= 64.0 * e * mag); // on the border of the domain rounding decides
                        if fw <= fp + c1 * dec - fuzz && !edge { why = format!("trial with step {a} meets the decrease ({fp} -> {fw}) but was not taken"); break; }
                        a *= tau;
                    }
                    if ok { good = Some(a); break }
                    if why.is_empty() { why = format!("{q:?} is not on the projected path from {p:?} along {d:?} (g={g:?})"); }
                }
                match good { Some(a) => amin = amin.min(a), None => return Err(Fail::new(format!("step {k}: {why}"))) }
            }
        }
        moved = core::array::from_fn(|i| q[i] - p[i]);
        let last = k + 2 == its.len();
        let sn = nrm(&moved);
        if !last || by_grad {
            ensure!(sn > ts * (1.0 - 8.0 * e) - tiny, "went on after a step of {sn:e} <= {ts:e}");
        } else if conv {
            ensure!(sn <= ts * (1.0 + 8.0 * e) + tiny, "reported convergence after a step of {sn:e} > {ts:e} with gradient norm {gn:e}");
        }
    }
    if by_grad {
        let gn = nrm(&ge[ge.len() - 1].1);
        if conv { ensure!(gn <= tg * (1.0 + 8.0 * e) + tiny, "reported convergence with gradient norm {gn:e} > {tg:e}"); }
    }
    if line { ensure!(fx <= f0, "result {fx} is worse than the start {f0}"); }
    for (a, _) in &fe { ensure!(inside(a, &bounds) || *a == start, "objective evaluated outside the bounds at {a:?}"); }
    // convergence on strongly convex problems
    if line && mu == 0.0 && kind <= 1 && max == 20_000 && lr > 0.0 && c1 >= 0.09 && T::E < 1e-10 {
        let g = ob.g(&x);
        let t: [f64; N] = core::array::from_fn(|i| x[i] - g[i] / ob.lmax);
        let w = clampv(&t, &bounds);
        let res = dist(&w, &x) * ob.lmax; // projected gradient
        let amin = lr.min(2.0 * tau * (1.0 - c1) / ob.lmax);
        // rounding of the objective limits what a line search can see
        let fl = (e * (ob.off.abs() + fx.abs() + kindr) * ob.lmax).sqrt() * 100.0 + 1e4 * e * ob.lmax * (1.0 + nrm(&x) + nrm(&ob.c));
        let lim = tg.max(3.0 * (ts / amin.min(1.0 / ob.lmax) + ob.lmax * ts)) + fl;
        ensure!(res <= lim, "after {it} iterations (converged: {conv}) the point is {x:?} where the projected gradient is {res:e} (limit {lim:e})");
        s.label("driven to the minimiser");
    }
    let _ = (amin, ob.lmin);
    Ok(())
}
fn ensure_eq<const N: usize>(a: &[f64; N], b: &[f64; N]) -> R {
    ensure!(a == b, "point {a:?} instead of {b:?}");
    Ok(())
}
fn gd_case(s: &mut Src) -> R {
    if s.chance(1, 20) { return gd_n::<f64, 17>(s) }
    match s.draw(5) { 0 => gd_n::<f64, 1>(s), 1 => gd_n::<f64, 2>(s), 2 => gd_n::<f64, 3>(s), 3 => gd_n::<f64, 5>(s), 4 => gd_n::<f32, 2>(s), _ => gd_n::<f32, 3>(s) }
}

// ------------------------------------------------------------------ G03
#[derive(Clone)]
struct Cfg<const N: usize> { lr: f64, decay: f64, mu: f64, bs: u32, beta: f64, tg: f64, ts: f64, tf: f64, min: u32, max: u32, corr: bool, bounds: Option<([f64; N], [f64; N])> }
fn cfg<const N: usize, T: Fl>(s: &mut Src, ob: &Obj<N>, parallel: bool) -> Cfg<N> {
    let r = |x: f64| T::of(x).f();
    Cfg {
        lr: r(s.logf(0.02, 1.2) / ob.lmax), decay: r(*s.pick(&[1e-3, 0.0, 0.1, 1.0])), mu: if s.bool() { r(s.f(0.0, 0.95)) } else { 0.0 },
        bs: if s.chance(1, 60) { s.range(10, 150) } else { s.range(1, if parallel { 9 } else { 6 }) } as u32, beta: r(*s.pick(&[0.9, 0.0, 0.5, 0.99])),
        tg: r(*s.pick(&[1e-4, 0.0, 0.5, 1e-2])), ts: r(*s.pick(&[1e-8, 0.0, 1e-2])), tf: if s.chance(1, 3) { r(s.logf(0.01, 5.0)) } else { 0.0 },
        min: *s.pick(&[0u32, 0, 3, 20]), max: *s.pick(&[40u32, 0, 1, 2, 15]), corr: s.bool(), bounds: gen_bounds::<N, T>(s, &ob.c),
    }
}
/// out-of-range settings: what is handed to the setters; `c` becomes what must act
fn odd_settings<const N: usize>(s: &mut Src, c: &mut Cfg<N>, cap: f64) -> Cfg<N> {
    let mut raw = c.clone();
    if !s.chance(1, 4) { return raw }
    s.label("setting out of range");
    let neg = |s: &mut Src| -(*s.pick(&[1.0, 0.25, 1e-3, 1e6]));
    match s.draw(9) {
        0 => { raw.lr = neg(s); c.lr = 0.0; }
        1 => { raw.decay = neg(s); c.decay = 0.0; }
        2 => { raw.mu = neg(s); c.mu = 0.0; }
        3 => { raw.bs = 0; c.bs = 1; }
        4 => { raw.beta = neg(s); c.beta = 0.0; }
        5 => { raw.tg = neg(s); c.tg = 0.0; }
        6 => { raw.ts = neg(s); c.ts = 0.0; }
        7 => { raw.tf = neg(s); c.tf = 0.0; }
        8 => { raw.tf = neg(s); raw.ts = neg(s); raw.tg = neg(s); c.tf = 0.0; c.ts = 0.0; c.tg = 0.0; }
        _ => { raw.mu = 1.0 - neg(s); c.mu = cap; c.max = c.max.min(40); }
    }
    raw
}
/// check one run from what the callbacks saw: `calls` in batches per iteration
#[allow(clippy::too_many_arguments)]
fn check_run<const N: usize>(c: &Cfg<N>, e: f64, start: &[f64; N], ob: &dyn Fn(&[f64; N]) -> f64, calls: &[([f64; N], [f64; N])], x: &[f64; N], fx: f64, it: u32, conv: bool) -> R {
    let bs = c.bs as usize;
    ensure!(fx == ob(x) || (fx.is_nan() && ob(x).is_nan()), "returned value {fx} is not the objective {} at the returned point {x:?}", ob(x));
    ensure!(inside(x, &c.bounds), "returned point {x:?} violates the bounds");
    ensure!(it <= c.max, "{it} iterations, limit {}", c.max);
    ensure!(conv || it == c.max, "stopped after {it} of {} iterations without convergence", c.max);
    ensure!(calls.len() % bs == 0, "{} gradient samples do not make whole batches of {bs}", calls.len());
    let p0 = clampv(start, &c.bounds);
    let mut its = vec![];
    let mut gs = vec![];
    for b in calls.chunks(bs) {
        let mut g = [0.0; N];
        for (p, gi) in b {
            ensure!(*p == b[0].0, "one batch sampled at two points {p:?} {:?}", b[0].0);
            for i in 0..N { g[i] += gi[i] / bs as f64; }
        }
        its.push(b[0].0);
        gs.push((g, b.iter().map(|q| nrm(&q.1)).sum::<f64>() / bs as f64));
    }
    if its.is_empty() {
        ensure!(c.max == 0 && !conv && *x == p0, "no gradient sampled: x={x:?} converged={conv}");
        return Ok(());
    }
    ensure!(its[0] == p0, "first iterate {:?} is not the (projected) start {p0:?}", its[0]);
    // stopped before a step: the batch was drawn at the returned point and no step was counted
    let before = it as usize + 1 == its.len();
    if before { ensure!(its[it as usize] == *x, "returned {x:?}, but the last iterate is {:?}", its[it as usize]); } else { its.push(*x); }
    ensure!(its.len() == it as usize + 1, "{it} iterations reported, {} batches", gs.len());
    let (mut v, mut ema) = ([0.0; N], 0.0);
    for k in 0..gs.len() {
        let (g, gm) = gs[k];
        let p = its[k];
        ensure!(inside(&p, &c.bounds), "iterate {p:?} violates the bounds");
        ema = c.beta * ema + (1.0 - c.beta) * nrm(&g);
        let hat = if c.corr { ema / (1.0 - c.beta.powi(k as i32 + 1)) } else { ema };
        let slack = 1e3 * e * (hat + gm);
        let fp = ob(&p);
        let patient = k as u32 >= c.min;
        let certainly = patient && (hat + slack < c.tg || (c.tf > 0.0 && fp <= c.tf));
        let maybe = patient && (hat - slack <= c.tg || (c.tf > 0.0 && fp <= c.tf));
        if before && k == it as usize {
            ensure!(conv && maybe, "stopped at iteration {k} with mean gradient norm {hat:e} (limit {:e}), value {fp} (limit {}), patience {}", c.tg, c.tf, c.min);
            return Ok(());
        }
        ensure!(!certainly, "went on at iteration {k} with mean gradient norm {hat:e} <= {:e} or value {fp} <= {}", c.tg, c.tf);
        let a = c.lr / (1.0 + c.decay * k as f64);
        let tiny = if e > 1e-10 { 1e-18 } else { 1e-150 };
        let q = its[k + 1];
        let t: [f64; N] = core::array::from_fn(|i| p[i] - a * g[i] + c.mu * v[i]);
        let w = clampv(&t, &c.bounds);
        let tol = 64.0 * e * (nrm(&p) + nrm(&q) + a * gm + c.mu * nrm(&v)) + 1e-300;
        ensure!(dist(&w, &q) <= tol, "iteration {k}: {q:?}, recursion gives {w:?} (rate {a}, mean gradient {g:?}, momentum {} x {v:?})", c.mu);
        v = core::array::from_fn(|i| q[i] - p[i]);
        let sn = nrm(&v);
        let last = k + 1 == gs.len();
        if !last || !conv { ensure!(!(patient && sn <= c.ts * (1.0 - 8.0 * e) - tiny && !(sn == 0.0 && c.ts == 0.0)), "went on after a step of {sn:e} <= {:e}", c.ts); }
        if last && conv { ensure!(patient && sn <= c.ts * (1.0 + 8.0 * e) + tiny, "reported convergence after a step of {sn:e} > {:e}", c.ts); }
    }
    Ok(())
}
fn sgd_n<const N: usize>(s: &mut Src, deep: bool) -> R {
    let kind = s.draw(1);
    let ob = Obj::<N>::gen(s, kind);
    let mut c = cfg::<N, f64>(s, &ob, false);
    let mut noise = *s.pick(&[1.0, 0.0, 0.1]);
    if deep {
        c.max = *s.pick(&[300u32, 700, 1500, 70_000]);
        if c.max > 2000 && !s.chance(1, 8) { c.max = 5000 }
        c.min = *s.pick(&[0, 0, 260]);
        noise = 1.0;
        if s.chance(4, 5) { c.tg = 0.0; c.ts = 0.0; c.tf = 0.0; }
    }
    let raw = odd_settings(s, &mut c, 0.999999);
    // settings not made keep their documented defaults
    let leave = if !deep && s.chance(1, 6) { s.draw(255) } else { 0 };
    s.label_if(leave != 0, "some documented defaults");
    for (bit, f) in [(0, &mut c.lr), (1, &mut c.decay), (2, &mut c.mu), (4, &mut c.beta)].into_iter().zip([1e-2, 1e-3, 0.0, 0.9]).map(|((b, f), d)| (b, (f, d))) { if leave >> bit & 1 == 1 { *f.0 = f.1; } }
    if leave >> 3 & 1 == 1 { c.bs = 1; }
    if leave >> 5 & 1 == 1 { c.tg = 1e-4; c.ts = 1e-8; }
    if leave >> 6 & 1 == 1 { c.tf = 0.0; c.min = 0; }
    if leave >> 7 & 1 == 1 { c.corr = true; }
    let unbound = c.bounds.is_none() && s.chance(1, 3);
    let start: [f64; N] = core::array::from_fn(|_| s.sym(5.0));
    let seed = s.draw(u64::MAX);
    note!(s, "N={N} {ob:?} lr={} decay={} mu={} batch={} beta={} tg={} ts={} tf={} min={} max={} corr={} bounds={:?} noise={noise} start={start:?} seed={seed}", c.lr, c.decay, c.mu, c.bs, c.beta, c.tg, c.ts, c.tf, c.min, c.max, c.corr, c.bounds);
    let make = |seed| {
        let mut o = GDStochastic::<N>::new(seed);
        o.max_iters(c.max);
        let set = |b: u32| leave >> b & 1 == 0;
        if set(0) { o.learning_rate(raw.lr); }
        if set(1) { o.decay(raw.decay); }
        if set(2) { o.momentum(raw.mu); }
        if set(3) { o.batch_size(raw.bs); }
        if set(4) { o.ema(raw.beta); }
        if set(5) { o.tolerances(raw.tg, raw.ts); }
        if set(6) { o.tol_f(raw.tf).min_iters(c.min); }
        if set(7) { o.bias_corrected_ema(c.corr); }
        if unbound { o.set_bounds([0.25; N], [0.5; N]).clear_bounds(); }
        if let Some((lo, hi)) = c.bounds { o.set_bounds(lo, hi); }
        o
    };
    let run = |o: &mut GDStochastic<N>| {
        let calls = RefCell::new(vec![]);
        let draws = RefCell::new(vec![]);
        let r = o.minimize(vec_of(&start), |x| ob.f(&arr(x)), |x, rng| {
            let p = arr(x);
            let mut g = ob.g(&p);
            let u = rng.next_u64();
            draws.borrow_mut().push(u);
            for t in g.iter_mut() { *t += noise * ((u >> 11) as f64 / (1u64 << 53) as f64 - 0.5); }
            calls.borrow_mut().push((p, g));
            Vector::new(g)
        });
        (r.0, r.1, r.2, r.3, calls.into_inner(), draws.into_inner())
    };
    let mut o = make(seed);
    let a = run(&mut o);
    s.nt(a.2 >= 3);
    s.label_if(c.bounds.is_some(), "bounds");
    s.label_if(c.bs > 1, "batches");
    check_run(&c, f64::EPSILON, &start, &|p| ob.f(p), &a.4, &arr(&a.0), a.1, a.2, a.3)?;
    let b = run(&mut make(seed));
    ensure!(arr(&a.0) == arr(&b.0) && a.1.to_bits() == b.1.to_bits() && a.2 == b.2 && a.3 == b.3 && a.5 == b.5, "two runs with seed {seed} differ: {:?} {:?}", arr(&a.0), arr(&b.0));
    let mut u = a.5.clone();
    u.sort();
    u.dedup();
    ensure!(u.len() == a.5.len(), "gradient samples reuse random draws: {} distinct of {}", u.len(), a.5.len());
    if !a.5.is_empty() {
        let d = run(&mut make(seed ^ 1 ^ s.draw(u64::MAX - 1).wrapping_shl(1)));
        ensure!(d.5.first() != a.5.first(), "different seeds give the same draws");
    }
    Ok(())
}
fn sgd_case(s: &mut Src) -> R {
    if s.chance(1, 40) { return sgd_n::<17>(s, false) }
    match s.draw(2) { 0 => sgd_n::<1>(s, false), 1 => sgd_n::<2>(s, false), _ => sgd_n::<4>(s, false) }
}
fn sgd_deep(s: &mut Src) -> R {
    match s.draw(1) { 0 => sgd_n::<1>(s, true), _ => sgd_n::<2>(s, true) }
}
fn par_n<T: Fl, const N: usize>(s: &mut Src, deep: bool) -> R {
    let ob = Obj::<N>::gen(s, 0);
    let mut c = cfg::<N, T>(s, &ob, true);
    c.corr = true;
    c.max = c.max.min(15);
    let mut noise = *s.pick(&[1.0, 0.0, 0.1]);
    let mut raw = odd_settings(s, &mut c, 1.0);
    c.max = c.max.min(15);
    if deep {
        raw = c.clone();
        c.max = *s.pick(&[300u32, 300, 300, 700]);
        c.bs = c.bs.min(2);
        noise = 1.0;
        c.tg = 0.0;
        c.ts = 0.0;
        c.tf = 0.0;
        raw = c.clone();
    }
    let unbound = c.bounds.is_none() && s.chance(1, 3);
    let start: [f64; N] = core::array::from_fn(|_| T::of(s.sym(5.0)).f());
    let seed = 1 + s.draw(u64::MAX - 1);
    let threads = if deep { s.range(1, 2) } else if s.chance(1, 30) { s.range(6, 24) } else { s.range(1, 5) };
    note!(s, "{} N={N} {ob:?} threads={threads} lr={} decay={} mu={} batch={} beta={} tg={} ts={} tf={} min={} max={} bounds={:?} noise={noise} start={start:?} seed={seed}", T::NAME, c.lr, c.decay, c.mu, c.bs, c.beta, c.tg, c.ts, c.tf, c.min, c.max, c.bounds);
    let mut o = GDStochasticParallel::<T, N>::new(seed);
    o.learning_rate(T::of(raw.lr)).decay(T::of(raw.decay)).momentum(T::of(raw.mu)).batch_size(raw.bs).ema(T::of(raw.beta)).tolerances(T::of(raw.tg), T::of(raw.ts)).max_iters(c.max).tol_f(T::of(raw.tf)).min_iters(c.min);
    // without a setting the machine decides the number of threads
    let auto = s.chance(1, 12);
    if !auto { o.threads(if threads == 1 && s.bool() { 0 } else { threads }); }
    if let Some((lo, hi)) = &c.bounds { o.set_bounds(core::array::from_fn(|i| T::of(lo[i])), core::array::from_fn(|i| T::of(hi[i]))); }
    if unbound { o.set_bounds([T::of(0.25); N], [T::of(0.5); N]); o.clear_bounds(); }
    let run = |sched: u64| {
        let log = Mutex::new((vec![], vec![]));
        let r = o.minimize(vec_of::<T, N>(&start), |x| T::of(ob.f(&arr(x))), |x, rng| {
            let p = arr(x);
            let u = rng.next_u64();
            if sched != 0 {
                // perturb the schedule
                match mix(sched ^ u) % 8 { 0 => std::thread::sleep(std::time::Duration::from_micros(mix(u) % 120)), 1..=3 => std::thread::yield_now(), _ => {} }
            }
            let mut g = ob.g(&p);
            for t in g.iter_mut() { *t = T::of(*t + noise * ((u >> 11) as f64 / (1u64 << 53) as f64 - 0.5)).f(); }
            let mut l = log.lock().unwrap();
            l.0.push((p, g));
            l.1.push(u);
            vec_of::<T, N>(&g)
        });
        let l = log.into_inner().unwrap();
        (arr(&r.0), r.1.f(), r.2, r.3, l.0, l.1)
    };
    let a = run(0);
    s.nt(a.2 >= 3 && (deep || threads > 1 && c.bs > 1));
    s.label_if(threads > 1 && c.bs as usize > threads, "several samples per thread");
    s.label_if(threads > c.bs as usize, "more threads than samples");
    check_run(&c, T::E, &start, &|p| T::of(ob.f(p)).f(), &a.4, &a.0, a.1, a.2, a.3)?;
    let b = run(1 + s.draw(1 << 40));
    ensure!(a.0 == b.0 && a.1.to_bits() == b.1.to_bits() && a.2 == b.2 && a.3 == b.3, "two runs with seed {seed} under different schedules differ: {:?} {} {:?} {}", a.0, a.2, b.0, b.2);
    let (mut ua, mut ub) = (a.5, b.5);
    let n = ua.len();
    ua.sort();
    ub.sort();
    ensure!(ua == ub, "two runs with seed {seed} drew different samples");
    ua.dedup();
    ensure!(ua.len() == n, "threads or iterations share random draws: {} distinct of {n}", ua.len());
    Ok(())
}
fn par_case(s: &mut Src) -> R {
    if s.chance(1, 20) { return par_n::<f64, 17>(s, false) }
    match s.draw(2) { 0 => par_n::<f64, 2>(s, false), 1 => par_n::<f32, 2>(s, false), _ => par_n::<f64, 3>(s, false) }
}
fn par_deep(s: &mut Src) -> R { par_n::<f64, 1>(s, true) }
/// long runs: the noise averages out around the minimiser
fn sgd_long(s: &mut Src) -> R {
    const N: usize = 2;
    let mut ob = Obj::<N>::gen(s, 0);
    ob.off = 1.0;
    let kap = ob.lmax / ob.lmin;
    let par = s.chance(1, 6);
    let mut c = Cfg::<N> { lr: 0.3 / ob.lmax, decay: 0.02 / kap, mu: 0.0, bs: 4, beta: 0.9, tg: 0.0, ts: 0.0, tf: 0.0, min: 0, max: if par { 1500 } else { 6000 }, corr: true, bounds: None };
    let seed = s.draw(u64::MAX);
    let start: [f64; N] = core::array::from_fn(|_| s.sym(5.0));
    let noise = s.f(0.0, 1.0) * ob.lmax;
    note!(s, "{ob:?} par={par} seed={seed} start={start:?} noise={noise}");
    s.nt(noise > 0.0);
    let grad = |x: &Vector<f64, N>, rng: &mut XorShift64Star| { let mut g = ob.g(&arr(x)); for t in g.iter_mut() { *t += noise * (rng.next_f64() - 0.5); } Vector::new(g) };
    let f = |x: &Vector<f64, N>| ob.f(&arr(x));
    if par { c.decay = 0.08 / kap; }
    let r = if par {
        let mut o = GDStochasticParallel::<f64, N>::new(seed);
        o.learning_rate(c.lr).decay(c.decay).batch_size(c.bs).tolerances(0.0, 0.0).max_iters(c.max).threads(2);
        o.minimize(vec_of(&start), f, grad)
    } else {
        let mut o = GDStochastic::<N>::new(seed);
        o.learning_rate(c.lr).decay(c.decay).batch_size(c.bs).tolerances(0.0, 0.0).max_iters(c.max);
        o.minimize(vec_of(&start), f, grad)
    };
    // stationary spread of the last iterates: variance about a * sd^2 / (2 lambda bs)
    let a = c.lr / (1.0 + c.decay * c.max as f64);
    let sd = (a * noise * noise / 12.0 / (2.0 * ob.lmin * c.bs as f64)).sqrt();
    // what remains of the start: product of (1 - a_k lambda_min)
    let left = 12.0 * (-(c.lr * ob.lmin / c.decay.max(1e-12)) * (1.0 + c.decay * c.max as f64).ln()).exp();
    let d = dist(&arr(&r.0), &ob.c);
    let lim = 20.0 * sd + left + 1e-9;
    ensure!(d <= lim, "after {} noisy steps the point is {d} away from the minimiser (allowed {lim:e})", r.2);
    Ok(())
}

// ------------------------------------------------------------------ G04
struct Ref(u64);
impl Ref {
    fn new(seed: u64) -> Ref { Ref(if seed == 0 { 0x9E37_79B9_7F4A_7C15 } else { seed }) }
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(2685821657736338717)
    }
}
/// the state before the step that outputs `y`
fn seed_for(y: u64) -> u64 {
    let m = 2685821657736338717u64;
    let mut inv = 1u64;
    for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(m.wrapping_mul(inv))); }
    let x = y.wrapping_mul(inv);
    let mut a = x;
    for _ in 0..3 { a = x ^ (a >> 27); }
    let x = a;
    for _ in 0..3 { a = x ^ (a << 25); }
    let x = a;
    for _ in 0..6 { a = x ^ (a >> 12); }
    a
}
fn gen_seed(s: &mut Src) -> u64 {
    match s.draw(5) {
        0 => s.draw(3),
        1 => 1u64 << s.draw(63),
        2 => { // outputs at the ends of the range
            let k = s.range(20, 60);
            let y = match s.draw(3) { 0 => u64::MAX - s.draw(1 << 11), 1 => u64::MAX - s.draw(u64::MAX >> k), 2 => s.draw(1 << 12), _ => s.draw(u64::MAX >> k) };
            seed_for(y)
        }
        _ => s.draw(u64::MAX),
    }
}
fn rng_stream(s: &mut Src) -> R {
    let seeds = [gen_seed(s), gen_seed(s)];
    note!(s, "seeds {seeds:?}");
    let mut a = [XorShift64Star::new(seeds[0]), XorShift64Star::new(seeds[1])];
    let mut r = [Ref::new(seeds[0]), Ref::new(seeds[1])];
    let n = s.range(1, 30);
    s.nt(n > 4);
    for i in 0..n {
        let w = s.draw(1) as usize;
        let op = s.draw(6);
        let (g, q) = (&mut a[w], &mut r[w]);
        match op {
            0 | 1 => { let (x, y) = (g.next_u64(), q.next()); ensure!(x == y, "draw {i} of generator {w}: {x:#x}, xorshift64* gives {y:#x}"); }
            2 => {
                let (x, y) = (g.next_f64(), q.next());
                ensure!((0.0..1.0).contains(&x), "f64 draw {x} outside [0,1)");
                ensure!((x - y as f64 / 18446744073709551616.0).abs() <= 2.3e-16, "f64 draw {x} is not the output {y:#x} as a fraction");
            }
            3 => {
                let (x, y): (f64, u64) = (g.next_real(), q.next());
                ensure!((0.0..1.0).contains(&x) && (x - y as f64 / 18446744073709551616.0).abs() <= 2.3e-16, "f64 draw {x} for output {y:#x}");
            }
            4 => {
                let (x, y): (f32, u64) = (g.next_real(), q.next());
                ensure!((0.0..1.0).contains(&x), "f32 draw {x} outside [0,1) for output {y:#x}");
                ensure!((x as f64 - y as f64 / 18446744073709551616.0).abs() <= 1.2e-7, "f32 draw {x} is not the output {y:#x} as a fraction");
            }
            5 => {
                let x = g.normal01();
                q.next();
                q.next();
                ensure!(x.is_finite() && x.abs() < 12.5, "normal draw {x}");
            }
            _ => {
                let x: f32 = g.normal01_real();
                q.next();
                q.next();
                ensure!(x.is_finite() && x.abs() < 12.5, "f32 normal draw {x}");
            }
        }
        if op == 4 { s.label("f32 draw"); }
    }
    // copies go on with the same stream
    let mut c = a[0];
    let (x, y, z) = (c.next_u64(), a[0].next_u64(), r[0].next());
    ensure!(x == y && x == z, "after the history a copy draws {x:#x}, the generator {y:#x}, the sequence {z:#x}");
    Ok(())
}
fn phi(x: f64) -> f64 {
    // normal distribution function by the series / continued fraction
    let z = x.abs();
    if z > 8.0 { return if x > 0.0 { 1.0 } else { 0.0 } }
    let pdf = (-z * z / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    let mut t = z;
    let mut sum = z;
    let mut k = 1.0;
    while t.abs() > 1e-17 * sum.abs() && k < 400.0 { t *= z * z / (2.0 * k + 1.0); sum += t; k += 1.0; }
    let p = 0.5 + pdf * sum;
    if x >= 0.0 { p } else { 1.0 - p }
}
fn ks(mut v: Vec<f64>, cdf: impl Fn(f64) -> f64) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len() as f64;
    v.iter().enumerate().map(|(i, &x)| { let c = cdf(x); (c - i as f64 / n).abs().max((c - (i + 1) as f64 / n).abs()) }).fold(0.0, f64::max)
}
fn rng_stat(s: &mut Src) -> R {
    let seed = mix(s.draw(u64::MAX));
    let n = 4000;
    let mode = s.draw(3);
    note!(s, "seed {seed} mode {mode}");
    s.nt(true);
    let mut g = XorShift64Star::new(seed);
    let v: Vec<f64> = (0..n).map(|_| match mode { 0 => g.next_f64(), 1 => g.next_real::<f32>() as f64, 2 => g.normal01(), _ => g.normal01_real::<f32>() as f64 }).collect();
    let (mean, var) = if mode < 2 { (0.5, 1.0 / 12.0) } else { (0.0, 1.0) };
    let m = v.iter().sum::<f64>() / n as f64;
    let z = (m - mean) / (var / n as f64).sqrt();
    ensure!(z.abs() < 7.0, "mean {m} of {n} draws is {z:.1} standard errors off");
    let w = v.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n as f64;
    let k = if mode < 2 { 1.0 / 180.0 } else { 2.0 };
    let z = (w - var) / (k / n as f64 as f64).sqrt();
    ensure!(z.abs() < 8.0, "variance {w} of {n} draws is {z:.1} standard errors off");
    let c = v.windows(2).map(|p| (p[0] - mean) * (p[1] - mean)).sum::<f64>() / var / (n as f64).sqrt();
    ensure!(c.abs() < 7.0, "consecutive draws correlate: {c:.1} standard errors");
    // Kolmogorov distance; exceeds 3.6/sqrt(n) with probability below 2e-11
    let d = if mode < 2 { ks(v, |x| x) } else { ks(v, phi) };
    ensure!(d * (n as f64).sqrt() < 3.6, "distribution differs: Kolmogorov distance {d}");
    Ok(())
}

/// many draws of one generator: how many fall beyond each of a ladder of levels
fn rng_tail(s: &mut Src) -> R {
    let seed = mix(s.draw(u64::MAX));
    let mode = s.draw(1);
    let n = 4_000_000;
    note!(s, "seed {seed} mode {mode}");
    s.nt(true);
    let mut g = XorShift64Star::new(seed);
    let levels = [-4.4, -4.0, -3.7, -3.3, -3.0, -2.5, -2.0, -1.0, 0.0, 1.0, 2.0, 2.5, 3.0, 3.3, 3.7, 4.0, 4.4];
    let mut c = [0u32; 17];
    for _ in 0..n {
        let x = if mode == 0 { g.normal01() } else { g.normal01_real::<f32>() as f64 };
        for (k, l) in levels.iter().enumerate() { if if *l < 0.0 { x < *l } else { x > *l } { c[k] += 1 } }
    }
    for (k, l) in levels.iter().enumerate() {
        let e = n as f64 * phi(-l.abs());
        // binomial: eight standard deviations and a few more for the small counts
        ensure!((c[k] as f64 - e).abs() < 8.0 * e.sqrt() + 12.0, "{} of {n} normal draws beyond {l}, expected {e:.1}", c[k]);
    }
    Ok(())
}

pub fn register(r: &mut Registry) {
    r.add("G04", "normal tails", 1, "every case: 4000000 draws of a fresh generator", rng_tail);
    r.add("G02", "descent", 100, "at least three iterations", gd_case);
    r.add("G03", "sequential", 100_000, "at least three iterations", sgd_case);
    let p = r.add("G03", "parallel", 400, "at least three iterations, several threads and a batch", par_case);
    p.serial = true;
    r.add("G03", "sequential, many iterations", 100, "at least three iterations; 300 to 70000 allowed", sgd_deep);
    let p = r.add("G03", "parallel, many iterations", 4, "at least three iterations; 300 to 1200 allowed", par_deep);
    p.serial = true;
    r.add("G03", "long noisy runs", 3, "noise present", sgd_long);
    r.add("G04", "stream", 90_000, "more than four draws", rng_stream);
    r.add("G04", "statistics", 1250, "every case: 4000 draws of a fresh generator", rng_stat);
}
#[allow(dead_code)]
fn _r<T: Real>() {}
