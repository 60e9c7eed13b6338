//! I03 view transforms and the orbit camera.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::ICRF;
use aether_graphics::cameras::orbit_camera::OrbitCamera;
use aether_graphics::graphics::transforms::*;
use std::f64::consts::PI;

type P<T> = Cartesian<T, ICRF<T>>;
fn v3<T: Fl>(a: V3) -> Vector<T, 3> { Vector::new([T::of(a[0]), T::of(a[1]), T::of(a[2])]) }
fn pt<T: Fl>(a: V3) -> P<T> { Cartesian::new(T::of(a[0]), T::of(a[1]), T::of(a[2])) }
fn r3<T: Fl>(a: V3) -> V3 { [T::of(a[0]).f(), T::of(a[1]).f(), T::of(a[2]).f()] }
fn out<T: Fl>(v: &Vector<T, 3>) -> V3 { [v[0].f(), v[1].f(), v[2].f()] }
fn app<T: Fl>(m: &Matrix<T, 4, 4>, p: V3) -> [f64; 4] {
    core::array::from_fn(|i| (0..3).map(|j| m.data[i][j].f() * p[j]).sum::<f64>() + m.data[i][3].f())
}
fn anyv(s: &mut Src, k: f64) -> V3 {
    match s.draw(3) {
        0 => core::array::from_fn(|_| s.irange(-2, 2) as f64 * k),
        1 => { let i = s.range(0, 2); let mut a = [0.0; 3]; a[i] = s.sgn() * k; a }
        _ => core::array::from_fn(|_| s.sym(k)),
    }
}
fn look<T: Fl>(s: &mut Src) -> R {
    let k = s.logf(1e-3, 1e3);
    let eye = r3::<T>(if s.chance(1, 4) { [0.0; 3] } else { let m = s.logf(0.1, 100.0); anyv(s, k * m) });
    let d = anyv(s, k);
    let tgt = r3::<T>(add(eye, d));
    let uk = s.logf(1e-2, 1e2);
    let up = r3::<T>(match s.draw(2) { 0 => *s.pick(&[[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]]), _ => anyv(s, uk) });
    let dir = sub(tgt, eye);
    let (dn, un) = (norm(dir), norm(up));
    if !(dn > 1e-6 * k) || !(un > 1e-4) { return Ok(()); }
    let sin = norm(cross(up, dir)) / (dn * un);
    if sin < 1e-2 { s.label("up along the view, not judged"); return Ok(()); }
    s.nt(norm(eye) > 0.0);
    note!(s, "{} eye {eye:?} target {tgt:?} up {up:?}", T::NAME);
    let m = look_at(&pt::<T>(eye), &pt::<T>(tgt), &pt::<T>(up));
    // rounding of target - eye is relative to their own size
    let e = T::E * (16.0 + 8.0 * (norm(eye) + norm(tgt)) / dn) / sin;
    if e > 1e-2 { return Ok(()); }
    let f = scale(dir, 1.0 / dn);
    let r = unit(cross(up, f));
    let u = cross(f, r);
    let want = [r, u, scale(f, -1.0)];
    for i in 0..3 {
        for j in 0..3 { ensure!(close(m.data[i][j].f(), want[i][j], e), "view axis {i} component {j}: {} should be {}", m.data[i][j], want[i][j]); }
        ensure!(m.data[3][i].f() == 0.0, "last row {:?}", m.data[3]);
    }
    ensure!(m.data[3][3].f() == 1.0, "last row {:?}", m.data[3]);
    let pe = app(&m, eye);
    let se = T::E * 16.0 * norm(eye);
    ensure!((0..3).all(|i| close(pe[i], 0.0, se + 1e-300)), "eye maps to {pe:?}");
    let ptg = app(&m, tgt);
    let st = e * (dn + norm(eye) + norm(tgt));
    ensure!(close(ptg[0], 0.0, st) && close(ptg[1], 0.0, st) && close(ptg[2], -dn, st), "target maps to {ptg:?}, distance {dn}");
    let pu: V3 = core::array::from_fn(|i| (0..3).map(|j| m.data[i][j].f() * up[j]).sum());
    ensure!(close(pu[0], 0.0, 4.0 * e * un) && close(pu[1], sin * un, 4.0 * e * un) && pu[1] > 0.0, "up maps to {pu:?}");
    // lengths and angles of arbitrary points
    let (a, b) = (r3::<T>(anyv(s, k)), r3::<T>(anyv(s, k)));
    let (pa, pb) = (app(&m, add(eye, a)), app(&m, add(eye, b)));
    let (va, vb) = (sub([pa[0], pa[1], pa[2]], [pe[0], pe[1], pe[2]]), sub([pb[0], pb[1], pb[2]], [pe[0], pe[1], pe[2]]));
    let tol = e * 8.0 * (norm(a) + norm(b)).powi(2) + 1e-14 * norm(eye) * (norm(a) + norm(b));
    ensure!(close(dot(va, vb), dot(a, b), tol), "angle of {a:?} {b:?} not preserved: {} against {}", dot(va, vb), dot(a, b));
    // together with the projection
    let (asp, fov, near) = (T::of(s.f(0.2, 4.0)), T::of(s.f(0.1, 3.0)), T::of(s.logf(1e-3, 10.0)));
    let far = T::of(near.f() * s.logf(1.1, 1e4));
    let (v, p) = look_at_perspective(&pt::<T>(eye), &pt::<T>(tgt), &pt::<T>(up), asp, fov, near, far);
    ensure!(v.data == m.data && p.data == perspective(asp, fov, near, far).data, "the combined call gives other matrices");
    Ok(())
}
/// clip coordinates under either storage order; the order is found from the -1 that copies depth to w
fn clip<T: Fl>(m: &Matrix<T, 4, 4>, p: V3) -> [f64; 4] {
    let q = [p[0], p[1], p[2], 1.0];
    let col = m.data[3][2].f() != 0.0 && m.data[3][3].f() == 0.0 && (m.data[3][2].f() + 1.0).abs() < 1e-9;
    if col && (m.data[2][3].f() + 1.0).abs() > 1e-9 {
        core::array::from_fn(|i| (0..4).map(|j| m.data[i][j].f() * q[j]).sum())
    } else {
        core::array::from_fn(|j| (0..4).map(|i| m.data[i][j].f() * q[i]).sum())
    }
}
fn persp<T: Fl>(s: &mut Src) -> R {
    let asp = T::of(s.logf(0.1, 10.0));
    let fov = T::of(match s.draw(2) { 0 => *s.pick(&[PI / 2.0, PI / 3.0, 1.0]), _ => s.f(0.02, 3.1) });
    let near = T::of(s.logf(1e-3, 1e3));
    let far = T::of(near.f() * match s.draw(2) { 0 => s.f(1.01, 3.0), _ => s.logf(1.1, 1e6) });
    let (n, f) = (near.f(), far.f());
    s.nt(asp.f() != 1.0);
    note!(s, "{} aspect {asp} field of view {fov} near {near} far {far}", T::NAME);
    let m = perspective(asp, fov, near, far);
    let cond = f / (f - n);
    let e = T::E * 16.0 * (1.0 + cond);
    let th = (fov.f() / 2.0).tan();
    let tt = T::E * (8.0 + 8.0 * fov.f() / fov.f().sin().abs());
    let p = [s.sym(1.0), s.sym(1.0), -n * (f / n).powf(s.unit())];
    let depth = -p[2];
    let q = [p[0] * depth * th * asp.f(), p[1] * depth * th, p[2]];
    let c = clip(&m, q);
    ensure!(rel(c[3], depth, 1e-9 + e), "w of a point at depth {depth} is {}", c[3]);
    ensure!(close(c[0] / c[3], p[0], tt + e) && close(c[1] / c[3], p[1], tt + e), "point at {:?} of the half field lands at {:?}", &p[..2], [c[0] / c[3], c[1] / c[3]]);
    for (z, w) in [(n, -1.0), (f, 1.0)] {
        let c = clip(&m, [0.0, 0.0, -z]);
        ensure!(close(c[2] / c[3], w, 4.0 * e), "plane at {z} maps to {}", c[2] / c[3]);
    }
    // monotone in between
    let want = (f + n) / (f - n) - 2.0 * f * n / ((f - n) * depth);
    ensure!(close(c[2] / c[3], want, 8.0 * e * (1.0 + n / depth)), "depth {depth} maps to {}, should be {want}", c[2] / c[3]);
    Ok(())
}
fn transl<T: Fl>(s: &mut Src) -> R {
    let m: Matrix<T, 4, 4> = if s.chance(1, 4) { look_at(&pt::<T>([1.0, 2.0, 3.0]), &pt::<T>([0.0, 0.5, 0.0]), &pt::<T>([0.0, 0.0, 1.0])) }
        else { let mut d = [[T::of(0.0); 4]; 4]; for i in 0..3 { for j in 0..4 { d[i][j] = T::of(s.sym(3.0)); } } d[3][3] = T::of(1.0); Matrix { data: d } };
    let t = r3::<T>(anyv(s, 10.0));
    let p = anyv(s, 5.0);
    s.nt(norm(t) > 0.0);
    note!(s, "{} {:?} moved by {t:?}", T::NAME, m.data);
    let r = translate(&m, &v3::<T>(t));
    let (a, b) = (app(&r, p), app(&m, add(p, t)));
    for i in 0..4 {
        let mag: f64 = (0..3).map(|j| m.data[i][j].f().abs() * (t[j].abs() + p[j].abs())).sum::<f64>() + m.data[i][3].f().abs();
        ensure!(close(a[i], b[i], 16.0 * T::E.max(1e-16) * mag), "point {p:?}: {a:?}, first moved then transformed {b:?}");
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Cmd { Set(f64, f64), Orbit(f64, f64), OrbitPx(f64, f64), World(f64, f64), WorldPx(f64, f64), Aim(V3), Dist(f64) }
/// forward direction as a plain vector, rotated as each command says
struct Model { f: V3, tgt: V3, dist: f64, fuzzy: f64 }
fn fixed(axis: V3, a: f64, v: V3) -> V3 {
    // right-handed rotation of v about a unit axis
    let (s, c) = a.sin_cos();
    add(add(scale(v, c), scale(cross(axis, v), s)), scale(axis, dot(axis, v) * (1.0 - c)))
}
impl Model {
    fn orbit(&mut self, dy: f64, dp: f64, e: f64) {
        let z = [0.0, 0.0, 1.0];
        let g = fixed(z, dy, self.f);
        let side = cross(z, g);
        let n = norm(side);
        self.fuzzy += e * (1.0 + dy.abs() + dp.abs()) + if dp == 0.0 { 0.0 } else { (self.fuzzy + e) / n.max(1e-300) * dp.abs().min(2.0) };
        // straight up or down there is no sideways axis
        if dp != 0.0 && n < 3e-8 { self.fuzzy = f64::INFINITY; }
        // positive pitch raises the view direction
        self.f = unit(fixed(scale(side, 1.0 / n), -dp, g));
    }
}
fn camera<T: Fl>(s: &mut Src) -> R {
    let mut c = OrbitCamera::<T>::default();
    let mut m = Model { f: [1.0, 0.0, 0.0], tgt: [0.0; 3], dist: 0.0, fuzzy: 8.0 * T::E };
    let n = if s.chance(1, 300) { s.range(15, 500) } else { s.range(1, 14) };
    let small = s.bool();
    let mut cmds = vec![];
    let mut turns = 0;
    let ang = |s: &mut Src| -> f64 { let a = match s.draw(3) { 0 => 0.0, 1 => *s.pick(&[0.1, -0.1, PI / 2.0, -PI / 2.0, PI, 0.5]), _ => if small { s.sym(0.3) } else { s.sym(4.0) } }; T::of(a).f() };
    for step in 0..n {
        let cmd = match s.draw(9) {
            0 => { let (y, p) = (ang(s), T::of(s.f(-1.5, 1.5)).f()); Cmd::Set(y, p) }
            1..=3 => Cmd::Orbit(ang(s), if s.bool() { T::of(s.sym(0.4)).f() } else { ang(s) }),
            4 => Cmd::OrbitPx(T::of(s.sym(100.0)).f(), T::of(s.sym(40.0)).f()),
            5 => Cmd::World(ang(s), ang(s)),
            6 => Cmd::WorldPx(T::of(s.sym(100.0)).f(), T::of(s.sym(40.0)).f()),
            7 => Cmd::Aim(r3::<T>(anyv(s, 100.0))),
            _ => Cmd::Dist(T::of(s.logf(1e-2, 1e4)).f()),
        };
        cmds.push(cmd);
        let sens = c.orbit_sens.f();
        match cmd {
            Cmd::Set(y, p) => {
                c.set_angles(T::of(y), T::of(p));
                m.f = [p.cos() * y.cos(), p.cos() * y.sin(), p.sin()];
                m.fuzzy = T::E * (16.0 + 4.0 * y.abs());
                turns += 1;
            }
            Cmd::Orbit(y, p) => { c.apply_orbit_angles(T::of(y), T::of(p)); m.orbit(y, p, 16.0 * T::E); turns += 1; }
            Cmd::OrbitPx(x, y) => { c.apply_orbit_pixels(T::of(x), T::of(y)); m.orbit(-x * sens, -y * sens, 16.0 * T::E); turns += 1; }
            Cmd::World(x, y) => {
                c.apply_orbit_world_angles(T::of(x), T::of(y));
                m.f = fixed([1.0, 0.0, 0.0], x, fixed([0.0, 1.0, 0.0], y, m.f));
                m.fuzzy += T::E * (16.0 + x.abs() + y.abs());
                turns += 1;
            }
            Cmd::WorldPx(x, y) => {
                c.apply_orbit_world_pixels(T::of(x), T::of(y));
                m.f = fixed([1.0, 0.0, 0.0], -y * sens, fixed([0.0, 1.0, 0.0], -x * sens, m.f));
                m.fuzzy += T::E * (16.0 + (x.abs() + y.abs()) * sens);
                turns += 1;
            }
            Cmd::Aim(t) => { c.target = v3::<T>(t); m.tgt = t; }
            Cmd::Dist(d) => { c.distance = T::of(d); m.dist = d; }
        }
        note!(s, "{step}: {cmd:?} -> forward {:?}", out(&c.forward()));
        let (f, r, u, p) = (out(&c.forward()), out(&c.right()), out(&c.cam_up()), out(&c.position()));
        // axes orthonormal, whatever happened
        let o = 32.0 * T::E;
        let lat = (f[0] * f[0] + f[1] * f[1]).sqrt();
        let oo = o / lat.max(1e-8).min(1.0); // right is the normalised horizontal part
        let oo = if lat < 1e-7 { o } else { oo.min(1e-2) };
        ensure!(close(norm(f), 1.0, o) && close(norm(r), 1.0, o) && close(norm(u), 1.0, o), "axes not of unit length: {} {} {}", norm(f), norm(r), norm(u));
        ensure!(dot(f, r).abs() <= oo && dot(f, u).abs() <= oo && dot(r, u).abs() <= oo, "axes not perpendicular: f.r {} f.u {} r.u {}", dot(f, r), dot(f, u), dot(r, u));
        ensure!(u[2] >= -oo, "camera up points below the horizon: {u:?}");
        if lat > 1e-3 { ensure!(vdiff(r, unit(cross([0.0, 0.0, 1.0], f))) <= 64.0 * T::E / lat, "right {r:?} is not the horizontal axis of {f:?}"); ensure!(vdiff(u, cross(f, r)) <= 64.0 * T::E / lat, "up {u:?} for {f:?}"); }
        // at its distance, looking at the target
        let off = sub(m.tgt, p);
        let ptol = 8.0 * T::E * (m.dist + norm(m.tgt));
        ensure!(close(norm(off), m.dist, ptol), "camera is {} from its target, distance {}", norm(off), m.dist);
        ensure!(vdiff(off, scale(f, m.dist)) <= ptol, "camera at {p:?} does not look at {:?}", m.tgt);
        ensure!(out(&c.target) == m.tgt && c.distance.f() == m.dist, "target or distance moved: {:?} {}", out(&c.target), c.distance);
        // where the commands send it
        if m.fuzzy > 1e-2 || !(m.f[0].is_finite()) {
            s.label("through a pole, direction no longer judged");
            m.f = f;
            m.fuzzy = 8.0 * T::E;
            continue;
        }
        ensure!(vdiff(f, m.f) <= m.fuzzy * 4.0, "view direction {f:?}, the commands give {:?} (tolerance {:e})", m.f, m.fuzzy * 4.0);
        match cmd {
            Cmd::Set(y, q) => ensure!(c.yaw.f() == y && c.pitch.f() == q, "angles {} {} after setting {y} {q}", c.yaw, c.pitch),
            Cmd::Orbit(..) | Cmd::OrbitPx(..) | Cmd::World(..) | Cmd::WorldPx(..) => {
                if lat > 1e-3 { ensure!(adiff(c.yaw.f(), f[1].atan2(f[0])).abs() <= 32.0 * T::E / lat, "yaw {} for view {f:?}", c.yaw); }
                ensure!(close(c.pitch.f(), f[2].clamp(-1.0, 1.0).asin(), 32.0 * T::E / lat.max(T::E.sqrt())), "pitch {} for view {f:?}", c.pitch);
            }
            _ => {}
        }
    }
    s.nt(turns >= 3);
    Ok(())
}
/// The same total yaw and pitch, cut and ordered differently, give the same pose.
fn totals<T: Fl>(s: &mut Src) -> R {
    let n = s.range(2, 8);
    let (y0, p0) = (T::of(s.sym(3.0)).f(), T::of(s.f(-0.5, 0.5)).f());
    let steps: Vec<(f64, f64)> = (0..n).map(|_| (T::of(s.sym(1.5)).f(), T::of(s.sym(0.9 / n as f64)).f())).collect();
    let mut a = OrbitCamera::<T>::default();
    let mut b = a.clone();
    a.set_angles(T::of(y0), T::of(p0));
    b.set_angles(T::of(y0), T::of(p0));
    for (y, p) in &steps { a.apply_orbit_angles(T::of(*y), T::of(*p)); }
    let style = s.draw(3);
    note!(s, "{} from {y0} {p0}: {steps:?}, variant {style}", T::NAME);
    s.nt(true);
    match style {
        0 => for (y, p) in steps.iter().rev() { b.apply_orbit_angles(T::of(*y), T::of(*p)); },
        1 => { for (y, _) in &steps { b.apply_orbit_angles(T::of(*y), T::of(0.0)); } for (_, p) in &steps { b.apply_orbit_angles(T::of(0.0), T::of(*p)); } }
        2 => { for (_, p) in &steps { b.apply_orbit_angles(T::of(0.0), T::of(*p)); } for (y, _) in &steps { b.apply_orbit_angles(T::of(*y), T::of(0.0)); } }
        _ => b.set_angles(T::of(y0 + steps.iter().map(|x| x.0).sum::<f64>()), T::of(p0 + steps.iter().map(|x| x.1).sum::<f64>())),
    }
    let tol = 400.0 * T::E * (1.0 + n as f64);
    for (w, x, y) in [("forward", out(&a.forward()), out(&b.forward())), ("right", out(&a.right()), out(&b.right())), ("up", out(&a.cam_up()), out(&b.cam_up()))] {
        ensure!(vdiff(x, y) <= tol, "{w} {x:?} against {y:?} after the same total yaw and pitch");
    }
    // and going back undoes it
    for (y, p) in steps.iter().rev() { a.apply_orbit_angles(T::of(-*y), T::of(-*p)); }
    let home = [p0.cos() * y0.cos(), p0.cos() * y0.sin(), p0.sin()];
    ensure!(vdiff(out(&a.forward()), home) <= 2.0 * tol, "taking every command back gives {:?}, started at {home:?}", out(&a.forward()));
    Ok(())
}
fn look_any(s: &mut Src) -> R { if s.chance(1, 4) { look::<f32>(s) } else { look::<f64>(s) } }
fn persp_any(s: &mut Src) -> R { if s.chance(1, 4) { persp::<f32>(s) } else { persp::<f64>(s) } }
fn transl_any(s: &mut Src) -> R { if s.chance(1, 4) { transl::<f32>(s) } else { transl::<f64>(s) } }
fn camera_any(s: &mut Src) -> R { if s.chance(1, 4) { camera::<f32>(s) } else { camera::<f64>(s) } }
fn totals_any(s: &mut Src) -> R { if s.chance(1, 4) { totals::<f32>(s) } else { totals::<f64>(s) } }

pub fn register(r: &mut Registry) {
    r.add("I03", "look at", 100_000, "eye away from the origin", look_any);
    r.add("I03", "perspective", 100_000, "aspect other than one", persp_any);
    r.add("I03", "translate", 50_000, "a real translation", transl_any);
    r.add("I03", "orbit history", 100_000, "three or more turning commands", camera_any);
    r.add("I03", "orbit totals", 50_000, "every case", totals_any);
}
