//! E01 geodetic conversions, E02 normal gravity, E03 forces and frames, E04 atmospheres.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::Matrix;
use aether_core::reference_frame::{ICRF, ITRF, ReferenceFrame};
use aether_models::lunar::frames::{LIRF, LTRF};
use aether_models::lunar::moon::Moon;
use aether_models::lunar::orbit::MoonOrbitAroundEarth;
use aether_models::lunar::transforms as lt;
use aether_models::terrestrial::atmospheres::{isa::ISA, ussa::USSA};
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::wgs84::{gravity as wg, transforms as wt};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

// WGS-84 defining values (NGA.STND.0036)
const A: f64 = 6378137.0;
const E2: f64 = 6.694379990141e-3;
const B: f64 = 6356752.3142;
const GM: f64 = 3.986004418e14;
const W: f64 = 7.292115e-5;
const EL: f64 = 5.2185400842339e5;

fn xyz<RF: ReferenceFrame>(c: &Cartesian<f64, RF>) -> V3 { [c.x(), c.y(), c.z()] }

// ------------------------------------------------------------------ E01
fn lat(s: &mut Src) -> f64 { s.angle(FRAC_PI_2) }
fn lon(s: &mut Src) -> f64 { s.angle(PI) }
fn height(s: &mut Src) -> f64 {
    match s.draw(6) {
        0 => 0.0,
        1 => s.f(-12_000.0, 9_000.0),
        2 => s.f(0.0, 1.0e6),
        3 => s.f(-1.0e6, 0.0),
        4 => s.f(1.0e6, 5.0e7),
        5 => s.logf(1e-3, 4e8),
        _ => s.irange(-1000, 40_000) as f64 * 1000.0,
    }
}
/// position from the reduced latitude: an independent parametrisation of the same ellipsoid
fn ref_ecef(phi: f64, lam: f64, h: f64) -> V3 {
    let b = A * (1.0 - E2).sqrt();
    let q = b / A;
    // reduced latitude through sine and cosine so that the poles are exact
    let (sp, cp) = phi.sin_cos();
    let n = (cp * cp + q * q * sp * sp).sqrt();
    let (cb, sb) = (cp / n, q * sp / n);
    let (sl, cl) = lam.sin_cos();
    [(A * cb + h * cp) * cl, (A * cb + h * cp) * sl, b * sb + h * sp]
}
fn geodetic(s: &mut Src) -> R {
    let (phi, lam, h) = (lat(s), lon(s), height(s));
    note!(s, "lat {phi:.17} lon {lam:.17} height {h}");
    s.nt(true);
    s.label_if(phi.abs() > FRAC_PI_2 - 1e-6, "near a pole");
    s.label_if(phi.abs() < 1e-6, "near the equator");
    s.label_if(lam.abs() > PI - 1e-6, "near the antimeridian");
    s.label_if(h < 0.0, "below the surface");
    s.label_if(h > 3.6e7, "above geostationary");
    let want = ref_ecef(phi, lam, h);
    let tol = 1e-7 + 1e-14 * h.abs();
    let earth = Earth::new();
    let p = xyz(&wt::geocentric_to_ecef(phi, lam, h));
    ensure!(vdiff(p, want) <= tol, "geocentric_to_ecef({phi},{lam},{h}) = {p:?}, the point at that height on the normal is {want:?}");
    let p2 = xyz(&earth.geocentric_to_ecef(phi, lam, h));
    ensure!(vdiff(p2, p) <= tol, "Earth::geocentric_to_ecef({phi},{lam},{h}) = {p2:?} differs from {p:?}");
    inverse_at(phi, lam, h, want, &earth)
}
fn inverse_at(phi: f64, lam: f64, h: f64, p: V3, earth: &Earth) -> R {
    let r = norm(p);
    // metres; the closed form works with the published semi-minor axis (rounded to 1e-4 m)
    let m = [1e-5 + 1e-13 * r, 3e-4 + 1e-12 * r];
    for (i, (name, v)) in [
        ("ecef_to_geocentric", wt::ecef_to_geocentric(p[0], p[1], p[2])),
        ("ecef_to_geocentric_ferrari", wt::ecef_to_geocentric_ferrari(p[0], p[1], p[2])),
        ("Earth::ecef_to_geocentric", earth.ecef_to_geocentric(p[0], p[1], p[2])),
        ("Earth::ecef_to_geocentric_ferrari", earth.ecef_to_geocentric_ferrari(p[0], p[1], p[2])),
    ].into_iter().enumerate() {
        let m = m[i % 2];
        let (la, lo, al) = (v[0], v[1], v[2]);
        ensure!((al - h).abs() <= m, "{name}({p:?}): height {al}, want {h} (lat {phi}, lon {lam})");
        let rm = r.max(1e6);
        ensure!((la - phi).abs() * rm <= m, "{name}({p:?}): latitude {la}, want {phi} (height {h})");
        // the longitude is only defined away from the axis
        let rho = (p[0] * p[0] + p[1] * p[1]).sqrt();
        ensure!(lo.is_finite() && lo.abs() <= PI + 1e-12, "{name}({p:?}): longitude {lo}");
        ensure!(adiff(lo, lam) * rho <= m, "{name}({p:?}): longitude {lo}, want {lam}");
        let back = ref_ecef(la, lo, al);
        ensure!(vdiff(back, p) <= 3.0 * m, "{name}({p:?}) = ({la},{lo},{al}), which is the point {back:?}");
    }
    Ok(())
}
fn from_ecef(s: &mut Src) -> R {
    // arbitrary Earth-fixed points, including exactly on the axis and in the equatorial plane
    let r = match s.draw(3) { 0 => s.f(5.4e6, 7.0e6), 1 => s.logf(5.4e6, 4.5e8), 2 => *s.pick(&[6378137.0, 6356752.3142, 6371000.0, 42164000.0]), _ => s.f(6.3e6, 4.3e7) };
    let d = match s.draw(5) {
        0 => *s.pick(&[[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [-1.0, 0.0, 0.0]]),
        1 => { let l = lon(s); [l.cos(), l.sin(), 0.0] }
        2 => { let e = s.sgn() * 10f64.powi(-(s.range(1, 14) as i32)); [e, 0.0, s.sgn()] }
        _ => { let v = [s.sym(1.0), s.sym(1.0), s.sym(1.0)]; if norm(v) > 1e-3 { v } else { [0.0, 0.0, 1.0] } }
    };
    let p = scale(unit(d), r);
    note!(s, "point {p:?}");
    s.nt(true);
    s.label_if(p[0] == 0.0 && p[1] == 0.0, "on the axis");
    s.label_if(p[2] == 0.0, "in the equatorial plane");
    let (i, f) = (wt::ecef_to_geocentric(p[0], p[1], p[2]), wt::ecef_to_geocentric_ferrari(p[0], p[1], p[2]));
    let tol = 4e-4 + 1e-12 * r;
    for (name, v, t) in [("ecef_to_geocentric", i, 1e-5 + 1e-13 * r), ("ecef_to_geocentric_ferrari", f, tol)] {
        let q = ref_ecef(v[0], v[1], v[2]);
        ensure!(vdiff(q, p) <= 3.0 * t, "{name}({p:?}) = ({},{},{}) which is the point {q:?}", v[0], v[1], v[2]);
        ensure!(v[0].abs() <= FRAC_PI_2 + 1e-15, "{name}({p:?}): latitude {}", v[0]);
    }
    ensure!((i[2] - f[2]).abs() <= tol && (i[0] - f[0]).abs() * r <= tol && adiff(i[1], f[1]) <= 1e-12, "inverse conversions of {p:?} disagree: iterative ({},{},{}), closed form ({},{},{})", i[0], i[1], i[2], f[0], f[1], f[2]);
    Ok(())
}
fn single(s: &mut Src) -> R {
    // single precision: the iterative inverse to a few units in the last place of the position
    let (phi, lam) = (s.angle(FRAC_PI_2) as f32, s.angle(PI) as f32);
    let h = s.f(-1e5, 4e7) as f32;
    note!(s, "f32 lat {phi} lon {lam} height {h}");
    s.nt(true);
    let p = wt::geocentric_to_ecef(phi, lam, h);
    let p = [p.x(), p.y(), p.z()];
    let want = ref_ecef(phi as f64, lam as f64, h as f64);
    let r = norm(want);
    let got = [p[0] as f64, p[1] as f64, p[2] as f64];
    ensure!(vdiff(got, want) <= 2e-6 * r, "f32 geocentric_to_ecef({phi},{lam},{h}) = {got:?}, want {want:?}");
    let v = wt::ecef_to_geocentric(p[0], p[1], p[2]);
    let back = ref_ecef(v[0] as f64, v[1] as f64, v[2] as f64);
    ensure!(vdiff(back, got) <= 2e-6 * r, "f32 ecef_to_geocentric({p:?}) = ({},{},{}) which is {back:?}", v[0], v[1], v[2]);
    Ok(())
}

// ------------------------------------------------------------------ E02
/// q and its series: exact to rounding, without the cancellation of the closed form
fn qser(t: f64) -> f64 {
    let mut s = 0.0;
    let mut p = t * t * t;
    for k in 1..60 {
        let kf = k as f64;
        let term = 2.0 * kf / ((2.0 * kf + 1.0) * (2.0 * kf + 3.0)) * p;
        s += if k % 2 == 1 { term } else { -term };
        p *= t * t;
        if p.abs() < 1e-30 { break }
    }
    s
}
/// normal gravity potential (gravitation of the ellipsoidal field plus rotation)
fn potential(p: V3) -> f64 {
    let [x, y, z] = p;
    let rho2 = x * x + y * y;
    let d = rho2 + z * z - EL * EL;
    let u2 = 0.5 * d * (1.0 + (1.0 + 4.0 * EL * EL * z * z / (d * d)).sqrt());
    let u = u2.sqrt();
    let sb = z / u;
    GM / EL * (EL / u).atan() + 0.5 * W * W * A * A * qser(EL / u) / qser(EL / B) * (sb * sb - 1.0 / 3.0) + 0.5 * W * W * rho2
}
fn gradient(p: V3) -> V3 {
    let mut g = [0.0; 3];
    let h = 2e-5 * norm(p);
    for i in 0..3 {
        let at = |k: f64| { let mut q = p; q[i] += k * h; potential(q) };
        g[i] = (8.0 * (at(1.0) - at(-1.0)) - (at(2.0) - at(-2.0))) / (12.0 * h);
    }
    g
}
fn gravity(s: &mut Src) -> R {
    let (phi, lam) = (lat(s), lon(s));
    let h = match s.draw(4) { 0 => 0.0, 1 => s.f(-10_000.0, 100_000.0), 2 => s.f(0.0, 2e6), 3 => s.f(1e6, 5e7), _ => s.logf(1.0, 1e8) };
    let p = ref_ecef(phi, lam, h);
    note!(s, "lat {phi} lon {lam} height {h} = {p:?}");
    s.nt(true);
    s.label_if(phi.abs() > FRAC_PI_2 - 1e-6, "near a pole");
    let g = xyz(&wg::gravity_rectangular(p[0], p[1], p[2]));
    let want = gradient(p);
    let tol = 2e-7 * norm(want).max(0.1);
    ensure!(vdiff(g, want) <= tol, "gravity at {p:?} (lat {phi}, lon {lam}, height {h}): {g:?}, gradient of the normal potential {want:?}");
    // on the axis as well
    if s.chance(1, 8) {
        let q = [0.0, 0.0, s.sgn() * (B + h)];
        let g = xyz(&wg::gravity_rectangular(q[0], q[1], q[2]));
        let want = gradient(q);
        ensure!(vdiff(g, want) <= 2e-7 * norm(want).max(0.1), "gravity on the axis at {q:?}: {g:?}, want {want:?}");
    }
    // mirror in the equator, turn about the axis
    let m = xyz(&wg::gravity_rectangular(p[0], p[1], -p[2]));
    ensure!(vdiff(m, [g[0], g[1], -g[2]]) <= 1e-9, "gravity at {p:?} is {g:?} but mirrored in the equator {m:?}");
    let a = s.angle(PI);
    let r = tr(&rz(a));
    let q = mv(&r, p);
    let m = xyz(&wg::gravity_rectangular(q[0], q[1], q[2]));
    ensure!(vdiff(m, mv(&r, g)) <= 1e-9 * norm(g).max(1.0) * 10.0, "gravity at {p:?} is {g:?}; turned by {a} about the axis it is {m:?}");
    // force is gravity times mass
    let k = match s.draw(3) { 0 => 1.0, 1 => 0.0, _ => s.logf(1e-3, 1e7) };
    let f = xyz(&Earth::new().solve_gravitational_force(Cartesian::new(p[0], p[1], p[2]), k));
    ensure!(vdiff(f, scale(g, k)) <= 1e-12 * k * norm(g).max(1.0), "force on {k} kg at {p:?}: {f:?}, gravity {g:?}");
    // the curvilinear components have the same length
    let e = wg::gravity_ellipsoidal(p[0], p[1], p[2]);
    let len = norm([e[0], e[1], e[2]]);
    ensure!((len - norm(want)).abs() <= tol, "ellipsoidal components ({},{},{}) at {p:?} have length {len}, gravity is {}", e[0], e[1], e[2], norm(want));
    Ok(())
}
fn surface(s: &mut Src) -> R {
    let (phi, lam) = (lat(s), lon(s));
    note!(s, "lat {phi} lon {lam}");
    s.nt(phi != 0.0);
    let (ge, gp) = (9.7803253359, 9.8321849379);
    let (sp, cp) = phi.sin_cos();
    // Somigliana in its original form
    let want = (A * ge * cp * cp + B * gp * sp * sp) / (A * A * cp * cp + B * B * sp * sp).sqrt();
    let got = wg::gravity_normal(phi);
    ensure!((got - want).abs() <= 2e-9 * 10.0, "normal gravity at latitude {phi}: {got}, Somigliana gives {want}");
    let south = wg::gravity_normal(-phi);
    ensure!((got - south).abs() <= 1e-13, "normal gravity at {phi} {got} and at {} {south}", -phi);
    let p = ref_ecef(phi, lam, 0.0);
    let g = norm(xyz(&wg::gravity_rectangular(p[0], p[1], p[2])));
    ensure!((g - want).abs() <= 1e-7, "gravity at the ellipsoid surface, latitude {phi}: {g}, Somigliana gives {want}");
    Ok(())
}

// ------------------------------------------------------------------ E03
fn vec(s: &mut Src, lo: f64, hi: f64) -> V3 {
    let m = s.logf(lo, hi);
    let d = match s.draw(4) { 0 => *s.pick(&[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 1.0, 0.0]]), _ => [s.sym(1.0), s.sym(1.0), s.sym(1.0)] };
    if norm(d) < 1e-6 { [m, 0.0, 0.0] } else { scale(unit(d), m) }
}
fn cart<RF: ReferenceFrame>(v: V3) -> Cartesian<f64, RF> { Cartesian::new(v[0], v[1], v[2]) }
fn tensor(s: &mut Src) -> M3 {
    let d = [s.logf(1e-3, 1e5), s.logf(1e-3, 1e5), s.logf(1e-3, 1e5)];
    let m = d[0].max(d[1]).max(d[2]);
    let o = if s.bool() { [s.sym(m), s.sym(m), s.sym(m)] } else { [0.0; 3] };
    [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]]
}
fn vclose(what: &str, got: V3, want: V3, tol: f64) -> R {
    ensure!(vdiff(got, want) <= tol, "{what}: {got:?}, want {want:?}");
    Ok(())
}
fn rotating(s: &mut Src) -> R {
    let w = match s.draw(3) { 0 => [0.0, 0.0, 7.292115146706979e-5], 1 => [0.0; 3], _ => vec(s, 1e-7, 10.0) };
    let v = if s.chance(1, 10) { scale(w, s.sym(1e8)) } else { vec(s, 1e-3, 1e5) };
    let r = vec(s, 1.0, 1e9);
    let m = match s.draw(3) { 0 => 1.0, 1 => 0.0, _ => s.logf(1e-3, 1e8) };
    note!(s, "rate {w:?} velocity {v:?} position {r:?} mass {m}");
    s.nt(norm(cross(w, v)) > 0.0 && m > 0.0);
    s.label_if(w[0] != 0.0 || w[1] != 0.0, "tilted rotation axis");
    let mut e = Earth::new();
    ensure!(e.rotational_velocity.x() == 0.0 && e.rotational_velocity.y() == 0.0 && (e.rotational_velocity.z() - 7.292115e-5).abs() < 1e-11, "Earth::new rotates at {:?}", xyz(&e.rotational_velocity));
    e.rotational_velocity = cart(w);
    let c = xyz(&e.solve_coriolis_force(cart(v), m));
    let want = scale(cross(w, v), -2.0 * m);
    let t = 1e-14 * 4.0 * m * norm(w) * norm(v);
    vclose("coriolis force", c, want, t)?;
    ensure!(dot(c, v).abs() <= 4.0 * t * norm(v), "coriolis force {c:?} does work on velocity {v:?}");
    let c = xyz(&e.solve_centrifugal_force(cart(r), m));
    let want = scale(cross(w, cross(w, r)), -m);
    vclose("centrifugal force", c, want, 1e-14 * 8.0 * m * dot(w, w) * norm(r))?;
    ensure!(dot(c, w).abs() <= 1e-13 * m * dot(w, w) * norm(w) * norm(r), "centrifugal force {c:?} along the rotation axis {w:?}");
    ensure!(dot(c, r) >= -1e-13 * m * dot(w, w) * dot(r, r), "centrifugal force {c:?} points inwards at {r:?}");
    Ok(())
}
fn point_mass(s: &mut Src) -> R {
    let r = vec(s, 1e3, 1e10);
    let m = match s.draw(3) { 0 => 1.0, 1 => 0.0, _ => s.logf(1e-3, 1e8) };
    let mut moon = Moon::new();
    ensure!(rel(moon.gravitational_constant, 4.902800118e12, 1e-9), "moon GM {}", moon.gravitational_constant);
    if s.bool() { moon.gravitational_constant = s.logf(1e3, 1e15); }
    let mu = moon.gravitational_constant;
    note!(s, "position {r:?} mass {m} mu {mu}");
    s.nt(true);
    let d = norm(r);
    let want = scale(r, -mu / (d * d * d));
    let t = 1e-13 * mu / (d * d);
    vclose("lunar gravity", xyz(&moon.gravitational_acceleration::<LIRF>(cart(r))), want, t)?;
    vclose("lunar gravity (inertial frame)", xyz(&moon.gravitational_acceleration::<ICRF<f64>>(cart(r))), want, t)?;
    vclose("lunar gravitational force", xyz(&moon.solve_gravitational_force::<LTRF>(cart(r), m)), scale(want, m), t * m)?;
    // inverse square
    let k = s.logf(0.1, 10.0);
    let far = xyz(&moon.gravitational_acceleration::<LIRF>(cart(scale(r, k))));
    vclose("lunar gravity at a scaled distance", far, scale(want, 1.0 / (k * k)), 1e-12 * mu / (d * d * k * k))?;
    let z = xyz(&moon.gravitational_acceleration::<LIRF>(cart([0.0; 3])));
    ensure!(z == [0.0; 3], "gravity at the centre {z:?}");
    // gravity-gradient torque
    let i = tensor(s);
    let im = Matrix::new(i);
    let z = xyz(&moon.solve_gravitational_torque::<LTRF>(cart([0.0; 3]), im));
    ensure!(z == [0.0; 3], "torque at the centre {z:?}");
    let ir = mv(&i, r);
    let sz: f64 = i.iter().flatten().map(|x| x.abs()).fold(0.0, f64::max);
    let tm = 3.0 * mu / d.powi(3) * sz;
    let want = scale(cross(r, ir), 3.0 * mu / d.powi(5));
    vclose("lunar gravity-gradient torque", xyz(&moon.solve_gravitational_torque::<LTRF>(cart(r), im)), want, 1e-12 * tm)?;
    let ge = 3.986004418e14;
    let te = 3.0 * ge / d.powi(3) * sz;
    let got = xyz(&Earth::new().solve_gravitational_torque(cart(r), im));
    vclose("Earth gravity-gradient torque", got, scale(cross(r, ir), 3.0 * ge / d.powi(5)), 1e-12 * te)?;
    // a torque is perpendicular to the line of sight; a sphere feels none
    ensure!(dot(got, r).abs() <= 1e-11 * te * d, "Earth torque {got:?} along the line of sight {r:?}");
    let sph = Matrix::new([[sz, 0.0, 0.0], [0.0, sz, 0.0], [0.0, 0.0, sz]]);
    let none = norm(xyz(&Earth::new().solve_gravitational_torque(cart(r), sph)));
    ensure!(none <= 1e-12 * te, "torque {none} on a body with equal inertias");
    Ok(())
}
fn when(s: &mut Src) -> f64 {
    match s.draw(4) { 0 => 0.0, 1 => s.irange(-100_000, 100_000) as f64, 2 => s.sgn() * s.logf(1e-3, 1e9), _ => s.f(-1e7, 1e7) }
}
fn dcm<F: ReferenceFrame, T: ReferenceFrame>(d: &DirectionCosineMatrix<f64, F, T>) -> M3 {
    // columns are the images of the axes
    let mut m = [[0.0; 3]; 3];
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let v = d.clone() * Cartesian::<f64, F>::new(e[0], e[1], e[2]);
        m[0][j] = v.x();
        m[1][j] = v.y();
        m[2][j] = v.z();
    }
    m
}
fn meq(what: &str, a: &M3, b: &M3, tol: f64) -> R {
    ensure!(mdiff(a, b) <= tol, "{what}: {a:?}, want {b:?}");
    Ok(())
}
fn frames(s: &mut Src) -> R {
    let (t, t0) = (when(s), when(s));
    let rate = match s.draw(2) { 0 => 7.292115146706979e-5, _ => s.sgn() * s.logf(1e-9, 1.0) };
    let m0 = { let (a, b, c) = (s.angle(PI), s.angle(PI), s.angle(PI)); mm(&rz(a), &mm(&rx(b), &rz(c))) };
    note!(s, "time {t} epoch {t0} rate {rate}");
    s.nt(t != 0.0);
    s.label_if(t0 != 0.0, "epoch away from zero");
    // Earth
    let mut e = Earth::new();
    e.rotational_velocity = Cartesian::new(0.0, 0.0, rate);
    let th = rate * t;
    let tol = 1e-13 + 4e-16 * th.abs();
    let (f, b) = (e.icrf_to_itrf(t), e.itrf_to_icrf(t));
    meq("Earth icrf_to_itrf", &dcm(&f), &rz(th), tol)?;
    meq("Earth itrf_to_icrf", &dcm(&b), &tr(&rz(th)), tol)?;
    meq("Earth there and back", &dcm(&(b * f)), &I3, 1e-13)?;
    let w = Cartesian::new(0.0, 0.0, rate);
    meq("wgs84 icrf_to_itrf", &dcm(&wt::icrf_to_itrf(t, w)), &rz(th), tol)?;
    meq("wgs84 itrf_to_icrf", &dcm(&wt::itrf_to_icrf(t, w)), &tr(&rz(th)), tol)?;
    let t2 = when(s);
    let both = dcm(&e.icrf_to_itrf(t + t2));
    meq("Earth rotation over t then t2", &mm(&dcm(&e.icrf_to_itrf(t2)), &dcm(&f)), &both, 1e-12 + 1e-15 * (th.abs() + (rate * t2).abs()))?;
    // Moon
    let wm = TAU / (27.321661 * 86400.0);
    let central = DirectionCosineMatrix::<f64, ICRF<f64>, LIRF>::new(m0[0][0], m0[0][1], m0[0][2], m0[1][0], m0[1][1], m0[1][2], m0[2][0], m0[2][1], m0[2][2]);
    let moon = Moon::with_epoch_orientation(t0, central);
    let th = wm * (t - t0);
    let tol = 1e-13 + 1e-15 * (wm * t).abs() + 1e-15 * (wm * t0).abs();
    meq("moon lirf_to_ltrf", &dcm(&moon.lirf_to_ltrf(t)), &rz(th), tol)?;
    meq("moon ltrf_to_lirf", &dcm(&moon.ltrf_to_lirf(t)), &tr(&rz(th)), tol)?;
    meq("moon icrf_to_lirf", &dcm(&moon.icrf_to_lirf()), &m0, 1e-15)?;
    meq("moon lirf_to_icrf", &dcm(&moon.lirf_to_icrf()), &tr(&m0), 1e-15)?;
    meq("moon icrf_to_ltrf", &dcm(&moon.icrf_to_ltrf(t)), &mm(&rz(th), &m0), tol)?;
    meq("moon ltrf_to_icrf", &dcm(&moon.ltrf_to_icrf(t)), &tr(&mm(&rz(th), &m0)), tol)?;
    let chain = moon.lirf_to_ltrf(t) * moon.icrf_to_lirf();
    meq("moon icrf_to_ltrf composed of its parts", &dcm(&moon.icrf_to_ltrf(t)), &dcm(&chain), 1e-13)?;
    // free functions: time since the epoch
    let th = wm * t;
    let tol = 1e-13 + 1e-15 * th.abs();
    meq("lirf_to_ltrf", &dcm(&lt::lirf_to_ltrf(t)), &rz(th), tol)?;
    meq("ltrf_to_lirf", &dcm(&lt::ltrf_to_lirf(t)), &tr(&rz(th)), tol)?;
    meq("icrf_to_lirf", &dcm(&lt::icrf_to_lirf()), &I3, 0.0)?;
    meq("lirf_to_icrf", &dcm(&lt::lirf_to_icrf()), &I3, 0.0)?;
    meq("icrf_to_ltrf", &dcm(&lt::icrf_to_ltrf(t)), &rz(th), tol)?;
    meq("ltrf_to_icrf", &dcm(&lt::ltrf_to_icrf(t)), &tr(&rz(th)), tol)?;
    meq("icrf_to_ltrf_at_epoch", &dcm(&lt::icrf_to_ltrf_at_epoch(t, central)), &mm(&rz(th), &m0), tol)?;
    meq("ltrf_to_icrf_at_epoch", &dcm(&lt::ltrf_to_icrf_at_epoch(t, central)), &tr(&mm(&rz(th), &m0)), tol)
}
fn orbit(s: &mut Src) -> R {
    let mut o = MoonOrbitAroundEarth::new();
    if s.draw(9) != 0 {
        o.semi_major_axis_m = s.logf(1e6, 1e12);
        o.mu_earth_m3_s2 = s.logf(1e3, 1e21);
        o.mu_moon_m3_s2 = if s.bool() { 0.0 } else { s.logf(1e3, 1e21) };
        o.sidereal_period_s = s.logf(1.0, 1e10);
    }
    note!(s, "{o:?}");
    s.nt(true);
    let mu = o.mu_earth_m3_s2 + o.mu_moon_m3_s2;
    ensure!(rel(o.mu_total_m3_s2(), mu, 1e-15), "mu_total {} want {mu}", o.mu_total_m3_s2());
    let n = o.mean_motion_rad_s();
    ensure!(rel(n * o.sidereal_period_s, TAU, 1e-14), "mean motion {n} times period {} is not a turn", o.sidereal_period_s);
    let p = o.keplerian_period_s();
    // Kepler: (2 pi / P)^2 a^3 = mu
    ensure!(rel((TAU / p).powi(2) * o.semi_major_axis_m.powi(3), mu, 1e-13), "period {p} for a={} mu={mu}", o.semi_major_axis_m);
    Ok(())
}

// ------------------------------------------------------------------ E04
const G0: f64 = 9.80665;
const RS: f64 = 8314.32;
/// standard layers per geopotential metre: (base, temperature, lapse)
const LAYERS: [(f64, f64, f64); 8] = [
    (-5000.0, 320.65, -6.5e-3), (0.0, 288.15, -6.5e-3), (11000.0, 216.65, 0.0), (20000.0, 216.65, 1e-3),
    (32000.0, 228.65, 2.8e-3), (47000.0, 270.65, 0.0), (51000.0, 270.65, -2.8e-3), (71000.0, 214.65, -2e-3),
];
fn std_temp(h: f64) -> f64 {
    let l = LAYERS.iter().rev().find(|l| h >= l.0).unwrap_or(&LAYERS[0]);
    l.1 + l.2 * (h - l.0)
}
/// pressure by integrating the hydrostatic equation over the layers from sea level
fn std_press(h: f64, r: f64) -> f64 {
    let mut p = 101325.0f64;
    let mut at = 0.0;
    let seg = |p: f64, a: f64, b: f64, lapse: f64| -> f64 {
        let (ta, tb) = (std_temp_in(a, lapse, b), 0.0);
        let _ = tb;
        if lapse == 0.0 { p * (-G0 * (b - a) / (r * ta)).exp() } else { p * ((ta + lapse * (b - a)) / ta).powf(-G0 / (r * lapse)) }
    };
    if h < 0.0 { return seg(p, 0.0, h, -6.5e-3) }
    for (i, l) in LAYERS.iter().enumerate().skip(1) {
        let top = LAYERS.get(i + 1).map(|x| x.0).unwrap_or(f64::INFINITY);
        let end = h.min(top);
        p = seg(p, at, end, l.2);
        at = end;
        if h <= top { break }
    }
    p
}
fn std_temp_in(a: f64, _lapse: f64, _b: f64) -> f64 { std_temp(a) }
fn isa(s: &mut Src) -> R {
    let m = ISA::new();
    let h = match s.draw(4) {
        0 => { let b = s.pick(&LAYERS).0; let d = s.sym(1.0); (b + d).max(-5000.0) }
        1 => s.pick(&LAYERS).0,
        2 => s.irange(-5, 80) as f64 * 1000.0,
        _ => s.f(-5000.0, 80000.0),
    };
    note!(s, "geopotential altitude {h}");
    s.nt(true);
    let t = m.temperature(h).map_err(|e| Fail::new(format!("ISA temperature({h}) refused: {e}")))?;
    let want = std_temp(h);
    ensure!((t - want).abs() <= 1e-9, "ISA temperature({h}) = {t}, published {want}");
    let r = RS / 28.964420;
    let p = m.pressure(h).map_err(|e| Fail::new(format!("ISA pressure({h}) refused: {e}")))?;
    let wp = std_press(h, r);
    ensure!(rel(p, wp, 3e-4), "ISA pressure({h}) = {p}, standard {wp}");
    let d = m.density(h).map_err(|e| Fail::new(format!("ISA density({h}) refused: {e}")))?;
    ensure!(rel(d, p / (r * t), 1e-9), "ISA density({h}) = {d}, ideal gas {}", p / (r * t));
    // decreasing, also across a layer boundary
    let h2 = h + s.f(10.0, 3000.0);
    if h2 <= 80000.0 {
        let p2 = m.pressure(h2).map_err(|e| Fail::new(format!("ISA pressure({h2}) refused: {e}")))?;
        ensure!(p2 < p, "ISA pressure rises from {p} at {h} to {p2} at {h2}");
    }
    // hydrostatic equation inside a layer
    if LAYERS.iter().all(|l| (h - l.0).abs() > 2.0) && h > -4998.0 && h < 79998.0 {
        let (a, b) = (m.pressure(h - 1.0).unwrap_or(f64::NAN), m.pressure(h + 1.0).unwrap_or(f64::NAN));
        ensure!(rel((a - b) / 2.0, d * G0, 1e-4), "ISA at {h}: -dp/dH = {}, rho g = {}", (a - b) / 2.0, d * G0);
    }
    // geometric and geopotential altitude
    let z = s.f(-5000.0, 81000.0);
    let hp = m.geopotential_altitude(z);
    let r0 = 6356766.0;
    ensure!((hp - r0 * z / (r0 + z)).abs() <= 1e-7, "geopotential_altitude({z}) = {hp}");
    let back = m.geometric_altitude(hp);
    ensure!((back - z).abs() <= 1e-7, "geometric_altitude(geopotential_altitude({z})) = {back}");
    let g = ISA::gravity(z);
    ensure!(rel(g, G0 * (r0 / (r0 + z)).powi(2), 1e-14), "gravity({z}) = {g}");
    Ok(())
}
fn ussa_temp(z: f64) -> f64 {
    let r0 = 6356766.0;
    if z < 86000.0 {
        let h = r0 * z / (r0 + z);
        std_temp(h)
    } else if z <= 91000.0 {
        186.8673
    } else if z <= 110000.0 {
        263.1905 - 76.3232 * (1.0 - ((z - 91000.0) / 19942.9).powi(2)).sqrt()
    } else if z <= 120000.0 {
        240.0 + 12e-3 * (z - 110000.0)
    } else {
        let xi = (z - 120000.0) * (r0 + 120000.0) / (r0 + z) / 1000.0;
        1000.0 - 640.0 * (-0.01875 * xi).exp()
    }
}
/// published pressures above 86 km (Pa)
const HIGH: [(f64, f64); 20] = [
    (86e3, 3.7338e-1), (91e3, 1.5381e-1), (95e3, 7.5966e-2), (100e3, 3.2011e-2), (105e3, 1.4477e-2), (110e3, 7.1042e-3), (115e3, 4.0096e-3), (120e3, 2.5382e-3),
    (150e3, 4.5422e-4), (200e3, 8.4736e-5), (250e3, 2.4767e-5), (300e3, 8.7704e-6), (350e3, 3.4498e-6), (400e3, 1.4518e-6), (500e3, 3.0236e-7), (600e3, 8.2130e-8),
    (700e3, 3.1908e-8), (800e3, 1.7036e-8), (900e3, 1.0873e-8), (1000e3, 7.5138e-9),
];
fn high_press(z: f64) -> f64 {
    let i = (0..HIGH.len() - 2).rev().find(|&i| z >= HIGH[i].0).unwrap_or(0);
    let (a, b) = (HIGH[i], HIGH[i + 1]);
    a.1 * ((b.1 / a.1).ln() * (z - a.0) / (b.0 - a.0)).exp()
}
fn ussa(s: &mut Src) -> R {
    let m = USSA::new();
    let edges = [11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86e3, 91e3, 110e3, 120e3, 500e3, 1000e3];
    let z = match s.draw(6) {
        0 => { let b = *s.pick(&edges); (b + s.sym(2.0)).min(999_999.0) }
        1 => *s.pick(&edges[..11]),
        2 => s.irange(0, 999) as f64 * 1000.0,
        3 => s.f(0.0, 86_000.0),
        4 => s.f(86_000.0, 120_000.0),
        _ => s.f(0.0, 999_999.0),
    };
    note!(s, "geometric height {z}");
    s.nt(true);
    s.label(if z < 86e3 { "below 86 km" } else if z < 120e3 { "86-120 km" } else { "above 120 km" });
    let t = m.temperature(z).map_err(|_| Fail::new(format!("USSA temperature({z}) refused")))?;
    let want = ussa_temp(z);
    ensure!((t - want).abs() <= if z > 80_000.0 && z < 86_000.0 { 0.15 } else { 0.01 }, "USSA temperature({z}) = {t}, published {want}");
    let r = RS / 28.9644;
    let p = m.pressure(z).map_err(|e| Fail::new(format!("USSA pressure({z}) refused: {e}")))?;
    ensure!(p.is_finite() && p > 0.0, "USSA pressure({z}) = {p}");
    let d = m.density(z).map_err(|e| Fail::new(format!("USSA density({z}) refused: {e}")))?;
    ensure!(rel(d, p / (r * t), 1e-9), "USSA density({z}) = {d}, ideal gas {}", p / (r * t));
    let c = m.speed_of_sound(z).map_err(|e| Fail::new(format!("USSA speed_of_sound({z}) refused: {e}")))?;
    ensure!(rel(c * c, 1.4 * r * t, 1e-9), "USSA speed of sound at {z}: {c}, sqrt(gamma R T) = {}", (1.4 * r * t).sqrt());
    let mu = m.dynamic_viscosity(z).map_err(|e| Fail::new(format!("USSA dynamic_viscosity({z}) refused: {e}")))?;
    ensure!(rel(mu, 1.458e-6 * t * t.sqrt() / (t + 110.4), 1e-9), "USSA viscosity at {z}: {mu}");
    // the Earth body hands the same numbers on
    let e = Earth::new();
    for (what, a, b) in [("temperature", e.get_temperature(z), t), ("pressure", e.get_pressure(z), p), ("density", e.get_density(z), d), ("speed of sound", e.get_speed_of_sound(z), c)] {
        ensure!(a == Ok(b), "Earth {what} at {z}: {a:?}, atmosphere {b}");
    }
    let r0 = 6356766.0;
    if z < 86_000.0 {
        let wp = std_press(r0 * z / (r0 + z), r);
        ensure!(rel(p, wp, 3e-4), "USSA pressure({z}) = {p}, standard {wp}");
        if edges.iter().all(|e| (z - e).abs() > 2.0) && z > 2.0 {
            let (a, b) = (m.pressure(z - 1.0).unwrap_or(f64::NAN), m.pressure(z + 1.0).unwrap_or(f64::NAN));
            let g = G0 * (r0 / (r0 + z)).powi(2);
            ensure!(rel((a - b) / 2.0, d * g, 3e-4), "USSA at {z}: -dp/dz = {}, rho g = {}", (a - b) / 2.0, d * g);
        }
    } else {
        let wp = high_press(z);
        let ratio = (p / wp).ln().abs();
        let lim: f64 = if z < 100e3 { 1.15 } else if z <= 120e3 { 1.6 } else { 1.7 };
        if ratio > lim.ln() {
            let msg = format!("USSA pressure({z}) = {p:e}, published about {wp:e}");
            // the known deviation: a constant lapse rate (120-500 km) or an isothermal layer with
            // sea-level molar mass (above 500 km); any other wrong value is a violation
            let known = if z < 500e3 { 2.5382e-3 * (360.0 / t).powf(G0 / (r * 12e-3)) } else { 3.0236e-7 * (-G0 * (r0 * z / (r0 + z) - r0 * 500e3 / (r0 + 500e3)) / (r * t)).exp() };
            if z >= 120e3 && rel(p, known, 2e-3) { s.finding("ussa-pressure-above-120km", msg)?; } else { return Err(Fail::new(msg)) }
        }
        // published values at the table's own levels
        for (k, (base, want)) in [(86e3, 3.7338e-1), (91e3, 1.5381e-1), (110e3, 7.1042e-3), (120e3, 2.5382e-3), (500e3, 3.0236e-7)].into_iter().enumerate() {
            let _ = k;
            if z == base { ensure!(rel(p, want, 2e-5), "USSA pressure({z}) = {p:e}, published {want:e}"); }
        }
    }
    // strictly decreasing
    let z2 = (z + s.f(20.0, 4000.0)).min(999_999.0);
    if z2 > z + 10.0 {
        let p2 = m.pressure(z2).map_err(|e| Fail::new(format!("USSA pressure({z2}) refused: {e}")))?;
        // the tabulated levels carry five digits
        let slack = if edges.iter().any(|e| z < *e && *e <= z2) { 2e-3 } else { 0.0 };
        if !(p2 < p * (1.0 + slack)) {
            let msg = format!("USSA pressure rises from {p:e} at {z} to {p2:e} at {z2}");
            let k = 7.1042e-3 * (240.0 / t).powf(G0 / (r * 12e-3));
            if z < 120e3 && z > 110e3 && z2 >= 120e3 && p2 < 1.15 * p && rel(p, k, 2e-3) { s.finding("ussa-pressure-rises-across-120km", msg)?; } else { return Err(Fail::new(msg)) }
        }
    }
    Ok(())
}
fn refusal(s: &mut Src) -> R {
    let nan = s.chance(1, 6);
    let x = if nan { f64::NAN } else { match s.draw(3) { 0 => f64::INFINITY, 1 => s.logf(1.0001, 1e12), 2 => f64::MAX, _ => 1.0 + s.logf(1e-9, 1.0) } };
    let (zu, zi) = (1_000_000.0 * x, 80_000.0 * x);
    note!(s, "heights {zu} {zi}");
    s.nt(true);
    let u = USSA::new();
    ensure!(u.temperature(zu).is_err(), "USSA temperature({zu}) answered");
    ensure!(u.pressure(zu).is_err(), "USSA pressure({zu}) = {:?}", u.pressure(zu));
    ensure!(u.density(zu).is_err(), "USSA density({zu}) = {:?}", u.density(zu));
    ensure!(u.speed_of_sound(zu).is_err(), "USSA speed_of_sound({zu}) = {:?}", u.speed_of_sound(zu));
    ensure!(u.dynamic_viscosity(zu).is_err(), "USSA dynamic_viscosity({zu}) = {:?}", u.dynamic_viscosity(zu));
    let e = Earth::new();
    ensure!(e.get_temperature(zu).is_err() && e.get_pressure(zu).is_err() && e.get_density(zu).is_err() && e.get_speed_of_sound(zu).is_err(), "Earth answered at {zu}");
    let i = ISA::new();
    ensure!(i.temperature(zi).is_err(), "ISA temperature({zi}) = {:?}", i.temperature(zi));
    ensure!(i.pressure(zi).is_err(), "ISA pressure({zi}) = {:?}", i.pressure(zi));
    ensure!(i.density(zi).is_err(), "ISA density({zi}) = {:?}", i.density(zi));
    // nothing crashes, whatever the number
    let any = s.any_f64_bits();
    let _ = (u.temperature(any).is_ok(), u.pressure(any).is_ok(), u.density(any).is_ok(), u.speed_of_sound(any).is_ok(), u.dynamic_viscosity(any).is_ok());
    let _ = (i.temperature(any).is_ok(), i.pressure(any).is_ok(), i.density(any).is_ok());
    let _ = (e.get_temperature(any).is_ok(), e.get_pressure(any).is_ok(), e.get_density(any).is_ok(), e.get_speed_of_sound(any).is_ok());
    Ok(())
}
pub fn register(r: &mut Registry) {
    r.add("E01", "geodetic", 20_000, "latitude/longitude with emphasis on poles, equator, antimeridian; height -1000 km to 400000 km; every case counts", geodetic);
    r.add("E01", "from_ecef", 20_000, "Earth-fixed points incl. exactly on the axis and in the equatorial plane; every case counts", from_ecef);
    r.add("E01", "single", 10_000, "single-precision coordinates; every case counts", single);
    r.add("E02", "gravity", 20_000, "geodetic points from -10 km to 100000 km; every case counts", gravity);
    r.add("E02", "surface", 20_000, "surface points; non-trivial away from the equator", surface);
    r.add("E03", "rotating", 20_000, "rotation rate about any axis, velocity, position, mass; non-trivial when the Coriolis force is not zero", rotating);
    r.add("E03", "point_mass", 20_000, "position, mass, inertia, gravitational parameter; every case counts", point_mass);
    r.add("E03", "frames", 20_000, "time, epoch, rate, epoch orientation; non-trivial at a non-zero time", frames);
    r.add("E03", "orbit", 10_000, "orbit size, masses, period; every case counts", orbit);
    r.add("E04", "isa", 20_000, "geopotential altitude in -5..80 km with emphasis on layer edges; every case counts", isa);
    r.add("E04", "ussa", 20_000, "geometric height in 0..1000 km with emphasis on layer edges; every case counts", ussa);
    r.add("E04", "refusal", 20_000, "heights above the range, infinities, non-numbers, arbitrary bit patterns; every case counts", refusal);
}
