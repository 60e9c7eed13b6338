//! B01 representations, B02 frame algebra, B03 kinematics, B04 coordinates, B05 frame transforms.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::attitude::{DirectionCosineMatrix as Dcm, Euler, Quaternion, Rotation};
use aether_core::coordinate::{Cartesian, Cylindrical, Spherical};
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{transforms as tf, Assembly, Body, Pose, RotatingFrame, ICRF, ITRF, NED};
use aether_core::utils::angle_conversion::{ToDegrees, ToRadians};
use core::marker::PhantomData;
use std::f64::consts::PI;

type A = ICRF<f64>;
type B = ITRF<f64>;
type C = Body<f64>;
type Dd = NED<f64>;

fn m3<T: Fl>(m: &Matrix<T, 3, 3>) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { r[i][j] = m.data[i][j].f(); } }
    r
}
fn v3<T: Fl>(v: &Vector<T, 3>) -> V3 { [v[0].f(), v[1].f(), v[2].f()] }
fn c3<T: Fl, F>(c: &Cartesian<T, F>) -> V3 { v3(&c.data) }
fn tv<T: Fl>(v: V3) -> Vector<T, 3> { Vector::new([T::of(v[0]), T::of(v[1]), T::of(v[2])]) }
fn q4<T: Fl, X, Y>(q: &Quaternion<T, X, Y>) -> [f64; 4]
where X: aether_core::reference_frame::ReferenceFrame, Y: aether_core::reference_frame::ReferenceFrame {
    [q.data[0].f(), q.data[1].f(), q.data[2].f(), q.data[3].f()]
}
/// passive matrix of a (not necessarily unit) quaternion
pub fn qmat(q: [f64; 4]) -> M3 {
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    let (w, x, y, z) = (q[0] / n, q[1] / n, q[2] / n, q[3] / n);
    [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y + w * z), 2.0 * (x * z - w * y)],
        [2.0 * (x * y - w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z + w * x)],
        [2.0 * (x * z + w * y), 2.0 * (y * z - w * x), 1.0 - 2.0 * (x * x + y * y)],
    ]
}
fn emat(e: V3) -> M3 { mm(&mm(&rx(e[0]), &ry(e[1])), &rz(e[2])) }
fn proper(what: &str, m: &M3, tol: f64) -> R {
    let d = mdiff(&mm(m, &tr(m)), &I3);
    ensure!(d <= tol, "{what}: M*M^T differs from identity by {d:e}");
    let dd = det3(m);
    ensure!((dd - 1.0).abs() <= tol * 3.0, "{what}: determinant {dd}");
    Ok(())
}
fn qnorm(q: [f64; 4]) -> f64 { q.iter().map(|x| x * x).sum::<f64>().sqrt() }
fn qdist(a: [f64; 4], b: [f64; 4]) -> f64 {
    let p = (0..4).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
    let m = (0..4).map(|i| (a[i] + b[i]).abs()).fold(0.0, f64::max);
    let r = p.min(m);
    if (0..4).any(|i| a[i].is_nan() || b[i].is_nan()) { f64::INFINITY } else { r }
}
fn gvec3(s: &mut Src, m: f64) -> V3 { [s.sym(m), s.sym(m), s.sym(m)] }
fn gdir(s: &mut Src) -> V3 {
    // axis directions, planes, general; length in [1e-3, 1e3]
    let v = match s.draw(4) {
        0 => { let mut v = [0.0; 3]; let i = s.range(0, 2); v[i] = s.sgn(); v }
        1 => { let mut v = gvec3(s, 1.0); let i = s.range(0, 2); v[i] = 0.0; v }
        2 => [s.irange(-3, 3) as f64, s.irange(-3, 3) as f64, s.irange(-3, 3) as f64],
        _ => gvec3(s, 1.0),
    };
    let v = if norm(v) < 1e-3 { [1.0, 0.0, 0.0] } else { v };
    let l = if s.bool() { s.logf(1e-3, 1e3) } else { 1.0 };
    scale(unit(v), l)
}
/// unit quaternion: identity, half turns, near branch switches, small, uniform
fn gquat(s: &mut Src) -> [f64; 4] {
    let q: [f64; 4] = match s.draw(7) {
        0 => { let mut q = [0.0; 4]; let i = s.range(0, 3); q[i] = s.sgn(); q }
        1 => { // half turn about any axis
            let d = gdir(s); [0.0, d[0], d[1], d[2]] }
        2 => { // near-identity
            let d = unit(gdir(s)); let a = 10f64.powi(-(s.range(1, 12) as i32)); [1.0, a * d[0], a * d[1], a * d[2]] }
        3 => { // nearly half turn
            let d = unit(gdir(s)); let a = s.sgn() * 10f64.powi(-(s.range(1, 12) as i32)); [a, d[0], d[1], d[2]] }
        4 => { // one component near 1/4, the value at which extraction switches branch
            let i = s.range(0, 3);
            let mut q = [s.sym(1.0), s.sym(1.0), s.sym(1.0), s.sym(1.0)];
            q[i] = 0.0;
            let n = qnorm(q);
            if n < 1e-6 { [0.25, 0.5, 0.5, 0.6] } else {
                let e = s.sgn() * 10f64.powi(-(s.range(1, 15) as i32));
                let t = 0.25 + e;
                let k = (1.0 - t * t).sqrt() / n;
                for x in q.iter_mut() { *x *= k; }
                q[i] = t * s.sgn();
                q
            }
        }
        _ => [s.sym(1.0), s.sym(1.0), s.sym(1.0), s.sym(1.0)],
    };
    let n = qnorm(q);
    if n < 1e-6 { return [1.0, 0.0, 0.0, 0.0] }
    let sg = s.sgn();
    q.map(|x| x / n * sg)
}
fn mkq<T: Fl, X: aether_core::reference_frame::ReferenceFrame, Y: aether_core::reference_frame::ReferenceFrame>(q: [f64; 4]) -> Quaternion<T, X, Y> {
    Quaternion::new(T::of(q[0]), T::of(q[1]), T::of(q[2]), T::of(q[3]))
}
fn mkc<T: Fl, X: aether_core::reference_frame::ReferenceFrame>(v: V3) -> Cartesian<T, X> {
    Cartesian::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}

/// every vector-rotation form of a quaternion and matrix against the reference matrix
fn all_forms<T: Fl>(q: &Quaternion<T, A, B>, d: &Dcm<T, A, B>, r: &M3, v: V3, tol: f64) -> R {
    let c: Cartesian<T, A> = mkc(v);
    let w = mv(r, c3(&c));
    let t = tol * (norm(v) + 1e-300);
    for (n, g) in [
        ("rotate_vector", v3(&q.rotate_vector(c.data))),
        ("rotate_vec", v3(&q.rotate_vec(&c.data))),
        ("rotate_cartesian", c3(&q.rotate_cartesian(c))),
        ("q*c", c3(&(*q * c))),
        ("&q*c", c3(&(q * c))),
        ("q*&c", c3(&(*q * &c))),
        ("&q*&c", c3(&(q * &c))),
        ("Cartesian::transform", c3(&c.transform(q))),
        ("dcm*c", c3(&(*d * c))),
        ("&dcm*c", c3(&(d * c))),
        ("dcm*&c", c3(&(*d * &c))),
        ("&dcm*&c", c3(&(d * &c))),
        ("matrix*vector", v3(&(*d.as_matrix() * c.data))),
        ("matrix*cartesian", c3(&(*d.as_matrix() * c))),
    ] {
        ensure!(vdiff(g, w) <= t, "{n}: {g:?} want {w:?} (tol {t:e})");
    }
    Ok(())
}
fn extract_check<T: Fl>(what: &str, e: &Euler<T, A, B>, r: &M3) -> R {
    let g = [e.roll().f(), e.pitch().f(), e.yaw().f()];
    ensure!(g.iter().all(|x| x.is_finite()), "{what}: non-finite angles {g:?}");
    ensure!(g == v3(&e.data), "{what}: roll/pitch/yaw accessors differ from the data");
    let sp = -r[0][2];
    let cp = r[0][0].hypot(r[0][1]).max(T::E.sqrt());
    // within some square roots of the precision of the singularity only yaw -+ roll is determined
    let tol = if cp < 20.0 * T::E.sqrt() { 24.0 * T::E.sqrt() } else { 24.0 * T::E / cp + 16.0 * T::E };
    let d = mdiff(&emat(g), r);
    ensure!(d <= tol, "{what}: angles {g:?} give a rotation off by {d:e} (tol {tol:e}, cos pitch {cp:e})");
    ensure!(g[1].abs() <= PI / 2.0 + 4.0 * T::E, "{what}: pitch {} outside [-pi/2,pi/2]", g[1]);
    let _ = sp;
    // away from the singularity the principal angles are unique
    if cp > 1e3 * T::E.sqrt() {
        let w = [r[1][2].atan2(r[2][2]), (-r[0][2]).clamp(-1.0, 1.0).asin(), r[0][1].atan2(r[0][0])];
        for i in 0..3 {
            ensure!(adiff(g[i], w[i]) <= tol, "{what}: angle {i} is {} want {} modulo a turn (tol {tol:e})", g[i], w[i]);
        }
    }
    Ok(())
}

fn rep_euler<T: Fl + ToRadians<Output = T> + ToDegrees<Output = T>>(s: &mut Src) -> R {
    let lim = if s.bool() { PI } else { 4.0 * PI };
    let (a, b, c) = (s.angle(lim), if s.chance(1, 3) { s.angle(lim) } else { s.angle(PI / 2.0) }, s.angle(lim));
    let e = Euler::<T, A, B>::new(T::of(a), T::of(b), T::of(c));
    let ang = v3(&e.data);
    let r = emat(ang);
    note!(s, "{} roll={} pitch={} yaw={}", T::NAME, ang[0], ang[1], ang[2]);
    let cp = r[0][0].hypot(r[0][1]);
    s.nt(mdiff(&r, &I3) > 1e-9);
    s.label_if(cp < 1e-3, "near gimbal");
    s.label_if(cp < T::E.sqrt(), "at gimbal");
    s.label_if(ang.iter().any(|x| x.abs() > PI), "beyond one turn");
    let tol = 40.0 * T::E;
    let q = Quaternion::from(&e);
    let d = Dcm::from(e);
    ensure!(mdiff(&m3(d.as_matrix()), &r) <= tol, "matrix from Euler angles is {:?} want {r:?}", m3(d.as_matrix()));
    proper("matrix from Euler angles", &m3(d.as_matrix()), tol)?;
    ensure!((qnorm(q4(&q)) - 1.0).abs() <= tol, "quaternion from Euler angles has norm {}", qnorm(q4(&q)));
    ensure!((q.norm().f() - 1.0).abs() <= tol && (q.norm2().f() - 1.0).abs() <= tol, "norm()/norm2() of a unit quaternion");
    ensure!(mdiff(&qmat(q4(&q)), &r) <= tol, "quaternion from Euler angles: rotation off by {:e}", mdiff(&qmat(q4(&q)), &r));
    reps::<T>(s, &q, &d, &r)?;
    // degrees
    let deg = tv::<T>([a.to_degrees(), b.to_degrees(), c.to_degrees()]);
    let ed = Euler::<T, A, B>::from_degrees_vec(deg);
    for i in 0..3 {
        ensure!(rel(ed.data[i].f(), deg[i].f().to_radians(), 4.0 * T::E), "from_degrees_vec component {i}: {} want {}", ed.data[i].f(), deg[i].f().to_radians());
        ensure!(rel(ed.to_degrees_vec()[i].f(), deg[i].f(), 8.0 * T::E), "to_degrees_vec component {i}");
    }
    Ok(())
}
/// conversions among all representations of the rotation r
fn reps<T: Fl>(s: &mut Src, q: &Quaternion<T, A, B>, d: &Dcm<T, A, B>, r: &M3) -> R {
    let tol = 40.0 * T::E;
    for (n, m) in [("From<&Quaternion>", Dcm::<T, A, B>::from(q)), ("From<Quaternion>", Dcm::<T, A, B>::from(*q)), ("to_dcm", q.to_dcm())] {
        let g = m3(m.as_matrix());
        ensure!(mdiff(&g, r) <= tol, "quaternion to matrix by {n} is {g:?} want {r:?}");
        proper(n, &g, tol)?;
    }
    let q2 = match Quaternion::<T, A, B>::try_from(d) { Ok(x) => x, Err(_) => return Err(Fail::new("rotation matrix refused by quaternion extraction")) };
    let q3 = match Rotation::<T, A, B>::try_from(d) { Ok(x) => *x.quaternion(), Err(_) => return Err(Fail::new("rotation matrix refused by Rotation")) };
    let q5 = *Rotation::<T, A, B>::from(q).quaternion();
    let q6 = *Rotation::<T, A, B>::from_quaternion(*q).quaternion();
    for (n, x) in [("matrix->quaternion", q2), ("matrix->Rotation", q3), ("quaternion->Rotation", q5), ("Rotation::from_quaternion", q6)] {
        ensure!(qdist(q4(&x), q4(q)) <= 40.0 * T::E, "{n}: {:?} is not +-{:?}", q4(&x), q4(q));
        ensure!((qnorm(q4(&x)) - 1.0).abs() <= tol, "{n}: norm {}", qnorm(q4(&x)));
    }
    extract_check("Euler from quaternion", &Euler::from(q), r)?;
    extract_check("Euler from matrix", &Euler::from(d), r)?;
    let v = gvec3(s, 10.0);
    all_forms(q, d, r, v, tol)?;
    for k in 0..3 {
        let mut e = [0.0; 3];
        e[k] = 1.0;
        all_forms(q, d, r, e, tol)?;
    }
    let g = [[d.m11(), d.m12(), d.m13()], [d.m21(), d.m22(), d.m23()], [d.m31(), d.m32(), d.m33()]];
    for i in 0..3 { for j in 0..3 { ensure!(g[i][j] == d.as_matrix().data[i][j], "element accessor m{}{}", i + 1, j + 1); } }
    Ok(())
}
fn rep_quat<T: Fl>(s: &mut Src) -> R {
    let q0 = gquat(s);
    let q = mkq::<T, A, B>(q0).normalized();
    let r = qmat(q4(&q));
    note!(s, "{} q={:?}", T::NAME, q4(&q));
    s.nt(mdiff(&r, &I3) > 1e-9);
    s.label_if(q.w().f() < 0.0, "negative scalar part");
    s.label_if(q.w().f().abs() < 0.25, "vector-dominant (branches 2-4)");
    s.label_if(q.w().f() == 0.0, "half turn");
    for i in 0..4 { ensure!(q.data[i].f() == [q.w(), q.i(), q.j(), q.k()][i].f(), "component accessor {i}"); }
    let d = Dcm::<T, A, B>::from_matrix(Matrix { data: {
        let mut x = [[T::of(0.0); 3]; 3];
        for i in 0..3 { for j in 0..3 { x[i][j] = T::of(r[i][j]); } }
        x
    } });
    reps::<T>(s, &q, &d, &r)?;
    // scaled quaternions: normalising forms ignore the length
    let k = s.logf(1e-3, 1e3) * s.sgn();
    let qs = q * T::of(k);
    let tol = 60.0 * T::E;
    ensure!(mdiff(&m3(qs.to_dcm().as_matrix()), &r) <= tol, "to_dcm of a scaled quaternion");
    let v = gvec3(s, 5.0);
    ensure!(vdiff(v3(&qs.rotate_vector(tv(v))), mv(&r, v3(&tv::<T>(v)))) <= tol * (norm(v) + 1e-30), "rotate_vector of a scaled quaternion");
    ensure!(qdist(q4(&qs.normalized()), q4(&q)) <= tol, "normalized()");
    ensure!(qdist(q4(Rotation::<T, A, B>::from(&qs).quaternion()), q4(&q)) <= tol, "Rotation from a scaled quaternion");
    ensure!(rel(qs.norm().f(), k.abs(), 16.0 * T::E) && rel(qs.norm2().f(), k * k, 32.0 * T::E), "norm/norm2");
    Ok(())
}
fn rep_axis<T: Fl>(s: &mut Src) -> R {
    let ax = gdir(s);
    let a = s.angle(4.0 * PI);
    let axt = tv::<T>(ax);
    let at = T::of(a);
    let u = unit(v3(&axt));
    let r = rodrigues(u, -at.f());
    note!(s, "{} axis={:?} angle={}", T::NAME, v3(&axt), at.f());
    s.nt(a.abs() > 1e-12);
    s.label_if(norm(ax) != 1.0, "axis not unit length");
    s.label_if(a.abs() > PI, "more than half a turn");
    let tol = 40.0 * T::E;
    let q = Quaternion::<T, A, B>::from_axis_angle(axt, at);
    ensure!((qnorm(q4(&q)) - 1.0).abs() <= tol, "from_axis_angle norm {}", qnorm(q4(&q)));
    ensure!(mdiff(&qmat(q4(&q)), &r) <= tol, "from_axis_angle: rotation off by {:e}", mdiff(&qmat(q4(&q)), &r));
    // exact half-angle form: the sign of the scalar part follows the angle
    let (sh, ch) = (at.f() / 2.0).sin_cos();
    let w = [ch, u[0] * sh, u[1] * sh, u[2] * sh];
    ensure!((0..4).all(|i| (q4(&q)[i] - w[i]).abs() <= tol), "from_axis_angle components {:?} want {w:?}", q4(&q));
    let v = gvec3(s, 3.0);
    ensure!(vdiff(v3(&q.rotate_vector(tv(v))), mv(&r, v3(&tv::<T>(v)))) <= tol * (norm(v) + 1e-30), "rotated vector");
    // the axis is invariant
    ensure!(vdiff(v3(&q.rotate_vector(axt)), v3(&axt)) <= tol * norm(ax), "the axis itself moves");
    for (n, d, m) in [
        ("rotate_x", Dcm::<T, A, B>::rotate_x(at), rx(at.f())),
        ("rotate_y", Dcm::<T, A, B>::rotate_y(at), ry(at.f())),
        ("rotate_z", Dcm::<T, A, B>::rotate_z(at), rz(at.f())),
    ] {
        ensure!(mdiff(&m3(d.as_matrix()), &m) <= tol, "{n}({}) is {:?} want {m:?}", at.f(), m3(d.as_matrix()));
    }
    let rate = scale(u, s.logf(1e-3, 10.0));
    let dt = s.sym(3.0);
    let (rt, dtt) = (tv::<T>(rate), T::of(dt));
    let qw = Quaternion::<T, A, A>::from_angular_velocity(rt, dtt);
    let m = rodrigues(unit(v3(&rt)), -norm(v3(&rt)) * dtt.f());
    let t2 = tol * (1.0 + norm(rate) * dt.abs());
    ensure!(mdiff(&qmat(q4(&qw)), &m) <= t2, "from_angular_velocity: rotation off by {:e}", mdiff(&qmat(q4(&qw)), &m));
    ensure!((qnorm(q4(&qw)) - 1.0).abs() <= tol, "from_angular_velocity norm");
    Ok(())
}

// ------------------------------------------------------------------ B02
fn algebra<T: Fl>(s: &mut Src) -> R {
    let (a, b, c) = (gquat(s), gquat(s), gquat(s));
    let qab = mkq::<T, A, B>(a).normalized();
    let qbc = mkq::<T, B, C>(b).normalized();
    let qcd = mkq::<T, C, Dd>(c).normalized();
    let (ra, rb, rc) = (qmat(q4(&qab)), qmat(q4(&qbc)), qmat(q4(&qcd)));
    note!(s, "{} q_ab={:?} q_bc={:?} q_cd={:?}", T::NAME, q4(&qab), q4(&qbc), q4(&qcd));
    let noncomm = mdiff(&mm(&rb, &ra), &mm(&ra, &rb));
    s.nt(noncomm > 1e-6);
    s.label_if(noncomm > 1e-6, "non-commuting");
    let tol = 80.0 * T::E;
    let rac = mm(&rb, &ra);
    let v = gvec3(s, 10.0);
    let cv: Cartesian<T, A> = mkc(v);
    let nv = norm(c3(&cv)) + 1e-300;
    // quaternion composition
    let q1 = qbc * qab;
    let q2 = &qbc * &qab;
    ensure!(q1 == q2, "by-value and by-reference quaternion products differ");
    ensure!(mdiff(&qmat(q4(&q1)), &rac) <= tol, "quaternion composition is {:?} want {rac:?}", qmat(q4(&q1)));
    ensure!((qnorm(q4(&q1)) - 1.0).abs() <= tol, "composed quaternion norm {}", qnorm(q4(&q1)));
    let in_turn = qbc * (qab * cv);
    ensure!(vdiff(c3(&(q1 * cv)), c3(&in_turn)) <= tol * nv, "composition {:?} differs from applying in turn {:?}", c3(&(q1 * cv)), c3(&in_turn));
    ensure!(vdiff(c3(&in_turn), mv(&rac, c3(&cv))) <= tol * nv, "applying in turn gives {:?} want {:?}", c3(&in_turn), mv(&rac, c3(&cv)));
    // associativity
    let l = (qcd * qbc) * qab;
    let r = qcd * (qbc * qab);
    ensure!((0..4).all(|i| (q4(&l)[i] - q4(&r)[i]).abs() <= tol), "quaternion composition is not associative");
    ensure!(mdiff(&qmat(q4(&l)), &mm(&rc, &rac)) <= tol, "triple composition");
    // matrices
    let (dab, dbc, dcd) = (Dcm::from(&qab), Dcm::from(&qbc), Dcm::from(&qcd));
    let dac: Dcm<T, A, C> = dbc * dab;
    ensure!(mdiff(&m3(dac.as_matrix()), &rac) <= tol, "matrix composition");
    ensure!(mdiff(&m3(((dcd * dbc) * dab).as_matrix()), &m3((dcd * (dbc * dab)).as_matrix())) <= tol, "matrix composition is not associative");
    ensure!(mdiff(&m3(Dcm::from(&q1).as_matrix()), &m3(dac.as_matrix())) <= tol, "matrix of the composed quaternion differs from the composed matrices");
    ensure!(vdiff(c3(&(dac * cv)), c3(&(dbc * (dab * cv)))) <= tol * nv, "matrix composition differs from applying in turn");
    // wrapper
    let (wab, wbc, wcd) = (Rotation::from_quaternion(qab), Rotation::from_quaternion(qbc), Rotation::from_quaternion(qcd));
    let wac = wab.compose(&wbc);
    ensure!(mdiff(&qmat(q4(wac.quaternion())), &rac) <= tol, "Rotation::compose is {:?} want {rac:?}", qmat(q4(wac.quaternion())));
    let w1 = wab.compose(&wbc).compose(&wcd);
    let w2 = wab.compose(&wbc.compose(&wcd));
    ensure!(qdist(q4(w1.quaternion()), q4(w2.quaternion())) <= tol, "Rotation::compose is not associative");
    // undoing
    let inv = qab.inverse();
    for (n, g) in [
        ("inverse after", c3(&(inv * (qab * cv)))),
        ("inverse composed", c3(&((inv * qab) * cv))),
        ("transpose after", c3(&(dab.transpose() * (dab * cv)))),
        ("transpose composed", c3(&((dab.transpose() * dab) * cv))),
        ("conjugate", v3(&qab.conjugate().rotate_vector(qab.rotate_vector(cv.data)))),
        ("conjugate before", v3(&qab.rotate_vector(qab.conjugate().rotate_vector(cv.data)))),
    ] {
        ensure!(vdiff(g, c3(&cv)) <= tol * nv, "{n}: {g:?} want {:?}", c3(&cv));
    }
    let (t, d) = (m3(dab.transpose().as_matrix()), m3(dab.as_matrix()));
    ensure!(t == tr(&d), "transpose is not the transposed matrix");
    let k = s.logf(1e-2, 1e2);
    let qk = qab * T::of(k);
    let qi = q4(&(qk.inverse() * qk));
    ensure!((qi[0] - 1.0).abs() <= tol && qi[1..].iter().all(|x| x.abs() <= tol), "inverse of a non-unit quaternion times itself is {qi:?}");
    // every operator form and named method agrees, and an attitude quaternion that has drifted off unit length still
    // rotates (it is normalised before use), so lengths stay
    for q in [qab, qk, -qab] {
        let w = mv(&ra, c3(&cv));
        for (n, g) in [
            ("&q*&v", c3(&(&q * &cv))), ("q*&v", c3(&(q * &cv))), ("&q*v", c3(&(&q * cv))), ("q*v", c3(&(q * cv))),
            ("rotate_vec", v3(&q.rotate_vec(&cv.data))), ("rotate_vector", v3(&q.rotate_vector(cv.data))),
            ("rotate_cartesian", c3(&q.rotate_cartesian(cv))), ("to_dcm*v", c3(&(q.to_dcm() * cv))),
        ] {
            ensure!(vdiff(g, w) <= tol * nv, "{n} gives {g:?} want {w:?}");
        }
    }
    let w = mv(&d, c3(&cv));
    for (n, g) in [("&D*&v", c3(&(&dab * &cv))), ("D*&v", c3(&(dab * &cv))), ("&D*v", c3(&(&dab * cv))), ("D*v", c3(&(dab * cv)))] {
        ensure!(vdiff(g, w) <= tol * nv, "{n} gives {g:?} want {w:?}");
    }
    // isometry and handedness
    let u = gvec3(s, 4.0);
    let (tu, tvv) = (v3(&tv::<T>(u)), c3(&cv));
    let (ru, rv) = (v3(&qab.rotate_vector(tv(u))), c3(&(qab * cv)));
    let nn = (norm(tu) * norm(tvv)).max(1e-300);
    ensure!((norm(rv) - norm(tvv)).abs() <= tol * nv, "length changed: {} -> {}", norm(tvv), norm(rv));
    ensure!((dot(ru, rv) - dot(tu, tvv)).abs() <= tol * nn, "dot product changed");
    let cr = v3(&qab.rotate_vector(tv(cross(tu, tvv))));
    ensure!(vdiff(cross(ru, rv), cr) <= tol * nn, "cross product not carried along (handedness)");
    Ok(())
}
fn arith<T: Fl>(s: &mut Src) -> R {
    let st = s.draw(1);
    let g = |s: &mut Src| if st == 0 { s.irange(-9, 9) as f64 } else { s.sym(10.0) };
    let a: [f64; 4] = [g(s), g(s), g(s), g(s)];
    let b: [f64; 4] = [g(s), g(s), g(s), g(s)];
    let k = g(s);
    let (p, q) = (mkq::<T, A, B>(a), mkq::<T, A, B>(b));
    let (a, b) = (q4(&p), q4(&q));
    let kt = T::of(k);
    note!(s, "{} p={a:?} q={b:?} k={}", T::NAME, kt.f());
    s.nt(a.iter().any(|x| *x != 0.0) && b.iter().any(|x| *x != 0.0));
    let tol = if st == 0 { 0.0 } else { 2.0 * T::E };
    let ck = |n: &str, g: [f64; 4], w: [f64; 4]| -> R {
        for i in 0..4 { ensure!(close(g[i], w[i], tol * (w[i].abs() + 1e-300)), "{n} component {i}: {} want {}", g[i], w[i]); }
        Ok(())
    };
    let z = |f: &dyn Fn(f64, f64) -> f64| { let mut r = [0.0; 4]; for i in 0..4 { r[i] = f(a[i], b[i]); } r };
    ck("p+q", q4(&(p + q)), z(&|x, y| x + y))?;
    ck("p-q", q4(&(p - q)), z(&|x, y| x - y))?;
    ck("-p", q4(&(-p)), z(&|x, _| -x))?;
    ck("p*k", q4(&(p * kt)), z(&|x, _| x * kt.f()))?;
    if k != 0.0 { 
        let w = z(&|x, _| x / kt.f());
        let got = q4(&(p / kt));
        for i in 0..4 { ensure!(rel(got[i], w[i], 4.0 * T::E), "p/k component {i}: {} want {}", got[i], w[i]); }
    }
    ck("conjugate", q4(&p.conjugate()), [a[0], -a[1], -a[2], -a[3]])?;
    let ab: f64 = (0..4).map(|i| (a[i] * b[i]).abs()).sum();
    ensure!(close(p.dot(&q).f(), (0..4).map(|i| a[i] * b[i]).sum(), tol * 4.0 * ab), "dot");
    let h = [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ];
    let na = qnorm(a) * qnorm(b);
    let got = q4(&p.mul_hamilton_same(&q));
    for i in 0..4 { ensure!(close(got[i], h[i], tol * 4.0 * na), "Hamilton product component {i}: {} want {}", got[i], h[i]); }
    let pp = Quaternion::<T, A, B>::from_parts(T::of(a[0]), mkc([a[1], a[2], a[3]]));
    ensure!(q4(&pp) == a, "from_parts");
    let id = q4(&Quaternion::<T, A, B>::identity());
    ensure!(id == [1.0, 0.0, 0.0, 0.0], "identity is {id:?}");
    // Euler angle arithmetic is component-wise in all its forms
    let (e, f) = (Euler::<T, A, B>::new(T::of(a[0]), T::of(a[1]), T::of(a[2])), Euler::<T, A, B>::new(T::of(b[0]), T::of(b[1]), T::of(b[2])));
    let ce = |n: &str, g: Euler<T, A, B>, f: &dyn Fn(f64, f64) -> f64| -> R {
        for i in 0..3 { let w = f(a[i], b[i]); ensure!(close(g.data[i].f(), w, 4.0 * tol * (w.abs() + 1e-300)), "Euler {n} component {i}: {} want {w}", g.data[i].f()); }
        Ok(())
    };
    for g in [e + f, e + &f, &e + f, &e + &f] { ce("+", g, &|x, y| x + y)?; }
    for g in [e - f, e - &f, &e - f, &e - &f] { ce("-", g, &|x, y| x - y)?; }
    for g in [-e, -&e] { ce("neg", g, &|x, _| -x)?; }
    for g in [e * kt, &e * kt] { ce("*k", g, &|x, _| x * kt.f())?; }
    let mut x = e;
    x += f;
    ce("+=", x, &|x, y| x + y)?;
    let mut x = e;
    x += &f;
    ce("+=&", x, &|x, y| x + y)?;
    if k != 0.0 {
        for g in [e / kt, &e / kt] { for i in 0..3 { ensure!(rel(g.data[i].f(), a[i] / kt.f(), 4.0 * T::E), "Euler / component {i}"); } }
    }
    Ok(())
}

// ------------------------------------------------------------------ B03
/// body rate w0 + a*t integrated with fine RK4 steps on the quaternion (body rates: q' = q (x) w / 2)
fn ref_kin(q0: [f64; 4], w0: V3, al: V3, dt: f64) -> [f64; 4] {
    let n = 128;
    let h = dt / n as f64;
    let f = |t: f64, q: [f64; 4]| -> [f64; 4] {
        let w = add(w0, scale(al, t));
        [
            0.5 * (-q[1] * w[0] - q[2] * w[1] - q[3] * w[2]),
            0.5 * (q[0] * w[0] + q[2] * w[2] - q[3] * w[1]),
            0.5 * (q[0] * w[1] - q[1] * w[2] + q[3] * w[0]),
            0.5 * (q[0] * w[2] + q[1] * w[1] - q[2] * w[0]),
        ]
    };
    let ax = |q: [f64; 4], k: [f64; 4], h: f64| { let mut r = q; for i in 0..4 { r[i] += k[i] * h; } r };
    let mut q = q0;
    for i in 0..n {
        let t = i as f64 * h;
        let k1 = f(t, q);
        let k2 = f(t + h / 2.0, ax(q, k1, h / 2.0));
        let k3 = f(t + h / 2.0, ax(q, k2, h / 2.0));
        let k4 = f(t + h, ax(q, k3, h));
        for j in 0..4 { q[j] += h / 6.0 * (k1[j] + 2.0 * k2[j] + 2.0 * k3[j] + k4[j]); }
    }
    let m = qnorm(q);
    q.map(|x| x / m)
}
fn kin_rotation<T: Fl>(s: &mut Src) -> R {
    let q = mkq::<T, A, B>(gquat(s)).normalized();
    let w = if s.chance(1, 12) { [0.0; 3] } else { scale(gdir(s), 0.01f64.max(s.unit())) };
    let dt = match s.draw(3) { 0 => 0.0, 1 => s.logf(1e-6, 1e-2), _ => s.sym(2.0) };
    let (wt, dtt) = (tv::<T>(w), T::of(dt));
    let (w, dt) = (v3(&wt), dtt.f());
    note!(s, "{} q={:?} omega={w:?} dt={dt}", T::NAME, q4(&q));
    s.nt(norm(w) * dt != 0.0);
    s.label_if(norm(w) == 0.0, "zero rate");
    s.label_if(norm(w) * dt.abs() > PI, "more than half a turn in one step");
    let rot = Rotation::from_quaternion(q);
    let g = rot.integrate(wt, dtt);
    let gq = q4(g.quaternion());
    let th = norm(w) * dt.abs();
    let tol = 60.0 * T::E * (1.0 + th);
    ensure!((qnorm(gq) - 1.0).abs() <= tol, "norm after the step {}", qnorm(gq));
    let r0 = qmat(q4(&q));
    let dr = if norm(w) == 0.0 { I3 } else { rodrigues(unit(w), -norm(w) * dt) };
    let want = mm(&dr, &r0);
    ensure!(mdiff(&qmat(gq), &want) <= tol, "Rotation::integrate gives {:?} want {want:?}", qmat(gq));
    if th == 0.0 { ensure!(qdist(gq, q4(&q)) <= 2.0 * T::E, "zero rate or step changed the attitude"); }
    // a history of steps of constant rate equals the one long step
    let n = if s.chance(1, 200) { s.range(13, 1000) } else { s.range(1, 12) };
    let mut x = Rotation::from_quaternion(q);
    let small = T::of(dt / n as f64);
    for _ in 0..n { x = x.integrate(wt, small); }
    let want = mm(&if norm(w) == 0.0 { I3 } else { rodrigues(unit(w), -norm(w) * small.f() * n as f64) }, &r0);
    ensure!(mdiff(&qmat(q4(x.quaternion())), &want) <= tol * (n as f64 + 1.0), "{n} steps differ from the accumulated rotation by {:e}", mdiff(&qmat(q4(x.quaternion())), &want));
    Ok(())
}
fn kin_history(s: &mut Src) -> R {
    // sequence of different body rates: product of the exponentials, order matters
    let mut r = qmat([1.0, 0.0, 0.0, 0.0]);
    let mut x = Rotation::<f64, A, B>::from_quaternion(Quaternion::identity());
    let n = if s.chance(1, 200) { s.range(31, 5000) } else { s.range(2, 30) };
    let mut seq = vec![];
    for _ in 0..n {
        let w = gvec3(s, 3.0);
        let dt = s.logf(1e-3, 1.0);
        seq.push((w, dt));
        x = x.integrate(tv(w), dt);
        if norm(w) > 0.0 { r = mm(&rodrigues(unit(w), -norm(w) * dt), &r); }
    }
    note!(s, "{} steps, first {:?}", n, &seq[..2]);
    s.nt(norm(cross(seq[0].0, seq[1].0)) > 1e-3);
    let d = mdiff(&qmat(q4(x.quaternion())), &r);
    ensure!(d <= 1e-14 * n as f64 * 4.0, "after {n} steps the attitude is off by {d:e}");
    ensure!((qnorm(q4(x.quaternion())) - 1.0).abs() <= 1e-14 * n as f64, "norm drifted to {}", qnorm(q4(x.quaternion())));
    Ok(())
}
fn kin_taylor<T: Fl>(s: &mut Src) -> R {
    let q = mkq::<T, A, A>(gquat(s)).normalized();
    let size = s.logf(1e-3, 0.5);
    let w = match s.draw(4) { 0 => [0.0; 3], _ => scale(unit(gdir(s)), size * s.unit() / 0.1) };
    let al = match s.draw(3) { 0 => [0.0; 3], _ => scale(unit(gdir(s)), size * size * s.unit() / 0.01) };
    let dt = 0.1 * if s.bool() { 1.0 } else { s.unit() };
    let (wt, at, dtt) = (mkc::<T, A>(w), mkc::<T, A>(al), T::of(dt));
    let (w, al, dt) = (c3(&wt), c3(&at), dtt.f());
    let sz = norm(w) * dt + (norm(al) * dt * dt).sqrt();
    note!(s, "{} q={:?} omega={w:?} alpha={al:?} dt={dt} size={sz}", T::NAME, q4(&q));
    s.nt(sz > 1e-4);
    s.label_if(norm(cross(w, al)) > 1e-6, "rate and acceleration not parallel");
    s.label_if(norm(w) * dt == 0.0 && norm(al) == 0.0, "no motion");
    let g = q4(&q.integrate(wt, at, dtt));
    ensure!((qnorm(g) - 1.0).abs() <= 8.0 * T::E, "norm {}", qnorm(g));
    let want = ref_kin(q4(&q), w, al, dt);
    let d = qdist(g, want);
    let tol = 0.05 * sz.powi(4) + 20.0 * T::E + 2e-14;
    ensure!(d <= tol, "Taylor step {g:?} differs from the true kinematics {want:?} by {d:e} (tol {tol:e})");
    Ok(())
}
fn kin_matrix_rate(s: &mut Src) -> R {
    let q = mkq::<f64, A, B>(gquat(s)).normalized();
    let w = gvec3(s, 3.0);
    note!(s, "q={:?} omega={w:?}", q4(&q));
    s.nt(norm(w) > 1e-3);
    let k = m3(&tf::angular_rate_dcm(w[0], w[1], w[2]));
    // skew matrix: k v = w x v
    let v = gvec3(s, 3.0);
    ensure!(vdiff(mv(&k, v), cross(w, v)) <= 1e-14 * (norm(w) * norm(v) + 1e-30), "angular-rate matrix times v is {:?}, not the cross product {:?}", mv(&k, v), cross(w, v));
    // dR/dt = -[w]x R for the passive inertial-to-body matrix
    let h = 1e-3 / (1.0 + norm(w));
    let rot = Rotation::from_quaternion(q);
    let p = m3(Dcm::from(rot.integrate(tv(w), h).quaternion()).as_matrix());
    let m = m3(Dcm::from(rot.integrate(tv(w), -h).quaternion()).as_matrix());
    let r0 = m3(Dcm::from(&q).as_matrix());
    let rate = mm(&k, &r0);
    for i in 0..3 { for j in 0..3 {
        let fd = (p[i][j] - m[i][j]) / (2.0 * h);
        ensure!((fd + rate[i][j]).abs() <= 1e-5 * (1.0 + norm(w)), "matrix rate ({i},{j}) {fd} want {}", -rate[i][j]);
    } }
    Ok(())
}

// ------------------------------------------------------------------ B04
fn coords<T: Fl>(s: &mut Src) -> R {
    // any scale whose squares the type represents
    let (lo, hi) = if T::E > 1e-10 { (1e-7, 1e18) } else { (1e-140, 1e153) };
    let m = match s.draw(3) { 0 => s.logf(1e-6, 1e8), 1 => s.logf(lo, hi), _ => 1.0 };
    let mut p = match s.draw(3) {
        0 => [s.irange(-1, 1) as f64, s.irange(-1, 1) as f64, s.irange(-1, 1) as f64],
        1 => { // near an axis
            let e = 10f64.powi(-(s.range(1, 9) as i32));
            let mut p = [s.sym(1.0) * e, s.sym(1.0) * e, s.sym(1.0) * e];
            let i = s.range(0, 2);
            p[i] = s.sgn();
            p
        }
        _ => gvec3(s, 1.0),
    };
    p = scale(p, m);
    if s.chance(1, 4) { for v in p.iter_mut() { if *v == 0.0 && s.bool() { *v = -0.0; } } }
    let c: Cartesian<T, A> = mkc(p);
    let p = c3(&c);
    note!(s, "{} point {p:?}", T::NAME);
    s.nt(norm(p) > 0.0);
    s.label_if(p[0] == 0.0 && p[1] == 0.0, "on the z axis");
    s.label_if(p[0].hypot(p[1]) < 1e-3 * p[2].abs(), "near the z axis");
    s.label_if(p[0] < 0.0, "x negative");
    let n = norm(p);
    let tol = 16.0 * T::E * n;
    let at = 16.0 * T::E;
    // defining relations
    let sp = Spherical::from(&c);
    let (r, ph, th) = (sp.r().f(), sp.phi().f(), sp.theta().f());
    ensure!((r - n).abs() <= tol, "range {r} want {n}");
    if n > 0.0 {
        let wth = p[0].hypot(p[1]).atan2(p[2]);
        ensure!((th - wth).abs() <= at, "inclination {th} want {wth}");
    }
    if p[0] != 0.0 || p[1] != 0.0 {
        ensure!(adiff(ph, p[1].atan2(p[0])) <= at, "azimuth {ph} want {}", p[1].atan2(p[0]));
    }
    let cy = Cylindrical::from(&c);
    ensure!((cy.r().f() - p[0].hypot(p[1])).abs() <= tol, "cylinder radius {} want {}", cy.r().f(), p[0].hypot(p[1]));
    ensure!(cy.z().f() == p[2], "cylinder height");
    if p[0] != 0.0 || p[1] != 0.0 {
        ensure!(adiff(cy.theta().f(), p[1].atan2(p[0])) <= at, "cylinder angle");
    }
    // back
    let b1 = c3(&Cartesian::<T, A>::from(&sp));
    let b2 = c3(&Cartesian::<T, A>::from(&cy));
    ensure!(vdiff(b1, p) <= tol, "Cartesian->spherical->Cartesian {b1:?} want {p:?}");
    ensure!(vdiff(b2, p) <= tol, "Cartesian->cylindrical->Cartesian {b2:?} want {p:?}");
    // spherical <-> cylindrical
    let sc = Spherical::from(&cy);
    let cs = Cylindrical::from(&sp);
    for i in 0..3 {
        let (a, w) = (sc.data[i].f(), sp.data[i].f());
        ensure!((a - w).abs() <= if i == 0 { tol } else { at }, "cylindrical->spherical component {i}: {a} want {w}");
        let (a, w) = (cs.data[i].f(), cy.data[i].f());
        ensure!((a - w).abs() <= if i == 1 { at } else { tol }, "spherical->cylindrical component {i}: {a} want {w}");
    }
    Ok(())
}
fn coords_polar<T: Fl>(s: &mut Src) -> R {
    let (lo, hi) = if T::E > 1e-10 { (1e-12, 1e18) } else { (1e-140, 1e153) };
    let r = match s.draw(19) { 0 => 0.0, 1..=4 => s.logf(lo, hi), _ => s.logf(1e-6, 1e8) };
    let ph = s.angle(PI);
    let th = s.angle(PI).abs();
    let sp = Spherical::<T>::new(T::of(r), T::of(ph), T::of(th));
    let (r, ph, th) = (sp.r().f(), sp.phi().f(), sp.theta().f());
    note!(s, "{} r={r} azimuth={ph} inclination={th}", T::NAME);
    s.nt(r > 0.0 && th > 1e-9 && th < PI - 1e-9);
    s.label_if(th.sin().abs() < 1e-3, "near the axis");
    let tol = 16.0 * T::E * r + 1e-300;
    let c = c3(&Cartesian::<T, A>::from(&sp));
    let w = [r * th.sin() * ph.cos(), r * th.sin() * ph.sin(), r * th.cos()];
    ensure!(vdiff(c, w) <= tol, "spherical->Cartesian {c:?} want {w:?}");
    let back = Spherical::from(&mkc::<T, A>(c));
    ensure!((back.r().f() - r).abs() <= tol, "range {} want {r}", back.r().f());
    if r > 0.0 {
        ensure!((back.theta().f() - th).abs() <= 32.0 * T::E, "inclination {} want {th}", back.theta().f());
        let cond = th.sin().abs();
        if cond > 1e-3 { ensure!(adiff(back.phi().f(), ph) <= 32.0 * T::E / cond, "azimuth {} want {ph}", back.phi().f()); }
    }
    let cy = Cylindrical::from(&sp);
    ensure!((cy.r().f() - r * th.sin()).abs() <= tol && (cy.z().f() - r * th.cos()).abs() <= tol && adiff(cy.theta().f(), ph) <= 4.0 * T::E, "spherical->cylindrical {:?}", v3(&cy.data));
    let z = if s.chance(1, 16) { 0.0 * s.sgn() } else { s.sym(5.0) * if s.bool() { r } else { 1.0 } };
    let cy = Cylindrical::<T>::new(T::of(r), T::of(ph), T::of(z));
    let c = c3(&Cartesian::<T, A>::from(&cy));
    let w = [r * ph.cos(), r * ph.sin(), cy.z().f()];
    ensure!(vdiff(c, w) <= tol, "cylindrical->Cartesian {c:?} want {w:?}");
    let b = Cylindrical::from(&mkc::<T, A>(c));
    ensure!((b.r().f() - r).abs() <= tol && b.z().f() == w[2] && (r == 0.0 || adiff(b.theta().f(), ph) <= 16.0 * T::E), "cylindrical round trip {:?}", v3(&b.data));
    let sc = Spherical::from(&cy);
    let rr = r.hypot(w[2]);
    ensure!((sc.r().f() - rr).abs() <= 16.0 * T::E * rr && (rr == 0.0 || (sc.theta().f() - r.atan2(w[2])).abs() <= 16.0 * T::E) && adiff(sc.phi().f(), ph) <= 4.0 * T::E, "cylindrical->spherical {:?}", v3(&sc.data));
    Ok(())
}
fn cart<T: Fl>(s: &mut Src) -> R {
    let ex = s.bool();
    let g = |s: &mut Src| if ex { s.irange(-99, 99) as f64 } else { s.sym(1e3) };
    let (a, b): (V3, V3) = ([g(s), g(s), g(s)], [g(s), g(s), g(s)]);
    let k = g(s);
    let (x, y) = (mkc::<T, A>(a), mkc::<T, A>(b));
    let (a, b) = (c3(&x), c3(&y));
    let kt = T::of(k);
    let k = kt.f();
    note!(s, "{} a={a:?} b={b:?} k={k}", T::NAME);
    s.nt(norm(a) > 0.0 && norm(b) > 0.0);
    let e = if ex { 0.0 } else { 2.0 * T::E };
    let ck = |n: &str, g: V3, f: &dyn Fn(usize) -> f64| -> R {
        for i in 0..3 { let w = f(i); ensure!(close(g[i], w, e * w.abs()), "{n} component {i}: {} want {w}", g[i]); }
        Ok(())
    };
    for g in [x + y, &x + &y, &x + y, x + &y] { ck("a+b", c3(&g), &|i| a[i] + b[i])?; }
    for g in [x - y, &x - &y, &x - y, x - &y] { ck("a-b", c3(&g), &|i| a[i] - b[i])?; }
    let mut t = x;
    t += y;
    ck("a+=b", c3(&t), &|i| a[i] + b[i])?;
    let mut t = x;
    t -= y;
    ck("a-=b", c3(&t), &|i| a[i] - b[i])?;
    for g in [-x, -&x] { ck("-a", c3(&g), &|i| -a[i])?; }
    for g in [x * kt, &x * kt] { ck("a*k", c3(&g), &|i| a[i] * k)?; }
    if k != 0.0 { for g in [x / kt, &x / kt] { for i in 0..3 { ensure!(rel(c3(&g)[i], a[i] / k, 4.0 * T::E), "a/k component {i}: {} want {}", c3(&g)[i], a[i] / k); } } }
    let d: f64 = dot(a, b);
    let mag = norm(a) * norm(b);
    ensure!(close(x.dot(&y).f(), d, e * 4.0 * mag), "dot {} want {d}", x.dot(&y).f());
    let cr = cross(a, b);
    ensure!(vdiff(c3(&x.cross(&y)), cr) <= e * 4.0 * mag, "cross {:?} want {cr:?}", c3(&x.cross(&y)));
    for n in [x.norm(), x.magnitude()] { ensure!(rel(n.f(), norm(a), 4.0 * T::E), "norm {} want {}", n.f(), norm(a)); }
    if norm(a) > 1e-6 {
        let u = c3(&x.normalize());
        ensure!(vdiff(u, unit(a)) <= 8.0 * T::E, "normalize {u:?} want {:?}", unit(a));
    }
    if s.chance(1, 4) {
        let (v, k) = (Cartesian::<T, A>::new(extreme(s), extreme(s), extreme(s)), extreme::<T>(s));
        note!(s, "extreme v={:?} k={:e}", c3(&v), k.f());
        for i in 0..3 {
            let (q, p) = (c3(&v)[i] / k.f(), c3(&v)[i] * k.f());
            if normal::<T>(q) { for g in [v / k, &v / k] { ensure!(rel(c3(&g)[i], q, 4.0 * T::E), "{:e} / {:e} gave {:e}", c3(&v)[i], k.f(), c3(&g)[i]); } }
            if normal::<T>(p) { for g in [v * k, &v * k] { ensure!(rel(c3(&g)[i], p, 4.0 * T::E), "{:e} * {:e} gave {:e}", c3(&v)[i], k.f(), c3(&g)[i]); } }
        }
        let f = 2f64.powi(if T::E > 1e-10 { s.irange(-24, 24) } else { s.irange(-200, 200) } as i32);
        let y = mkc::<T, A>(a.map(|v| v * f));
        for n in [y.norm(), y.magnitude()] { ensure!(rel(n.f(), norm(a) * f, 4.0 * T::E), "norm of {:?} is {:e}, want {:e}", c3(&y), n.f(), norm(a) * f); }
        if norm(a) > 0.0 { let u = c3(&y.normalize()); ensure!(vdiff(u, unit(a)) <= 8.0 * T::E, "normalize {:?} gave {u:?} want {:?}", c3(&y), unit(a)); }
        s.label("extreme magnitudes");
    }
    let p = s.irange(0, 4) as i32;
    for g in [x.powi(p), x.powi_ref(p)] { for i in 0..3 { let w = a[i].powi(p); ensure!(rel(c3(&g)[i], w, 8.0 * T::E), "powi({p}) component {i}: {} want {w}", c3(&g)[i]); } }
    let pf = *s.pick(&[0.5, 1.5, 2.0, 3.0]);
    let xa = mkc::<T, A>(a.map(|v| v.abs()));
    for g in [xa.powf(T::of(pf)), xa.powf_ref(T::of(pf))] { for i in 0..3 { let w = a[i].abs().powf(pf); ensure!(rel(c3(&g)[i], w, 32.0 * T::E), "powf({pf}) component {i}: {} want {w}", c3(&g)[i]); } }
    ensure!([x.x().f(), x.y().f(), x.z().f()] == a && [x[0].f(), x[1].f(), x[2].f()] == a, "component access");
    ensure!(x.iter().map(|v| v.f()).collect::<Vec<_>>() == a && x.into_iter().map(|v| v.f()).collect::<Vec<_>>() == a && (&x).into_iter().map(|v| v.f()).collect::<Vec<_>>() == a, "iteration order");
    let mut t = x;
    for v in t.iter_mut() { *v = *v + T::of(1.0); }
    for v in &mut t { *v = *v - T::of(1.0); }
    t[1] = kt;
    ensure!(t.x() == T::of(a[0]) + T::of(1.0) - T::of(1.0) && t.y().f() == k, "mutable access");
    let mp = x.map(|v| v + v);
    ck("map", c3(&mp), &|i| 2.0 * a[i])?;
    ensure!(c3(&Cartesian::<T, A>::zero()) == [0.0; 3], "zero");
    Ok(())
}

// ------------------------------------------------------------------ B05
fn frames_geo<T: Fl>(s: &mut Src) -> R {
    let lat = T::of(s.angle(PI / 2.0));
    let lon = T::of(s.angle(2.0 * PI));
    let (la, lo) = (lat.f(), lon.f());
    note!(s, "{} lat={la} lon={lo}", T::NAME);
    s.nt(la.sin() != 0.0 && lo.sin() != 0.0);
    s.label_if(la.cos() < 1e-6, "pole");
    let tol = 16.0 * T::E;
    let d = tf::itrf_to_ned(lat, lon);
    let m = m3(d.as_matrix());
    proper("Earth-fixed to NED", &m, tol)?;
    let up = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
    let north = [-la.sin() * lo.cos(), -la.sin() * lo.sin(), la.cos()];
    let east = [-lo.sin(), lo.cos(), 0.0];
    for (n, v, w) in [("outward normal", up, [0.0, 0.0, -1.0]), ("north", north, [1.0, 0.0, 0.0]), ("east", east, [0.0, 1.0, 0.0]), ("Earth's pole", [0.0, 0.0, 1.0], [la.cos(), 0.0, -la.sin()])] {
        let g = mv(&m, v);
        ensure!(vdiff(g, w) <= tol, "{n} maps to {g:?} want {w:?}");
    }
    let c: Cartesian<T, ITRF<T>> = mkc(up);
    let g = c3(&(d * c));
    ensure!(vdiff(g, [0.0, 0.0, -1.0]) <= 2.0 * tol, "typed product maps 'up' to {g:?}");
    let back = c3(&(d.transpose() * (d * c)));
    ensure!(vdiff(back, c3(&c)) <= 2.0 * tol, "transpose does not undo");
    Ok(())
}
fn frames_earth<T: Fl>(s: &mut Src) -> R {
    let wz = if s.bool() { 7.2921150e-5 } else { s.sym(2.0) };
    let t = match s.draw(2) { 0 => s.sym(10.0), 1 => s.irange(-86400, 86400) as f64, _ => s.sym(1e5) };
    let t = if wz.abs() > 1e-3 { t.clamp(-100.0, 100.0) } else { t };
    let (wt, tt) = (mkc::<T, ITRF<T>>([0.0, 0.0, wz]), T::of(t));
    let a = wt.z().f() * tt.f();
    note!(s, "{} rate={} t={} angle={a}", T::NAME, wt.z().f(), tt.f());
    s.nt(a.abs() > 1e-6);
    s.label_if(tt.f() < 0.0, "before the epoch");
    s.label_if(a.abs() > PI, "more than half a turn");
    let tol = 16.0 * T::E + 4.0 * T::E * a.abs();
    let f = tf::icrf_to_itrf(tt, wt);
    let b = tf::itrf_to_icrf(tt, wt);
    ensure!(mdiff(&m3(f.as_matrix()), &rz(a)) <= tol, "inertial to Earth-fixed is {:?} want {:?}", m3(f.as_matrix()), rz(a));
    ensure!(mdiff(&m3(b.as_matrix()), &rz(-a)) <= tol, "Earth-fixed to inertial is {:?} want {:?}", m3(b.as_matrix()), rz(-a));
    ensure!(mdiff(&m3((b * f).as_matrix()), &I3) <= tol && mdiff(&m3((f * b).as_matrix()), &I3) <= tol, "opposite transforms are not inverse");
    proper("inertial to Earth-fixed", &m3(f.as_matrix()), tol)?;
    // frame object with its own epoch
    let ep = T::of(if s.bool() { s.sym(1000.0) } else { 0.0 });
    let fr = ITRF { epoch: ep };
    ensure!(fr.epoch() == ep, "epoch()");
    let w = c3(&fr.angular_velocity());
    ensure!(w[0] == 0.0 && w[1] == 0.0 && rel(w[2], 7.2921150e-5, 2.0 * T::E), "Earth rate {w:?}");
    let tb = T::of(s.sym(1e5));
    let dt = tb.f() - ep.f();
    let ang = dt * 7.2921150e-5;
    let q = fr.orientation_at(tb);
    let tl = 16.0 * T::E + 8.0 * T::E * ang.abs() + 8.0 * T::E * (tb.f().abs() + ep.f().abs()) * 7.3e-5;
    let g = qmat(q4(&q));
    ensure!(mdiff(&g, &rz(ang)) <= tl, "orientation at {} for epoch {} is {g:?} want {:?}", tb.f(), ep.f(), rz(ang));
    ensure!((qnorm(q4(&q)) - 1.0).abs() <= 8.0 * T::E, "orientation norm");
    Ok(())
}
fn frames_aero<T: Fl>(s: &mut Src) -> R {
    let a = T::of(s.angle(PI));
    let b = T::of(s.angle(PI));
    let (al, be) = (a.f(), b.f());
    note!(s, "{} first={al} second={be}", T::NAME);
    s.nt(al.sin() != 0.0 && be.sin() != 0.0);
    s.label_if(al.abs() > PI / 2.0, "reversed flow");
    let tol = 16.0 * T::E;
    let v = s.logf(1e-2, 1e3);
    // wind axes: relative velocity along x
    let m = m3(&tf::aircraft_wind_to_body(a, b));
    proper("wind/body", &m, tol)?;
    let g = mv(&m, [v * al.cos() * be.cos(), v * be.sin(), v * al.sin() * be.cos()]);
    ensure!(vdiff(g, [v, 0.0, 0.0]) <= tol * v, "wind axes: relative velocity maps to {g:?} (alpha {al}, beta {be})");
    ensure!(mdiff(&m, &mm(&rz(be), &ry(-al))) <= tol, "wind/body matrix {m:?}");
    let m = m3(&tf::aeroballistic_wind_to_body(a, b));
    proper("aeroballistic/body", &m, tol)?;
    let g = mv(&m, [v * al.cos(), v * al.sin() * be.sin(), v * al.sin() * be.cos()]);
    ensure!(vdiff(g, [v, 0.0, 0.0]) <= tol * v, "aeroballistic axes: relative velocity maps to {g:?}");
    ensure!(mdiff(&m, &mm(&ry(-al), &rx(-be))) <= tol, "aeroballistic matrix {m:?}");
    // flight path: heading a, climb angle b, velocity in north-east-down
    let m = m3(&tf::flight_path_to_geographic(a, b));
    proper("flight path", &m, tol)?;
    let g = mv(&m, [v * be.cos() * al.cos(), v * be.cos() * al.sin(), -v * be.sin()]);
    ensure!(vdiff(g, [v, 0.0, 0.0]) <= tol * v, "flight-path axes: velocity maps to {g:?}");
    ensure!(mdiff(&m, &mm(&ry(be), &rz(al))) <= tol, "flight-path matrix {m:?}");
    Ok(())
}
fn frames_body<T: Fl>(s: &mut Src) -> R {
    let e = [s.angle(PI), s.angle(PI), s.angle(PI)];
    let et = tv::<T>(e);
    let e = v3(&et);
    note!(s, "{} roll={} pitch={} yaw={}", T::NAME, e[0], e[1], e[2]);
    let n2b = emat(e);
    s.nt(mdiff(&n2b, &tr(&n2b)) > 1e-6);
    let tol = 16.0 * T::E;
    let d = tf::body_to_ned(et[0], et[1], et[2]);
    let m = m3(d.as_matrix());
    proper("body to NED", &m, tol)?;
    if mdiff(&m, &tr(&n2b)) > tol {
        ensure!(mdiff(&m, &n2b) <= tol, "body/NED matrix {m:?} is neither the transform {:?} nor its inverse", tr(&n2b));
        s.finding("body_to_ned-is-ned_to_body", format!("body_to_ned({},{},{}) typed Body->NED maps NED components to body components", e[0], e[1], e[2]))?;
    }
    let p = Pose::<T, Body<T>>::identity();
    let v = gvec3(s, 10.0);
    let c: Cartesian<T, Body<T>> = mkc(v);
    let g = p.R_local_to_assembly * c + p.r_cm_in_assembly;
    ensure!(c3(&g) == c3(&c), "identity pose moves {:?} to {:?}", c3(&c), c3(&g));
    let q = mkq::<T, Body<T>, Assembly<T>>(gquat(s)).normalized();
    let off = gvec3(s, 10.0);
    let p = Pose { R_local_to_assembly: Dcm::from(&q), r_cm_in_assembly: Cartesian { data: tv(off), _reference_frame: PhantomData } };
    let g = c3(&(p.R_local_to_assembly * c + p.r_cm_in_assembly));
    let w = add(mv(&qmat(q4(&q)), c3(&c)), c3(&p.r_cm_in_assembly));
    ensure!(vdiff(g, w) <= 60.0 * T::E * (norm(v) + norm(off) + 1e-30), "posed point {g:?} want {w:?}");
    Ok(())
}

macro_rules! both {
    ($f:ident) => { |s| if s.bool() { $f::<f32>(s) } else { $f::<f64>(s) } };
}
pub fn register(r: &mut Registry) {
    let rot = "the rotation differs from the identity";
    r.add("B01", "Euler angles to every representation and back", 4000, rot, both!(rep_euler));
    r.add("B01", "quaternions to every representation and back", 4000, rot, both!(rep_quat));
    r.add("B01", "axis-angle and elementary rotations", 4000, "the angle is not zero", both!(rep_axis));
    r.add("B02", "composition, inverse, isometry of quaternions, matrices, wrapper", 6000, "the composed rotations do not commute", both!(algebra));
    r.add("B02", "component arithmetic and the Hamilton product", 3000, "both operands are non-zero", both!(arith));
    r.add("B03", "exponential-map step and step histories at constant rate", 4000, "the step turns", both!(kin_rotation));
    r.add("B03", "histories of changing body rates", 1500, "the first two rates are not parallel", kin_history);
    r.add("B03", "Taylor step against fine integration", 400, "the step is larger than 1e-4 in size |w|dt+sqrt(|a|dt^2)", both!(kin_taylor));
    r.add("B03", "matrix rate equation", 3000, "the rate is not zero", kin_matrix_rate);
    r.add("B04", "Cartesian to spherical/cylindrical and back", 8000, "the point is not the origin", both!(coords));
    r.add("B04", "spherical/cylindrical to Cartesian and back", 8000, "the point is off the axis", both!(coords_polar));
    r.add("B04", "component-wise algebra in every operator form", 4000, "both vectors are non-zero", both!(cart));
    r.add("B05", "Earth-fixed to north-east-down", 8000, "neither latitude nor longitude is a multiple of pi", both!(frames_geo));
    r.add("B05", "inertial and Earth-fixed frames over time", 8000, "the Earth has turned", both!(frames_earth));
    r.add("B05", "wind, aeroballistic and flight-path axes", 8000, "both angles matter", both!(frames_aero));
    r.add("B05", "body axes and poses", 8000, "the rotation differs from its inverse", both!(frames_body));
}
