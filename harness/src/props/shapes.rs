//! F01 mass properties of solids and compounds, F02 propellant tanks.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::attitude::DirectionCosineMatrix;
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Assembly, Pose, ReferenceFrame};
use aether_fluids::*;
use aether_shapes::attributes::{MassModel, MassProps, Solid, SolidOps};
use aether_shapes::cylinder::Cylinder;
use aether_shapes::prism::RectangularPrism;
use aether_shapes::sphere::Sphere;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug)]
enum Sh { S(f64), C(f64, f64), P(f64, f64, f64), E(f64, f64, f64) }
/// a solid of the caller's own: an ellipsoid
#[derive(Clone, Copy)]
struct Ellipsoid<T> { a: T, b: T, c: T }
#[derive(Clone, Copy)]
struct EllipsoidFrame;
impl ReferenceFrame for EllipsoidFrame {}
impl<T: Fl> Solid<T> for Ellipsoid<T> {
    type Local = EllipsoidFrame;
    fn volume(&self) -> T { T::of(4.0 / 3.0 * PI * self.a.f() * self.b.f() * self.c.f()) }
    fn inertia_principal_cm(&self, mass: T) -> Vector<T, 3> {
        let (a, b, c, m) = (self.a.f() * self.a.f(), self.b.f() * self.b.f(), self.c.f() * self.c.f(), mass.f() / 5.0);
        Vector::new([T::of(m * (b + c)), T::of(m * (a + c)), T::of(m * (a + b))])
    }
}
/// the body as weighted points (volume elements) with exactly its moments up to second order:
/// product Gauss rules over the body
fn cloud(sh: Sh) -> Vec<(V3, f64)> {
    let g2 = gauss_legendre(2);
    let g3 = gauss_legendre(3);
    let mut out = Vec::new();
    let ring = |k: usize| { let a = PI / 2.0 * k as f64 + 0.3; (a.cos(), a.sin()) };
    match sh {
        Sh::S(r) => for &(x, wx) in &g3 { for &(c, wc) in &g3 { for k in 0..4 {
            let q = r * (x + 1.0) / 2.0;
            let sn = (1.0 - c * c).sqrt();
            let (cp, sp) = ring(k);
            out.push(([q * sn * cp, q * sn * sp, q * c], wx * r / 2.0 * q * q * wc * PI / 2.0));
        } } },
        Sh::C(r, h) => for &(x, wx) in &g2 { for &(z, wz) in &g2 { for k in 0..4 {
            let q = r * (x + 1.0) / 2.0;
            let (cp, sp) = ring(k);
            out.push(([q * cp, q * sp, z * h / 2.0], wx * r / 2.0 * q * wz * h / 2.0 * PI / 2.0));
        } } },
        Sh::E(a, b, c) => for (x, w) in cloud(Sh::S(1.0)) { out.push(([x[0] * a, x[1] * b, x[2] * c], w * a * b * c)); },
        Sh::P(a, b, c) => for &(x, wx) in &g2 { for &(y, wy) in &g2 { for &(z, wz) in &g2 {
            out.push(([x * a / 2.0, y * b / 2.0, z * c / 2.0], wx * wy * wz * a * b * c / 8.0));
        } } },
    }
    out
}
fn size(sh: Sh) -> f64 {
    match sh { Sh::S(r) => r, Sh::C(r, h) => r.max(h), Sh::P(a, b, c) | Sh::E(a, b, c) => a.max(b).max(c) }
}
struct Bulk { v: f64, m: f64, com: V3, i: M3, scale: f64 }
/// volume, mass, centre and inertia about the centre of signed point clouds
fn bulk(parts: &[(Sh, f64, M3, V3, f64)]) -> Bulk {
    let (mut v, mut m, mut first) = (0.0, 0.0, [0.0; 3]);
    let mut pts = Vec::new();
    let mut scale: f64 = 0.0;
    for (sh, rho, r, p, sign) in parts {
        for (x, w) in cloud(*sh) {
            let q = crate::num::add(mv(r, x), *p);
            let dm = sign * rho * w;
            v += sign * w;
            m += dm;
            first = crate::num::add(first, crate::num::scale(q, dm));
            pts.push((q, dm));
            scale += dm.abs() * dot(q, q);
        }
    }
    let com = crate::num::scale(first, 1.0 / m);
    let mut i = [[0.0; 3]; 3];
    for (q, dm) in pts {
        let d = crate::num::sub(q, com);
        let d2 = dot(d, d);
        for a in 0..3 { for b in 0..3 { i[a][b] += dm * ((if a == b { d2 } else { 0.0 }) - d[a] * d[b]); } }
    }
    Bulk { v, m, com, i, scale }
}
fn dim(s: &mut Src) -> f64 {
    if s.chance(1, 60) { return s.logf(1e-4, 1e4) }
    match s.draw(3) { 0 => 1.0, 1 => s.range(1, 10) as f64, _ => s.logf(1e-2, 50.0) }
}
fn shape(s: &mut Src) -> Sh {
    match s.draw(6) { 0 | 1 => Sh::S(dim(s)), 2 | 3 => Sh::C(dim(s), dim(s)), 4 | 5 => Sh::P(dim(s), dim(s), dim(s)), _ => Sh::E(dim(s), dim(s), dim(s)) }
}
fn rot(s: &mut Src) -> M3 {
    match s.draw(4) {
        0 => I3,
        1 => rz(s.angle(PI)),
        _ => { let (a, b, c) = (s.angle(PI), s.angle(PI), s.angle(PI)); mm(&rz(a), &mm(&rx(b), &rz(c))) }
    }
}
fn off(s: &mut Src, m: f64) -> V3 { if s.chance(1, 5) { [0.0; 3] } else { [s.sym(m), s.sym(m), s.sym(m)] } }
fn rho(s: &mut Src) -> f64 { if s.bool() { 2700.0 } else { s.logf(1e-2, 2e4) } }
fn mat<T: Fl>(m: &M3) -> Matrix<T, 3, 3> {
    let f = |i: usize, j: usize| T::of(m[i][j]);
    Matrix::new([[f(0, 0), f(0, 1), f(0, 2)], [f(1, 0), f(1, 1), f(1, 2)], [f(2, 0), f(2, 1), f(2, 2)]])
}
fn vect<T: Fl>(v: V3) -> Vector<T, 3> { Vector::new([T::of(v[0]), T::of(v[1]), T::of(v[2])]) }
fn pose<T: Fl, L: ReferenceFrame>(r: &M3, p: V3) -> Pose<T, L> {
    Pose { R_local_to_assembly: DirectionCosineMatrix::from_matrix(mat::<T>(r)), r_cm_in_assembly: Cartesian::<T, Assembly<T>>::new(T::of(p[0]), T::of(p[1]), T::of(p[2])) }
}
macro_rules! with_shape {
    ($T:ty, $sh:expr, $x:ident => $body:expr) => {
        match $sh {
            Sh::S(r) => { let $x = Sphere::<$T> { r: <$T as Fl>::of(r) }; $body }
            Sh::C(r, h) => { let $x = Cylinder::<$T> { r: <$T as Fl>::of(r), h: <$T as Fl>::of(h) }; $body }
            Sh::E(a, b, c) => { let $x = Ellipsoid::<$T> { a: <$T as Fl>::of(a), b: <$T as Fl>::of(b), c: <$T as Fl>::of(c) }; $body }
            Sh::P(a, b, c) => { let $x = RectangularPrism::<$T> { a: <$T as Fl>::of(a), b: <$T as Fl>::of(b), c: <$T as Fl>::of(c) }; $body }
        }
    };
}
#[derive(Clone, Copy, Debug)]
struct Body { sh: Sh, rho: f64, r: M3, p: V3 }
fn body(s: &mut Src, spread: f64) -> Body { Body { sh: shape(s), rho: rho(s), r: rot(s), p: off(s, spread) } }
/// both entry points (models with poses, explicit matrices)
fn combine<T: Fl>(a: &Body, b: &Body, plus: bool) -> (Option<MassProps<T>>, Option<MassProps<T>>) {
    fn go<T: Fl, A: Solid<T> + Copy, B: Solid<T> + Copy>(x: A, y: B, a: &Body, b: &Body, plus: bool) -> (Option<MassProps<T>>, Option<MassProps<T>>) {
        let ma = MassModel::new(x, T::of(a.rho), pose::<T, A::Local>(&a.r, a.p));
        let mb = MassModel::new(y, T::of(b.rho), pose::<T, B::Local>(&b.r, b.p));
        let (ra, pa, rb, pb) = (mat::<T>(&a.r), vect::<T>(a.p), mat::<T>(&b.r), vect::<T>(b.p));
        if plus {
            (ma + mb, x.add_with(&y, T::of(a.rho), T::of(b.rho), ra, pa, rb, pb))
        } else {
            (ma - mb, x.subtract_with(&y, T::of(a.rho), T::of(b.rho), ra, pa, rb, pb))
        }
    }
    with_shape!(T, a.sh, x => with_shape!(T, b.sh, y => go::<T, _, _>(x, y, a, b, plus)))
}
fn m3<T: Fl>(m: &Matrix<T, 3, 3>) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { r[i][j] = m[(i, j)].f(); } }
    r
}
fn parts(a: &Body, b: &Body, sb: f64) -> Vec<(Sh, f64, M3, V3, f64)> { vec![(a.sh, a.rho, a.r, a.p, 1.0), (b.sh, b.rho, b.r, b.p, sb)] }
fn tally(a: &Body, b: &Body) -> (f64, f64, f64) {
    // sums of absolute volumes, masses and first moments: the scale of rounding
    let (ba, bb) = (bulk(&[(a.sh, a.rho, a.r, a.p, 1.0)]), bulk(&[(b.sh, b.rho, b.r, b.p, 1.0)]));
    (ba.v + bb.v, ba.m + bb.m, ba.m * (norm(a.p) + size(a.sh)) + bb.m * (norm(b.p) + size(b.sh)))
}
fn judge<T: Fl>(what: &str, got: &MassProps<T>, want: &Bulk, t: (f64, f64, f64)) -> R {
    let e = 100.0 * T::E;
    let (v, m) = (got.volume.f(), got.mass.f());
    ensure!((v - want.v).abs() <= e * t.0, "{what}: volume {v}, want {}", want.v);
    ensure!((m - want.m).abs() <= e * t.1, "{what}: mass {m}, want {}", want.m);
    ensure!(rel(got.density.f(), m / v, e), "{what}: density {}, mass over volume {}", got.density, m / v);
    let com = [got.com[0].f(), got.com[1].f(), got.com[2].f()];
    // a small remainder amplifies rounding by the ratio of the parts to it
    let k = t.1 / want.m.abs();
    let tc = e * k * t.2 / want.m.abs();
    ensure!(vdiff(com, want.com) <= tc, "{what}: centre {com:?}, want {:?} (tolerance {tc:e})", want.com);
    let i = m3(&got.inertia_cm);
    let ti = e * k * k * want.scale;
    ensure!(mdiff(&i, &want.i) <= ti, "{what}: inertia {i:?}, want {:?} (tolerance {ti:e})", want.i);
    ensure!(mdiff(&i, &tr(&i)) <= ti, "{what}: inertia not symmetric {i:?}");
    Ok(())
}
fn primitive<T: Fl>(s: &mut Src) -> R {
    let sh = shape(s);
    let m = match s.draw(2) { 0 => 1.0, _ => s.logf(1e-3, 1e6) };
    let k = s.logf(0.1, 10.0);
    note!(s, "{} {sh:?} mass {m}", T::NAME);
    s.nt(true);
    let b = bulk(&[(sh, 1.0, I3, [0.0; 3], 1.0)]);
    let (v, i) = with_shape!(T, sh, x => (x.volume(), x.inertia_principal_cm(T::of(m))));
    let e = 32.0 * T::E;
    // the integral of a slender body carries the rounding of its largest moment
    let et = 64.0 * f64::EPSILON * (b.i[0][0] + b.i[1][1] + b.i[2][2]) / b.v * m;
    ensure!(rel(v.f(), b.v, e), "{sh:?}: volume {v}, integral {}", b.v);
    for a in 0..3 {
        let want = b.i[a][a] / b.v * m;
        ensure!(rel(i[a].f(), want, e) || (i[a].f() - want).abs() <= et, "{sh:?} of mass {m}: principal moment {a} is {}, integral {want}", i[a]);
    }
    let (x, y, z) = (i[0].f(), i[1].f(), i[2].f());
    let tri = e * (x + y + z);
    ensure!(x + y >= z - tri && y + z >= x - tri && z + x >= y - tri, "{sh:?}: moments {x},{y},{z} break the triangle inequality");
    // similar bodies
    let big = match sh { Sh::S(r) => Sh::S(k * r), Sh::C(r, h) => Sh::C(k * r, k * h), Sh::P(a, b, c) => Sh::P(k * a, k * b, k * c), Sh::E(a, b, c) => Sh::E(k * a, k * b, k * c) };
    let (v2, i2) = with_shape!(T, big, x => (x.volume(), x.inertia_principal_cm(T::of(m))));
    ensure!(rel(v2.f(), b.v * k * k * k, 2.0 * e), "{sh:?} scaled by {k}: volume {v2}");
    for a in 0..3 { ensure!(rel(i2[a].f(), i[a].f() * k * k, 2.0 * e), "{sh:?} scaled by {k}: moment {a} {}", i2[a]); }
    Ok(())
}
fn compound<T: Fl>(s: &mut Src) -> R {
    let plus = s.bool();
    let spread = if s.chance(1, 60) { s.logf(1e2, 1e6) } else { s.logf(1e-2, 100.0) };
    let (a, b) = (body(s, spread), body(s, spread));
    note!(s, "{} {} : {a:?} and {b:?}", T::NAME, if plus { "combine" } else { "remove" });
    let t = tally(&a, &b);
    let want = bulk(&parts(&a, &b, if plus { 1.0 } else { -1.0 }));
    let (p, q) = combine::<T>(&a, &b, plus);
    let near = want.m.abs() < 1e-3 * t.1 || want.v.abs() < 1e-3 * t.0;
    if near { return Ok(()) }
    s.nt(want.m > 0.0 && want.v > 0.0);
    s.label_if(!plus, "removed");
    s.label_if(want.m <= 0.0 || want.v <= 0.0, "impossible remainder");
    for (how, g) in [("operator", &p), ("explicit", &q)] {
        if want.m > 0.0 && want.v > 0.0 {
            match g {
                None => return Err(Fail::new(format!("{how}: refused although mass {} and volume {} remain", want.m, want.v))),
                Some(g) => judge(how, g, &want, t)?,
            }
        } else {
            ensure!(g.is_none(), "{how}: answered {g:?} although mass {} / volume {} remain", want.m, want.v);
        }
    }
    if plus {
        // order does not matter
        let (p2, q2) = combine::<T>(&b, &a, true);
        for g in [p2, q2].into_iter().flatten() { judge("combined in the other order", &g, &want, t)?; }
        // moments of a real body
        if let Some(g) = &p {
            let i = m3(&g.inertia_cm);
            let ti = 100.0 * T::E * want.scale * 3.0;
            for k in 0..3 {
                let (x, y, z) = (i[k][k], i[(k + 1) % 3][(k + 1) % 3], i[(k + 2) % 3][(k + 2) % 3]);
                ensure!(x + y >= z - ti, "diagonal moments {x} {y} {z} break the triangle inequality");
            }
        }
    }
    Ok(())
}
/// cutting a body in two and joining the pieces, or removing one of them
fn split<T: Fl>(s: &mut Src) -> R {
    let d = rho(s);
    let r = rot(s);
    let p = off(s, 10.0);
    let f = s.f(0.1, 0.9);
    let (whole, x, y, cut) = match s.draw(1) {
        0 => { let (a, b, c) = (dim(s), dim(s), dim(s)); (Sh::P(a, b, c), Sh::P(a, b, c * f), Sh::P(a, b, c * (1.0 - f)), c) }
        _ => { let (q, h) = (dim(s), dim(s)); (Sh::C(q, h), Sh::C(q, h * f), Sh::C(q, h * (1.0 - f)), h) }
    };
    // centres of the two pieces along the body's own z axis
    let at = |z: f64| crate::num::add(p, mv(&r, [0.0, 0.0, z]));
    let (pa, pb) = (at(-cut / 2.0 + cut * f / 2.0), at(cut / 2.0 - cut * (1.0 - f) / 2.0));
    let w = Body { sh: whole, rho: d, r, p };
    let a = Body { sh: x, rho: d, r, p: pa };
    let b = Body { sh: y, rho: d, r, p: pb };
    note!(s, "{} {whole:?} density {d} at {p:?} cut at fraction {f}", T::NAME);
    s.nt(true);
    let want = bulk(&[(whole, d, r, p, 1.0)]);
    let t = tally(&a, &b);
    let (j, j2) = combine::<T>(&a, &b, true);
    let mut wb = bulk(&[(y, d, r, pb, 1.0)]);
    // the smaller piece is what remains of large quantities
    wb.scale = want.scale;
    for g in [j, j2] {
        let g = g.ok_or_else(|| Fail::new("joining two halves refused"))?;
        judge("halves joined", &g, &want, (t.0, t.1, t.2 * 2.0))?;
    }
    let tw = tally(&w, &a);
    let (k, k2) = combine::<T>(&w, &a, false);
    for g in [k, k2] {
        let g = g.ok_or_else(|| Fail::new("removing one half refused"))?;
        judge("half removed", &g, &wb, tw)?;
    }
    Ok(())
}
fn impossible(s: &mut Src) -> R {
    // empty bodies are refused by both operations
    let z = |s: &mut Src| if s.bool() { 0.0 } else { -dim(s) };
    let sh = match s.draw(2) { 0 => Sh::S(z(s)), 1 => Sh::C(dim(s), z(s)), _ => { let v = z(s); match s.draw(2) { 0 => Sh::P(v, dim(s), dim(s)), 1 => Sh::P(dim(s), v, dim(s)), _ => Sh::P(dim(s), dim(s), v) } } };
    let a = Body { sh, rho: rho(s), r: rot(s), p: off(s, 5.0) };
    let b = body(s, 5.0);
    note!(s, "{a:?} with {b:?}");
    s.nt(true);
    for plus in [true, false] {
        for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] {
            let (p, q) = combine::<f64>(x, y, plus);
            ensure!(p.is_none() && q.is_none(), "{} of {x:?} and {y:?} answered {p:?} {q:?}", if plus { "sum" } else { "difference" });
        }
    }
    // weightless or "negative" material: an answer needs a positive total mass and volume
    let c = body(s, 5.0);
    let (mb, mc) = (bulk(&[(b.sh, b.rho, b.r, b.p, 1.0)]).m, bulk(&[(c.sh, c.rho, c.r, c.p, 1.0)]).m);
    let ghost = |x: &Body, rho: f64| Body { rho, ..*x };
    let d = match s.draw(2) { 0 => 0.0, _ => -rho(s) };
    for (x, y) in [(ghost(&b, d), ghost(&c, d)), (ghost(&b, d), ghost(&c, 0.0)), (ghost(&c, 0.0), ghost(&b, d)), (ghost(&b, -3.0 * b.rho), ghost(&c, b.rho * mb / mc * c.rho / b.rho))] {
        let (p, q) = combine::<f64>(&x, &y, true);
        ensure!(p.is_none() && q.is_none(), "sum of {x:?} and {y:?}, which weigh nothing together, gives {p:?} {q:?}");
    }
    // removing something heavier, or larger, than the whole
    let heavy = ghost(&c, c.rho * mb / mc * (1.0 + s.logf(1e-6, 10.0)));
    let (p, q) = combine::<f64>(&b, &heavy, false);
    ensure!(p.is_none() && q.is_none(), "{heavy:?} removed from the lighter {b:?} gives {p:?} {q:?}");
    let (vb, vc) = (bulk(&[(b.sh, 1.0, b.r, b.p, 1.0)]).v, bulk(&[(c.sh, 1.0, c.r, c.p, 1.0)]).v);
    if vc > vb * (1.0 + 1e-9) {
        let light = ghost(&c, c.rho * mb / mc * s.f(0.0, 0.9));
        let (p, q) = combine::<f64>(&b, &light, false);
        ensure!(p.is_none() && q.is_none(), "{light:?} removed from the smaller {b:?} gives {p:?} {q:?}");
        s.label("light but large body removed");
    }
    // a body cannot be removed from itself
    let (p, q) = combine::<f64>(&b, &b, false);
    ensure!(p.is_none() && q.is_none(), "{b:?} removed from itself gives {p:?} {q:?}");
    Ok(())
}

// ------------------------------------------------------------------ F02
fn tank(s: &mut Src) -> (TankShape, Sh) {
    let d = |s: &mut Src| match s.draw(4) { 0 => 0.0, 1 => s.range(1, 5) as f64, _ => s.logf(1e-3, 20.0) };
    if s.bool() { let (r, l) = (d(s), d(s)); (TankShape::Cylinder { radius_m: r, length_m: l }, Sh::C(r, l)) } else { let r = d(s); (TankShape::Sphere { radius_m: r }, Sh::S(r)) }
}
fn vol(sh: Sh) -> f64 { bulk(&[(sh, 1.0, I3, [0.0; 3], 1.0)]).v }
fn moment(sh: Sh, m: f64) -> V3 {
    match sh {
        Sh::S(r) => [0.4 * m * r * r; 3],
        Sh::C(r, h) => { let t = m * (r * r / 4.0 + h * h / 12.0); [t, t, m * r * r / 2.0] }
        Sh::P(..) | Sh::E(..) => [f64::NAN; 3],
    }
}
fn limits(s: &mut Src) -> R {
    let (t, sh) = tank(s);
    let d = match s.draw(4) { 0 => 0.0, 1 => 1000.0, 2 => -s.logf(1e-3, 1e4), _ => s.logf(1e-3, 2e4) };
    let f = match s.draw(5) { 0 => 0.0, 1 => 1.0, 2 => -s.logf(1e-9, 1e3), 3 => 1.0 + s.logf(1e-9, 1e3), _ => s.f(0.0, 1.0) };
    note!(s, "{t:?} density {d} fill {f}");
    let v = vol(sh);
    s.nt(v > 0.0);
    s.label_if(!(0.0..=1.0).contains(&f), "fill fraction out of range");
    s.label_if(d < 0.0, "negative density");
    let l = PropellantTankSpec { shape: t, propellant_density_kg_m3: d, fill_fraction: f }.limits();
    let tol = 1e-13 * v;
    ensure!((t.volume_m3() - v).abs() <= tol, "{t:?}: volume {}, shape's volume {v}", t.volume_m3());
    ensure!((l.geometric_volume_m3 - v).abs() <= tol, "{t:?}: geometric volume {}, want {v}", l.geometric_volume_m3);
    let u = v * f.clamp(0.0, 1.0);
    ensure!((l.usable_volume_m3 - u).abs() <= 2.0 * tol, "{t:?} filled to {f}: usable volume {}, want {u}", l.usable_volume_m3);
    let m = u * d.max(0.0);
    ensure!((l.max_propellant_mass_kg - m).abs() <= 4.0 * tol * d.abs(), "{t:?} filled to {f} at density {d}: mass limit {}, want {m}", l.max_propellant_mass_kg);
    ensure!(l.usable_volume_m3 >= 0.0 && l.usable_volume_m3 <= l.geometric_volume_m3, "usable {} beyond geometric {}", l.usable_volume_m3, l.geometric_volume_m3);
    // dimensions that make no sense give no negative volume, mass or moment
    if s.chance(1, 4) {
        let n = |s: &mut Src| s.logf(1e-3, 20.0) * s.sgn();
        let t = if s.bool() { TankShape::Cylinder { radius_m: n(s), length_m: n(s) } } else { TankShape::Sphere { radius_m: n(s) } };
        let l = PropellantTankSpec { shape: t, propellant_density_kg_m3: d, fill_fraction: f }.limits();
        ensure!(l.geometric_volume_m3 >= 0.0 && l.usable_volume_m3 >= 0.0 && l.usable_volume_m3 <= l.geometric_volume_m3 && l.max_propellant_mass_kg >= 0.0, "{t:?}: {l:?}");
        let i = t.inertia_principal_cm_kg_m2(d);
        ensure!(i.iter().all(|x| *x >= 0.0) && (d > 0.0 || i == [0.0; 3]), "{t:?} with {d} kg: moments {i:?}");
    }
    ensure!(l.max_propellant_mass_kg >= 0.0, "negative mass limit {}", l.max_propellant_mass_kg);
    Ok(())
}
fn aggregate(s: &mut Src) -> R {
    let n = if s.chance(1, 40) { s.range(9, 200) } else { s.range(0, 8) };
    let mut tanks = Vec::new();
    let (mut m, mut i) = (0.0, [0.0; 3]);
    let mut pos = 0;
    for _ in 0..n {
        let (t, sh) = tank(s);
        let k = match s.draw(4) { 0 => 0.0, 1 => -s.logf(1e-6, 1e4), _ => s.logf(1e-6, 1e5) };
        tanks.push(TankMassState { shape: t, mass_kg: k });
        let e = k.max(0.0);
        m += e;
        i = crate::num::add(i, moment(sh, e));
        if k > 0.0 { pos += 1 }
        let one = t.inertia_principal_cm_kg_m2(k);
        let w = moment(sh, e);
        for a in 0..3 { ensure!(rel(one[a], w[a], 1e-13), "{t:?} with {k} kg: moment {a} {}, want {}", one[a], w[a]); }
    }
    note!(s, "{tanks:?}");
    s.nt(pos >= 2);
    s.label_if(pos < n, "empty or negative contents");
    let gm = aggregate_tank_mass_kg(&tanks);
    ensure!(rel(gm, m, 1e-13), "total mass {gm}, want {m}");
    let gi = aggregate_tank_inertia_principal_cm_kg_m2(&tanks);
    for a in 0..3 { ensure!(rel(gi[a], i[a], 1e-12), "aggregate moment {a} {}, want {}", gi[a], i[a]); }
    // the order of the tanks does not matter
    let k = if n > 1 { s.range(1, n - 1) } else { 0 };
    tanks.rotate_left(k);
    tanks.reverse();
    ensure!(rel(aggregate_tank_mass_kg(&tanks), gm, 1e-13), "total mass depends on the order");
    let r = aggregate_tank_inertia_principal_cm_kg_m2(&tanks);
    for a in 0..3 { ensure!(rel(r[a], gi[a], 1e-12), "aggregate moment {a} depends on the order"); }
    Ok(())
}
pub fn register(r: &mut Registry) {
    r.add("F01", "primitive_f64", 10_000, "shape, size, mass; every case counts", primitive::<f64>);
    r.add("F01", "primitive_f32", 5_000, "shape, size, mass in single precision; every case counts", primitive::<f32>);
    let rule = "two bodies (shape, density, attitude, offset), combined or one removed; non-trivial when the result has positive mass and volume";
    r.add("F01", "compound_f64", 10_000, rule, compound::<f64>);
    r.add("F01", "compound_f32", 5_000, rule, compound::<f32>);
    r.add("F01", "split_f64", 10_000, "a prism or cylinder cut in two; every case counts", split::<f64>);
    r.add("F01", "split_f32", 5_000, "a prism or cylinder cut in two; every case counts", split::<f32>);
    r.add("F01", "impossible", 5_000, "bodies without volume; every case counts", impossible);
    r.add("F02", "limits", 10_000, "tank shape, density, fill fraction incl. out of range; non-trivial when the tank has volume", limits);
    r.add("F02", "aggregate", 10_000, "up to 8 (sometimes 200) tanks incl. empty and negative contents; non-trivial with two filled tanks", aggregate);
}
