//! A01 dense algebra, A03 solvers, A05 integrators, Newton.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::math::{Matrix, Tensor3, Tensor4, TensorView, TensorViewMut, Vector};
use aether_core::numerical_methods::integration::{EulerIntegrate, Rk4Integrate, TrapezoidalIntegrate};
use aether_core::numerical_methods::solvers::NewtonRaphson;

/// Element style of a case: 0 small integers (all results exact), 1 sparse integers, 2 reals,
/// 3 mixed magnitudes.
pub fn style(s: &mut Src) -> u64 {
    s.draw(3)
}
pub fn elem<T: Fl>(s: &mut Src, st: u64) -> T {
    T::of(match st {
        0 => s.irange(-9, 9) as f64,
        1 => if s.draw(2) == 0 { s.irange(-6, 6) as f64 } else { 0.0 },
        2 => 2.0 * s.unit() - 1.0,
        _ => { let m = s.logf(1e-3, 1e3); m * s.sgn() }
    })
}
pub fn gmat<T: Fl, const M: usize, const N: usize>(s: &mut Src, st: u64) -> Matrix<T, M, N> {
    let mut d = [[T::of(0.0); N]; M];
    for r in d.iter_mut() { for x in r.iter_mut() { *x = elem(s, st); } }
    Matrix { data: d }
}
pub fn gvec<T: Fl, const N: usize>(s: &mut Src, st: u64) -> Vector<T, N> {
    let mut d = [T::of(0.0); N];
    for x in d.iter_mut() { *x = elem(s, st); }
    Vector { data: d }
}
pub fn todense<T: Fl, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> D {
    m.data.iter().map(|r| r.iter().map(|x| x.f()).collect()).collect()
}
fn tov<T: Fl, const N: usize>(v: &Vector<T, N>) -> Vec<f64> { v.data.iter().map(|x| x.f()).collect() }
fn exact(st: u64) -> bool { st <= 1 }
fn fmtv(v: &[f64]) -> String { format!("{v:?}") }

/// |got - want| within the classical bound n*eps*sum|a||b|, exact for integer styles
fn check_prod(what: &str, got: &D, a: &D, b: &D, eps: f64, st: u64) -> R {
    let (m, n) = (a.len(), b.len());
    let p = if n > 0 { b[0].len() } else { 0 };
    ensure!(got.len() == m, "{what}: row count");
    for i in 0..m {
        for j in 0..p {
            let (mut w, mut ab) = (0.0, 0.0);
            for k in 0..n { w += a[i][k] * b[k][j]; ab += (a[i][k] * b[k][j]).abs(); }
            let tol = if exact(st) { 0.0 } else { (n as f64 + 3.0) * eps * ab + 1e-300 };
            ensure!(close(got[i][j], w, tol), "{what} ({m}x{n})*({n}x{p}) element ({i},{j}): got {} want {} (tol {tol:e})", got[i][j], w);
        }
    }
    Ok(())
}

fn prod_case<T: Fl, const M: usize, const N: usize, const P: usize>(s: &mut Src) -> R {
    let st = style(s);
    let a = gmat::<T, M, N>(s, st);
    let b = gmat::<T, N, P>(s, st);
    let v = gvec::<T, N>(s, st);
    let (a0, b0, v0) = (a, b, v);
    let (da, db) = (todense(&a), todense(&b));
    let dv: D = tov(&v).into_iter().map(|x| vec![x]).collect();
    note!(s, "{} ({M}x{N})*({N}x{P}) style {st} a={} b={}", T::NAME, fmtv(&da.concat()[..(M * N).min(8)]), fmtv(&db.concat()[..(N * P).min(8)]));
    s.nt(da.concat().iter().filter(|x| **x != 0.0).count() >= 1 && db.concat().iter().filter(|x| **x != 0.0).count() >= 1 && M * N * P > 1);
    s.label_if(M > 8 || N > 8 || P > 8, "blocked path");
    s.label_if(M <= 8 && N <= 8 && P <= 8, "small path");
    s.label_if(N > 16 || P > 16, "more than one block");
    let c1 = &a * &b;
    check_prod("A*B", &todense(&c1), &da, &db, T::E, st)?;
    for (w, c) in [("by value", a * b), ("value*ref", a * &b), ("ref*value", &a * b)] {
        ensure!(c == c1, "A*B {w} differs from the by-reference product");
    }
    let y1 = &a * &v;
    let yd: D = tov(&y1).into_iter().map(|x| vec![x]).collect();
    check_prod("A*v", &yd, &da, &dv, T::E, st)?;
    for (w, y) in [("by value", a * v), ("value*ref", a * &v), ("ref*value", &a * v)] {
        ensure!(y == y1, "A*v {w} differs");
    }
    // row/column views of the vector act as 1xN and Nx1 matrices
    let row = v.row();
    let col = v.col();
    for k in 0..N { ensure!(row.data[0][k] == v.data[k] && col.data[k][0] == v.data[k], "row/col view element {k}"); }
    let outer = Matrix::<T, M, N>::outer(&y1, &v);
    for i in 0..M { for k in 0..N {
        ensure!(outer.data[i][k] == y1.data[i] * v.data[k], "outer({i},{k})");
    } }
    // transpose identities
    let t = a.transpose();
    for i in 0..M { for k in 0..N { ensure!(t.data[k][i] == a.data[i][k] && t[(k, i)] == a[(i, k)], "transpose({k},{i})"); } }
    ensure!(t.transpose() == a, "double transpose");
    // matrix * identity, zeros, ones
    ensure!(&a * &Matrix::<T, N, N>::identity() == a, "A*I != A");
    ensure!(&Matrix::<T, M, M>::identity() * &a == a, "I*A != A");
    ensure!((&a * &Matrix::<T, N, P>::zeros()).data.iter().flatten().all(|x| x.f() == 0.0), "A*0 != 0");
    ensure!(Matrix::<T, M, P>::ones().data.iter().flatten().all(|x| x.f() == 1.0), "ones");
    ensure!(Matrix::<T, M, P>::default() == Matrix::<T, M, P>::zeros(), "default");
    ensure!(a == a0 && b == b0 && v == v0, "an operand passed by reference was modified");
    Ok(())
}

macro_rules! shapes {
    ($s:expr, $f:ident, $i:expr, [$(($m:literal,$n:literal,$p:literal)),* $(,)?]) => {{
        let fs: &[fn(&mut Src) -> R] = &[$( $f::<f64,$m,$n,$p> as fn(&mut Src)->R, $f::<f32,$m,$n,$p> as fn(&mut Src)->R ),*];
        let k = $s.draw(fs.len() as u64 - 1) as usize;
        fs[k]($s)
    }};
}

fn products_small(s: &mut Src) -> R {
    shapes!(s, prod_case, 0, [(1,1,1),(1,3,1),(2,2,2),(3,3,3),(2,3,4),(4,4,4),(3,1,5),(5,7,3),(6,6,6),(8,8,8),(7,8,8),(8,5,1),(1,8,8)])
}
fn products_large(s: &mut Src) -> R {
    shapes!(s, prod_case, 0, [(9,8,8),(8,9,8),(8,8,9),(9,9,9),(1,9,1),(16,16,16),(17,16,15),(16,17,16),(15,16,17),(17,17,17),(2,33,3),(33,2,18),(3,18,33),(24,32,16),(1,40,2),(12,20,31)])
}

fn elementwise_case<T: Fl, const M: usize, const N: usize, const P: usize>(s: &mut Src) -> R {
    let st = style(s);
    let a = gmat::<T, M, N>(s, st);
    let b = gmat::<T, M, N>(s, st);
    let k: T = { let k = elem::<T>(s, st); if k.f() != 0.0 { k } else { T::of(3.0) } };
    let v = gvec::<T, N>(s, st);
    let w = gvec::<T, N>(s, st);
    note!(s, "{} {M}x{N} style {st} a={:?} k={k} v={:?} w={:?}", T::NAME, &todense(&a).concat()[..(M * N).min(6)], v.data, w.data);
    s.nt(M * N > 1);
    let e = T::E;
    let (sum, dif, sc, dv, ng) = (a + b, a - b, a * k, a / k, -a);
    for i in 0..M { for j in 0..N {
        let (x, y) = (a.data[i][j], b.data[i][j]);
        ensure!(sum[(i, j)] == x + y, "({i},{j}) sum: {} + {} gave {}", x, y, sum[(i, j)]);
        ensure!(dif[(i, j)] == x - y, "({i},{j}) difference: {} - {} gave {}", x, y, dif[(i, j)]);
        ensure!(sc[(i, j)] == x * k, "({i},{j}) scale: {} * {} gave {}", x, k, sc[(i, j)]);
        ensure!(rel(dv[(i, j)].f(), x.f() / k.f(), 2.0 * e), "({i},{j}) divide: {} / {} gave {}", x, k, dv[(i, j)]);
        ensure!(ng[(i, j)] == -x, "({i},{j}) negate");
        ensure!(a[i][j] == x && a[(i, j)] == x, "index forms disagree");
    } }
    let mx = a.data.iter().flatten().fold(0.0f64, |m, x| m.max(x.f().abs()));
    ensure!(a.max_abs().f() == mx, "max_abs {} want {}", a.max_abs(), mx);
    // casts
    let c64: Matrix<f64, M, N> = a.cast();
    let c32: Matrix<f32, M, N> = a.cast();
    for i in 0..M { for j in 0..N {
        ensure!(c64.data[i][j] == a.data[i][j].f(), "cast to f64");
        ensure!(c32.data[i][j] == a.data[i][j].f() as f32, "cast to f32");
    } }
    let f32m: Matrix<f32, M, N> = Matrix::from(c64);
    let f64m: Matrix<f64, M, N> = Matrix::from(c32);
    for i in 0..M { for j in 0..N {
        ensure!(f32m.data[i][j] == c64.data[i][j] as f32 && f64m.data[i][j] == c32.data[i][j] as f64, "width conversion ({i},{j})");
    } }
    // mutation through the index forms
    let mut z = a;
    let (ri, ci) = (s.range(0, M - 1), s.range(0, N - 1));
    z[(ri, ci)] = T::of(77.0);
    z[ri][ci] = z[(ri, ci)] + T::of(1.0);
    for i in 0..M { for j in 0..N {
        let want = if (i, j) == (ri, ci) { T::of(78.0) } else { a.data[i][j] };
        ensure!(z.data[i][j] == want, "index assignment changed ({i},{j})");
    } }
    // ---- vectors
    let (v0, w0) = (v, w);
    let vs = [v + w, &v + &w, v + &w, &v + w, { let mut t = v; t += w; t }, { let mut t = v; t += &w; t }];
    let vd = [v - w, &v - &w, v - &w, &v - w, { let mut t = v; t -= w; t }, { let mut t = v; t -= &w; t }];
    for i in 0..N {
        for (q, t) in vs.iter().enumerate() { ensure!(t.data[i] == v.data[i] + w.data[i], "vector sum form {q} element {i}"); }
        for (q, t) in vd.iter().enumerate() { ensure!(t.data[i] == v.data[i] - w.data[i], "vector difference form {q} element {i}"); }
        ensure!((v * k).data[i] == v.data[i] * k && (&v * k).data[i] == v.data[i] * k, "vector scale {i}");
        ensure!(rel((v / k).data[i].f(), v.data[i].f() / k.f(), 2.0 * e) && rel((&v / k).data[i].f(), v.data[i].f() / k.f(), 2.0 * e), "vector divide {i}");
        ensure!((-v).data[i] == -v.data[i] && (-&v).data[i] == -v.data[i], "vector negate {i}");
        ensure!(v[i] == v.data[i], "vector index");
    }
    ensure!(v == v0 && w == w0, "operand modified");
    // dot and norms
    let (mut d, mut ad, mut n2) = (0.0, 0.0, 0.0);
    for i in 0..N { d += v.data[i].f() * w.data[i].f(); ad += (v.data[i].f() * w.data[i].f()).abs(); n2 += v.data[i].f().powi(2); }
    let tol = if exact(st) { 0.0 } else { (N as f64 + 2.0) * e * ad };
    for (q, g) in [v.dot(&w), &v * &w, v * &w, &v * w, v * w].iter().enumerate() {
        ensure!(close(g.f(), d, tol), "dot form {q}: got {} want {d}", g);
    }
    let nn = n2.sqrt();
    ensure!(rel(v.norm().f(), nn, (N as f64 + 2.0) * e) && v.magnitude() == v.norm(), "norm {} want {nn}", v.norm());
    let (u, un) = v.try_normalize();
    ensure!(un == v.norm(), "try_normalize norm");
    if nn > 1e-9 {
        let h = v.normalize();
        for i in 0..N {
            ensure!(close(h.data[i].f(), v.data[i].f() / nn, (N as f64 + 6.0) * e), "normalize element {i}: {} want {}", h.data[i], v.data[i].f() / nn);
            ensure!(close(u.data[i].f(), v.data[i].f() / nn, (N as f64 + 6.0) * e), "try_normalize element {i}");
        }
    } else if nn == 0.0 {
        ensure!(u == v && un.f() == 0.0, "try_normalize of a zero vector must return it unchanged");
        ensure!(v.angle(&w).f() == 0.0 && w.angle(&v).f() == 0.0, "angle with a zero vector is defined as 0");
        s.label("zero vector");
    }
    let wn: f64 = w.data.iter().map(|x| x.f().powi(2)).sum::<f64>().sqrt();
    if nn > 1e-6 && wn > 1e-6 {
        // angle via the numerically stable 2*atan2(|u-v|,|u+v|)
        let (mut p, mut q) = (0.0, 0.0);
        for i in 0..N { let (x, y) = (v.data[i].f() / nn, w.data[i].f() / wn); p += (x - y).powi(2); q += (x + y).powi(2); }
        let ang = 2.0 * p.sqrt().atan2(q.sqrt());
        let g = v.angle(&w).f();
        ensure!(g >= 0.0 && g <= core::f64::consts::PI * (1.0 + 1e-6), "angle {g} out of range");
        // acos loses half the digits near 0 and pi
        ensure!((g - ang).abs() <= 8.0 * (e * (N as f64 + 2.0)).sqrt(), "angle {g} want {ang}");
        if ang > 0.3 && ang < 2.8 { ensure!((g - ang).abs() <= 60.0 * e * (N as f64), "angle {g} want {ang}"); s.label("angle precise"); }
        ensure!((w.angle(&v).f() - g).abs() <= 60.0 * e + 8.0 * (e * (N as f64)).sqrt() * 0.0 + 1e-15, "angle not symmetric");
    }
    // numbers of any size the type has: every form scales and divides element by element
    if N > 0 && s.chance(1, 4) {
        let mut x = v;
        for q in x.data.iter_mut() { *q = extreme::<T>(s); }
        let k = extreme::<T>(s);
        let mut m = Matrix { data: [[T::of(0.0); N]; M] };
        for r in m.data.iter_mut() { *r = x.data; }
        note!(s, "extreme x={:?} k={k:e}", x.data.map(|q| q.f()), k = k.f());
        for i in 0..N {
            let (q, p) = (x.data[i].f() / k.f(), x.data[i].f() * k.f());
            if normal::<T>(q) {
                for g in [(x / k).data[i], (&x / k).data[i], (m / k).data[M - 1][i]] { ensure!(rel(g.f(), q, 4.0 * e), "{:e} / {:e} gave {:e}", x.data[i].f(), k.f(), g.f()); }
            }
            if normal::<T>(p) {
                for g in [(x * k).data[i], (&x * k).data[i], (m * k).data[M - 1][i]] { ensure!(rel(g.f(), p, 4.0 * e), "{:e} * {:e} gave {:e}", x.data[i].f(), k.f(), g.f()); }
            }
        }
        // lengths and directions do not depend on the unit
        let lim = if e > 1e-10 { 24 } else { 200 };
        let (fv, fw) = (2f64.powi(s.irange(-lim, lim) as i32), 2f64.powi(s.irange(-lim, lim) as i32));
        let (mut a, mut b) = (v, w);
        for q in a.data.iter_mut() { *q = T::of(q.f() * fv); }
        for q in b.data.iter_mut() { *q = T::of(q.f() * fw); }
        if nn > 0.0 {
            ensure!(rel(a.norm().f(), nn * fv, (N as f64 + 2.0) * e), "norm of {:?} is {:e}, want {:e}", a.data.map(|q| q.f()), a.norm().f(), nn * fv);
            let h = a.normalize();
            for i in 0..N { ensure!(close(h.data[i].f(), v.data[i].f() / nn, (N as f64 + 6.0) * e), "normalize element {i} of {:?}: {}", a.data.map(|q| q.f()), h.data[i]); }
            if wn > 0.0 { ensure!((a.angle(&b).f() - v.angle(&w).f()).abs() <= 8.0 * (e * (N as f64 + 2.0)).sqrt(), "angle of the rescaled vectors {} want {}", a.angle(&b), v.angle(&w)); }
        }
        s.label("extreme magnitudes");
    }
    // iteration, mapping, construction
    let m2 = v.map(|x| x + T::of(1.0));
    let it: Vector<T, N> = v.iter_copied().collect();
    ensure!(it == v, "collect of own elements differs");
    ensure!(v.iter().zip(v.data.iter()).all(|(a, b)| a == b) && v.into_iter().zip(v.data).all(|(a, b)| a == b), "iteration order");
    ensure!(Vector::from(v.data) == v && Vector::new(v.data) == v && *v.as_ref() == v.data, "construction");
    for i in 0..N { ensure!(m2.data[i] == v.data[i] + T::of(1.0), "map element {i}"); }
    let mut mm_ = v;
    for x in mm_.iter_mut() { *x = *x + *x; }
    for i in 0..N { ensure!(mm_.data[i] == v.data[i] + v.data[i], "iter_mut element {i}"); }
    let bad = s.range(0, N + 2);
    let r = guarded(|| (0..bad).map(|i| T::of(i as f64)).collect::<Vector<T, N>>());
    ensure!(r.is_ok() == (bad == N), "collecting {bad} elements into a {N}-vector: accepted = {}", r.is_ok());
    Ok(())
}
fn elementwise(s: &mut Src) -> R {
    shapes!(s, elementwise_case, 0, [(1,1,0),(2,2,0),(3,3,0),(3,1,0),(1,4,0),(4,4,0),(2,6,0),(6,5,0),(9,7,0),(5,17,0)])
}

fn square_case<T: Fl, const N: usize, const B: usize, const C: usize>(s: &mut Src) -> R {
    let _ = (B, C);
    // integer matrices: exact determinant through Bareiss
    let mut ai = vec![vec![0i64; N]; N];
    let hi = if N <= 4 { 9 } else { 4 };
    let shape = s.draw(4);
    for i in 0..N { for j in 0..N {
        ai[i][j] = match shape {
            1 => if s.draw(2) == 0 { s.irange(-hi, hi) } else { 0 },
            2 => if j <= i { s.irange(-hi, hi) } else { 0 },
            3 => if (i + j) % N == N - 1 || s.draw(5) == 0 { s.irange(-hi, hi) } else { 0 },
            _ => s.irange(-hi, hi),
        };
    } }
    let singular = s.chance(1, 4) && N > 1;
    if singular {
        let (i, j) = (s.range(0, N - 1), s.range(0, N - 1));
        if i != j { let k = s.irange(-2, 2); let r: Vec<i64> = ai[j].iter().map(|x| x * k).collect(); ai[i] = r; }
    }
    let mut d = [[T::of(0.0); N]; N];
    for i in 0..N { for j in 0..N { d[i][j] = T::of(ai[i][j] as f64); } }
    let a = Matrix { data: d };
    let det = det_int(&ai) as f64;
    note!(s, "{} {N}x{N} {ai:?} det {det}", T::NAME);
    s.nt(N > 1);
    s.label_if(det == 0.0, "singular");
    s.label_if(ai[0][0] == 0 && det != 0.0, "zero leading pivot");
    let g = a.determinant().f();
    let tr: f64 = (0..N).map(|i| ai[i][i] as f64).sum();
    ensure!(a.trace().f() == tr, "trace {} want {tr}", a.trace());
    let hadamard: f64 = ai.iter().map(|r| r.iter().map(|x| (x * x) as f64).sum::<f64>().sqrt().max(1.0)).product();
    let tol = 40.0 * (N * N) as f64 * T::E * hadamard;
    ensure!((g - det).abs() <= tol, "determinant {g} want {det} (tol {tol:e})");
    // in other units (an exact power of two) the determinant scales by that power
    let lim = if T::NAME == "f32" { 60 / N as i64 } else { 700 / N as i64 };
    let k = s.irange(-lim, lim) as i32;
    let mut sc = a;
    for r in sc.data.iter_mut() { for x in r.iter_mut() { *x = T::of(x.f() * 2f64.powi(k)); } }
    let gs = sc.determinant().f() / 2f64.powi(k * N as i32);
    ensure!((gs - det).abs() <= tol, "determinant of the matrix scaled by 2^{k}: {gs} (unscaled) want {det} (tol {tol:e})");
    // diag / identity
    let dv = gvec::<T, N>(s, 0);
    let dm = Matrix::<T, N, N>::diag(&dv.data);
    ensure!(dm == Matrix::<T, N, N>::diag_from_vector(&dv), "diag forms differ");
    for i in 0..N { for j in 0..N { ensure!(dm.data[i][j] == if i == j { dv.data[i] } else { T::of(0.0) }, "diag ({i},{j})"); } }
    let pd: f64 = dv.data.iter().map(|x| x.f()).product();
    ensure!((dm.determinant().f() - pd).abs() <= 1e-5 * pd.abs() , "det of diagonal {} want {pd}", dm.determinant());
    ensure!(Matrix::<T, N, N>::identity().determinant().f() == 1.0, "det I");
    if N == 1 { return Ok(()) }
    // a row swap flips the sign exactly, a transpose keeps the value
    let (i, j) = (s.range(0, N - 1), s.range(0, N - 1));
    if i != j {
        let mut b = a;
        b.data.swap(i, j);
        ensure!((b.determinant().f() + det).abs() <= tol, "determinant after a row swap {} want {}", b.determinant(), -det);
    }
    ensure!((a.transpose().determinant().f() - det).abs() <= tol, "det of transpose");
    Ok(())
}
fn squares(s: &mut Src) -> R {
    shapes!(s, square_case, 0, [(1,0,0),(2,0,0),(3,0,0),(4,0,0),(5,0,0),(6,0,0),(7,0,0)])
}

fn cross3(s: &mut Src) -> R {
    fn go<T: Fl>(s: &mut Src) -> R {
        let st = style(s);
        let a = gvec::<T, 3>(s, st);
        let b = gvec::<T, 3>(s, st);
        note!(s, "{} a={:?} b={:?}", T::NAME, a.data, b.data);
        let (x, y) = ([a[0].f(), a[1].f(), a[2].f()], [b[0].f(), b[1].f(), b[2].f()]);
        let w = cross(x, y);
        let c = a.cross(&b);
        let m = norm(x) * norm(y);
        s.nt(norm(w) > 1e-3 * m && m > 0.0);
        for i in 0..3 {
            let tol = if exact(st) { 0.0 } else { 4.0 * T::E * m };
            ensure!(close(c[i].f(), w[i], tol), "cross element {i}: {} want {}", c[i], w[i]);
        }
        let r = b.cross(&a);
        for i in 0..3 { ensure!(close(r[i].f(), -c[i].f(), if exact(st) { 0.0 } else { 4.0 * T::E * m }), "cross antisymmetry"); }
        let f = Matrix { data: [[a[0], a[1], a[2], b[0]], [b[1], b[2], a[0], a[1]], [a[2], b[0], b[1], b[2]], [a[1], b[1], a[2], b[2]]] };
        let flat = f.as_flat_array();
        for i in 0..4 { for j in 0..4 { ensure!(flat[i * 4 + j] == f.data[i][j], "flat[{}]", i * 4 + j); } }
        Ok(())
    }
    if s.bool() { go::<f32>(s) } else { go::<f64>(s) }
}

fn tensors(s: &mut Src) -> R {
    let base = s.irange(-1000, 1000) as f64;
    fn fill<const A: usize, const B: usize, const C: usize>(s: &mut Src, base: f64) -> R {
        let mut d = [[[0.0f64; C]; B]; A];
        let mut k = 0.0;
        for x in d.iter_mut() { for y in x.iter_mut() { for z in y.iter_mut() { *z = base + k; k += 1.0; } } }
        let mut t = Tensor3::new(d);
        ensure!(Tensor3::<f64, A, B, C>::dims() == (A, B, C), "dims");
        ensure!(t.as_flat().len() == A * B * C, "flat length");
        let (i, j, l) = (s.range(0, A - 1), s.range(0, B - 1), s.range(0, C - 1));
        note!(s, "tensor {A}x{B}x{C} at ({i},{j},{l})");
        let want = base + ((i * B + j) * C + l) as f64;
        ensure!(t[(i, j, l)] == want, "element ({i},{j},{l}) = {} want {want}", t[(i, j, l)]);
        ensure!(t.as_flat()[(i * B + j) * C + l] == want, "flat layout");
        let flat: Vec<f64> = t.as_flat().to_vec();
        let shape = [A, B, C];
        let view = TensorView { data: &flat, shape: &shape };
        ensure!(*view.get(&[i, j, l]) == want, "view element");
        let mut f2 = flat.clone();
        *TensorViewMut { data: &mut f2, shape: &shape }.get_mut(&[i, j, l]) = -7.5;
        for q in 0..f2.len() { ensure!(f2[q] == if q == (i * B + j) * C + l { -7.5 } else { flat[q] }, "mutable view touched {q}"); }
        t[(i, j, l)] = -1.25;
        ensure!(t.data[i][j][l] == -1.25 && t.as_flat()[(i * B + j) * C + l] == -1.25, "assignment");
        let m = t.as_flat_mut();
        m[0] = 4.5;
        ensure!(t[(0, 0, 0)] == 4.5, "flat_mut");
        Ok(())
    }
    fn fill4<const A: usize, const B: usize, const C: usize, const E: usize>(s: &mut Src, base: f64) -> R {
        let mut d = [[[[0.0f64; E]; C]; B]; A];
        let mut k = 0.0;
        for w in d.iter_mut() { for x in w.iter_mut() { for y in x.iter_mut() { for z in y.iter_mut() { *z = base + k; k += 1.0; } } } }
        let mut t = Tensor4::new(d);
        ensure!(Tensor4::<f64, A, B, C, E>::dims() == (A, B, C, E), "dims4");
        let ix = (s.range(0, A - 1), s.range(0, B - 1), s.range(0, C - 1), s.range(0, E - 1));
        note!(s, "tensor4 {A}x{B}x{C}x{E} at {ix:?}");
        let off = ((ix.0 * B + ix.1) * C + ix.2) * E + ix.3;
        ensure!(t[ix] == base + off as f64, "element {ix:?}");
        let flat: Vec<f64> = (0..A * B * C * E).map(|q| base + q as f64).collect();
        let shape = [A, B, C, E];
        ensure!(*TensorView { data: &flat, shape: &shape }.get(&[ix.0, ix.1, ix.2, ix.3]) == base + off as f64, "view4");
        t[ix] = 3.5;
        ensure!(t.data[ix.0][ix.1][ix.2][ix.3] == 3.5, "assign4");
        Ok(())
    }
    s.nt(true);
    match s.draw(4) {
        0 => fill::<2, 3, 4>(s, base),
        1 => fill::<1, 5, 2>(s, base),
        2 => fill::<3, 1, 7>(s, base),
        3 => fill4::<2, 3, 4, 5>(s, base),
        _ => fill4::<3, 1, 2, 4>(s, base),
    }
}

// ------------------------------------------------------------------ A03 solvers
fn lu_case<T: Fl, const N: usize, const K: usize, const Z: usize>(s: &mut Src) -> R {
    let _ = Z;
    let e = T::E;
    // structure: general, permuted dominant, sparse, scaled rows
    let kind = s.draw(4);
    let st = if kind == 4 { 0 } else { s.draw(2) };
    let mut a = gmat::<T, N, N>(s, st);
    if kind >= 1 && kind <= 3 {
        // add a permuted diagonal so that the system is well conditioned but needs pivoting
        let mut p: Vec<usize> = (0..N).collect();
        for i in (1..N).rev() { let j = s.range(0, i); p.swap(i, j); }
        for i in 0..N {
            a.data[i][p[i]] = T::of(a.data[i][p[i]].f() + s.sgn() * (2.0 + 4.0 * N as f64));
            if kind == 2 && i != p[i] { a.data[i][i] = T::of(0.0); }
        }
        if kind == 3 { for i in 0..N { let f = 2f64.powi(s.irange(-6, 6) as i32); for j in 0..N { a.data[i][j] = T::of(a.data[i][j].f() * f); } } }
    }
    let singular = s.chance(1, 6);
    if singular {
        // exactly singular with integer data so that elimination finds an exact zero: a zero row,
        // a zero column, or two equal rows/columns in an otherwise integer matrix
        let i = s.range(0, N - 1);
        let j = s.range(0, N - 1);
        match s.draw(2) {
            0 => for c in 0..N { a.data[i][c] = T::of(0.0) },
            1 => for r in 0..N { a.data[r][i] = T::of(0.0) },
            _ => if i != j { a.data[i] = a.data[j] } else { for c in 0..N { a.data[i][c] = T::of(0.0) } },
        }
    }
    // small and large units: an exact power of two changes no digit
    if s.chance(1, 6) {
        let lim = if T::NAME == "f32" { (70 / N as i64 - 6).clamp(1, 40) } else { (800 / N as i64).min(200) };
        let f = 2f64.powi(s.irange(-lim, lim) as i32);
        for r in a.data.iter_mut() { for x in r.iter_mut() { *x = T::of(x.f() * f); } }
        s.label("scaled by a power of two");
    }
    let da = todense(&a);
    let cond = dcond(&da);
    note!(s, "{} {N}x{N} kind {kind} singular {singular} cond {cond:.3e} A={da:?}", T::NAME);
    s.label_if(singular, "singular input");
    let big = dnorm_inf(&da).max(1e-300);
    let lu = a.lu_decompose();
    if cond < 1e3 && !singular {
        // comfortably non-singular: pivots are at least big/cond/2^N >> eps
        ensure!(lu.is_some(), "non-singular matrix (cond {cond:.1e}) refused");
        ensure!(a.inverse_gauss_jordan().is_some(), "non-singular matrix has no Gauss-Jordan inverse");
        s.nt(true);
    }
    if singular {
        s.nt(true);
        // two equal rows may leave a rounding-size pivot; then the result must blow up, not look sane
        if let Some(f) = &lu {
            let umin = (0..N).map(|k| f.lu.data[k][k].f().abs()).fold(f64::INFINITY, f64::min);
            ensure!(umin <= 64.0 * N as f64 * e * big, "singular matrix factored with pivots no smaller than {umin:e}");
            s.label("singular within rounding");
        } else { s.label("singular refused"); }
        let zero_line = da.iter().any(|r| r.iter().all(|x| *x == 0.0)) || (0..N).any(|j| da.iter().all(|r| r[j] == 0.0));
        if zero_line {
            ensure!(lu.is_none(), "matrix with a zero row/column was factored");
            ensure!(a.inverse_gauss_jordan().is_none(), "matrix with a zero row/column was inverted");
            ensure!(a.determinant().f() == 0.0, "determinant of a matrix with a zero row/column is {}", a.determinant());
            let b = gvec::<T, N>(s, 0);
            ensure!(a.solve(&b).is_none(), "singular system was solved");
        }
        return Ok(());
    }
    if let Some(f) = &lu {
        // permutation and sign
        let mut seen = vec![false; N];
        for &p in &f.piv { ensure!(p < N && !seen[p], "pivot vector {:?} is not a permutation", f.piv); seen[p] = true; }
        let mut par = 1i8;
        let mut p = f.piv;
        for i in 0..N { while p[i] != i { let j = p[i]; p.swap(i, j); par = -par; } }
        ensure!(par == f.sign, "sign {} does not match permutation {:?}", f.sign, f.piv);
        // |L| <= 1 by partial pivoting
        for i in 0..N { for j in 0..i { ensure!(f.lu.data[i][j].f().abs() <= 1.0 + 8.0 * e, "multiplier {} exceeds 1: not partially pivoted", f.lu.data[i][j]); } }
        // P A = L U
        for i in 0..N { for j in 0..N {
            let (mut w, mut aw) = (0.0, 0.0);
            for k in 0..=i.min(j) {
                let l = if k == i { 1.0 } else { f.lu.data[i][k].f() };
                w += l * f.lu.data[k][j].f();
                aw += (l * f.lu.data[k][j].f()).abs();
            }
            let want = da[f.piv[i]][j];
            ensure!(w.is_finite() && (w - want).abs() <= 4.0 * (N as f64 + 2.0) * e * aw.max(want.abs()) + 1e-300, "(LU)({i},{j}) = {w} but (PA) = {want}");
        } }
        // determinant from the factors
        if cond < 1e4 {
            let df: f64 = (0..N).map(|i| f.lu.data[i][i].f()).product::<f64>() * f.sign as f64;
            ensure!(rel(df, a.determinant().f(), 1e3 * (N as f64) * e * cond.min(1e3)) || df.abs() < 1e-10 * big.min(1.0).powi(N as i32), "det from LU {df} vs determinant {}", a.determinant());
        }
        // solves: backward stable residual
        let b = gvec::<T, N>(s, 2);
        let x = f.solve(&b);
        let x2 = a.solve(&b);
        ensure!(x2.is_some() && x2.unwrap() == x, "Matrix::solve and factor solve differ");
        let check = |what: &str, x: &[f64], b: &[f64]| -> R {
            for i in 0..N {
                let (mut r, mut m) = (0.0, b[i].abs());
                for j in 0..N { r += da[i][j] * x[j]; m += (da[i][j] * x[j]).abs(); }
                // growth of partial pivoting is bounded by 2^(N-1)
                let xm = x.iter().fold(0.0f64, |a, v| a.max(v.abs()));
                let tol = 8.0 * (N as f64 + 2.0) * e * (m + 2f64.powi(N as i32 - 1) * big * xm);
                ensure!(xm.is_finite() && (r - b[i]).abs() <= tol, "{what}: row {i} of A*x is {r}, right-hand side {} (tol {tol:e})", b[i]);
            }
            Ok(())
        };
        check("solve", &tov(&x), &tov(&b))?;
        let mb = gmat::<T, N, K>(s, 2);
        let mx = f.solve_multi(&mb);
        ensure!(a.solve_multi(&mb) == Some(mx), "Matrix::solve_multi and factor solve_multi differ");
        for c in 0..K {
            let xc: Vec<f64> = (0..N).map(|i| mx.data[i][c].f()).collect();
            let bc: Vec<f64> = (0..N).map(|i| mb.data[i][c].f()).collect();
            check("solve_multi", &xc, &bc)?;
        }
    }
    if let Some(inv) = a.inverse_gauss_jordan() {
        if cond < 1e-3 / e {
            let di = todense(&inv);
            let p = dmul(&da, &di);
            for i in 0..N { for j in 0..N {
                let w = if i == j { 1.0 } else { 0.0 };
                ensure!((p[i][j] - w).abs() <= 64.0 * N as f64 * 2f64.powi(N as i32 - 1).min(8.0) * e * cond, "A*inverse ({i},{j}) = {} (cond {cond:.1e})", p[i][j]);
            } }
            let q = dmul(&di, &da);
            for i in 0..N { for j in 0..N {
                let w = if i == j { 1.0 } else { 0.0 };
                ensure!((q[i][j] - w).abs() <= 64.0 * N as f64 * 2f64.powi(N as i32 - 1).min(8.0) * e * cond, "inverse*A ({i},{j}) = {} (cond {cond:.1e})", q[i][j]);
            } }
        }
    }
    Ok(())
}
fn lu(s: &mut Src) -> R {
    shapes!(s, lu_case, 0, [(1,1,0),(2,3,0),(3,1,0),(3,4,0),(4,2,0),(5,3,0),(6,6,0),(8,2,0)])
}

fn inverse3(s: &mut Src) -> R {
    fn go<T: Fl>(s: &mut Src) -> R {
        let st = s.draw(2);
        let mut a = gmat::<T, 3, 3>(s, st);
        if s.chance(1, 5) {
            let i = s.range(0, 2);
            let j = s.range(0, 2);
            if i != j { a.data[i] = a.data[j] } else { a.data[i] = [T::of(0.0); 3] }
        }
        if s.chance(1, 5) {
            let f = 2f64.powi(if T::NAME == "f32" { s.irange(-30, 30) } else { s.irange(-200, 200) } as i32);
            for r in a.data.iter_mut() { for x in r.iter_mut() { *x = T::of(x.f() * f); } }
            s.label("scaled by a power of two");
        }
        let m: M3 = [0, 1, 2].map(|i| [0, 1, 2].map(|j| a.data[i][j].f()));
        let d = det3(&m);
        let cond = dcond(&todense(&a));
        let unit = dnorm_inf(&todense(&a)).min(1.0).powi(3);
        note!(s, "{} 3x3 {:?} det {d}", T::NAME, a.data);
        match a.inverse() {
            Some(inv) => {
                let w: M3 = [0, 1, 2].map(|i| [0, 1, 2].map(|j| inv.data[i][j].f()));
                if cond < 1e-2 / T::E {
                    let p = mm(&m, &w);
                    ensure!(mdiff(&p, &I3) <= 200.0 * T::E * cond, "A*inverse differs from I by {:e} (cond {cond:.1e})", mdiff(&p, &I3));
                    ensure!(mdiff(&mm(&w, &m), &I3) <= 200.0 * T::E * cond, "inverse*A differs from I");
                    s.nt(true);
                }
                ensure!(!(d == 0.0 && exact(st) && (a.data.iter().any(|r| r.iter().all(|x| x.f() == 0.0)))), "singular matrix inverted");
            }
            None => {
                ensure!(d.abs() <= 1e-11 * unit + 1e3 * T::E * dnorm_inf(&todense(&a)).powi(3), "matrix with determinant {d} reported singular");
                s.nt(true);
                s.label("refused");
            }
        }
        Ok(())
    }
    if s.bool() { go::<f32>(s) } else { go::<f64>(s) }
}

fn chol_case<T: Fl, const N: usize, const K: usize, const Z: usize>(s: &mut Src) -> R {
    let _ = (Z, K);
    let e = T::E;
    let st = s.draw(2);
    // A = G G^T + delta I, optionally made indefinite
    let g = gmat::<T, N, N>(s, st);
    let dg = todense(&g);
    let shift = s.f(0.05, 2.0);
    let mut da = dmul(&dg, &dtr(&dg));
    for i in 0..N { da[i][i] += shift; }
    let bad = s.chance(1, 3);
    if bad {
        // subtract enough along one coordinate direction that e_i^T A e_i < 0, or make a 2x2 minor negative
        let i = s.range(0, N - 1);
        if N > 1 && s.bool() {
            let j = (i + 1) % N;
            let v = (da[i][i] * da[j][j]).sqrt() * (1.1 + s.unit());
            da[i][j] = v;
            da[j][i] = v;
        } else {
            da[i][i] = if s.chance(1, 3) { 0.0 } else { -da[i][i] * s.unit() };
        }
    }
    let mut a = Matrix { data: [[T::of(0.0); N]; N] };
    for i in 0..N { for j in 0..N { a.data[i][j] = T::of(da[i][j]); } }
    let da = todense(&a);
    note!(s, "{} {N}x{N} indefinite={bad} A={da:?}", T::NAME);
    s.nt(N > 1 || bad);
    let c = a.cholesky_lower();
    let b = gvec::<T, N>(s, 2);
    if bad {
        s.label("not positive definite");
        ensure!(c.is_none(), "matrix that is not positive definite was factored");
        ensure!(a.cholesky_solve(&b).is_none(), "matrix that is not positive definite was solved");
        return Ok(());
    }
    let cond = dcond(&da);
    // a Cholesky factorisation must succeed when lambda_min exceeds rounding
    if cond * e * (N * N) as f64 * 4.0 > 0.5 { return Ok(()) }
    ensure!(c.is_some(), "positive definite matrix refused");
    let l = c.unwrap().l;
    for i in 0..N {
        ensure!(l.data[i][i].f() > 0.0, "diagonal of L not positive");
        for j in i + 1..N { ensure!(l.data[i][j].f() == 0.0, "L({i},{j}) above the diagonal is {}", l.data[i][j]); }
    }
    let dl = todense(&l);
    let p = dmul(&dl, &dtr(&dl));
    for i in 0..N { for j in 0..N {
        let tol = 4.0 * (N as f64 + 2.0) * e * (da[i][i] * da[j][j]).sqrt();
        ensure!((p[i][j] - da[i][j]).abs() <= tol, "(L L^T)({i},{j}) = {} want {}", p[i][j], da[i][j]);
    } }
    let x = a.cholesky_solve(&b);
    ensure!(x.is_some() && x == Some(c.unwrap().solve(&b)), "cholesky_solve differs from factor solve");
    let x = tov(&x.unwrap());
    let xm = x.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    for i in 0..N {
        let r: f64 = (0..N).map(|j| da[i][j] * x[j]).sum();
        let tol = 16.0 * (N * N + 2) as f64 * e * (dnorm_inf(&da) * xm + 1.0);
        ensure!(xm.is_finite() && (r - b[i].f()).abs() <= tol, "row {i} of A*x is {r}, right-hand side {} (tol {tol:e})", b[i]);
    }
    Ok(())
}
fn chol(s: &mut Src) -> R {
    shapes!(s, chol_case, 0, [(1,0,0),(2,0,0),(3,0,0),(4,0,0),(5,0,0),(7,0,0)])
}

/// rank-deficient small integers: elimination leaves pivots of rounding size, far below the
/// documented threshold of 1e-12 (times the largest entry where that is below one)
fn rank_case<const N: usize>(s: &mut Src) -> R {
    let mut m = vec![vec![0i64; N]; N];
    for r in m.iter_mut() { for x in r.iter_mut() { *x = s.irange(-5, 5); } }
    // the last line a combination of the others, then shuffled into place
    let k: Vec<i64> = (0..N - 1).map(|_| s.irange(-2, 2)).collect();
    for j in 0..N { m[N - 1][j] = (0..N - 1).map(|i| k[i] * m[i][j]).sum(); }
    for i in (1..N).rev() { let j = s.range(0, i); m.swap(i, j); }
    if s.bool() { m = (0..N).map(|i| (0..N).map(|j| m[j][i]).collect()).collect(); }
    let f = if s.chance(1, 3) { 2f64.powi(-(s.range(0, 120) as i32)) } else { 1.0 };
    let mut a = Matrix::<f64, N, N>::zeros();
    for i in 0..N { for j in 0..N { a.data[i][j] = m[i][j] as f64 * f; } }
    note!(s, "{N}x{N} {m:?} scale {f:e}");
    // a small pivot multiplies the rounding of the later ones: only pivots of at least one
    let mut w: Vec<Vec<f64>> = m.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect();
    for c in 0..N {
        let p = (c..N).max_by(|x, y| w[*x][c].abs().total_cmp(&w[*y][c].abs())).unwrap();
        w.swap(c, p);
        if w[c][c].abs() < 1e-6 { break; }
        if w[c][c].abs() < 0.99 { s.label("small pivot, skipped"); return Ok(()); }
        for r in c + 1..N { let f = w[r][c] / w[c][c]; for j in c..N { w[r][j] -= f * w[c][j]; } }
    }
    s.nt(k.iter().any(|x| *x != 0));
    let d = a.determinant();
    ensure!(d == 0.0, "determinant of a singular matrix is {d:e}");
    ensure!(a.inverse_gauss_jordan().is_none(), "singular matrix has a Gauss-Jordan inverse");
    if let Some(l) = a.lu_decompose() {
        let u = (0..N).map(|i| l.lu.data[i][i].abs()).fold(f64::INFINITY, f64::min);
        ensure!(u <= 1e-12 * f, "singular matrix factored with pivots no smaller than {u:e}");
        s.label("LU within rounding");
    }
    Ok(())
}
fn rank3(s: &mut Src) -> R {
    // a singular 3x3 has no inverse
    let mut a = Matrix::<f64, 3, 3>::zeros();
    let (x, y): ([i64; 3], [i64; 3]) = (core::array::from_fn(|_| s.irange(-9, 9)), core::array::from_fn(|_| s.irange(-9, 9)));
    let (p, q) = (s.irange(-2, 2), s.irange(-2, 2));
    let z: [i64; 3] = core::array::from_fn(|i| p * x[i] + q * y[i]);
    let mut rows = [x, y, z];
    for i in (1..3).rev() { let j = s.range(0, i); rows.swap(i, j); }
    let tr = s.bool();
    let f = if s.chance(1, 3) { 2f64.powi(-(s.range(0, 120) as i32)) } else { 1.0 };
    for i in 0..3 { for j in 0..3 { a.data[i][j] = f * if tr { rows[j][i] } else { rows[i][j] } as f64; } }
    note!(s, "{rows:?} transposed {tr} scale {f:e}");
    s.nt(p != 0 || q != 0);
    ensure!(a.inverse().is_none(), "singular matrix {rows:?} has an inverse");
    Ok(())
}
fn rank_any(s: &mut Src) -> R {
    match s.draw(3) { 0 => rank_case::<2>(s), 1 => rank_case::<4>(s), 2 => rank3(s), _ => rank_case::<3>(s) }
}

// ------------------------------------------------------------------ A05
fn euler_trap_case<T: Fl, const N: usize, const K: usize, const Z: usize>(s: &mut Src) -> R {
    let _ = (K, Z);
    let v = gvec::<T, N>(s, 2);
    let w = gvec::<T, N>(s, 2);
    let dt = T::of(s.logf(1e-6, 100.0) * s.sgn());
    note!(s, "{} v={:?} last={:?} dt={dt}", T::NAME, v.data, w.data);
    s.nt(true);
    let i = v.integrate_euler(dt);
    let t = v.integrate_trapezoidal(&w, dt);
    for k in 0..N {
        ensure!(rel(i[k].f(), v[k].f() * dt.f(), 2.0 * T::E), "Euler step {k}: {} want {}", i[k], v[k].f() * dt.f());
        let want = 0.5 * (v[k].f() + w[k].f()) * dt.f();
        ensure!(close(t[k].f(), want, 4.0 * T::E * (v[k].f().abs() + w[k].f().abs()) * dt.f().abs()), "trapezoid {k}: {} want {want}", t[k]);
    }
    Ok(())
}
fn euler_trap(s: &mut Src) -> R {
    shapes!(s, euler_trap_case, 0, [(1,0,0),(3,0,0),(6,0,0)])
}

fn euler_trap_frames(s: &mut Src) -> R {
    use aether_core::attitude::Euler;
    use aether_core::coordinate::Cartesian;
    use aether_core::reference_frame::{Body, NED};
    let a = [s.sym(3.0), s.sym(3.0), s.sym(3.0)];
    let b = [s.sym(3.0), s.sym(3.0), s.sym(3.0)];
    let dt = s.sgn() * s.logf(1e-4, 10.0);
    note!(s, "a={a:?} b={b:?} dt={dt}");
    s.nt(norm(a) > 0.0 && norm(b) > 0.0);
    let c1 = Cartesian::<f64, NED<f64>>::new(a[0], a[1], a[2]);
    let c2 = Cartesian::<f64, NED<f64>>::new(b[0], b[1], b[2]);
    let (e1, t1) = (c1.integrate_euler(dt), c1.integrate_trapezoidal(&c2, dt));
    let u1 = Euler::<f64, NED<f64>, Body<f64>>::new(a[0], a[1], a[2]);
    let u2 = Euler::<f64, NED<f64>, Body<f64>>::new(b[0], b[1], b[2]);
    let (e2, t2) = (u1.integrate_euler(dt), u1.integrate_trapezoidal(&u2, dt));
    for k in 0..3 {
        let (we, wt) = (a[k] * dt, 0.5 * (a[k] + b[k]) * dt);
        let tol = 1e-15 * (a[k].abs() + b[k].abs()) * dt.abs();
        ensure!(close(e1.data[k], we, tol) && close(e2.data[k], we, tol), "Euler step component {k}");
        ensure!(close(t1.data[k], wt, tol) && close(t2.data[k], wt, tol), "trapezoid component {k}");
    }
    Ok(())
}

/// RK4 against the textbook tableau on generated polynomial vector fields, plus the set of
/// states at which the dynamics are evaluated
fn rk4_tableau(s: &mut Src) -> R {
    use aether_core::attitude::Euler;
    use aether_core::coordinate::Cartesian;
    use aether_core::reference_frame::{Body, NED};
    let mut c = [[0.0f64; 10]; 3];
    for r in c.iter_mut() { for x in r.iter_mut() { *x = s.sym(1.0); } }
    let y0 = [s.sym(2.0), s.sym(2.0), s.sym(2.0)];
    let h = s.sgn() * s.logf(1e-3, 0.7);
    note!(s, "quadratic field {c:?} y0={y0:?} h={h}");
    s.nt(true);
    let f = |y: V3| -> V3 {
        let m = [1.0, y[0], y[1], y[2], y[0] * y[0], y[0] * y[1], y[0] * y[2], y[1] * y[1], y[1] * y[2], y[2] * y[2]];
        [0, 1, 2].map(|i| (0..10).map(|k| c[i][k] * m[k]).sum())
    };
    let k1 = f(y0);
    let s2 = add(y0, scale(k1, h / 2.0));
    let k2 = f(s2);
    let s3 = add(y0, scale(k2, h / 2.0));
    let k3 = f(s3);
    let s4 = add(y0, scale(k3, h));
    let k4 = f(s4);
    let inc = scale(add(add(k1, scale(add(k2, k3), 2.0)), k4), h / 6.0);
    let want = add(y0, inc);
    let mag = 1.0 + norm(y0) + h.abs() * (norm(k1) + norm(k2) + norm(k3) + norm(k4)) * (1.0 + norm(s4));
    let seen = std::cell::RefCell::new(Vec::<V3>::new());
    let which = s.draw(2);
    let got = match which {
        0 => {
            let v = Vector::new(y0);
            let r = v.integrate_rk4(|y: &Vector<f64, 3>| { seen.borrow_mut().push(y.data); Vector::new(f(y.data)) }, h);
            r.data
        }
        1 => {
            let v = Cartesian::<f64, NED<f64>>::new(y0[0], y0[1], y0[2]);
            let r = v.integrate_rk4(|y: &Cartesian<f64, NED<f64>>| { seen.borrow_mut().push(y.data.data); let k = f(y.data.data); Cartesian::new(k[0], k[1], k[2]) }, h);
            r.data.data
        }
        _ => {
            let v = Euler::<f64, NED<f64>, Body<f64>>::new(y0[0], y0[1], y0[2]);
            let r = v.integrate_rk4(|y: &Euler<f64, NED<f64>, Body<f64>>| { seen.borrow_mut().push(y.data.data); let k = f(y.data.data); Euler::new(k[0], k[1], k[2]) }, h);
            r.data.data
        }
    };
    s.label(["vector", "cartesian", "euler"][which as usize]);
    ensure!(vdiff(got, want) <= 1e-13 * mag, "RK4 step {got:?} want {want:?}");
    let seen = seen.into_inner();
    ensure!(seen.len() == 4, "dynamics evaluated {} times", seen.len());
    for (q, w) in [y0, s2, s3, s4].iter().enumerate() {
        ensure!(vdiff(seen[q], *w) <= 1e-13 * mag, "stage {q} evaluated at {:?} want {w:?}", seen[q]);
    }
    Ok(())
}

/// polynomial-in-time dynamics up to cubic are integrated exactly; linear systems to fourth order
fn rk4_exact(s: &mut Src) -> R {
    fn go<T: Fl>(s: &mut Src) -> R {
        let c = [s.sym(2.0), s.sym(2.0), s.sym(2.0), s.sym(2.0)];
        let (t0, x0) = (s.sym(2.0), s.sym(2.0));
        let h = s.sgn() * s.logf(1e-2, 4.0);
        note!(s, "{} x' = {c:?} in t, t0={t0} x0={x0} h={h}", T::NAME);
        s.nt(c[3] != 0.0);
        let y = Vector::new([T::of(t0), T::of(x0)]);
        let r = y.integrate_rk4(|y: &Vector<T, 2>| {
            let t = y[0].f();
            Vector::new([T::of(1.0), T::of(c[0] + t * (c[1] + t * (c[2] + t * c[3])))])
        }, T::of(h));
        let (t0, x0, h) = (T::of(t0).f(), T::of(x0).f(), T::of(h).f());
        let prim = |t: f64| t * (c[0] + t * (c[1] / 2.0 + t * (c[2] / 3.0 + t * c[3] / 4.0)));
        let want = x0 + prim(t0 + h) - prim(t0);
        let m = 1.0 + x0.abs() + (t0.abs() + h.abs()).powi(4) * 8.0 + 20.0;
        ensure!((r[1].f() - want).abs() <= 60.0 * T::E * m, "cubic dynamics: {} want {want}", r[1]);
        ensure!((r[0].f() - (t0 + h)).abs() <= 8.0 * T::E * m, "time component");
        // x' = a x: one step is the degree-4 Taylor polynomial of exp(a h)
        let a = s.sym(1.0);
        let r = Vector::new([T::of(x0)]).integrate_rk4(|y: &Vector<T, 1>| Vector::new([T::of(a * y[0].f())]), T::of(h));
        let z = a * h;
        let w = x0 * (1.0 + z * (1.0 + z / 2.0 * (1.0 + z / 3.0 * (1.0 + z / 4.0))));
        ensure!((r[0].f() - w).abs() <= 40.0 * T::E * (1.0 + z.abs().powi(4)) * (1.0 + x0.abs()), "linear dynamics: {} want {w}", r[0]);
        Ok(())
    }
    if s.bool() { go::<f32>(s) } else { go::<f64>(s) }
}

fn newton(s: &mut Src) -> R {
    // real-rooted polynomial with separated roots; start anywhere
    let n = s.range(1, 4);
    let mut roots: Vec<f64> = Vec::new();
    let mut x = s.f(-6.0, 2.0);
    for _ in 0..n { roots.push(x); x += 0.4 + 2.0 * s.unit(); }
    let lead = s.sgn() * s.logf(0.1, 10.0);
    let multiple = n >= 2 && s.chance(1, 6);
    if multiple { roots[1] = roots[0]; }
    let f = |x: f64| roots.iter().fold(lead, |a, r| a * (x - r));
    let df = |x: f64| (0..n).map(|k| roots.iter().enumerate().filter(|(i, _)| *i != k).fold(lead, |a, (_, r)| a * (x - r))).sum::<f64>();
    let mode = s.draw(2);
    // mode 0: start beyond the outermost root, where Newton converges monotonically
    let guess = match mode {
        0 => if s.bool() { roots[n - 1] + s.logf(1e-3, 20.0) } else { roots[0] - s.logf(1e-3, 20.0) },
        1 => { let k = s.range(0, n - 1); roots[k] + s.sym(0.01) }
        _ => s.f(-10.0, 12.0),
    };
    let tol = 10f64.powi(-(s.range(3, 11) as i32));
    let iters = *s.pick(&[200usize, 60, 5, 1, 0]);
    note!(s, "roots {roots:?} lead {lead} guess {guess} tol {tol:e} max {iters}");
    let calls = std::cell::Cell::new(0usize);
    let r = NewtonRaphson::new(tol, iters).solve(guess, |x| { calls.set(calls.get() + 1); f(x) }, df);
    ensure!(calls.get() <= iters, "function evaluated {} times with {iters} iterations allowed", calls.get());
    match r {
        Ok(x) => {
            // Laguerre: a degree-n polynomial has a root within n*|f/f'| of any point, and the last step was < tol
            let d = roots.iter().map(|r| (r - x).abs()).fold(f64::INFINITY, f64::min);
            ensure!(d <= (n as f64 + 1.0) * tol + 1e-12, "reported root {x} is {d:e} away from every root (tolerance {tol:e})");
            ensure!(iters > 0, "success with no iteration allowed");
            s.nt(true);
            s.label("found");
        }
        Err(_) => {
            s.label("error");
            // simple roots from the monotone region or the basin must be found within 200 iterations
            if mode <= 1 && iters == 200 && !multiple && df(guess) != 0.0 {
                return Err(Fail::new("root not found from inside the convergence region"));
            }
            s.nt(iters < 10);
        }
    }
    // vanishing derivative is an error, whatever the tolerance
    if s.chance(1, 4) {
        let k = 0.5 + s.unit();
        let r = NewtonRaphson::new(tol, 10).solve(guess, |x| (x - guess) * (x - guess) + k, |x| 2.0 * (x - guess));
        ensure!(r.is_err(), "zero derivative reported success {r:?}");
        s.label("zero derivative");
    }
    // f32
    if mode == 0 && !multiple && iters == 200 {
        let tol32 = (tol as f32).max(1e-3);
        let r = NewtonRaphson::new(tol32, 200).solve(guess as f32, |x| f(x as f64) as f32, |x| df(x as f64) as f32);
        match r {
            Ok(x) => { let d = roots.iter().map(|r| (r - x as f64).abs()).fold(f64::INFINITY, f64::min); ensure!(d <= (n as f64 + 1.0) * tol32 as f64 + 1e-4, "f32 root off by {d:e}"); }
            Err(e) => return Err(Fail::new(format!("f32 root not found: {e}"))),
        }
    }
    Ok(())
}

pub fn register(r: &mut Registry) {
    r.add("A01", "products_small", 60_000, "random shape up to 8 and both widths; non-trivial: both operands have a non-zero entry and shape is not 1x1x1", products_small);
    r.add("A01", "products_blocked", 12_000, "shapes around and beyond 8 and 16; same rule", products_large);
    r.add("A01", "elementwise", 40_000, "element-wise and vector operations; non-trivial: more than one element", elementwise);
    r.add("A01", "determinant", 80_000, "integer matrices (dense, sparse, triangular, anti-diagonal, singular) with exact Bareiss determinant; non-trivial: N > 1", squares);
    r.add("A01", "cross_flat", 40_000, "3-vectors; non-trivial: not parallel", cross3);
    r.add("A01", "tensors", 20_000, "rank 3/4 tensors and views at random indices", tensors);
    r.add("A01", "inverse3", 30_000, "3x3 matrices; non-trivial: well enough conditioned or refused", inverse3);
    r.add("A03", "lu", 120_000, "square systems with permuted-dominant, sparse, row-scaled and singular structure; non-trivial: cond<1e3 or singular", lu);
    r.add("A03", "inverse3", 60_000, "3x3 inverse", inverse3);
    r.add("A03", "singular integers", 40_000, "rank-deficient small integers; non-trivial: the dependent line is a combination of others", rank_any);
    r.add("A01", "singular integers", 10_000, "rank-deficient small integers; non-trivial: the dependent line is a combination of others", rank_any);
    r.add("A03", "cholesky", 100_000, "G G^T + shift, one third made indefinite; non-trivial: N>1 or indefinite", chol);
    r.add("A05", "euler_trapezoid", 60_000, "vectors and steps of both signs", euler_trap);
    r.add("A05", "euler_trapezoid_frames", 60_000, "frame-tagged vectors and Euler angles", euler_trap_frames);
    r.add("A05", "rk4_stages", 120_000, "random quadratic vector fields; stage states and result against the tableau", rk4_tableau);
    r.add("A05", "rk4_exactness", 120_000, "cubic-in-time dynamics and linear dynamics", rk4_exact);
    r.add("A05", "newton", 200_000, "real-rooted polynomials, starts in and out of the monotone region, small iteration limits; non-trivial: a root reported or a small limit", newton);
}
