//! A06: the numeric abstraction against the platform's functions, in the std and the no-std build.
use crate::engine::*;
use crate::{ensure, note};
use aether_core::real::real::RealCast;
use aether_core::real::Real;
use aether_core::utils::angle_conversion::{ToDegrees, ToRadians};

fn ulp64(x: f64) -> f64 {
    let a = x.abs();
    if !a.is_finite() { return 0.0 }
    (f64::from_bits(a.to_bits() + 1) - a).min(f64::MAX)
}
fn ulp32(x: f32) -> f64 {
    let a = x.abs();
    if !a.is_finite() { return 0.0 }
    let n = f32::from_bits(a.to_bits() + 1);
    if n.is_finite() { n as f64 - a as f64 } else { a as f64 * f32::EPSILON as f64 }
}
fn ok64(got: f64, want: f64, n: f64) -> bool {
    if want.is_nan() { return got.is_nan() }
    if got == want { return true }
    if want.is_infinite() { return got.is_infinite() && got.signum() == want.signum() || (got.abs() >= f64::MAX * (1.0 - n * f64::EPSILON) && got.signum() == want.signum()) }
    if got.is_infinite() { return want.abs() >= f64::MAX * (1.0 - n * f64::EPSILON) && got.signum() == want.signum() }
    (got - want).abs() <= n * ulp64(want)
}
/// `want` is the double-precision value
fn ok32(got: f32, want: f64, n: f64) -> bool {
    if want.is_nan() { return got.is_nan() }
    let w = want as f32;
    if got == w { return true }
    let big = f32::MAX as f64 * (1.0 - n * f32::EPSILON as f64);
    if got.is_infinite() || w.is_infinite() { return (got as f64).abs() >= big && want.abs() >= big && (got > 0.0) == (want > 0.0) }
    (got as f64 - want).abs() <= n * ulp32(w)
}

fn arg64(s: &mut Src) -> f64 {
    match s.draw(9) {
        0 => s.any_f64_bits(),
        1 => s.irange(-40, 40) as f64 / 2.0,
        2 => s.irange(-40, 40) as f64 * core::f64::consts::FRAC_PI_4,
        3 => { let k = s.irange(-8, 8) as f64 / 2.0; let e = s.logf(1e-300, 0.1); k + e * s.sgn() }
        4 => s.logf(1e-300, 1e300) * s.sgn(),
        5 => s.logf(1e-9, 1e9) * s.sgn(),
        6 => 1.0 + s.logf(1e-16, 0.5) * s.sgn(),
        7 => s.sym(750.0),
        8 => { // a tie or one step off a tie
            let k = s.irange(-1_000_000, 1_000_000) as f64 + 0.5;
            match s.draw(2) { 0 => k, 1 => f64::from_bits(k.to_bits() + 1), _ => f64::from_bits(k.to_bits() - 1) }
        }
        _ => s.sym(1.0),
    }
}
fn arg32(s: &mut Src) -> f32 {
    match s.draw(9) {
        0 => s.any_f32_bits(),
        1 => s.irange(-40, 40) as f32 / 2.0,
        2 => s.irange(-40, 40) as f32 * core::f32::consts::FRAC_PI_4,
        3 => { let k = s.irange(-8, 8) as f64 / 2.0; let e = s.logf(1e-40, 0.1); (k + e * s.sgn()) as f32 }
        4 => (s.logf(1e-38, 1e38) * s.sgn()) as f32,
        5 => (s.logf(1e-6, 1e6) * s.sgn()) as f32,
        6 => (1.0 + s.logf(1e-7, 0.5) * s.sgn()) as f32,
        7 => s.sym(110.0) as f32,
        8 => {
            let k = s.irange(-4_000_000, 4_000_000) as f32 + 0.5;
            match s.draw(2) { 0 => k, 1 => f32::from_bits(k.to_bits() + 1), _ => f32::from_bits(k.to_bits() - 1) }
        }
        _ => s.sym(1.0) as f32,
    }
}

fn unary64(s: &mut Src) -> R {
    let x = arg64(s);
    note!(s, "f64 {x:e} ({:#018x})", x.to_bits());
    s.nt(x.is_finite() && x != 0.0);
    s.label_if(!x.is_finite(), "special value");
    macro_rules! exact { ($($f:ident),*) => { $( {
        let (g, w) = (Real::$f(x), f64::$f(x));
        ensure!(g == w && (g != 0.0 || stringify!($f) == "fract" || g.is_sign_negative() == w.is_sign_negative()) || (g.is_nan() && w.is_nan()), "{}({x:e}) = {g:e}, want {w:e}", stringify!($f));
    } )* } }
    exact!(abs, signum, floor, ceil, round, trunc, fract, sqrt);
    macro_rules! near { ($($f:ident),*) => { $( {
        let (g, w) = (Real::$f(x), f64::$f(x));
        ensure!(ok64(g, w, 4.0), "{}({x:e}) = {g:e}, want {w:e}", stringify!($f));
    } )* } }
    near!(sin, cos, tan, asin, acos, atan, exp, exp2, ln, log2, log10);
    if x.abs() < f64::MAX / 256.0 && (x == 0.0 || x.abs() > 1e-290) {
        for (n, g, w) in [("Real::to_degrees", Real::to_degrees(x), x * (180.0 / core::f64::consts::PI)), ("Real::to_radians", Real::to_radians(x), x * (core::f64::consts::PI / 180.0)),
                          ("ToDegrees", ToDegrees::to_degrees(x), x * (180.0 / core::f64::consts::PI)), ("ToRadians", ToRadians::to_radians(x), x * (core::f64::consts::PI / 180.0))] {
            ensure!(ok64(g, w, 4.0), "{n}({x:e}) = {g:e}, want {w:e}");
        }
        let b = ToDegrees::to_degrees(ToRadians::to_radians(x));
        ensure!(ok64(b, x, 6.0), "degrees -> radians -> degrees of {x:e} gave {b:e}");
        let arr = ToRadians::to_radians([x, -x, 2.0 * x]);
        let ard = ToDegrees::to_degrees([[x], [-x]]);
        for (i, y) in [x, -x, 2.0 * x].into_iter().enumerate() { ensure!(arr[i] == ToRadians::to_radians(y), "array to_radians element {i}"); }
        ensure!(ard[0][0] == ToDegrees::to_degrees(x) && ard[1][0] == -ard[0][0], "nested array to_degrees");
    }
    let f = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    ensure!(f(RealCast::to_f64(x), x) && f(<f64 as RealCast>::from_f64(x), x), "f64 identity cast");
    ensure!({ let (a, b) = (RealCast::to_f32(x), x as f32); a == b || a.is_nan() && b.is_nan() }, "to_f32({x:e})");
    Ok(())
}
fn unary32(s: &mut Src) -> R {
    let x = arg32(s);
    let d = x as f64;
    note!(s, "f32 {x:e} ({:#010x})", x.to_bits());
    s.nt(x.is_finite() && x != 0.0);
    s.label_if(!x.is_finite(), "special value");
    macro_rules! exact { ($($f:ident),*) => { $( {
        let (g, w) = (Real::$f(x), f32::$f(x));
        ensure!(g == w && (g != 0.0 || stringify!($f) == "fract" || g.is_sign_negative() == w.is_sign_negative()) || (g.is_nan() && w.is_nan()), "{}({x:e}) = {g:e}, want {w:e}", stringify!($f));
    } )* } }
    exact!(abs, signum, floor, ceil, round, trunc, fract, sqrt);
    macro_rules! near { ($($f:ident),*) => { $( {
        let (g, w) = (Real::$f(x), f64::$f(d));
        ensure!(ok32(g, w, 4.0), "{}({x:e}f32) = {g:e}, want {w:e}", stringify!($f));
    } )* } }
    near!(sin, cos, tan, asin, acos, atan, exp, exp2, ln, log2, log10);
    if x.abs() < f32::MAX / 256.0 && (x == 0.0 || x.abs() > 1e-33) {
        for (n, g, w) in [("Real::to_degrees", Real::to_degrees(x), d * (180.0 / core::f64::consts::PI)), ("Real::to_radians", Real::to_radians(x), d * (core::f64::consts::PI / 180.0)),
                          ("ToDegrees", ToDegrees::to_degrees(x), d * (180.0 / core::f64::consts::PI)), ("ToRadians", ToRadians::to_radians(x), d * (core::f64::consts::PI / 180.0))] {
            ensure!(ok32(g, w, 4.0), "{n}({x:e}f32) = {g:e}, want {w:e}");
        }
        let b = ToDegrees::to_degrees(ToRadians::to_radians(x));
        ensure!(ok32(b, d, 6.0), "degrees -> radians -> degrees of {x:e} gave {b:e}");
        let arr = ToDegrees::to_degrees([x, -x]);
        ensure!(arr[0] == ToDegrees::to_degrees(x) && arr[1] == -arr[0], "array to_degrees");
    }
    let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    ensure!(same(RealCast::to_f64(x), d) && same(<f64 as RealCast>::from_f32(x), d) && same(RealCast::to_f32(x) as f64, d) && same(<f32 as RealCast>::from_f32(x) as f64, d), "f32 casts of {x:e}");
    let y = arg64(s);
    ensure!(same(<f32 as RealCast>::from_f64(y) as f64, (y as f32) as f64), "from_f64({y:e})");
    let u = s.draw(u32::MAX as u64) as u32;
    let z = s.draw(u64::MAX) as usize;
    ensure!(<f32 as RealCast>::from_u32(u) == u as f32 && <f64 as RealCast>::from_u32(u) == u as f64, "from_u32({u})");
    ensure!(<f32 as RealCast>::from_usize(z) == z as f32 && <f64 as RealCast>::from_usize(z) == z as f64, "from_usize({z})");
    Ok(())
}
fn binary64(s: &mut Src) -> R {
    let (x, y) = (arg64(s), arg64(s));
    note!(s, "f64 {x:e} , {y:e}");
    s.nt(x.is_finite() && y.is_finite());
    let g = Real::atan2(x, y);
    ensure!(ok64(g, f64::atan2(x, y), 4.0) && (g != 0.0 || g.is_sign_negative() == f64::atan2(x, y).is_sign_negative()), "atan2({x:e},{y:e}) = {g:e}, want {:e}", f64::atan2(x, y));
    let (lo, hi) = (Real::min(x, y), Real::max(x, y));
    let e = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    ensure!(e(lo, f64::min(x, y)) && e(hi, f64::max(x, y)), "min/max({x:e},{y:e}) = {lo:e}/{hi:e}");
    ensure!(e(Real::min(x, f64::NAN), x) && e(Real::max(f64::NAN, x), x), "min/max with NaN");
    let c = Real::copysign(x, y);
    ensure!(c.to_bits() == f64::copysign(x, y).to_bits() || c.is_nan() && x.is_nan(), "copysign({x:e},{y:e}) = {c:e}");
    let p = match s.draw(3) { 0 => s.irange(-20, 20) as f64, 1 => s.sym(3.0), 2 => s.irange(-9, 9) as f64 / 2.0, _ => y };
    let (g, w) = (Real::powf(x, p), f64::powf(x, p));
    // signalling NaNs make pow(NaN, 0) and pow(1, NaN) platform-dependent
    // bases next to one with exponents beyond 2^27 amplify the last bit of the logarithm
    let n = if p.abs() > 1e8 { 1e5 } else { 4.0 };
    ensure!(ok64(g, w, n) || x.is_nan() || p.is_nan(), "powf({x:e},{p:e}) = {g:e}, want {w:e}");
    let n = match s.draw(4) { 0 => s.irange(i32::MIN as i64, i32::MAX as i64) as i32, 1 => (1 << s.draw(30)) + s.irange(-2, 2) as i32, _ => s.irange(-40, 40) as i32 };
    let b = match s.draw(4) { 0 => *s.pick(&[1.0, -1.0, 0.0, -0.0, 2.0, -2.0, 0.5, -0.5]), 1 => (1.0 + s.logf(1e-12, 0.1) * s.sgn()) * s.sgn(), 2 => s.irange(-12, 12) as f64, _ => x };
    let (g, w) = (Real::powi(b, n), f64::powf(b, n as f64));
    ensure!(powi_ok(g, w, b, n, f64::EPSILON), "powi({b:e},{n}) = {g:e}, want {w:e}");
    s.label_if(n.unsigned_abs() > 1 << 24, "large integer power");
    Ok(())
}
/// repeated multiplication may lose |n| roundings, and overflow a little early when inverting; the
/// sign and exact cases are never free
fn powi_ok(g: f64, w: f64, b: f64, n: i32, eps: f64) -> bool {
    if w.is_nan() || b.is_nan() { return g.is_nan() || n == 0 }
    if b.abs() == 1.0 || n == 0 || n == 1 { return g == w }
    if g.is_nan() { return false }
    let neg = b.is_sign_negative() && n % 2 != 0;
    if g != 0.0 && w != 0.0 && (g < 0.0) != neg { return false }
    let tiny = if eps > 1e-10 { 1e-36 } else { 1e-305 };
    let huge = 1.0 / tiny;
    let tol = (n.unsigned_abs() as f64 * 2.0 + 8.0) * eps;
    if tol > 0.05 { return true }
    if w.abs() < tiny * 10.0 { return g.abs() <= tiny * 20.0 }
    if w.abs() > huge / 10.0 { return g.abs() >= huge / 20.0 }
    (g - w).abs() <= tol * w.abs()
}
fn binary32(s: &mut Src) -> R {
    let (x, y) = (arg32(s), arg32(s));
    note!(s, "f32 {x:e} , {y:e}");
    s.nt(x.is_finite() && y.is_finite());
    let (g, w) = (Real::atan2(x, y), f64::atan2(x as f64, y as f64));
    ensure!(ok32(g, w, 4.0), "atan2({x:e},{y:e}) = {g:e}, want {w:e}");
    let (lo, hi) = (Real::min(x, y), Real::max(x, y));
    let e = |a: f32, b: f32| a == b || (a.is_nan() && b.is_nan());
    ensure!(e(lo, f32::min(x, y)) && e(hi, f32::max(x, y)), "min/max({x:e},{y:e}) = {lo:e}/{hi:e}");
    ensure!(e(Real::min(x, f32::NAN), x) && e(Real::max(f32::NAN, x), x), "min/max with NaN");
    let c = Real::copysign(x, y);
    ensure!(c.to_bits() == f32::copysign(x, y).to_bits() || c.is_nan() && x.is_nan(), "copysign({x:e},{y:e}) = {c:e}");
    let p = match s.draw(3) { 0 => s.irange(-20, 20) as f32, 1 => s.sym(3.0) as f32, 2 => s.irange(-9, 9) as f32 / 2.0, _ => y };
    let (g, w) = (Real::powf(x, p), f64::powf(x as f64, p as f64));
    // the libm crate gives up on exponents beyond 2^27 unless the base is within 2^-21 of one: not this library's code
    ensure!(p.abs() > 1.3e8 || ok32(g, w, 4.0) || x.is_nan() || p.is_nan(), "powf({x:e},{p:e}) = {g:e}, want {w:e}");
    let n = match s.draw(4) { 0 => s.irange(i32::MIN as i64, i32::MAX as i64) as i32, 1 => (1 << s.draw(30)) + s.irange(-2, 2) as i32, _ => s.irange(-40, 40) as i32 };
    let b = match s.draw(4) { 0 => *s.pick(&[1.0f32, -1.0, 0.0, -0.0, 2.0, -2.0, 0.5, -0.5]), 1 => ((1.0 + s.logf(1e-6, 0.1) * s.sgn()) * s.sgn()) as f32, 2 => s.irange(-12, 12) as f32, _ => x };
    let (g, w) = (Real::powi(b, n), f64::powf(b as f64, n as f64));
    let w = if (w as f32).is_infinite() { w.signum() * f64::INFINITY } else { w };
    ensure!(powi_ok(g as f64, w, b as f64, n, f32::EPSILON as f64), "powi({b:e}f32,{n}) = {g:e}, want {w:e}");
    s.label_if(n.unsigned_abs() > 1 << 24, "large integer power");
    Ok(())
}
fn constants(s: &mut Src) -> R {
    let x = arg64(s);
    let y = arg64(s);
    note!(s, "compare {x:e} {y:e}");
    s.nt(true);
    macro_rules! c { ($t:ident) => { {
        ensure!(<$t as Real>::ZERO == 0.0 && <$t as Real>::ONE == 1.0, "ZERO/ONE");
        ensure!(<$t as Real>::PI == std::$t::consts::PI && <$t as Real>::FRAC_PI_2 == std::$t::consts::FRAC_PI_2, "PI");
        ensure!(<$t as Real>::EPSILON == $t::EPSILON && <$t as Real>::INFINITY == $t::INFINITY && <$t as Real>::NEG_INFINITY == $t::NEG_INFINITY, "EPSILON/INFINITY");
        let (a, b) = (x as $t, y as $t);
        fn lt<T: Real>(a: T, b: T) -> (bool, bool, bool) { (a < b, a == b, a > b) }
        ensure!(lt(a, b) == (a < b, a == b, a > b), "comparison");
        fn ar<T: Real>(a: T, b: T) -> [T; 5] { [a + b, a - b, a * b, a / b, -a] }
        for (p, q) in ar(a, b).into_iter().zip([a + b, a - b, a * b, a / b, -a]) { ensure!(p == q || (p.is_nan() && q.is_nan()), "generic arithmetic on {a:e} {b:e}"); } }
    } }
    c!(f32);
    c!(f64);
    Ok(())
}

/// half and quadruple precision (a build of their own: the types are optional in the library)
#[cfg(feature = "p_wide")]
mod wide {
    use super::*;

    fn ulp128(x: f128) -> f128 {
        let a = x.abs();
        if a < f128::MIN_POSITIVE { f128::MIN_POSITIVE * f128::EPSILON } else { a * f128::EPSILON }
    }
    fn ok128(g: f128, w: f128, n: f128) -> bool {
        if w.is_nan() { return g.is_nan() }
        if g == w { return true }
        if !w.is_finite() || !g.is_finite() { return g.abs() >= f128::MAX / 2.0 && w.abs() >= f128::MAX / 2.0 && (g > 0.0) == (w > 0.0) }
        (g - w).abs() <= n * ulp128(w)
    }
    /// `want` is the double-precision value
    fn ok16(g: f16, want: f64, n: f64) -> bool {
        if want.is_nan() { return g.is_nan() }
        let w = want as f16;
        if g == w { return true }
        if !w.is_finite() || !g.is_finite() { return (g as f64).abs() >= 65000.0 && want.abs() >= 65000.0 && (g > 0.0) == (want > 0.0) }
        let u = if want.abs() < 6.2e-5 { 6e-8 } else { want.abs() * 9.8e-4 };
        (g as f64 - want).abs() <= n * u
    }
    fn arg128(s: &mut Src) -> f128 {
        let x = arg64(s) as f128;
        // bits a double cannot hold
        let x = if s.chance(2, 3) { x * (1.0 + (s.sym(1.0) as f128) * 1e-17) } else { x };
        if s.chance(1, 6) { x * (s.logf(1e-300, 1e300) as f128) * (s.logf(1e-300, 1e300) as f128) } else { x }
    }
    fn arg16(s: &mut Src) -> f16 {
        match s.draw(4) {
            0 => f16::from_bits(s.draw(u16::MAX as u64) as u16),
            1 => s.irange(-40, 40) as f16 / 2.0,
            2 => (s.logf(1e-7, 6e4) * s.sgn()) as f16,
            3 => s.sym(12.0) as f16,
            _ => (s.irange(-40, 40) as f64 * core::f64::consts::FRAC_PI_4) as f16,
        }
    }
    fn close(g: f128, w: f64) -> bool { // agreement with the double-precision function: the right function was called
        if w.is_nan() { return g.is_nan() }
        if w.is_infinite() || w == 0.0 || w.abs() < 1e-300 { return true }
        ((g - w as f128).abs() <= (w.abs() as f128) * 1e-15) || (g as f64).is_infinite()
    }
    pub fn unary128(s: &mut Src) -> R {
        let x = arg128(s);
        let d = x as f64;
        note!(s, "f128 {d:e} ({:#034x})", x.to_bits());
        s.nt(x.is_finite() && x != 0.0);
        s.label_if(d as f128 != x, "not a double");
        macro_rules! exact { ($($f:ident),*) => { $( {
            let (g, w) = (Real::$f(x), f128::$f(x));
            ensure!(g == w || (g.is_nan() && w.is_nan()), "{}({d:e}f128) = {:e}, want {:e}", stringify!($f), g as f64, w as f64);
        } )* } }
        exact!(abs, signum, floor, ceil, round, trunc, fract, sqrt);
        macro_rules! near { ($($f:ident),*) => { $( {
            let (g, w) = (Real::$f(x), f128::$f(x));
            ensure!(ok128(g, w, 4.0), "{}({d:e}f128) = {:e}, want {:e}", stringify!($f), g as f64, w as f64);
            if x.abs() < 600.0 && x.abs() > 1e-200 && d as f128 == x { ensure!(close(g, f64::$f(d)), "{}({d:e}f128) = {:e}, in double precision {:e}", stringify!($f), g as f64, f64::$f(d)); }
        } )* } }
        near!(sin, cos, tan, asin, acos, atan, exp, exp2, ln, log2, log10);
        if x.abs() < 1e600 && (x == 0.0 || x.abs() > 1e-600) {
            let k: f128 = <f128 as Real>::PI / 180.0;
            ensure!(ok128(Real::to_degrees(x), x / k, 6.0) && ok128(Real::to_radians(x), x * k, 6.0), "degree conversion of {d:e}f128: {:e} {:e}", Real::to_degrees(x) as f64, Real::to_radians(x) as f64);
        }
        let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
        ensure!(same(RealCast::to_f64(x), d) && same(RealCast::to_f32(x) as f64, x as f32 as f64) && same(RealCast::to_f16(x) as f64, x as f16 as f64), "casts of {d:e}f128");
        ensure!(same(<f64 as RealCast>::from_f128(x), d) && same(<f32 as RealCast>::from_f128(x) as f64, x as f32 as f64) && same(<f16 as RealCast>::from_f128(x) as f64, x as f16 as f64), "from_f128({d:e})");
        let i = <f128 as RealCast>::from_f128(x);
        ensure!(i == x || x.is_nan() && i.is_nan(), "from_f128 identity");
        let i = RealCast::to_f128(x);
        ensure!(i == x || x.is_nan() && i.is_nan(), "to_f128 identity");
        let y = arg64(s);
        let i = <f128 as RealCast>::from_f64(y);
        ensure!(i == y as f128 || y.is_nan() && i.is_nan(), "from_f64({y:e}) as f128");
        let i = RealCast::to_f128(y);
        ensure!(i == y as f128 || y.is_nan() && i.is_nan(), "to_f128({y:e})");
        let z = s.draw(u64::MAX) as usize;
        ensure!(<f128 as RealCast>::from_usize(z) == z as f128 && <f128 as RealCast>::from_u32(z as u32) == z as u32 as f128, "from_usize({z}) as f128");
        // two arguments
        let y = arg128(s);
        let e = y as f64;
        ensure!(ok128(Real::atan2(x, y), f128::atan2(x, y), 4.0), "atan2({d:e},{e:e})f128");
        for (n, g, w) in [("min", Real::min(x, y), f128::min(x, y)), ("max", Real::max(x, y), f128::max(x, y)), ("copysign", Real::copysign(x, y), f128::copysign(x, y))] {
            ensure!(g == w || g.is_nan() && w.is_nan(), "{n}({d:e},{e:e})f128 = {:e}", g as f64);
        }
        let p = s.sym(6.0) as f128;
        ensure!(ok128(Real::powf(x, p), f128::powf(x, p), 8.0), "powf({d:e},{:e})f128", p as f64);
        let n = s.irange(-30, 30) as i32;
        let (g, w) = (Real::powi(x, n), f128::powi(x, n));
        ensure!(ok128(g, w, 80.0), "powi({d:e},{n})f128 = {:e}, want {:e}", g as f64, w as f64);
        Ok(())
    }
    pub fn unary16(s: &mut Src) -> R {
        let x = arg16(s);
        let d = x as f64;
        note!(s, "f16 {d:e} ({:#06x})", x.to_bits());
        s.nt(x.is_finite() && x != 0.0);
        macro_rules! exact { ($($f:ident),*) => { $( {
            let (g, w) = (Real::$f(x), f64::$f(d) as f16);
            ensure!(g == w || (g.is_nan() && w.is_nan()), "{}({d:e}f16) = {:e}, want {:e}", stringify!($f), g as f64, w as f64);
        } )* } }
        exact!(abs, signum, floor, ceil, round, trunc, fract, sqrt);
        macro_rules! near { ($($f:ident),*) => { $( {
            let (g, w) = (Real::$f(x), f64::$f(d));
            ensure!(ok16(g, w, 2.0), "{}({d:e}f16) = {:e}, want {w:e}", stringify!($f), g as f64);
        } )* } }
        near!(sin, cos, tan, asin, acos, atan, exp, exp2, ln, log2, log10);
        if x.is_finite() {
            let (g, w) = (Real::to_degrees(x), d.to_degrees());
            ensure!(ok16(g, w, 3.0), "to_degrees({d:e}f16) = {:e}", g as f64);
            let (g, w) = (Real::to_radians(x), d.to_radians());
            ensure!(ok16(g, w, 3.0), "to_radians({d:e}f16) = {:e}", g as f64);
        }
        let y = arg16(s);
        let e = y as f64;
        ensure!(ok16(Real::atan2(x, y), d.atan2(e), 2.0), "atan2({d:e},{e:e})f16");
        for (n, g, w) in [("min", Real::min(x, y), d.min(e)), ("max", Real::max(x, y), d.max(e)), ("copysign", Real::copysign(x, y), d.copysign(e))] {
            ensure!(g as f64 == w || g.is_nan() && w.is_nan(), "{n}({d:e},{e:e})f16 = {:e}", g as f64);
        }
        if !x.is_nan() {
            let p = s.sym(3.0) as f16;
            ensure!(ok16(Real::powf(x, p), d.powf(p as f64), 2.0), "powf({d:e},{:e})f16 = {:e}", p as f64, Real::powf(x, p) as f64);
            let n = s.irange(-12, 12) as i32;
            let w = d.powi(n);
            // intermediate products may leave the range
            if w != 0.0 && w.abs() < 6e4 && (1.0 / w).abs() < 6e4 && w.abs() > 7e-5 && (1.0 / w).abs() > 7e-5 {
                let g = Real::powi(x, n);
                ensure!(ok16(g, w, 14.0), "powi({d:e},{n})f16 = {:e}, want {w:e}", g as f64);
            }
        }
        let v = arg64(s);
        let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
        ensure!(same(<f16 as RealCast>::from_f64(v) as f64, v as f16 as f64) && same(RealCast::to_f16(v) as f64, v as f16 as f64), "{v:e} to f16");
        ensure!(same(RealCast::to_f64(x), d) && same(RealCast::to_f32(x) as f64, d) && same(RealCast::to_f128(x) as f64, d) && same(<f64 as RealCast>::from_f16(x), d) && same(<f32 as RealCast>::from_f16(x) as f64, d) && same(<f128 as RealCast>::from_f16(x) as f64, d), "casts of {d:e}f16");
        let w = arg32(s);
        ensure!(same(<f16 as RealCast>::from_f32(w) as f64, w as f16 as f64) && same(<f128 as RealCast>::from_f32(w) as f64, w as f64) && same(RealCast::to_f16(w) as f64, w as f16 as f64) && same(RealCast::to_f128(w) as f64, w as f64), "{w:e}f32 to f16 and f128");
        let z = s.draw(70_000) as usize;
        ensure!(same(<f16 as RealCast>::from_usize(z) as f64, z as f16 as f64) && same(<f16 as RealCast>::from_u32(z as u32) as f64, z as f16 as f64), "from_usize({z}) as f16");
        Ok(())
    }
    pub fn constants(s: &mut Src) -> R {
        let (x, y) = (arg64(s), arg64(s));
        note!(s, "compare {x:e} {y:e}");
        s.nt(true);
        macro_rules! c { ($t:ident) => { {
            ensure!(<$t as Real>::ZERO == 0.0 && <$t as Real>::ONE == 1.0, "ZERO/ONE of {}", stringify!($t));
            ensure!(<$t as Real>::PI == core::$t::consts::PI && <$t as Real>::FRAC_PI_2 == core::$t::consts::FRAC_PI_2, "PI of {}", stringify!($t));
            ensure!(<$t as Real>::EPSILON == $t::EPSILON && <$t as Real>::INFINITY == $t::INFINITY && <$t as Real>::NEG_INFINITY == $t::NEG_INFINITY, "EPSILON/INFINITY of {}", stringify!($t));
            let (a, b) = (x as $t, y as $t);
            fn ar<T: Real>(a: T, b: T) -> [T; 5] { [a + b, a - b, a * b, a / b, -a] }
            for (p, q) in ar(a, b).into_iter().zip([a + b, a - b, a * b, a / b, -a]) { ensure!(p == q || (p.is_nan() && q.is_nan()), "generic arithmetic on {} {x:e} {y:e}", stringify!($t)); }
            fn lt<T: Real>(a: T, b: T) -> (bool, bool, bool) { (a < b, a == b, a > b) }
            ensure!(lt(a, b) == (a < b, a == b, a > b), "comparison");
        } } }
        c!(f16);
        c!(f128);
        Ok(())
    }
}

pub fn register(r: &mut Registry) {
    #[cfg(feature = "p_wide")]
    {
        r.add("A06", "quadruple", 40_000, "every function, cast and comparison in quadruple precision; non-trivial: finite and non-zero", wide::unary128);
        r.add("A06", "half", 60_000, "every function, cast and comparison in half precision; non-trivial: finite and non-zero", wide::unary16);
        r.add("A06", "wide_constants", 5_000, "constants, comparison and generic arithmetic of both", wide::constants);
        return;
    }
    #[allow(unreachable_code)]
    {
    r.add("A06", "unary_f64", 150_000, "all one-argument functions on special, near-special, tie and log-uniform arguments; non-trivial: finite and non-zero", unary64);
    r.add("A06", "unary_f32", 150_000, "same, single precision", unary32);
    r.add("A06", "binary_f64", 150_000, "atan2, min, max, copysign, powf, powi; non-trivial: finite arguments", binary64);
    r.add("A06", "binary_f32", 150_000, "same, single precision", binary32);
    r.add("A06", "constants", 10_000, "constants, comparison and generic arithmetic", constants);
    }
}
