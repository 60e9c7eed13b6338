//! D01 unit conversions.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_units::si::si_base::*;
use aether_units::si::si_composites::*;
use aether_units::si::si_derived::*;
use aether_units::si::si_prefix::*;
use aether_units::si::{SiExt, SiPrefixExt};
use aether_units::Quantity;

fn val<T: Fl>(s: &mut Src, wide: f64) -> T {
    let v = match s.draw(4) {
        0 => s.irange(-20, 20) as f64,
        1 => s.sym(1000.0),
        2 => s.irange(-1_000_000, 1_000_000) as f64 / 1000.0,
        _ => { let m = s.logf(1.0 / wide, wide); s.sgn() * m }
    };
    T::of(v)
}
fn ok(what: &str, got: f64, want: f64, tol: f64, tiny: f64) -> R {
    ensure!(rel(got, want, tol) || (got - want).abs() <= tiny, "{what}: {got:e}, want {want:e} (tolerance {tol:e} relative)");
    Ok(())
}
/// one prefixed unit against its base unit: ratio, inverse, sums, scaling
macro_rules! unit {
    ($s:expr, $T:ty, $pf:expr, $pow:expr, $ctor:ident, $U:ident, $B:ident, $to_p:ident, $to_b:ident) => {{
        let s: &mut Src = $s;
        // keep the numbers and their products inside the exponent range of the type
        let x: $T = val(s, 1e6);
        let y: $T = val(s, 1e6);
        let k: $T = val(s, 1e3);
        let tol = 4.0 * <$T as Fl>::E;
        let tiny = 1e-36; // single-precision numbers lose digits below this
        let what = concat!(stringify!($U));
        note!(s, "{what} as {}: x={x:e} y={y:e} k={k:e}", <$T as Fl>::NAME);
        let r = 10f64.powi($pow);
        let qx: Quantity<$U, $T> = x.$ctor();
        let qy: Quantity<$U, $T> = Quantity::from(y);
        ensure!(qx.raw() == x && qy.raw() == y, "{what}: constructor changes the number");
        ok(&format!("{what}: {x:e} to {}", stringify!($B)), qx.$to_b().raw().f(), x.f() * r, tol, tiny)?;
        let bx: Quantity<$B, $T> = Quantity::new(x);
        ok(&format!("{x:e} {} to {what}", stringify!($B)), bx.$to_p().raw().f(), x.f() / r, tol, tiny)?;
        let far = (x.f() * r).abs() > 1e-36;
        if far || x.f() == 0.0 { ok(&format!("{what}: there and back of {x:e}"), qx.$to_b().$to_p().raw().f(), x.f(), 2.0 * tol, 0.0)?; }
        let back = (x.f() / r).abs() > 1e-36;
        if back || x.f() == 0.0 { ok(&format!("{what}: back and there of {x:e}"), bx.$to_p().$to_b().raw().f(), x.f(), 2.0 * tol, 0.0)?; }
        // sums agree with sums of the base values
        let m = x.f().abs().max(y.f().abs());
        let sum = (qx + qy).$to_b().raw().f();
        let want = qx.$to_b().raw().f() + qy.$to_b().raw().f();
        ensure!((sum - want).abs() <= 4.0 * tol * m * r + tiny, "{what}: ({x:e} + {y:e}) in base units {sum:e}, sum of base values {want:e}");
        let dif = (qx - qy).$to_b().raw().f();
        let want = (qx.$to_b() - qy.$to_b()).raw().f();
        ensure!((dif - want).abs() <= 4.0 * tol * m * r + tiny, "{what}: ({x:e} - {y:e}) in base units {dif:e}, difference of base values {want:e}");
        // scaling
        ok(&format!("{what}: {x:e} times {k:e}, in base units"), (qx * k).$to_b().raw().f(), x.f() * k.f() * r, 2.0 * tol, tiny)?;
        if k.f() != 0.0 { ok(&format!("{what}: {x:e} over {k:e}, in base units"), (qx / k).$to_b().raw().f(), x.f() / k.f() * r, 2.0 * tol, tiny)?; }
        ok(&format!("{what}: minus {x:e}, in base units"), (-qx).$to_b().raw().f(), -(x.f() * r), tol, tiny)?;
        Ok(())
    }};
}
macro_rules! plain {
    ($s:expr, $T:ty, $ctor:ident, $U:ident) => {{
        let s: &mut Src = $s;
        let (x, y, k): ($T, $T, $T) = (val(s, 1e6), val(s, 1e6), val(s, 1e3));
        note!(s, "{} as {}: x={x:e} y={y:e} k={k:e}", stringify!($U), <$T as Fl>::NAME);
        let q: Quantity<$U, $T> = x.$ctor();
        let p: Quantity<$U, $T> = y.$ctor();
        let u = stringify!($U);
        ensure!(q.raw() == x, "{u}: constructor changes the number");
        ensure!((q + p).raw() == x + y, "{u}: {x:e} + {y:e} is {:e}", (q + p).raw());
        ensure!((q - p).raw() == x - y, "{u}: {x:e} - {y:e} is {:e}", (q - p).raw());
        ensure!(rel((q * k).raw().f(), x.f() * k.f(), 4.0 * <$T as Fl>::E), "{u}: {x:e} * {k:e} is {:e}", (q * k).raw());
        if k.f() != 0.0 { ensure!(rel((q / k).raw().f(), x.f() / k.f(), 4.0 * <$T as Fl>::E), "{u}: {x:e} / {k:e} is {:e}", (q / k).raw()); }
        ensure!((-q).raw() == -x, "{u}: -{x:e} is {:e}", (-q).raw());
        if s.chance(1, 4) {
            let (x, k): ($T, $T) = (extreme(s), extreme(s));
            note!(s, "extreme x={x:e} k={k:e}");
            let q: Quantity<$U, $T> = x.$ctor();
            let (d, p) = (x.f() / k.f(), x.f() * k.f());
            if normal::<$T>(d) { ensure!(rel((q / k).raw().f(), d, 4.0 * <$T as Fl>::E), "{u}: {x:e} / {k:e} is {:e}", (q / k).raw()); }
            if normal::<$T>(p) { ensure!(rel((q * k).raw().f(), p, 4.0 * <$T as Fl>::E), "{u}: {x:e} * {k:e} is {:e}", (q * k).raw()); }
            s.label("extreme magnitudes");
        }
        ensure!((q == p) == (x == y), "{u}: equality of {x:e} and {y:e}");
        Ok(())
    }};
}
fn length_f32(s: &mut Src) -> R {
    type T = f32;
    s.nt(true);
    match s.draw(19) {
        0 => unit!(s, T, "yocto", -24, yoctometer, Yoctometer, Meter, to_yoctometer, to_meter),
        1 => unit!(s, T, "zepto", -21, zeptometer, Zeptometer, Meter, to_zeptometer, to_meter),
        2 => unit!(s, T, "atto", -18, attometer, Attometer, Meter, to_attometer, to_meter),
        3 => unit!(s, T, "femto", -15, femtometer, Femtometer, Meter, to_femtometer, to_meter),
        4 => unit!(s, T, "pico", -12, picometer, Picometer, Meter, to_picometer, to_meter),
        5 => unit!(s, T, "nano", -9, nanometer, Nanometer, Meter, to_nanometer, to_meter),
        6 => unit!(s, T, "micro", -6, micrometer, Micrometer, Meter, to_micrometer, to_meter),
        7 => unit!(s, T, "milli", -3, millimeter, Millimeter, Meter, to_millimeter, to_meter),
        8 => unit!(s, T, "centi", -2, centimeter, Centimeter, Meter, to_centimeter, to_meter),
        9 => unit!(s, T, "deci", -1, decimeter, Decimeter, Meter, to_decimeter, to_meter),
        10 => unit!(s, T, "deca", 1, decameter, Decameter, Meter, to_decameter, to_meter),
        11 => unit!(s, T, "hecto", 2, hectometer, Hectometer, Meter, to_hectometer, to_meter),
        12 => unit!(s, T, "kilo", 3, kilometer, Kilometer, Meter, to_kilometer, to_meter),
        13 => unit!(s, T, "mega", 6, megameter, Megameter, Meter, to_megameter, to_meter),
        14 => unit!(s, T, "giga", 9, gigameter, Gigameter, Meter, to_gigameter, to_meter),
        15 => unit!(s, T, "tera", 12, terameter, Terameter, Meter, to_terameter, to_meter),
        16 => unit!(s, T, "peta", 15, petameter, Petameter, Meter, to_petameter, to_meter),
        17 => unit!(s, T, "exa", 18, exameter, Exameter, Meter, to_exameter, to_meter),
        18 => unit!(s, T, "zetta", 21, zettameter, Zettameter, Meter, to_zettameter, to_meter),
        _ => unit!(s, T, "yotta", 24, yottameter, Yottameter, Meter, to_yottameter, to_meter),
    }
}
fn length_f64(s: &mut Src) -> R {
    type T = f64;
    s.nt(true);
    match s.draw(19) {
        0 => unit!(s, T, "yocto", -24, yoctometer, Yoctometer, Meter, to_yoctometer, to_meter),
        1 => unit!(s, T, "zepto", -21, zeptometer, Zeptometer, Meter, to_zeptometer, to_meter),
        2 => unit!(s, T, "atto", -18, attometer, Attometer, Meter, to_attometer, to_meter),
        3 => unit!(s, T, "femto", -15, femtometer, Femtometer, Meter, to_femtometer, to_meter),
        4 => unit!(s, T, "pico", -12, picometer, Picometer, Meter, to_picometer, to_meter),
        5 => unit!(s, T, "nano", -9, nanometer, Nanometer, Meter, to_nanometer, to_meter),
        6 => unit!(s, T, "micro", -6, micrometer, Micrometer, Meter, to_micrometer, to_meter),
        7 => unit!(s, T, "milli", -3, millimeter, Millimeter, Meter, to_millimeter, to_meter),
        8 => unit!(s, T, "centi", -2, centimeter, Centimeter, Meter, to_centimeter, to_meter),
        9 => unit!(s, T, "deci", -1, decimeter, Decimeter, Meter, to_decimeter, to_meter),
        10 => unit!(s, T, "deca", 1, decameter, Decameter, Meter, to_decameter, to_meter),
        11 => unit!(s, T, "hecto", 2, hectometer, Hectometer, Meter, to_hectometer, to_meter),
        12 => unit!(s, T, "kilo", 3, kilometer, Kilometer, Meter, to_kilometer, to_meter),
        13 => unit!(s, T, "mega", 6, megameter, Megameter, Meter, to_megameter, to_meter),
        14 => unit!(s, T, "giga", 9, gigameter, Gigameter, Meter, to_gigameter, to_meter),
        15 => unit!(s, T, "tera", 12, terameter, Terameter, Meter, to_terameter, to_meter),
        16 => unit!(s, T, "peta", 15, petameter, Petameter, Meter, to_petameter, to_meter),
        17 => unit!(s, T, "exa", 18, exameter, Exameter, Meter, to_exameter, to_meter),
        18 => unit!(s, T, "zetta", 21, zettameter, Zettameter, Meter, to_zettameter, to_meter),
        _ => unit!(s, T, "yotta", 24, yottameter, Yottameter, Meter, to_yottameter, to_meter),
    }
}
fn duration_f32(s: &mut Src) -> R {
    type T = f32;
    s.nt(true);
    match s.draw(19) {
        0 => unit!(s, T, "yocto", -24, yoctosecond, Yoctosecond, Second, to_yoctosecond, to_second),
        1 => unit!(s, T, "zepto", -21, zeptosecond, Zeptosecond, Second, to_zeptosecond, to_second),
        2 => unit!(s, T, "atto", -18, attosecond, Attosecond, Second, to_attosecond, to_second),
        3 => unit!(s, T, "femto", -15, femtosecond, Femtosecond, Second, to_femtosecond, to_second),
        4 => unit!(s, T, "pico", -12, picosecond, Picosecond, Second, to_picosecond, to_second),
        5 => unit!(s, T, "nano", -9, nanosecond, Nanosecond, Second, to_nanosecond, to_second),
        6 => unit!(s, T, "micro", -6, microsecond, Microsecond, Second, to_microsecond, to_second),
        7 => unit!(s, T, "milli", -3, millisecond, Millisecond, Second, to_millisecond, to_second),
        8 => unit!(s, T, "centi", -2, centisecond, Centisecond, Second, to_centisecond, to_second),
        9 => unit!(s, T, "deci", -1, decisecond, Decisecond, Second, to_decisecond, to_second),
        10 => unit!(s, T, "deca", 1, decasecond, Decasecond, Second, to_decasecond, to_second),
        11 => unit!(s, T, "hecto", 2, hectosecond, Hectosecond, Second, to_hectosecond, to_second),
        12 => unit!(s, T, "kilo", 3, kilosecond, Kilosecond, Second, to_kilosecond, to_second),
        13 => unit!(s, T, "mega", 6, megasecond, Megasecond, Second, to_megasecond, to_second),
        14 => unit!(s, T, "giga", 9, gigasecond, Gigasecond, Second, to_gigasecond, to_second),
        15 => unit!(s, T, "tera", 12, terasecond, Terasecond, Second, to_terasecond, to_second),
        16 => unit!(s, T, "peta", 15, petasecond, Petasecond, Second, to_petasecond, to_second),
        17 => unit!(s, T, "exa", 18, exasecond, Exasecond, Second, to_exasecond, to_second),
        18 => unit!(s, T, "zetta", 21, zettasecond, Zettasecond, Second, to_zettasecond, to_second),
        _ => unit!(s, T, "yotta", 24, yottasecond, Yottasecond, Second, to_yottasecond, to_second),
    }
}
fn duration_f64(s: &mut Src) -> R {
    type T = f64;
    s.nt(true);
    match s.draw(19) {
        0 => unit!(s, T, "yocto", -24, yoctosecond, Yoctosecond, Second, to_yoctosecond, to_second),
        1 => unit!(s, T, "zepto", -21, zeptosecond, Zeptosecond, Second, to_zeptosecond, to_second),
        2 => unit!(s, T, "atto", -18, attosecond, Attosecond, Second, to_attosecond, to_second),
        3 => unit!(s, T, "femto", -15, femtosecond, Femtosecond, Second, to_femtosecond, to_second),
        4 => unit!(s, T, "pico", -12, picosecond, Picosecond, Second, to_picosecond, to_second),
        5 => unit!(s, T, "nano", -9, nanosecond, Nanosecond, Second, to_nanosecond, to_second),
        6 => unit!(s, T, "micro", -6, microsecond, Microsecond, Second, to_microsecond, to_second),
        7 => unit!(s, T, "milli", -3, millisecond, Millisecond, Second, to_millisecond, to_second),
        8 => unit!(s, T, "centi", -2, centisecond, Centisecond, Second, to_centisecond, to_second),
        9 => unit!(s, T, "deci", -1, decisecond, Decisecond, Second, to_decisecond, to_second),
        10 => unit!(s, T, "deca", 1, decasecond, Decasecond, Second, to_decasecond, to_second),
        11 => unit!(s, T, "hecto", 2, hectosecond, Hectosecond, Second, to_hectosecond, to_second),
        12 => unit!(s, T, "kilo", 3, kilosecond, Kilosecond, Second, to_kilosecond, to_second),
        13 => unit!(s, T, "mega", 6, megasecond, Megasecond, Second, to_megasecond, to_second),
        14 => unit!(s, T, "giga", 9, gigasecond, Gigasecond, Second, to_gigasecond, to_second),
        15 => unit!(s, T, "tera", 12, terasecond, Terasecond, Second, to_terasecond, to_second),
        16 => unit!(s, T, "peta", 15, petasecond, Petasecond, Second, to_petasecond, to_second),
        17 => unit!(s, T, "exa", 18, exasecond, Exasecond, Second, to_exasecond, to_second),
        18 => unit!(s, T, "zetta", 21, zettasecond, Zettasecond, Second, to_zettasecond, to_second),
        _ => unit!(s, T, "yotta", 24, yottasecond, Yottasecond, Second, to_yottasecond, to_second),
    }
}
fn mass_f32(s: &mut Src) -> R {
    type T = f32;
    s.nt(true);
    match s.draw(18) {
        0 => unit!(s, T, "yocto", -27, yoctogram, Yoctogram, Kilogram, to_yoctogram, to_kilogram),
        1 => unit!(s, T, "zepto", -24, zeptogram, Zeptogram, Kilogram, to_zeptogram, to_kilogram),
        2 => unit!(s, T, "atto", -21, attogram, Attogram, Kilogram, to_attogram, to_kilogram),
        3 => unit!(s, T, "femto", -18, femtogram, Femtogram, Kilogram, to_femtogram, to_kilogram),
        4 => unit!(s, T, "pico", -15, picogram, Picogram, Kilogram, to_picogram, to_kilogram),
        5 => unit!(s, T, "nano", -12, nanogram, Nanogram, Kilogram, to_nanogram, to_kilogram),
        6 => unit!(s, T, "micro", -9, microgram, Microgram, Kilogram, to_microgram, to_kilogram),
        7 => unit!(s, T, "milli", -6, milligram, Milligram, Kilogram, to_milligram, to_kilogram),
        8 => unit!(s, T, "centi", -5, centigram, Centigram, Kilogram, to_centigram, to_kilogram),
        9 => unit!(s, T, "deci", -4, decigram, Decigram, Kilogram, to_decigram, to_kilogram),
        10 => unit!(s, T, "deca", -2, decagram, Decagram, Kilogram, to_decagram, to_kilogram),
        11 => unit!(s, T, "hecto", -1, hectogram, Hectogram, Kilogram, to_hectogram, to_kilogram),
        12 => unit!(s, T, "mega", 3, megagram, Megagram, Kilogram, to_megagram, to_kilogram),
        13 => unit!(s, T, "giga", 6, gigagram, Gigagram, Kilogram, to_gigagram, to_kilogram),
        14 => unit!(s, T, "tera", 9, teragram, Teragram, Kilogram, to_teragram, to_kilogram),
        15 => unit!(s, T, "peta", 12, petagram, Petagram, Kilogram, to_petagram, to_kilogram),
        16 => unit!(s, T, "exa", 15, exagram, Exagram, Kilogram, to_exagram, to_kilogram),
        17 => unit!(s, T, "zetta", 18, zettagram, Zettagram, Kilogram, to_zettagram, to_kilogram),
        _ => unit!(s, T, "yotta", 21, yottagram, Yottagram, Kilogram, to_yottagram, to_kilogram),
    }
}
fn mass_f64(s: &mut Src) -> R {
    type T = f64;
    s.nt(true);
    match s.draw(18) {
        0 => unit!(s, T, "yocto", -27, yoctogram, Yoctogram, Kilogram, to_yoctogram, to_kilogram),
        1 => unit!(s, T, "zepto", -24, zeptogram, Zeptogram, Kilogram, to_zeptogram, to_kilogram),
        2 => unit!(s, T, "atto", -21, attogram, Attogram, Kilogram, to_attogram, to_kilogram),
        3 => unit!(s, T, "femto", -18, femtogram, Femtogram, Kilogram, to_femtogram, to_kilogram),
        4 => unit!(s, T, "pico", -15, picogram, Picogram, Kilogram, to_picogram, to_kilogram),
        5 => unit!(s, T, "nano", -12, nanogram, Nanogram, Kilogram, to_nanogram, to_kilogram),
        6 => unit!(s, T, "micro", -9, microgram, Microgram, Kilogram, to_microgram, to_kilogram),
        7 => unit!(s, T, "milli", -6, milligram, Milligram, Kilogram, to_milligram, to_kilogram),
        8 => unit!(s, T, "centi", -5, centigram, Centigram, Kilogram, to_centigram, to_kilogram),
        9 => unit!(s, T, "deci", -4, decigram, Decigram, Kilogram, to_decigram, to_kilogram),
        10 => unit!(s, T, "deca", -2, decagram, Decagram, Kilogram, to_decagram, to_kilogram),
        11 => unit!(s, T, "hecto", -1, hectogram, Hectogram, Kilogram, to_hectogram, to_kilogram),
        12 => unit!(s, T, "mega", 3, megagram, Megagram, Kilogram, to_megagram, to_kilogram),
        13 => unit!(s, T, "giga", 6, gigagram, Gigagram, Kilogram, to_gigagram, to_kilogram),
        14 => unit!(s, T, "tera", 9, teragram, Teragram, Kilogram, to_teragram, to_kilogram),
        15 => unit!(s, T, "peta", 12, petagram, Petagram, Kilogram, to_petagram, to_kilogram),
        16 => unit!(s, T, "exa", 15, exagram, Exagram, Kilogram, to_exagram, to_kilogram),
        17 => unit!(s, T, "zetta", 18, zettagram, Zettagram, Kilogram, to_zettagram, to_kilogram),
        _ => unit!(s, T, "yotta", 21, yottagram, Yottagram, Kilogram, to_yottagram, to_kilogram),
    }
}
fn plain_f32(s: &mut Src) -> R {
    type T = f32;
    s.nt(true);
    match s.draw(16) {
        0 => plain!(s, T, m, Meter),
        1 => plain!(s, T, kg, Kilogram),
        2 => plain!(s, T, s, Second),
        3 => plain!(s, T, A, Ampere),
        4 => plain!(s, T, K, Kelvin),
        5 => plain!(s, T, mol, Mole),
        6 => plain!(s, T, cd, Candela),
        7 => plain!(s, T, Hz, Hertz),
        8 => plain!(s, T, N, Newton),
        9 => plain!(s, T, Pa, Pascal),
        10 => plain!(s, T, J, Joule),
        11 => plain!(s, T, W, Watt),
        12 => plain!(s, T, rad, Radian),
        13 => plain!(s, T, m_per_s, MeterPerSecond),
        14 => plain!(s, T, m_per_s2, MeterPerSecondSquared),
        15 => plain!(s, T, rad_per_s, RadianPerSecond),
        _ => plain!(s, T, rad_per_s2, RadianPerSecondSquared),
    }
}
fn plain_f64(s: &mut Src) -> R {
    type T = f64;
    s.nt(true);
    match s.draw(16) {
        0 => plain!(s, T, m, Meter),
        1 => plain!(s, T, kg, Kilogram),
        2 => plain!(s, T, s, Second),
        3 => plain!(s, T, A, Ampere),
        4 => plain!(s, T, K, Kelvin),
        5 => plain!(s, T, mol, Mole),
        6 => plain!(s, T, cd, Candela),
        7 => plain!(s, T, Hz, Hertz),
        8 => plain!(s, T, N, Newton),
        9 => plain!(s, T, Pa, Pascal),
        10 => plain!(s, T, J, Joule),
        11 => plain!(s, T, W, Watt),
        12 => plain!(s, T, rad, Radian),
        13 => plain!(s, T, m_per_s, MeterPerSecond),
        14 => plain!(s, T, m_per_s2, MeterPerSecondSquared),
        15 => plain!(s, T, rad_per_s, RadianPerSecond),
        _ => plain!(s, T, rad_per_s2, RadianPerSecondSquared),
    }
}

/// metres through two prefixes: A -> base -> B multiplies by the quotient of the ratios
fn chain(s: &mut Src) -> R {
    macro_rules! tos { ($q:expr, $i:expr, [$($to:ident $e:expr),*]) => {{ let mut n = 0; let mut r = (f64::NAN, 0i32); $( if n == $i { r = ($q.$to().raw(), $e); } n += 1; )* let _ = n; r }} }
    macro_rules! from { ($x:expr, $i:expr, $tb:ident, [$($c:ident $e:expr),*]) => {{ let mut n = 0; let mut r = (Quantity::new(f64::NAN), 0i32); $( if n == $i { r = ($x.$c().$tb(), $e); } n += 1; )* let _ = n; r }} }
    let x: f64 = val(s, 1e6);
    let (i, j) = (s.range(0, 19), s.range(0, 19));
    s.nt(i != j);
    let (got, ea, eb, what) = match s.draw(2) {
        0 => { let (q, ea) = from!(x, i, to_meter, [yoctometer -24, zeptometer -21, attometer -18, femtometer -15, picometer -12, nanometer -9, micrometer -6, millimeter -3, centimeter -2, decimeter -1, decameter 1, hectometer 2, kilometer 3, megameter 6, gigameter 9, terameter 12, petameter 15, exameter 18, zettameter 21, yottameter 24]); let (v, eb) = tos!(q, j, [to_yoctometer -24, to_zeptometer -21, to_attometer -18, to_femtometer -15, to_picometer -12, to_nanometer -9, to_micrometer -6, to_millimeter -3, to_centimeter -2, to_decimeter -1, to_decameter 1, to_hectometer 2, to_kilometer 3, to_megameter 6, to_gigameter 9, to_terameter 12, to_petameter 15, to_exameter 18, to_zettameter 21, to_yottameter 24]); (v, ea, eb, "length") }
        1 => { let (q, ea) = from!(x, i, to_second, [yoctosecond -24, zeptosecond -21, attosecond -18, femtosecond -15, picosecond -12, nanosecond -9, microsecond -6, millisecond -3, centisecond -2, decisecond -1, decasecond 1, hectosecond 2, kilosecond 3, megasecond 6, gigasecond 9, terasecond 12, petasecond 15, exasecond 18, zettasecond 21, yottasecond 24]); let (v, eb) = tos!(q, j, [to_yoctosecond -24, to_zeptosecond -21, to_attosecond -18, to_femtosecond -15, to_picosecond -12, to_nanosecond -9, to_microsecond -6, to_millisecond -3, to_centisecond -2, to_decisecond -1, to_decasecond 1, to_hectosecond 2, to_kilosecond 3, to_megasecond 6, to_gigasecond 9, to_terasecond 12, to_petasecond 15, to_exasecond 18, to_zettasecond 21, to_yottasecond 24]); (v, ea, eb, "time") }
        _ => { let (i, j) = (i.min(18), j.min(18)); let (q, ea) = from!(x, i, to_kilogram, [yoctogram -27, zeptogram -24, attogram -21, femtogram -18, picogram -15, nanogram -12, microgram -9, milligram -6, centigram -5, decigram -4, decagram -2, hectogram -1, megagram 3, gigagram 6, teragram 9, petagram 12, exagram 15, zettagram 18, yottagram 21]); let (v, eb) = tos!(q, j, [to_yoctogram -27, to_zeptogram -24, to_attogram -21, to_femtogram -18, to_picogram -15, to_nanogram -12, to_microgram -9, to_milligram -6, to_centigram -5, to_decigram -4, to_decagram -2, to_hectogram -1, to_megagram 3, to_gigagram 6, to_teragram 9, to_petagram 12, to_exagram 15, to_zettagram 18, to_yottagram 21]); (v, ea, eb, "mass") }
    };
    note!(s, "{what}: {x:e} from prefix 10^{ea} to prefix 10^{eb}");
    ok(&format!("{what}: {x:e} from 10^{ea} to 10^{eb} units"), got, x * 10f64.powi(ea - eb), 16.0 * f64::EPSILON, 0.0)
}
/// the prefix factors themselves (published in single precision)
fn prefixes(s: &mut Src) -> R {
    let t: [(&str, f32, i32); 20] = [
        ("YOCTO", YOCTO, -24), ("ZEPTO", ZEPTO, -21), ("ATTO", ATTO, -18), ("FEMTO", FEMTO, -15), ("PICO", PICO, -12), ("NANO", NANO, -9), ("MICRO", MICRO, -6),
        ("MILLI", MILLI, -3), ("CENTI", CENTI, -2), ("DECI", DECI, -1), ("DECA", DECA, 1), ("HECTO", HECTO, 2), ("KILO", KILO, 3), ("MEGA", MEGA, 6),
        ("GIGA", GIGA, 9), ("TERA", TERA, 12), ("PETA", PETA, 15), ("EXA", EXA, 18), ("ZETTA", ZETTA, 21), ("YOTTA", YOTTA, 24),
    ];
    let (a, b) = (t[s.draw(19) as usize], t[s.draw(19) as usize]);
    let x: f32 = val(s, 1e3);
    note!(s, "{x:e} {}{}", a.0, b.0);
    s.nt(x != 0.0);
    // 10^n is spelled out in decimal so that the reference does not depend on powi
    let p = |n: i32| -> f64 { format!("1e{n}").parse().unwrap() };
    let y = x as f64 * a.1 as f64 * b.1 as f64;
    ok(&format!("{x:e} times {} times {}", a.0, b.0), y, x as f64 * p(a.2 + b.2), 1.3e-7, 0.0)
}
pub fn register(r: &mut Registry) {
    r.add("D01", "prefixes", 10_000, "a number scaled by two of the prefix factors; non-trivial when it is not zero", prefixes);
    let rule = "number (integers, decimals, log-uniform magnitudes) in a uniformly chosen prefixed unit, against exact powers of ten; every case counts";
    r.add("D01", "length_f32", 40_000, rule, length_f32);
    r.add("D01", "length_f64", 40_000, rule, length_f64);
    r.add("D01", "duration_f32", 40_000, rule, duration_f32);
    r.add("D01", "duration_f64", 40_000, rule, duration_f64);
    r.add("D01", "mass_f32", 40_000, rule, mass_f32);
    r.add("D01", "mass_f64", 40_000, rule, mass_f64);
    r.add("D01", "plain_f32", 10_000, "number in a uniformly chosen SI unit: constructor, sum, difference, scaling, sign, equality; every case counts", plain_f32);
    r.add("D01", "plain_f64", 10_000, "number in a uniformly chosen SI unit: constructor, sum, difference, scaling, sign, equality; every case counts", plain_f64);
    r.add("D01", "chain", 40_000, "number converted from one prefix to another through the base unit; non-trivial when the prefixes differ", chain);
}
