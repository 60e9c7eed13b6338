//! E05 published constants: every constant stands for the quantity it names, and they agree with one another.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_models::celestial::constants as cc;
use aether_models::lunar::constants as lc;
use aether_models::lunar::moon::Moon;
use aether_models::terrestrial::earth::Earth;
use aether_models::terrestrial::iers::constants as ic;
use aether_models::terrestrial::wgs84::{constants as w, transforms as wt};
use std::f64::consts::{PI, TAU};

/// |a-b| within `t` of the larger
fn same(a: f64, b: f64, t: f64) -> bool { a.is_finite() && (a - b).abs() <= t * a.abs().max(b.abs()) }

// ------------------------------------------------------------------ angles
fn angles(s: &mut Src) -> R {
    // one angle written in two of the units the factors convert between
    let unit = |i: u64| -> (f64, &'static str) {
        match i {
            0 => (1.0, "degrees"),
            1 => (PI / 180.0, "radians"),
            2 => (60.0, "arcminutes"),
            3 => (3600.0, "arcseconds"),
            4 => (3.6e6, "milliarcseconds"),
            5 => (3.6e9, "microarcseconds"),
            6 => (240.0, "seconds of time"),
            _ => (1.0 / 360.0, "turns"),
        }
    };
    // conversions the constants name: (from, to, factor)
    let table = [
        (0, 1, cc::DEGREES_TO_RADIANS), (1, 0, cc::RADIANS_TO_DEGREES), (0, 2, cc::DEGREES_TO_ARCMINUTES), (2, 0, cc::ARCMINUTES_TO_DEGREES),
        (0, 3, cc::DEGREES_TO_ARCSECONDS), (3, 0, cc::ARCSECONDS_TO_DEGREES), (0, 4, cc::DEGREES_TO_MILLIARCSECONDS), (4, 0, cc::MILLIARCSECONDS_TO_DEGREES),
        (0, 5, cc::DEGREES_TO_MICROARCSECONDS), (5, 0, cc::MICROARCSECONDS_TO_DEGREES), (1, 0, cc::IAU_DR2D), (0, 1, cc::IAU_DD2R), (1, 3, cc::IAU_DR2AS),
        (3, 1, cc::IAU_DAS2R), (6, 1, cc::IAU_DS2R), (4, 1, cc::IAU_DMAS2R), (7, 3, cc::IAU_TURNAS), (7, 1, cc::IAU_D2PI),
    ];
    // a walk over the units by the published factors ends where the direct conversion ends
    let deg = s.sgn() * s.logf(1e-9, 1e5);
    let n = s.irange(1, 12) as usize;
    let mut at = s.draw(7);
    let start = deg * unit(at).0;
    let mut v = start;
    let mut path = vec![unit(at).1];
    for _ in 0..n {
        let out: Vec<_> = table.iter().filter(|t| t.0 == at).collect();
        if out.is_empty() { break; }
        let t = out[s.draw(out.len() as u64 - 1) as usize];
        v *= t.2;
        at = t.1;
        path.push(unit(at).1);
    }
    note!(s, "{start} {path:?}");
    s.nt(path.len() > 1);
    let want = deg * unit(at).0;
    ensure!(same(v, want, 1e-15 * (path.len() as f64 + 3.0)), "{start} carried through {path:?} is {v}, expected {want}");
    ensure!(same(cc::IAU_DPI * 2.0, cc::IAU_D2PI, 1e-16) && cc::IAU_DPI == PI, "pi {} and 2 pi {}", cc::IAU_DPI, cc::IAU_D2PI);
    Ok(())
}

// ------------------------------------------------------------------ time and light
fn epochs(s: &mut Src) -> R {
    let y = s.f(-5000.0, 5000.0);
    note!(s, "{y} Julian years");
    s.nt(y != 0.0);
    let d = y * 365.25;
    ensure!(same(y * cc::IAU_DJY, d, 4e-16), "{y} years of {} days", cc::IAU_DJY);
    ensure!(same(y / 100.0 * cc::IAU_DJC, d, 1e-15), "{y} years in centuries of {} days", cc::IAU_DJC);
    ensure!(same(y / 1000.0 * cc::IAU_DJM, d, 1e-15), "{y} years in millennia of {} days", cc::IAU_DJM);
    ensure!(same(d * cc::IAU_DAYSEC, d * 86400.0, 1e-15), "day of {} s", cc::IAU_DAYSEC);
    ensure!(same(y * cc::IAU_DTY, y * 365.242198781, 1e-15), "tropical year {}", cc::IAU_DTY);
    // Julian date and its modified form name the same instant
    let jd = 2451545.0 + d;
    ensure!(same(jd - cc::IAU_DJM0, 51544.5 + d, 1e-15 + 1e-9 / (51544.5 + d).abs().max(1.0)), "JD {jd} as MJD {}", jd - cc::IAU_DJM0);
    ensure!(cc::IAU_DJ00 == 2451545.0 && cc::IAU_DJM00 == 51544.5 && cc::IAU_DJ00 - cc::IAU_DJM0 == cc::IAU_DJM00, "J2000.0 is JD {} and MJD {}", cc::IAU_DJ00, cc::IAU_DJM00);
    // 1977 January 1.0 is 23 years of 365 days and five leap days before 2000 January 1.0
    ensure!(cc::IAU_DJM77 == cc::IAU_DJM00 - 0.5 - (23.0 * 365.0 + 5.0), "1977 is MJD {}", cc::IAU_DJM77);
    ensure!(cc::IAU_TTMTAI == 32.184, "TT-TAI {}", cc::IAU_TTMTAI);
    // light
    let au = s.logf(1e-6, 1e6);
    ensure!(same(au * cc::IAU_DAU, au * 149_597_870_700.0, 1e-15) && ic::astronomical_unit == cc::IAU_DAU, "astronomical unit {} {}", cc::IAU_DAU, ic::astronomical_unit);
    ensure!(cc::IAU_CMPS == 299_792_458.0 && ic::speed_of_light == cc::IAU_CMPS && w::c == cc::IAU_CMPS, "speed of light {} {} {}", cc::IAU_CMPS, ic::speed_of_light, w::c);
    ensure!(same(au * cc::IAU_AULT * cc::IAU_CMPS, au * cc::IAU_DAU, 1e-15), "light crosses {au} au in {} s", au * cc::IAU_AULT);
    ensure!(same(au / cc::IAU_DC * cc::IAU_DAYSEC, au * cc::IAU_AULT, 1e-15), "light crosses {au} au in {} days", au / cc::IAU_DC);
    ensure!(same(cc::IAU_SRS * cc::IAU_DAU * cc::IAU_CMPS * cc::IAU_CMPS, 2.0 * 1.32712440041e20, 1e-11), "Schwarzschild radius of the Sun {} au", cc::IAU_SRS);
    // relativistic time scales run at rates that agree
    let t = s.logf(1.0, 1e12);
    ensure!(cc::IAU_ELG == ic::l_g && cc::IAU_ELB == ic::l_b && cc::IAU_TDB0 == ic::tdb_0, "L_G {} {} L_B {} {} TDB0 {} {}", cc::IAU_ELG, ic::l_g, cc::IAU_ELB, ic::l_b, cc::IAU_TDB0, ic::tdb_0);
    ensure!(ic::l_g == 6.969290134e-10 && ic::tdb_0 == -6.55e-5, "L_G {} TDB0 {}", ic::l_g, ic::tdb_0);
    ensure!(same(t * (1.0 - ic::l_b), t * (1.0 - ic::l_c) * (1.0 - ic::l_g), 1e-15) && same(ic::l_b, ic::l_c + ic::l_g - ic::l_c * ic::l_g, 1e-9), "(1-L_B) {} is not (1-L_C)(1-L_G)", ic::l_b);
    // the Gaussian constant is the Sun's attraction in astronomical units per day
    let k = ic::gaussian_gravitational_constant;
    ensure!(same(k * k * ic::astronomical_unit.powi(3) / 86400f64.powi(2), ic::heliocentric_gravitational_constant, 1e-7), "Gaussian constant {k} against GM of the Sun {}", ic::heliocentric_gravitational_constant);
    Ok(())
}
// ------------------------------------------------------------------ the ellipsoid
fn ellipsoid(s: &mut Src) -> R {
    // a point of the meridian ellipse by its parametric angle
    let th = s.angle(PI);
    note!(s, "parametric angle {th}");
    s.nt(true);
    let (st, ct) = th.sin_cos();
    let (x, z) = (w::a * ct, w::b * st);
    ensure!(w::a == 6378137.0, "semi-major axis {}", w::a);
    // its distances from the two foci add up to the major axis
    let foci = (x - w::E).hypot(z) + (x + w::E).hypot(z);
    ensure!(same(foci, 2.0 * w::a, 5e-11), "distances from the foci at {th}: {foci}");
    // the point satisfies the equation written with each of the published shape parameters
    let eq = |name: &str, b2: f64, t: f64| -> R {
        let v = x * x / (w::a * w::a) + z * z / b2;
        ensure!((v - 1.0).abs() <= t, "point at {th} is off the ellipsoid given by {name}: {v}");
        Ok(())
    };
    let a2 = w::a * w::a;
    eq("flattening", a2 * (1.0 - w::f).powi(2), 1e-10)?;
    eq("first eccentricity", a2 * (1.0 - w::e * w::e), 1e-10)?;
    eq("first eccentricity squared", a2 * (1.0 - w::e2), 1e-10)?;
    eq("second eccentricity", a2 / (1.0 + w::e_prime * w::e_prime), 1e-10)?;
    eq("second eccentricity squared", a2 / (1.0 + w::e_prime_squared), 1e-10)?;
    eq("axis ratio", a2 * w::AR * w::AR, 1e-10)?;
    eq("linear eccentricity", a2 - w::E * w::E, 1e-10)?;
    eq("polar radius of curvature", (a2 / w::R_p).powi(2), 1e-10)?;
    // the digits themselves, which the equation cannot see near the equator
    for (n, got, want, t) in [
        ("f", w::f, 1.0 / 298.257223563, 2e-13), ("e2", w::e2, w::f * (2.0 - w::f), 2e-12), ("e", w::e * w::e, w::f * (2.0 - w::f), 2e-12),
        ("e'2", w::e_prime_squared, w::e2 / (1.0 - w::e2), 2e-12), ("e'", w::e_prime * w::e_prime, w::e_prime_squared, 2e-12), ("b", w::b, w::a * (1.0 - w::f), 1e-11),
        ("E", w::E, w::a * w::e, 1e-12), ("R_p", w::R_p, w::a * w::a / w::b, 2e-11), ("AR", w::AR, 1.0 - w::f, 2e-12),
        ("R_1", w::R_1, (2.0 * w::a + w::b) / 3.0, 1e-11), ("R_3", w::R_3, (w::a * w::a * w::b).cbrt(), 1e-10),
        ("R_2", w::R_2, (w::a * w::a / 2.0 * (1.0 + (1.0 - w::e2) / w::e * w::e.atanh())).sqrt(), 3e-11),
    ] { ensure!(same(got, want, t), "{n} is {got}, the other parameters give {want}"); }
    // the shape the crate's geodetic conversion is built on agrees at that point
    let n = w::a / (1.0 - w::e2 * st * st).sqrt();
    let lat: f64 = wt::ecef_to_geocentric(n * ct.abs(), 0.0, n * (1.0 - w::e2) * st)[0];
    ensure!((lat - st.atan2(ct.abs())).abs() < 1e-9, "latitude of the surface point {lat}, expected {}", st.atan2(ct.abs()));
    Ok(())
}

// ------------------------------------------------------------------ gravity and rotation
fn gravity(s: &mut Src) -> R {
    let phi = s.angle(PI / 2.0);
    note!(s, "latitude {phi}");
    s.nt(true);
    let s2 = phi.sin().powi(2);
    // gravity on the ellipsoid from the level-ellipsoid theory, from GM, w, a, b alone
    let ep = w::E / w::b;
    let at = ep.atan();
    let q0 = 0.5 * ((1.0 + 3.0 / (ep * ep)) * at - 3.0 / ep);
    let q0p = 3.0 * (1.0 + 1.0 / (ep * ep)) * (1.0 - at / ep) - 1.0;
    let m = w::w * w::w * w::a * w::a * w::b / w::GM;
    let ge = w::GM / (w::a * w::b) * (1.0 - m - m / 6.0 * ep * q0p / q0);
    let gp = w::GM / (w::a * w::a) * (1.0 + m / 3.0 * ep * q0p / q0);
    let g0 = (w::a * ge * phi.cos().powi(2) + w::b * gp * s2) / (w::a * w::a * phi.cos().powi(2) + w::b * w::b * s2).sqrt();
    let gk = w::g_e * (1.0 + w::k * s2) / (1.0 - w::e2 * s2).sqrt();
    ensure!(same(g0, gk, 1e-9), "gravity at latitude {phi} by the published formula {gk}, from the defining parameters {g0}");
    let gab = (w::a * w::g_e * phi.cos().powi(2) + w::b * w::g_p * s2) / (w::a * w::a * phi.cos().powi(2) + w::b * w::b * s2).sqrt();
    ensure!(same(gab, gk, 1e-10), "gravity at latitude {phi} from its equatorial and polar values {gab}, by k {gk}");
    ensure!(same(w::m, m, 1e-11), "m is {} the parameters give {m}", w::m);
    ensure!(same(w::k, w::b * w::g_p / (w::a * w::g_e) - 1.0, 2e-8), "k {}", w::k);
    ensure!(same(w::g_e, ge, 2e-10) && same(w::g_p, gp, 2e-10), "equatorial gravity {} polar {} but the parameters give {ge} {gp}", w::g_e, w::g_p);
    ensure!(same(w::U_0, w::GM / w::E * at + (w::w * w::a).powi(2) / 3.0, 1e-11), "normal potential {}", w::U_0);
    let j2 = w::e2 / 3.0 * (1.0 - 2.0 / 15.0 * m * ep / q0);
    ensure!(same(w::J2geo, j2, 1e-7) && same(w::J2geo, -5f64.sqrt() * w::c20geo, 1e-10), "J2 {} C20 {}, the parameters give {j2}", w::J2geo, w::c20geo);
    // the mean over the ellipsoid, by quadrature
    let (mut area, mut sum) = (0.0, 0.0);
    for (t, wt) in gauss_legendre(24) {
        let p = t * PI / 2.0;
        let q = 1.0 - w::e2 * p.sin().powi(2);
        let da = p.cos() / (q * q) * wt;
        area += da;
        sum += da * w::g_e * (1.0 + w::k * p.sin().powi(2)) / q.sqrt();
    }
    ensure!(same(w::g_mean, sum / area, 1e-9), "mean gravity {} but its average is {}", w::g_mean, sum / area);
    // masses
    ensure!(w::GM == 3.986004418e14 && w::GM == ic::geocentric_gravitational_constant && w::G == ic::gravitational_constant && w::G == 6.67428e-11, "GM {} {} G {} {}", w::GM, ic::geocentric_gravitational_constant, w::G, ic::gravitational_constant);
    ensure!(same(w::M, w::GM / w::G, 1e-7), "mass {} GM/G {}", w::M, w::GM / w::G);
    ensure!(same(w::GM_A, w::G * w::M_A, 1e-5) && same(w::GM - w::GM_A, w::GM_prime, 1e-9), "atmosphere {} {} GM' {}", w::GM_A, w::M_A, w::GM_prime);
    ensure!(w::GM_GPSNAV == 3.9860050e14, "GPS value of GM {}", w::GM_GPSNAV);
    // moments of inertia against the gravity coefficients (published to eight digits, so their differences to four)
    let ma2 = w::M * w::a * w::a;
    let mean = (w::A_dyn + w::B_dyn) / 2.0;
    ensure!(same((w::C_dyn - mean) / w::C_dyn, w::H, 1e-4) && w::H == ic::earth_dynamical_flattening, "dynamical ellipticity {} from moments {}", w::H, (w::C_dyn - mean) / w::C_dyn);
    ensure!(same((w::C_geo - w::A_geo) / w::C_geo, w::H_geo, 1e-4), "geometric ellipticity {} from moments {}", w::H_geo, (w::C_geo - w::A_geo) / w::C_geo);
    ensure!(same(w::C_geo - w::A_geo, w::J2geo * ma2, 1e-4), "C-A {} J2 M a^2 {}", w::C_geo - w::A_geo, w::J2geo * ma2);
    ensure!(same(w::C_dyn - mean, -5f64.sqrt() * w::c20dyn * ma2, 1e-4), "C-(A+B)/2 {}", w::C_dyn - mean);
    ensure!(same(w::B_dyn - w::A_dyn, 4.0 * ma2 * w::c22dyn * (5.0f64 / 12.0).sqrt(), 1e-2), "B-A {}", w::B_dyn - w::A_dyn);
    ensure!(w::c20dyn == -4.84165143790815e-4 && w::c22dyn == 2.43938357327313e-6, "C20 {} C22 {}", w::c20dyn, w::c22dyn);
    // rotation: the rate times a sidereal day is a turn
    let days = s.logf(1e-3, 1e5);
    ensure!(same(days * 86400.0 * w::w / TAU, days * ic::earth_angular_rate, 5e-8), "turns in {days} days: {} against {}", days * 86400.0 * w::w / TAU, days * ic::earth_angular_rate);
    ensure!(w::w == 7.292115e-5 && ic::earth_angular_rate == 1.00273781191135448 && ic::earth_angular_position_initial == 0.7790572732640, "rotation {} {} {}", w::w, ic::earth_angular_rate, ic::earth_angular_position_initial);
    ensure!(same(w::w_star, w::w, 1e-6), "precessing-frame rate {}", w::w_star);
    // the Earth in its own frame model
    ensure!(same(ic::earth_geoid_potential_scale_factor, ic::geocentric_gravitational_constant / ic::earth_geoid_potential, 1e-8), "geopotential scale {}", ic::earth_geoid_potential_scale_factor);
    ensure!(same(ic::earth_geoid_potential, w::U_0, 1e-6) && same(ic::earth_equatorial_radius, w::a, 1e-6) && same(1.0 / ic::earth_flattening_factor, w::f, 1e-5), "geoid {} radius {} flattening 1/{}", ic::earth_geoid_potential, ic::earth_equatorial_radius, ic::earth_flattening_factor);
    ensure!(same(ic::earth_dynamical_form_factor, w::J2geo, 1e-4) && same(ic::earth_mean_equatorial_gravity, w::g_e, 1e-5), "J2 {} equatorial gravity {}", ic::earth_dynamical_form_factor, ic::earth_mean_equatorial_gravity);
    let e = Earth::new();
    ensure!(same(e.mass * ic::gravitational_constant, e.gravitational_constant, 1e-14) && e.gravitational_constant == w::GM && same(e.radius, w::a, 1e-6), "Earth mass {} GM {} radius {}", e.mass, e.gravitational_constant, e.radius);
    Ok(())
}

// ------------------------------------------------------------------ the table of the standard, and the Moon
fn tables(s: &mut Src) -> R {
    macro_rules! pairs { ($($n:ident = $v:expr),* $(,)?) => { [$((stringify!($n), ic::$n, $v)),*] } }
    let p: [(&str, f64, f64); 22] = pairs![
        speed_of_light = 299792458.0, gaussian_gravitational_constant = 1.720209895e-2, l_g = 6.969290134e-10, l_b = 1.550519768e-8, tdb_0 = -6.55e-5,
        earth_angular_position_initial = 0.7790572732640, earth_angular_rate = 1.00273781191135448, gravitational_constant = 6.67428e-11,
        heliocentric_gravitational_constant = 1.32712442099e20, sun_dynamical_form_factor = 2.0e-7, moon_earth_mass_ratio = 0.0123000371,
        geocentric_gravitational_constant = 3.986004418e14, earth_equatorial_radius = 6378136.6, earth_dynamical_form_factor = 1.0826359e-3,
        earth_flattening_factor = 298.25642, earth_mean_equatorial_gravity = 9.7803278, earth_geoid_potential = 62636856.0,
        earth_geoid_potential_scale_factor = 6363672.6, earth_dynamical_flattening = 3273795.0e-9, ecliptic_obliquity = 84381.406, l_c = 1.48082686741e-8, astronomical_unit = 1.49597870700e11
    ];
    let (n, x, v) = p[s.draw(p.len() as u64 - 1) as usize];
    note!(s, "{n}");
    s.nt(true);
    ensure!(same(x, v, 1e-15), "{n} is {x}, published {v}");
    // the Moon
    ensure!(same(lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT / ic::geocentric_gravitational_constant, ic::moon_earth_mass_ratio, 1e-7), "mass ratio {} against {}", lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT / ic::geocentric_gravitational_constant, ic::moon_earth_mass_ratio);
    ensure!(same(lc::MOON_MASS * ic::gravitational_constant, lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT, 1e-14) && lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT == 4.902800118e12, "Moon mass {}", lc::MOON_MASS);
    ensure!(lc::MOON_MEAN_RADIUS == 1_737_400.0 && lc::MOON_SIDEREAL_ROTATION_PERIOD_DAYS == 27.321661 && lc::MOON_SIDEREAL_ORBIT_PERIOD_DAYS == lc::MOON_SIDEREAL_ROTATION_PERIOD_DAYS, "radius {} periods {} {}", lc::MOON_MEAN_RADIUS, lc::MOON_SIDEREAL_ROTATION_PERIOD_DAYS, lc::MOON_SIDEREAL_ORBIT_PERIOD_DAYS);
    ensure!(same(lc::MOON_SIDEREAL_ORBIT_PERIOD_S, lc::MOON_SIDEREAL_ORBIT_PERIOD_DAYS * 86400.0, 1e-15) && same(lc::MOON_SIDEREAL_ROTATION_RATE_RAD_S * lc::MOON_SIDEREAL_ORBIT_PERIOD_S, TAU, 1e-15), "the Moon turns {} rad in its period", lc::MOON_SIDEREAL_ROTATION_RATE_RAD_S * lc::MOON_SIDEREAL_ORBIT_PERIOD_S);
    ensure!(same(lc::MOON_ORBIT_INCLINATION_RAD, lc::MOON_ORBIT_INCLINATION_DEG.to_radians(), 1e-15) && lc::MOON_ORBIT_INCLINATION_DEG == 5.145 && lc::MOON_ORBIT_ECCENTRICITY == 0.0549 && lc::MOON_SEMIMAJOR_AXIS_M == 3.844e8, "orbit {} {} {}", lc::MOON_ORBIT_INCLINATION_RAD, lc::MOON_ORBIT_ECCENTRICITY, lc::MOON_SEMIMAJOR_AXIS_M);
    let m = Moon::new();
    ensure!(m.mass == lc::MOON_MASS && m.radius == lc::MOON_MEAN_RADIUS && m.gravitational_constant == lc::SELENOCENTRIC_GRAVITATIONAL_CONSTANT && m.rotational_rate_rad_s == lc::MOON_SIDEREAL_ROTATION_RATE_RAD_S && m.epoch_time == 0.0, "Moon {m:?}");
    Ok(())
}
pub fn register(r: &mut Registry) {
    r.add("E05", "angles", 20_000, "an angle carried along a random path of unit conversions; non-trivial when the path has a step", angles);
    r.add("E05", "epochs", 20_000, "intervals of years, distances and times through the time and light constants; non-trivial when the interval is not zero", epochs);
    r.add("E05", "ellipsoid", 20_000, "points of the meridian ellipse; every case counts", ellipsoid);
    r.add("E05", "gravity", 5_000, "latitudes and intervals of days; every case counts", gravity);
    r.add("E05", "tables", 5_000, "one entry of the table at a time; every case counts", tables);
}
