//! I01 world magnetic model, I02 star catalogue.
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_catalogs::color::gaia_color as gc;
use aether_catalogs::*;
use sha2::{Digest, Sha256};
use std::f64::consts::PI;
use std::sync::OnceLock;

// ------------------------------------------------------------------ I01
type Cof = Vec<(usize, usize, [f64; 4])>;
fn cof_dir() -> String {
    format!("{}/catalog/wmm/WMM2025COF", "/repo/crates/aether_catalogs")
}
/// The published coefficient file, parsed independently of the crate.
fn published() -> &'static Cof {
    static C: OnceLock<Cof> = OnceLock::new();
    C.get_or_init(|| {
        let t = std::fs::read_to_string(format!("{}/WMM.COF", cof_dir())).expect("WMM.COF");
        t.lines().skip(1).filter_map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() != 6 { return None; }
            Some((f[0].parse().unwrap(), f[1].parse().unwrap(), core::array::from_fn(|i| f[2 + i].parse().unwrap())))
        }).collect()
    })
}
/// Coefficients (by power of x) of d^m/dx^m P_n(x), from Rodrigues' formula.
fn legendre_poly(n: usize, m: usize) -> Vec<f64> {
    fn choose(a: usize, b: usize) -> f64 { let mut r = 1.0; for i in 0..b { r = r * (a - i) as f64 / (i + 1) as f64; } r.round() }
    let mut c = vec![0.0; n + 1];
    for k in 0..=n / 2 {
        c[n - 2 * k] = if k % 2 == 0 { 1.0 } else { -1.0 } * choose(n, k) * choose(2 * n - 2 * k, n) / 2f64.powi(n as i32);
    }
    for _ in 0..m {
        c = (1..c.len()).map(|i| c[i] * i as f64).collect();
    }
    c
}
fn horner(c: &[f64], x: f64) -> f64 { c.iter().rev().fold(0.0, |a, k| a * x + k) }
struct Poly { norm: f64, t: Vec<f64>, dt: Vec<f64> }
fn polys() -> &'static Vec<Vec<Poly>> {
    static C: OnceLock<Vec<Vec<Poly>>> = OnceLock::new();
    C.get_or_init(|| (0..=12).map(|n| (0..=n).map(|m| {
        let mut f = 1.0; // (n-m)!/(n+m)!
        for k in n - m + 1..=n + m { f /= k as f64; }
        Poly { norm: if m == 0 { 1.0 } else { (2.0 * f).sqrt() }, t: legendre_poly(n, m), dt: legendre_poly(n, m + 1) }
    }).collect()).collect())
}
struct Field { v: V3, w: V3, sv: V3, sw: V3, cosp: f64, r: f64, latc: f64 }
/// NED field and yearly change by direct summation of the gradient of the potential; v/sv the
/// vectors, w/sw the sums of absolute terms (for rounding bounds).
fn field(year: f64, lat: f64, lon: f64, h: f64) -> Field {
    let (a, f) = (6378137.0f64, 1.0 / 298.257223563);
    let e2 = f * (2.0 - f);
    let (sl, cl) = lat.sin_cos();
    let n = a / (1.0 - e2 * sl * sl).sqrt();
    let (p, z) = ((n + h) * cl, (n * (1.0 - e2) + h) * sl);
    let r = p.hypot(z);
    let (cp, sp) = (p / r, z / r);
    let mut o = [[0.0f64; 3]; 4]; // field, abs, sv, abs
    for (deg, ord, c) in published() {
        let (nd, m) = (*deg as f64, *ord as f64);
        let pl = &polys()[*deg][*ord];
        let k = (6371200.0 / r).powi(*deg as i32 + 2);
        let cm = cp.powi(*ord as i32);
        let t = horner(&pl.t, sp) * pl.norm;
        let dt = horner(&pl.dt, sp) * pl.norm;
        let pn = cm * t;
        let cm1 = if *ord == 0 { 0.0 } else { cp.powi(*ord as i32 - 1) };
        let dp = cm * cp * dt - m * cm1 * sp * t;
        let pc = cm1 * t;
        let (s, co) = (m * lon).sin_cos();
        let g = [c[0] + (year - 2025.0) * c[2], c[1] + (year - 2025.0) * c[3], c[2], c[3]];
        for q in 0..2 {
            let (gg, hh) = (g[2 * q], g[2 * q + 1]);
            let comb = gg * co + hh * s;
            // north, east, down components in the geocentric frame
            let terms = [-k * comb * dp, k * m * (gg * s - hh * co) * pc, -k * (nd + 1.0) * comb * pn];
            let mag = (gg.abs() + hh.abs()) * k * (nd + 1.0) * (pl.norm * (horner(&pl.t.iter().map(|x| x.abs()).collect::<Vec<_>>(), 1.0) + 1.0)).min(4.0);
            for i in 0..3 { o[2 * q][i] += terms[i]; o[2 * q + 1][i] += mag; }
        }
    }
    // rotate the geocentric north/down pair to the geodetic one
    let (sd, cd) = (sp * cl - cp * sl, cp * cl + sp * sl);
    let rot = |x: V3| [x[0] * cd - x[2] * sd, x[1], x[0] * sd + x[2] * cd];
    Field { v: rot(o[0]), w: o[1], sv: rot(o[2]), sw: o[3], cosp: cp.abs(), r, latc: z.atan2(p) }
}
fn wmm_point(s: &mut Src) -> (f64, f64, f64, f64) {
    let year = match s.draw(4) { 0 => *s.pick(&[2025.0, 2030.0, 2027.5, 2029.99999]), 1 => s.f(2000.0, 2060.0), _ => s.f(2025.0, 2030.0) };
    let lat = match s.draw(7) {
        0 => *s.pick(&[0.0, 1.0, -1.0, 0.5, -0.5]) * PI / 2.0,
        1 => s.sgn() * (PI / 2.0 - s.logf(1e-13, 1e-3)),
        2 => s.sgn() * (PI / 2.0 - s.logf(1e-9, 0.2)),
        3 => s.sgn() * s.logf(1e-12, 1.0),
        _ => s.f(-PI / 2.0, PI / 2.0),
    };
    let lon = match s.draw(4) { 0 => *s.pick(&[0.0, PI, -PI, PI / 2.0, 2.0 * PI, -PI / 2.0]), 1 => s.f(-4.0 * PI, 4.0 * PI), _ => s.f(-PI, PI) };
    let h = match s.draw(5) { 0 => 0.0, 1 => s.f(-10_000.0, 10_000.0), 2 => s.logf(1e5, 1e8), _ => s.f(-1000.0, 850_000.0) };
    (year, lat, lon, h)
}
fn wmm_field(s: &mut Src) -> R {
    let (year, lat, lon, h) = wmm_point(s);
    note!(s, "year {year} lat {lat:e} lon {lon:e} height {h}");
    s.nt(h != 0.0 && lat != 0.0);
    let f = field(year, lat, lon, h);
    s.label_if(f.cosp < 1e-6, "within 6 m of a pole");
    s.label_if(f.cosp >= 1e-6 && f.cosp < 1e-2, "polar");
    let model = WorldMagneticModel::embedded();
    let pt = GeodeticPoint::new(lat, lon, h);
    let e = match model.evaluate(year, pt) {
        Ok(e) => e,
        Err(WmmError::PoleSingularity { .. }) if f.cosp < 2e-12 => { s.label("pole refused"); return Ok(()); }
        Err(x) => return Err(Fail::new(format!("refused away from the poles (cos of latitude {:e}): {x:?}", f.cosp))),
    };
    let again = model.evaluate_with_coefficients(&model.coefficients_at(year), pt);
    ensure!(again == Ok(e), "evaluation with the coefficients of the same date differs: {again:?} / {e:?}");
    let direrr = 40.0 * f64::EPSILON; // error of the position angles
    let loner = 20.0 * f64::EPSILON * (1.0 + lon.abs()) * 13.0;
    let got = [e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()];
    let gsv = [e.secular_variation_ned_nt_per_year.x(), e.secular_variation_ned_nt_per_year.y(), e.secular_variation_ned_nt_per_year.z()];
    for i in 0..3 {
        let (tf, ts) = ((2e-12 + direrr * 13.0 + loner) * f.w[i], (2e-12 + direrr * 13.0 + loner) * f.sw[i]);
        ensure!(close(got[i], f.v[i], tf), "field component {i}: {}, harmonic sum {} (tolerance {tf:e})", got[i], f.v[i]);
        ensure!(close(gsv[i], f.sv[i], ts), "yearly change component {i}: {}, harmonic sum {} (tolerance {ts:e})", gsv[i], f.sv[i]);
    }
    ensure!(e.geodetic == pt && e.decimal_year == year, "echoed position or date differs: {e:?}");
    ensure!(rel(e.geocentric.radius_m, f.r, 1e-14) && close(e.geocentric.latitude_rad, f.latc, 1e-14) && close(e.geocentric.longitude_rad, lon, 0.0),
        "geocentric position {:?}, radius {} latitude {}", e.geocentric, f.r, f.latc);
    // derived elements from the returned vector
    let hz = got[0].hypot(got[1]);
    let tot = hz.hypot(got[2]);
    ensure!(rel(e.horizontal_intensity_nt, hz, 1e-13) && rel(e.total_intensity_nt, tot, 1e-13), "intensities {} {}, vector gives {hz} {tot}", e.horizontal_intensity_nt, e.total_intensity_nt);
    ensure!(adiff(e.declination_rad, got[1].atan2(got[0])).abs() <= 1e-13, "declination {} for {got:?}", e.declination_rad);
    ensure!(close(e.inclination_rad, got[2].atan2(hz), 1e-13), "inclination {} for {got:?}", e.inclination_rad);
    let hd = (got[0] * gsv[0] + got[1] * gsv[1]) / hz;
    let fd = (got[0] * gsv[0] + got[1] * gsv[1] + got[2] * gsv[2]) / tot;
    let dd = (got[0] * gsv[1] - got[1] * gsv[0]) / (hz * hz);
    let id = (hz * gsv[2] - got[2] * hd) / (tot * tot);
    let svn = norm(gsv);
    ensure!(close(e.horizontal_intensity_rate_nt_per_year, hd, 1e-13 * svn), "horizontal intensity rate {} should be {hd}", e.horizontal_intensity_rate_nt_per_year);
    ensure!(close(e.total_intensity_rate_nt_per_year, fd, 1e-13 * svn), "total intensity rate {} should be {fd}", e.total_intensity_rate_nt_per_year);
    ensure!(close(e.declination_rate_rad_per_year, dd, 1e-13 * svn / hz), "declination rate {} should be {dd}", e.declination_rate_rad_per_year);
    ensure!(close(e.inclination_rate_rad_per_year, id, 1e-13 * svn / tot), "inclination rate {} should be {id}", e.inclination_rate_rad_per_year);
    Ok(())
}
/// The summed potential itself, for a check of the oracle and the code by numerical gradient.
fn potential(year: f64, x: V3) -> f64 {
    let r = norm(x);
    let (sp, p) = (x[2] / r, x[0].hypot(x[1]) / r);
    let lon = x[1].atan2(x[0]);
    let mut v = 0.0;
    for (deg, ord, c) in published() {
        let pl = &polys()[*deg][*ord];
        let (s, co) = (*ord as f64 * lon).sin_cos();
        let (g, h) = (c[0] + (year - 2025.0) * c[2], c[1] + (year - 2025.0) * c[3]);
        v += 6371200.0 * (6371200.0 / r).powi(*deg as i32 + 1) * (g * co + h * s) * p.powi(*ord as i32) * horner(&pl.t, sp) * pl.norm;
    }
    v
}
fn wmm_gradient(s: &mut Src) -> R {
    let (year, lat, lon, h) = wmm_point(s);
    note!(s, "year {year} lat {lat} lon {lon} height {h}");
    let h = h.min(2e6);
    if lat.cos() < 1e-9 { return Ok(()); }
    s.nt(true);
    let e = WorldMagneticModel::embedded().evaluate(year, GeodeticPoint::new(lat, lon, h)).map_err(|x| Fail::new(format!("refused: {x:?}")))?;
    let f = 1.0 / 298.257223563;
    let e2 = f * (2.0 - f);
    let (sl, cl) = lat.sin_cos();
    let (so, co) = lon.sin_cos();
    let n = 6378137.0 / (1.0 - e2 * sl * sl).sqrt();
    let x = [(n + h) * cl * co, (n + h) * cl * so, (n * (1.0 - e2) + h) * sl];
    let axes = [[-sl * co, -sl * so, cl], [-so, co, 0.0], [-cl * co, -cl * so, -sl]];
    let d = 2000.0;
    let got = [e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()];
    for i in 0..3 {
        // fourth-order central difference of -V along the axis
        let at = |k: f64| potential(year, add(x, scale(axes[i], k * d)));
        let g = -(8.0 * (at(1.0) - at(-1.0)) - (at(2.0) - at(-2.0))) / (12.0 * d);
        ensure!(close(got[i], g, 2e-2), "axis {i}: {} nT, gradient of the potential {g} nT", got[i]);
    }
    Ok(())
}
fn wmm_table(s: &mut Src) -> R {
    let m = WorldMagneticModel::embedded();
    let year = if s.bool() { 2025.0 } else { s.f(2015.0, 2040.0) };
    let k = s.range(0, published().len() - 1);
    note!(s, "record {k} at {year}");
    s.nt(year != 2025.0);
    let rec = published();
    ensure!(m.records().len() == rec.len() && m.max_degree == 12 && m.header.epoch == 2025.0, "{} records up to degree {} at {}", m.records().len(), m.max_degree, m.header.epoch);
    let (n, o, c) = &rec[k];
    let c = *c;
    let found: Vec<_> = m.records().iter().filter(|r| r.degree == *n && r.order == *o).collect();
    ensure!(found.len() == 1, "degree {n} order {o} appears {} times", found.len());
    let r = found[0];
    ensure!([r.g_nm_nt, r.h_nm_nt, r.g_dot_nm_nt_per_year, r.h_dot_nm_nt_per_year] == c, "degree {n} order {o}: {r:?}, published {c:?}");
    let t = m.coefficients_at(year);
    let dt = year - 2025.0;
    ensure!(close(t.g(*n, *o), c[0] + dt * c[2], 1e-11 * (1.0 + c[0].abs())) && close(t.h(*n, *o), c[1] + dt * c[3], 1e-11 * (1.0 + c[1].abs())),
        "degree {n} order {o} at {year}: {} {}, published {c:?}", t.g(*n, *o), t.h(*n, *o));
    ensure!(t.g_dot(*n, *o) == c[2] && t.h_dot(*n, *o) == c[3] && t.decimal_year == year, "rates {} {}", t.g_dot(*n, *o), t.h_dot(*n, *o));
    let (bad_n, bad_m) = if s.bool() { (s.range(13, 40), s.range(0, 12)) } else { let a = s.range(0, 12); (a, a + 1 + s.range(0, 5)) };
    ensure!(t.g(bad_n, bad_m) == 0.0 && t.h(bad_n, bad_m) == 0.0 && t.g_dot(bad_n, bad_m) == 0.0, "coefficient ({bad_n},{bad_m}) outside the triangle is not zero");
    Ok(())
}
fn wmm_official(s: &mut Src) -> R {
    static C: OnceLock<Vec<Vec<f64>>> = OnceLock::new();
    let t = C.get_or_init(|| std::fs::read_to_string(format!("{}/WMM2025_TestValues.txt", cof_dir())).expect("test values").lines()
        .filter(|l| !l.trim().is_empty() && !l.trim().starts_with('#')).map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect());
    let r = s.pick(t).clone();
    note!(s, "{r:?}");
    s.nt(true);
    let turns = s.irange(-2, 2) as f64;
    let e = WorldMagneticModel::embedded().evaluate(r[0], GeodeticPoint::from_degrees(r[2], r[3] + 360.0 * turns, r[1] * 1000.0)).map_err(|x| Fail::new(format!("refused: {x:?}")))?;
    let d = 180.0 / PI;
    let got = [e.declination_rad * d, e.inclination_rad * d, e.horizontal_intensity_nt, e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z(), e.total_intensity_nt,
        e.declination_rate_rad_per_year * d, e.inclination_rate_rad_per_year * d, e.horizontal_intensity_rate_nt_per_year,
        e.secular_variation_ned_nt_per_year.x(), e.secular_variation_ned_nt_per_year.y(), e.secular_variation_ned_nt_per_year.z(), e.total_intensity_rate_nt_per_year];
    let tol = [0.0051, 0.0051, 1e-3, 1e-3, 1e-3, 1e-3, 1e-3, 2e-6, 2e-6, 1e-5, 1e-5, 1e-5, 1e-5, 1e-5];
    for i in 0..14 {
        let diff = if i < 1 { adiff(got[i] / d, r[4 + i] / d).abs() * d } else { (got[i] - r[4 + i]).abs() };
        ensure!(diff <= tol[i], "published column {}: {}, evaluated {}", i + 5, r[4 + i], got[i]);
    }
    Ok(())
}

// ------------------------------------------------------------------ I02
const COLS: [&str; 37] = ["gnc_id", "hip_id", "gaiadr3_id", "ra_2016", "de_2016", "e_ra_2016", "e_de_2016", "pmra", "pmde", "e_pmra", "e_pmde", "plx", "e_plx", "cat_2016",
    "gmag", "e_gmag", "bpmag", "e_bpmag", "rpmag", "e_rpmag", "jmag", "e_jmag", "hmag", "e_hmag", "kmag", "e_kmag", "flag_var", "flag_mult",
    "neighbor_id", "neighbor_distance_arcsec", "shift_arsec", "flag_shift", "flag_pos", "flag_pm", "flag_neighbor", "", ""];
const NC: usize = 35;
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { U, OU, D, F, OF, OS }
fn kind(i: usize) -> K {
    match i {
        0 | 28 => K::U,
        1 | 2 => K::OU,
        3 | 4 => K::D,
        5 | 6 | 29 => K::F,
        13 | 26 | 27 | 31..=34 => K::OS,
        _ => K::OF,
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Val { None, U(u64), D(u64), F(u32), S(String) }
fn rec_vals(r: &GncRecord) -> Vec<Val> {
    let ou = |x: Option<u64>| x.map_or(Val::None, Val::U);
    let of = |x: Option<f32>| x.map_or(Val::None, |v| Val::F(v.to_bits()));
    let os = |x: &Option<String>| x.clone().map_or(Val::None, Val::S);
    vec![Val::U(r.gnc_id), ou(r.hip_id), ou(r.gaiadr3_id), Val::D(r.ra_2016.to_bits()), Val::D(r.de_2016.to_bits()), Val::F(r.e_ra_2016.to_bits()), Val::F(r.e_de_2016.to_bits()),
        of(r.pmra), of(r.pmde), of(r.e_pmra), of(r.e_pmde), of(r.plx), of(r.e_plx), os(&r.cat_2016),
        of(r.gmag), of(r.e_gmag), of(r.bpmag), of(r.e_bpmag), of(r.rpmag), of(r.e_rpmag), of(r.jmag), of(r.e_jmag), of(r.hmag), of(r.e_hmag), of(r.kmag), of(r.e_kmag),
        os(&r.flag_var), os(&r.flag_mult), Val::U(r.neighbor_id), Val::F(r.neighbor_distance_arcsec.to_bits()), of(r.shift_arsec), os(&r.flag_shift), os(&r.flag_pos), os(&r.flag_pm), os(&r.flag_neighbor)]
}
fn cell(s: &mut Src, k: K) -> (Val, String) {
    let opt = matches!(k, K::OU | K::OF | K::OS);
    if opt && s.chance(1, 4) { return (Val::None, String::new()); }
    match k {
        K::U | K::OU => {
            let v = match s.draw(3) { 0 => s.draw(50), 1 => u64::MAX - s.draw(3), _ => s.draw(1 << 60) };
            (Val::U(v), v.to_string())
        }
        K::D => {
            let v = match s.draw(3) { 0 => s.irange(-90, 360) as f64, 1 => s.sym(1e3), _ => s.sgn() * s.logf(1e-12, 360.0) };
            let t = match s.draw(3) { 0 => format!("{v:?}"), 1 => format!("{v:e}"), _ => format!("{v}") };
            (Val::D(v.to_bits()), t)
        }
        K::F | K::OF => {
            let v = match s.draw(3) { 0 => s.irange(-20, 20) as f32, 1 => s.sym(1e3) as f32, _ => (s.sgn() * s.logf(1e-6, 1e6)) as f32 };
            let t = match s.draw(3) { 0 => format!("{v:?}"), 1 => format!("{v:e}"), _ => format!("{v}") };
            (Val::F(v.to_bits()), t)
        }
        K::OS => {
            let t = s.pick(&["GAIADR3", "HIP2", "V", "a,b", "say \"x\"", "two\nlines", "0", "é★", " padded "]).to_string();
            (Val::S(t.clone()), t)
        }
    }
}
fn bad_cell(s: &mut Src, k: K) -> Option<Vec<u8>> {
    Some(match k {
        K::OS => return None,
        K::U => s.pick(&[&b""[..], b"abc", b"-5", b"1.5", b"18446744073709551616", b"1e3", b"12x", b"\xff\xfe"]).to_vec(),
        K::OU => s.pick(&[&b"abc"[..], b"-5", b"1.5", b"99999999999999999999999", b"12x", b"\xc3"]).to_vec(),
        K::D | K::F => s.pick(&[&b""[..], b"abc", b"1.2.3", b"--4", b"1,5", b"12deg", b"\xff"]).to_vec(),
        K::OF => s.pick(&[&b"abc"[..], b"1.2.3", b"--4", b"12mas", b"n/a", b"\xff"]).to_vec(),
    })
}
fn quote(t: &[u8], always: bool) -> Vec<u8> {
    if !always && !t.iter().any(|c| matches!(c, b',' | b'"' | b'\n' | b'\r')) { return t.to_vec(); }
    let mut o = vec![b'"'];
    for c in t { if *c == b'"' { o.push(b'"'); } o.push(*c); }
    o.push(b'"');
    o
}
struct Csv { bytes: Vec<u8>, rows: Vec<Vec<Val>>, bad: usize, kinds: Vec<&'static str> }
fn gen_csv(s: &mut Src) -> Csv {
    let mut order: Vec<usize> = (0..NC).collect();
    let permuted = s.chance(1, 4);
    if permuted { for i in (1..NC).rev() { let j = s.range(0, i); order.swap(i, j); } }
    let eol: &[u8] = if s.bool() { b"\n" } else { b"\r\n" };
    let mut bytes: Vec<u8> = order.iter().map(|&i| COLS[i]).collect::<Vec<_>>().join(",").into_bytes();
    bytes.extend_from_slice(eol);
    let n = if s.chance(1, 200) { s.range(9, 600) } else { s.range(0, 8) };
    let (mut rows, mut bad, mut kinds) = (vec![], 0, vec![]);
    for r in 0..n {
        let mut vals = vec![Val::None; NC];
        let mut cells: Vec<Vec<u8>> = vec![vec![]; NC];
        for i in 0..NC {
            let (v, t) = cell(s, kind(i));
            vals[i] = v;
            cells[i] = quote(t.as_bytes(), s.chance(1, 10));
        }
        let mut keep = NC;
        let mut extra = 0;
        let mut ok = true;
        match s.draw(7) {
            1 | 2 => {
                // a garbled cell
                let i = s.range(0, NC - 1);
                if let Some(b) = bad_cell(s, kind(i)) {
                    cells[i] = quote(&b, s.chance(1, 5));
                    ok = false;
                    kinds.push("garbled cell");
                }
            }
            3 => {
                // a short row: fine as long as only optional columns are missing
                keep = s.range(1, NC - 1);
                for &c in &order[keep..] {
                    vals[c] = Val::None;
                    if matches!(kind(c), K::U | K::D | K::F) { ok = false; }
                }
                kinds.push(if ok { "short row, optional columns only" } else { "short row" });
                if keep == 1 && cells[order[0]].is_empty() { cells[order[0]] = b"\"\"".to_vec(); }
            }
            4 => { extra = s.range(1, 4); kinds.push("extra columns"); }
            _ => {}
        }
        let mut line: Vec<Vec<u8>> = order[..keep].iter().map(|&i| cells[i].clone()).collect();
        for _ in 0..extra { line.push(b"surplus".to_vec()); }
        bytes.extend_from_slice(&line.join(&b','));
        if !(r + 1 == n && s.bool()) {
            bytes.extend_from_slice(eol);
            if s.chance(1, 8) { bytes.extend_from_slice(eol); kinds.push("blank line"); }
        }
        if ok { rows.push(vals); } else { bad += 1; }
    }
    Csv { bytes, rows, bad, kinds }
}
struct Tmp(std::path::PathBuf);
impl Tmp {
    fn new(bytes: &[u8]) -> Tmp {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("aether-check-{}-{}.csv", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::write(&p, bytes).expect("scratch file");
        Tmp(p)
    }
}
impl Drop for Tmp {
    fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); }
}
fn same_rows(got: &GncCatalogReader, want: &[Vec<Val>]) -> R {
    ensure!(got.records.len() == want.len(), "{} records read, {} well-formed rows", got.records.len(), want.len());
    for (i, (g, w)) in got.records.iter().zip(want).enumerate() {
        let g = rec_vals(g);
        for c in 0..NC { ensure!(g[c] == w[c], "row {i} column {}: {:?}, text says {:?}", COLS[c], g[c], w[c]); }
    }
    Ok(())
}
fn star_read(s: &mut Src) -> R {
    let c = gen_csv(s);
    note!(s, "{}", String::from_utf8_lossy(&c.bytes));
    s.nt(c.bad > 0 && !c.rows.is_empty());
    for k in &c.kinds { s.label(k); }
    let t = Tmp::new(&c.bytes);
    let got = GncCatalogReader::from_csv(&t.0).map_err(|e| Fail::new(format!("catalogue refused: {e}")))?;
    same_rows(&got, &c.rows)?;
    ensure!(GncCatalogReader::from_csv(t.0.with_extension("missing")).is_err(), "a missing file yields a catalogue");
    Ok(())
}
fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{b:02x}")).collect() }
fn star_digest(s: &mut Src) -> R {
    let big = s.chance(1, 3);
    let (mut bytes, rows) = if big {
        // sizes around the read buffer
        let n = (65536 * s.range(1, 3)) as i64 + s.irange(-2, 2);
        let seed = s.draw(1 << 30);
        ((0..n as u64).map(|i| (mix(seed ^ i) & 0xff) as u8).collect::<Vec<u8>>(), None)
    } else {
        let c = gen_csv(s);
        (c.bytes, Some(c.rows))
    };
    let digest = hex(&Sha256::digest(&bytes));
    let t = Tmp::new(&bytes);
    note!(s, "{} bytes, sha256 {digest}", bytes.len());
    s.label_if(big, "around the read buffer size");
    let given = match s.draw(2) { 0 => digest.clone(), 1 => digest.to_uppercase(), _ => digest.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect() };
    if let Err(e) = GncCatalogReader::verify_catalog_checksum(&t.0, &given) { return Err(Fail::new(format!("matching file refused: {e}"))); }
    if let Some(rows) = &rows {
        let got = GncCatalogReader::from_csv_with_expected_sha256(&t.0, &given).map_err(|e| Fail::new(format!("matching catalogue refused: {e}")))?;
        same_rows(&got, rows)?;
    }
    // a different digest, then a corrupted file
    let mut d: Vec<u8> = digest.clone().into_bytes();
    let wrong = match s.draw(5) {
        0 => String::new(),
        1 => { d.truncate(s.range(0, 63)); String::from_utf8(d).unwrap() }
        2 => digest.clone() + "0",
        3 => format!("0{}", &digest[..63]),
        _ => { let i = s.range(0, 63); d[i] = b"0123456789abcdef"[(b"0123456789abcdef".iter().position(|x| *x == d[i]).unwrap() + s.range(1, 15)) % 16]; String::from_utf8(d).unwrap() }
    };
    if wrong != digest {
        ensure!(GncCatalogReader::verify_catalog_checksum(&t.0, &wrong).is_err() && GncCatalogReader::from_csv_with_expected_sha256(&t.0, &wrong).is_err(), "digest {wrong} accepted for a file of digest {digest}");
    }
    let before = bytes.clone();
    let i = if bytes.is_empty() { 0 } else { match s.draw(3) { 0 => 0, 1 => bytes.len() - 1, _ => s.range(0, bytes.len() - 1) } };
    let what = match s.draw(4) {
        0 => { bytes.push(b'\n'); "one byte appended" }
        1 if !bytes.is_empty() => { bytes.pop(); "last byte lost" }
        2 if !bytes.is_empty() => { bytes.remove(i); "one byte lost" }
        3 => { bytes.insert(i, b'0'); "one byte inserted" }
        _ => { if bytes.is_empty() { bytes.push(0) } else { bytes[i] ^= 1 << s.draw(7) }; "one bit flipped" }
    };
    if before != bytes {
        s.nt(true);
        s.label(what);
        std::fs::write(&t.0, &bytes).expect("scratch file");
        ensure!(GncCatalogReader::verify_catalog_checksum(&t.0, &given).is_err(), "{what} at {i}: still accepted");
        ensure!(GncCatalogReader::from_csv_with_expected_sha256(&t.0, &given).is_err(), "{what} at {i}: catalogue still read");
    }
    Ok(())
}
fn blank() -> GncRecord {
    GncRecord {
        gnc_id: 1, hip_id: None, gaiadr3_id: None, ra_2016: 0.0, de_2016: 0.0, e_ra_2016: 0.0, e_de_2016: 0.0, pmra: None, pmde: None, e_pmra: None, e_pmde: None, plx: None, e_plx: None,
        cat_2016: None, gmag: None, e_gmag: None, bpmag: None, e_bpmag: None, rpmag: None, e_rpmag: None, jmag: None, e_jmag: None, hmag: None, e_hmag: None, kmag: None, e_kmag: None,
        flag_var: None, flag_mult: None, neighbor_id: 0, neighbor_distance_arcsec: 0.0, shift_arsec: None, flag_shift: None, flag_pos: None, flag_pm: None, flag_neighbor: None,
    }
}
fn star_motion(s: &mut Src) -> R {
    let mut r = blank();
    let d = PI / 180.0;
    r.ra_2016 = match s.draw(3) { 0 => *s.pick(&[0.0, 90.0, 180.0, 270.0, 359.999999]), _ => s.f(0.0, 360.0) };
    r.de_2016 = match s.draw(4) { 0 => 0.0, 1 => s.sgn() * s.f(80.0, 89.5), _ => s.f(-80.0, 80.0) };
    let pm = |s: &mut Src| -> Option<f32> { if s.chance(1, 6) { None } else { Some(match s.draw(3) { 0 => 0.0, 1 => s.sym(10_000.0) as f32, _ => (s.sgn() * s.logf(1e-2, 1e3)) as f32 }) } };
    r.pmra = pm(s);
    r.pmde = pm(s);
    r.plx = match s.draw(5) { 0 => None, 1 => Some(*s.pick(&[0.0f32, -0.5, -3.0])), _ => Some(s.logf(1e-2, 800.0) as f32) };
    let dt = match s.draw(4) { 0 => 0.0, 1 => s.irange(-50, 50) as f64, 2 => s.sym(200.0), _ => s.sym(5.0) };
    let t = 2016.0 + dt;
    note!(s, "ra {} de {} pmra {:?} pmde {:?} plx {:?} epoch {t}", r.ra_2016, r.de_2016, r.pmra, r.pmde, r.plx);
    let g = r.icrs_sample(t);
    let (ra, de) = (r.ra_2016 * d, r.de_2016 * d);
    let mas = d / 3_600_000.0;
    let (ma, md) = (r.pmra.unwrap_or(0.0) as f64 * mas, r.pmde.unwrap_or(0.0) as f64 * mas);
    s.nt(ma != 0.0 && md != 0.0 && dt != 0.0 && r.plx.map_or(false, |p| p > 0.0));
    let dt = t - 2016.0;
    let u = [de.cos() * ra.cos(), de.cos() * ra.sin(), de.sin()];
    let ea = [-ra.sin(), ra.cos(), 0.0];
    let ed = [-de.sin() * ra.cos(), -de.sin() * ra.sin(), de.cos()];
    let move_ = add(scale(ea, ma * dt), scale(ed, md * dt));
    let total = norm(move_);
    let second = total * total * (1.0 + de.tan().abs()).powi(2) * 1.5;
    let dist = match r.plx { Some(p) if p > 0.0 => 1000.0 / p as f64 * 206264.806247, _ => 1.0 };
    ensure!(g.epoch == t, "epoch {}", g.epoch);
    let p = g.icrs_position_au;
    let pd = norm(p);
    ensure!(rel(pd, dist, 1e-8), "distance {pd} au, parallax gives {dist}");
    let want = add(u, move_);
    ensure!(vdiff(scale(p, 1.0 / pd), want) <= second + 2e-15, "direction {:?} after {dt} years should be {want:?} (moved {total:e} rad, off by {:e})", scale(p, 1.0 / pd), vdiff(scale(p, 1.0 / pd), want));
    let v = g.icrs_velocity_au_per_yr;
    let known = r.pmra.is_some() && r.pmde.is_some() && r.plx.map_or(false, |p| p > 0.0);
    let wv = if known { scale(add(scale(ea, ma), scale(ed, md)), dist) } else { [0.0; 3] };
    let tol = norm(wv) * (1e-7 + 3.0 * total * (1.0 + de.tan().abs()).powi(2));
    ensure!(vdiff(v, wv) <= tol, "velocity {v:?} au/yr, rates and parallax give {wv:?}");
    if known {
        s.label("with velocity");
        // velocity is the rate of the position
        let (a, b) = (r.icrs_sample(t - 1.0), r.icrs_sample(t + 1.0));
        let fd = scale(sub(b.icrs_position_au, a.icrs_position_au), 0.5);
        ensure!(vdiff(fd, v) <= norm(wv) * (1e-7 + 6.0 * (total + ma.hypot(md)) * (1.0 + de.tan().abs()).powi(2)) + 1e-14 * dist, "position moves at {fd:?}, velocity says {v:?}");
    }
    Ok(())
}
/// the widely published fit of the black-body locus (red, green, blue of 255; temperature in hundreds of kelvin)
fn blackbody_fit(k: f64) -> [f64; 3] {
    let t = k.clamp(1000.0, 40000.0) / 100.0;
    let c = |v: f64| v.clamp(0.0, 255.0) / 255.0;
    let hot = t > 66.0;
    let r = if hot { 329.698727446 * (t - 60.0).powf(-0.1332047592) } else { 255.0 };
    let g = if hot { 288.1221695283 * (t - 60.0).powf(-0.0755148492) } else { 99.4708025861 * t.ln() - 161.1195681661 };
    let b = if t >= 66.0 { 255.0 } else if t <= 19.0 { 0.0 } else { 138.5177312231 * (t - 10.0).ln() - 305.0447927307 };
    [c(r), c(g), c(b)]
}
/// position errors: the proper-motion error grows from the epoch at which the catalogue measured it
/// (2016.0 for Gaia; 1991.25, less what the 2016.0 value already holds, for everything else)
fn star_uncertainty(s: &mut Src) -> R {
    let mut r = blank();
    r.ra_2016 = s.f(0.0, 360.0);
    r.de_2016 = s.f(-89.0, 89.0);
    let cat = *s.pick(&["GAIADR3", "HIP2", "GAIADR2", "gaiadr3", "", "none"]);
    r.cat_2016 = if cat == "none" { None } else { Some(cat.to_string()) };
    r.pmra = if s.chance(1, 4) { None } else { Some(s.sym(100.0) as f32) };
    r.pmde = if s.chance(1, 4) { None } else { Some(s.sym(100.0) as f32) };
    let pe = |s: &mut Src| -> Option<f32> { if s.chance(1, 5) { None } else { Some(match s.draw(2) { 0 => 0.0, _ => s.logf(1e-3, 5.0) as f32 }) } };
    r.e_pmra = pe(s);
    r.e_pmde = pe(s);
    let gaia = cat == "GAIADR3";
    // what an older catalogue brought to 2016.0 has at least its proper-motion error in it
    let e0 = |s: &mut Src, e: Option<f32>| -> f32 { (if gaia { 0.0 } else { e.unwrap_or(0.0) as f64 * 24.75 * s.f(1.0, 1.5) } + match s.draw(2) { 0 => 1e-3, _ => s.logf(1e-3, 50.0) }) as f32 };
    r.e_ra_2016 = e0(s, r.e_pmra);
    r.e_de_2016 = e0(s, r.e_pmde);
    let t = match s.draw(4) { 0 => 2016.0, 1 => 1991.25, 2 => s.f(1900.0, 2200.0), 3 => s.irange(1950, 2100) as f64, _ => s.f(1980.0, 2060.0) };
    let g = r.icrs_sample(t);
    note!(s, "{:?} e_ra {} e_de {} e_pmra {:?} e_pmde {:?} epoch {t}", r.cat_2016, r.e_ra_2016, r.e_de_2016, r.e_pmra, r.e_pmde);
    s.nt(t != 2016.0 && r.e_pmra.unwrap_or(0.0) > 0.0 && r.e_pmde.unwrap_or(0.0) > 0.0);
    s.label(if gaia { "Gaia epoch" } else { "Hipparcos epoch" });
    for (name, got, e, pm) in [("right ascension", g.uncertainty_ra_mas, r.e_ra_2016, r.e_pmra), ("declination", g.uncertainty_dec_mas, r.e_de_2016, r.e_pmde)] {
        let (e, pm) = (e as f64, pm.unwrap_or(0.0) as f64);
        let dt2 = if gaia { (t - 2016.0).powi(2) } else { (t - 1991.25).powi(2) - 24.75f64.powi(2) };
        let var = e * e + pm * pm * dt2;
        // squares: the difference of squares cancels near the catalogue's own epoch
        let tol = 1e-12 * (e * e + pm * pm * ((t - 1991.25).powi(2) + 24.75f64.powi(2)));
        if var <= tol { continue; }
        ensure!((got * got - var).abs() <= tol, "{name} uncertainty {got} mas at {t}, from {e} mas and {pm} mas/yr it is {}", var.sqrt());
    }
    Ok(())
}
fn star_colour(s: &mut Src) -> R {
    let ord = |a: f32, b: f32| if a <= b { (a, b) } else { (b, a) };
    let gen = |s: &mut Src| -> f32 { match s.draw(3) { 0 => *s.pick(&[-0.2f32, 0.0, 0.3, 0.65, 1.0, 1.5, 2.0, 2.5, 3.0]), 1 => s.sym(50.0) as f32, _ => s.f(-0.5, 3.5) as f32 } };
    let (x, y) = (gen(s), gen(s));
    let (x, y) = ord(x, y);
    note!(s, "bp-rp {x} and {y}");
    s.nt(x != y);
    let (tx, ty) = (gc::bp_rp_to_teff(x), gc::bp_rp_to_teff(y));
    ensure!((3000.0..=15000.0).contains(&tx) && tx + 1e-2 >= ty && (ty >= 3000.0), "temperatures {tx} at {x}, {ty} at {y}: not decreasing with colour index");
    if y - x > 1e-3 && x >= -0.2 && y <= 3.0 { ensure!(tx > ty, "temperature does not fall from {x} ({tx}) to {y} ({ty})"); }
    let knots = [(-0.2f32, 15000.0f32), (0.0, 10000.0), (0.3, 8000.0), (0.65, 5800.0), (1.0, 5000.0), (1.5, 4000.0), (2.0, 3500.0), (2.5, 3200.0), (3.0, 3000.0)];
    let xc = x.clamp(-0.2, 3.0);
    let i = (0..8).find(|&i| xc <= knots[i + 1].0).unwrap_or(7);
    let w = knots[i].1 + (xc - knots[i].0) / (knots[i + 1].0 - knots[i].0) * (knots[i + 1].1 - knots[i].1);
    ensure!((tx - w).abs() <= 0.05, "temperature {tx} at {x}, linear between its knots gives {w}");
    let gamut = |c: [f32; 3]| c.iter().all(|u| (0.0..=1.0).contains(u));
    let (ta, tb) = ord(match s.draw(2) { 0 => s.f(500.0, 60000.0) as f32, _ => s.logf(800.0, 50000.0) as f32 }, match s.draw(2) { 0 => 6600.0, _ => s.f(500.0, 60000.0) as f32 });
    let (ca, cb) = (gc::blackbody_to_rgb(ta), gc::blackbody_to_rgb(tb));
    ensure!(gamut(ca) && gamut(cb), "{ta} K {ca:?}, {tb} K {cb:?}: out of gamut");
    ensure!(ca[0] + 1e-5 >= cb[0] && ca[2] <= cb[2] + 1e-5, "from {ta} K {ca:?} to {tb} K {cb:?}: red rises or blue falls with temperature");
    if tb <= 6600.0 { ensure!(ca[1] <= cb[1] + 1e-5, "from {ta} K {ca:?} to {tb} K {cb:?}: green falls below white"); }
    for (k, c) in [(ta, ca), (tb, cb)] {
        let w = blackbody_fit(k as f64);
        ensure!((0..3).all(|i| (c[i] as f64 - w[i]).abs() <= 1e-3), "black body of {k} K {c:?}, the published fit gives {w:?}");
    }
    let (px, py) = (gc::bp_rp_to_rgb(x, false), gc::bp_rp_to_rgb(y, false));
    let (lx, ly) = (gc::bp_rp_to_rgb(x, true), gc::bp_rp_to_rgb(y, true));
    for c in [px, py, lx, ly] { ensure!(gamut(c), "colour of {x} or {y} out of gamut: {c:?}"); }
    // black body of its temperature, saturation raised by 15 % about its own mean
    for (q, c) in [(x, px), (y, py)] {
        let b = gc::blackbody_to_rgb(gc::bp_rp_to_teff(q));
        let avg = (b[0] + b[1] + b[2]) / 3.0;
        for i in 0..3 {
            let w = (avg + (b[i] - avg) * 1.15).clamp(0.0, 1.0);
            ensure!((c[i] - w).abs() <= 1e-5, "colour {c:?} of bp-rp {q}: black body {b:?} with the saturation boost has channel {i} at {w}");
        }
    }
    // a redder star never looks bluer
    ensure!(px[2] - px[0] + 1e-5 >= py[2] - py[0], "bp-rp {x} {px:?}, {y} {py:?}: blue minus red grows with colour index");
    for i in 0..3 {
        let u = px[i] as f64;
        let l = if u <= 0.04045 { u / 12.92 } else { ((u + 0.055) / 1.055).powf(2.4) };
        ensure!((lx[i] as f64 - l).abs() <= 1e-5, "linear colour {} of sRGB {u}, standard transfer gives {l}", lx[i]);
    }
    // through a record
    let mut r = blank();
    let mag = |s: &mut Src| if s.chance(1, 6) { None } else { Some(s.f(-2.0, 22.0) as f32) };
    r.gmag = mag(s);
    r.rpmag = mag(s);
    r.bpmag = if s.chance(1, 6) { None } else { Some(r.rpmag.unwrap_or(5.0) + x) };
    match r.photometric_color() {
        None => ensure!(r.gmag.is_none() || r.bpmag.is_none() || r.rpmag.is_none(), "no colour though all magnitudes are given"),
        Some(c) => {
            ensure!(Some(c.gmag) == r.gmag && Some(c.bpmag) == r.bpmag && Some(c.rpmag) == r.rpmag, "magnitudes changed: {c:?}");
            let w = gc::bp_rp_to_rgb(c.bpmag - c.rpmag, true);
            ensure!((0..3).all(|i| (w[i] - c.rgb[i]).abs() <= 1e-6), "record colour {:?}, of its index {w:?}", c.rgb);
        }
    }
    r.jmag = mag(s);
    r.hmag = mag(s);
    r.kmag = mag(s);
    match r.photometric_infrared_rgb() {
        Some(GncCatalogInfraredColor::From2Mass { rgb, j, h, k }) => {
            ensure!(Some(j) == r.jmag && Some(h) == r.hmag && Some(k) == r.kmag, "infrared magnitudes changed");
            for (c, m) in rgb.iter().zip([k, h, j]) {
                let w = (1.0 - (m - 8.0) / 8.0).clamp(0.0, 1.0);
                ensure!((c - w).abs() <= 1e-5, "infrared channel {c} for magnitude {m}");
            }
        }
        _ => ensure!(r.jmag.is_none() || r.hmag.is_none() || r.kmag.is_none(), "infrared colour missing though all magnitudes are given"),
    }
    Ok(())
}

pub fn register(r: &mut Registry) {
    r.add("I01", "field and elements", 60_000, "off the equator and the ellipsoid", wmm_field);
    r.add("I01", "gradient of the potential", 10_000, "away from the exact pole", wmm_gradient);
    r.add("I01", "coefficients", 20_000, "date other than the epoch", wmm_table);
    r.add("I01", "official values", 5_000, "every published row", wmm_official);
    r.add("I02", "reading", 6_000, "well-formed and malformed rows mixed", star_read);
    r.add("I02", "integrity", 2_000, "file corrupted", star_digest);
    r.add("I02", "motion", 60_000, "both rates, an elapsed time and a parallax", star_motion);
    r.add("I02", "uncertainties", 60_000, "an elapsed time and both proper-motion errors", star_uncertainty);
    r.add("I02", "colours", 60_000, "two different colour indices", star_colour);
}
