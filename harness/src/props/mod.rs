#![allow(dead_code)]
use crate::engine::Registry;
mod math;
#[cfg(feature = "p_simd")]
mod simd;
#[cfg(feature = "p_real")]
mod realfn;
#[cfg(feature = "p_codec")]
mod codec;
#[cfg(feature = "p_att")]
mod attitude;
#[cfg(feature = "time")]
mod time;
#[cfg(feature = "units")]
mod units;
#[cfg(feature = "models")]
mod constants;
#[cfg(feature = "models")]
mod models;
#[cfg(feature = "shapes")]
mod shapes;
#[cfg(feature = "interp")]
mod interp;
#[cfg(feature = "opt")]
mod opt;
#[cfg(feature = "stats")]
mod stats;
#[cfg(feature = "ml")]
mod ml;
#[cfg(feature = "catalogs")]
mod catalogs;
#[cfg(feature = "graphics")]
mod graphics;
#[cfg(feature = "viz")]
mod viz;
#[cfg(feature = "asserts")]
mod asserts;

pub fn register(r: &mut Registry) {
    let _ = &r;
    #[cfg(feature = "p_math")]
    math::register(r);
    #[cfg(feature = "p_simd")]
    simd::register(r);
    #[cfg(feature = "p_real")]
    realfn::register(r);
    #[cfg(feature = "p_codec")]
    codec::register(r);
    #[cfg(feature = "p_att")]
    attitude::register(r);
    #[cfg(feature = "time")]
    time::register(r);
    #[cfg(feature = "units")]
    units::register(r);
    #[cfg(feature = "models")]
    constants::register(r);
    #[cfg(feature = "models")]
    models::register(r);
    #[cfg(feature = "shapes")]
    shapes::register(r);
    #[cfg(feature = "interp")]
    interp::register(r);
    #[cfg(feature = "opt")]
    opt::register(r);
    #[cfg(feature = "stats")]
    stats::register(r);
    #[cfg(feature = "ml")]
    ml::register(r);
    #[cfg(feature = "catalogs")]
    catalogs::register(r);
    #[cfg(feature = "graphics")]
    graphics::register(r);
    #[cfg(feature = "viz")]
    viz::register(r);
    #[cfg(feature = "asserts")]
    asserts::register(r);
}

pub fn rule(prop: &str) -> &'static str {
    let _ = prop;
    "cases are drawn from structured generators seeded by VERIF_SEED (one seed per case); each entry under `checks` states its generator and what makes one of its cases non-trivial; distinct = distinct choice sequences among the non-trivial ones (counted up to 2M per thread and check, a lower bound beyond)"
}
pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let _ = prop;
    vec!["the reference numerics in harness/src (plain f64 / integer code) are right", "x86-64 host with AVX and FMA"]
}
/// multiplier on the quick case counts, chosen so that one quick run explores for some 10-20 s
pub fn scale(prop: &str) -> f64 {
    match prop {
        "A01" => 30.0,
        "A02" => 3.0,
        "A04" => 60.0,
        "A03" => 40.0,
        "A06" => 30.0,
        "A05" => 80.0,
        "B01" | "B02" | "B03" | "B04" | "B05" => 1000.0,
        "C01" | "C03" | "C04" => 300.0,
        "C02" => 100.0,
        "C05" => 150.0,
        "D01" => 60.0,
        "E01" => 600.0,
        "E02" => 500.0,
        "E03" => 500.0,
        "E04" => 300.0,
        "E05" => 300.0,
        "F01" => 300.0,
        "F02" => 1500.0,
        "G01" => 50000.0,
        "G02" => 8000.0,
        "G03" => 30.0,
        "G04" => 40.0,
        "H01" => 20.0,
        "H02" => 20.0,
        "H03" => 5000.0,
        "H04" => 8000.0,
        "I01" => 15.0,
        "I02" => 6.0,
        "I03" => 25.0,
        "I04" => 10.0,
        "I05" => 3.0,
        "J01" => 150.0,
        _ => 1.0,
    }
}
