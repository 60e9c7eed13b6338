//! A04: binary and text encodings of the numeric types.
use crate::engine::*;
use crate::{ensure, note};
use aether_core::attitude::{DirectionCosineMatrix, Euler, Quaternion};
use aether_core::coordinate::Cartesian;
use aether_core::math::{Matrix, Vector};
use aether_core::reference_frame::{Body, ICRF};
use std::cell::RefCell;
use std::collections::HashSet;

trait El: Copy + PartialEq + std::fmt::Debug + bincode::Encode + bincode::Decode<()> + serde::Serialize + for<'d> serde::Deserialize<'d> + for<'d> bincode::BorrowDecode<'d, ()> + 'static {
    const NAME: &'static str;
    /// fixed number of bytes in the standard binary configuration, if any
    const WIDTH: Option<usize>;
    fn any(s: &mut Src) -> Self;
    fn finite(s: &mut Src) -> Self;
    fn le(&self) -> Vec<u8>;
    fn same(&self, o: &Self) -> bool;
}
impl El for f64 {
    const NAME: &'static str = "f64";
    const WIDTH: Option<usize> = Some(8);
    fn any(s: &mut Src) -> f64 { s.any_f64_bits() }
    fn finite(s: &mut Src) -> f64 { match s.draw(2) { 0 => s.irange(-1000, 1000) as f64, 1 => s.sym(1e6), _ => { let x = s.any_f64_bits(); if x.is_finite() { x } else { 0.5 } } } }
    fn le(&self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() }
    fn same(&self, o: &f64) -> bool { self.to_bits() == o.to_bits() }
}
impl El for f32 {
    const NAME: &'static str = "f32";
    const WIDTH: Option<usize> = Some(4);
    fn any(s: &mut Src) -> f32 { s.any_f32_bits() }
    fn finite(s: &mut Src) -> f32 { match s.draw(2) { 0 => s.irange(-1000, 1000) as f32, 1 => s.sym(1e6) as f32, _ => { let x = s.any_f32_bits(); if x.is_finite() { x } else { 0.5 } } } }
    fn le(&self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() }
    fn same(&self, o: &f32) -> bool { self.to_bits() == o.to_bits() }
}
impl El for i32 {
    const NAME: &'static str = "i32";
    const WIDTH: Option<usize> = None;
    fn any(s: &mut Src) -> i32 { s.irange(i32::MIN as i64, i32::MAX as i64) as i32 }
    fn finite(s: &mut Src) -> i32 { s.irange(-100000, 100000) as i32 }
    fn le(&self) -> Vec<u8> { vec![] }
    fn same(&self, o: &i32) -> bool { self == o }
}
impl El for u8 {
    const NAME: &'static str = "u8";
    const WIDTH: Option<usize> = Some(1);
    fn any(s: &mut Src) -> u8 { s.draw(255) as u8 }
    fn finite(s: &mut Src) -> u8 { s.draw(255) as u8 }
    fn le(&self) -> Vec<u8> { vec![*self] }
    fn same(&self, o: &u8) -> bool { self == o }
}

fn mat<T: El, const M: usize, const N: usize>(s: &mut Src, fin: bool) -> Matrix<T, M, N> {
    let z = T::finite(s);
    let mut d = [[z; N]; M];
    for r in d.iter_mut() { for x in r.iter_mut() { *x = if fin { T::finite(s) } else { T::any(s) }; } }
    Matrix { data: d }
}
fn flat<T: Copy, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> Vec<T> { m.data.concat() }
fn same<T: El>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)) }
fn rest(s: &mut Src) -> Vec<u8> { let n = s.draw(9); (0..n).map(|_| s.draw(255) as u8).collect() }

fn bin_mat<T: El, const M: usize, const N: usize>(s: &mut Src) -> R {
    let m: Matrix<T, M, N> = mat(s, false);
    let v: Vector<T, N> = Vector { data: m.data[M - 1] };
    let f = flat(&m);
    note!(s, "{} {M}x{N} {:?}", T::NAME, &f[..f.len().min(8)]);
    s.nt(true);
    let be = bincode::config::standard().with_big_endian().with_fixed_int_encoding();
    let cfg = bincode::config::standard();
    let bytes = bincode::encode_to_vec(m, cfg).map_err(|e| Fail::new(format!("encode: {e}")))?;
    if let Some(w) = T::WIDTH {
        ensure!(bytes.len() == w * M * N, "encoded {M}x{N} takes {} bytes", bytes.len());
        let want: Vec<u8> = f.iter().flat_map(|x| x.le()).collect();
        ensure!(bytes == want, "bytes are not the elements in row-major order: {bytes:?} want {want:?}");
    } else {
        // variable-width integers: the same bytes as the elements encoded one after another
        let want: Vec<u8> = f.iter().flat_map(|x| bincode::encode_to_vec(*x, cfg).unwrap()).collect();
        ensure!(bytes == want, "bytes are not the elements in row-major order");
    }
    let vb = bincode::encode_to_vec(v, cfg).map_err(|e| Fail::new(format!("encode: {e}")))?;
    let vw: Vec<u8> = v.data.iter().flat_map(|x| bincode::encode_to_vec(*x, cfg).unwrap()).collect();
    ensure!(vb == vw, "vector bytes are not its elements in order");
    // one stream: matrix, vector, matrix, other bytes
    let tail = rest(s);
    let mut stream = bytes.clone();
    stream.extend(&vb);
    stream.extend(&bytes);
    stream.extend(&tail);
    let (a, n1): (Matrix<T, M, N>, usize) = bincode::decode_from_slice(&stream, cfg).map_err(|e| Fail::new(format!("decode: {e}")))?;
    ensure!(n1 == bytes.len(), "decoder consumed {n1} of {} bytes", bytes.len());
    let (b, n2): (Vector<T, N>, usize) = bincode::borrow_decode_from_slice(&stream[n1..], cfg).map_err(|e| Fail::new(format!("decode: {e}")))?;
    let (c, n3): (Matrix<T, M, N>, usize) = bincode::borrow_decode_from_slice(&stream[n1 + n2..], cfg).map_err(|e| Fail::new(format!("decode: {e}")))?;
    ensure!(n2 == vb.len() && n3 == bytes.len(), "consumed {n2}/{n3}");
    ensure!(same(&flat(&a), &f) && same(&flat(&c), &f) && same(&b.data, &v.data), "decoded value differs: {:?} from {f:?}", flat(&a));
    let (t, n): ((Matrix<T, M, N>, Vector<T, N>), usize) = {
        let e = bincode::encode_to_vec((m, v), be).map_err(|e| Fail::new(format!("encode: {e}")))?;
        let r = bincode::decode_from_slice(&e, be).map_err(|e| Fail::new(format!("decode: {e}")))?;
        ensure!(r.1 == e.len(), "big-endian stream not consumed");
        r
    };
    ensure!(n > 0 && same(&flat(&t.0), &f) && same(&t.1.data, &v.data), "tuple decoded differently");
    let (r, _): (Matrix<T, M, N>, ()) = (bincode::decode_from_reader(std::io::BufReader::new(&stream[..]), cfg).map_err(|e| Fail::new(format!("reader: {e}")))?, ());
    ensure!(same(&flat(&r), &f), "decode from a reader differs");
    // every truncation is refused, by every entry point
    let cut = s.draw(bytes.len() as u64 - 1) as usize;
    ensure!(bincode::decode_from_slice::<Matrix<T, M, N>, _>(&bytes[..cut], cfg).is_err(), "{cut} of {} bytes accepted", bytes.len());
    ensure!(bincode::borrow_decode_from_slice::<Matrix<T, M, N>, _>(&bytes[..cut], cfg).is_err(), "{cut} of {} bytes accepted (borrowed)", bytes.len());
    let cv = s.draw(vb.len() as u64 - 1) as usize;
    ensure!(bincode::decode_from_slice::<Vector<T, N>, _>(&vb[..cv], cfg).is_err(), "{cv} of {} vector bytes accepted", vb.len());
    // a too small output buffer is an error, never a short result
    let mut small = vec![0u8; cut];
    ensure!(bincode::encode_into_slice(m, &mut small, cfg).is_err(), "encoded {} bytes into {cut}", bytes.len());
    // arbitrary bytes: a clean error, or a value that encodes to something that decodes to itself
    let junk: Vec<u8> = { let n = s.draw(40); (0..n).map(|_| s.draw(255) as u8).collect() };
    if let Ok((x, n)) = bincode::decode_from_slice::<Matrix<T, M, N>, _>(&junk, cfg) {
        ensure!(n <= junk.len(), "consumed more than given");
        let e = bincode::encode_to_vec(x, cfg).unwrap();
        if T::WIDTH.is_some() { ensure!(e == junk[..n], "garbage decoded and re-encoded differently"); }
        s.label("garbage decodes");
    }
    Ok(())
}

// ------------------------------------------------------------------ text
fn to_json<V: serde::Serialize>(v: &V) -> Result<String, Fail> {
    let mut buf = vec![0u8; 8192];
    let n = serde_json_core::to_slice(v, &mut buf).map_err(|e| Fail::new(format!("to text: {e}")))?;
    buf.truncate(n);
    String::from_utf8(buf).map_err(|_| Fail::new("text encoding is not UTF-8"))
}
fn from_json<V: for<'d> serde::Deserialize<'d>>(t: &str) -> Result<(V, usize), String> {
    serde_json_core::from_slice::<V>(t.as_bytes()).map_err(|e| e.to_string())
}
fn json_mat<T: El + aether_core::real::Real, const M: usize, const N: usize>(s: &mut Src) -> R {
    let m: Matrix<T, M, N> = mat(s, true);
    let v: Vector<T, N> = Vector { data: m.data[0] };
    let f = flat(&m);
    let t = to_json(&m)?;
    note!(s, "{} {M}x{N} {t}", T::NAME);
    s.nt(true);
    let (a, n): (Matrix<T, M, N>, usize) = from_json(&t).map_err(|e| Fail::new(format!("own text refused: {e} in {t}")))?;
    ensure!(n == t.len(), "{n} of {} characters consumed", t.len());
    ensure!(same(&flat(&a), &f), "text round trip gave {:?} from {f:?}", flat(&a));
    // the document is rows of elements: reading it as plain nested arrays gives the same rows
    let vt = to_json(&v)?;
    let (w, n): (Vector<T, N>, usize) = from_json(&vt).map_err(|e| Fail::new(format!("own text refused: {e} in {vt}")))?;
    ensure!(n == vt.len() && same(&w.data, &v.data), "vector text round trip");
    ensure!(t.starts_with(&format!("[{vt}")), "first row of the matrix text is not its first row: {t} / {vt}");
    // build documents by hand with the wrong arity
    let row = |n: usize| format!("[{}]", vec!["1"; n].join(","));
    let doc = |rows: &[usize]| format!("[{}]", rows.iter().map(|&n| row(n)).collect::<Vec<_>>().join(","));
    let good = doc(&vec![N; M]);
    ensure!(from_json::<Matrix<T, M, N>>(&good).is_ok(), "well-formed {good} refused");
    let mut rows = vec![N; M];
    let k = s.draw(M as u64 - 1) as usize;
    let what = s.draw(4);
    match what {
        0 => { rows[k] += 1 + s.draw(2) as usize; }
        1 => { rows[k] -= 1; }
        2 => { rows.push(N); }
        3 => { rows.pop(); }
        // same number of elements, different shape
        _ => { if M >= 2 { let o = (k + 1) % M; rows[k] += 1; rows[o] -= 1; } else { rows.push(N); } }
    }
    let bad = doc(&rows);
    ensure!(from_json::<Matrix<T, M, N>>(&bad).is_err(), "{M}x{N} accepted {bad}");
    // flat documents
    if M > 1 { let fl = row(M * N); ensure!(from_json::<Matrix<T, M, N>>(&fl).is_err(), "{M}x{N} accepted the flat list {fl}"); }
    for n in [N + 1, N + 2, N - 1] {
        let d = row(n);
        ensure!(from_json::<Vector<T, N>>(&d).is_err(), "length {N} accepted {d}");
    }
    // truncations and substitutions of one character
    let cut = s.draw(t.len() as u64 - 1) as usize;
    ensure!(from_json::<Matrix<T, M, N>>(&t[..cut]).is_err(), "accepted the truncated text {}", &t[..cut]);
    let mut g = t.clone().into_bytes();
    let at = s.draw(g.len() as u64 - 1) as usize;
    g[at] = *s.pick(b"[],x\"{}-.eE019 n\\\x00\xff");
    let _ = serde_json_core::from_slice::<Matrix<T, M, N>>(&g);
    let junk: Vec<u8> = { let n = s.draw(24); (0..n).map(|_| *s.pick(b"[[[]]],,,0123456789.-e ")).collect() };
    if let Ok((x, _)) = serde_json_core::from_slice::<Matrix<T, M, N>>(&junk) { let _ = to_json(&x); s.label("garbage decodes"); }
    Ok(())
}

macro_rules! pickf {
    ($s:expr, $f:ident, [$(($t:ty,$m:literal,$n:literal)),* $(,)?]) => {{
        let fs: &[fn(&mut Src) -> R] = &[$( $f::<$t,$m,$n> as fn(&mut Src)->R ),*];
        let k = $s.draw(fs.len() as u64 - 1) as usize;
        fs[k]($s)
    }};
}
fn binary(s: &mut Src) -> R {
    pickf!(s, bin_mat, [(f64,1,1),(f32,1,1),(f64,2,3),(f32,3,2),(f64,3,3),(f32,4,4),(f64,1,6),(f64,6,1),(f32,5,2),(i32,2,2),(i32,3,1),(u8,4,3),(u8,1,9),(f64,6,6),(f32,9,7)])
}
fn text(s: &mut Src) -> R {
    pickf!(s, json_mat, [(f64,1,1),(f32,1,1),(f64,2,3),(f32,3,2),(f64,3,3),(f32,4,4),(f64,1,6),(f64,6,1),(f32,5,2),(f32,4,3),(f32,1,9),(f64,6,6)])
}

// ------------------------------------------------------------------ composite types
macro_rules! rt {
    ($s:expr, $v:expr, $ty:ty, $bits:expr, $what:literal, $fin:expr) => {{
        let v: $ty = $v;
        let bits = $bits;
        let cfg = bincode::config::standard();
        let b = bincode::encode_to_vec(&v, cfg).map_err(|e| Fail::new(format!("{}: {e}", $what)))?;
        let (w, n): ($ty, usize) = bincode::decode_from_slice(&b, cfg).map_err(|e| Fail::new(format!("{}: {e}", $what)))?;
        ensure!(n == b.len() && bits(&w) == bits(&v), "{} binary round trip: {:?} from {:?}", $what, w, v);
        let want: Vec<u8> = bits(&v).iter().flat_map(|x: &u64| x.to_le_bytes()).collect();
        ensure!(b == want, "{} bytes are not its components in order", $what);
        let cut = $s.draw(b.len() as u64 - 1) as usize;
        ensure!(bincode::decode_from_slice::<$ty, _>(&b[..cut], cfg).is_err(), "{} accepted {cut} of {} bytes", $what, b.len());
        if $fin {
            let t = to_json(&v)?;
            let (w, n): ($ty, usize) = from_json(&t).map_err(|e| Fail::new(format!("{}: {e} in {t}", $what)))?;
            ensure!(n == t.len() && bits(&w) == bits(&v), "{} text round trip: {t}", $what);
            let cut = $s.draw(t.len() as u64 - 1) as usize;
            ensure!(from_json::<$ty>(&t[..cut]).is_err(), "{} accepted the truncated text {}", $what, &t[..cut]);
        }
    }};
}
type I = ICRF<f64>;
type B = Body<f64>;
fn composite(s: &mut Src) -> R {
    let fin = s.bool();
    let mut d = [0.0f64; 9];
    for x in d.iter_mut() { *x = if fin { f64::finite(s) } else { f64::any(s) }; }
    note!(s, "{d:?}");
    s.nt(true);
    s.label_if(fin, "text too");
    let c = |k: usize| Cartesian::<f64, B>::new(d[k], d[k + 1], d[k + 2]);
    let cb = |c: &Cartesian<f64, B>| c.data.data.iter().map(|x| x.to_bits()).collect::<Vec<u64>>();
    rt!(s, c(0), Cartesian<f64, B>, cb, "Cartesian", fin);
    rt!(s, Quaternion::<f64, I, B>::new(d[0], d[1], d[2], d[3]), Quaternion<f64, I, B>, |q: &Quaternion<f64, I, B>| q.data.data.iter().map(|x| x.to_bits()).collect::<Vec<u64>>(), "Quaternion", fin);
    rt!(s, DirectionCosineMatrix::<f64, I, B>::new(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]), DirectionCosineMatrix<f64, I, B>,
        |m: &DirectionCosineMatrix<f64, I, B>| m.as_matrix().data.concat().iter().map(|x| x.to_bits()).collect::<Vec<u64>>(), "DirectionCosineMatrix", fin);
    rt!(s, Euler::<f64, I, B>::new(d[0], d[1], d[2]), Euler<f64, I, B>, |e: &Euler<f64, I, B>| e.data.data.iter().map(|x| x.to_bits()).collect::<Vec<u64>>(), "Euler", fin);
    rt!(s, Body::<f64>::new(c(0), c(3)), Body<f64>, |b: &Body<f64>| { let mut v = cb(&b.mass_center); v.extend(cb(&b.lever_arm)); v }, "Body", fin);
    Ok(())
}

// ------------------------------------------------------------------ elements that own something
thread_local! {
    static LIVE: RefCell<(u64, HashSet<u64>, bool)> = RefCell::new((0, HashSet::new(), false));
}
/// an element with an identity: dropping it twice, or never, is visible
#[derive(Debug)]
struct Own(u64, u8);
fn fresh(v: u8) -> Own {
    LIVE.with(|l| { let mut l = l.borrow_mut(); l.0 += 1; let id = l.0; l.1.insert(id); Own(id, v) })
}
impl Drop for Own {
    fn drop(&mut self) {
        LIVE.with(|l| { let mut l = l.borrow_mut(); if !l.1.remove(&self.0) { l.2 = true; } })
    }
}
impl bincode::Encode for Own {
    fn encode<E: bincode::enc::Encoder>(&self, e: &mut E) -> Result<(), bincode::error::EncodeError> { self.1.encode(e) }
}
impl<C> bincode::Decode<C> for Own {
    fn decode<D: bincode::de::Decoder<Context = C>>(d: &mut D) -> Result<Self, bincode::error::DecodeError> {
        let v = <u8 as bincode::Decode<C>>::decode(d)?;
        if v >= 250 { return Err(bincode::error::DecodeError::Other("bad element")); }
        Ok(fresh(v))
    }
}
bincode::impl_borrow_decode!(Own);
impl<'d> serde::Deserialize<'d> for Own {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        let v = u8::deserialize(d)?;
        if v >= 250 { return Err(serde::de::Error::custom("bad element")); }
        Ok(fresh(v))
    }
}
fn owned_case<const M: usize, const N: usize>(s: &mut Src) -> R {
    LIVE.with(|l| *l.borrow_mut() = (0, HashSet::new(), false));
    let mut b: Vec<u8> = (0..M * N).map(|_| s.draw(249) as u8).collect();
    let fail_at = if s.chance(2, 3) { let k = s.draw((M * N) as u64 - 1) as usize; b[k] = 250 + s.draw(5) as u8; Some(k) } else { None };
    let cut = if s.bool() { let c = s.draw((M * N) as u64 - 1) as usize; b.truncate(c); Some(c) } else { None };
    let expect_ok = cut.is_none() && fail_at.is_none();
    let way = s.draw(2);
    note!(s, "{M}x{N} owned elements, bad element at {fail_at:?}, truncated to {cut:?}, way {way}: {b:?}");
    s.nt(!expect_ok);
    let got: Option<Vec<u8>> = match way {
        0 => bincode::decode_from_slice::<Matrix<Own, M, N>, _>(&b, bincode::config::standard().with_fixed_int_encoding()).ok().map(|m| m.0.data.iter().flatten().map(|o| o.1).collect()),
        1 => bincode::borrow_decode_from_slice::<Matrix<Own, M, N>, _>(&b, bincode::config::standard()).ok().map(|m| m.0.data.iter().flatten().map(|o| o.1).collect()),
        _ => {
            // text: the same elements as rows; truncation drops elements from the last rows
            let rows: Vec<String> = b.chunks(N).map(|r| format!("[{}]", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
            let mut t = format!("[{}]", rows.join(","));
            if expect_ok && s.bool() {
                // an extra row or element after complete contents
                t = if s.bool() { t.replacen("]]", ",7]]", 1) } else { t.replacen("]]", "],[1]]", 1) };
                s.nt(true);
                let r = serde_json_core::from_slice::<Matrix<Own, M, N>>(t.as_bytes());
                ensure!(r.is_err(), "surplus accepted: {t}");
                drop(r);
                let (live, dbl) = LIVE.with(|l| { let l = l.borrow(); (l.1.len(), l.2) });
                ensure!(!dbl, "an element was dropped twice while refusing {t}");
                ensure!(live == 0, "{live} elements never dropped while refusing {t}");
                return Ok(());
            }
            serde_json_core::from_slice::<Matrix<Own, M, N>>(t.as_bytes()).ok().map(|m| m.0.data.iter().flatten().map(|o| o.1).collect())
        }
    };
    let (live, dbl) = LIVE.with(|l| { let l = l.borrow(); (l.1.len(), l.2) });
    ensure!(got.is_some() == expect_ok, "decode of {b:?} gave {got:?}");
    if let Some(g) = got { ensure!(g == b, "elements {g:?} from {b:?}"); }
    ensure!(!dbl, "an element was dropped twice");
    ensure!(live == 0, "{live} decoded elements were never dropped");
    Ok(())
}
fn owned(s: &mut Src) -> R {
    let fs: &[fn(&mut Src) -> R] = &[owned_case::<1, 1>, owned_case::<1, 4>, owned_case::<2, 2>, owned_case::<3, 2>, owned_case::<2, 5>, owned_case::<5, 3>];
    let k = s.draw(fs.len() as u64 - 1) as usize;
    fs[k](s)
}

/// the numbers in a printed text, in order
fn numbers(t: &str) -> Vec<String> {
    t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).filter(|w| {
        let w = w.trim_start_matches(|c| c == '-' || c == '+');
        w.starts_with(|c: char| c.is_ascii_digit() || c == '.') || w == "inf" || w == "NaN"
    }).map(|w| w.to_string()).collect()
}
fn printed_as<T: El + std::str::FromStr>(what: &str, text: &str, want: &[T]) -> R {
    let n = numbers(text);
    let got: Vec<Option<T>> = n.iter().map(|w| w.parse::<T>().ok()).collect();
    ensure!(got.len() == want.len(), "{what} {want:?} prints as {text:?}: {} numbers", got.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g.as_ref().is_some_and(|g| g.same(w)), "{what} {want:?} prints as {text:?}: number {i} reads back as {g:?}");
    }
    Ok(())
}
/// what is printed reads back: every element once, in order, with all its digits
fn printed_t<T: El + std::str::FromStr + aether_core::real::Real + std::fmt::Display>(s: &mut Src) -> R {
    macro_rules! mats { ($(($k:literal, $m:literal, $n:literal)),*) => { match s.draw(7) { $($k => { let m = mat::<T, $m, $n>(s, true); printed_as("matrix", &m.to_string(), &flat(&m)) })* _ => unreachable!() } } }
    note!(s, "{}", T::NAME);
    s.nt(true);
    mats!((0, 1, 1), (1, 1, 5), (2, 2, 2), (3, 3, 2), (4, 2, 4), (5, 4, 1), (6, 3, 3), (7, 6, 7))?;
    let q: [T; 4] = [T::finite(s), T::finite(s), T::finite(s), T::finite(s)];
    let d = [q[0], q[1], q[2]];
    printed_as("vector", &Vector::new(q).to_string(), &q)?;
    printed_as("vector", &Vector::new([q[0]]).to_string(), &q[..1])?;
    printed_as("Cartesian vector", &Cartesian::<T, ICRF<T>>::new(d[0], d[1], d[2]).to_string(), &d)?;
    printed_as("Euler angles", &Euler::<T, ICRF<T>, Body<T>>::new(d[0], d[1], d[2]).to_string(), &d)?;
    printed_as("quaternion", &Quaternion::<T, ICRF<T>, Body<T>>::new(q[0], q[1], q[2], q[3]).to_string(), &q)?;
    let m = mat::<T, 3, 3>(s, true);
    let c = DirectionCosineMatrix::<T, ICRF<T>, Body<T>>::new(m.data[0][0], m.data[0][1], m.data[0][2], m.data[1][0], m.data[1][1], m.data[1][2], m.data[2][0], m.data[2][1], m.data[2][2]);
    printed_as("direction cosines", &c.to_string(), &flat(c.as_matrix()))
}
fn printed(s: &mut Src) -> R { if s.bool() { printed_t::<f64>(s) } else { printed_t::<f32>(s) } }

pub fn register(r: &mut Registry) {
    r.add("A04", "binary", 60_000, "arbitrary bit patterns in 15 shapes/types; streams, truncations, garbage; every case is non-trivial", binary);
    r.add("A04", "text", 40_000, "finite values; wrong arity, truncation, substitution, garbage documents; every case is non-trivial", text);
    r.add("A04", "composite", 40_000, "Cartesian, Quaternion, DCM, Euler, Body", composite);
    r.add("A04", "printed form", 20_000, "finite values in 8 matrix shapes, vectors, attitudes; every case is non-trivial", printed);
    r.add("A04", "owned_elements", 60_000, "elements with identity; non-trivial: the decode is refused part-way", owned);
}
