//! A02: accelerated kernels against the scalar definition, with operands placed against guard pages.
use super::math::elem;
use crate::engine::*;
use crate::num::*;
use crate::{ensure, note};
use aether_core::math::arch::x86::{matrix_simd as ms, vector_simd as vs};
use aether_core::math::{Matrix, Vector};
use std::cell::OnceCell;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
const DATA: usize = 5 * PAGE;
/// inaccessible page, DATA bytes, inaccessible page
struct Arena(*mut u8);
impl Arena {
    fn new() -> Arena {
        unsafe {
            let p = mmap(std::ptr::null_mut(), DATA + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p, PAGE, 0) == 0 && mprotect(p.add(PAGE + DATA), PAGE, 0) == 0);
            Arena(p.add(PAGE))
        }
    }
    /// place: 0 = ends at the last mapped byte, 1 = starts at the first, 2.. = element offset inside
    fn at<T>(&self, place: u64, off: u64, fill: u8) -> *mut T {
        let n = std::mem::size_of::<T>();
        assert!(n <= DATA - 256);
        let al = std::mem::align_of::<T>();
        unsafe {
            std::ptr::write_bytes(self.0, fill, DATA);
            match place {
                0 => self.0.add(DATA - n) as *mut T,
                1 => self.0 as *mut T,
                _ => self.0.add((off as usize % 16) * al + 64) as *mut T,
            }
        }
    }
    /// bytes outside [p, p+n) still hold the fill value
    fn clean<T>(&self, p: *const T, fill: u8) -> Option<isize> {
        let n = std::mem::size_of::<T>();
        let s = unsafe { std::slice::from_raw_parts(self.0, DATA) };
        let a = p as usize - self.0 as usize;
        s.iter().enumerate().find(|(i, b)| (*i < a || *i >= a + n) && **b != fill).map(|(i, _)| i as isize - a as isize)
    }
}
thread_local! { static AR: OnceCell<[Arena; 3]> = const { OnceCell::new() }; }

/// Calls `f(a, b)` with both operands and (when it is returned through memory) the result placed
/// in guarded memory.
fn placed<A: Copy + PartialEq, B: Copy + PartialEq, C: Copy>(s: &mut Src, what: &str, a: &A, b: &B, f: unsafe fn(&A, &B) -> C) -> Result<C, Fail> {
    let (pa, pb, pc) = (s.draw(2), s.draw(2), s.draw(2));
    let (oa, ob, oc) = (s.draw(15), s.draw(15), s.draw(15));
    let fill = 0xA5;
    s.label_if(pa == 0, "lhs ends at the guard page");
    s.label_if(pb == 0, "rhs ends at the guard page");
    s.label_if(pa == 1 || pb == 1, "operand starts at the guard page");
    AR.with(|ar| {
        let ar = ar.get_or_init(|| [Arena::new(), Arena::new(), Arena::new()]);
        let qa = ar[0].at::<A>(pa, oa, fill);
        let qb = ar[1].at::<B>(pb, ob, fill);
        let qc = ar[2].at::<C>(pc, oc, fill);
        unsafe {
            qa.write(*a);
            qb.write(*b);
            // results larger than a few registers are written through a hidden first pointer
            let r = if std::mem::size_of::<C>() > 64 {
                let g: unsafe extern "C" fn(*mut C, *const A, *const B) = std::mem::transmute(f as *const ());
                g(qc, qa, qb);
                if let Some(d) = ar[2].clean(qc, fill) {
                    return Err(Fail::new(format!("{what}: byte at offset {d} from the result (size {}) was written", std::mem::size_of::<C>())));
                }
                *qc
            } else {
                f(&*qa, &*qb)
            };
            for (w, k, q, n) in [("lhs", 0, qa as *const u8, std::mem::size_of::<A>()), ("rhs", 1, qb as *const u8, std::mem::size_of::<B>())] {
                let bytes = std::slice::from_raw_parts(ar[k].0, DATA);
                let o = q as usize - ar[k].0 as usize;
                if let Some(i) = (0..DATA).find(|&i| (i < o || i >= o + n) && bytes[i] != fill) {
                    return Err(Fail::new(format!("{what}: byte at offset {} from {w} was written", i as isize - o as isize)));
                }
            }
            if !(*qa == *a && *qb == *b) {
                return Err(Fail::new(format!("{what}: an operand was modified")));
            }
            Ok(r)
        }
    })
}

fn verify<T: Fl>(what: &str, got: &[T], m: usize, n: usize, p: usize, a: &[T], b: &[T], exact: bool) -> R {
    for i in 0..m {
        for j in 0..p {
            let (mut w, mut ab) = (0.0, 0.0);
            for k in 0..n {
                let t = a[i * n + k].f() * b[k * p + j].f();
                w += t;
                ab += t.abs();
            }
            let tol = if exact { 0.0 } else { (n as f64 + 3.0) * T::E * ab + 1e-300 };
            let g = got[i * p + j].f();
            ensure!(close(g, w, tol), "{what} {} {m}x{n}*{n}x{p} element ({i},{j}): got {g} want {w} (tol {tol:e})", T::NAME);
        }
    }
    Ok(())
}
fn flat<T: Copy, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> Vec<T> { m.data.concat() }

fn gm<T: Fl, const M: usize, const N: usize>(s: &mut Src, st: u64) -> Matrix<T, M, N> {
    let mut d = [[T::of(0.0); N]; M];
    for r in d.iter_mut() { for x in r.iter_mut() { *x = elem(s, st); } }
    Matrix { data: d }
}
fn gv<T: Fl, const N: usize>(s: &mut Src, st: u64) -> Vector<T, N> {
    let mut d = [T::of(0.0); N];
    for x in d.iter_mut() { *x = elem(s, st); }
    Vector { data: d }
}

macro_rules! matvec {
    ($name:ident, $t:ty, $n:literal, $method:ident, [$($k:ident),*]) => {
        fn $name<const M: usize>(s: &mut Src) -> R {
            let st = s.draw(3);
            type F<const M: usize> = unsafe fn(&Matrix<$t, M, $n>, &Vector<$t, $n>) -> Vector<$t, M>;
            let all: &[(F<M>, &str)] = &[$((ms::$k::<M>, stringify!($k)),)* (|a, b| a.$method(b), stringify!($method)), (|a, b| a * b, "operator *")];
            let (f, w) = all[s.draw(all.len() as u64 - 1) as usize];
            let a = gm::<$t, M, $n>(s, st);
            let v = gv::<$t, $n>(s, st);
            note!(s, "{w} {M}x{} style {st} a={:?} v={:?}", $n, &flat(&a)[..6.min(M * $n)], v.data);
            s.nt(true);
            let y = placed(s, w, &a, &v, f)?;
            verify::<$t>(w, &y.data, M, $n, 1, &flat(&a), &v.data, st <= 1)
        }
    };
}
matvec!(v6_64, f64, 6, mul_vec6_simd, [mul_vec6_avx_fma_f64, mul_vec6_avx_f64, mul_vec6_fma128_f64, mul_vec6_sse2_f64]);
matvec!(v6_32, f32, 6, mul_vec6_simd, [mul_vec6_avx_fma_f32, mul_vec6_avx_f32, mul_vec6_fma128_f32, mul_vec6_sse_f32]);
matvec!(v4_64, f64, 4, mul_vec4_simd, [mul_vec4_avx_fma_f64, mul_vec4_avx_f64]);
matvec!(v4_32, f32, 4, mul_vec4_simd, [mul_vec4_sse_fma_f32, mul_vec4_sse_f32]);
macro_rules! rows {
    ($s:expr, $f:ident, [$($m:literal),*]) => {{
        let fs: &[fn(&mut Src) -> R] = &[$($f::<$m> as fn(&mut Src) -> R),*];
        let k = $s.draw(fs.len() as u64 - 1) as usize;
        fs[k]($s)
    }};
}
fn vec6_f64(s: &mut Src) -> R { rows!(s, v6_64, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 21]) }
fn vec6_f32(s: &mut Src) -> R { rows!(s, v6_32, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 20, 33]) }
fn vec4_f64(s: &mut Src) -> R { rows!(s, v4_64, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 21]) }
fn vec4_f32(s: &mut Src) -> R { rows!(s, v4_32, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 20, 33]) }

macro_rules! matmat {
    ($name:ident, $t:ty, $fma:ident, $avx:ident, $esz:literal) => {
        fn $name<const M: usize, const N: usize, const P: usize>(s: &mut Src) -> R {
            let st = s.draw(3);
            let which = s.draw(3);
            let a = gm::<$t, M, N>(s, st);
            let b = gm::<$t, N, P>(s, st);
            let (f, w): (unsafe fn(&Matrix<$t, M, N>, &Matrix<$t, N, P>) -> Matrix<$t, M, P>, &str) = match which {
                0 => (ms::$fma::<M, N, P>, stringify!($fma)),
                1 => (ms::$avx::<M, N, P>, stringify!($avx)),
                2 => (|a, b| a.mul_matrix_simd(b), "mul_matrix_simd"),
                _ => (|a, b| a * b, "operator *"),
            };
            note!(s, "{w} {M}x{N}*{N}x{P} style {st} a={:?} b={:?}", &flat(&a)[..6.min(M * N)], &flat(&b)[..6.min(N * P)]);
            s.nt(true);
            s.label_if(P % $esz != 0, "column remainder");
            s.label_if(P < $esz, "narrower than a register");
            let c = placed(s, w, &a, &b, f)?;
            verify::<$t>(w, &flat(&c), M, N, P, &flat(&a), &flat(&b), st <= 1)
        }
    };
}
matmat!(mat64, f64, mul_matrix_avx_fma_f64, mul_matrix_avx_f64, 4);
matmat!(mat32, f32, mul_matrix_avx_fma_f32, mul_matrix_avx_f32, 8);

macro_rules! shapes {
    ($s:expr, $f:ident, [$(($m:literal,$n:literal,$p:literal)),* $(,)?]) => {{
        let fs: &[fn(&mut Src) -> R] = &[$( $f::<$m,$n,$p> as fn(&mut Src)->R ),*];
        let k = $s.draw(fs.len() as u64 - 1) as usize;
        fs[k]($s)
    }};
}
fn matrix_f64(s: &mut Src) -> R {
    shapes!(s, mat64, [(1,1,1),(1,1,2),(2,2,3),(1,3,4),(3,3,3),(4,4,4),(2,3,5),(6,6,6),(3,2,7),(2,5,8),(4,1,9),(3,7,10),(5,5,11),(1,2,12),(7,3,13),(9,9,9),(16,16,16),(17,8,17),(3,20,19),(12,12,12),(5,9,23)])
}
fn matrix_f32(s: &mut Src) -> R {
    shapes!(s, mat32, [(1,1,1),(1,1,2),(2,2,3),(1,3,4),(3,3,3),(4,4,4),(2,3,5),(6,6,6),(3,2,7),(2,5,8),(4,1,9),(3,7,10),(5,5,11),(1,2,12),(7,3,13),(9,9,9),(16,16,16),(17,8,17),(3,20,19),(12,12,12),(5,9,23),(2,4,14),(3,4,15),(2,2,24),(4,5,31)])
}
macro_rules! fixed {
    ($name:ident, $t:ty, $n:literal, $method:ident) => {
        fn $name(s: &mut Src) -> R {
            let st = s.draw(3);
            let (a, b) = (gm::<$t, $n, $n>(s, st), gm::<$t, $n, $n>(s, st));
            note!(s, "{} {} style {st} a={:?} b={:?}", stringify!($method), stringify!($t), flat(&a), flat(&b));
            s.nt(true);
            let c = placed(s, stringify!($method), &a, &b, |a, b| a.$method(b))?;
            verify::<$t>(stringify!($method), &flat(&c), $n, $n, $n, &flat(&a), &flat(&b), st <= 1)
        }
    };
}
fixed!(m3_32, f32, 3, mul_mat3_simd);
fixed!(m4_32, f32, 4, mul_mat4_simd);
fixed!(m6_32, f32, 6, mul_mat6_simd);
fixed!(m3_64, f64, 3, mul_mat3_simd);
fixed!(m4_64, f64, 4, mul_mat4_simd);
fixed!(m6_64, f64, 6, mul_mat6_simd);
fn fixed_size(s: &mut Src) -> R {
    let fs: [fn(&mut Src) -> R; 6] = [m3_32, m3_64, m4_32, m4_64, m6_32, m6_64];
    let k = s.draw(5) as usize;
    fs[k](s)
}

fn dots(s: &mut Src) -> R {
    let st = s.draw(3);
    let which = s.draw(2);
    s.nt(true);
    if s.bool() {
        let (a, b) = (gv::<f64, 4>(s, st), gv::<f64, 4>(s, st));
        let (f, w): (unsafe fn(&Vector<f64, 4>, &Vector<f64, 4>) -> f64, &str) = match which {
            0 => (vs::dot4_avx_fma_f64, "dot4_avx_fma_f64"),
            1 => (vs::dot4_avx_f64, "dot4_avx_f64"),
            _ => (|a, b| a.dot4_simd(b), "dot4_simd f64"),
        };
        note!(s, "{w} {:?} . {:?}", a.data, b.data);
        let d = placed(s, w, &a, &b, f)?;
        verify::<f64>(w, &[d], 1, 4, 1, &a.data, &b.data, st <= 1)
    } else {
        let (a, b) = (gv::<f32, 4>(s, st), gv::<f32, 4>(s, st));
        let (f, w): (unsafe fn(&Vector<f32, 4>, &Vector<f32, 4>) -> f32, &str) = match which {
            0 => (vs::dot4_sse_fma_f32, "dot4_sse_fma_f32"),
            1 => (vs::dot4_sse_f32, "dot4_sse_f32"),
            _ => (|a, b| a.dot4_simd(b), "dot4_simd f32"),
        };
        note!(s, "{w} {:?} . {:?}", a.data, b.data);
        let d = placed(s, w, &a, &b, f)?;
        verify::<f32>(w, &[d], 1, 4, 1, &a.data, &b.data, st <= 1)
    }
}

pub fn register(r: &mut Registry) {
    for f in ["avx", "fma"] {
        let ok = match f { "avx" => std::is_x86_feature_detected!("avx"), _ => std::is_x86_feature_detected!("fma") };
        assert!(ok, "this machine lacks {f}");
    }
    r.add("A02", "mul_vec6_f64", 60_000, "every 6-column kernel and the dispatching method, 1..13 rows, operands against guard pages; every case is non-trivial", vec6_f64);
    r.add("A02", "mul_vec6_f32", 60_000, "same, single precision", vec6_f32);
    r.add("A02", "mul_vec4_f64", 60_000, "every 4-column kernel and the dispatching method", vec4_f64);
    r.add("A02", "mul_vec4_f32", 60_000, "same, single precision", vec4_f32);
    r.add("A02", "mul_matrix_f64", 80_000, "general product kernels, dispatch and operator, all column remainders", matrix_f64);
    r.add("A02", "mul_matrix_f32", 80_000, "same, single precision", matrix_f32);
    r.add("A02", "fixed_size", 60_000, "3x3, 4x4, 6x6 products", fixed_size);
    r.add("A02", "dot4", 60_000, "4-vectors", dots);
}
