//! Property-based testing engine: every case is a pure function of a "choice tape" (a list of
//! integers), generated from a seeded PRNG, replayed from a file, and shrunk by editing the tape.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ randomness
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

#[derive(Clone)]
enum Mode {
    Gen(u64),
    Replay(Vec<u64>, usize),
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: String,
}
impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), sig: String::new() }
    }
    pub fn sig(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), sig: sig.into() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::engine::Fail::new(format!($($arg)*))); }
    };
}
#[macro_export]
macro_rules! note {
    ($s:expr, $($arg:tt)*) => {
        if $s.wants_notes() { let t = format!($($arg)*); $s.push_note(t); }
    };
}

/// Source of choices for one case.
pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    notes: Option<Vec<String>>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub known_hits: Vec<String>,
    known: std::sync::Arc<HashSet<String>>,
    journal: Option<*mut u64>,
}

impl Src {
    fn new(mode: Mode, notes: bool, known: std::sync::Arc<HashSet<String>>) -> Src {
        Src {
            mode,
            tape: Vec::with_capacity(64),
            notes: if notes { Some(Vec::new()) } else { None },
            nontrivial: false,
            labels: Vec::new(),
            known_hits: Vec::new(),
            known,
            journal: None,
        }
    }
    pub fn wants_notes(&self) -> bool {
        self.notes.is_some()
    }
    pub fn push_note(&mut self, t: String) {
        if let Some(n) = &mut self.notes {
            if n.len() < 60 {
                n.push(t);
            }
        }
    }
    /// marks the case non-trivial when the stated rule holds
    pub fn nt(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// A mismatch with an exact, nameable signature. Listed signatures are recorded and the case
    /// goes on; anything else fails the case.
    pub fn finding(&mut self, sig: &str, msg: String) -> R {
        if self.known.contains(sig) {
            self.known_hits.push(sig.to_string());
            Ok(())
        } else {
            Err(Fail::sig(sig, msg))
        }
    }

    // ---- primitive draw: an integer in 0..=max, 0 is the simplest
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Gen(st) => {
                *st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = mix(*st);
                if max == u64::MAX {
                    r
                } else {
                    (((r as u128) * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                v.min(max)
            }
        };
        if let Some(j) = self.journal {
            unsafe {
                let n = *j;
                if n < 8000 {
                    *j.add(1 + n as usize) = v;
                    *j = n + 1;
                }
            }
        }
        self.tape.push(v);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        // shrinks towards the value closest to zero in the range
        let (lo, hi) = (lo as i128, hi as i128);
        let origin = if lo > 0 { lo } else if hi < 0 { hi } else { 0 };
        let span = (hi - lo) as u64;
        let d = self.draw(span) as i128;
        // order: origin, origin+1, origin-1, ...
        let up = hi - origin;
        let dn = origin - lo;
        let m = up.min(dn);
        let v = if d <= 2 * m {
            if d % 2 == 1 { origin + (d + 1) / 2 } else { origin - d / 2 }
        } else {
            let rest = d - 2 * m;
            if up > dn { origin + m + rest } else { origin - m - rest }
        };
        v as i64
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64 - 1) as usize;
        &xs[i]
    }
    pub fn unit(&mut self) -> f64 {
        self.draw((1u64 << 53) - 1) as f64 / (1u64 << 53) as f64
    }
    /// float in [lo, hi]; mixes "nice" grid points, ends and uniform values
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        match self.draw(7) {
            0 => lo + (hi - lo) * (self.draw(16) as f64 / 16.0),
            1 => {
                let e = self.draw(3);
                let d = (hi - lo) * 10f64.powi(-(self.draw(12) as i32)) * 0.5;
                match e {
                    0 => lo,
                    1 => hi,
                    2 => lo + d,
                    _ => hi - d,
                }
            }
            _ => lo + (hi - lo) * self.unit(),
        }
    }
    /// symmetric float around zero with magnitudes up to `m`: small integers, zero, tiny, uniform
    pub fn sym(&mut self, m: f64) -> f64 {
        match self.draw(9) {
            0 => {
                // one of the eighteen is minus zero
                let k = self.irange(-8, 9) as f64;
                let k = if k == 9.0 { -0.0 } else { k };
                if k.abs() <= m { k } else { k / 8.0 * m }
            }
            1 => {
                if self.bool() { m * (self.unit() * 2.0 - 1.0) * 1e-6 } else { 0.0 }
            }
            2 => (self.irange(-32, 32) as f64) / 32.0 * m,
            _ => m * (self.unit() * 2.0 - 1.0),
        }
    }
    /// log-uniform magnitude in [lo, hi], both positive
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        let u = match self.draw(5) {
            0 => self.draw(8) as f64 / 8.0,
            _ => self.unit(),
        };
        (lo.ln() + (hi.ln() - lo.ln()) * u).exp().clamp(lo, hi)
    }
    pub fn sgn(&mut self) -> f64 {
        if self.bool() { -1.0 } else { 1.0 }
    }
    /// angle in [-m, m] with emphasis on multiples of 45 degrees and their neighbourhoods
    pub fn angle(&mut self, m: f64) -> f64 {
        let q = core::f64::consts::FRAC_PI_4;
        let a = match self.draw(7) {
            0 => {
                let k = self.irange(-(m / q) as i64, (m / q) as i64);
                if k == 0 && self.bool() { -0.0 } else { k as f64 * q }
            }
            1 => {
                let k = self.irange(-(m / q) as i64, (m / q) as i64) as f64 * q;
                let e = 10f64.powi(-(self.range(1, 14) as i32));
                k + self.sgn() * e
            }
            _ => (self.unit() * 2.0 - 1.0) * m,
        };
        a.clamp(-m, m)
    }
    pub fn any_f64_bits(&mut self) -> f64 {
        match self.draw(5) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON]),
            _ => f64::from_bits(self.draw(u64::MAX)),
        }
    }
    pub fn any_f32_bits(&mut self) -> f32 {
        match self.draw(5) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::EPSILON]),
            _ => f32::from_bits(self.draw(u32::MAX as u64) as u32),
        }
    }
}

// ------------------------------------------------------------------ registry
pub struct Sub {
    pub prop: &'static str,
    pub name: &'static str,
    /// cases in the quick tier
    pub cases: u64,
    /// multiplier for the thorough tier
    pub mult: u64,
    /// one thread only (process-global state)
    pub serial: bool,
    pub rule: &'static str,
    pub f: fn(&mut Src) -> R,
}

pub struct Registry(pub Vec<Sub>);
impl Registry {
    pub fn add(&mut self, prop: &'static str, name: &'static str, cases: u64, rule: &'static str, f: fn(&mut Src) -> R) -> &mut Sub {
        self.0.push(Sub { prop, name, cases, mult: 25, serial: false, rule, f });
        self.0.last_mut().unwrap()
    }
}

// ------------------------------------------------------------------ running one case
thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{s} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// run code that is allowed to panic; Err carries the panic text
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn exec(sub: &Sub, src: &mut Src) -> R {
    match catch_unwind(AssertUnwindSafe(|| (sub.f)(src))) {
        Ok(r) => r,
        Err(_) => Err(Fail::new(format!("panic: {}", last_panic()))),
    }
}

pub fn case_seed(seed: u64, sub: &Sub, i: u64) -> u64 {
    mix(mix(seed ^ 0x5eed).wrapping_add(hash_str(sub.prop)) ^ hash_str(sub.name).rotate_left(17) ^ mix(i.wrapping_mul(0xD1B5_4A32_D192_ED03)))
}

fn shrink(sub: &Sub, mut tape: Vec<u64>, mut fail: Fail, known: &std::sync::Arc<HashSet<String>>) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut runs = 0u64;
    let budget = 6000u64;
    let mut try_tape = |cand: &[u64], runs: &mut u64| -> Option<(Vec<u64>, Fail)> {
        *runs += 1;
        let mut s = Src::new(Mode::Replay(cand.to_vec(), 0), false, known.clone());
        match exec(sub, &mut s) {
            Err(f) => Some((s.tape, f)),
            Ok(()) => None,
        }
    };
    let simpler = |a: &[u64], b: &[u64]| -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) };
    loop {
        let before = tape.clone();
        // delete chunks
        for size in [32usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < tape.len() && runs < budget && t0.elapsed().as_secs() < 30 {
                let mut c = tape.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                match try_tape(&c, &mut runs) {
                    Some((t, f)) if simpler(&t, &tape) => {
                        tape = t;
                        fail = f;
                    }
                    _ => i += size,
                }
            }
        }
        // lower values
        let mut i = 0;
        while i < tape.len() && runs < budget && t0.elapsed().as_secs() < 30 {
            if tape[i] != 0 {
                let mut c = tape.clone();
                c[i] = 0;
                if let Some((t, f)) = try_tape(&c, &mut runs) {
                    if simpler(&t, &tape) {
                        tape = t;
                        fail = f;
                        i += 1;
                        continue;
                    }
                }
                // binary search for a small failing value
                let (mut lo, mut hi) = (0u64, tape[i]);
                let mut steps = 0;
                while hi - lo > 1 && steps < 24 && runs < budget {
                    steps += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = tape.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    match try_tape(&c, &mut runs) {
                        Some((t, f)) if simpler(&t, &tape) => {
                            tape = t;
                            fail = f;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
        if tape == before || runs >= budget || t0.elapsed().as_secs() >= 30 {
            break;
        }
    }
    (tape, fail, runs)
}

// ------------------------------------------------------------------ running many
pub struct Violation {
    pub sub: String,
    pub index: u64,
    pub tape: Vec<u64>,
    pub fail: Fail,
    pub notes: Vec<String>,
    pub shrink_runs: u64,
}
#[derive(Default)]
pub struct SubStats {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub known: BTreeMap<String, u64>,
    pub secs: f64,
}

pub struct Journal(pub *mut u64);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
pub const JSLOTS: usize = 64;

pub fn run_sub(sub: &Sub, idx: u64, seed: u64, n: u64, threads: usize, known: &std::sync::Arc<HashSet<String>>, journal: Option<&Journal>) -> (SubStats, Option<Violation>) {
    let t0 = Instant::now();
    let threads = if sub.serial { 1 } else { threads };
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let tid = AtomicUsize::new(0);
    let total = Mutex::new(SubStats { name: sub.name.into(), rule: sub.rule.into(), ..Default::default() });
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let failures: Mutex<Vec<(u64, Vec<u64>, Fail)>> = Mutex::new(Vec::new());
    const CHUNK: u64 = 16;
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let (next, stop_at, tid, total, seen, failures) = (&next, &stop_at, &tid, &total, &seen, &failures);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let me = tid.fetch_add(1, Ordering::Relaxed);
                    let mut st = SubStats::default();
                    let mut hs: HashSet<u64> = HashSet::new();
                    'outer: loop {
                        let start = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if start >= n {
                            break;
                        }
                        for i in start..(start + CHUNK).min(n) {
                            if i >= stop_at.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if let Some(j) = journal {
                                unsafe {
                                    std::ptr::write_volatile(j.0.add(2 + me * 2), idx + 1);
                                    std::ptr::write_volatile(j.0.add(2 + me * 2 + 1), i);
                                }
                            }
                            let mut s = Src::new(Mode::Gen(case_seed(seed, sub, i)), i < 64 || i % (n / 8).max(1) == 0, known.clone());
                            let r = exec(sub, &mut s);
                            if let Some(j) = journal {
                                unsafe {
                                    // heartbeat
                                    std::ptr::write_volatile(j.0.add(2 + 2 * JSLOTS + me), std::ptr::read_volatile(j.0.add(2 + 2 * JSLOTS + me)) + 1);
                                }
                            }
                            st.evaluations += 1;
                            for l in &s.labels {
                                *st.labels.entry(l).or_insert(0) += 1;
                            }
                            for k in &s.known_hits {
                                *st.known.entry(k.clone()).or_insert(0) += 1;
                            }
                            if s.nontrivial {
                                st.nontrivial += 1;
                                let mut h = 0u64;
                                for v in &s.tape {
                                    h = mix(h ^ *v).wrapping_add(1);
                                }
                                // a counted lower bound: memory stops growing at 2M entries per thread
                                if hs.len() < 2_000_000 {
                                    hs.insert(h);
                                }
                                if let Some(nn) = &s.notes {
                                    if st.samples.len() < 2 && !nn.is_empty() {
                                        st.samples.push(nn.clone());
                                    }
                                }
                            }
                            if let Err(f) = r {
                                failures.lock().unwrap().push((i, s.tape.clone(), f));
                                stop_at.fetch_min(i, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    if let Some(j) = journal {
                        unsafe { std::ptr::write_volatile(j.0.add(2 + me * 2), 0) };
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += st.evaluations;
                    t.nontrivial += st.nontrivial;
                    for (k, v) in st.labels {
                        *t.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.known {
                        *t.known.entry(k).or_insert(0) += v;
                    }
                    for s in st.samples {
                        if t.samples.len() < 3 {
                            t.samples.push(s);
                        }
                    }
                    drop(t);
                    seen.lock().unwrap().extend(hs);
                })
                .unwrap();
        }
    });
    let mut st = total.into_inner().unwrap();
    st.distinct = seen.into_inner().unwrap().len() as u64;
    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| f.0);
    let v = fs.into_iter().next().map(|(i, tape, fail)| {
        // the last slot names the failing case, in case a smaller one never ends
        let mark = |v: u64| {
            if let Some(j) = journal {
                unsafe {
                    std::ptr::write_volatile(j.0.add(2 + (JSLOTS - 1) * 2 + 1), i);
                    std::ptr::write_volatile(j.0.add(2 + (JSLOTS - 1) * 2), v);
                }
            }
        };
        mark(idx + 1);
        let (tape, fail, runs) = shrink(sub, tape, fail, known);
        let (notes, _) = replay(sub, &tape, known);
        mark(0);
        Violation { sub: sub.name.into(), index: i, tape, fail, notes, shrink_runs: runs }
    });
    st.secs = t0.elapsed().as_secs_f64();
    (st, v)
}

pub fn replay(sub: &Sub, tape: &[u64], known: &std::sync::Arc<HashSet<String>>) -> (Vec<String>, R) {
    let mut s = Src::new(Mode::Replay(tape.to_vec(), 0), true, known.clone());
    let r = exec(sub, &mut s);
    (s.notes.unwrap_or_default(), r)
}

/// run one generated case, writing its tape to the journal page as it is drawn
pub fn one_case(sub: &Sub, seed: u64, i: u64, jr: *mut u64, known: &std::sync::Arc<HashSet<String>>) -> R {
    let mut s = Src::new(Mode::Gen(case_seed(seed, sub, i)), false, known.clone());
    s.journal = Some(jr);
    exec(sub, &mut s)
}

// ------------------------------------------------------------------ tiny JSON writer
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jlist(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))
}
