//! C01 durations, C02 time scales, C03 calendar, C04 schedules, C05 timers and mission clocks.
use crate::engine::*;
use crate::{ensure, note};
use aether_time::time::*;

const G: i128 = 1_000_000_000;
fn tot<TS>(t: &Time<TS>) -> i128 { t.sec as i128 * G + t.nano_sec as i128 }
fn dtot(d: &Duration) -> i128 { d.sec as i128 * G + d.nano_sec as i128 }
fn normal(n: i32) -> bool { (0..1_000_000_000).contains(&n) }

fn nanos(s: &mut Src) -> i32 {
    match s.draw(4) {
        0 => 0,
        1 => *s.pick(&[0, 1, 999_999_999, 500_000_000, 999_999_998]),
        2 => s.irange(0, 999) as i32 * 1_000_000,
        _ => s.irange(0, 999_999_999) as i32,
    }
}
fn secs(s: &mut Src) -> i64 {
    match s.draw(5) {
        0 => s.irange(-3, 3),
        1 => s.irange(-100_000, 100_000),
        2 => { let b = s.range(1, 60) as u32; let m = (1i64 << b) - 1; s.irange(-m, m) }
        3 => 1_700_000_000 + s.irange(-1_000_000_000, 1_000_000_000),
        _ => s.irange(-4_000_000_000, 4_000_000_000),
    }
}
fn gt<TS>(s: &mut Src) -> Time<TS> { let (a, b) = (secs(s), nanos(s)); Time::new(a, b) }
fn gd(s: &mut Src) -> Duration { let (a, b) = (secs(s), nanos(s)); Duration { sec: a, nano_sec: b } }
fn okd(what: &str, d: Duration, want: i128) -> R {
    ensure!(normal(d.nano_sec), "{what}: nanosecond part {} of {d:?} not in [0,1e9)", d.nano_sec);
    ensure!(dtot(&d) == want, "{what}: {d:?} is {} ns, want {want}", dtot(&d));
    Ok(())
}
fn okt<TS>(what: &str, t: Time<TS>, want: i128) -> R {
    ensure!(normal(t.nano_sec), "{what}: nanosecond part {} ({} s) not in [0,1e9)", t.nano_sec, t.sec);
    ensure!(tot(&t) == want, "{what}: {}s {}ns is {} ns, want {want}", t.sec, t.nano_sec, tot(&t));
    Ok(())
}

fn build(s: &mut Src) -> R {
    let big = |s: &mut Src| -> i64 {
        match s.draw(4) {
            0 => s.irange(-2_000, 2_000),
            1 => *s.pick(&[0, 1, -1, i64::MAX, i64::MIN, 999_999_999, 1_000_000_000, -1_000_000_000, -999_999_999, 1_000_000_001, -1_000_000_001]),
            2 => { let k = s.irange(-9_000_000_000, 9_000_000_000); let e = s.irange(-2, 2); k.saturating_mul(1000).saturating_add(e) }
            3 => { let b = s.range(1, 62) as u32; let m = (1i64 << b) - 1; s.irange(-m, m) }
            _ => s.irange(i64::MIN, i64::MAX),
        }
    };
    let n = big(s);
    note!(s, "count {n}");
    s.nt(n != 0);
    s.label_if(n < 0, "negative");
    s.label_if(n < 0 && n % 1_000_000_000 != 0, "negative with a fraction");
    okd("from_nanos", Duration::from_nanos(n), n as i128)?;
    okd("from_nanos_i64", Duration::from_nanos_i64(n), n as i128)?;
    okd("from_micros", Duration::from_micros(n), n as i128 * 1_000)?;
    okd("from_millis", Duration::from_millis(n), n as i128 * 1_000_000)?;
    okd("from_secs", Duration::from_secs(n), n as i128 * G)?;
    okd("zero", Duration::zero(), 0)?;
    // equal lengths from different units are equal values
    let k = s.irange(-9_000_000_000, 9_000_000_000);
    let (a, b, c, d) = (Duration::from_secs(k), Duration::from_millis(k * 1000), Duration::from_micros(k * 1_000_000), Duration::from_nanos(k * 1_000_000_000));
    ensure!(a == b && b == c && c == d, "{k} s built from s, ms, us, ns: {a:?} {b:?} {c:?} {d:?}");
    let k = s.irange(-9_000_000_000_000, 9_000_000_000_000);
    let (b, c, d) = (Duration::from_millis(k), Duration::from_micros(k * 1000), Duration::from_nanos(k * 1_000_000));
    ensure!(b == c && c == d, "{k} ms built from ms, us, ns: {b:?} {c:?} {d:?}");
    // any nanosecond field normalises to the same length
    let raw = Duration { sec: secs(s), nano_sec: match s.draw(2) { 0 => s.irange(-2_100_000_000, 2_100_000_000) as i32, 1 => *s.pick(&[i32::MIN, i32::MAX, -1, 1_000_000_000, -1_000_000_000, 2_000_000_000, -2_000_000_000]), _ => nanos(s) } };
    okd(&format!("normalize of {raw:?}"), raw.normalize(), dtot(&raw))
}
fn arith(s: &mut Src) -> R {
    let (t, u) = (gt::<UTC>(s), gt::<UTC>(s));
    let (d, e) = (gd(s), gd(s));
    note!(s, "t={}s {}ns u={}s {}ns d={d:?} e={e:?}", t.sec, t.nano_sec, u.sec, u.nano_sec);
    s.nt(d.nano_sec != 0 || d.sec != 0);
    s.label_if(t.nano_sec as i64 + d.nano_sec as i64 >= 1_000_000_000, "carry");
    s.label_if(d.sec < 0, "negative duration");
    s.label_if(t.sec < 0, "before 1970");
    okt("time + duration", t + d, tot(&t) + dtot(&d))?;
    okt("&time + duration", &t + d, tot(&t) + dtot(&d))?;
    okd("time - time", t - u, tot(&t) - tot(&u))?;
    okd("&time - &time", &t - &u, tot(&t) - tot(&u))?;
    okd("duration + duration", d + e, dtot(&d) + dtot(&e))?;
    okd("duration - duration", d - e, dtot(&d) - dtot(&e))?;
    okt("time + (other - time)", t + (u - t), tot(&u))?;
    // lengths written with the fraction on the negative side: {-2 s, -0.3 s} is -2.3 s
    let signed = |s: &mut Src, d: Duration| Duration { sec: d.sec, nano_sec: if s.bool() { -d.nano_sec } else { d.nano_sec } };
    let (a, b) = (signed(s, d), signed(s, e));
    s.label_if(t.nano_sec + a.nano_sec < 0, "borrow from a negative fraction");
    okt(&format!("time + {a:?}"), t + a, tot(&t) + dtot(&a))?;
    okt(&format!("&time + {a:?}"), &t + a, tot(&t) + dtot(&a))?;
    okd(&format!("{a:?} + {b:?}"), a + b, dtot(&a) + dtot(&b))?;
    okd(&format!("{a:?} - {b:?}"), a - b, dtot(&a) - dtot(&b))?;
    ensure!(t + (u - t) == u, "t + (u - t) != u");
    ensure!((t + d) - t == d, "(t + d) - t != d");
    // comparisons are those of the totals; near pairs too
    let v = if s.bool() { Time::<UTC>::new(t.sec, nanos(s)) } else { t };
    for (x, y) in [(t, u), (t, v), (u, v)] {
        let w = tot(&x).cmp(&tot(&y));
        ensure!(x.cmp(&y) == w && x.partial_cmp(&y) == Some(w) && (x == y) == w.is_eq() && (x < y) == w.is_lt() && (x >= y) == w.is_ge(), "instant comparison of {}s{}ns and {}s{}ns", x.sec, x.nano_sec, y.sec, y.nano_sec);
    }
    let f = if s.bool() { Duration { sec: d.sec, nano_sec: nanos(s) } } else { d };
    for (x, y) in [(d, e), (d, f), (e, f)] {
        let w = dtot(&x).cmp(&dtot(&y));
        ensure!(x.cmp(&y) == w && x.partial_cmp(&y) == Some(w) && (x == y) == w.is_eq() && (x < y) == w.is_lt() && (x >= y) == w.is_ge(), "duration comparison of {x:?} and {y:?}");
    }
    Ok(())
}
fn chain(s: &mut Src) -> R {
    let mut t = gt::<TAI>(s);
    let start = t;
    let mut d = Duration::zero();
    let (mut ti, mut di) = (tot(&t), 0i128);
    let n = if s.chance(1, 500) { s.range(26, 3000) } else { s.range(1, 25) };
    for i in 0..n {
        let x = match s.draw(4) {
            0 => Duration::from_nanos(s.irange(-3_000_000_000, 3_000_000_000)),
            1 => Duration::from_micros(s.irange(-3_000_000_000, 3_000_000_000)),
            2 => Duration::from_millis(s.irange(-3_000_000, 3_000_000)),
            3 => Duration::from_secs(s.irange(-100_000, 100_000)),
            _ => Duration { sec: s.irange(-1000, 1000), nano_sec: nanos(s) },
        };
        let xi = dtot(&x);
        match s.draw(3) {
            0 => { d = d - x; di -= xi; }
            1 => { d = d + x; di += xi; }
            2 => { t = t + x; ti += xi; d = d + x; di += xi; }
            _ => { t = &t + d; ti += di; }
        }
        okt(&format!("instant after {} operations", i + 1), t, ti)?;
        okd(&format!("duration after {} operations", i + 1), d, di)?;
    }
    note!(s, "{n} operations from {}s {}ns", start.sec, start.nano_sec);
    s.nt(n > 2);
    okd("total elapsed", t - start, ti - tot(&start))
}

// ------------------------------------------------------------------ C02
fn scales(s: &mut Src) -> R {
    let leaps = match s.draw(2) { 0 => 27, 1 => s.irange(0, 60) as i32, _ => s.irange(-20, 1000) as i32 };
    set_leap_seconds(leaps);
    let u = gt::<UTC>(s);
    note!(s, "leap seconds {leaps}, UTC {}s {}ns", u.sec, u.nano_sec);
    s.nt(true);
    s.label_if(leaps != 27, "non-default leap seconds");
    let off = 10 + leaps as i128;
    ensure!(tai_minus_utc() as i128 == off, "tai_minus_utc() is {} with {leaps} leap seconds", tai_minus_utc());
    ensure!(TAI_UTC_BASE_OFFSET == 10 && UNIX_GPS_EPOCH == 315_964_800 && GPS_WEEK_SECONDS == 604_800 && GPS_WEEK_MODULUS == 1024, "defining constants");
    let n = tot(&u);
    okt("UTC->Unix", u.to_unix(), n)?;
    okt("Unix->UTC", u.to_unix().to_utc(), n)?;
    let t = u.to_tai();
    okt("UTC->TAI", t, n + off * G)?;
    okt("UTC->TAI->UTC", t.to_utc(), n)?;
    let g = u.to_gps();
    okt("UTC->GPS", g, n + (off - 19 - 315_964_800) * G)?;
    okt("UTC->GPS->UTC", g.to_utc(), n)?;
    // TAI - GPS = 19 s whatever the leap seconds
    okt("GPS->TAI", g.to_tai(), tot(&g) + (315_964_800 + 19) * G)?;
    okt("TAI->GPS", t.to_gps(), tot(&t) - (315_964_800 + 19) * G)?;
    okt("TAI->GPS->TAI", t.to_gps().to_tai(), tot(&t))?;
    okt("GPS->TAI->GPS", g.to_tai().to_gps(), tot(&g))?;
    ensure!(Time::<UTC>::from_utc_datetime(UtcDateTime::new(1980, 1, 6, 0, 0, 0, 0)).sec == UNIX_GPS_EPOCH, "GPS epoch is not 1980-01-06");
    // a changed leap-second count shifts exactly the UTC-related conversions
    let l2 = leaps + s.irange(-3, 3) as i32;
    set_leap_seconds(l2);
    let dl = (l2 - leaps) as i128 * G;
    okt("UTC->TAI after a leap-second change", u.to_tai(), tot(&t) + dl)?;
    okt("UTC->GPS after a leap-second change", u.to_gps(), tot(&g) + dl)?;
    okt("TAI->UTC after a leap-second change", t.to_utc(), n - dl)?;
    okt("GPS->UTC after a leap-second change", g.to_utc(), n - dl)?;
    okt("TAI->GPS after a leap-second change", t.to_gps(), tot(&g))?;
    okt("UTC->Unix after a leap-second change", u.to_unix(), n)?;
    set_leap_seconds(27);
    Ok(())
}
fn gps_week(s: &mut Src) -> R {
    let week = match s.draw(3) { 0 => s.irange(0, 5000), 1 => *s.pick(&[0, 1, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 3071, 3072]), _ => s.irange(0, 4_000_000) };
    let sow = match s.draw(2) { 0 => *s.pick(&[0, 1, 604_799, 302_400]), _ => s.irange(0, 604_799) };
    let ns = nanos(s);
    let t = Time::<GPS>::new(week * 604_800 + sow, ns);
    let dh = match s.draw(2) { 0 => 0, 1 => *s.pick(&[511, -511, 1, -1, 510, 256, -256]), _ => s.irange(-511, 511) };
    let hint = (week + dh).max(0);
    note!(s, "week {week} sow {sow} hint {hint}");
    s.nt(week > 1023 && hint != week);
    s.label_if(hint / 1024 != week / 1024, "hint in another rollover era");
    let w = t.to_gps_week(hint as u32);
    ensure!(w.raw_week as i64 == week % 1024, "raw week {} want {}", w.raw_week, week % 1024);
    ensure!(w.sow == sow, "seconds of week {} want {sow}", w.sow);
    ensure!(w.full_week as i64 == week, "full week {} want {week} with hint {hint}", w.full_week);
    ensure!(w.full_week as i64 * GPS_WEEK_SECONDS + w.sow == t.sec, "week and seconds do not rebuild the instant");
    // any hint: the week nearest to it that has these low bits
    let h = s.irange(0, 10_000);
    let w = t.to_gps_week(h as u32);
    let f = w.full_week as i64;
    if h >= 512 {
        ensure!(f.rem_euclid(1024) == week % 1024 && (f - h).abs() <= 512, "week {f} for raw week {} and hint {h}", week % 1024);
    }
    // before the GPS epoch the fields stay in range
    let neg = Time::<GPS>::new(-s.irange(1, 4_000_000_000), ns);
    let w = neg.to_gps_week(h as u32);
    ensure!(w.raw_week < 1024 && (0..604_800).contains(&w.sow), "instant {} s: week {} seconds {}", neg.sec, w.raw_week, w.sow);
    ensure!((w.raw_week as i64 * 604_800 + w.sow - neg.sec).rem_euclid(1024 * 604_800) == 0, "instant {} s: week {} and seconds {} name another instant", neg.sec, w.raw_week, w.sow);
    Ok(())
}

// ------------------------------------------------------------------ C03
fn leap(y: i64) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
fn mdays(y: i64, m: i64) -> i64 {
    match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 }
}
/// days from 1970-01-01 to year-01-01, counted from the leap rules
fn year_start(y: i64) -> i64 {
    let k = y - 1;
    let d = 365 * y + k.div_euclid(4) - k.div_euclid(100) + k.div_euclid(400);
    d - (365 * 1970 + 1969 / 4 - 1969 / 100 + 1969 / 400)
}
fn day_number(y: i64, m: i64, d: i64) -> i64 {
    let mut n = year_start(y);
    for k in 1..m { n += mdays(y, k); }
    n + d - 1
}
fn civil(days: i64) -> (i64, i64, i64) {
    let mut y = 1970 + (days as f64 / 365.2425).floor() as i64;
    while year_start(y) > days { y -= 1; }
    while year_start(y + 1) <= days { y += 1; }
    let mut r = days - year_start(y);
    let mut m = 1;
    while r >= mdays(y, m) { r -= mdays(y, m); m += 1; }
    (y, m, r + 1)
}
fn gyear(s: &mut Src) -> i64 {
    match s.draw(4) {
        0 => s.irange(1890, 2110),
        1 => *s.pick(&[1970, 1900, 2000, 2100, 1600, 0, -1, -4, -100, -400, 4, 100, 400, 1, 1968, 1972, -399, -401]),
        2 => s.irange(-5000, 10_000),
        _ => s.irange(-2_000_000, 2_000_000),
    }
}
fn gdate(s: &mut Src) -> (i64, i64, i64) {
    let y = gyear(s);
    let m = s.irange(1, 12);
    let l = mdays(y, m);
    let d = match s.draw(3) { 0 => 1, 1 => l, _ => s.irange(1, l) };
    if s.chance(1, 5) { return if leap(y) { (y, 2, 29) } else { (y, 3, 1) } }
    (y, m, d)
}
fn gtod(s: &mut Src) -> (i64, i64, i64) {
    match s.draw(3) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (s.irange(0, 23), s.irange(0, 59), s.irange(0, 59)),
    }
}
fn cal_to(s: &mut Src) -> R {
    let (y, m, d) = gdate(s);
    let (h, mi, se) = gtod(s);
    let ns = nanos(s);
    note!(s, "{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{se:02}.{ns:09}");
    s.nt((y, m, d) != (1970, 1, 1));
    s.label_if(y < 1970, "before 1970");
    s.label_if(y < 0, "negative year");
    s.label_if(m == 2 && d == 29, "leap day");
    let sec = day_number(y, m, d) * 86400 + h * 3600 + mi * 60 + se;
    let dt = UtcDateTime::new(y as i32, m as u8, d as u8, h as u8, mi as u8, se as u8, ns);
    let t = Time::<UTC>::from_utc_datetime(dt);
    ensure!(t.sec == sec && t.nano_sec == ns, "from_utc_datetime({dt:?}) = {} s, want {sec}", t.sec);
    let b = t.to_utc_datetime();
    ensure!(b == dt, "to_utc_datetime gives {b:?} for {dt:?}");
    Ok(())
}
fn cal_from(s: &mut Src) -> R {
    let sec = match s.draw(4) {
        0 => s.irange(-200_000, 200_000),
        1 => s.irange(-10_000, 10_000) * 86400 + s.irange(-2, 2),
        2 => s.irange(-70_000_000_000, 300_000_000_000),
        3 => year_start(gyear(s)) * 86400 + s.irange(-2, 2),
        _ => s.irange(-60_000_000_000_000, 60_000_000_000_000),
    };
    let ns = nanos(s);
    note!(s, "instant {sec} s {ns} ns");
    s.nt(sec != 0);
    s.label_if(sec < 0, "before 1970");
    s.label_if(sec.rem_euclid(86400) == 86399, "last second of a day");
    for q in [sec, sec + 1] {
        let dt = Time::<UTC>::new(q, ns).to_utc_datetime();
        let (y, m, d) = civil(q.div_euclid(86400));
        let r = q.rem_euclid(86400);
        let w = UtcDateTime::new(y as i32, m as u8, d as u8, (r / 3600) as u8, (r / 60 % 60) as u8, (r % 60) as u8, ns);
        ensure!(dt == w, "instant {q} s is {dt:?}, want {w:?}");
        let back = Time::<UTC>::from_utc_datetime(dt);
        ensure!(back.sec == q && back.nano_sec == ns, "instant {q} comes back as {} through {dt:?}", back.sec);
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
fn gpattern(s: &mut Src) -> Recurrence {
    match s.draw(4) {
        0 => Recurrence::Hourly { minute: s.range(0, 59) as u8, second: s.range(0, 59) as u8 },
        1 => { let (h, m, x) = gtod(s); Recurrence::Daily { hour: h as u8, minute: m as u8, second: x as u8 } }
        2 => {
            let (h, mi, x) = gtod(s);
            let (mo, d) = match s.draw(3) {
                0 => (2, 29),
                1 => *s.pick(&[(1, 1), (12, 31), (2, 28), (3, 1), (4, 30), (1, 31)]),
                2 => *s.pick(&[(2, 30), (4, 31), (2, 31), (11, 31)]),
                _ => { let m = s.irange(1, 12); (m, s.irange(1, mdays(2001, m))) }
            };
            Recurrence::Yearly { month: mo as u8, day: d as u8, hour: h as u8, minute: mi as u8, second: x as u8 }
        }
        3 => Recurrence::Interval(match s.draw(3) {
            0 => Duration::from_millis(s.irange(1, 100_000)),
            1 => Duration::from_nanos(s.irange(1, 10_000_000_000)),
            2 => Duration::from_secs(s.irange(1, 1_000_000)),
            _ => Duration { sec: s.irange(0, 100), nano_sec: 1 + s.irange(0, 999_999_998) as i32 },
        }),
        _ => Recurrence::Once,
    }
}
/// earliest occurrence strictly after t (total nanoseconds), None: never
fn next_occ(p: &Recurrence, after: i128) -> Option<i128> {
    let sec = after.div_euclid(G) as i64;
    match *p {
        Recurrence::Hourly { minute, second } => {
            let off = minute as i64 * 60 + second as i64;
            Some((off + 3600 * ((sec - off).div_euclid(3600) + 1)) as i128 * G)
        }
        Recurrence::Daily { hour, minute, second } => {
            let off = hour as i64 * 3600 + minute as i64 * 60 + second as i64;
            Some((off + 86400 * ((sec - off).div_euclid(86400) + 1)) as i128 * G)
        }
        Recurrence::Yearly { month, day, hour, minute, second } => {
            let (y, _, _) = civil(sec.div_euclid(86400));
            for k in y..=y + 8 {
                if day as i64 > mdays(k, month as i64) { continue }
                let c = (day_number(k, month as i64, day as i64) * 86400 + hour as i64 * 3600 + minute as i64 * 60 + second as i64) as i128 * G;
                if c > after { return Some(c) }
            }
            None
        }
        Recurrence::Interval(p) => Some(after + dtot(&p)),
        Recurrence::Once => None,
    }
}
fn utc_of(n: i128) -> Time<UTC> { Time::new(n.div_euclid(G) as i64, n.rem_euclid(G) as i32) }
const FAR: i128 = 1i128 << 92;
fn schedule(s: &mut Src) -> R {
    let p = gpattern(s);
    let start = match s.draw(3) {
        0 => gdate_instant(s),
        1 => s.irange(-3_000_000_000, 3_000_000_000) as i128 * G + nanos(s) as i128,
        2 => s.irange(-200_000, 200_000) as i128 * G + nanos(s) as i128,
        _ => { // exactly at an occurrence or next to one
            let b = gdate_instant(s);
            let o = next_occ(&p, b).unwrap_or(b);
            o + *s.pick(&[0i128, 1, -1, G, -G, 999_999_999])
        }
    };
    let mut sc = UtcSchedule::new(utc_of(start), p);
    let mut due: Option<i128> = match p {
        Recurrence::Once => Some(start),
        _ => next_occ(&p, start),
    };
    note!(s, "{p:?} from {} s {} ns", start.div_euclid(G), start.rem_euclid(G));
    s.label_if(start < 0, "starts before 1970");
    s.label(match p { Recurrence::Once => "once", Recurrence::Interval(_) => "interval", Recurrence::Hourly { .. } => "hourly", Recurrence::Daily { .. } => "daily", Recurrence::Yearly { .. } => "yearly" });
    let n = if s.chance(1, 300) { s.range(13, 400) } else { s.range(1, 12) };
    let mut now = start - if s.bool() { s.irange(0, 10) as i128 * G } else { 0 };
    let mut fires = 0;
    for i in 0..=n {
        let nf = tot(&sc.next_fire());
        match due {
            Some(d) => ensure!(nf == d && normal(sc.next_fire().nano_sec), "poll {i}: next occurrence is {:?}, want {:?}", utc_of(nf).to_utc_datetime(), utc_of(d).to_utc_datetime()),
            None => ensure!(!matches!(p, Recurrence::Yearly { .. }) || nf > start + 9 * 366 * 86400 * G, "impossible yearly date {p:?} is due at {:?}", utc_of(nf).to_utc_datetime()),
        }
        if i == n { break }
        // next poll: relative to the due time or to now, skipping several periods at times
        let target = match (s.draw(5), due) {
            (0, Some(d)) => d,
            (1, Some(d)) => d - 1,
            (2, Some(d)) => d + s.irange(0, 2_000_000_000) as i128,
            (3, Some(d)) => {
                let per = match p { Recurrence::Interval(q) => dtot(&q), Recurrence::Hourly { .. } => 3600 * G, Recurrence::Daily { .. } => 86400 * G, Recurrence::Yearly { .. } => 366 * 86400 * G, Recurrence::Once => G };
                d + per * s.irange(0, 6) as i128 + s.irange(-1, 1) as i128
            }
            (4, _) => now,
            _ => now + s.irange(0, 100_000) as i128 * G,
        };
        now = now.max(target);
        let fired = sc.check(utc_of(now));
        let want = matches!(due, Some(d) if now >= d);
        ensure!(fired == want, "poll {i} at {} s {} ns: fired={fired}, due {:?}", now.div_euclid(G), now.rem_euclid(G), due.map(|d| (d.div_euclid(G), d.rem_euclid(G))));
        if want {
            fires += 1;
            due = match p {
                Recurrence::Interval(q) => { let q = dtot(&q); let d = due.unwrap(); Some(d + ((now - d).div_euclid(q) + 1) * q) }
                Recurrence::Once => None,
                _ => next_occ(&p, now),
            };
        }
        if matches!(p, Recurrence::Once) { ensure!(fires <= 1, "one-shot schedule fired {fires} times"); }
    }
    s.nt(fires > 0);
    s.label_if(fires > 1, "fired more than once");
    ensure!(now < FAR, "generator range");
    Ok(())
}
fn gdate_instant(s: &mut Src) -> i128 {
    let y = s.irange(1880, 2110);
    let m = s.irange(1, 12);
    let d = match s.draw(2) { 0 => mdays(y, m), 1 => 1, _ => s.irange(1, mdays(y, m)) };
    let (y, m, d) = if s.chance(1, 6) && leap(y) { (y, 2, 29) } else { (y, m, d) };
    let (h, mi, x) = gtod(s);
    (day_number(y, m, d) * 86400 + h * 3600 + mi * 60 + x) as i128 * G + nanos(s) as i128
}
fn alarm(s: &mut Src) -> R {
    let target = gdate_instant(s);
    let mut a = UtcAlarm::new(utc_of(target));
    let n = if s.chance(1, 300) { s.range(16, 400) } else { s.range(1, 15) };
    let mut now = target - s.irange(0, 20) as i128 * G;
    let mut done = false;
    ensure!(!a.is_done(), "a new alarm is done");
    note!(s, "alarm at {} s, {n} polls", target.div_euclid(G));
    for i in 0..n {
        now += match s.draw(3) { 0 => 0, 1 => s.irange(0, 3) as i128, 2 => s.irange(0, 10) as i128 * G, _ => { let g = target - now; if g > 0 { g - s.irange(0, 1) as i128 } else { 0 } } };
        let f = a.check(utc_of(now));
        let w = !done && now >= target;
        ensure!(f == w, "poll {i} at {} ns from the target: fired={f} want {w}", now - target);
        done |= w;
        ensure!(a.is_done() == done, "is_done() is {}", a.is_done());
    }
    s.nt(done);
    s.label_if(now == target, "polled exactly at the target");
    Ok(())
}

// ------------------------------------------------------------------ C05
fn gperiod(s: &mut Src) -> Duration {
    match s.draw(3) {
        0 => Duration::from_millis(s.irange(1, 5000)),
        1 => Duration::from_nanos(s.irange(1, 3_000_000_000)),
        2 => Duration::from_secs(s.irange(1, 100)),
        _ => Duration { sec: s.irange(0, 5), nano_sec: 1 + s.irange(0, 999_999_998) as i32 },
    }
}
fn timers_n<const N: usize>(s: &mut Src) -> R {
    let mut periods = [Duration::zero(); N];
    for p in periods.iter_mut() { *p = gperiod(s); }
    let mut per: Vec<i128> = periods.iter().map(dtot).collect();
    let minp = *per.iter().min().unwrap_or(&G);
    let mut set = TimerSet::<N>::new(periods);
    let mut single: Vec<TimerEvent> = periods.iter().map(|p| TimerEvent::new(*p)).collect();
    let mut acc = vec![0i128; N];
    let n = if s.chance(1, 400) { s.range(41, 5000) } else { s.range(1, 40) };
    note!(s, "periods {periods:?}, {n} steps");
    let (mut fires, mut multi) = (0, false);
    for i in 0..n {
        let base = if N > 0 { per[s.range(0, N - 1)] } else { G };
        let dt = match s.draw(6) {
            0 => 0,
            1 => base,
            2 => base - 1,
            3 => base / s.irange(1, 7) as i128,
            4 => base * s.irange(0, 5) as i128 + s.irange(-1, 1) as i128,
            5 => s.irange(0, 2_000_000_000) as i128,
            _ => s.irange(0, 10_000_000) as i128,
        }.clamp(0, (minp * 3000).min(500_000 * G));
        let d = Duration { sec: (dt / G) as i64, nano_sec: (dt % G) as i32 };
        let f = set.step(d);
        for k in 0..N {
            acc[k] += dt;
            let w = acc[k] >= per[k];
            if acc[k] >= 2 * per[k] { multi = true; }
            acc[k] %= per[k];
            if w { fires += 1; }
            ensure!(f[k] == w, "step {i} of {dt} ns: timer {k} (period {} ns) fired={} want {w}", per[k], f[k]);
            let g = single[k].step(d);
            ensure!(g == w, "step {i}: single timer {k} fired={g} want {w}");
        }
        // retune one timer now and then
        if N > 0 && s.chance(1, 12) {
            let k = s.range(0, N - 1);
            let p = gperiod(s);
            if dtot(&p) * 3000 >= minp {
                match set.event_mut(k) { Some(e) => *e = TimerEvent::new(p), None => return Err(Fail::new(format!("event_mut({k}) of {N} timers is None"))) }
                single[k] = TimerEvent::new(p);
                per[k] = dtot(&p);
                acc[k] = 0;
            }
        }
        ensure!(set.event_mut(N).is_none(), "event_mut({N}) of {N} timers exists");
    }
    s.nt(fires > 0 && n > 3);
    s.label_if(multi, "several periods in one step");
    Ok(())
}
fn timers(s: &mut Src) -> R {
    match s.draw(3) { 0 => timers_n::<1>(s), 1 => timers_n::<2>(s), 2 => timers_n::<3>(s), _ => match s.draw(9) { 0 => timers_n::<0>(s), 1 => timers_n::<32>(s), 2 => timers_n::<65>(s), _ => timers_n::<5>(s) } }
}
fn clocks(s: &mut Src) -> R {
    let leaps = if s.bool() { 27 } else { s.irange(0, 60) as i32 };
    set_leap_seconds(leaps);
    let named = [1u64, 10, 1000, 32_768, 1_000_000, 16_000_000, 1_000_000_000, 3, 7, 12_345_677, 168_000_000, 10_000_000_000];
    let tps = if s.chance(1, 3) { let k = s.range(0, 62); 1 + s.draw((u64::MAX >> k) - 1) } else { *s.pick(&named) };
    let t0 = match s.draw(3) { 0 => 0, 1 => u64::MAX - s.draw(1_000_000), 2 => s.draw(1_000_000_000), _ => s.draw(u64::MAX) };
    let utc = gt::<UTC>(s);
    let utc = Time::<UTC>::new(utc.sec % (1 << 50), utc.nano_sec);
    let m1 = MissionEpoch::new_utc(utc);
    let off = (10 + leaps) as i128 * G;
    okt("mission epoch from UTC", m1.start(), tot(&utc) + off)?;
    let m2 = MissionEpoch::new_tai(Time::<TAI>::new(utc.sec, utc.nano_sec));
    okt("mission epoch from TAI", m2.start(), tot(&utc))?;
    let epoch = tot(&m1.start());
    let (ku, kg, kt) = (TimeKeeper::<UTC>::new(m1, t0, tps), TimeKeeper::<GPS>::new(m1, t0, tps), TimeKeeper::<TAI>::new(m1, t0, tps));
    note!(s, "{tps} ticks/s from tick {t0}, epoch {epoch} ns, leap seconds {leaps}");
    let n = if s.chance(1, 300) { s.range(13, 1000) } else { s.range(1, 12) };
    let mut cur = t0;
    let mut last = t0;
    let mut el: u128 = 0;
    let mut wrapped = false;
    for i in 0..n {
        let lim = (1u128 << 62).saturating_sub(el).min((1u128 << 40) * tps as u128).min(u64::MAX as u128) as u64;
        let d = match s.draw(4) { 0 => s.draw(3), 1 => tps.saturating_mul(s.draw(100)), 2 => s.draw(tps.saturating_mul(5)), 3 => s.draw(1_000_000_000), _ => { let k = s.range(3, 60); s.draw(u64::MAX >> k) } }.min(lim);
        let next = cur.wrapping_add(d);
        wrapped |= next < cur;
        cur = next;
        el += d as u128;
        let want = (el * 1_000_000_000 / tps as u128) as i128;
        okt(&format!("T+ at poll {i}"), ku.t_plus(cur), want)?;
        okt(&format!("T+ in GPS at poll {i}"), kg.t_plus(cur), want)?;
        let tai = epoch + want;
        okt("now_tai", ku.now_tai(cur), tai)?;
        okt("now_tai (TAI keeper)", kt.now_tai(cur), tai)?;
        okt("now_utc", ku.now_utc(cur), tai - off)?;
        okt("now_gps", kg.now_gps(cur), tai - (315_964_800 + 19) * G)?;
        okd(&format!("step length {i}"), ku.dt_from_ticks(&mut last, cur), (d as u128 * 1_000_000_000 / tps as u128) as i128)?;
        ensure!(last == cur, "dt_from_ticks leaves last tick at {last}, want {cur}");
    }
    s.nt(el > 0);
    s.label_if(wrapped, "counter wrapped");
    s.label_if(1_000_000_000 % tps != 0, "tick not a whole number of ns");
    set_leap_seconds(27);
    Ok(())
}

pub fn register(r: &mut Registry) {
    r.add("C01", "durations built from counts of each unit", 20000, "the count is not zero", build);
    r.add("C01", "instant and duration arithmetic and ordering", 20000, "the duration is not zero", arith);
    r.add("C01", "histories of additions and subtractions", 4000, "more than two operations", chain);
    r.add("C02", "UTC, TAI, GPS, Unix with varying leap seconds", 60000, "every case", scales).serial = true;
    r.add("C02", "GPS week splitting with rollover hints", 30000, "past the first rollover with a hint other than the week", gps_week);
    r.add("C03", "dates to instants and back", 20000, "not 1970-01-01", cal_to);
    r.add("C03", "instants to dates and back, consecutive seconds", 20000, "not the epoch", cal_from);
    r.add("C04", "schedules polled along a history against a model", 6000, "the schedule fired at least once", schedule);
    r.add("C04", "alarms fire once", 10000, "the target was reached", alarm);
    r.add("C05", "periodic timers over step histories", 5000, "a timer fired within more than three steps", timers);
    r.add("C05", "mission clocks over tick histories", 20000, "ticks elapsed", clocks).serial = true;
}
