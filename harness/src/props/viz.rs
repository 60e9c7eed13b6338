//! I04 live CSV tailing, I05 charts.
use crate::engine::*;
use crate::{ensure, note};
use aether_viz::*;
use std::io::Write;
use std::path::PathBuf;

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("aether-tail-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
#[derive(PartialEq, Debug, Clone)]
struct View { headers: Vec<String>, x: Vec<u64>, y: Vec<Vec<u64>> }
/// Reading the whole file afresh: the reference the incremental reader must agree with.
fn reference(bytes: &[u8], header: bool, xcol: &str, ycols: &[String], max: Option<usize>) -> Option<View> {
    let end = bytes.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let mut v = View { headers: vec![], x: vec![], y: vec![vec![]; ycols.len()] };
    let mut idx: Option<(usize, Vec<usize>)> = if header { None } else { Some((xcol.parse().ok()?, ycols.iter().map(|c| c.parse().ok()).collect::<Option<_>>()?)) };
    for raw in bytes[..end].split(|b| *b == b'\n') {
        let line = String::from_utf8_lossy(raw);
        let line = line.trim();
        if line.is_empty() { continue; }
        let cells: Vec<&str> = line.split(',').map(|c| c.trim()).collect();
        if header && idx.is_none() {
            v.headers = cells.iter().map(|c| c.to_string()).collect();
            let find = |n: &str| cells.iter().position(|c| *c == n);
            idx = Some((find(xcol)?, ycols.iter().map(|c| find(c)).collect::<Option<_>>()?));
            continue;
        }
        let (xi, yi) = idx.as_ref().unwrap();
        let get = |i: usize| cells.get(i).and_then(|c| c.parse::<f64>().ok()).filter(|f| f.is_finite());
        let Some(x) = get(*xi) else { continue };
        let Some(ys) = yi.iter().map(|i| get(*i)).collect::<Option<Vec<f64>>>() else { continue };
        v.x.push(x.to_bits());
        for (c, y) in v.y.iter_mut().zip(ys) { c.push(y.to_bits()); }
    }
    if let Some(m) = max {
        let n = v.x.len();
        if n > m {
            v.x.drain(..n - m);
            for c in v.y.iter_mut() { c.drain(..n - m); }
        }
    }
    Some(v)
}
const NAMES: [&str; 5] = ["time", "alt", "v x", "größe", "flag"];
fn header_line(s: &mut Src) -> (Vec<usize>, Vec<u8>) {
    let mut order: Vec<usize> = (0..5).collect();
    for i in (1..5).rev() { let j = s.range(0, i); order.swap(i, j); }
    let sep = *s.pick(&[",", ", ", " ,"]);
    let t = order.iter().map(|i| NAMES[*i]).collect::<Vec<_>>().join(sep);
    (order, t.into_bytes())
}
fn data_line(s: &mut Src) -> Vec<u8> {
    let n = match s.draw(8) { 0 => s.range(0, 4), 1 => 6, _ => 5 };
    let mut l = vec![];
    for i in 0..n {
        if i > 0 { l.push(b','); }
        let c: Vec<u8> = match s.draw(11) {
            0 => vec![],
            1 => s.pick(&["n/a", "12.5.1", "größe", "1 2", "--", "☃", "0x10"]).as_bytes().to_vec(),
            2 => s.pick(&["nan", "inf", "-Infinity", "NaN"]).as_bytes().to_vec(),
            3 if s.chance(1, 3) => s.pick(&[&b"\xff"[..], b"\xc3", b"1\xe2\x82", b"\x80" as &[u8]]).to_vec(),
            4 => format!(" {} ", s.irange(-99, 99)).into_bytes(),
            5 => format!("{:e}", s.sgn() * s.logf(1e-300, 1e300)).into_bytes(),
            _ => format!("{}", s.irange(-1000, 1000) as f64 / 8.0).into_bytes(),
        };
        l.extend(c);
    }
    l
}
fn eol(s: &mut Src) -> &'static [u8] { *s.pick(&[&b"\n"[..], b"\r\n", b"\n", b"\n\n", b" \n"]) }
/// some whole lines; the first is a header when asked
fn content(s: &mut Src, header: bool, most: usize) -> Vec<u8> {
    let mut b = vec![];
    if header {
        if s.chance(1, 8) { b.extend_from_slice(b"\n  \r\n"); }
        b.extend(header_line(s).1);
        b.extend_from_slice(eol(s));
    }
    for _ in 0..s.range(0, most) {
        b.extend(data_line(s));
        b.extend_from_slice(eol(s));
    }
    b
}
fn pick_cols(s: &mut Src, header: bool) -> Vec<String> {
    (0..s.range(1, 3)).map(|_| { let i = s.range(0, 4); if header { NAMES[i].to_string() } else { i.to_string() } }).collect()
}
fn view(p: &CsvRealtimePlotter) -> View {
    View { headers: p.available_columns().to_vec(), x: p.x_values().iter().map(|f| f.to_bits()).collect(), y: p.y_values().iter().map(|c| c.iter().map(|f| f.to_bits()).collect()).collect() }
}
fn floats(v: &View) -> String {
    format!("columns {:?}, x {:?}, y {:?}", v.headers, v.x.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(), v.y.iter().map(|c| c.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn tail(s: &mut Src) -> R {
    let header = !s.chance(1, 4);
    let dir = Dir::new();
    let path = dir.0.join("flight.csv");
    let xcol = { let i = s.range(0, 4); if header { NAMES[i].to_string() } else { i.to_string() } };
    let mut ycols = pick_cols(s, header);
    let max = match s.draw(3) { 0 => Some(s.range(0, 4)), 1 => Some(s.range(1, 12)), _ => None };
    note!(s, "header {header}, x column {xcol}, y columns {ycols:?}, at most {max:?} points");
    let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: path.clone(), x_column: xcol.clone(), y_columns: ycols.clone(), has_header: header, max_points: max, ..Default::default() });
    let mut file: Option<Vec<u8>> = None; // what is on disk
    let mut pending: Vec<u8> = content(s, header, 5); // what the writer still has to write
    let mut seen = 0usize; // bytes on disk at the last look
    let mut must_look = false; // rewritten in place: nothing may be appended beyond the old length before a look
    let mut looked = false;
    let (mut cuts, mut resets) = (0, 0);
    let write = |b: &[u8], append: bool| {
        let mut f = std::fs::OpenOptions::new().create(true).write(true).append(append).truncate(!append).open(&path).expect("scratch file");
        f.write_all(b).expect("scratch file");
    };
    for step in 0..s.range(2, 16) {
        let act = s.draw(9);
        match act {
            0..=3 if !must_look => {
                // append the next piece, cut anywhere
                if pending.is_empty() { pending = content(s, false, 4); }
                let k = match s.draw(3) { 0 => pending.len(), 1 => s.range(0, pending.len().min(4)), _ => s.range(0, pending.len()) };
                let piece: Vec<u8> = pending.drain(..k).collect();
                note!(s, "{step}: append {:?}", String::from_utf8_lossy(&piece));
                write(&piece, true);
                let f = file.get_or_insert_with(Vec::new);
                f.extend_from_slice(&piece);
                if f.last().map_or(false, |b| *b != b'\n') { cuts += 1; }
                continue;
            }
            4 if file.is_some() && looked && seen > 0 => {
                // rewritten in place with less than was there at the last look
                let mut b = content(s, header, 3);
                b.truncate(s.range(0, (seen - 1).min(b.len())));
                // the writer may have stopped inside the header line: let it carry on from there
                pending = if header && !reference(&b, header, &xcol, &ycols, max).map_or(false, |v| !v.headers.is_empty()) { b.clear(); content(s, true, 4) } else { if b.last().map_or(true, |c| *c == b'\n') { vec![] } else { b"\n".to_vec() } };
                note!(s, "{step}: truncate and write {:?}", String::from_utf8_lossy(&b));
                write(&b, false);
                file = Some(b);
                must_look = true;
                resets += 1;
                continue;
            }
            5 if file.is_some() => {
                // replaced by another file
                let b = content(s, header, 4);
                note!(s, "{step}: replace by {:?}", String::from_utf8_lossy(&b));
                let tmp = dir.0.join("next.csv");
                std::fs::write(&tmp, &b).expect("scratch file");
                if s.chance(1, 3) {
                    // for a while there is no file: what was read stays
                    std::fs::remove_file(&path).expect("scratch file");
                    note!(s, "{step}: poll while the file is missing");
                    let before = view(&p);
                    match p.update_once() {
                        Ok(c) => ensure!(!c, "a poll of a missing file reports a change"),
                        Err(e) => return Err(Fail::new(format!("poll of a missing file failed: {e}"))),
                    }
                    ensure!(view(&p) == before, "a poll of a missing file changed the series from {} to {}", floats(&before), floats(&view(&p)));
                    s.label("polled while missing");
                }
                std::fs::rename(&tmp, &path).expect("scratch file");
                file = Some(b);
                pending = vec![];
                must_look = true; // a second replacement could get the first one's identity back
                resets += 1;
                continue;
            }
            6 => {
                // other columns; sometimes ones that do not exist, then back
                if s.chance(1, 4) && header && file.as_ref().map_or(false, |f| reference(f, header, &xcol, &ycols, max).map_or(false, |v| !v.headers.is_empty())) {
                    note!(s, "{step}: select a column that does not exist");
                    ensure!(p.set_y_columns(vec![ycols[0].clone(), "nowhere".into()]).is_err(), "a column that does not exist was accepted");
                }
                ycols = pick_cols(s, header);
                note!(s, "{step}: select {ycols:?}");
                if let Err(e) = p.set_y_columns(ycols.clone()) { return Err(Fail::new(format!("selecting {ycols:?} failed: {e}"))); }
                ensure!(p.selected_y_columns() == &ycols[..] && p.x_column() == xcol, "selected {:?} against {}", p.selected_y_columns(), p.x_column());
            }
            7 => {
                note!(s, "{step}: initialize");
                if let Err(e) = p.initialize() { return Err(Fail::new(format!("initialize failed: {e}"))); }
            }
            _ => {
                let before = view(&p);
                note!(s, "{step}: poll");
                let ch = match p.update_once() { Ok(c) => c, Err(e) => return Err(Fail::new(format!("poll failed: {e}"))) };
                let after = view(&p);
                ensure!(ch || (before.x == after.x && before.y == after.y), "the series changed but the poll says nothing did: {} -> {}", floats(&before), floats(&after));
            }
        }
        looked = looked || file.is_some();
        must_look = false;
        seen = file.as_ref().map_or(0, |f| f.len());
        let want = reference(file.as_deref().unwrap_or(&[]), header, &xcol, &ycols, max).expect("columns exist");
        let got = view(&p);
        ensure!(got == want, "shows {}; the file's complete lines read {}", floats(&got), floats(&want));
        // a second look at an unchanged file changes nothing
        if s.chance(1, 4) {
            match p.update_once() {
                Ok(c) => ensure!(!c || file.is_none(), "a poll of an unchanged file reports a change"),
                Err(e) => return Err(Fail::new(format!("poll failed: {e}"))),
            }
            ensure!(view(&p) == want, "a poll of an unchanged file changed the series to {}", floats(&view(&p)));
        }
    }
    s.nt(cuts > 0 && looked);
    s.label_if(resets > 0, "truncated or replaced");
    Ok(())
}

/// long files, appended in few large pieces cut anywhere; the picture shows what the reader holds
fn tail_large(s: &mut Src) -> R {
    let dir = Dir::new();
    let path = dir.0.join("flight.csv");
    let out = dir.0.join("live.svg");
    let header = s.bool();
    let rows = match s.draw(3) { 0 => s.range(1, 50), 1 => s.range(50, 3000), _ => s.range(3000, 40_000) };
    let bad = s.range(2, 400); // every so often a row the reader must skip
    let mut text = String::new();
    if header { text += "t,größe,b\n"; }
    let (k, w) = (s.sym(100.0), s.logf(1e-3, 1.0));
    let mut kept: Vec<(f64, f64, f64)> = vec![];
    let eol = if s.bool() { "\n" } else { "\r\n" };
    for i in 0..rows {
        let x = i as f64 * 0.125;
        let (y, z) = (k * (w * i as f64).sin(), (i * 7919 % 1013) as f64);
        if i % bad == bad - 1 { match i % 3 { 0 => text += &format!("{x},n/a,{z}"), 1 => text += &format!("{x}"), _ => text += &format!("{x},{y},☃") } } else { text += &format!("{x},{y},{z}"); kept.push((x, y, z)); }
        text += eol;
    }
    let bytes = text.into_bytes();
    let max = match s.draw(2) { 0 => None, 1 => Some(s.range(1, rows + 5)), _ => Some(rows / 2 + 1) };
    let style = if s.bool() { PlotStyle::Line } else { PlotStyle::Points };
    let cfg = CsvRealtimeConfig {
        csv_path: path.clone(), output_path: out.clone(), x_column: if header { "t".into() } else { "0".into() },
        y_columns: if header { vec!["b".into(), "größe".into()] } else { vec!["2".into(), "1".into()] }, has_header: header, max_points: max, style, ..Default::default()
    };
    let mut p = CsvRealtimePlotter::new(cfg);
    let pieces = s.range(1, 6);
    let mut at = 0;
    note!(s, "{rows} rows ({} bytes), one in {bad} malformed, {pieces} pieces, at most {max:?} points", bytes.len());
    s.nt(rows >= 50 && pieces >= 2);
    s.label_if(bytes.len() > 1 << 16, "beyond 64 KiB");
    for i in 0..pieces {
        let end = if i + 1 == pieces { bytes.len() } else { s.range(at, bytes.len()) };
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&path).expect("scratch file");
        f.write_all(&bytes[at..end]).expect("scratch file");
        at = end;
        if let Err(e) = p.update_once() { return Err(Fail::new(format!("poll failed: {e}"))); }
    }
    let from = kept.len() - max.unwrap_or(usize::MAX).min(kept.len());
    let kept = &kept[from..];
    ensure!(p.x_values().len() == kept.len() && p.y_values().iter().all(|c| c.len() == kept.len()), "{} points and columns of {:?}, the file has {}", p.x_values().len(), p.y_values().iter().map(|c| c.len()).collect::<Vec<_>>(), kept.len());
    for (i, q) in kept.iter().enumerate() {
        ensure!(p.x_values()[i] == q.0 && p.y_values()[0][i] == q.2 && p.y_values()[1][i] == q.1, "point {i}: ({}, {}, {}), the file has {q:?}", p.x_values()[i], p.y_values()[0][i], p.y_values()[1][i]);
    }
    // the picture is the chart of these columns
    if let Err(e) = p.render() { return Err(Fail::new(format!("rendering failed: {e}"))); }
    if kept.is_empty() { return Ok(()); }
    if kept.len() > 4000 && !s.chance(1, 8) { return Ok(()); }
    let xs: Vec<f64> = kept.iter().map(|q| q.0).collect();
    let (y1, y2): (Vec<f64>, Vec<f64>) = (kept.iter().map(|q| q.2).collect(), kept.iter().map(|q| q.1).collect());
    let other = dir.0.join("reference.svg");
    let names = if header { ["b", "größe"] } else { ["2", "1"] };
    plot_series(&[XYSeries::new(&xs, &y1).with_style(style).with_label(names[0]), XYSeries::new(&xs, &y2).with_style(style).with_label(names[1])], "Realtime CSV Plot", Some("x"), Some("y"), Some(other.to_str().unwrap())).map_err(|e| Fail::new(format!("drawing failed: {e}")))?;
    let (a, b) = (std::fs::read_to_string(&out).unwrap_or_default(), std::fs::read_to_string(&other).unwrap_or_default());
    ensure!(marks(&a) == marks(&b) && !a.is_empty(), "the rendered picture has {} marks, the chart of the same columns {}", marks(&a).len(), marks(&b).len());
    ensure!(names.iter().all(|n| a.contains(&format!("\n{n}\n"))) == names.iter().all(|n| b.contains(&format!("\n{n}\n"))), "legend differs");
    s.label("picture compared");
    Ok(())
}
/// a reader polling while another thread appends: every poll shows some prefix of the final file, growing,
/// and once the writer is done the next poll shows everything
fn tail_concurrent(s: &mut Src) -> R {
    let dir = Dir::new();
    let path = dir.0.join("flight.csv");
    let rows = s.range(5, 400);
    let mut text = String::from("t,y\n");
    for i in 0..rows { text += &format!("{i},{}\n", (i * 37 % 101) as f64 / 4.0); }
    let bytes = text.into_bytes();
    let mut cuts: Vec<usize> = (0..s.range(1, 40)).map(|_| s.range(0, bytes.len())).collect();
    cuts.push(bytes.len());
    cuts.sort();
    let mut p = CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: path.clone(), x_column: "t".into(), y_columns: vec!["y".into()], ..Default::default() });
    note!(s, "{rows} rows written in {} pieces by another thread", cuts.len());
    s.nt(cuts.len() > 3);
    let wp = path.clone();
    let w = std::thread::spawn(move || {
        let mut at = 0;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&wp).expect("scratch file");
        for c in cuts { f.write_all(&bytes[at..c]).expect("scratch file"); at = c; std::thread::yield_now(); }
    });
    let mut last = 0;
    let mut verdict: R = Ok(());
    loop {
        let done = w.is_finished();
        if let Err(e) = p.update_once() { verdict = Err(Fail::new(format!("poll failed: {e}"))); break; }
        let (x, y) = (p.x_values(), p.y_values());
        let n = x.len();
        if y.len() != 1 || y[0].len() != n || n < last || n > rows || (0..n).any(|i| x[i] != i as f64 || y[0][i] != (i * 37 % 101) as f64 / 4.0) {
            verdict = Err(Fail::new(format!("after {last} rows the poll shows x {x:?}, y {y:?}")));
            break;
        }
        last = n;
        if done {
            if n != rows { verdict = Err(Fail::new(format!("the writer is done with {rows} rows, the poll after that shows {n}"))); }
            break;
        }
    }
    let _ = w.join();
    verdict
}

// ------------------------------------------------------------------ I05
#[derive(Debug, Clone, PartialEq)]
enum Mark { Path(String, Vec<(f64, f64)>), Dot(String, (f64, f64)) }
/// The data marks of a chart: unit-width coloured polylines and radius-3 discs.
fn marks(svg: &str) -> Vec<Mark> {
    let attr = |l: &str, k: &str| -> Option<String> { let p = l.find(&format!(" {k}=\""))? + k.len() + 3; Some(l[p..p + l[p..].find('"')?].to_string()) };
    let mut out = vec![];
    for l in svg.lines() {
        if l.starts_with("<polyline") && attr(l, "stroke-width").as_deref() == Some("1") {
            let pts = attr(l, "points").unwrap_or_default().split_whitespace().filter_map(|p| { let (x, y) = p.split_once(',')?; Some((x.parse().ok()?, y.parse().ok()?)) }).collect();
            out.push(Mark::Path(attr(l, "stroke").unwrap_or_default(), pts));
        } else if l.starts_with("<circle") && attr(l, "r").as_deref() == Some("3") {
            let g = |k: &str| attr(l, k).and_then(|v| v.parse::<f64>().ok()).unwrap_or(f64::NAN);
            out.push(Mark::Dot(attr(l, "fill").unwrap_or_default(), (g("cx"), g("cy"))));
        }
    }
    out
}
/// axis frames and ticks are drawn in black or grey; data never is (first palette entries)
fn coloured(c: &str) -> bool {
    let h = c.trim_start_matches('#');
    h.len() == 6 && !(h[0..2] == h[2..4] && h[2..4] == h[4..6])
}
fn chart(s: &mut Src) -> R {
    let dir = Dir::new();
    let out = dir.0.join("plot.svg");
    let huge = s.chance(1, 12);
    let (sx, sy) = if huge { (s.logf(1e290, 1.7e308), s.logf(1e-300, 1.7e308)) } else { (s.logf(1e-6, 1e9), s.logf(1e-6, 1e9)) };
    let (ox, oy) = (if huge || s.bool() { 0.0 } else { s.sym(100.0) * sx }, if huge || s.bool() { 0.0 } else { s.sym(100.0) * sy });
    let n = if s.chance(1, 200) { s.range(13, 18) } else if s.chance(1, 10) { s.range(5, 12) } else { s.range(1, 4) };
    let mut data = vec![];
    for i in 0..n {
        let k = if n > 4 { s.range(0, 5) } else if s.chance(1, 40) { s.range(61, 5000) } else { *s.pick(&[1usize, 2, 3, 7, 20, 0, 60]) };
        let gen = |s: &mut Src, o: f64, sc: f64| -> f64 { match s.draw(12) { 0 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 1 => o, 2 => o + sc * s.irange(-4, 4) as f64, _ => o + s.sym(sc) } };
        let xs: Vec<f64> = (0..k).map(|_| gen(s, ox, sx)).collect();
        let ys: Vec<f64> = (0..k).map(|_| gen(s, oy, sy)).collect();
        let style = if s.bool() { PlotStyle::Line } else { PlotStyle::Points };
        let label = match s.draw(3) { 0 => None, 1 => Some(format!("series <{i}> & \"x\"")), _ => Some(format!("y{i}")) };
        note!(s, "series {i}: {style:?} {label:?} {:?}", xs.iter().zip(&ys).collect::<Vec<_>>());
        data.push((xs, ys, style, label));
    }
    let series: Vec<XYSeries> = data.iter().map(|(x, y, st, l)| { let q = XYSeries::new(x, y).with_style(*st); match l { Some(l) => q.with_label(l), None => q } }).collect();
    let title = *s.pick(&["t", "", "<&>", "Größe"]);
    let alone = n == 1 && data[0].3.is_none() && s.bool();
    let r = if alone { plot(&data[0].0, &data[0].1, title, if s.bool() { Some("x axis") } else { None }, Some("y"), Some(out.to_str().unwrap()), data[0].2) } else { plot_series(&series, title, if s.bool() { Some("x axis") } else { None }, if s.bool() { Some("y") } else { None }, Some(out.to_str().unwrap())) };
    let finite: Vec<(PlotStyle, Vec<(f64, f64)>)> = data.iter().map(|(x, y, st, _)| (*st, x.iter().zip(y).filter(|(a, b)| a.is_finite() && b.is_finite()).map(|(a, b)| (*a, *b)).collect::<Vec<_>>())).filter(|(_, p)| !p.is_empty()).collect();
    if finite.is_empty() {
        s.label("nothing finite");
        ensure!(r.is_err(), "a chart without a finite point was drawn");
        return Ok(());
    }
    let span = |f: &dyn Fn(&(f64, f64)) -> f64| finite.iter().flat_map(|q| q.1.iter()).map(|p| f(p)).fold((f64::MAX, f64::MIN), |t, v| (t.0.min(v), t.1.max(v)));
    let wide = |t: (f64, f64)| (t.1 - t.0) * 1.11 == f64::INFINITY;
    if wide(span(&|p| p.0)) || wide(span(&|p| p.1)) { s.label("span beyond the float range"); return Ok(()); }
    if let Err(e) = r { return Err(Fail::new(format!("drawing failed: {e}"))); }
    let svg = std::fs::read_to_string(&out).map_err(|e| Fail::new(format!("no chart written: {e}")))?;
    ensure!(svg.trim_end().ends_with("</svg>"), "the chart file is not complete");
    // bounds of the data decide the scale
    let all: Vec<(f64, f64)> = finite.iter().flat_map(|f| f.1.iter().copied()).collect();
    let (mut bx, mut by) = ((f64::MAX, f64::MIN), (f64::MAX, f64::MIN));
    for (x, y) in &all { bx = (bx.0.min(*x), bx.1.max(*x)); by = (by.0.min(*y), by.1.max(*y)); }
    s.nt(finite.len() >= 2 && bx.0 < bx.1 && by.0 < by.1);
    let m: Vec<Mark> = marks(&svg).into_iter().filter(|m| match m { Mark::Path(c, _) | Mark::Dot(c, _) => coloured(c) }).collect();
    // the marks, in drawing order
    let mut at = 0;
    let mut px: Vec<((f64, f64), (f64, f64))> = vec![];
    let mut colours: Vec<String> = vec![];
    for (i, (st, pts)) in finite.iter().enumerate() {
        let colour;
        match st {
            PlotStyle::Line => {
                let Some(Mark::Path(c, q)) = m.get(at) else { return Err(Fail::new(format!("series {i} of the finite ones should be a line, the chart has {:?}", m.get(at)))) };
                at += 1;
                ensure!(q.len() == pts.len(), "line {i} has {} points, the data {}", q.len(), pts.len());
                px.extend(pts.iter().copied().zip(q.iter().copied()));
                colour = c.clone();
            }
            PlotStyle::Points => {
                let mut c0 = None;
                for (k, p) in pts.iter().enumerate() {
                    let Some(Mark::Dot(c, q)) = m.get(at) else { return Err(Fail::new(format!("point {k} of series {i} is missing, the chart has {:?}", m.get(at)))) };
                    at += 1;
                    ensure!(c0.is_none() || c0.as_ref() == Some(c), "series {i} changes colour");
                    c0 = Some(c.clone());
                    px.push((*p, *q));
                }
                colour = c0.unwrap();
            }
        }
        ensure!(!colours.contains(&colour), "two series share the colour {colour}");
        colours.push(colour);
    }
    ensure!(at == m.len(), "{} marks beyond the data: {:?}", m.len() - at, m.get(at));
    // one affine map for everything, filling the picture, larger y higher up
    let axis = |lo: f64, hi: f64, v: &dyn Fn(&((f64, f64), (f64, f64))) -> (f64, f64), size: f64, sign: f64| -> R {
        for p in &px { let q = v(p).1; ensure!(q >= 0.0 && q <= size, "a mark at {:?} lies outside the picture", p.1); }
        if !(hi - lo > 1e-9 * lo.abs().max(hi.abs())) { return Ok(()); }
        let a = px.iter().map(|p| v(p)).find(|t| t.0 == lo).unwrap();
        let b = px.iter().map(|p| v(p)).find(|t| t.0 == hi).unwrap();
        ensure!((b.1 - a.1) * sign > 0.7 * size, "the data span {} of {size} pixels", (b.1 - a.1) * sign);
        for p in &px {
            let (x, q) = v(p);
            let w = a.1 + (x - lo) / (hi - lo) * (b.1 - a.1);
            ensure!((q - w).abs() <= 1.6, "value {x} drawn at {q}, the scale from {lo} to {hi} puts it at {w}");
        }
        Ok(())
    };
    axis(bx.0, bx.1, &|p| (p.0 .0, p.1 .0), 1920.0, 1.0)?;
    axis(by.0, by.1, &|p| (p.0 .1, p.1 .1), 1080.0, -1.0)?;
    // labels appear, escaped
    for (x, y, _, l) in &data {
        if let Some(l) = l {
            if x.iter().zip(y).any(|(a, b)| a.is_finite() && b.is_finite()) {
                let esc = l.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;");
                let esc2 = esc.replace('"', "&quot;");
                ensure!(svg.contains(&esc) || svg.contains(&esc2), "the legend lacks {l}");
            }
        }
    }
    Ok(())
}
fn error_chart(s: &mut Src) -> R {
    let dir = Dir::new();
    let out = dir.0.join("error.svg");
    let a = s.sym(10.0);
    let b = a + s.logf(1e-3, 100.0);
    let n = s.range(1, 50);
    let (k, c, w) = (s.sym(3.0), s.sym(2.0), s.f(0.1, 3.0));
    note!(s, "{k} sin({w} x) + {c} against x {c} on [{a}, {b}] with {n} samples");
    let f = move |x: f64| k * (w * x).sin() + c;
    let g = move |x: f64| c * x;
    if let Err(e) = plot_error_on_grid(f, g, a, b, n, Some(out.to_str().unwrap())) { return Err(Fail::new(format!("drawing failed: {e}"))); }
    let svg = std::fs::read_to_string(&out).map_err(|e| Fail::new(format!("no chart written: {e}")))?;
    let pts: Vec<(f64, f64)> = (0..=n).map(|i| { let x = a + (b - a) * (i as f64 / n as f64); (x, f(x) - g(x)) }).collect();
    let (lo, hi) = pts.iter().fold((f64::MAX, f64::MIN), |t, p| (t.0.min(p.1), t.1.max(p.1)));
    s.nt(n >= 3);
    let cands: Vec<Vec<(f64, f64)>> = marks(&svg).into_iter().filter_map(|m| match m { Mark::Path(_, q) if q.len() == n + 1 => Some(q), _ => None }).collect();
    ensure!(!cands.is_empty(), "no curve of {} points in the chart", n + 1);
    if !(hi - lo > 1e-6 * (1.0 + hi.abs())) { return Ok(()); }
    let q = cands.last().unwrap();
    let (jl, jh) = (pts.iter().position(|p| p.1 == lo).unwrap(), pts.iter().position(|p| p.1 == hi).unwrap());
    ensure!(q[jl].1 - q[jh].1 > 200.0 && q[n].0 - q[0].0 > 900.0, "the curve fills {} by {} pixels", q[n].0 - q[0].0, q[jl].1 - q[jh].1);
    for (i, p) in pts.iter().enumerate() {
        let (x, y) = (q[0].0 + (p.0 - a) / (b - a) * (q[n].0 - q[0].0), q[jl].1 + (p.1 - lo) / (hi - lo) * (q[jh].1 - q[jl].1));
        ensure!((q[i].0 - x).abs() <= 1.6 && (q[i].1 - y).abs() <= 1.6, "sample {i} ({p:?}) drawn at {:?}, its place is ({x}, {y})", q[i]);
    }
    Ok(())
}

pub fn register(r: &mut Registry) {
    r.add("I04", "tail history", 8_000, "a line cut between writes, and polls", tail);
    r.add("I04", "long files", 200, "fifty or more rows in several pieces", tail_large);
    r.add("I04", "polling while another thread writes", 300, "written in several pieces", tail_concurrent);
    r.add("I05", "series chart", 3_000, "two or more series over a real range", chart);
    r.add("I05", "error chart", 1_000, "three or more samples", error_chart);
}
