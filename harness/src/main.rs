#![cfg_attr(feature = "p_wide", feature(f16, f128))]
mod engine;
mod num;
mod props;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::Arc;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

struct Opts {
    root: PathBuf,
    prop: String,
    tier: String,
    seed: u64,
    variant: String,
    merge: Vec<PathBuf>,
    part: Option<PathBuf>,
    journal: Option<PathBuf>,
    only: Option<String>,
    scale: f64,
}

fn known_for(root: &Path, prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let (p, rest) = r.split_once(' ').unwrap_or((r, ""));
                if p != prop {
                    continue;
                }
                if let Some(r) = rest.strip_prefix("sig=") {
                    let (sig, desc) = r.split_once(' ').unwrap_or((r, ""));
                    m.insert(sig.to_string(), desc.to_string());
                }
            }
        }
    }
    m
}

fn map_journal(path: &Path) -> *mut u64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("journal file");
    f.set_len(1 << 17).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), 1 << 17, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap journal");
    p as *mut u64
}

fn parse(args: &[String]) -> Opts {
    let mut o = Opts {
        root: PathBuf::from("/verif"),
        prop: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1),
        variant: "hosted".into(),
        merge: vec![],
        part: None,
        journal: None,
        only: None,
        scale: 1.0,
    };
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut v = || it.next().cloned().unwrap_or_default();
        match a.as_str() {
            "--root" => o.root = v().into(),
            "--tier" => o.tier = v(),
            "--seed" => o.seed = v().parse().unwrap_or(1),
            "--variant" => o.variant = v(),
            "--merge" => o.merge.push(v().into()),
            "--part" => o.part = Some(v().into()),
            "--journal" => o.journal = Some(v().into()),
            "--only" => o.only = Some(v()),
            "--scale" => o.scale = v().parse().unwrap_or(1.0),
            x => o.prop = x.to_string(),
        }
    }
    o
}

fn write_replay(o: &Opts, sub: &str, tape: &[u64], extra: &str) -> PathBuf {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 0u64;
    for t in tape {
        h = mix(h ^ *t);
    }
    let p = dir.join(format!("{}-{}-{:08x}.replay", o.prop, sub.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), h as u32));
    let mut s = format!("property {}\nsub {}\nvariant {}\ntape", o.prop, sub, o.variant);
    for t in tape {
        s.push_str(&format!(" {t}"));
    }
    s.push('\n');
    for l in extra.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    let _ = std::fs::write(&p, s);
    p
}

fn subs_for<'a>(reg: &'a Registry, o: &Opts) -> Vec<(usize, &'a Sub)> {
    reg.0
        .iter()
        .enumerate()
        .filter(|(_, s)| s.prop == o.prop && o.only.as_ref().map_or(true, |n| s.name.contains(n.as_str())))
        .collect()
}

fn count_for(s: &Sub, o: &Opts) -> u64 {
    let base = if o.tier == "thorough" { s.cases * s.mult } else { s.cases };
    ((base as f64 * o.scale * props::scale(s.prop)) as u64).max(1)
}

fn worker(o: &Opts, reg: &Registry) -> i32 {
    let t0 = Instant::now();
    unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
    let known = known_for(&o.root, &o.prop);
    let kset: Arc<HashSet<String>> = Arc::new(known.keys().cloned().collect());
    let journal = o.journal.as_ref().map(|p| Journal(map_journal(p)));
    let subs = subs_for(reg, o);
    if subs.is_empty() {
        eprintln!("no checks for property {} in this build", o.prop);
        return 2;
    }
    let threads = 8;
    let mut stats = Vec::new();
    let mut viols = Vec::new();
    for (idx, s) in &subs {
        let (st, v) = run_sub(s, *idx as u64, o.seed, count_for(s, o), threads, &kset, journal.as_ref());
        eprintln!("  {:<34} {:>9} cases {:>9} nontrivial {:>6.2}s {}", st.name, st.evaluations, st.nontrivial, st.secs, if v.is_some() { "FAILED" } else { "" });
        stats.push(st);
        if let Some(v) = v {
            viols.push(v);
        }
    }
    // reports
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for st in &stats {
        for (k, n) in &st.known {
            *hits.entry(k.clone()).or_insert(0) += n;
        }
    }
    for (k, n) in &hits {
        println!("KNOWN-FINDING: property={} {} [{} cases] {}", o.prop, k, n, known.get(k).cloned().unwrap_or_default());
    }
    for v in &viols {
        let mut extra = format!("seed {} case {}\n{}\nsignature: {}\n", o.seed, v.index, v.fail.msg, v.fail.sig);
        for n in &v.notes {
            extra.push_str(n);
            extra.push('\n');
        }
        let p = write_replay(o, &v.sub, &v.tape, &extra);
        println!("--- {} / {}: {} (case {}, shrunk in {} runs)", o.prop, v.sub, v.fail.msg, v.index, v.shrink_runs);
        for n in &v.notes {
            println!("    {n}");
        }
        println!("VIOLATION property={} replay={}", o.prop, p.display());
    }
    // evidence
    let mut evals: u64 = stats.iter().map(|s| s.evaluations).sum();
    let mut distinct: u64 = stats.iter().map(|s| s.distinct).sum();
    let mut per = Vec::new();
    for s in &stats {
        let labels = s.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        per.push(format!(
            "{{\"check\":{},\"build\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"classes\":{{{}}},\"rule\":{},\"seconds\":{:.3}}}",
            jstr(&s.name), jstr(&o.variant), s.evaluations, s.nontrivial, s.distinct, labels, jstr(&s.rule), s.secs
        ));
    }
    let mut samples = Vec::new();
    for s in &stats {
        for x in s.samples.iter().take(2) {
            samples.push(format!("{{\"check\":{},\"case\":{}}}", jstr(&s.name), jlist(x)));
        }
    }
    if let Some(p) = &o.part {
        let _ = std::fs::write(p, format!("{evals}\n{distinct}\n{}\n{}\n", per.join(","), samples.join(",")));
    }
    for m in &o.merge {
        if let Ok(t) = std::fs::read_to_string(m) {
            let mut l = t.lines();
            evals += l.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            distinct += l.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            if let Some(x) = l.next() {
                if !x.is_empty() {
                    per.push(x.to_string());
                }
            }
            if let Some(x) = l.next() {
                if !x.is_empty() {
                    samples.push(x.to_string());
                }
            }
        }
    }
    if o.part.is_none() && o.only.is_none() {
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"checks\":[{}],\"known_findings_hit\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            jstr(&o.prop),
            jstr(&o.tier),
            o.seed,
            evals,
            distinct,
            jstr(props::rule(&o.prop)),
            samples.join(","),
            per.join(","),
            hits.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
            props::assumptions(&o.prop).iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            t0.elapsed().as_secs_f64(),
            viols.len()
        );
        let dir = o.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(dir.join(format!("{}.json", o.prop)), ev).is_err() {
            eprintln!("cannot write evidence");
            return 2;
        }
    }
    println!("{} {} seed={}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s", o.prop, o.tier, o.seed, evals, distinct, viols.len(), t0.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    if viols.is_empty() { 0 } else { 1 }
}

const HUNG: i32 = -1;

enum Ended {
    Code(i32),
    Signal(i32),
    Late,
}
fn bad(e: &Ended) -> bool {
    match e {
        Ended::Signal(s) => crash_signal(*s),
        Ended::Late => true,
        Ended::Code(_) => false,
    }
}
/// Runs a command with a limit on its processor time (and a wide one on the clock).
fn bounded(c: &mut Command, cpu: u64) -> Ended {
    let mut ch = c.env("H_CPU", cpu.to_string()).spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return match st.signal() {
                Some(24) | Some(9) => Ended::Late,
                Some(s) => Ended::Signal(s),
                None => Ended::Code(st.code().unwrap_or(3)),
            };
        }
        if t.elapsed().as_secs() > 3 * cpu + 30 {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ended::Late;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
fn limit_cpu() {
    if let Some(n) = std::env::var("H_CPU").ok().and_then(|v| v.parse::<u64>().ok()) {
        unsafe { setrlimit(0, &[n, n + 1]) };
    }
}

fn crash_signal(sig: i32) -> bool {
    matches!(sig, 4 | 5 | 6 | 7 | 8 | 11)
}

/// Runs the worker in a child process so that a crash of the code under test is a finding,
/// not the end of the check.
fn parent(o: &Opts, reg: &Registry, raw: &[String]) -> i32 {
    let dir = std::env::temp_dir().join(format!("harness-{}-{}", o.prop, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let jp = dir.join("journal");
    let j = map_journal(&jp);
    let me = std::env::current_exe().unwrap();
    let mut child = Command::new(&me).arg("worker").args(raw).arg("--journal").arg(&jp).spawn().expect("spawn worker");
    let limit = if o.tier == "thorough" { 4 * 3600 } else { 780 };
    let t0 = Instant::now();
    let stall = Duration::from_secs(if o.tier == "thorough" { 600 } else { 300 });
    // a case that takes longer than this is looked at on its own
    let case_stall = Duration::from_secs(60);
    let mut last = (0u64, Instant::now());
    let mut slots: Vec<((u64, u64, u64), Instant)> = vec![((0, 0, 0), Instant::now()); JSLOTS];
    let code = loop {
        match child.try_wait().expect("wait") {
            Some(st) => break st.code().ok_or_else(|| st.signal().unwrap_or(0)),
            None => std::thread::sleep(Duration::from_millis(20)),
        }
        let mut beat = 0u64;
        let mut hung = false;
        for k in 0..JSLOTS {
            let now = unsafe { (std::ptr::read_volatile(j.add(2 + k * 2)), std::ptr::read_volatile(j.add(3 + k * 2)), std::ptr::read_volatile(j.add(2 + 2 * JSLOTS + k))) };
            beat = beat.wrapping_add(now.2);
            if now != slots[k].0 {
                slots[k] = (now, Instant::now());
            } else if now.0 != 0 && slots[k].1.elapsed() > case_stall {
                hung = true;
            }
        }
        if beat != last.0 {
            last = (beat, Instant::now());
        }
        if hung || last.1.elapsed() > stall || t0.elapsed().as_secs() > limit {
            let _ = child.kill();
            let _ = child.wait();
            if hung {
                break Err(HUNG);
            }
            let running: Vec<String> = (0..JSLOTS)
                .filter_map(|k| unsafe {
                    let s = std::ptr::read_volatile(j.add(2 + k * 2));
                    let i = std::ptr::read_volatile(j.add(3 + k * 2));
                    (s != 0).then(|| format!("{}#{}", reg.0[s as usize - 1].name, i))
                })
                .collect();
            eprintln!("INCONCLUSIVE: time limit reached without an answer (running: {})", running.join(" "));
            let _ = std::fs::remove_dir_all(&dir);
            return 3;
        }
    };
    let res = match code {
        Ok(c) => c,
        Err(sig) if crash_signal(sig) || sig == HUNG => {
            eprintln!("{}; looking for the case", if sig == HUNG { "a case does not end".to_string() } else { format!("worker ended by signal {sig}") });
            let mut cands: Vec<(usize, u64)> = (0..JSLOTS)
                .filter_map(|k| unsafe {
                    let s = std::ptr::read_volatile(j.add(2 + k * 2));
                    let i = std::ptr::read_volatile(j.add(3 + k * 2));
                    (s != 0).then(|| (s as usize - 1, i))
                })
                .collect();
            cands.sort_unstable();
            let mut rc = 3;
            for (si, i) in cands {
                let sub = &reg.0[si];
                let op = dir.join("one");
                let _ = std::fs::remove_file(&op);
                let t = map_journal(&op);
                let st = bounded(Command::new(&me).arg("one").args(raw).arg("--journal").arg(&op).env("H_SUB", si.to_string()).env("H_IDX", i.to_string()), 20);
                let crashed = bad(&st);
                let failed = sig == HUNG && matches!(st, Ended::Code(1));
                if crashed || failed {
                    let n = unsafe { *t } as usize;
                    let mut tape: Vec<u64> = (0..n).map(|k| unsafe { *t.add(1 + k) }).collect();
                    let t1 = Instant::now();
                    // shrink by re-running candidates in child processes
                    let crash_on = |tp: &[u64]| -> bool {
                        if failed || t1.elapsed().as_secs() > 60 {
                            return false;
                        }
                        let f = write_replay(&Opts { root: dir.clone(), prop: o.prop.clone(), tier: o.tier.clone(), seed: o.seed, variant: o.variant.clone(), merge: vec![], part: None, journal: None, only: None, scale: 1.0 }, "cand", tp, "");
                        let txt = std::fs::read_to_string(&f).unwrap_or_default().replace("sub cand", &format!("sub {}", sub.name));
                        let _ = std::fs::write(&f, txt);
                        let r = bounded(Command::new(&me).arg("replay-raw").arg(&f).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()), 4);
                        let _ = std::fs::remove_file(&f);
                        bad(&r)
                    };
                    let mut runs = 0;
                    for size in [16usize, 4, 1] {
                        let mut k = 0;
                        while k < tape.len() && runs < 300 {
                            let mut c = tape.clone();
                            let e = (k + size).min(c.len());
                            c.drain(k..e);
                            runs += 1;
                            if crash_on(&c) { tape = c } else { k += size }
                        }
                    }
                    for k in 0..tape.len() {
                        if runs >= 500 { break }
                        if tape[k] != 0 {
                            let mut c = tape.clone();
                            c[k] = 0;
                            runs += 1;
                            if crash_on(&c) { tape = c }
                        }
                    }
                    let what = match st {
                        Ended::Signal(g) => format!("ends the process with signal {g}"),
                        Ended::Late => "does not end within 20 s of processor time".to_string(),
                        Ended::Code(_) => "fails (not shrunk: a smaller one does not end)".to_string(),
                    };
                    let p = write_replay(o, sub.name, &tape, &format!("seed {} case {}\nthe case {what}", o.seed, i));
                    println!("--- {} / {}: case {} {what}", o.prop, sub.name, i);
                    println!("VIOLATION property={} replay={}", o.prop, p.display());
                    let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[{}]}},\"wall_s\":{:.3},\"violations\":1}}\n",
                        jstr(&o.prop), jstr(&o.tier), o.seed, i + 1, jstr(props::rule(&o.prop)), jstr(&format!("{}: case {} crashed", sub.name, i)), t0.elapsed().as_secs_f64());
                    let _ = std::fs::create_dir_all(o.root.join("evidence"));
                    let _ = std::fs::write(o.root.join("evidence").join(format!("{}.json", o.prop)), ev);
                    rc = 1;
                    break;
                }
            }
            if rc == 3 {
                eprintln!("INCONCLUSIVE: the crash could not be reproduced from one case");
            }
            rc
        }
        Err(sig) => {
            eprintln!("INCONCLUSIVE: worker killed by signal {sig}");
            3
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    let rest = &args[args.len().min(1)..];
    install_panic_hook();
    let mut reg = Registry(Vec::new());
    props::register(&mut reg);
    match cmd.as_str() {
        "run" => {
            let o = parse(rest);
            exit(parent(&o, &reg, rest));
        }
        "worker" => {
            let o = parse(rest);
            exit(worker(&o, &reg));
        }
        "one" => {
            let o = parse(rest);
            unsafe { prctl(1, 9, 0, 0, 0) };
            limit_cpu();
            let si: usize = std::env::var("H_SUB").unwrap().parse().unwrap();
            let i: u64 = std::env::var("H_IDX").unwrap().parse().unwrap();
            let k = Arc::new(known_for(&o.root, &o.prop).keys().cloned().collect());
            let r = one_case(&reg.0[si], o.seed, i, map_journal(o.journal.as_ref().unwrap()), &k);
            exit(if r.is_err() { 1 } else { 0 });
        }
        "replay" | "replay-raw" => {
            let t = std::fs::read_to_string(&rest[0]).expect("replay file");
            let mut prop = String::new();
            let mut sub = String::new();
            let mut tape = vec![];
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("property ") {
                    prop = r.into()
                } else if let Some(r) = l.strip_prefix("sub ") {
                    sub = r.into()
                } else if let Some(r) = l.strip_prefix("tape") {
                    tape = r.split_whitespace().filter_map(|x| x.parse().ok()).collect()
                }
            }
            if cmd == "replay" {
                // in a child, so that a crash is reported
                let what = match bounded(Command::new(std::env::current_exe().unwrap()).arg("replay-raw").args(rest), 20) {
                    Ended::Code(c) => exit(c),
                    Ended::Signal(sig) => format!("process ended by signal {sig}"),
                    Ended::Late => "does not end within 20 s of processor time".into(),
                };
                println!("{what}");
                println!("VIOLATION property={prop} replay={}", rest[0]);
                exit(1);
            }
            limit_cpu();
            let Some(s) = reg.0.iter().find(|s| s.prop == prop && s.name == sub) else {
                eprintln!("this build has no check {prop}/{sub}");
                exit(2);
            };
            let (notes, r) = replay(s, &tape, &Arc::new(HashSet::new()));
            for n in notes {
                println!("    {n}");
            }
            match r {
                Err(f) => {
                    println!("{}", f.msg);
                    println!("VIOLATION property={prop} replay={}", rest[0]);
                    exit(1);
                }
                Ok(()) => println!("held"),
            }
        }
        "list" => {
            for s in &reg.0 {
                println!("{} {} {}", s.prop, s.name, s.cases);
            }
        }
        _ => {
            eprintln!("usage: harness run|replay|list ...");
            exit(2);
        }
    }
}
