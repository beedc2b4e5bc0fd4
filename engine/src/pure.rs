//! Parsing as a pure function: histories, threads, re-entrancy, surroundings.
use crate::agen::{dictionary, show_argv};
use crate::ir::Def;
use crate::observe::*;
use crate::rng::Rng;
use crate::val::on_conversion;
use crate::worker::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::FileExt;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

struct Job {
    def: usize,
    argv: Vec<OsString>,
    first: Outcome,
}

fn shard_of(a: &BTreeMap<String, String>) -> (u64, u64) {
    let (s, n) = a["shard"].split_once('/').unwrap();
    (s.parse().unwrap(), n.parse().unwrap())
}

/// Everything around the process that a parse must leave alone.
#[derive(PartialEq, Debug)]
struct Around {
    env: Vec<(OsString, OsString)>,
    cwd: Option<std::path::PathBuf>,
    fds: usize,
    threads: String,
    signals: Vec<String>,
    umask: String,
}
fn around() -> Around {
    let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let line = |k: &str| status.lines().find(|l| l.starts_with(k)).unwrap_or_default().to_owned();
    Around {
        env: std::env::vars_os().collect(),
        cwd: std::env::current_dir().ok(),
        fds: std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0),
        threads: line("Threads:"),
        signals: ["SigBlk:", "SigIgn:", "SigCgt:"].iter().map(|k| line(k)).collect(),
        umask: line("Umask:"),
    }
}

fn differs(why: &str, got: &Outcome, first: &Outcome) -> Option<String> {
    (!same(got, first)).then(|| format!("{why}: {} instead of {}", clip(outcome_key(got)), clip(outcome_key(first))))
}
fn clip(s: String) -> String {
    if s.chars().count() < 500 { s } else { s.chars().take(480).collect::<String>() + "..." }
}

/// An argument source in which other things happen between two arguments.
struct Busy<'a, F: FnMut(usize)> {
    items: std::slice::Iter<'a, OsString>,
    i: usize,
    f: F,
}
impl<F: FnMut(usize)> Iterator for Busy<'_, F> {
    type Item = OsString;
    fn next(&mut self) -> Option<OsString> {
        (self.f)(self.i);
        self.i += 1;
        self.items.next().cloned()
    }
}

fn env_names(def: &Def, out: &mut Vec<String>) {
    for t in dictionary(def) {
        let t = t.to_string_lossy();
        let name = t.trim_start_matches('-').split('=').next().unwrap_or_default();
        if name.is_empty() || name.len() > 40 || name.contains('\0') {
            continue;
        }
        let up = name.to_uppercase().replace('-', "_");
        out.push(format!("PROG_{up}"));
        out.push(format!("PALC_{up}"));
        out.push(up);
        out.push(name.to_owned());
    }
}

const ENVS: &[(&str, &[&str])] = &[
    ("COLUMNS", &["1", "20", "0", "80", "99999999999999999999", "x"]),
    ("LINES", &["1"]),
    ("TERM", &["dumb", "xterm", ""]),
    ("NO_COLOR", &["1", ""]),
    ("CLICOLOR", &["0"]),
    ("CLICOLOR_FORCE", &["1"]),
    ("FORCE_COLOR", &["1"]),
    ("LANG", &["tr_TR.UTF-8", "C", "de_DE.ISO-8859-1"]),
    ("LC_ALL", &["tr_TR.UTF-8", "POSIX"]),
    ("POSIXLY_CORRECT", &["1", ""]),
    ("RUST_BACKTRACE", &["full"]),
    ("RUST_LOG", &["trace"]),
    ("PALC_DEBUG", &["1"]),
    ("PALC_LOG", &["1"]),
    ("DEBUG", &["1"]),
    ("HOME", &["/nonexistent"]),
    ("PWD", &["/x"]),
    ("_", &["other"]),
    ("PATH", &[""]),
    ("CARGO_BIN_NAME", &["other"]),
    ("CARGO_PKG_NAME", &["other"]),
    ("TMPDIR", &["/nonexistent"]),
];

pub fn run(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let (shard, shards) = shard_of(a);
    let skip: Vec<u32> = a.get("skip").map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
    let cur = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&a["cur"]).unwrap();
    let cfg = ctx.cfg;
    let mut rep = Report::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut divs: Vec<Divergence> = vec![];
    let mut jobs: Vec<Job> = vec![];
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let defs: Vec<&Def> = ctx.defs.iter().enumerate().filter(|(i, d)| *i as u64 % shards == shard && !skip.contains(&d.id)).map(|(_, d)| d).collect();
    let entries: Vec<Entry> = defs.iter().map(|d| *ctx.entry(d.id)).collect();
    let mut rng = Rng::new(&[cfg.seed, shard, 19]);

    // Fresh outcomes, in plan order.
    for (di, def) in defs.iter().enumerate() {
        rep.defs += 1;
        let dict = dictionary(def);
        for case in 0..cases_for(cfg, &def.label) as u64 {
            let mut rec = [0u8; 12];
            rec[..4].copy_from_slice(&def.id.to_le_bytes());
            rec[4..].copy_from_slice(&case.to_le_bytes());
            cur.write_all_at(&rec, 0).unwrap();
            let (argv, _) = gen_case(cfg, def, &dict, case);
            let first = run_real(&entries[di], &argv);
            rep.tokens += argv.len() as u64;
            match &first {
                Outcome::Ok(_) => rep.accepted += 1,
                Outcome::Err(e) => {
                    rep.rejected += 1;
                    *rep.classes.entry(format!("{:?}", classify(e))).or_default() += 1;
                }
            }
            if argv.len() > 1 && seen.insert(hash(&(def.id, &argv))) {
                rep.nontrivial += 1;
            }
            if rep.samples.len() < 3 && argv.len() < 10 && argv.len() > 2 {
                rep.samples.push(format!("def {} ({}): {} => {}", def.id, def.label, show_argv(&argv), clip(outcome_key(&first))));
            }
            jobs.push(Job { def: di, argv, first });
        }
    }
    if jobs.is_empty() {
        std::fs::write(format!("{}.hashes", a["out"]), []).unwrap();
        std::fs::write(&a["out"], serde_json::to_vec(&rep).unwrap()).unwrap();
        return;
    }
    let at = |j: &Job| {
        let mut rec = [0u8; 12];
        rec[..4].copy_from_slice(&defs[j.def].id.to_le_bytes());
        rec[4..].copy_from_slice(&u64::MAX.to_le_bytes());
        cur.write_all_at(&rec, 0).unwrap();
    };
    let div = |j: &Job, why: String| Divergence {
        def: defs[j.def].id,
        label: defs[j.def].label.clone(),
        case: 0,
        argv_hex: j.argv.iter().map(|t| hex(t.as_bytes())).collect(),
        argv: show_argv(&j.argv),
        original: String::new(),
        why,
        feats: vec![],
        relevant: true,
        monitor: "pure".into(),
    };
    let start = around();

    // 1. Other histories: random order, immediate repetition, failures before.
    for _ in 0..jobs.len() * 3 {
        let k = rng.below(jobs.len());
        let j = &jobs[k];
        at(j);
        let got = run_real(&entries[j.def], &j.argv);
        rep.evaluations += 1;
        *count.entry("parses after other histories".into()).or_default() += 1;
        if let Some(w) = differs("after other parses", &got, &j.first) {
            divs.push(div(j, w));
        }
        if rng.p(0.3) {
            let got = run_real(&entries[j.def], &j.argv);
            if let Some(w) = differs("immediately repeated", &got, &j.first) {
                divs.push(div(j, w));
            }
        }
        if divs.len() >= 3 {
            break;
        }
    }

    // 2. Sources in which other parses happen. (Sources that panic are not a subject: `extern "C"` is
    // used as a marker for functions that do not unwind.)
    for _ in 0..jobs.len() {
        if divs.len() >= 3 {
            break;
        }
        let j = &jobs[rng.below(jobs.len())];
        at(j);
        {
            let o = &jobs[rng.below(jobs.len())];
            let mut inner: Option<String> = None;
            let when = rng.below(j.argv.len() + 1);
            let got = (entries[j.def].parse)(&mut Busy {
                items: j.argv.iter(),
                i: 0,
                f: |i| {
                    if i == when || i + 1 == when {
                        let g = run_real(&entries[o.def], &o.argv);
                        inner = inner.take().or_else(|| differs("parsed within the source of another parse", &g, &o.first));
                    }
                },
            });
            rep.evaluations += 2;
            *count.entry("parses within parses".into()).or_default() += 1;
            if let Some(w) = inner {
                divs.push(div(o, w));
            }
            if let Some(w) = differs("with another parse in its source", &got, &j.first) {
                divs.push(div(j, w));
            }
        }
    }

    // 2b. Value types whose conversion itself parses a command line.
    for k in 0..jobs.len() * 4 {
        if divs.len() >= 3 {
            break;
        }
        let j = &jobs[k % jobs.len()];
        at(j);
        let o = &jobs[rng.below(jobs.len())];
        let seen = Rc::new(RefCell::new(vec![]));
        let (e, argv, s) = (entries[o.def], o.argv.clone(), seen.clone());
        on_conversion(Some(Box::new(move || {
            if s.borrow().len() < 3 {
                s.borrow_mut().push(run_real(&e, &argv));
            }
        })));
        let got = run_real(&entries[j.def], &j.argv);
        on_conversion(None);
        rep.evaluations += 1;
        for g in seen.take() {
            rep.evaluations += 1;
            *count.entry("parses within conversions".into()).or_default() += 1;
            if let Some(w) = differs("parsed within a conversion of another parse", &g, &o.first) {
                divs.push(div(o, w));
            }
        }
        if let Some(w) = differs("with another parse in a conversion", &got, &j.first) {
            divs.push(div(j, w));
        }
    }

    let end = around();
    if start != end {
        divs.push(div(&jobs[0], format!("parsing changed its surroundings: {start:?} became {end:?}")));
    }

    // 3. Other surroundings (one thread only).
    let here = std::env::current_dir().unwrap();
    let gone = here.join(format!("gone-{}", std::process::id()));
    let saved: Vec<(OsString, OsString)> = std::env::vars_os().collect();
    for round in 0..40 {
        if divs.len() >= 3 {
            break;
        }
        let set = |k: &str, v: &str| unsafe { std::env::set_var(k, v) };
        let di = rng.below(defs.len());
        for (k, vs) in ENVS {
            if rng.p(0.5) {
                set(k, rng.pick(vs));
            }
        }
        let mut names = vec![];
        env_names(defs[di], &mut names);
        for n in names {
            set(&n, ["1", "true", "value", ""][round % 4]);
        }
        match round % 4 {
            0 => std::env::set_current_dir("/").unwrap(),
            1 => {
                std::fs::create_dir_all(&gone).unwrap();
                std::env::set_current_dir(&gone).unwrap();
                std::fs::remove_dir(&gone).unwrap();
            }
            2 => std::env::set_current_dir("/proc/self").unwrap(),
            _ => {}
        }
        if round % 5 == 4 {
            for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
                unsafe { std::env::remove_var(k) };
            }
        }
        let before = around();
        for _ in 0..jobs.len() / 20 + 10 {
            let j = if rng.p(0.5) { &jobs[rng.below(jobs.len())] } else {
                let own: Vec<&Job> = jobs.iter().filter(|j| j.def == di).collect();
                if own.is_empty() { &jobs[0] } else { own[rng.below(own.len())] }
            };
            at(j);
            let got = run_real(&entries[j.def], &j.argv);
            rep.evaluations += 1;
            *count.entry("parses in other environments and directories".into()).or_default() += 1;
            if let Some(w) = differs("in another environment and directory", &got, &j.first) {
                divs.push(div(j, format!("{w} (environment {:?})", std::env::vars_os().collect::<Vec<_>>())));
                break;
            }
        }
        let after = around();
        if before != after {
            divs.push(div(&jobs[0], format!("parsing changed its surroundings: {before:?} became {after:?}")));
        }
        std::env::set_current_dir(&here).unwrap();
        for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
            unsafe { std::env::remove_var(k) };
        }
        for (k, v) in &saved {
            unsafe { std::env::set_var(k, v) };
        }
    }

    // 4. Concurrently, many threads with pauses inside the sources.
    let threads = 12;
    let bad: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let parses = AtomicU64::new(0);
    let overlapped = AtomicU64::new(0);
    let running = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let patterns: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let barrier = Barrier::new(threads);
    let t0 = Instant::now();
    let limit = Duration::from_millis(a.get("ms").map_or(2500, |m| m.parse().unwrap()));
    let hot: AtomicU64 = AtomicU64::new(0);
    if divs.is_empty() {
        std::thread::scope(|s| {
            for t in 0..threads {
                let (jobs, entries, bad, parses, overlapped, running, stop, barrier, patterns, hot) = (&jobs, &entries, &bad, &parses, &overlapped, &running, &stop, &barrier, &patterns, &hot);
                let mut rng = Rng::new(&[cfg.seed, shard, t as u64, 1919]);
                std::thread::Builder::new().name(format!("--help={t}")).stack_size(if t % 2 == 0 { 8 << 20 } else { 2 << 20 }).spawn_scoped(s, move || {
                    let mut mine: HashSet<u64> = HashSet::new();
                    let mut round = 0u64;
                    barrier.wait();
                    while !stop.load(Ordering::Relaxed) {
                        if t0.elapsed() > limit {
                            stop.store(true, Ordering::Relaxed);
                        }
                        round += 1;
                        // Often all threads work on the same definition or the same line.
                        let k = match rng.below(4) {
                            0 => rng.below(jobs.len()),
                            1 => hot.load(Ordering::Relaxed) as usize % jobs.len(),
                            2 => {
                                let d = jobs[hot.load(Ordering::Relaxed) as usize % jobs.len()].def;
                                let lo = jobs.partition_point(|j| j.def < d);
                                let hi = jobs.partition_point(|j| j.def <= d);
                                lo + rng.below(hi - lo)
                            }
                            _ => {
                                let k = rng.below(jobs.len());
                                hot.store(k as u64, Ordering::Relaxed);
                                k
                            }
                        };
                        let j = &jobs[k];
                        let others = running.fetch_add(1, Ordering::SeqCst);
                        let pause = rng.below(4);
                        let at = rng.below(j.argv.len() + 1);
                        let mut inside = 0u64;
                        if rng.p(0.2) {
                            on_conversion(Some(Box::new(|| std::thread::sleep(Duration::from_micros(10)))));
                        }
                        let got = (entries[j.def].parse)(&mut Busy {
                            items: j.argv.iter(),
                            i: 0,
                            f: |i| {
                                if i == at {
                                    inside = parses.load(Ordering::Relaxed);
                                    match pause {
                                        0 => {}
                                        1 => std::thread::yield_now(),
                                        2 => std::thread::sleep(Duration::from_micros(20)),
                                        _ => (0..200).for_each(|_| std::hint::spin_loop()),
                                    }
                                    inside = parses.load(Ordering::Relaxed) - inside;
                                }
                            },
                        });
                        on_conversion(None);
                        running.fetch_sub(1, Ordering::SeqCst);
                        parses.fetch_add(1, Ordering::Relaxed);
                        if others > 0 {
                            overlapped.fetch_add(1, Ordering::Relaxed);
                        }
                        // What overlapped: which line, where it paused, how many others, how many finished meanwhile.
                        mine.insert(hash(&(k, at, others, inside.min(8))));
                        if let Some(w) = differs("while other threads parse", &got, &j.first) {
                            bad.lock().unwrap().push((k, w));
                            stop.store(true, Ordering::Relaxed);
                        }
                        if round % 64 == 0 {
                            // Errors are rendered on another thread than the one they arose on.
                            let (e, argv) = (entries[j.def], j.argv.clone());
                            let got = std::thread::spawn(move || run_real(&e, &argv)).join().unwrap();
                            if let Some(w) = differs("on a fresh thread", &got, &j.first) {
                                bad.lock().unwrap().push((k, w));
                            }
                        }
                    }
                    patterns.lock().unwrap().extend(mine);
                }).unwrap();
            }
        });
    }
    for (k, w) in bad.into_inner().unwrap().into_iter().take(3) {
        divs.push(div(&jobs[k], w));
    }
    let n = parses.into_inner();
    rep.evaluations += n;
    count.insert("concurrent parses".into(), n);
    count.insert("of which overlapped another".into(), overlapped.into_inner());
    count.insert("distinct overlap patterns (line, pause point, others running, others finished inside)".into(), patterns.into_inner().unwrap().len() as u64);
    count.insert("distinct lines with a recorded outcome".into(), jobs.len() as u64);

    rep.parses = rep.evaluations + jobs.len() as u64;
    rep.extra = count;
    divs.truncate(4);
    rep.divergences = divs;
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", a["out"]), bytes).unwrap();
    std::fs::write(&a["out"], serde_json::to_vec(&rep).unwrap()).unwrap();
}

/// For observation from outside (system calls, `getenv`): nothing but parses between the markers.
pub fn quiet(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let (shard, shards) = shard_of(a);
    let mut jobs = vec![];
    for (i, def) in ctx.defs.iter().enumerate() {
        if i as u64 % shards != shard {
            continue;
        }
        let dict = dictionary(def);
        for case in 0..cases_for(ctx.cfg, &def.label) as u64 {
            jobs.push((*ctx.entry(def.id), gen_case(ctx.cfg, def, &dict, case).0));
        }
    }
    let mark = |s: &str| {
        // Seen by strace, and by the getenv monitor.
        let _ = std::fs::metadata(format!("/palc-monitor-{s}"));
        let _ = std::env::var_os(format!("PALC_MONITOR_MARK_{s}"));
    };
    mark("begin");
    let mut err = 0u64;
    for (e, argv) in &jobs {
        err += u64::from(matches!(run_real(e, argv), Outcome::Err(_)));
        if let Some(render) = e.help.filter(|_| err % 16 == 0) {
            // A definition may declare --help itself.
            let _ = std::hint::black_box(render);
        }
    }
    mark("end");
    std::fs::write(&a["out"], format!("{} {err}", jobs.len())).unwrap();
}
