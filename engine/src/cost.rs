//! Work and memory as the command line grows.
use crate::agen::{dictionary, show_argv};
use crate::observe::*;
use crate::rng::Rng;
use crate::worker::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::FileExt;

/// Counts what the current thread allocates.
pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn note(n: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    if n > 0 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Counted as a new block: whether the contents have to move is up to the allocator.
        note(n as i64);
        note(-(l.size() as i64));
        unsafe { System.realloc(p, l, n) }
    }
}

unsafe extern "C" {
    fn clock_gettime(clock: i32, at: *mut [i64; 2]) -> i32;
}
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;

fn cpu_ns() -> u64 {
    let mut t = [0i64; 2];
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0);
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

#[derive(Debug, Clone, Copy)]
struct Cost {
    size: u64,
    bytes: u64,
    count: u64,
    peak: u64,
    ns: u64,
    /// Still allocated after the result was dropped, the last time.
    kept: i64,
}

fn measure(e: &Entry, argv: &[OsString], reps: usize) -> Cost {
    let size = argv.iter().map(|t| t.len() as u64 + 24).sum();
    let mut c = Cost { size, bytes: 0, count: 0, peak: 0, ns: u64::MAX, kept: 0 };
    for _ in 0..reps {
        let before = LIVE.get();
        let mut items: Vec<OsString> = argv.to_vec();
        items.reverse();
        let (b, n, live) = (BYTES.get(), COUNT.get(), LIVE.get());
        PEAK.set(live);
        let t = cpu_ns();
        let o = (e.parse)(&mut std::iter::from_fn(|| items.pop()));
        let used = cpu_ns() - t;
        c.ns = c.ns.min(used);
        c.bytes = BYTES.get() - b;
        c.count = COUNT.get() - n;
        c.peak = (PEAK.get() - live).max(0) as u64;
        drop(o);
        drop(items);
        c.kept = LIVE.get() - before;
    }
    c
}

/// A command line that grows with `n`.
fn grow(base: &[OsString], way: usize, at: usize, span: usize, n: usize) -> Vec<OsString> {
    let mut v: Vec<OsString> = vec![];
    match way {
        // One or more tokens, many times.
        0 => {
            v.extend_from_slice(&base[..at]);
            for _ in 0..n {
                v.extend_from_slice(&base[at..at + span]);
            }
            v.extend_from_slice(&base[at + span..]);
        }
        // A part of one token, many times.
        1 => {
            v.extend_from_slice(base);
            let b = base[at].as_bytes();
            let lo = if b.is_empty() { 0 } else { span % b.len() };
            let hi = (lo + 1 + span / 7 % 6).min(b.len());
            let part: Vec<u8> = if b.is_empty() { b"a".to_vec() } else { b[lo..hi].to_vec() };
            let mut t = b[..lo].to_vec();
            for _ in 0..n {
                t.extend_from_slice(&part);
            }
            t.extend_from_slice(&b[lo..]);
            v[at] = OsString::from_vec(t);
        }
        // Many tokens after the first ones.
        2 => {
            v.extend_from_slice(base);
            let t = &base[at];
            v.extend(std::iter::repeat_n(t.clone(), n));
        }
        // Many different tokens.
        _ => {
            v.extend_from_slice(base);
            v.extend((0..n).map(|i| OsString::from(format!("{i}"))));
        }
    }
    v
}

pub fn run(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let (shard, shards) = a["shard"].split_once('/').unwrap();
    let (shard, shards): (u64, u64) = (shard.parse().unwrap(), shards.parse().unwrap());
    let skip: Vec<u32> = a.get("skip").map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
    let cur = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&a["cur"]).unwrap();
    let seconds: u64 = a.get("seconds").map_or(20, |s| s.parse().unwrap());
    let t0 = std::time::Instant::now();
    let cfg = ctx.cfg;
    let mut rep = Report::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut worst: BTreeMap<&str, (f64, String)> = BTreeMap::new();
    // All definitions get a turn before any gets a second one.
    'all: for case in 0..cfg.cases as u64 {
        for (i, def) in ctx.defs.iter().enumerate() {
            if i as u64 % shards != shard || skip.contains(&def.id) {
                continue;
            }
            if t0.elapsed().as_secs() >= seconds {
                break 'all;
            }
            let mut rec = [0u8; 12];
            rec[..4].copy_from_slice(&def.id.to_le_bytes());
            rec[4..].copy_from_slice(&case.to_le_bytes());
            cur.write_all_at(&rec, 0).unwrap();
            let dict = dictionary(def);
            let e = *ctx.entry(def.id);
            let mut rng = Rng::new(&[cfg.seed, u64::from(def.id), case, 18]);
            // Prefer growth that is accepted, or at least goes on for long.
            let mut best: Option<(u64, Vec<OsString>, usize, usize, usize)> = None;
            for k in 0..24u64 {
                let (base, _) = gen_case(cfg, def, &dict, case * 24 + k);
                if base.len() < 2 || base.iter().map(|t| t.len()).sum::<usize>() > 4000 {
                    continue;
                }
                let way = rng.below(4);
                let at = 1 + rng.below(base.len() - 1);
                let span = if way == 1 { rng.below(97) } else { 1 + rng.below((base.len() - at).min(3)) };
                let small = grow(&base, way, at, span, 40);
                let o = run_real(&e, &small);
                let reads = {
                    let mut n = 0u64;
                    let _ = (e.parse)(&mut small.iter().cloned().inspect(|_| n += 1));
                    n
                };
                let score = reads + if matches!(o, Outcome::Ok(_)) { 1000 } else { 0 } + if way == 1 { 30 } else { 0 };
                if best.as_ref().is_none_or(|b| score > b.0) {
                    best = Some((score, base, way, at, span));
                }
                if score > 1000 && k >= case % 12 {
                    break;
                }
            }
            let Some((_, base, way, at, span)) = best else {
                continue;
            };
            rep.defs += 1;
            let n0 = if way == 1 { 60_000 } else { 3_000 };
            let wide = ["big-", "deep-", "wide-", "prefixes-"].iter().any(|p| def.label.starts_with(p));
            let stack = if wide { 16 << 20 } else { 1 << 20 };
            let (b2, e2) = (base.clone(), e);
            // A stack that does not depend on the argv either.
            let r = std::thread::Builder::new().stack_size(stack).spawn(move || judge(&e2, &b2, way, at, span, n0)).unwrap().join().unwrap();
            rep.evaluations += 1;
            rep.parses += 12;
            let (verdict, costs, ok) = r;
            if ok { rep.accepted += 1 } else { rep.rejected += 1 }
            rep.tokens += grow(&base, way, at, span, 1).len() as u64;
            if seen.insert(hash(&(def.id, &base, way, at, span))) {
                rep.nontrivial += 1;
            }
            *rep.extra.entry(["repeated tokens", "repeated parts of a token", "long tails", "many different tokens"][way].to_owned()).or_default() += 1;
            let (lo, hi) = (costs[0], costs[costs.len() - 1]);
            let k = (hi.size as f64 / lo.size as f64).max(1.0);
            for (name, x, y) in [("time", lo.ns, hi.ns), ("allocated bytes", lo.bytes, hi.bytes), ("allocations", lo.count, hi.count), ("peak bytes", lo.peak, hi.peak)] {
                let f = y as f64 / x.max(1) as f64 / k;
                let what = format!("def {}: {} grown x{k:.1}: {lo:?} -> {hi:?}", def.id, show_argv(&base));
                let w = worst.entry(name).or_insert((0.0, String::new()));
                if f > w.0 {
                    *w = (f, what);
                }
            }
            let e = rep.extra.entry("largest argv in bytes".into()).or_default();
            *e = (*e).max(hi.size);
            if let Some(why) = verdict {
                let small = grow(&base, way, at, span, 3);
                rep.divergences.push(Divergence {
                    def: def.id,
                    label: def.label.clone(),
                    case,
                    argv_hex: small.iter().map(|t| hex(t.as_bytes())).collect(),
                    argv: show_argv(&small),
                    original: show_argv(&base),
                    why,
                    feats: vec![],
                    relevant: true,
                    monitor: "cost".into(),
                });
                if rep.divergences.len() >= 2 {
                    break 'all;
                }
            }
        }
    }
    for (name, (f, what)) in worst {
        rep.samples.push(format!("largest growth of {name} relative to the argv: {f:.2} in {what}"));
        rep.extra.insert(format!("max growth of {name} per growth of the argv, percent"), (f * 100.0) as u64);
    }
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", a["out"]), bytes).unwrap();
    std::fs::write(&a["out"], serde_json::to_vec(&rep).unwrap()).unwrap();
}

/// Is growth (much) more than linear, for one measure? `slack` absorbs what does not depend on the argv.
fn superlinear(lo: u64, hi: u64, k: f64, slack: u64) -> bool {
    hi as f64 > (lo + slack) as f64 * k * 3.0
}

fn judge(e: &Entry, base: &[OsString], way: usize, at: usize, span: usize, n0: usize) -> (Option<String>, Vec<Cost>, bool) {
    let ok = matches!(run_real(e, &grow(base, way, at, span, n0 / 8)), Outcome::Ok(_));
    let mut costs = vec![measure(e, &grow(base, way, at, span, n0), 3)];
    let mut verdict = None;
    // What is set up once is set up by the first of the three.
    if costs[0].kept > 0 {
        return (Some(format!("{} bytes stay allocated after the result is dropped, at every parse", costs[0].kept)), costs, ok);
    }
    for f in [4, 16] {
        let argv = grow(base, way, at, span, n0 * f);
        let c = measure(e, &argv, 1);
        costs.push(c);
        let lo = costs[0];
        let k = c.size as f64 / lo.size as f64;
        for (name, x, y, slack) in [("allocated bytes", lo.bytes, c.bytes, 4096), ("the number of allocations", lo.count, c.count, 64), ("peak memory", lo.peak, c.peak, 4096)] {
            if superlinear(x, y, k, slack) {
                verdict = Some(format!("{name} grow from {x} to {y} when the argv grows {k:.1} times ({} to {} bytes)", lo.size, c.size));
            }
        }
        // Time: only when it is long enough to be measured, and every repetition agrees.
        if superlinear(lo.ns, c.ns, k, 200_000) && c.ns > 20_000_000 {
            let again: Vec<(u64, u64)> = (0..3).map(|_| (measure(e, &grow(base, way, at, span, n0), 2).ns, measure(e, &argv, 2).ns)).collect();
            if again.iter().all(|&(x, y)| superlinear(x, y, k, 200_000)) {
                verdict = Some(format!("the time grows from {:?} to {:?} ns when the argv grows {k:.1} times ({} to {} bytes)", again[0].0, again[0].1, lo.size, c.size));
            }
        }
        if verdict.is_some() || c.ns > 5_000_000_000 {
            break;
        }
    }
    (verdict, costs, ok)
}
