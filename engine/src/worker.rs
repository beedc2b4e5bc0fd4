//! The process that drives the real parsers and watches them.
use crate::agen::{Gen, Knobs, dictionary, show_argv};
use crate::ir::Def;
use crate::model::{self, Class, Predicted};
use crate::observe::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::FileExt;

#[derive(Debug, Clone, Deserialize)]
pub struct Cfg {
    pub check: String,
    pub seed: u64,
    pub cases: usize,
    #[serde(default)]
    pub knobs: Knobs,
    /// Knobs per definition label prefix.
    #[serde(default)]
    pub label_knobs: BTreeMap<String, Knobs>,
    /// Cases per definition for labels with this prefix.
    #[serde(default)]
    pub label_cases: BTreeMap<String, usize>,
    /// class, detail, reason, text.
    pub strict: [bool; 4],
    /// Features, one of which makes a case count (and a divergence relevant). Empty: all.
    #[serde(default)]
    pub relevant: Vec<String>,
    #[serde(default = "yes")]
    pub help_on: bool,
    /// Additional monitors: "stream", "perm", "twin", "repeat", "log".
    #[serde(default)]
    pub monitors: Vec<String>,
    #[serde(default = "four")]
    pub max_viol: usize,
}
fn yes() -> bool {
    true
}
fn four() -> usize {
    4
}

#[derive(Debug, Serialize, Default)]
pub struct Report {
    pub evaluations: u64,
    pub parses: u64,
    pub nontrivial: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub max_depth: usize,
    pub values: u64,
    pub tokens: u64,
    pub feats: BTreeMap<String, u64>,
    pub classes: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
    pub defs: u64,
    pub samples: Vec<String>,
    pub divergences: Vec<Divergence>,
    pub foreign: u64,
}

#[derive(Debug, Serialize, Clone)]
pub struct Divergence {
    pub def: u32,
    pub label: String,
    pub case: u64,
    pub argv_hex: Vec<String>,
    pub argv: String,
    pub original: String,
    pub why: String,
    pub feats: Vec<String>,
    pub relevant: bool,
    pub monitor: String,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn run_real(e: &Entry, argv: &[OsString]) -> Outcome {
    (e.parse)(&mut argv.iter().cloned())
}

/// An argument source that records how it is read, and may go on forever.
struct Probe<'a> {
    items: &'a [OsString],
    endless: Option<&'a OsString>,
    pulled: usize,
    nones: usize,
    limit: usize,
    blown: bool,
}
impl Iterator for Probe<'_> {
    type Item = OsString;
    fn next(&mut self) -> Option<OsString> {
        let i = self.pulled;
        self.pulled += 1;
        if i < self.items.len() {
            return Some(self.items[i].clone());
        }
        if let Some(t) = self.endless {
            if i > self.limit {
                self.blown = true;
                return None;
            }
            return Some(t.clone());
        }
        self.nones += 1;
        None
    }
    // As exact sources say, and ones that are known not to end.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len().saturating_sub(self.pulled);
        if self.endless.is_some() { (usize::MAX, None) } else { (n, Some(n)) }
    }
}

pub fn outcome_key(o: &Outcome) -> String {
    match o {
        Outcome::Ok(v) => format!("ok {v:?}"),
        Outcome::Err(e) => format!("err {:?} {:?} {:?}", e.display, e.source, e.help),
    }
}

/// Structural equality of outcomes (full values, not their abbreviated rendering).
pub fn same(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Ok(a), Outcome::Ok(b)) => a == b,
        (Outcome::Err(a), Outcome::Err(b)) => {
            a.display == b.display && a.source == b.source && a.help == b.help
        }
        _ => false,
    }
}

pub struct Ctx<'a> {
    pub cfg: &'a Cfg,
    pub entries: &'a [Entry],
    pub defs: &'a [Def],
    /// Milliseconds spent on reducing command lines.
    pub shrinking: std::cell::Cell<u64>,
}

impl Ctx<'_> {
    fn strict(&self) -> Strict {
        let [class, detail, reason, text] = self.cfg.strict;
        Strict { class, detail, reason, text }
    }

    fn has(&self, m: &str) -> bool {
        self.cfg.monitors.iter().any(|x| x == m)
    }

    pub fn entry(&self, id: u32) -> &Entry {
        self.entries.iter().find(|e| e.id == id).expect("entry of definition")
    }

    /// Returns (monitor, why) if some monitor objects.
    fn check_case(
        &self,
        def: &Def,
        argv: &[OsString],
        p: &Predicted<'_>,
        rng: &mut Rng,
        rep: &mut Report,
    ) -> Option<(&'static str, String)> {
        let e = self.entry(def.id);
        let o = run_real(e, argv);
        rep.parses += 1;
        if !self.has("nomodel")
            && let Some(why) = compare(p, &o, self.strict())
        {
            return Some(("model", why));
        }
        if self.has("repeat") {
            for _ in 0..2 {
                let again = run_real(e, argv);
                rep.parses += 1;
                if !same(&o, &again) {
                    return Some(("repeat", format!("a second parse gave {} instead of {}", outcome_key(&again), outcome_key(&o))));
                }
            }
        }
        if self.has("helpsame")
            && let (Some((_, path)), Outcome::Err(err)) = (&p.help, &o)
        {
            // The same command asked for its help directly.
            for flag in ["--help", "-h"] {
                let mut v = vec![argv[0].clone()];
                v.extend(path[1..].iter().map(OsString::from));
                v.push(flag.into());
                if model::predict(def, &v, true).help.is_none_or(|h| h.1 != *path) {
                    continue;
                }
                let direct = run_real(e, &v);
                rep.parses += 1;
                *rep.extra.entry("help texts compared with a direct request".into()).or_default() += 1;
                match &direct {
                    Outcome::Err(d) if d.help == err.help => {}
                    _ => return Some(("help", format!("the help is not that of {}: {:?}", path.join(" "), err.help))),
                }
            }
        }
        if (self.has("helptext") || self.has("help"))
            && let (Some((cmd, path)), Outcome::Err(err)) = (&p.help, &o)
        {
            let text = err.help.as_deref().unwrap_or_default();
            *rep.extra.entry("help texts examined".into()).or_default() += 1;
            if let Err(why) = crate::help::check(cmd, path, text) {
                return Some(("help", format!("help of {}: {why}; it is:\n{text}", path.join(" "))));
            }
            if err.display != text {
                return Some(("help", format!("the error displays {:?} instead of the help", err.display)));
            }
        }
        if self.has("helptext")
            && argv.len() == 2
            && argv[1] == "--help"
            && let Some((cmd, _)) = &p.help
            && let Some(render) = e.help
        {
            let arg0 = argv[0].to_string_lossy().into_owned();
            *rep.extra.entry("render_long_help calls".into()).or_default() += 1;
            let text = render(arg0.clone());
            let name = model::program_name(&argv[0]).to_string_lossy().into_owned();
            if let Err(why) = crate::help::check(cmd, &[name], &text) {
                return Some(("help", format!("render_long_help({arg0:?}): {why}; it is:\n{text}")));
            }
        }
        if self.has("clap")
            && crate::clapcmp::outside(def, argv, p).is_none()
            && let Some(why) = crate::clapcmp::check(def, argv, &o, &mut rep.extra)
        {
            return Some(("clap", why));
        }
        if self.has("source")
            && let Some(why) = self.source(e, argv, &o, rng, rep)
        {
            return Some(("source", why));
        }
        if self.has("stream")
            && let Some(why) = self.stream(e, argv, p, &o, rng, rep)
        {
            return Some(("stream", why));
        }
        if self.has("perm")
            && let Some(why) = self.perm(def, e, argv, &o, rng, rep)
        {
            return Some(("perm", why));
        }
        if self.has("twin")
            && let Some(why) = self.twin(def, argv, &o, rep)
        {
            return Some(("twin", why));
        }
        None
    }

    /// Sources whose size hint is no help.
    fn source(&self, e: &Entry, argv: &[OsString], o: &Outcome, rng: &mut Rng, rep: &mut Report) -> Option<String> {
        struct Hint<'a>(std::slice::Iter<'a, OsString>, (usize, Option<usize>));
        impl Iterator for Hint<'_> {
            type Item = OsString;
            fn next(&mut self) -> Option<OsString> {
                self.0.next().cloned()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.1
            }
        }
        let hint = *rng.pick(&[(usize::MAX, None), (0, Some(0)), (1 << 60, Some(1 << 60)), (0, None)]);
        let got = (e.parse)(&mut Hint(argv.iter(), hint));
        rep.parses += 1;
        *rep.extra.entry("sources with a misleading size hint".into()).or_default() += 1;
        (!same(o, &got)).then(|| format!("with the size hint {hint:?} the outcome is {}", outcome_key(&got)))
    }

    fn stream(
        &self,
        e: &Entry,
        argv: &[OsString],
        p: &Predicted<'_>,
        o: &Outcome,
        rng: &mut Rng,
        rep: &mut Report,
    ) -> Option<String> {
        let mut probe =
            Probe { items: argv, endless: None, pulled: 0, nones: 0, limit: 0, blown: false };
        let again = (e.parse)(&mut probe);
        rep.parses += 1;
        if !same(o, &again) {
            return Some(format!("outcome depends on the iterator: {}", outcome_key(&again)));
        }
        *rep.extra.entry("iterator reads observed".into()).or_default() += probe.pulled as u64;
        if !p.token_error {
            if probe.pulled < argv.len() {
                return Some(format!("only {} of {} tokens were read", probe.pulled, argv.len()));
            }
            return None;
        }
        if probe.pulled > p.pulled + 1 {
            return Some(format!(
                "{} tokens were read although token {} decides",
                probe.pulled, p.pulled
            ));
        }
        // Which errors are decided by what was pulled so far? All but a missing value at the end.
        if p.feats.contains("err.missingvalue.end") {
            return None;
        }
        let decided = &argv[..p.pulled.min(argv.len())];
        let dict = ["--help", "--", "-h", "", "x", "-", "--no-such-option", "--zzz=1"];
        for _ in 0..2 {
            let mut v = decided.to_vec();
            for _ in 0..rng.below(4) {
                v.push((*rng.pick(&dict)).into());
            }
            if rng.p(0.5) && argv.len() > decided.len() {
                v.extend(argv[decided.len()..].iter().rev().cloned());
            }
            let other = run_real(e, &v);
            rep.parses += 1;
            *rep.extra.entry("suffix variations".into()).or_default() += 1;
            if !same(o, &other) {
                return Some(format!(
                    "what follows the malformed prefix {} changes the outcome from {} to {}",
                    show_argv(decided), outcome_key(o), outcome_key(&other)
                ));
            }
        }
        let t: OsString = (*rng.pick(&["x", "--", "--help", "-z"])).into();
        let mut probe = Probe {
            items: decided,
            endless: Some(&t),
            pulled: 0,
            nones: 0,
            limit: decided.len() + 8,
            blown: false,
        };
        let other = (e.parse)(&mut probe);
        rep.parses += 1;
        *rep.extra.entry("endless sources".into()).or_default() += 1;
        if probe.blown || !same(o, &other) {
            return Some(format!(
                "with an endless source after {} the outcome is {} (reads: {})",
                show_argv(decided), outcome_key(&other), probe.pulled
            ));
        }
        None
    }

    fn perm(
        &self,
        def: &Def,
        e: &Entry,
        argv: &[OsString],
        o: &Outcome,
        rng: &mut Rng,
        rep: &mut Report,
    ) -> Option<String> {
        let p = model::predict(def, argv, self.cfg.help_on);
        if p.token_error {
            return None;
        }
        let segs = &p.segs;
        if segs.is_empty() {
            return None;
        }
        for round in 0..3 {
            let mut order: Vec<usize> = (0..segs.len()).collect();
            // Random adjacent transpositions of segments which may commute.
            let n = segs.len();
            let swaps = if round == 0 { n * n } else { 1 + rng.below(2 * n) };
            let mut moved = 0;
            for k in 0..swaps.min(400) {
                let i = if round == 0 { k % n } else { rng.below(n) };
                if i + 1 >= n {
                    continue;
                }
                let (a, b) = (&segs[order[i]], &segs[order[i + 1]]);
                let commute = a.level == b.level
                    && a.movable
                    && b.movable
                    && !(a.positional && b.positional)
                    && !a.slots.iter().any(|s| b.slots.contains(s));
                if commute {
                    order.swap(i, i + 1);
                    moved += 1;
                }
            }
            if moved == 0 {
                return None;
            }
            let mut v = vec![argv[0].clone()];
            for &i in &order {
                v.extend_from_slice(&argv[segs[i].start..segs[i].end]);
            }
            let tail = segs.last().unwrap().end;
            v.extend_from_slice(&argv[tail..]);
            assert_eq!(v.len(), argv.len());
            let other = run_real(e, &v);
            rep.parses += 1;
            *rep.extra.entry("permuted command lines".into()).or_default() += 1;
            let ok = match (o, &other) {
                (Outcome::Ok(a), Outcome::Ok(b)) => a == b,
                (Outcome::Err(_), Outcome::Err(_)) => true,
                _ => false,
            };
            if !ok {
                return Some(format!(
                    "reordered as {} the outcome is {} instead of {}",
                    show_argv(&v), outcome_key(&other), outcome_key(o)
                ));
            }
        }
        None
    }

    /// Definitions `2k` and `2k+1` differ only in the declaration order of named fields.
    fn twin(&self, def: &Def, argv: &[OsString], o: &Outcome, rep: &mut Report) -> Option<String> {
        let twin = self.entries.iter().find(|e| e.id == def.id ^ 1)?;
        if !def.label.contains("twin") {
            return None;
        }
        let other = run_real(twin, argv);
        rep.parses += 1;
        *rep.extra.entry("twin definitions compared".into()).or_default() += 1;
        let ok = match (o, &other) {
            (Outcome::Ok(a), Outcome::Ok(b)) => a == b,
            (Outcome::Err(_), Outcome::Err(_)) => true,
            _ => false,
        };
        (!ok).then(|| {
            format!(
                "with the named fields declared in another order the outcome is {} instead of {}",
                outcome_key(&other), outcome_key(o)
            )
        })
    }

    fn diverges(&self, def: &Def, argv: &[OsString], seed: u64) -> Option<(&'static str, String)> {
        let p = model::predict(def, argv, self.cfg.help_on);
        self.check_case(def, argv, &p, &mut Rng::new(&[seed]), &mut Report::default())
    }

    /// Greedy reduction keeping a divergence of the same monitor.
    pub fn shrink(&self, def: &Def, argv: Vec<OsString>, monitor: &str, seed: u64) -> Vec<OsString> {
        let mut cur = argv;
        let mut budget = 3000usize;
        // Huge command lines are not reduced to the end.
        let t0 = std::time::Instant::now();
        let limit = std::time::Duration::from_millis(8000.min(80_000u64.saturating_sub(self.shrinking.get())));
        let still = |v: &[OsString], budget: &mut usize| {
            if t0.elapsed() >= limit {
                *budget = 0;
            }
            if *budget == 0 {
                return false;
            }
            *budget -= 1;
            self.diverges(def, v, seed).is_some_and(|(m, _)| m == monitor)
        };
        let mut chunk = (cur.len() / 2).max(1);
        loop {
            let mut i = 1;
            let mut any = false;
            while i < cur.len() && budget > 0 {
                let mut v = cur.clone();
                v.drain(i..(i + chunk).min(cur.len()));
                if still(&v, &mut budget) {
                    cur = v;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk > 1 {
                chunk /= 2;
            } else if !any {
                break;
            }
            if budget == 0 {
                break;
            }
        }
        if still(&[&[OsString::from("prog")], &cur[1.min(cur.len())..]].concat(), &mut budget) && !cur.is_empty() {
            cur[0] = "prog".into();
        }
        // Shorten tokens.
        for i in 1..cur.len() {
            let mut step = (cur[i].len() / 2).max(1);
            while step >= 1 && !cur[i].is_empty() {
                let mut at = 0;
                let mut any = false;
                while at < cur[i].len() && budget > 0 {
                    let mut b = cur[i].as_bytes().to_vec();
                    b.drain(at..(at + step).min(b.len()));
                    let mut v = cur.clone();
                    v[i] = OsString::from_vec(b);
                    if still(&v, &mut budget) {
                        cur = v;
                        any = true;
                    } else {
                        at += step;
                    }
                }
                if step == 1 && !any {
                    break;
                }
                step = if step > 1 { step / 2 } else { 1 };
                if budget == 0 {
                    break;
                }
            }
        }
        self.shrinking.set(self.shrinking.get() + t0.elapsed().as_millis() as u64);
        cur
    }
}

pub fn knobs_for<'c>(cfg: &'c Cfg, label: &str) -> &'c Knobs {
    cfg.label_knobs
        .iter()
        .find(|(k, _)| label.starts_with(k.as_str()))
        .map_or(&cfg.knobs, |(_, v)| v)
}

pub fn cases_for(cfg: &Cfg, label: &str) -> usize {
    cfg.label_cases
        .iter()
        .find(|(k, _)| label.starts_with(k.as_str()))
        .map_or(cfg.cases, |(_, v)| *v)
}

pub fn gen_case(cfg: &Cfg, def: &Def, dict: &[OsString], case: u64) -> (Vec<OsString>, Rng) {
    let rng = Rng::new(&[cfg.seed, u64::from(def.id), case, hash(&cfg.check)]);
    let mut g = Gen::new(def, knobs_for(cfg, &def.label), dict, rng);
    if cfg.monitors.iter().any(|m| m == "helptext") {
        // Every command's help, both ways, first.
        let paths = crate::help::paths(&def.cmd);
        if let Some(p) = paths.get(case as usize / 2) {
            let mut v = vec![g.arg0()];
            v.extend(p.iter().map(OsString::from));
            v.push(if case % 2 == 0 { "--help" } else { "-h" }.into());
            return (v, g.rng);
        }
    }
    let argv = g.argv();
    (argv, g.rng)
}

fn args_map() -> BTreeMap<String, String> {
    let a: Vec<String> = std::env::args().skip(2).collect();
    a.chunks(2).map(|c| (c[0].trim_start_matches("--").to_owned(), c[1].clone())).collect()
}

fn load<T: for<'a> Deserialize<'a>>(path: &str) -> T {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    serde_json::from_str(&s).unwrap_or_else(|e| panic!("{path}: {e}"))
}

/// Entry point of every generated worker binary.
pub fn main(entries: &[Entry]) {
    if crate::process::child(entries) {
        return;
    }
    let mode = std::env::args().nth(1).unwrap_or_default();
    if mode == "merge" {
        let mut all: Vec<u64> = vec![];
        for f in std::env::args().skip(2) {
            let b = std::fs::read(f).unwrap();
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        println!("{}", all.len());
        return;
    }
    let a = args_map();
    if mode == "jobs" {
        return jobs(entries, &a);
    }
    let defs: Vec<Def> = load(&a["ir"]);
    let cfg: Cfg = load(&a["cfg"]);
    let ctx = Ctx { cfg: &cfg, entries, defs: &defs, shrinking: Default::default() };
    match mode.as_str() {
        "run" => run(&ctx, &a),
        "one" => one(&ctx, &a),
        "log" => log(&ctx, &a),
        "dump" => dump(&ctx, &a),
        "cost" => crate::cost::run(&ctx, &a),
        "pure" => crate::pure::run(&ctx, &a),
        "quiet" => crate::pure::quiet(&ctx, &a),
        "proc" => crate::process::run(&ctx, &a),
        m => panic!("unknown mode {m}"),
    }
}

/// Replays one case: `--def ID` and `--case N` or `--argv hex,hex,..`.
fn one(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let id: u32 = a["def"].parse().unwrap();
    let def = ctx.defs.iter().find(|d| d.id == id).unwrap();
    let argv: Vec<OsString> = match a.get("argv") {
        Some(s) if s.is_empty() => vec![],
        Some(s) => s.split(',').map(|h| OsString::from_vec(unhex(h.trim_start_matches('.')))).collect(),
        None => gen_case(ctx.cfg, def, &dictionary(def), a["case"].parse().unwrap()).0,
    };
    let hexes: Vec<String> = argv.iter().map(|t| format!(".{}", hex(t.as_bytes()))).collect();
    println!("ARGVHEX {}", hexes.join(","));
    println!("ARGV {}", show_argv(&argv));
    let p = model::predict(def, &argv, ctx.cfg.help_on);
    println!(
        "EXPECTED {}",
        match &p.outcome {
            Ok(v) => format!("{v:?}"),
            Err(e) => show(e),
        }
    );
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    if a.contains_key("predict-only") {
        return;
    }
    let o = run_real(ctx.entry(id), &argv);
    println!("OBSERVED {}", outcome_key(&o));
    if ctx.cfg.check == "C22" && !argv.is_empty() {
        match crate::process::replay(def, ctx.entry(id), &argv) {
            Some(w) => println!("DIVERGES process: {w}"),
            None => println!("AGREES"),
        }
        return;
    }
    match ctx.diverges(def, &argv, ctx.cfg.seed) {
        Some((m, w)) => println!("DIVERGES {m}: {w}"),
        None => println!("AGREES"),
    }
}

pub fn relevant(cfg: &Cfg, p: &Predicted<'_>) -> bool {
    cfg.relevant.is_empty() || p.feats.iter().any(|f| cfg.relevant.iter().any(|r| r == f || (r.ends_with('*') && f.starts_with(&r[..r.len() - 1]))))
}

fn run(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let (shard, shards) = a["shard"].split_once('/').unwrap();
    let (shard, shards): (u64, u64) = (shard.parse().unwrap(), shards.parse().unwrap());
    let skip: Vec<u32> =
        a.get("skip").map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
    let cur = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&a["cur"]).unwrap();
    let cfg = ctx.cfg;
    let mut rep = Report::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut feats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut relevant_found = 0;
    let refused = crate::clapcmp::refused();
    'defs: for def in ctx.defs {
        if skip.contains(&def.id) {
            continue;
        }
        if let Some(why) = refused.get(&def.id) {
            *rep.extra.entry(format!("definitions clap refuses (per worker): {}", why.chars().take(160).collect::<String>())).or_default() += 1;
            continue;
        }
        rep.defs += 1;
        let dict = dictionary(def);
        let mut in_def = 0;
        let n = cases_for(cfg, &def.label) as u64;
        let mut case = shard;
        while case < n {
            let mut rec = [0u8; 12];
            rec[..4].copy_from_slice(&def.id.to_le_bytes());
            rec[4..].copy_from_slice(&case.to_le_bytes());
            cur.write_all_at(&rec, 0).unwrap();
            let (argv, mut rng) = gen_case(cfg, def, &dict, case);
            let p = model::predict(def, &argv, cfg.help_on);
            rep.evaluations += 1;
            rep.tokens += argv.len() as u64;
            rep.values += p.values as u64;
            rep.max_depth = rep.max_depth.max(p.depth);
            let mut rel = relevant(cfg, &p);
            if ctx.has("clap") {
                let o = crate::clapcmp::outside(def, &argv, &p);
                rel &= o.is_none();
                if let Some(why) = o {
                    *rep.extra.entry(format!("set aside: {why}")).or_default() += 1;
                }
            }
            if rel && argv.len() > 1 {
                let h = hash(&(def.id, &argv));
                if seen.insert(h) {
                    rep.nontrivial += 1;
                }
                if rep.samples.len() < 12 && argv.len() < 12 && case % 37 == shard % 37 {
                    rep.samples.push(format!(
                        "def {} ({}): {} => {}",
                        def.id,
                        def.label,
                        show_argv(&argv),
                        match &p.outcome {
                            Ok(v) => format!("{v:?}"),
                            Err(e) => show(e),
                        }
                    ));
                }
            }
            for f in &p.feats {
                *feats.entry(f).or_default() += 1;
            }
            match &p.outcome {
                Ok(_) => rep.accepted += 1,
                Err(e) => {
                    rep.rejected += 1;
                    *classes.entry(format!("{:?}", e[0].class)).or_default() += 1;
                }
            }
            let seed = rng.next();
            if let Some((monitor, _)) =
                ctx.check_case(def, &argv, &p, &mut Rng::new(&[seed]), &mut rep)
            {
                let small = ctx.shrink(def, argv.clone(), monitor, seed);
                let ps = model::predict(def, &small, cfg.help_on);
                let (m, why) = ctx.diverges(def, &small, seed).unwrap_or((monitor, "not reproduced when run alone".into()));
                let is_rel = relevant(cfg, &ps) || m != "model";
                if is_rel {
                    relevant_found += 1;
                } else {
                    rep.foreign += 1;
                }
                in_def += 1;
                if is_rel || rep.divergences.len() < 20 {
                    rep.divergences.push(Divergence {
                        def: def.id,
                        label: def.label.clone(),
                        case,
                        argv_hex: small.iter().map(|t| hex(t.as_bytes())).collect(),
                        argv: show_argv(&small),
                        original: show_argv(&argv),
                        why,
                        feats: ps.feats.iter().map(|f| f.to_string()).collect(),
                        relevant: is_rel,
                        monitor: m.to_owned(),
                    });
                }
                if relevant_found >= cfg.max_viol {
                    break 'defs;
                }
                if in_def >= 6 {
                    break;
                }
            }
            case += shards;
        }
    }
    rep.feats = feats.into_iter().map(|(k, v)| (k.to_owned(), v)).collect();
    rep.classes = classes;
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", a["out"]), bytes).unwrap();
    std::fs::write(&a["out"], serde_json::to_vec(&rep).unwrap()).unwrap();
}

/// Writes one line per case with the observed outcome, for comparison between builds.
fn log(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    use std::io::Write;
    let (shard, shards) = a["shard"].split_once('/').unwrap();
    let (shard, shards): (u64, u64) = (shard.parse().unwrap(), shards.parse().unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a["out"]).unwrap());
    let cur = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&a["cur"]).unwrap();
    // In the order of the definitions, or shuffled.
    let dicts: Vec<_> = ctx.defs.iter().map(dictionary).collect();
    let mut todo = vec![];
    for (i, def) in ctx.defs.iter().enumerate() {
        let mut case = shard;
        while case < cases_for(ctx.cfg, &def.label) as u64 {
            todo.push((i, case));
            case += shards;
        }
    }
    let order: u64 = a.get("order").map_or(0, |s| s.parse().unwrap());
    if order > 0 {
        Rng::new(&[ctx.cfg.seed, shard, order]).shuffle(&mut todo);
    }
    for (i, case) in todo {
        let def = &ctx.defs[i];
        let dict = &dicts[i];
        {
            let mut rec = [0u8; 12];
            rec[..4].copy_from_slice(&def.id.to_le_bytes());
            rec[4..].copy_from_slice(&case.to_le_bytes());
            cur.write_all_at(&rec, 0).unwrap();
            let (argv, _) = gen_case(ctx.cfg, def, dict, case);
            let o = run_real(ctx.entry(def.id), &argv);
            let help = match &o {
                Outcome::Err(e) => classify(e) == Class::Help,
                Outcome::Ok(_) => false,
            };
            let key = match &o {
                Outcome::Ok(v) => format!("ok {:016x}", hash(v)),
                Outcome::Err(e) => format!("err {:016x} {}", hash(&(&e.display, &e.source)), e.display.escape_debug().take(160).collect::<String>()),
            };
            writeln!(out, "{}\t{}\t{}\t{}", def.id, case, if help { "H" } else { "-" }, key).unwrap();
        }
    }
}

/// Writes the cases as plain text, for interpreters too slow to generate them.
fn dump(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let mut out = String::new();
    for def in ctx.defs {
        let dict = dictionary(def);
        for case in 0..cases_for(ctx.cfg, &def.label) as u64 {
            let (argv, _) = gen_case(ctx.cfg, def, &dict, case);
            let hexes: Vec<String> = argv.iter().map(|t| format!(".{}", hex(t.as_bytes()))).collect();
            out += &format!("{} {}\n", def.id, hexes.join(","));
        }
    }
    std::fs::write(&a["out"], out).unwrap();
}

/// Runs dumped cases: in one thread, then in several at once.
fn jobs(entries: &[Entry], a: &BTreeMap<String, String>) {
    let (shard, shards) = a["shard"].split_once('/').unwrap();
    let (shard, shards): (usize, usize) = (shard.parse().unwrap(), shards.parse().unwrap());
    let text = std::fs::read_to_string(&a["jobs"]).unwrap();
    let jobs: Vec<(Entry, Vec<OsString>, &str)> = text
        .lines()
        .enumerate()
        .filter(|(i, _)| i % shards == shard)
        .map(|(_, l)| {
            let (id, argv) = l.split_once(' ').unwrap();
            let id: u32 = id.parse().unwrap();
            let e = *entries.iter().find(|e| e.id == id).unwrap();
            (e, argv.split(',').filter(|h| !h.is_empty()).map(|h| OsString::from_vec(unhex(&h[1..]))).collect(), l)
        })
        .collect();
    let mut first = vec![];
    for (e, argv, l) in &jobs {
        std::fs::write(&a["cur"], l).unwrap();
        let mut o = run_real(e, argv);
        if let Outcome::Err(e) = &mut o {
            e.debug.clear();
        }
        first.push(o);
    }
    let mut differ = 0;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|t| {
                let (jobs, first) = (&jobs, &first);
                s.spawn(move || {
                    let n = jobs.len();
                    (0..n).filter(|i| {
                        // All threads start with the same line, then go different ways.
                        let k = (i * (1 + t)) % n;
                        let o = run_real(&jobs[k].0, &jobs[k].1);
                        !same(&o, &first[k])
                    }).count()
                })
            })
            .collect();
        for h in hs {
            differ += h.join().unwrap();
        }
    });
    std::fs::write(&a["out"], format!("{} {} {differ}", jobs.len(), jobs.len() * 4)).unwrap();
}
