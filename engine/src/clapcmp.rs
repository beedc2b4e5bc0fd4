//! The same source compiled with clap, as a second opinion.
use crate::ir::*;
use crate::model::Predicted;
use crate::observe;
use crate::val::Val;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;
use std::sync::OnceLock;

#[derive(Debug, Clone)]
pub enum Outcome {
    Ok(Val),
    Help,
    /// The kind of the error.
    Err(String),
    /// clap itself gave up.
    Panic(String),
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub id: u32,
    pub parse: fn(&[OsString]) -> Outcome,
    pub valid: fn() -> Result<(), String>,
}

static ENTRIES: OnceLock<BTreeMap<u32, (Entry, Result<(), String>)>> = OnceLock::new();

pub fn set(entries: Vec<Entry>) {
    if std::env::args().nth(1).as_deref() == Some("merge") {
        return;
    }
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let map = entries.into_iter().map(|e| (e.id, (e, (e.valid)()))).collect();
    std::panic::set_hook(hook);
    ENTRIES.set(map).ok().unwrap();
}

/// Definitions clap refuses, and why.
pub fn refused() -> BTreeMap<u32, String> {
    ENTRIES.get().into_iter().flatten().filter_map(|(id, (_, v))| Some((*id, v.clone().err()?))).collect()
}

/// Why a line is outside the core, if it is.
fn any(c: &Cmd, f: &dyn Fn(&Arg) -> bool) -> bool {
    c.args.iter().any(f) || c.flats.iter().any(|g| any(&g.cmd, f)) || c.sub.iter().any(|s| s.variants.iter().any(|v| any(&v.cmd, f)))
}

pub fn outside(def: &Def, argv: &[OsString], p: &Predicted<'_>) -> Option<&'static str> {
    // clap keeps only the innermost level's values of a global argument, palc (as documented) all.
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    for s in &p.segs {
        for &slot in &s.slots {
            if *at.entry(slot).or_insert(s.level) != s.level {
                return Some("a global argument at more than one level");
            }
        }
    }
    if argv[1..].iter().any(|t| t.is_empty()) && any(&def.cmd, &|a| a.ty == "PathBuf") {
        return Some("an empty path");
    }
    let minus_zero = |t: &OsString| t.as_bytes().windows(2).any(|w| w == b"-0");
    if p.feats.contains("err.invalid") && argv[1..].iter().any(minus_zero) && any(&def.cmd, &|a| a.ty.starts_with('u') || a.ty == "NonZeroU32") {
        return Some("minus zero, unsigned");
    }
    if p.feats.contains("err.dup") && p.depth > 0 && any(&def.cmd, &|a| a.global) {
        return Some("a global argument at more than one level");
    }
    if p.feats.contains("err.missingeq") && any(&def.cmd, &|a| a.kind == Kind::OptOpt && !a.shorts.is_empty()) {
        return Some("an option with an optional value within a bundle");
    }
    None
}

pub fn check(def: &Def, argv: &[OsString], palc: &observe::Outcome, extra: &mut BTreeMap<String, u64>) -> Option<String> {
    let (e, valid) = ENTRIES.get()?.get(&def.id)?;
    if valid.is_err() {
        return None;
    }
    let mut count = |s: String| *extra.entry(s).or_default() += 1;
    let o = (e.parse)(argv);
    let why = match (&o, palc) {
        (Outcome::Panic(m), _) => {
            count(format!("lines on which clap panics: {}", m.chars().take(80).collect::<String>()));
            return None;
        }
        (Outcome::Ok(a), observe::Outcome::Ok(b)) if a == b => {
            count("accepted by both with equal values".into());
            return None;
        }
        (Outcome::Err(k), observe::Outcome::Err(_)) => {
            count(format!("refused by both; clap: {k}"));
            return None;
        }
        (Outcome::Help, observe::Outcome::Err(_)) => {
            count("help from clap, help or refusal from palc".into());
            return None;
        }
        (Outcome::Ok(a), observe::Outcome::Ok(b)) => format!("clap gives {a:?}, palc {b:?}"),
        (Outcome::Ok(a), observe::Outcome::Err(b)) => format!("clap accepts it as {a:?}, palc refuses it: {}", b.display),
        (Outcome::Err(k), observe::Outcome::Ok(b)) => format!("clap refuses it ({k}), palc accepts it as {b:?}"),
        (Outcome::Help, observe::Outcome::Ok(b)) => format!("clap shows help, palc accepts it as {b:?}"),
    };
    Some(why)
}

