//! Observed outcomes of the real parser, and their comparison with a prediction.
use crate::model::{Class, Pat, Predicted};
use crate::val::Val;
use std::ffi::OsString;

#[derive(Debug, Clone)]
pub struct ErrObs {
    pub display: String,
    pub debug: String,
    pub source: Option<String>,
    /// The source and what it says caused it.
    pub causes: Vec<String>,
    /// An accessor of the error that contradicts another one.
    pub odd: Option<String>,
    pub help: Option<String>,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Ok(Val),
    Err(ErrObs),
}

pub type ParseFn = fn(&mut dyn Iterator<Item = OsString>) -> Outcome;

#[derive(Clone, Copy)]
pub struct Entry {
    pub id: u32,
    pub parse: ParseFn,
    /// `parse()` on the arguments of the process.
    pub process: fn() -> Val,
    /// `render_long_help`, when help is built in.
    pub help: Option<fn(String) -> String>,
}

pub fn classify(e: &ErrObs) -> Class {
    if e.help.is_some() {
        return Class::Help;
    }
    let m = e.display.as_str();
    let starts = |p: &str| m.starts_with(p);
    if starts("missing executable argument") {
        Class::Argv0
    } else if starts("unexpected argument ") {
        Class::Unexpected
    } else if starts("unrecognized subcommand ") {
        Class::UnknownSub
    } else if starts("unexpected value ") {
        Class::UnexpectedValue
    } else if starts("invalid value ") {
        Class::Invalid
    } else if starts("a value is required for ") {
        Class::MissingValue
    } else if starts("equal sign is needed") {
        Class::MissingEq
    } else if starts("the subcommand is required") {
        Class::MissingSub
    } else if starts("the argument ") {
        if m.ends_with("cannot be used multiple times") {
            Class::Dup
        } else if m.ends_with("is required but not provided") {
            Class::MissingArg
        } else if m.contains("is required because") {
            Class::Requires
        } else if m.contains("cannot be used with one or more") {
            Class::Exclusive
        } else if m.contains("cannot be used with some other") {
            Class::Conflict
        } else {
            Class::Other
        }
    } else {
        Class::Other
    }
}

/// How much of an error is compared.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Strict {
    /// The class of the error, not only that there is one.
    pub class: bool,
    /// The argument named and the input quoted.
    pub detail: bool,
    /// The reason, source and possible values of a refused value.
    pub reason: bool,
    /// Hygiene of the text: escaped, no placeholder.
    pub text: bool,
}

fn detail_ok(p: &Pat, e: &ErrObs) -> Result<(), String> {
    let m = &e.display;
    if let Some(d) = &p.desc
        && !m.contains(&format!("'{d}'"))
    {
        return Err(format!("does not name '{d}'"));
    }
    if !p.input.is_empty() && !p.input.iter().any(|i| m.contains(&format!("{i:?}"))) {
        return Err(format!("does not quote {:?}", p.input[0]));
    }
    Ok(())
}

fn reason_ok(p: &Pat, e: &ErrObs) -> Result<(), String> {
    let Some(r) = &p.refusal else {
        return Ok(());
    };
    if let Some(reason) = &r.reason {
        // The reason is stated after what was refused.
        let head = p.desc.as_ref().map_or(0, |d| {
            e.display.find(&format!("'{d}'")).map_or(0, |i| i + d.len() + 2)
        });
        if !e.display[head..].contains(reason.as_str()) {
            return Err(format!("does not state the reason {reason:?}"));
        }
        if r.possible.is_none() && !e.display.ends_with(reason.as_str()) {
            return Err(format!("does not end with the reason {reason:?}"));
        }
        if e.source.as_deref() != Some(reason) {
            return Err(format!("source is {:?} instead of {reason:?}", e.source));
        }
        if e.causes != r.causes {
            return Err(format!("source and its causes are {:?} instead of {:?}", e.causes, r.causes));
        }
    }
    if let Some(possible) = &r.possible {
        let Some(i) = e.display.rfind("[possible values: ") else {
            return Err("does not list the possible values".into());
        };
        let list = &e.display[i + "[possible values: ".len()..];
        let Some(list) = list.trim_end().strip_suffix(']') else {
            return Err("possible values are not terminated".into());
        };
        let mut want = possible.clone();
        want.sort();
        // Names may contain ", ": compare the joined text as well as the split set.
        let mut got: Vec<&str> = if list.is_empty() { vec![] } else { list.split(", ").collect() };
        got.sort_unstable();
        if got != want && list != want.join(", ") {
            return Err(format!("possible values are {list:?} instead of {want:?}"));
        }
    } else if e.display.contains("[possible values: ") && !p.input.iter().any(|i| i.to_string_lossy().contains("possible")) {
        return Err("lists possible values of something else".into());
    }
    Ok(())
}

fn text_ok(p: &Pat, e: &ErrObs) -> Result<(), String> {
    let mut m = e.display.as_str();
    if let Some(i) = m.rfind("\n  [possible values: ") {
        m = &m[..i];
    }
    // What the conversion says is not palc's.
    if let Some(reason) = p.refusal.as_ref().and_then(|r| r.reason.as_ref()) {
        m = m.strip_suffix(reason.as_str()).unwrap_or(m);
    }
    if let Some(c) = m.chars().find(|c| c.is_control()) {
        return Err(format!("contains the raw control character {c:?}"));
    }
    if m.contains("<unknown argument>") || m.contains("<unknown>") {
        let in_input = p.input.iter().any(|i| i.to_string_lossy().contains("<unknown"));
        let in_desc = p.desc.as_ref().is_some_and(|d| d.contains("<unknown"));
        if !in_input && !in_desc {
            return Err("shows a placeholder".into());
        }
    }
    if m.trim().is_empty() {
        return Err("is empty".into());
    }
    if !e.debug.contains("Error") {
        return Err("Debug output is empty".into());
    }
    if let Some(odd) = &e.odd {
        return Err(odd.clone());
    }
    Ok(())
}

/// `None` if the observation is acceptable, otherwise why it is not.
pub fn compare(p: &Predicted<'_>, o: &Outcome, s: Strict) -> Option<String> {
    match (&p.outcome, o) {
        (Ok(want), Outcome::Ok(got)) => {
            if want == got {
                None
            } else {
                Some(format!("expected {want:?}, parsed as {got:?}"))
            }
        }
        (Ok(want), Outcome::Err(e)) => {
            Some(format!("expected {want:?}, rejected with {:?}", short(&e.display)))
        }
        (Err(pats), Outcome::Ok(got)) => {
            Some(format!("expected {}, parsed as {got:?}", show(pats)))
        }
        (Err(pats), Outcome::Err(e)) => {
            if !s.class {
                return None;
            }
            let class = classify(e);
            let mut why = None;
            for p in pats.iter().filter(|p| p.class == class) {
                let r = if class == Class::Help {
                    Ok(())
                } else {
                    (if s.detail { detail_ok(p, e) } else { Ok(()) })
                        .and_then(|()| if s.reason { reason_ok(p, e) } else { Ok(()) })
                        .and_then(|()| if s.text { text_ok(p, e) } else { Ok(()) })
                };
                match r {
                    Ok(()) => return None,
                    Err(w) => why = Some(w),
                }
            }
            Some(match why {
                Some(w) => format!("message {:?} {w}; expected {}", short(&e.display), show(pats)),
                None => format!("expected {}, got {:?}", show(pats), short(&e.display)),
            })
        }
    }
}

fn short(s: &str) -> String {
    if s.len() <= 300 {
        s.to_owned()
    } else {
        format!("{}...({} bytes)", s.chars().take(250).collect::<String>(), s.len())
    }
}

pub fn show(pats: &[Pat]) -> String {
    let one = |p: &Pat| {
        let mut s = format!("error {:?}", p.class);
        if let Some(d) = &p.desc {
            s += &format!(" of '{d}'");
        }
        if let Some(i) = p.input.first() {
            s += &format!(" quoting {:?}", short(&format!("{i:?}")));
        }
        s
    };
    let v: Vec<String> = pats.iter().take(4).map(one).collect();
    v.join(" or ")
}
