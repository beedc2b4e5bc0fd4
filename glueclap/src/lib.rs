//! Binds a parser derived with clap from the same source as a palc one.
use clap::error::ErrorKind;
use engine::ToVal;
use engine::clapcmp::{Entry, Outcome};
use std::ffi::OsString;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default()
}

pub fn parse<T: clap::Parser + ToVal>(argv: &[OsString]) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| T::try_parse_from(argv).map(|v| v.to_val()))) {
        Ok(Ok(v)) => Outcome::Ok(v),
        Ok(Err(e)) if e.kind() == ErrorKind::DisplayHelp => Outcome::Help,
        Ok(Err(e)) => Outcome::Err(format!("{:?}", e.kind())),
        Err(p) => Outcome::Panic(text(p)),
    }
}

/// Does clap accept the definition?
pub fn valid<T: clap::Parser>() -> Result<(), String> {
    catch_unwind(|| T::command().debug_assert()).map_err(text)
}

pub fn entry<T: clap::Parser + ToVal>(id: u32) -> Entry {
    Entry { id, parse: parse::<T>, valid: valid::<T> }
}
