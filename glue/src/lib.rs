//! Binds a derived palc parser to the type-erased interface of the monitors.
use engine::{Entry, ErrObs, Outcome, ToVal};
use std::error::Error as _;
use std::ffi::OsString;

pub fn observe(e: palc::Error) -> ErrObs {
    let display = e.to_string();
    let debug = format!("{e:?}");
    let source = e.source().map(|s| s.to_string());
    let causes = e.source().map(engine::causes).unwrap_or_default();
    let mut odd = None;
    let help = match e.try_into_help() {
        Ok(help) => Some(help),
        Err(e) => {
            if e.to_string() != display || e.source().map(|s| s.to_string()) != source {
                odd = Some(format!("becomes {:?} when asked for its help", e.to_string()));
            }
            if let Ok(help) = e.try_into_help() {
                odd = Some(format!("has the help {help:?} when asked again"));
            }
            None
        }
    };
    // What a program reports in the same way as the parser does.
    let c = palc::Error::custom(display.as_str());
    if c.to_string() != display || c.source().map(|s| s.to_string()).as_ref() != Some(&display) {
        odd = Some(format!("wrapped as a custom error reads {:?}, source {:?}", c.to_string(), c.source().map(|s| s.to_string())));
    }
    if let Ok(help) = c.try_into_help() {
        odd = Some(format!("wrapped as a custom error has the help {help:?}"));
    }
    ErrObs { display, debug, source, causes, odd, help }
}

pub fn parse<T: palc::Parser + ToVal>(it: &mut dyn Iterator<Item = OsString>) -> Outcome {
    match T::try_parse_from(it) {
        Ok(v) => Outcome::Ok(v.to_val()),
        Err(e) => Outcome::Err(observe(e)),
    }
}

pub fn process<T: palc::Parser + ToVal>() -> engine::Val {
    T::parse().to_val()
}

#[cfg(feature = "help")]
pub fn help<T: palc::Parser>(argv0: String) -> String {
    T::render_long_help(argv0)
}

pub fn entry<T: palc::Parser + ToVal>(id: u32) -> Entry {
    Entry {
        id,
        parse: parse::<T>,
        process: process::<T>,
        #[cfg(feature = "help")]
        help: Some(help::<T>),
        #[cfg(not(feature = "help"))]
        help: None,
    }
}
