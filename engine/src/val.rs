//! Canonical observed values, and the user-side value types used by generated definitions.
use serde::{Deserialize, Serialize};
use std::ffi::{OsStr, OsString};
use std::fmt;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::str::FromStr;

/// A type-erased, comparable rendering of a parsed value.
#[derive(Clone, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Val {
    Bool(bool),
    /// Raw bytes of OS strings and strings.
    Bytes(Vec<u8>),
    /// Anything else with a canonical text.
    Text(String),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Rec(Vec<(String, Val)>),
    Var(String, Box<Val>),
    Unit,
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Bool(b) => write!(f, "{b}"),
            Val::Bytes(b) if b.len() > 200 => {
                write!(f, "{:?}..({} bytes)", OsStr::from_bytes(&b[..60]), b.len())
            }
            Val::Bytes(b) => write!(f, "{:?}", OsStr::from_bytes(b)),
            Val::Text(t) => write!(f, "`{t}`"),
            Val::None => write!(f, "None"),
            Val::Some(v) => write!(f, "Some({v:?})"),
            Val::List(v) if v.len() > 40 => write!(f, "[{} items, first {:?}]", v.len(), v[0]),
            Val::List(v) => f.debug_list().entries(v).finish(),
            Val::Rec(fs) => {
                let mut m = f.debug_map();
                for (k, v) in fs {
                    m.entry(&format_args!("{k}"), v);
                }
                m.finish()
            }
            Val::Var(n, v) => write!(f, "{n}({v:?})"),
            Val::Unit => write!(f, "()"),
        }
    }
}

pub fn rec(mut fs: Vec<(&'static str, Val)>) -> Val {
    fs.sort_by_key(|f| f.0);
    Val::Rec(fs.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}

pub fn var(name: &str, v: Val) -> Val {
    Val::Var(name.to_owned(), Box::new(v))
}

pub trait ToVal {
    fn to_val(&self) -> Val;
}

impl ToVal for bool {
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl ToVal for String {
    fn to_val(&self) -> Val {
        Val::Bytes(self.as_bytes().to_vec())
    }
}
impl ToVal for OsString {
    fn to_val(&self) -> Val {
        Val::Bytes(self.as_bytes().to_vec())
    }
}
impl ToVal for PathBuf {
    fn to_val(&self) -> Val {
        Val::Bytes(self.as_os_str().as_bytes().to_vec())
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.to_val())),
        }
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|v| v.to_val()).collect())
    }
}
impl<T: ToVal + ?Sized> ToVal for Box<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}
macro_rules! text {
    ($($t:ty),*) => {$(
        impl ToVal for $t {
            fn to_val(&self) -> Val { Val::Text(self.to_string()) }
        }
    )*};
}
text!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, char);
text!(std::num::NonZeroU32, std::net::IpAddr);
impl ToVal for f32 {
    fn to_val(&self) -> Val {
        Val::Text(format!("f32:{:08x}", self.to_bits()))
    }
}
impl ToVal for f64 {
    fn to_val(&self) -> Val {
        Val::Text(format!("f64:{:016x}", self.to_bits()))
    }
}

// ---- User-side types with every kind of conversion and error ----

pub type BoxOs = Box<OsStr>;
pub type ArcOs = std::sync::Arc<OsStr>;
impl ToVal for OsStr {
    fn to_val(&self) -> Val {
        Val::Bytes(self.as_bytes().to_vec())
    }
}
impl ToVal for ArcOs {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
}

/// A generic type passing on the conversion and the error of what it wraps.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Wrap<T>(pub T);
thread_local!(static HOOK: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) });

/// What the conversions of the types below run first, on this thread.
pub fn on_conversion(f: Option<Box<dyn FnMut()>>) {
    HOOK.set(f);
}

fn converting() {
    if let Some(mut f) = HOOK.take() {
        f();
        HOOK.set(Some(f));
    }
}

impl<T: FromStr> FromStr for Wrap<T> {
    type Err = T::Err;
    fn from_str(s: &str) -> Result<Self, T::Err> {
        converting();
        s.parse().map(Wrap)
    }
}
impl<T: fmt::Display> fmt::Display for Wrap<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl<T: ToVal> ToVal for Wrap<T> {
    fn to_val(&self) -> Val {
        var("Wrap", self.0.to_val())
    }
}

/// `FromStr` with error type `&'static str`. Accepts `0x..`.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Hex(pub u64);
impl FromStr for Hex {
    type Err = &'static str;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        let d = s.strip_prefix("0x").ok_or("missing 0x prefix")?;
        u64::from_str_radix(d, 16).map(Hex).map_err(|_| "bad hex digits")
    }
}
impl fmt::Display for Hex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:#x}", self.0)
    }
}
impl ToVal for Hex {
    fn to_val(&self) -> Val {
        Val::Text(format!("Hex {}", self.0))
    }
}

/// `FromStr` with error type `String`.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Even(pub i32);
impl FromStr for Even {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        match s.parse::<i32>() {
            Ok(n) if n % 2 == 0 => Ok(Even(n)),
            Ok(1) => Err("the number is odd".to_owned()),
            Ok(n) if n > 9999 => Err("so odd, ".repeat(n as usize % 5000)),
            Ok(n) => Err(format!("odd:\n  {n} mod 2\n  = 1\n\n")),
            Err(_) if s.is_empty() => Err(String::new()),
            Err(_) => Err("not a number at all".to_owned()),
        }
    }
}
impl fmt::Display for Even {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl ToVal for Even {
    fn to_val(&self) -> Val {
        Val::Text(format!("Even {}", self.0))
    }
}

/// `FromStr` with a custom `std::error::Error`.
#[derive(Debug, Clone, PartialEq)]
pub struct Strict(pub String);
#[derive(Debug)]
pub struct StrictError(pub usize);
impl fmt::Display for StrictError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "expected `ok` then letters, failed at {}", self.0)?;
        if self.0 > 4 { write!(f, ",\n\twhich is \"late\": {{}} \u{1b}[0m%s ") } else { Ok(()) }
    }
}
impl std::error::Error for StrictError {}
impl FromStr for Strict {
    type Err = StrictError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        let t = s.strip_prefix("ok").ok_or(StrictError(0))?;
        match t.find(|c: char| !c.is_ascii_alphabetic()) {
            Some(i) => Err(StrictError(i + 2)),
            None => Ok(Strict(t.to_owned())),
        }
    }
}
impl fmt::Display for Strict {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ok{}", self.0)
    }
}
impl ToVal for Strict {
    fn to_val(&self) -> Val {
        Val::Text(format!("Strict {}", self.0))
    }
}

/// `TryFrom<&OsStr>` only, refusing the empty string and anything containing `!`.
#[derive(Debug, Clone, PartialEq)]
pub struct Raw(pub Vec<u8>);
#[derive(Debug)]
pub struct RawError(RawCause);
#[derive(Debug)]
pub struct RawCause;
impl fmt::Display for RawError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("raw value refused")
    }
}
impl std::error::Error for RawError {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}
impl fmt::Display for RawCause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("empty or shouting")
    }
}
impl std::error::Error for RawCause {}

/// An error and what it says caused it: the type of each, as far as it can be told, and its text.
pub fn causes(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    fn kind(e: &(dyn std::error::Error + 'static)) -> &'static str {
        macro_rules! known {
            ($($t:ty),* $(,)?) => {
                $(if e.is::<$t>() { return stringify!($t); })*
            };
        }
        known!(
            std::str::Utf8Error,
            std::num::ParseIntError,
            std::num::ParseFloatError,
            std::str::ParseBoolError,
            std::char::ParseCharError,
            std::net::AddrParseError,
            StrictError,
            RawError,
            RawCause,
        );
        "other"
    }
    let mut v = vec![];
    let mut next = Some(e);
    while let Some(e) = next {
        v.push(format!("{}: {e}", kind(e)));
        next = e.source();
    }
    v
}
impl TryFrom<&OsStr> for Raw {
    type Error = RawError;
    fn try_from(s: &OsStr) -> Result<Self, Self::Error> {
        converting();
        let b = s.as_bytes();
        if b.is_empty() || b.contains(&b'!') { Err(RawError(RawCause)) } else { Ok(Raw(b.to_vec())) }
    }
}
impl ToVal for Raw {
    fn to_val(&self) -> Val {
        let mut b = b"Raw ".to_vec();
        b.extend_from_slice(&self.0);
        Val::Bytes(b)
    }
}

/// Both `TryFrom<&OsStr>` and `FromStr`: the former must be the one used.
#[derive(Debug, Clone, PartialEq)]
pub struct Both(pub &'static str, pub Vec<u8>);
impl TryFrom<&OsStr> for Both {
    type Error = String;
    fn try_from(s: &OsStr) -> Result<Self, Self::Error> {
        converting();
        if s.len() > 3 { Err("longer than three bytes".into()) } else { Ok(Both("os", s.as_bytes().to_vec())) }
    }
}
impl FromStr for Both {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        if s.contains('z') { Err("no z please".into()) } else { Ok(Both("str", s.as_bytes().to_vec())) }
    }
}
impl ToVal for Both {
    fn to_val(&self) -> Val {
        let mut b = format!("Both {} ", self.0).into_bytes();
        b.extend_from_slice(&self.1);
        Val::Bytes(b)
    }
}

/// Infallible `From<&OsStr>` (thus `TryFrom` with error `Infallible`).
#[derive(Debug, Clone, PartialEq)]
pub struct Len(pub usize);
impl From<&OsStr> for Len {
    fn from(s: &OsStr) -> Self {
        converting();
        Len(s.len())
    }
}
impl ToVal for Len {
    fn to_val(&self) -> Val {
        Val::Text(format!("Len {}", self.0))
    }
}

/// Of no size at all.
#[derive(Debug, Clone, PartialEq)]
pub struct Nil;
impl FromStr for Nil {
    type Err = fmt::Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        if s.is_empty() || s == "nil" { Ok(Nil) } else { Err(fmt::Error) }
    }
}
impl fmt::Display for Nil {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("nil")
    }
}
impl ToVal for Nil {
    fn to_val(&self) -> Val {
        Val::Text("Nil".into())
    }
}

/// Large, strictly aligned, and with an error that is boxed already.
#[derive(Debug, Clone, PartialEq)]
#[repr(align(64))]
pub struct Wide(pub [u8; 640], pub usize);
impl FromStr for Wide {
    type Err = Box<dyn std::error::Error + Send + Sync>;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        if s.len() > 640 {
            return Err(Box::new(StrictError(640)));
        } else if s.contains('!') {
            return Err("too \"loud\"".into());
        }
        let mut b = [0u8; 640];
        b[..s.len()].copy_from_slice(s.as_bytes());
        Ok(Wide(b, s.len()))
    }
}
impl fmt::Display for Wide {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(std::str::from_utf8(&self.0[..self.1]).unwrap())
    }
}
impl ToVal for Wide {
    fn to_val(&self) -> Val {
        assert_eq!(self as *const Wide as usize % 64, 0, "a value is not where its type may be");
        assert!(self.0[self.1..].iter().all(|b| *b == 0));
        Val::Bytes(self.0[..self.1].to_vec())
    }
}

/// Counts conversions globally, for "exactly once" monitoring: the text is kept as well.
#[derive(Debug, Clone, PartialEq)]
pub struct Counted(pub String);
pub static COUNTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl FromStr for Counted {
    type Err = &'static str;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        converting();
        COUNTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if s == "nope" {
            Err(": \r\n<unknown> ")
        } else if s.starts_with("no") {
            Err("counted says no")
        } else { Ok(Counted(s.to_owned())) }
    }
}
impl ToVal for Counted {
    fn to_val(&self) -> Val {
        Val::Text(format!("Counted {}", self.0))
    }
}
