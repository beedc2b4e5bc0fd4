//! What each value type accepts, by name. Independent of palc.
use crate::ir::Def;
use crate::val::*;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::str::FromStr;

#[derive(Debug, Clone, PartialEq)]
pub struct Refusal {
    /// The reason text of the conversion, if there is one.
    pub reason: Option<String>,
    /// The error of the conversion and its causes.
    pub causes: Vec<String>,
    /// The names of the value enum.
    pub possible: Option<Vec<String>>,
}

type Boxed = Box<dyn std::error::Error + Send + Sync>;

impl Refusal {
    fn by(e: impl Into<Boxed>, possible: Option<Vec<String>>) -> Self {
        let e: Boxed = e.into();
        Refusal { reason: Some(e.to_string()), causes: causes(&*e), possible }
    }
}

fn via_str<T: FromStr<Err: Into<Boxed>> + ToVal>(s: &OsStr) -> Result<Val, Refusal> {
    let s = std::str::from_utf8(s.as_bytes()).map_err(|e| Refusal::by(e, None))?;
    s.parse::<T>().map(|v| v.to_val()).map_err(|e| Refusal::by(e, None))
}

fn via_os<'a, T: TryFrom<&'a OsStr, Error: Into<Boxed>> + ToVal>(s: &'a OsStr) -> Result<Val, Refusal> {
    T::try_from(s).map(|v| v.to_val()).map_err(|e| Refusal::by(e, None))
}

pub fn convert(def: &Def, ty: &str, s: &OsStr) -> Result<Val, Refusal> {
    match ty {
        "String" => via_str::<String>(s),
        "OsString" | "PathBuf" | "BoxOs" | "ArcOs" => Ok(Val::Bytes(s.as_bytes().to_vec())),
        "u8" => via_str::<u8>(s),
        "i8" => via_str::<i8>(s),
        "i16" => via_str::<i16>(s),
        "u16" => via_str::<u16>(s),
        "i32" => via_str::<i32>(s),
        "u32" => via_str::<u32>(s),
        "i64" => via_str::<i64>(s),
        "u64" => via_str::<u64>(s),
        "usize" => via_str::<usize>(s),
        "i128" => via_str::<i128>(s),
        "u128" => via_str::<u128>(s),
        "isize" => via_str::<isize>(s),
        "f32" => via_str::<f32>(s),
        "f64" => via_str::<f64>(s),
        "Wrap<u8>" => via_str::<Wrap<u8>>(s),
        "Wrap<String>" => via_str::<Wrap<String>>(s),
        "char" => via_str::<char>(s),
        "bool" => via_str::<bool>(s),
        "NonZeroU32" => via_str::<std::num::NonZeroU32>(s),
        "IpAddr" => via_str::<std::net::IpAddr>(s),
        "Hex" => via_str::<Hex>(s),
        "Even" => via_str::<Even>(s),
        "Strict" => via_str::<Strict>(s),
        "Counted" => via_str::<Counted>(s),
        "Nil" => via_str::<Nil>(s),
        "Wide" => via_str::<Wide>(s),
        "Raw" => via_os::<Raw>(s),
        "Both" => via_os::<Both>(s),
        "Len" => Ok(Len::from(s).to_val()),
        _ => {
            let e = def.enums.get(ty).unwrap_or_else(|| panic!("unknown type {ty}"));
            let possible = Some(e.iter().map(|v| v.name.clone()).collect());
            match std::str::from_utf8(s.as_bytes()) {
                Err(err) => Err(Refusal::by(err, possible)),
                Ok(s) => match e.iter().find(|v| v.name == s) {
                    Some(v) => Ok(Val::Var(v.ident.clone(), Box::new(Val::Unit))),
                    None => Err(Refusal { reason: None, causes: vec![], possible }),
                },
            }
        }
    }
}

/// Texts that are interesting for a type: (mostly) accepted ones first, refused ones second.
pub fn samples(def: &Def, ty: &str) -> (Vec<OsString>, Vec<OsString>) {
    let s = |good: &[&str], bad: &[&str]| {
        (
            good.iter().map(OsString::from).collect::<Vec<_>>(),
            bad.iter().map(OsString::from).collect::<Vec<_>>(),
        )
    };
    match ty {
        "u8" | "Wrap<u8>" => s(&["0", "1", "255", "007", "+5"], &["256", "-1", "", "x", "1.0", " 1", "1 "]),
        "i8" => s(&["0", "127", "-128", "-1", "+7"], &["128", "-129", "", "--1", "0x1"]),
        "i16" | "i32" | "i64" | "i128" | "isize" => {
            s(&["0", "42", "-1", "-32768", "32767", "+3", "-0"], &["", "-", "1e3", "９", "4 2", "99999999999999999999999999999999999999999"])
        }
        "u16" | "u32" | "u64" | "u128" | "usize" => {
            s(&["0", "7", "65535", "00", "+1"], &["-1", "", "1_000", "99999999999999999999999", "1,2"])
        }
        "f32" | "f64" => s(&["0", "-1.5", "1e10", "inf", "-inf", "NaN", ".5", "5.", "-0", "1E-3"], &["", "1,5", "e", "--1", "1.5.2"]),
        "char" => s(&["a", "我", "é", "😀", "\n", "=", ","], &["", "ab", "é́", "\u{1F468}\u{200D}"]),
        "bool" => s(&["true", "false"], &["", "True", "1", "yes", "tru"]),
        "NonZeroU32" => s(&["1", "4294967295"], &["0", "4294967296", "", "-1"]),
        "IpAddr" => s(&["127.0.0.1", "::1", "fe80::1"], &["", "127.0.0", "127.0.0.1:80", "localhost"]),
        "Hex" => s(&["0x0", "0xff", "0xDEADbeef"], &["ff", "0x", "0xg", "", "0X1"]),
        "Even" => s(&["0", "-2", "42", "+8"], &["1", "-3", "x", "", "77", "104999"]),
        "Strict" => s(&["ok", "okay", "okA"], &["", "no", "ok1", "ok-", "OK", "okabcd1", "ok ok ok"]),
        "Raw" => s(&["a", "raw value", "==", "--", "é"], &["", "!", "a!b"]),
        "Both" => s(&["a", "zz", "", "abc", "é"], &["abcd", "zzzz", "long one"]),
        "Counted" => s(&["", "a", "yes no"], &["no", "nope"]),
        "Nil" => s(&["", "nil"], &["Nil", " ", "0"]),
        "Wide" => s(&["", "w", "wide é", "a,b", "="], &["!", "a!", "loud!"]),
        "String" | "OsString" | "PathBuf" | "Len" | "BoxOs" | "ArcOs" | "Wrap<String>" => s(
            &["", "v", "value", "a=b", "=", "==x", "a,b", ",", "a b", "我", "naïve", "x\ny", "\u{1b}[31m", "/tmp/x", "\"q\"", "'", "\\", "{}", "{0}", "%s", "\u{7f}", "\u{202e}x"],
            &[],
        ),
        _ => match def.enums.get(ty) {
            Some(e) => {
                let good: Vec<OsString> = e.iter().map(|v| v.name.clone().into()).collect();
                let mut bad = vec![OsString::new(), "nonsense".into()];
                for v in e {
                    bad.push(v.ident.clone().into());
                    bad.push(v.name.to_uppercase().into());
                    bad.push(v.name.to_lowercase().into());
                    bad.push(format!("{} ", v.name).into());
                    bad.push(format!("{}x", v.name).into());
                    bad.push(v.name.replace('-', "_").into());
                    let mut cs = v.name.chars();
                    cs.next_back();
                    bad.push(cs.as_str().into());
                    let mut cs = v.name.chars();
                    if let Some(c) = cs.next() {
                        bad.push(format!("{}{}", c.to_ascii_uppercase(), cs.as_str()).into());
                    }
                }
                (good, bad)
            }
            None => s(&["v"], &[]),
        },
    }
}
