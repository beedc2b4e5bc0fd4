//! The description of a generated CLI definition, as emitted by `gen.py` next to the Rust source.
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Kind {
    Flag,
    Val,
    Opt,
    OptOpt,
    Vec,
    OptVec,
}

impl Kind {
    pub fn takes_value(self) -> bool {
        !matches!(self, Kind::Flag | Kind::OptOpt)
    }
    pub fn multi(self) -> bool {
        matches!(self, Kind::Vec | Kind::OptVec)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "lowercase")]
pub enum Hyphen {
    #[default]
    None,
    Any,
    Num,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Default_ {
    /// Text parsed into the value (delimiters apply if `from_str`).
    pub text: String,
    /// `default_value = ".."` rather than `default_value_t`.
    pub from_str: bool,
    /// How help displays it.
    pub display: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Arg {
    pub field: String,
    pub kind: Kind,
    pub ty: String,
    #[serde(default)]
    pub longs: Vec<String>,
    #[serde(default)]
    pub shorts: Vec<char>,
    #[serde(default)]
    pub pos: bool,
    pub desc: String,
    pub value_name: String,
    #[serde(default)]
    pub req_eq: bool,
    #[serde(default)]
    pub global: bool,
    #[serde(default)]
    pub hyphen: Hyphen,
    #[serde(default)]
    pub icase: bool,
    #[serde(default)]
    pub delim: Option<char>,
    #[serde(default)]
    pub trailing: bool,
    #[serde(default)]
    pub last: bool,
    /// Effective: explicit, or implied by the type and the absence of a default.
    #[serde(default)]
    pub required: bool,
    #[serde(default)]
    pub default: Option<Default_>,
    #[serde(default)]
    pub excl: bool,
    #[serde(default)]
    pub requires: Vec<String>,
    #[serde(default)]
    pub conflicts: Vec<String>,
    #[serde(default)]
    pub hide: bool,
    #[serde(default)]
    pub doc: Vec<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Flat {
    pub field: String,
    pub cmd: Cmd,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum VKind {
    Unit,
    Newtype,
    Struct,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Variant {
    pub ident: String,
    pub name: String,
    pub kind: VKind,
    pub cmd: Cmd,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sub {
    pub field: String,
    pub optional: bool,
    pub variants: Vec<Variant>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Default)]
pub struct Cmd {
    #[serde(default)]
    pub args: Vec<Arg>,
    #[serde(default)]
    pub flats: Vec<Flat>,
    #[serde(default)]
    pub sub: Option<Box<Sub>>,
    #[serde(default)]
    pub about: Vec<String>,
    #[serde(default)]
    pub after: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EnumVariant {
    pub ident: String,
    pub name: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Def {
    pub id: u32,
    pub cmd: Cmd,
    #[serde(default)]
    pub enums: std::collections::BTreeMap<String, Vec<EnumVariant>>,
    /// Short label of what the definition is about (profile or boundary name).
    #[serde(default)]
    pub label: String,
}

impl Cmd {
    /// Positional arguments in the order in which they are filled:
    /// singles in declaration order, then the variable one, then `last`.
    pub fn positionals(&self) -> Vec<&Arg> {
        let pos = || self.args.iter().filter(|a| a.pos);
        pos()
            .filter(|a| !a.last && !a.kind.multi())
            .chain(pos().filter(|a| !a.last && a.kind.multi()))
            .chain(pos().filter(|a| a.last))
            .collect()
    }
}
