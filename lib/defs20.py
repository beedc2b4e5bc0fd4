"""C20: definitions in odd surroundings, and definitions broken in one place each.

Everything here is about source text: `Text` prints a definition (the dictionaries of gen.py) as it
would stand in a user's file, with none of the glue of the other checks. The mutations change the
dictionary (or attach raw attributes to it) so that exactly one documented rule is broken.
"""
import copy
import re

import gen
from gen import (Rng, arg_attrs, cmd_attrs, enum_names, is_named, is_required, kebab, long_of, names_of, pos, rchar, rstr, rust_ty, short_of, unraw)

# ------------------------------------------------------------------ types

SUPPORT = """
#[allow(dead_code)]
pub mod support {
    macro_rules! from_str { ($($t:ident $v:ty),*) => { $(
        #[derive(Clone, Debug, Default)] pub struct $t(pub $v);
        impl std::str::FromStr for $t { type Err = std::string::String; fn from_str(s: &str) -> std::result::Result<Self, std::string::String> { s.parse().map($t).map_err(|_| "no".into()) } }
        impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
    )* } }
    pub type BoxOs = std::boxed::Box<std::ffi::OsStr>;
    pub type ArcOs = std::sync::Arc<std::ffi::OsStr>;
    #[derive(Clone, Debug)] pub struct Wrap<T>(pub T);
    impl<T: std::str::FromStr> std::str::FromStr for Wrap<T> { type Err = T::Err; fn from_str(s: &str) -> std::result::Result<Self, T::Err> { s.parse().map(Wrap) } }
    impl<T: std::fmt::Display> std::fmt::Display for Wrap<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
    from_str!(Hex u32, Even i64, Strict String, Counted String);
    #[derive(Clone, Debug)] pub struct Nil;
    impl std::str::FromStr for Nil { type Err = std::fmt::Error; fn from_str(_: &str) -> std::result::Result<Self, std::fmt::Error> { Ok(Nil) } }
    impl std::fmt::Display for Nil { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("nil") } }
    #[derive(Clone, Debug)] #[repr(align(64))] pub struct Wide(pub [u8; 640]);
    impl std::str::FromStr for Wide { type Err = std::boxed::Box<dyn std::error::Error + Send + Sync>; fn from_str(s: &str) -> std::result::Result<Self, std::boxed::Box<dyn std::error::Error + Send + Sync>> { if s == "!" { Err("loud".into()) } else { Ok(Wide([0; 640])) } } }
    macro_rules! from_os { ($($t:ident),*) => { $(
        #[derive(Clone, Debug)] pub struct $t(pub std::ffi::OsString);
        impl std::convert::TryFrom<&std::ffi::OsStr> for $t { type Error = &'static str; fn try_from(s: &std::ffi::OsStr) -> Result<Self, &'static str> { Ok($t(s.into())) } }
    )* } }
    from_os!(Raw, Both);
    #[derive(Clone, Debug)] pub struct Len(pub usize);
    impl From<&std::ffi::OsStr> for Len { fn from(s: &std::ffi::OsStr) -> Self { Len(s.len()) } }
    /// A generic type.
    #[derive(Clone, Debug)] pub struct W<T, const N: usize = 0>(pub T);
    impl<T: std::str::FromStr, const N: usize> std::str::FromStr for W<T, N> { type Err = T::Err; fn from_str(s: &str) -> Result<Self, T::Err> { s.parse().map(W) } }
    /// Parsed by nothing.
    #[derive(Clone, Debug)] pub struct NoParse;
    impl std::fmt::Display for NoParse { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("NoParse") } }
    /// Parsed, but with an error that is not one.
    #[derive(Clone, Debug)] pub struct BadErr;
    impl std::str::FromStr for BadErr { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { Err(()) } }
    /// Parsed, but not shown.
    #[derive(Clone, Debug)] pub struct NoShow;
    impl std::str::FromStr for NoShow { type Err = String; fn from_str(_: &str) -> Result<Self, String> { Ok(NoShow) } }
}
"""

# Other ways to write a type.
SPELLINGS = {
    "String": ["::std::string::String", "support::W<::std::string::String>", "::std::sync::Arc<::std::ffi::OsStr>"],
    "OsString": ["::std::ffi::OsString", "::std::boxed::Box<::std::ffi::OsStr>", "::std::rc::Rc<::std::ffi::OsStr>"],
    "PathBuf": ["::std::path::PathBuf"],
    "u8": ["::std::primitive::u8", "::std::num::NonZero<u8>", "::std::num::NonZeroU8", "support::W<u8, 7>"],
    "i32": ["::std::primitive::i32", "support::W<support::W<i32>>", "::std::net::SocketAddr"],
    "bool": ["::std::primitive::bool", "::core::primitive::bool"],
    "IpAddr": ["::std::net::IpAddr"],
}
IMPORTS = {
    "Option": "::std::option::Option", "Vec": "::std::vec::Vec", "String": "::std::string::String", "OsString": "::std::ffi::OsString",
    "PathBuf": "::std::path::PathBuf", "NonZeroU32": "::std::num::NonZeroU32", "IpAddr": "::std::net::IpAddr",
    **{t: "support::" + t for t in ["Hex", "Even", "Strict", "Raw", "Both", "Len", "Counted", "Nil", "Wide", "BoxOs", "ArcOs", "Wrap"]},
}
# Expressions which need no prelude.
PLAIN = {
    'String::from("dflt")': '<::std::string::String as ::std::convert::From<&str>>::from("dflt")',
    '"a b=c".to_owned()': '::std::borrow::ToOwned::to_owned("a b=c")',
    'format!("-{}", "x")': '::std::format!("-{}", "x")',
    "usize::default()": "<usize as ::std::default::Default>::default()",
    '"127.0.0.1".parse().unwrap()': '::std::net::IpAddr::V4(::std::net::Ipv4Addr::LOCALHOST)',
    "IpAddr::V6(std::net::Ipv6Addr::LOCALHOST)": "::std::net::IpAddr::V6(::std::net::Ipv6Addr::LOCALHOST)",
    "NonZeroU32::new(3).unwrap()": "::std::num::NonZeroU32::new(3).unwrap()",
    "Wrap(u8::MAX)": "Wrap(<u8>::MAX)", 'Wrap("w".into())': 'Wrap(<::std::string::String as ::std::convert::From<&str>>::from("w"))',
    "u8::MAX": "<u8>::MAX", "i8::MIN": "<i8>::MIN", "i64::MIN": "<i64>::MIN", "u64::MAX": "<u64>::MAX",
}

# ------------------------------------------------------------------ surroundings

QUIET = "#[allow(dead_code, private_interfaces, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_parens)]"
CRATE = "#![allow(uncommon_codepoints, mixed_script_confusables, confusable_idents, unused_extern_crates, unused_crate_dependencies)]\n"
# Lints that say something about what the macros emit rather than about the user's own text.
# (Those that people deny for a whole crate; not every allowed-by-default one.)
LINTS = "warnings rust_2018_idioms rust_2021_compatibility future_incompatible nonstandard_style let_underscore unused unsafe_code unsafe_op_in_unsafe_fn".split()

SHADOW = {
    "mod": "std core alloc palc fmt error ops convert option result string vec ffi marker num str_ runtime refl values util shared __private_ heck syn",
    "struct": """Some None Ok Err Box Rc Cow Option Vec String OsStr OsString Path PathBuf PhantomData Infallible NonZero ControlFlow Error ArgAttrs RawArgsInfo
        RawSubcommandInfo ArgsFrame FlagPlace SetValuePlace SetOptionalValuePlace VecPlace VecDelimitedPlace StructParserFlavor FallbackParserFlavor Formatter Arguments Help
        RawParser Frame_ ErrorKind Input Output_""",
    "trait": """Default Iterator IntoIterator Fn FnOnce FnMut Into From TryFrom TryInto AsRef Drop_ ToString ToOwned Clone Copy Send_ Display Debug Parsable RunParser
        Frame ParserInternal Parser Args Subcommand ValueEnum ValueParser InferValueParser InferDisplayDefaultValue DefaultExt FromStr Eq PartialEq Ord""",
    "type": "Result bool char str u8 u16 u32 u64 usize i8 i16 i32 i64 i128 f64 isize",
    "fn": "drop assert_auto_infer_value_parser_ok assert_impl_display_default_value unreachable_nounwind error_missing_arg error_exclusive error_dependency error_conflict size_of from_utf8",
    "macro": """assert assert_eq debug_assert format_args concat env option_env unreachable unimplemented panic todo matches vec write writeln format println stringify include_str
        const_concat_impl const_concat_len __const_concat __gate_help line file module_path cfg""",
}


LIKELY = """out frame parser info fields f fmt_ total_args total idx index place value v default state arg args p iter next name desc ty this x e err res ret kind attrs
    help sub subcmd subcommand cmd s i n count set given parsed values variant variants parse display run self_ tmp buf template precision"""


def mentioned(body):
    """The names that scope decides: of a path, the first segment."""
    return set(re.findall(r"(?<!::)(?<!\w)\w+", body))


def shadows(body, rng):
    """Items named like everything a macro might mention, except what the definition itself names."""
    used = mentioned(body)
    out = []
    for kind, names in SHADOW.items():
        for n in names.split():
            if n.endswith("_") or n in used:
                continue
            if kind == "macro":
                out.append(f"#[allow(unused_macros)] macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!(\"the macro {n} of the user's scope was used\") }} }}")
            elif kind == "mod":
                out.append(f"#[allow(dead_code)] pub mod {n} {{}}")
            elif kind == "fn":
                out.append(f"{QUIET} pub fn {n}() {{}}")
            elif kind == "trait":
                out.append(f"{QUIET} pub trait {n} {{}}")
            elif kind == "type":
                out.append(f"{QUIET} pub struct {n};" if n != "Result" else f"{QUIET} pub type {n} = ();")
            else:
                out.append(f"{QUIET} pub struct {n};")
    # Constants, statics and functions with the names of fields.
    fields = sorted(set(re.findall(r"^\s*(?:pub(?:\([^)]*\))? )?((?:r#)?\w+): ", body, re.M)))
    for f in fields:
        if f in ("r#type",) or f.startswith("__") or not rng.p(0.6) or re.search(rf"\b{re.escape(f)}\(", body) or any(f in x.split() for x in SHADOW.values()):
            continue
        out.append(rng.pick([f"{QUIET} pub const {f}: () = ();", f"{QUIET} pub static {f}: () = ();", f"{QUIET} pub struct {f};", f"{QUIET} pub fn {f}() {{}}"]))
    # And with names that generated code might give to its locals.
    likely = LIKELY.split() + [form.format(f.removeprefix("r#")) for f in fields for form in ("arg_{}", "state_{}", "_{}", "{}_", "{}_arg", "{}_place", "field_{}")]
    for x in sorted(set(likely) - used - set(fields) - {"_"}):
        if rng.p(0.3) and not x.startswith("__") and not any(x in y.split() for y in SHADOW.values()):
            out.append(rng.pick([f"{QUIET} pub const {x}: () = ();", f"{QUIET} pub static {x}: () = ();", f"{QUIET} pub struct {x};"]))
    rng.shuffle(out)
    macros = [x for x in out if "macro_rules!" in x]
    return "\n".join([x for x in out if "macro_rules!" not in x] + macros)


TYPE_NAMES = """Args Parser Subcommand ValueEnum Help Error Result Opts Cli Command Default Iterator Display Formatter Frame Info Fn Box OsStr PhantomData Infallible
RunParser RawArgsInfo ArgsFrame FlagPlace Parsable ControlFlow From Into Drop Copy Send Sized A T U Ty Self_ __Help2 Output Arg Value Größe Ключ r#Type""".split()


class Text(gen.Emit):
    def __init__(self, d, rng, odd=False):
        super().__init__(d, rng)
        self.odd = odd
        self.derive = "::palc::" if odd else rng.pick(["", "palc::", "::palc::"])
        self.taken = set()
        self.names = [t for t in TYPE_NAMES if self.derive or t not in ("Args", "Parser", "Subcommand", "ValueEnum", "Result", "Error")]
        self.root = None

    def fresh(self, base):
        if self.rng.p(0.5):
            x = self.rng.pick(self.names)
            if x not in self.taken and x not in self.d["enums"]:
                self.taken.add(x)
                return x
        return super().fresh(base)

    def vis_of(self):
        return self.rng.pick(["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) "]) if self.odd else "pub "

    def attrs(self, xs):
        if not self.odd:
            return xs
        return [f"#[cfg_attr({self.rng.pick(['all()', 'not(any())'])}, {x[2:-1]})]" if x.startswith("#[") and self.rng.p(0.15) else x for x in xs]

    def field(self, f, vis, assoc):
        if f["k"] == "arg":
            f2 = f
            if self.odd and f["default"] is not None and f["default"][0] == "t":
                f2 = dict(f, default=("t", f["default"][1], PLAIN.get(f["default"][2], f["default"][2]), f["default"][3]))
            f2 = self.own_const(f2, assoc)
            xs = arg_attrs(f2, self.rng, self.spell)
            ty = rust_ty(f)
            if self.odd and f["kind"] != "flag" and not f["icase"] and (f["default"] is None or f["default"][0] == "str") and f["ty"] in SPELLINGS and self.rng.p(0.25):
                ty = rust_ty(dict(f, ty=self.rng.pick(SPELLINGS[f["ty"]])))
            if f.get("raw"):
                xs = self.insert_raw(xs, f["raw"])
        elif f["k"] == "flat":
            xs, ty = ["#[command(flatten)]"], self.struct(f["struct"], "Args", "Group")
        else:
            ty = self.enum(f["enum"])
            xs, ty = ["#[command(subcommand)]"], f"Option<{ty}>" if f["optional"] else ty
        xs = self.attrs(xs) + f.get("raw_attrs", [])
        if f.get("no_attrs"):
            xs = f.get("raw_attrs", [])
        ty = f.get("raw_ty", ty)
        out = ["    " + x for x in xs]
        if self.odd and self.rng.p(0.04):
            out.append("    #[cfg(any())] #[arg(nonsense, long = 3)] " + f"{vis}gone{self.n}_{len(self.items)}_{len(out)}: NoSuchType,")
            out = [out[-1]] + out[:-1]
        out.append(f"    {vis}{f['ident']}: {ty},")
        return out

    def insert_raw(self, xs, raw):
        xs = list(xs)
        at = [i for i, x in enumerate(xs) if x.startswith("#[arg(")]
        if at and self.rng.p(0.7):
            i = self.rng.pick(at)
            inner = xs[i][len("#[arg("):-2].rstrip(",")
            xs[i] = f"#[arg({inner}, {raw})]" if self.rng.p(0.6) else f"#[arg({raw}, {inner})]"
        else:
            xs.insert(self.rng.randint(0, len(xs)), f"#[arg({raw})]")
        return xs

    def fields_of(self, s, in_struct, assoc):
        out = []
        for f in s["fields"]:
            out += self.field(f, self.vis_of() if in_struct else "", assoc)
        return out

    def own_consts(self, name, assoc):
        return [f"{QUIET} impl {name} {{ {' '.join(assoc)} }}"] if assoc else []

    def quiet(self):
        return [QUIET]

    def struct(self, s, derive, base):
        name = s["name"] or self.fresh(base)
        derive = s.get("raw_derive", derive)
        assoc = [] if "raw_generics" not in s else None
        meta = self.attrs(self.cmd(s, assoc)) + s.get("raw_attrs", [])
        head = [f"#[derive({self.derive}{derive})]"] + self.quiet() + meta
        if "raw_item" in s:
            self.items.append("\n".join(head + [s["raw_item"].replace("NAME", name)]))
            return name
        out = head + [f"pub struct {name}{s.get('raw_generics', '')} {{"] + self.fields_of(s, True, assoc) + ["}"]
        out += self.own_consts(name, assoc)
        self.items.append("\n".join(out))
        return name

    def cmd(self, s, assoc):
        xs = cmd_attrs(s, self.rng, assoc)
        return [x.replace("= concat!(", "= ::std::concat!(") for x in xs] if self.odd else xs

    def enum(self, e):
        name = e["name"] or self.fresh("Sub")
        head = [f"#[derive({self.derive}{e.get('raw_derive', 'Subcommand')})]"] + self.quiet() + e.get("raw_attrs", [])
        if "raw_item" in e:
            self.items.append("\n".join(head + [e["raw_item"].replace("NAME", name)]))
            return name
        out, assoc = head + [f"pub enum {name}{e.get('raw_generics', '')} {{"], [] if "raw_generics" not in e else None
        for v in e["variants"]:
            i = v["ident"]
            out += ["    " + x for x in v.get("raw_attrs", [])]
            if "raw_fields" in v:
                out.append(f"    {i}{v['raw_fields']},")
            elif v["kind"] == "unit":
                out += ["    " + x for x in self.attrs(self.cmd(v["struct"], assoc))] + [f"    {i},"]
            elif v["kind"] == "newtype":
                out.append(f"    {i}({self.struct(v['struct'], 'Args', 'Inner')}),")
            else:
                out += ["    " + x for x in self.attrs(self.cmd(v["struct"], assoc))]
                out += [f"    {i} {{"] + ["    " + b for b in self.fields_of(v["struct"], False, assoc)] + ["    },"]
        out.append("}")
        out += self.own_consts(name, assoc)
        self.items.append("\n".join(out))
        return name

    def value_enum(self, e):
        n = e["name"]
        out = [f"#[derive({self.derive}ValueEnum, ::std::clone::Clone)]"] + self.quiet()
        if e["rename"] is not None:
            out.append(f"#[value(rename_all = {rstr(e['rename'])})]")
        out += e.get("raw_attrs", [])
        if "raw_item" in e:
            self.items.append("\n".join(out + [e["raw_item"].replace("NAME", n)]))
            return
        out.append(f"pub enum {n} {{")
        for v in e["variants"]:
            out += ["    " + x for x in v.get("raw_attrs", [])]
            if v["name"] is not None:
                out.append(f"    #[value(name = {rstr(v['name'])})]")
            out.append(f"    {v['ident']}{v.get('raw_fields', '')},")
        out.append("}")
        self.items.append("\n".join(out))

    def body(self):
        for e in self.d["enums"].values():
            self.value_enum(e)
        self.root = self.struct(self.d["root"], "Parser", "Cli")
        self.rng.shuffle(self.items)
        return "\n".join(self.items)


def indent(text, n=4):
    return "\n".join(" " * n + l if l else l for l in text.split("\n"))


def imports(body, support, every=False):
    used = mentioned(body)
    return "\n".join(f"#[allow(unused_imports)] use {p if p.startswith('::') else support + p};" for t, p in IMPORTS.items() if every or t in used)


def module(id, d, seed, kind):
    """The definition as module `d<id>` in surroundings of a kind."""
    rng = Rng(f"{seed}/{id}/text/{kind}")
    t = Text(d, rng, odd=kind != "plain")
    body = t.body()
    uses = []
    if not t.derive:
        uses = ["#[allow(unused_imports)] use palc::{Parser, Args, Subcommand, ValueEnum};"]
    call = f"{QUIET} pub fn run() -> ::std::primitive::bool {{ <{t.root} as ::palc::Parser>::try_parse_from([\"x\"]).is_ok() }}"
    sup = "crate::"
    body = body.replace("support::W<", "crate::support::W<")
    if kind == "plain":
        inner = "\n".join(["#[allow(unused_imports)] use std::{ffi::OsString, net::IpAddr, num::NonZeroU32, path::PathBuf};",
                           "#[allow(unused_imports)] use crate::support::*;", *uses, body, call])
    elif kind == "shadow":
        inner = "\n".join([imports(body, sup), *uses, body, call, ""])
        # Macros must come first to be in scope.
        inner = shadows(inner, rng) + "\n" + inner
    elif kind == "noprelude":
        inner = "\n".join(["#![no_implicit_prelude]", imports(body, sup), *uses, body, call])
    elif kind == "fn":
        inner = "\n".join([imports(body, sup), *uses, f"{QUIET} pub fn outer() -> bool {{", indent(body.replace("pub(super) ", "pub ").replace("pub(self) ", "")), indent(call), "    run()", "}"])
        inner = inner.replace("pub(crate) ", "") if rng.p(0.3) else inner
    elif kind == "macro":
        inner = "\n".join([imports(body, sup), *uses, through_macro(body, rng), call])
    else:
        raise KeyError(kind)
    return f"pub mod d{id} {{\n{indent(inner)}\n}}\n"


KINDS = ["shadow", "noprelude", "fn", "macro"]


def through_macro(body, rng):
    """The items come out of a macro, with some of their tokens as arguments."""
    params, args = [], []

    def take(frag, text):
        params.append(f"$p{len(params)}:{frag}")
        args.append(text)
        return f"$p{len(params) - 1}"

    out = []
    for l in body.split("\n"):
        if l.lstrip().startswith("///"):
            # A doc comment with a dollar sign is a token like any other, but write it as an attribute.
            l = re.sub(r"/// ?(.*)$", lambda m: f"#[doc = {rstr(m[1])}]", l)
        m = re.match(r"^(\s+)((?:pub(?:\([^)]*\))? )?)((?:r#)?\w+): (.*),$", l)
        if m and not l.lstrip().startswith("#"):
            sp, vis, name, ty = m.groups()
            if vis and rng.p(0.3):
                vis = take("vis", vis.strip()) + " "
            if rng.p(0.3):
                name = take("ident", name)
            l = f"{sp}{vis}{name}: {ty},"
        elif rng.p(0.5) and "#[arg(" in l:
            l = re.sub(r"(\b(?:long|alias|help|default_value|value_name|requires|conflicts_with) = )(\"(?:[^\"\\]|\\.)*\")", lambda m: m[1] + (take("literal", m[2]) if rng.p(0.5) else m[2]), l, count=1)
            l = re.sub(r"(\bdefault_value_t = )([^,()\[\]]+?)(,|\)\])", lambda m: m[1] + (take("expr", m[2]) if rng.p(0.7) else m[2]) + m[3], l, count=1)
        out.append(l)
    return "macro_rules! make { (" + ", ".join(params) + ") => {\n" + "\n".join(out) + "\n} }\nmake!(" + ", ".join(args) + ");"


# ------------------------------------------------------------------ breaking a definition


class Site:
    """The places of a definition."""

    def __init__(self, d):
        self.structs, self.enums, self.variants = [], [], []
        self.kinds = {}
        self.visit(d["root"], "root")
        self.venums = list(d["enums"].values())
        self.d = d

    def visit(self, s, kind):
        s["_kind"] = kind
        self.structs.append(s)
        for f in s["fields"]:
            if f["k"] == "flat":
                self.visit(f["struct"], "flat")
            elif f["k"] == "sub":
                self.enums.append(f["enum"])
                for v in f["enum"]["variants"]:
                    self.variants.append((f["enum"], v))
                    if v["kind"] != "unit":
                        self.visit(v["struct"], "newtype" if v["kind"] == "newtype" else "inline")

    def args(self):
        return [(s, f) for s in self.structs for f in s["fields"] if f["k"] == "arg"]


MUTATIONS = []


def mutation(weight=1):
    def f(g):
        MUTATIONS.append((g.__name__, g, weight))
        return g
    return f


class Skip(Exception):
    pass


def choose(rng, xs):
    xs = list(xs)
    if not xs:
        raise Skip
    return xs[rng.randrange(len(xs))]


def named(site):
    return [(s, a) for s, a in site.args() if is_named(a)]


def positional(site):
    return [(s, a) for s, a in site.args() if not is_named(a)]


def add_field(rng, s, f):
    s["fields"].insert(rng.randint(0, len(s["fields"])), f)


def extra_named(s, i=0, **kw):
    kw.setdefault("long", f"zz-extra-{i}")
    return gen.arg(f"zz_extra_{i}", **kw)


def clash(rng, a, name):
    """Gives `a` one more name."""
    if name.startswith("--"):
        if a["long"] is None and rng.p(0.5):
            a["long"] = name[2:]
        elif a["long"] is not None and rng.p(0.2) and name != "--" + long_of(a):
            a["long"] = name[2:]
        else:
            a["aliases"].insert(rng.randint(0, len(a["aliases"])), name[2:])
    elif a["short"] is None and rng.p(0.5):
        a["short"] = name[1:]
    else:
        a["saliases"].insert(rng.randint(0, len(a["saliases"])), name[1:])


@mutation(4)
def name_of_another_argument(site, rng):
    s, a = choose(rng, named(site))
    others = [f for f in s["fields"] if f["k"] == "arg" and is_named(f) and f is not a]
    if others:
        b = choose(rng, others)
    else:
        b = extra_named(s)
        add_field(rng, s, b)
    clash(rng, b, choose(rng, sorted(names_of(a))))


@mutation(2)
def own_name_again(site, rng):
    s, a = choose(rng, named(site))
    n = choose(rng, sorted(names_of(a)))
    if n.startswith("--"):
        a["aliases"].insert(rng.randint(0, len(a["aliases"])), n[2:])
    else:
        a["saliases"].insert(rng.randint(0, len(a["saliases"])), n[1:])


@mutation()
def names_equal_after_conversion(site, rng):
    s = choose(rng, site.structs)
    x, y = choose(rng, [("zzFooBar", "zz_foo_bar"), ("zz_foo_bar", "_zz_foo_bar"), ("zz__foo", "zz_foo"), ("ZZFoo", "zz_foo"), ("r#for", "For")])
    ids = {unraw(f["ident"]) for f in s["fields"]}
    if unraw(x) in ids or unraw(y) in ids or "--" + kebab(unraw(x)) in set().union(*[names_of(f) for f in s["fields"] if f["k"] == "arg"], set()):
        raise Skip
    for i in (x, y):
        add_field(rng, s, gen.arg(i, choose(rng, ["opt", "flag"]), "bool", long=True))


@mutation(3)
def bad_long(site, rng):
    s, a = choose(rng, named(site))
    bad = choose(rng, ["", "-", "--", "-x", "--foo", "a=b", "=", "=x", "x=", "a\nb", "\t", "x\u0000", "\u007f", "\u001b[0m"])
    if a["long"] is None or rng.p(0.5):
        a["long"] = bad
    else:
        a["aliases"].insert(rng.randint(0, len(a["aliases"])), bad)


@mutation(2)
def bad_short(site, rng):
    s, a = choose(rng, named(site))
    bad = choose(rng, ["'-'", "'='", "'\\n'", "'\\t'", "'\\0'", "'\\u{7f}'", "'\\u{1b}'", "'\\r'"])
    if a["short"] is None and rng.p(0.5):
        a["raw"] = f"short = {bad}"
    else:
        a["raw"] = choose(rng, [f"short_alias = {bad}", f"short_aliases = [{bad}]"])


@mutation(2)
def wrong_literal(site, rng):
    s, a = choose(rng, site.args())
    options = ["alias = 'c'", "alias = 3", "short_alias = \"c\"", "short_alias = 1", "aliases = [\"zz1\", 'c']", "short_aliases = ['Ω', \"x\"]", "value_name_ = 3", "requires = 3",
               "conflicts_with = 'x'", "conflicts_with_all = [1]", "alias", "short_alias", "requires", "conflicts_with", "conflicts_with_all"]
    if a["long"] is None:
        options += ["long = 'c'", "long = 3", "long = true", "long = [\"a\"]", "long(\"zz\")", "long = b\"zz\""]
    if a["short"] is None:
        options += ["short = \"c\"", "short = 3", "short = true", "short = ['c']", "short('c')", "short = b'c'"]
    if a["value_name"] is None:
        options += ["value_name = 'c'", "value_name", "value_name = NAME"]
    if a["help"] is None:
        options += ["help = 3", "help", "help = concat!(\"a\")"]
    if a["default"] is None and not a["required"]:
        options += ["default_value = 3", "default_value", "default_value = true"]
    if a["delim"] is None and a["kind"] in ("vec", "optvec"):
        options += ["value_delimiter = \",\"", "value_delimiter", "use_value_delimiter", "use_value_delimiter = \",\"", "use_value_delimiter = false"]
    a["raw"] = choose(rng, options)


BOOLS = {"req_eq": "require_equals", "glob": "global", "icase": "ignore_case", "trailing": "trailing_var_arg", "last": "last", "required": "required", "excl": "exclusive", "hide": "hide"}


@mutation(4)
def duplicated_attribute(site, rng):
    s, a = choose(rng, site.args())
    options = []
    if a["long"] is not None:
        options += ["long", "long = \"zz-again\"", f"long = {rstr(long_of(a))}"]
    if a["short"] is not None:
        options += ["short", "short = 'Ω'"]
    for k, n in BOOLS.items():
        if a[k]:
            options += [f"{n} = true"] * 2
    if a["hyphen"] == "any":
        options += ["allow_hyphen_values = true"] * 2
    if a["hyphen"] == "num":
        options += ["allow_negative_numbers = true"] * 2
    if a["value_name"] is not None:
        options.append("value_name = \"AGAIN\"")
    if a["help"] is not None:
        options.append("help = \"again\"")
    if a["long_help"] is not None:
        options.append("long_help = \"again\"")
    if a["delim"] is not None:
        options += ["use_value_delimiter = true", "value_delimiter = ','", f"value_delimiter = {rchar(a['delim'])}"]
    if a["default"] is not None:
        options += [f"default_value = {rstr(a['default'][1])}", "default_value_t"]
    if a.get("value_enum_attr"):
        options.append("value_enum")
    if a["kind"] not in ("flag",) and a["ty"] in site.d["enums"] and not a.get("value_enum_attr"):
        options.append("value_enum, value_enum")
    a["raw"] = choose(rng, options or ["hide = true, hide = true"])


@mutation(3)
def unknown_attribute(site, rng):
    s, a = choose(rng, site.args())
    a["raw"] = choose(rng, ["nonsense", "nonsense = 1", "shrot = 'x'", "Long", "long_", "default = 1", "env = \"X\"", "num_args = 2", "num_args = 1..", "action = x", "visible_alias = \"x\"",
                            "visible_short_alias = 'x'", "value_parser = f", "group = \"g\"", "index = 1", "raw = true", "overrides_with = \"x\"", "required_unless_present = \"x\"", "help_heading = \"x\"",
                            "name = \"x\"", "id = \"x\"", "flatten", "subcommand", "skip", "value_hint = x", "default_missing_value = \"x\"", "display_order = 1", "hide_default_value = true",
                            "arg::long", "rename = \"x\"", "global_ = true", "require_equal = true"])


@mutation(3)
def bool_not_true(site, rng):
    s, a = choose(rng, site.args())
    absent = [n for k, n in BOOLS.items() if not a[k]]
    if a["hyphen"] == "none":
        absent += ["allow_hyphen_values", "allow_negative_numbers"]
    n = choose(rng, absent)
    a["raw"] = n + choose(rng, [" = false", "", " = 1", " = \"true\"", "(true)", " = yes"])


@mutation(2)
def arg_and_command(site, rng):
    s = choose(rng, site.structs)
    f = choose(rng, s["fields"])
    if f["k"] == "arg":
        f["raw_attrs"] = [choose(rng, ["#[command(flatten)]", "#[command(subcommand)]"])]
        if not any(x.startswith("#[arg") for x in arg_attrs(f, Rng(1), False)):
            f["raw_attrs"].append("#[arg(hide = true)]")
    else:
        f["raw_attrs"] = ["#[arg(" + choose(rng, ["long", "short", "hide = true", "required = true", "global = true", "id = \"x\""]) + ")]"]


@mutation(2)
def command_on_field(site, rng):
    s = choose(rng, site.structs)
    f = choose(rng, s["fields"])
    if f["k"] == "arg":
        f["no_attrs"] = True
        f["raw_attrs"] = [choose(rng, ["#[command(nonsense)]", "#[command()]", "#[command(flat)]", "#[command(flatten = true)]", "#[command(subcommand, flatten)]", "#[command(next_help_heading = \"x\")]",
                                       "#[command = \"flatten\"]", "#[command]", "#[command(Flatten)]"])]
    else:
        f["raw_attrs"] = [choose(rng, ["#[command(flatten)]", "#[command(subcommand)]", "#[command(nonsense)]"])]


@mutation(2)
def two_subcommands(site, rng):
    s = choose(rng, [s for s in site.structs if s["_kind"] != "flat"])
    n = 1 if any(f["k"] == "sub" for f in s["fields"]) else 2
    for i in range(n):
        add_field(rng, s, gen.sub(f"zz_sub_{i}", [gen.variant("A", "unit"), gen.variant("B", "unit")], rng.p(0.7)))


@mutation(2)
def two_defaults(site, rng):
    s, a = choose(rng, [(s, a) for s, a in site.args() if a["kind"] in ("val", "opt") and a["ty"] in gen.INHERIT or a["kind"] == "flag"])
    a["required"] = False
    if a["default"] is not None and a["default"][0] == "str":
        a["raw"] = "default_value_t"
    elif a["default"] is not None:
        a["raw"] = "default_value = \"1\""
    else:
        a["raw"] = choose(rng, ["default_value = \"1\", default_value_t", "default_value_t, default_value = \"1\""])


@mutation(2)
def required_and_default(site, rng):
    s, a = choose(rng, site.args())
    if a["default"] is not None:
        a["raw"] = "required = true"
    else:
        a["required"] = False
        a["raw"] = "required = true, default_value = \"1\"" if a["kind"] != "flag" else "default_value_t = true, required = true"


@mutation(2)
def delimiter_on_single(site, rng):
    s, a = choose(rng, [(s, a) for s, a in site.args() if a["kind"] not in ("vec", "optvec")])
    a["raw"] = choose(rng, ["value_delimiter = ','", "value_delimiter = ';'", "use_value_delimiter = true"])


@mutation()
def both_hyphens(site, rng):
    s, a = choose(rng, [(s, a) for s, a in named(site) if a["kind"] not in ("flag", "optopt")])
    a["req_eq"] = False
    a["hyphen"] = "none"
    a["raw"] = choose(rng, ["allow_hyphen_values = true, allow_negative_numbers = true", "allow_negative_numbers = true, allow_hyphen_values = true"])


@mutation(2)
def hyphen_without_value(site, rng):
    s, a = choose(rng, named(site))
    if a["kind"] not in ("flag", "optopt"):
        a["req_eq"] = True
    a["hyphen"] = choose(rng, ["any", "num"])


@mutation()
def optional_value_without_equals(site, rng):
    s = choose(rng, site.structs)
    xs = [f for f in s["fields"] if f["k"] == "arg" and f["kind"] == "optopt"]
    if xs:
        choose(rng, xs)["req_eq"] = False
    else:
        add_field(rng, s, extra_named(s, kind="optopt", ty=choose(rng, ["String", "u8", "bool", "OsString"])))


@mutation()
def optional_value_positional(site, rng):
    s = choose(rng, [s for s in site.structs if s["_kind"] != "flat"])
    s["fields"].insert(0, gen.pos("zz_pos", "optopt", "String"))


@mutation(2)
def positional_only_on_named(site, rng):
    s, a = choose(rng, named(site))
    a[choose(rng, ["last", "trailing"])] = True


@mutation(2)
def named_only_on_positional(site, rng):
    s, a = choose(rng, positional(site))
    a["raw"] = choose(rng, ["require_equals = true", "global = true", "ignore_case = true", "allow_hyphen_values = true", "allow_negative_numbers = true"])


@mutation(2)
def last_on_single(site, rng):
    s = choose(rng, [s for s in site.structs if s["_kind"] != "flat"])
    xs = [f for f in s["fields"] if f["k"] == "arg" and not is_named(f) and f["kind"] not in ("vec", "optvec")]
    if xs and not any(f["k"] == "arg" and f["last"] for f in s["fields"]):
        choose(rng, xs)["last"] = True
    else:
        s["fields"] = [f for f in s["fields"] if f["k"] != "arg" or is_named(f)]
        drop_refs(s)
        add_field(rng, s, gen.pos("zz_last", choose(rng, ["val", "opt"]), "String", last=True))


def drop_refs(s):
    ids = {unraw(f["ident"]) for f in s["fields"]}
    for f in s["fields"]:
        if f["k"] == "arg":
            f["requires"] = [x for x in f["requires"] if unraw(x) in ids]
            f["conflicts"] = [x for x in f["conflicts"] if unraw(x) in ids]


@mutation(2)
def two_of_a_kind(site, rng):
    s = choose(rng, [s for s in site.structs if s["_kind"] != "flat"])
    last = rng.p(0.5)
    have = [f for f in s["fields"] if f["k"] == "arg" and not is_named(f) and f["kind"] in ("vec", "optvec") and f["last"] == last]
    for i in range(1 if have else 2):
        s["fields"].append(gen.pos(f"zz_multi_{i}", choose(rng, ["vec", "optvec"]), choose(rng, ["String", "u8"]), last=last, trailing=not last and rng.p(0.4)))


@mutation(2)
def positional_after_multiple(site, rng):
    s = choose(rng, [s for s in site.structs if s["_kind"] != "flat"])
    if not any(f["k"] == "arg" and not is_named(f) and f["kind"] in ("vec", "optvec") and not f["last"] for f in s["fields"]):
        s["fields"].append(gen.pos("zz_multi", choose(rng, ["vec", "optvec"]), "String"))
    s["fields"].append(gen.pos("zz_after", choose(rng, ["val", "opt"]), "String"))


@mutation(3)
def unknown_reference(site, rng):
    s, a = choose(rng, site.args())
    bad = ["no_such_field", "", "a b", "a.b", "1"]
    for f in s["fields"]:
        if f["k"] != "arg":
            bad += [f["ident"]] * 3
            if f["k"] == "flat":
                inner = {unraw(x["ident"]) for x in f["struct"]["fields"]} - {unraw(x["ident"]) for x in s["fields"]}
                bad += sorted(inner)[:2]
        elif is_named(f) and long_of(f) and "-" in long_of(f):
            bad.append(long_of(f))
    a["raw"] = choose(rng, ["requires = {}", "conflicts_with = {}", "conflicts_with_all = [{}]"]).format(rstr(choose(rng, bad)))


@mutation(2)
def exclusive_with_flatten(site, rng):
    s, a = choose(rng, site.args())
    a["excl"] = True
    if not any(f["k"] == "flat" for f in s["fields"]):
        add_field(rng, s, gen.flat("zz_flat", gen.struct(gen.flag("zz_inner", long="zz-inner"))))


@mutation()
def too_many_fields(site, rng):
    s = choose(rng, site.structs)
    n = choose(rng, [255, 256, 257, 300, 512])
    for i in range(n - len(s["fields"])):
        s["fields"].insert(0, gen.arg(f"zz{i}", "flag", "bool", long=f"zz-{i}"))


@mutation(2)
def generic(site, rng):
    g, f = choose(rng, [("<T>", "std::marker::PhantomData<T>"), ("<'a>", "std::marker::PhantomData<&'a ()>"), ("<const N: usize>", "[(); N]"), ("<T = u8>", "std::marker::PhantomData<T>"),
                        ("<T: Clone>", "T")])
    if site.enums and rng.p(0.3):
        e = choose(rng, site.enums)
        e["raw_generics"] = g
        e["variants"].append(dict(gen.variant("ZzGeneric"), raw_fields=f" {{ #[arg(long)] zz: {f} }}"))
    else:
        s = choose(rng, [s for s in site.structs if s["_kind"] != "inline"])
        s["raw_generics"] = g
        s["fields"].append(dict(extra_named(s), raw_ty=f))


@mutation(2)
def wrong_kind_of_item(site, rng):
    if site.enums and rng.p(0.4):
        e = choose(rng, site.enums)
        e["raw_item"] = choose(rng, ["pub struct NAME { a: u8 }", "pub struct NAME;", "pub struct NAME(u8);", "pub union NAME { a: u8, b: i8 }", "pub struct NAME {}"])
    else:
        s = choose(rng, [s for s in site.structs if s["_kind"] != "inline"])
        s["raw_item"] = choose(rng, ["pub enum NAME { A, B }", "pub struct NAME;", "pub struct NAME(u8);", "pub union NAME { a: u8, b: i8 }", "pub struct NAME();", "pub enum NAME {}", "pub enum NAME { A { x: bool } }"])


@mutation()
def wrong_derive(site, rng):
    if site.enums and rng.p(0.5):
        e = choose(rng, site.enums)
        e["raw_derive"] = choose(rng, ["Args", "Parser"])
    else:
        s = choose(rng, [s for s in site.structs if s["_kind"] != "inline"])
        s["raw_derive"] = choose(rng, ["Subcommand", "ValueEnum", *(["Args"] if s["_kind"] == "root" else [])])


@mutation(2)
def bad_ignore_case(site, rng):
    upper = [n for n, e in site.d["enums"].items() if any("A" <= c <= "Z" for x in enum_names(e) for c in x)]
    s, a = choose(rng, [(s, a) for s, a in named(site) if a["kind"] != "flag"])
    a["default"] = None
    a.pop("value_enum_attr", None)
    a["ty"] = choose(rng, upper * 3 + ["String", "u8", "OsString", "PathBuf", "char", "bool" if a["kind"] != "val" else "String"])
    a["icase"] = True


@mutation()
def bad_value_name(site, rng):
    s, a = choose(rng, site.args())
    a["value_name"] = choose(rng, ["\n", "A\nB", "\t", "X\u0000", "\u007f", "\u001b", "a\rb"])


@mutation(2)
def unparsable_type(site, rng):
    s, a = choose(rng, [(s, a) for s, a in site.args() if a["kind"] != "flag" and not a["icase"]])
    a["default"] = None
    a.pop("value_enum_attr", None)
    a["raw_ty"] = rust_ty(dict(a, ty=choose(rng, ["NoParse", "BadErr", "()", "&'static str", "(u8, u8)", "[u8; 2]", "Vec<u8>" if a["kind"] in ("vec", "optvec") else "NoParse", "std::time::Duration",
                                                 "std::collections::HashMap<u8, u8>", "fn() -> u8", "Box<dyn std::fmt::Debug>", "Result<u8, u8>", "std::marker::PhantomData<u8>", "!" if False else "std::cell::Cell<u8>"])))


@mutation(2)
def bad_default_expression(site, rng):
    s, a = choose(rng, [(s, a) for s, a in named(site) if a["kind"] in ("val", "opt", "flag") and not a["icase"]])
    a["required"] = False
    a["default"] = None
    a.pop("value_enum_attr", None)
    if a["kind"] != "flag" and rng.p(0.4):
        a["hide"] = False
        a["raw_ty"] = rust_ty(dict(a, ty="NoShow"))
        a["raw"] = "default_value_t = NoShow"
    elif a["kind"] != "flag" and rng.p(0.3):
        a["raw_ty"] = rust_ty(dict(a, ty="Len"))
        a["raw"] = "default_value_t"
    else:
        a["raw"] = "default_value_t = " + choose(rng, ["()", "no_such_name", "Some(1.5f32)", "NoParse", "vec![1]"])


@mutation(2)
def flatten_something_else(site, rng):
    s = choose(rng, site.structs)
    which = choose(rng, ["pos", "sub", "type"])
    if which == "pos":
        g = gen.struct(gen.flag("zz_f", long="zz-f"), gen.pos("zz_p", choose(rng, ["val", "opt", "vec", "optvec"]), "String"))
        add_field(rng, s, gen.flat("zz_flat", g))
    elif which == "sub":
        g = gen.struct(gen.flag("zz_f", long="zz-f"), gen.sub("zz_s", [gen.variant("A", "unit")], rng.p(0.5)))
        add_field(rng, s, gen.flat("zz_flat", g))
    else:
        add_field(rng, s, dict(gen.flat("zz_flat", gen.struct(gen.flag("zz_f", long="zz-f"))), raw_ty=choose(rng, ["String", "bool", "Option<String>", "()", "NoParse", "Vec<u8>"])))
    for f in s["fields"]:
        if f["k"] == "arg":
            f["excl"] = False


@mutation()
def flatten_optional(site, rng):
    xs = [f for s in site.structs for f in s["fields"] if f["k"] == "flat"]
    f = choose(rng, xs)
    f["struct"]["name"] = "ZzNamed"
    f["raw_ty"] = choose(rng, ["Option<ZzNamed>", "Vec<ZzNamed>", "Box<ZzNamed>"])


@mutation()
def subcommand_of_something_else(site, rng):
    xs = [f for s in site.structs for f in s["fields"] if f["k"] == "sub"]
    f = choose(rng, xs)
    f["raw_ty"] = choose(rng, ["String", "Option<String>", "NoParse", "bool", "Option<Option<ZzNamed>>", "Vec<ZzNamed>", "Box<ZzNamed>"])
    f["enum"]["name"] = "ZzNamed"


@mutation(2)
def tuple_variant(site, rng):
    e = choose(rng, site.enums)
    e["variants"].insert(rng.randint(0, len(e["variants"])), dict(gen.variant("ZzTuple"), raw_fields=choose(rng, ["()", "(ZzA, ZzA)", "(String, u8)", "(String)", "(u8, u8, u8)", "(Option<u8>)"])))


@mutation(2)
def attributes_on_newtype(site, rng):
    v = choose(rng, [v for e, v in site.variants if v["kind"] == "newtype"])
    v["raw_attrs"] = [choose(rng, ["/// Text.", "#[doc = \"Text.\"]", "#[command(long_about = \"x\")]", "#[command(after_long_help = \"x\")]", "#[command(long_about)]", "#[command(name = \"x\")]", "#[arg(long)]"])]


@mutation(2)
def same_subcommand_names(site, rng):
    e = choose(rng, site.enums)
    v = choose(rng, e["variants"])
    n = unraw(v["ident"])
    ids = {unraw(x["ident"]) for x in e["variants"]}
    cands = [x for x in {n.upper(), n.lower(), n + "_", "_" + n, n[0].swapcase() + n[1:], gen.kebab(n).replace("-", "_"), "".join(w.capitalize() for w in gen.kebab(n).split("-"))}
             if x not in ids and kebab(x) == kebab(n) and x.isidentifier() and x not in gen.KEYWORDS]
    e["variants"].insert(rng.randint(0, len(e["variants"])), gen.variant(choose(rng, sorted(cands)), choose(rng, ["unit", "struct", "newtype"])))


@mutation(2)
def same_value_names(site, rng):
    e = choose(rng, site.venums)
    i = rng.randrange(len(e["variants"]))
    e["variants"].insert(rng.randint(0, len(e["variants"])), dict(ident="ZzAgain", name=enum_names(e)[i]))


@mutation()
def same_value_names_after_conversion(site, rng):
    e = choose(rng, site.venums)
    pair = {None: ("ZzFoo", "Zz_foo"), "kebab-case": ("ZzFoo", "zz_Foo"), "snake_case": ("ZzFoo", "zzFoo"), "camelCase": ("ZzFoo", "zz_foo"), "PascalCase": ("ZzFoo", "zz_foo"),
            "SCREAMING_SNAKE_CASE": ("ZzFoo", "ZZ_Foo"), "lower": ("ZzFoo", "ZZfoo"), "UPPER": ("ZzFoo", "Zzfoo"), "verbatim": ("r#For", "For")}[e["rename"]]
    if e["rename"] == "verbatim":
        raise Skip
    e["variants"] += [dict(ident=x, name=None) for x in pair]


@mutation()
def value_variant_with_fields(site, rng):
    e = choose(rng, site.venums)
    v = choose(rng, e["variants"])
    v["raw_fields"] = choose(rng, ["()", "{}", "(u8)", "{ x: u8 }", "(u8, u8)"])


@mutation()
def bad_value_attribute(site, rng):
    e = choose(rng, site.venums)
    if rng.p(0.5):
        e["raw_attrs"] = ["#[value(" + choose(rng, ["nonsense", "rename = \"lower\"", "name = \"x\"", "rename_all", "rename_all = 3", "rename_all = \"Kebab\"", "rename_all = \"UPPERCASE\"", "rename_all = \"\"",
                                                   "rename_all = kebab"]) + ")]"]
        if "rename_all" in e["raw_attrs"][0]:
            e["rename"] = None
    else:
        v = choose(rng, e["variants"])
        v["name"] = None
        v["raw_attrs"] = ["#[value(" + choose(rng, ["nonsense", "skip", "help = \"x\"", "alias = \"x\"", "name", "name = 3", "name = 'x'", "rename_all = \"lower\"", "name = \"x1\", name = \"x2\"", "hide = true"]) + ")]"]


@mutation()
def twice_renamed(site, rng):
    e = choose(rng, [e for e in site.venums if e["rename"] is not None])
    e["raw_attrs"] = [f"#[value(rename_all = {rstr(choose(rng, sorted(gen.RENAMES)))})]"]


@mutation()
def bad_value_text(site, rng):
    e = choose(rng, site.venums)
    choose(rng, e["variants"])["name"] = choose(rng, ["\n", "a\nb", "\t", "\u0000", "x\u0000y", "\u007f", "\u001b[0m"])


@mutation()
def value_enum_on_struct(site, rng):
    e = choose(rng, site.venums)
    e["rename"] = None
    e["raw_item"] = choose(rng, ["pub struct NAME;", "pub struct NAME { a: u8 }", "pub struct NAME(u8);", "#[derive(Copy)] pub union NAME { a: u8 }"])


@mutation(2)
def bad_container_attribute(site, rng):
    bad = ["nonsense", "nonsense = 1", "author", "author = \"x\"", "about", "about = \"x\"", "after_help = \"x\"", "term_width = 80", "max_term_width = 1", "subcommand_required = true",
           "rename_all = \"kebab-case\"", "flatten", "name", "after_long_help", "name = 3", "bin_name = \"x\"", "long_about(\"x\")", "next_help_heading = \"x\"", "arg_required_else_help = true", "propagate_version = true",
           "disable_help_flag = true", "name = \"a\", name = \"b\"", "version = \"1\", version = \"2\"", "long_about = \"a\", long_about = \"b\"", "long_about, long_about", "after_long_help = \"a\", after_long_help = \"b\""]
    x = f"#[command({choose(rng, bad)})]"
    if rng.p(0.2):
        x = choose(rng, ["#[arg(long)]", "#[arg(hide = true)]", "#[arg()]"])
    places = [s for s in site.structs if s["_kind"] != "inline"] + [v for e, v in site.variants if v["kind"] != "newtype"]
    p = choose(rng, places)
    p["raw_attrs"] = [x]


@mutation()
def odd_doc(site, rng):
    x = choose(rng, ["#[doc = concat!(\"a\", \"b\")]", "#[doc = stringify!(a)]"])
    s = choose(rng, [s for s in site.structs if s["_kind"] != "inline"])
    if rng.p(0.5):
        s["raw_attrs"] = [x]
    else:
        choose(rng, [f for f in s["fields"] if f["k"] == "arg"])["raw_attrs"] = [x]


@mutation()
def circular(site, rng):
    s = choose(rng, [s for s in site.structs if s["_kind"] in ("root", "newtype", "flat")])
    s["name"] = "ZzSelf"
    for f in s["fields"]:
        if f["k"] == "arg":
            f["excl"] = False
    add_field(rng, s, dict(gen.flat("zz_self", gen.struct(gen.flag("zz_f", long="zz-f"))), raw_ty="ZzSelf"))


def grow(d, rng):
    """Makes containers of the definition big, so that what breaks a rule is one thing among many, far from what it
    disagrees with."""
    site = Site(d)
    n = rng.randint(8, 60)
    sizes = [rng.p(0.5), rng.p(0.5), rng.p(0.5)]
    if not any(sizes):
        sizes[rng.randrange(3)] = True
    if sizes[0]:
        for e in site.venums:
            for i in range(n):
                e["variants"].insert(rng.randint(0, len(e["variants"])), dict(ident=f"Zg{i}x", name=None if rng.p(0.7) else f"zg-{i}-named"))
    if sizes[1]:
        for e in site.enums:
            for i in range(n):
                e["variants"].insert(rng.randint(0, len(e["variants"])), gen.variant(f"Zg{i}x", "unit" if rng.p(0.8) else "struct"))
    if sizes[2] and site.structs:
        s = choose(rng, site.structs)
        for i in range(n):
            add_field(rng, s, gen.arg(f"zg_{i}", choose(rng, ["flag", "opt", "vec"]), "bool", long=f"zg-{i}" if rng.p(0.7) else True,
                                      aliases=[f"zg-alias-{i}"] if rng.p(0.2) else []))


def grown(d, rng):
    d = copy.deepcopy(d)
    grow(d, rng)
    for s in Site(d).structs:
        s.pop("_kind", None)
    return d


def mutant(d, rng):
    """(name, broken definition)"""
    if rng.p(0.15):
        d = grown(d, rng)
    total = sum(w for _, _, w in MUTATIONS)
    for _ in range(200):
        x = rng.randrange(total)
        for name, f, w in MUTATIONS:
            x -= w
            if x < 0:
                break
        d2 = copy.deepcopy(d)
        try:
            f(Site(d2), rng)
        except Skip:
            continue
        return name, d2
    raise AssertionError("no mutation applies")
