//! Reference interpreter of a definition: an independent, deliberately naive statement of what
//! a command line means, written from the documented rules and not from the implementation.
use crate::ir::*;
use crate::types::{Refusal, convert};
use crate::val::Val;
use std::collections::BTreeSet;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Unexpected,
    UnknownSub,
    Dup,
    UnexpectedValue,
    MissingValue,
    Invalid,
    MissingEq,
    MissingArg,
    MissingSub,
    Requires,
    Exclusive,
    Conflict,
    Help,
    Argv0,
    Other,
}

/// One acceptable error.
#[derive(Debug, Clone)]
pub struct Pat {
    pub class: Class,
    pub desc: Option<String>,
    /// Acceptable quoted inputs (empty: no input is quoted).
    pub input: Vec<OsString>,
    pub refusal: Option<Refusal>,
}

pub type Feats = BTreeSet<&'static str>;

pub struct Predicted<'a> {
    pub outcome: Result<Val, Vec<Pat>>,
    /// What happened, for coverage accounting and relevance.
    pub feats: Feats,
    /// How many tokens (argv[0] included) were looked at.
    pub pulled: usize,
    /// The error was raised by a token (rather than at the end).
    pub token_error: bool,
    /// Number of broken end-of-line constraints.
    pub broken: usize,
    /// For `Help`: the command, its path of names.
    pub help: Option<(&'a Cmd, Vec<String>)>,
    /// Deepest level entered.
    pub depth: usize,
    /// Total values stored.
    pub values: usize,
    /// How the tokens (argv[0] excluded) were grouped.
    pub segs: Vec<Seg>,
}

/// A maximal group of tokens interpreted together.
#[derive(Debug, Clone)]
pub struct Seg {
    pub start: usize,
    pub end: usize,
    pub level: usize,
    pub slots: Vec<usize>,
    pub positional: bool,
    /// Neither `--`, nor after it, nor a subcommand, nor a greedy argument.
    pub movable: bool,
}

#[derive(Default)]
struct Given {
    present: bool,
    vals: Vec<Option<Val>>,
}

struct Slot<'a> {
    arg: &'a Arg,
    flat_depth: usize,
    given: Given,
}

struct Node<'a> {
    cmd: &'a Cmd,
    slots: Vec<usize>,
    flats: Vec<(usize, &'a str)>,
}

struct Level<'a> {
    cmd: &'a Cmd,
    name: String,
    node: usize,
    order: Vec<usize>,
    positionals: Vec<usize>,
    next: usize,
    chosen: Option<(usize, usize)>,
}

struct M<'a, 'b> {
    def: &'a Def,
    help_on: bool,
    slots: Vec<Slot<'a>>,
    nodes: Vec<Node<'a>>,
    levels: Vec<Level<'a>>,
    feats: Feats,
    values: usize,
    segs: Vec<Seg>,
    touched: Vec<usize>,
    pulled: &'b std::cell::Cell<usize>,
}

enum Inline<'v> {
    None,
    Eq(&'v [u8]),
    Tail(&'v [u8]),
}

fn os(b: &[u8]) -> OsString {
    OsStr::from_bytes(b).to_owned()
}

type Res<T> = Result<T, Vec<Pat>>;

fn pat(class: Class) -> Pat {
    Pat { class, desc: None, input: vec![], refusal: None }
}
fn pat_in(class: Class, input: &[u8]) -> Pat {
    Pat { input: vec![os(input)], ..pat(class) }
}
fn pat_arg(class: Class, a: &Arg) -> Pat {
    Pat { desc: Some(a.desc.clone()), ..pat(class) }
}

fn is_negative_number(b: &[u8]) -> bool {
    // -digits[.digits][e digits], leniently on what may be empty, like clap.
    let Some(mut r) = b.strip_prefix(b"-") else { return false };
    let digits = |r: &mut &[u8]| {
        let n = r.iter().take_while(|c| c.is_ascii_digit()).count();
        *r = &r[n..];
        n
    };
    let n = digits(&mut r);
    if n > 0 && r.first() == Some(&b'.') {
        r = &r[1..];
        digits(&mut r);
    }
    if n > 0 && matches!(r.first(), Some(b'e' | b'E')) {
        r = &r[1..];
        if r.is_empty() {
            return false;
        }
        // clap (and palc) also accept `-1e2.`; not generated.
        digits(&mut r);
    }
    r.is_empty()
}

impl<'a> M<'a, '_> {
    fn add_node(&mut self, cmd: &'a Cmd, flat_depth: usize, order: &mut Vec<usize>) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node { cmd, slots: vec![], flats: vec![] });
        let mut slots = vec![];
        for arg in &cmd.args {
            slots.push(self.slots.len());
            order.push(self.slots.len());
            self.slots.push(Slot { arg, flat_depth, given: Given::default() });
        }
        let mut flats = vec![];
        for f in &cmd.flats {
            flats.push((self.add_node(&f.cmd, flat_depth + 1, order), f.field.as_str()));
        }
        self.nodes[id].slots = slots;
        self.nodes[id].flats = flats;
        id
    }

    fn enter(&mut self, cmd: &'a Cmd, name: String) {
        let mut order = vec![];
        let node = self.add_node(cmd, 0, &mut order);
        let n = &self.nodes[node];
        let slot_of = |a: &Arg| {
            let i = cmd.args.iter().position(|b| std::ptr::eq(a, b)).unwrap();
            n.slots[i]
        };
        let positionals = cmd.positionals().into_iter().map(slot_of).collect();
        self.levels.push(Level { cmd, name, node, order, positionals, next: 0, chosen: None });
    }

    fn lookup(&mut self, long: bool, name: &[u8]) -> Option<usize> {
        let n = self.levels.len();
        for (up, level) in self.levels.iter().rev().enumerate() {
            for &s in &level.order {
                let a = self.slots[s].arg;
                if a.pos || (up > 0 && !a.global) {
                    continue;
                }
                let hit = if long {
                    a.longs.iter().any(|l| l.as_bytes() == name)
                } else {
                    let mut buf = [0; 4];
                    a.shorts.iter().any(|c| c.encode_utf8(&mut buf).as_bytes() == name)
                };
                if hit {
                    if up > 0 {
                        self.feats.insert("global.up");
                        if up > 1 {
                            self.feats.insert("global.up2");
                        }
                    } else if a.global {
                        self.feats.insert("global.here");
                    }
                    match self.slots[s].flat_depth {
                        0 => {}
                        1 => {
                            self.feats.insert("flat.named");
                        }
                        _ => {
                            self.feats.insert("flat.nested");
                        }
                    }
                    let alias = if long {
                        a.longs.first().is_none_or(|l| l.as_bytes() != name)
                    } else {
                        a.shorts.first().is_none_or(|c| c.to_string().as_bytes() != name)
                    };
                    if alias {
                        self.feats.insert("alias");
                    }
                    let _ = n;
                    return Some(s);
                }
            }
        }
        None
    }

    /// Stores one occurrence. `value` is `None` for a bare flag or optional value.
    fn store(&mut self, s: usize, value: Option<&[u8]>) -> Res<()> {
        let def = self.def;
        self.touched.push(s);
        let a = self.slots[s].arg;
        let lowered;
        let original = value;
        let mut value = value;
        if a.icase
            && let Some(v) = value
        {
            self.feats.insert("icase");
            lowered = v.to_ascii_lowercase();
            value = Some(&lowered);
        }
        if value.is_some() && def.enums.contains_key(&a.ty) {
            self.feats.insert("enum");
        }
        if value.is_some() && a.delim.is_some() {
            self.feats.insert("delim");
        }
        if a.kind.multi() {
            self.feats.insert("multi");
        }
        if a.required {
            self.feats.insert("c.required");
        }
        if a.global {
            self.feats.insert("global");
        }
        if matches!(a.ty.as_str(), "OsString" | "PathBuf" | "BoxOs" | "ArcOs" | "Raw" | "Both" | "Len") {
            self.feats.insert("ty.os");
        }
        let given = &mut self.slots[s].given;
        let mut errs = vec![];
        if a.kind == Kind::Flag
            && let Some(v) = value
        {
            self.feats.insert("err.flagvalue");
            errs.push(Pat { input: vec![os(v)], ..pat_arg(Class::UnexpectedValue, a) });
        }
        if given.present && !a.kind.multi() {
            self.feats.insert("err.dup");
            errs.push(pat_arg(Class::Dup, a));
        }
        let (feats, values) = (&mut self.feats, &mut self.values);
        let parse = |v: &[u8], errs: &mut Vec<Pat>, feats: &mut Feats, values: &mut usize| {
            *values += 1;
            match convert(def, &a.ty, OsStr::from_bytes(v)) {
                Ok(v) => Some(v),
                Err(refusal) => {
                    feats.insert("err.invalid");
                    errs.push(Pat {
                        input: vec![os(v)],
                        refusal: Some(refusal),
                        ..pat_arg(Class::Invalid, a)
                    });
                    None
                }
            }
        };
        match a.kind {
            Kind::Flag => given.vals.push(None),
            Kind::OptOpt => match value {
                None => {
                    feats.insert("optopt.bare");
                    given.vals.push(None)
                }
                Some(v) => {
                    feats.insert("optopt.value");
                    let v = parse(v, &mut errs, feats, values);
                    given.vals.push(v)
                }
            },
            Kind::Val | Kind::Opt => {
                let v = parse(value.expect("value"), &mut errs, feats, values);
                given.vals.push(v);
            }
            Kind::Vec | Kind::OptVec => {
                let value = value.expect("value");
                if given.present {
                    feats.insert("multi.again");
                }
                match a.delim {
                    None => {
                        let v = parse(value, &mut errs, feats, values);
                        given.vals.push(v);
                    }
                    Some(d) => {
                        let mut buf = [0; 4];
                        let d = d.encode_utf8(&mut buf).as_bytes();
                        let mut rest = value;
                        loop {
                            let cut = rest.windows(d.len()).position(|w| w == d);
                            let piece = cut.map_or(rest, |i| &rest[..i]);
                            let v = parse(piece, &mut errs, feats, values);
                            given.vals.push(v);
                            if let Some(e) = errs.last_mut() {
                                // The whole value would be as good a quotation as the piece, and so would the piece as typed.
                                e.input.push(os(value));
                                let at = value.len() - rest.len();
                                e.input.push(os(&original.unwrap()[at..at + piece.len()]));
                                break;
                            }
                            match cut {
                                Some(i) => {
                                    feats.insert("delim.split");
                                    rest = &rest[i + d.len()..]
                                }
                                None => break,
                            }
                        }
                    }
                }
            }
        }
        given.present = true;
        if a.icase
            && let Some(orig) = original
        {
            for e in errs.iter_mut().filter(|e| e.class == Class::Invalid) {
                e.input.push(os(orig));
            }
        }
        if errs.is_empty() { Ok(()) } else { Err(errs) }
    }

    /// Returns whether the rest of a bundle was consumed.
    fn named(
        &mut self,
        long: bool,
        name: &[u8],
        inline: Inline<'_>,
        rest: &mut dyn Iterator<Item = &'a OsString>,
    ) -> Res<bool> {
        let Some(s) = self.lookup(long, name) else {
            if self.help_on && ((long && name == b"help") || (!long && name == b"h")) {
                self.feats.insert("help");
                return Err(vec![pat(Class::Help)]);
            }
            self.feats.insert("err.unknown");
            let mut shown = if long { b"--".to_vec() } else { b"-".to_vec() };
            shown.extend_from_slice(name);
            return Err(vec![pat_in(Class::Unexpected, &shown)]);
        };
        let a = self.slots[s].arg;
        let dup = self.slots[s].given.present && !a.kind.multi();
        let or_dup = |p: Pat| {
            let mut v = vec![p];
            if dup {
                v.push(pat_arg(Class::Dup, a));
            }
            v
        };
        let f = match (long, &inline) {
            (true, Inline::None) => "long.bare",
            (true, _) => "long.eq",
            (false, Inline::None) => "short.bare",
            (false, Inline::Eq(_)) => "short.eq",
            (false, Inline::Tail(_)) => "short.tail",
        };
        self.feats.insert(f);
        if a.req_eq {
            self.feats.insert("req_eq");
        }
        match inline {
            Inline::Eq(v) => {
                self.store(s, Some(v))?;
                Ok(true)
            }
            // Options which take a value.
            Inline::Tail(v) if a.kind.takes_value() => {
                if a.req_eq {
                    self.feats.insert("err.missingeq");
                    return Err(or_dup(pat_arg(Class::MissingEq, a)));
                }
                self.feats.insert("short.attached");
                self.store(s, Some(v))?;
                Ok(true)
            }
            Inline::None if a.kind.takes_value() => {
                if a.req_eq {
                    self.feats.insert("err.missingeq");
                    return Err(or_dup(pat_arg(Class::MissingEq, a)));
                }
                let next = rest.next();
                let Some(v) = next else {
                    self.feats.insert("err.missingvalue.end");
                    return Err(or_dup(pat_arg(Class::MissingValue, a)));
                };
                let b = v.as_bytes();
                let plain = b == b"-" || !b.starts_with(b"-");
                let ok = plain
                    || match a.hyphen {
                        Hyphen::Any => {
                            self.feats.insert("hyphen.any");
                            true
                        }
                        Hyphen::Num if is_negative_number(b) => {
                            self.feats.insert("hyphen.num");
                            true
                        }
                        Hyphen::Num => {
                            self.feats.insert("hyphen.num.refused");
                            false
                        }
                        Hyphen::None => false,
                    };
                if !ok {
                    self.feats.insert("err.missingvalue.hyphen");
                    return Err(or_dup(pat_arg(Class::MissingValue, a)));
                }
                self.feats.insert("next.value");
                self.store(s, Some(b))?;
                Ok(true)
            }
            // Flags and optional values.
            Inline::Tail(_) if a.req_eq => {
                self.feats.insert("err.missingeq");
                Err(or_dup(pat_arg(Class::MissingEq, a)))
            }
            Inline::Tail(_) | Inline::None => {
                self.store(s, None)?;
                Ok(false)
            }
        }
    }

    fn positional(
        &mut self,
        tok: &[u8],
        after_dashes: bool,
        rest: &mut dyn Iterator<Item = &'a OsString>,
    ) -> Res<()> {
        let level = self.levels.last_mut().unwrap();
        let slot = level
            .positionals
            .get(level.next)
            .copied()
            .filter(|&s| after_dashes || !self.slots[s].arg.last);
        let Some(s) = slot else {
            if level.cmd.sub.is_some() {
                self.feats.insert("err.unknownsub");
                return Err(vec![pat_in(Class::UnknownSub, tok)]);
            }
            self.feats.insert("err.extra");
            return Err(vec![pat_in(Class::Unexpected, tok)]);
        };
        let a = self.slots[s].arg;
        if !a.kind.multi() {
            level.next += 1;
        } else {
            self.feats.insert("pos.multi");
        }
        self.feats.insert("pos");
        if a.last {
            self.feats.insert("last");
        }
        self.store(s, Some(tok))?;
        if a.last || a.trailing {
            self.feats.insert("greedy");
            for t in rest {
                self.feats.insert("greedy.more");
                if t.as_bytes().starts_with(b"-") {
                    self.feats.insert("greedy.hyphen");
                }
                self.store(s, Some(t.as_bytes()))?;
            }
        }
        Ok(())
    }

    fn tokens(&mut self, it: &mut dyn Iterator<Item = &'a OsString>) -> Res<()> {
        while let Some(tok) = it.next() {
            let b = tok.as_bytes();
            let start = self.pulled.get() - 1;
            self.touched.clear();
            let seg = |m: &mut Self, positional, movable| {
                let (level, end) = (m.levels.len(), m.pulled.get());
                let slots = std::mem::take(&mut m.touched);
                m.segs.push(Seg { start, end, level, slots, positional, movable });
            };
            if b == b"--" {
                self.feats.insert("dashdash");
                let l = self.levels.last_mut().unwrap();
                if let Some(&s) = l.positionals.last()
                    && self.slots[s].arg.last
                {
                    l.next = l.positionals.len() - 1;
                }
                while let Some(tok) = it.next() {
                    if tok.as_bytes().starts_with(b"-") {
                        self.feats.insert("dashdash.hyphen");
                    }
                    self.positional(tok.as_bytes(), true, it)?;
                }
                seg(self, true, false);
                return Ok(());
            }
            if let Some(body) = b.strip_prefix(b"--") {
                let (name, inline) = match body.iter().position(|&c| c == b'=') {
                    Some(i) => (&body[..i], Inline::Eq(&body[i + 1..])),
                    None => (body, Inline::None),
                };
                self.named(true, name, inline, it)?;
                seg(self, false, true);
            } else if b.len() > 1 && b[0] == b'-' {
                let mut rest = &b[1..];
                let mut n = 0;
                while !rest.is_empty() {
                    let Some(len) = first_char_len(rest) else {
                        self.feats.insert("bundle.invalid");
                        self.named(false, rest, Inline::None, &mut std::iter::empty())?;
                        unreachable!("not a declared name");
                    };
                    let (name, after) = rest.split_at(len);
                    if len > 1 {
                        self.feats.insert("short.multibyte");
                    }
                    n += 1;
                    if n == 2 {
                        self.feats.insert("bundle");
                    }
                    let inline = match after {
                        [] => Inline::None,
                        [b'=', v @ ..] => Inline::Eq(v),
                        _ => Inline::Tail(after),
                    };
                    rest = after;
                    if self.named(false, name, inline, it)? {
                        break;
                    }
                }
                seg(self, false, true);
            } else {
                let level = self.levels.last().unwrap();
                if let Some(sub) = &level.cmd.sub
                    && let Some(i) = sub.variants.iter().position(|v| v.name.as_bytes() == b)
                {
                    self.feats.insert("sub");
                    if !level.positionals.is_empty() {
                        self.feats.insert("sub.vs.pos");
                    }
                    if !level.cmd.flats.is_empty() {
                        self.feats.insert("sub.flat");
                    }
                    seg(self, false, false);
                    let v = &sub.variants[i];
                    let id = self.levels.len();
                    self.levels.last_mut().unwrap().chosen = Some((i, id));
                    if id > 1 {
                        self.feats.insert("sub.deep");
                    }
                    self.enter(&v.cmd, v.name.clone());
                    return self.tokens(it);
                }
                self.positional(b, false, it)?;
                let movable = self.touched.iter().all(|&s| !self.slots[s].arg.trailing && !self.slots[s].arg.last);
                seg(self, true, movable);
            }
        }
        Ok(())
    }

    fn is_given(&self, node: usize, field: &str) -> bool {
        let n = &self.nodes[node];
        let i = n.cmd.args.iter().position(|a| a.field == field).unwrap();
        self.slots[n.slots[i]].given.present
    }

    fn check_node(&mut self, node: usize, level: usize, errs: &mut Vec<Pat>) {
        let cmd = self.nodes[node].cmd;
        let slots = self.nodes[node].slots.clone();
        let by_field = |f: &String| cmd.args.iter().find(|a| a.field == *f).unwrap();
        let has_sub = self.levels[level].node == node && self.levels[level].chosen.is_some();
        let total = slots.iter().filter(|&&s| self.slots[s].given.present).count()
            + usize::from(has_sub);
        for (a, &s) in cmd.args.iter().zip(&slots) {
            if self.slots[s].given.present {
                if a.excl {
                    self.feats.insert("c.excl");
                    if total > 1 {
                        self.feats.insert("err.excl");
                        errs.push(pat_arg(Class::Exclusive, a));
                    }
                }
                for r in &a.requires {
                    self.feats.insert("c.requires");
                    if !self.is_given(node, r) {
                        self.feats.insert("err.requires");
                        errs.push(pat_arg(Class::Requires, by_field(r)));
                    }
                }
                for c in &a.conflicts {
                    self.feats.insert("c.conflicts");
                    if self.is_given(node, c) {
                        self.feats.insert("err.conflict");
                        errs.push(pat_arg(Class::Conflict, a));
                        errs.push(pat_arg(Class::Conflict, by_field(c)));
                    }
                }
            } else if a.required {
                self.feats.insert("err.required");
                errs.push(pat_arg(Class::MissingArg, a));
            }
        }
        if self.levels[level].node == node
            && let Some(sub) = &cmd.sub
            && !sub.optional
            && !has_sub
        {
            self.feats.insert("err.missingsub");
            errs.push(pat(Class::MissingSub));
        }
        for (f, _) in self.nodes[node].flats.clone() {
            if !errs.is_empty() {
                self.feats.insert("flat.checked");
            }
            self.check_node(f, level, errs);
        }
    }

    fn arg_val(&mut self, s: usize) -> Val {
        let def = self.def;
        let Slot { arg: a, ref given, .. } = self.slots[s];
        let some = |v: Val| Val::Some(Box::new(v));
        if given.present {
            let one = || given.vals[0].clone();
            return match a.kind {
                Kind::Flag => Val::Bool(true),
                Kind::Val => one().unwrap(),
                Kind::Opt => some(one().unwrap()),
                Kind::OptOpt => some(one().map_or(Val::None, some)),
                Kind::Vec => Val::List(given.vals.iter().map(|v| v.clone().unwrap()).collect()),
                Kind::OptVec => {
                    some(Val::List(given.vals.iter().map(|v| v.clone().unwrap()).collect()))
                }
            };
        }
        let Some(d) = &a.default else {
            return match a.kind {
                Kind::Flag => Val::Bool(false),
                Kind::Val => unreachable!("required"),
                Kind::Opt | Kind::OptOpt | Kind::OptVec => Val::None,
                Kind::Vec => Val::List(vec![]),
            };
        };
        self.feats.insert(if d.from_str { "default.str" } else { "default.expr" });
        let conv = |t: &str| convert(def, &a.ty, OsStr::new(t)).expect("valid default");
        let list = || {
            Val::List(match a.delim {
                Some(c) => d.text.split(c).map(conv).collect(),
                None => vec![conv(&d.text)],
            })
        };
        match a.kind {
            Kind::Flag => Val::Bool(d.text == "true"),
            Kind::Val => conv(&d.text),
            Kind::Opt => some(conv(&d.text)),
            Kind::OptOpt => some(some(conv(&d.text))),
            Kind::Vec => list(),
            Kind::OptVec => some(list()),
        }
    }

    fn node_val(&mut self, node: usize, level: Option<usize>) -> Val {
        let cmd = self.nodes[node].cmd;
        let mut fs = vec![];
        for (i, s) in self.nodes[node].slots.clone().into_iter().enumerate() {
            let v = self.arg_val(s);
            fs.push((cmd.args[i].field.clone(), v));
        }
        for (f, name) in self.nodes[node].flats.clone() {
            let v = self.node_val(f, None);
            fs.push((name.to_owned(), v));
        }
        if let (Some(sub), Some(l)) = (&cmd.sub, level) {
            let v = self.levels[l].chosen.map(|(i, inner)| {
                let variant = &sub.variants[i];
                let v = match variant.kind {
                    VKind::Unit => Val::Unit,
                    _ => self.node_val(self.levels[inner].node, Some(inner)),
                };
                Val::Var(variant.ident.clone(), Box::new(v))
            });
            let v = match (sub.optional, v) {
                (true, None) => Val::None,
                (true, Some(v)) => Val::Some(Box::new(v)),
                (false, v) => v.expect("mandatory"),
            };
            fs.push((sub.field.clone(), v));
        }
        fs.sort_by(|a, b| a.0.cmp(&b.0));
        Val::Rec(fs)
    }
}

fn first_char_len(b: &[u8]) -> Option<usize> {
    (1..=4.min(b.len())).find(|&n| std::str::from_utf8(&b[..n]).is_ok())
}

pub fn predict<'a>(def: &'a Def, argv: &'a [OsString], help_on: bool) -> Predicted<'a> {
    let pulled = std::cell::Cell::new(0usize);
    predict_with(def, argv, help_on, &pulled)
}

fn predict_with<'a: 'b, 'b>(
    def: &'a Def,
    argv: &'a [OsString],
    help_on: bool,
    pulled: &'b std::cell::Cell<usize>,
) -> Predicted<'a> {
    let mut m = M {
        def,
        help_on,
        slots: vec![],
        nodes: vec![],
        levels: vec![],
        feats: Feats::new(),
        values: 0,
        segs: vec![],
        touched: vec![],
        pulled,
    };
    let mut it = argv.iter().inspect(|_| pulled.set(pulled.get() + 1));
    let Some(arg0) = it.next() else {
        return Predicted {
            outcome: Err(vec![pat(Class::Argv0)]),
            feats: Feats::from(["err.argv0"]),
            pulled: 0,
            token_error: true,
            broken: 0,
            help: None,
            depth: 0,
            values: 0,
            segs: vec![],
        };
    };
    m.enter(&def.cmd, program_name(arg0).to_string_lossy().into_owned());
    let parsed = m.tokens(&mut it);
    drop(it);
    let depth = m.levels.len();
    let mut broken = 0;
    let mut help = None;
    let (outcome, token_error) = match parsed {
        Err(errs) => {
            if errs[0].class == Class::Help {
                let l = m.levels.last().unwrap();
                help = Some((l.cmd, m.levels.iter().map(|l| l.name.clone()).collect()));
            }
            (Err(errs), true)
        }
        Ok(()) => {
            let mut errs = vec![];
            for l in 0..m.levels.len() {
                let node = m.levels[l].node;
                m.check_node(node, l, &mut errs);
            }
            if errs.is_empty() {
                m.feats.insert("ok");
                (Ok(m.node_val(0, Some(0))), false)
            } else {
                broken = errs.iter().filter(|e| e.class != Class::Conflict).count()
                    + errs.iter().filter(|e| e.class == Class::Conflict).count() / 2;
                (Err(errs), false)
            }
        }
    };
    if argv.iter().skip(1).any(|a| {
        let b = a.as_bytes();
        b.windows(6).any(|w| w == b"--help") || (b.starts_with(b"-") && b.contains(&b'h')) || b == b"help"
    }) {
        m.feats.insert("helplike");
    }
    if argv.iter().any(|a| a.to_str().is_none()) {
        m.feats.insert("raw.bytes");
    }
    Predicted {
        outcome,
        feats: m.feats,
        pulled: pulled.get(),
        token_error,
        broken,
        help,
        depth,
        values: m.values,
        segs: m.segs,
    }
}

/// The base name shown in usage: what follows the last `/`, ignoring trailing slashes.
pub fn program_name(arg0: &OsStr) -> OsString {
    let b = arg0.as_bytes();
    let mut comps: Vec<&[u8]> = b.split(|&c| c == b'/').collect();
    while comps.len() > 1 && matches!(comps.last(), Some(&b"") | Some(&b".")) {
        comps.pop();
    }
    match comps.last() {
        Some(&c) if !c.is_empty() && c != b".." && !(c == b".") => OsString::from_vec(c.to_vec()),
        _ => arg0.to_owned(),
    }
}
