//! Command line generation: definition-driven plans, then mutations.
use crate::ir::*;
use crate::rng::Rng;
use crate::types::samples;
use serde::{Deserialize, Serialize};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};

/// Tunable probabilities; every profile overrides a few.
#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(default)]
pub struct Knobs {
    /// Aim at an accepted command line.
    pub p_calm: f64,
    /// Mutate the finished command line.
    pub p_mut: f64,
    /// Max number of mutations.
    pub max_mut: usize,
    /// Give a refused sample instead of an accepted one.
    pub p_bad: f64,
    /// Use a hostile value (option-like, subcommand-like, ...).
    pub p_hostile: f64,
    /// Use non-UTF-8 bytes where the type takes them (or anywhere, rarely).
    pub p_raw: f64,
    /// Use a long value.
    pub p_long: f64,
    pub max_long: usize,
    /// Repeat a single-valued argument.
    pub p_dup: f64,
    /// Respect presence constraints when choosing arguments.
    pub p_respect: f64,
    /// Insert a help-like token somewhere.
    pub p_help: f64,
    /// Use `--` before (some of) the positionals.
    pub p_dashdash: f64,
    /// Enter a subcommand if there is one.
    pub p_sub: f64,
    /// Prefer a subcommand that has subcommands.
    pub p_deeper: f64,
    /// Bundle adjacent short options.
    pub p_bundle: f64,
    /// Emit a global argument below its level.
    pub p_global_below: f64,
    /// Fully random command line from the dictionary.
    pub p_chaos: f64,
    /// Give one or two arguments besides the required ones.
    pub p_pair: f64,
    /// Let a NUL byte in (impossible for a real process, possible for try_parse_from).
    pub p_nul: f64,
    /// Give a list tens of thousands of values.
    pub p_flood: f64,
    /// One argument occurs hundreds or thousands of times.
    pub p_swell: f64,
    /// Max occurrences of a list argument.
    pub max_multi: usize,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            p_calm: 0.5,
            p_mut: 0.4,
            max_mut: 2,
            p_bad: 0.04,
            p_hostile: 0.12,
            p_raw: 0.05,
            p_long: 0.02,
            max_long: 300,
            p_dup: 0.02,
            p_respect: 0.8,
            p_help: 0.02,
            p_dashdash: 0.2,
            p_sub: 0.85,
            p_deeper: 0.2,
            p_bundle: 0.5,
            p_global_below: 0.5,
            p_chaos: 0.05,
            p_pair: 0.1,
            p_nul: 0.004,
            p_flood: 0.0,
            p_swell: 0.0005,
            max_multi: 4,
        }
    }
}

pub struct Gen<'a> {
    pub def: &'a Def,
    pub k: &'a Knobs,
    pub rng: Rng,
    /// All names of the definition, as typed tokens.
    pub dict: Vec<OsString>,
    /// Aim at an accepted command line.
    calm: bool,
    /// Some list is to be given more values than 16 bits can count.
    flood: bool,
    floods: usize,
    swell: usize,
}

fn collect_names(cmd: &Cmd, out: &mut Vec<OsString>) {
    for a in &cmd.args {
        for l in &a.longs {
            out.push(format!("--{l}").into());
        }
        for s in &a.shorts {
            out.push(format!("-{s}").into());
        }
    }
    for f in &cmd.flats {
        collect_names(&f.cmd, out);
    }
    if let Some(s) = &cmd.sub {
        for v in &s.variants {
            out.push(v.name.clone().into());
            collect_names(&v.cmd, out);
        }
    }
}

pub fn dictionary(def: &Def) -> Vec<OsString> {
    let mut names = vec![];
    collect_names(&def.cmd, &mut names);
    names.sort();
    names.dedup();
    names
}

struct Item {
    toks: Vec<OsString>,
    /// A short option without value (`-v`), or with attached value: can be glued after shorts.
    glue: Option<Glue>,
}

#[derive(Clone, Copy, PartialEq)]
enum Glue {
    /// `-v`: others can follow.
    Open,
    /// `-ovalue` or `-o` + next token: must be last.
    Closed,
}

fn cat(parts: &[&[u8]]) -> OsString {
    OsString::from_vec(parts.concat())
}

impl<'a> Gen<'a> {
    pub fn new(def: &'a Def, k: &'a Knobs, dict: &[OsString], rng: Rng) -> Self {
        Gen { def, k, rng, dict: dict.to_vec(), calm: false, flood: false, floods: 0, swell: 0 }
    }

    fn long_value(&mut self, max: usize) -> Vec<u8> {
        let lens = [7, 1 << 20, 1 << 22, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536];
        let lens: Vec<usize> = lens.into_iter().filter(|&l| l <= max).collect();
        let n = *self.rng.pick(&lens);
        let unit: &[u8] = *self.rng.pick(&[&b"x"[..], b"ab,", b"=", b"-", "我".as_bytes(), b"0"]);
        unit.iter().copied().cycle().take(n).collect()
    }

    fn raw_value(&mut self) -> Vec<u8> {
        let pool: [&[u8]; 12] = [
            b"\xff", b"a\xff", b"\xffa", b"\xc3", b"\xe6\x88", b"a\x80=b", b"=\xff", b"-\xff", b",\xfe,", b"\xed\xa0\x80",
            b"\xf0\x9f\x98", b"x\xffy\xfez",
        ];
        if self.rng.p(0.7) {
            self.rng.pick(&pool).to_vec()
        } else {
            let n = self.rng.range(1, 8);
            (0..n).map(|_| (self.rng.below(255) + 1) as u8).collect()
        }
    }

    fn hostile(&mut self) -> Vec<u8> {
        let pool: [&[u8]; 33] = [
            b"-", b"--", b"---", b"-x", b"--x", b"--x=1", b"-1", b"-0", b"-1.5", b"-12e3", b"-1a", b"", b"=", b"==", b"=x", b"-=", b"-=x",
            b"--=", b"--=x", b"-h", b"--help", b"help", b"h", b"-9223372036854775808", b"- ", b" ", b"a=b", b"-\xe2\x88\x921", b"\x1b[0m", b"\n", b"-\n",
            b"-99", b"-\xd9\xa1",
        ];
        // Things people type or programs insert.
        let odd: [&[u8]; 52] = [
            b"-inf", b"-INF", b"-nan", b"-NaN", b"-.5", b"-5.", b"-0x10", b"-1e", b"-1_000", b"-+1", b"+1", b"--no-x", b"-?", b"/?", b"--HELP", b"-H", b"-V", b"--version",
            b"null", b"NULL", b"none", b"true", b"false", b"TRUE", b"yes", b"on", b"@file", b"$HOME", b"${X:-y}", b"%s%n", b"{}", b"{0}", b"{arg_desc}", b"\\", b"\"", b"'", b"\"a b\"",
            b"*", b"~", b"#", b"<VALUE>", b"[default: 1]", b"\t", b"\r\n", b" lead", b"trail ", b"e\xcc\x81", b"\xef\xbb\xbfx", b"\xe2\x80\xaex", b"\x7f", b"\xc2\x85", b"\xf0\x9f\x91\xa9\xe2\x80\x8d\xf0\x9f\x92\xbb",
        ];
        if self.rng.p(0.04) {
            self.numberish()
        } else if !self.flood && self.rng.p(0.02) {
            // Names, numbers and words without end.
            let mut v = self.rng.pick(&[&b"--"[..], b"-", b"--x=", b"-1", b"", b"\xff"]).to_vec();
            v.extend(self.long_value(70_000));
            v
        } else if self.rng.p(0.3) {
            self.rng.pick(&odd).to_vec()
        } else if self.rng.p(0.6) || self.dict.is_empty() {
            self.rng.pick(&pool).to_vec()
        } else {
            let i = self.rng.below(self.dict.len());
            let mut v = self.dict[i].as_bytes().to_vec();
            if self.rng.p(0.2) {
                v.extend_from_slice(b"=1");
            }
            v
        }
    }

    /// Something like a negative number, or nearly so.
    fn numberish(&mut self) -> Vec<u8> {
        let mut v = b"-".to_vec();
        let parts: [&[u8]; 20] = [
            b"0", b"1", b"9", b"12", b"340", b"7", b"5", b".", b".", b".", b"e", b"e", b"E", b"+", b"-", b"_", b"x", b",", b"\xd9\xa1", b"i",
        ];
        // The later parts are the odd ones.
        let most = if self.rng.p(0.8) { 13 } else { parts.len() };
        for i in 0..self.rng.range(1, 6) {
            let n = if i == 0 && self.rng.p(0.8) { 7 } else { most };
            v.extend_from_slice(parts[self.rng.below(n)]);
            if self.rng.p(0.04) {
                // Digits without end.
                let n = [20, 40, 70, 140, 300, 5000][self.rng.below(6)];
                (0..self.rng.range(8, n)).for_each(|_| v.push(b'0' + self.rng.below(10) as u8));
            }
        }
        v
    }

    /// One undelimited value for an argument.
    fn piece(&mut self, a: &Arg) -> Vec<u8> {
        if a.hyphen == Hyphen::Num && !self.calm && self.rng.p(0.3) {
            return self.numberish();
        }
        let bytesy = matches!(a.ty.as_str(), "OsString" | "PathBuf" | "BoxOs" | "ArcOs" | "Raw" | "Both" | "Len");
        let text = matches!(a.ty.as_str(), "String" | "Wrap<String>" | "Counted");
        let f = if bytesy || text { 1.0 } else if self.calm { 0.0 } else { 0.15 };
        if a.ty != "Raw" && a.ty != "Both" && self.rng.p(self.k.p_hostile * f) {
            return self.hostile();
        }
        if self.rng.p(self.k.p_raw * if bytesy && a.ty != "Both" { 3.0 } else if self.calm { 0.0 } else { 0.15 }) {
            return self.raw_value();
        }
        if !self.flood && self.rng.p(self.k.p_long * f) {
            return self.long_value(self.k.max_long);
        }
        let (good, bad) = samples(self.def, &a.ty);
        let pool = if !bad.is_empty() && (good.is_empty() || (!self.calm && self.rng.p(self.k.p_bad))) { &bad } else { &good };
        if pool.is_empty() {
            return b"none".to_vec();
        }
        let mut v = self.rng.pick(pool).as_bytes().to_vec();
        if matches!(a.ty.as_str(), "String" | "OsString" | "PathBuf") && self.rng.p(0.4) {
            v = format!("u{}", self.rng.below(1000)).into_bytes();
        }
        if a.icase && self.rng.p(0.7) {
            for b in &mut v {
                if self.rng.p(0.4) {
                    *b = b.to_ascii_uppercase();
                }
            }
        }
        v
    }

    pub fn value(&mut self, a: &Arg) -> Vec<u8> {
        match a.delim {
            Some(d) if self.rng.p(0.7) => {
                let n = if self.swell > 0 {
                    std::mem::take(&mut self.swell)
                } else if self.k.p_flood > 0.0 && self.flood && self.rng.p(0.00002) {
                    66_000
                } else {
                    self.rng.range(1, 4)
                };
                let mut v = vec![];
                let mut buf = [0; 4];
                let d = d.encode_utf8(&mut buf).as_bytes().to_vec();
                for i in 0..n {
                    if i > 0 {
                        v.extend_from_slice(&d);
                    }
                    let may_be_empty = matches!(a.ty.as_str(), "String" | "OsString" | "PathBuf" | "Counted" | "Nil" | "Wide");
                    if !self.rng.p(if may_be_empty { 0.2 } else if self.calm { 0.0 } else { 0.05 }) {
                        let p = self.piece(a);
                        v.extend(p);
                    }
                }
                v
            }
            _ => self.piece(a),
        }
    }

    fn named_item(&mut self, a: &Arg) -> Item {
        let rng = &mut self.rng;
        let use_long = !a.longs.is_empty() && (a.shorts.is_empty() || rng.p(0.5));
        let name: Vec<u8> = if use_long {
            format!("--{}", rng.pick(&a.longs)).into_bytes()
        } else {
            format!("-{}", rng.pick(&a.shorts)).into_bytes()
        };
        match a.kind {
            Kind::Flag => {
                if !self.calm && rng.p(0.03) {
                    let v = self.hostile();
                    return Item { toks: vec![cat(&[&name, b"=", &v])], glue: None };
                }
                Item { toks: vec![OsString::from_vec(name)], glue: (!use_long).then_some(Glue::Open) }
            }
            Kind::OptOpt => {
                if rng.p(0.5) {
                    Item { toks: vec![OsString::from_vec(name)], glue: (!use_long).then_some(Glue::Open) }
                } else {
                    let v = self.value(a);
                    Item { toks: vec![cat(&[&name, b"=", &v])], glue: (!use_long).then_some(Glue::Closed) }
                }
            }
            _ => {
                let v = self.value(a);
                let glue = (!use_long).then_some(Glue::Closed);
                let hyphened = v.starts_with(b"-") && v != b"-" && a.hyphen != Hyphen::Any;
                let rng = &mut self.rng;
                let eq = if a.req_eq { self.calm || rng.p(0.93) } else { rng.p(0.4) || (hyphened && (self.calm || rng.p(0.7))) };
                if eq {
                    return Item { toks: vec![cat(&[&name, b"=", &v])], glue };
                }
                if !use_long && !v.is_empty() && rng.p(0.5) {
                    return Item { toks: vec![cat(&[&name, &v])], glue };
                }
                Item { toks: vec![OsString::from_vec(name), OsString::from_vec(v)], glue }
            }
        }
    }

    /// Chooses which arguments of a node are given: (arg, count).
    fn choose(&mut self, cmd: &'a Cmd, density: f64, respect: bool, out: &mut Vec<(&'a Arg, usize)>) {
        let n = cmd.args.len();
        let mut on: Vec<bool> = cmd
            .args
            .iter()
            .map(|a| {
                let must = a.required && (self.calm || self.rng.p(if respect { 0.985 } else { 0.7 }));
                must || self.rng.p(density)
            })
            .collect();
        if !self.calm && n > 1 && self.rng.p(self.k.p_pair) {
            // Nothing but what is required and one or two more.
            for (o, a) in on.iter_mut().zip(&cmd.args) {
                *o = a.required;
            }
            on[self.rng.below(n)] = true;
            on[self.rng.below(n)] = true;
        }
        if respect {
            if let Some(i) = (0..n).find(|&i| on[i] && cmd.args[i].excl) {
                if self.rng.p(0.5) || cmd.args.iter().any(|a| a.required) {
                    for j in 0..n {
                        if cmd.args[j].excl {
                            on[j] = false;
                        }
                    }
                } else {
                    for (j, o) in on.iter_mut().enumerate() {
                        *o = j == i;
                    }
                }
            }
            let at = |f: &String| cmd.args.iter().position(|a| a.field == *f).unwrap();
            for _ in 0..3 {
                for i in 0..n {
                    if on[i] {
                        for r in &cmd.args[i].requires {
                            on[at(r)] = true;
                        }
                        for c in &cmd.args[i].conflicts {
                            let j = at(c);
                            if on[j] && j != i {
                                if cmd.args[i].required { on[j] = false } else { on[i] = false }
                            }
                        }
                    }
                }
            }
        }
        if respect {
            // Positionals before a given one are given too: it would take their place.
            let at: Vec<usize> =
                cmd.positionals().into_iter().filter(|a| !a.last).map(|a| cmd.args.iter().position(|b| std::ptr::eq(a, b)).unwrap()).collect();
            let mut upto = at.iter().rposition(|&i| on[i]).map_or(0, |p| p + 1);
            if at[..upto].iter().any(|&i| cmd.args[i].excl) {
                upto = 0;
            }
            for &i in &at[..upto] {
                on[i] = true;
            }
        }
        for (i, a) in cmd.args.iter().enumerate() {
            if on[i] {
                let c = if a.kind.multi() && self.floods > 0 {
                    self.floods -= 1;
                    65_500 + self.rng.below(6000)
                } else if a.kind.multi() && self.swell > 0 && self.rng.p(0.6) {
                    std::mem::take(&mut self.swell)
                } else if a.kind.multi() {
                    1 + self.rng.below(self.k.max_multi)
                } else if !a.pos && !self.calm && self.rng.p(self.k.p_dup) {
                    2
                } else {
                    1
                };
                out.push((a, c));
            }
        }
        for f in &cmd.flats {
            self.choose(&f.cmd, density, respect, out);
        }
    }

    fn level(&mut self, cmd: &'a Cmd, inherited: &[&'a Arg], out: &mut Vec<OsString>) {
        let density = *self.rng.pick(&[0.05, 0.2, 0.4, 0.6, 0.9]);
        let respect = self.calm || self.rng.p(self.k.p_respect);
        let mut chosen = vec![];
        self.choose(cmd, density, respect, &mut chosen);
        let enter_sub = match &cmd.sub {
            Some(s) if !s.variants.is_empty() => {
                if s.optional { self.rng.p(self.k.p_sub * 0.8) } else { self.calm || self.rng.p(self.k.p_sub.max(0.9)) }
            }
            _ => false,
        };
        if respect && enter_sub && chosen.iter().any(|(a, _)| a.excl && cmd.args.iter().any(|b| std::ptr::eq(*a, b))) {
            chosen.retain(|(a, _)| !a.excl);
        }
        let mut items: Vec<Item> = vec![];
        let mut below: Vec<&'a Arg> = vec![];
        for &(a, c) in &chosen {
            if a.pos {
                continue;
            }
            for _ in 0..c {
                if a.global && enter_sub && self.rng.p(self.k.p_global_below) {
                    below.push(a);
                } else {
                    let it = self.named_item(a);
                    items.push(it);
                }
            }
        }
        // Inherited global arguments land here or go deeper.
        for &a in inherited {
            if enter_sub && self.rng.p(self.k.p_global_below * 0.8) {
                below.push(a);
            } else {
                let it = self.named_item(a);
                items.push(it);
            }
        }
        self.rng.shuffle(&mut items);
        if !self.calm && items.len() < 12 && self.rng.p(0.02) {
            let it = self.dict_token();
            items.push(Item { toks: vec![it], glue: None });
            self.rng.shuffle(&mut items);
        }
        // Positionals, in filling order.
        let mut pos: Vec<OsString> = vec![];
        let mut tail: Vec<OsString> = vec![];
        let mut last: Vec<OsString> = vec![];
        for a in cmd.positionals() {
            let Some(&(_, c)) = chosen.iter().find(|(b, _)| std::ptr::eq(*b, a)) else {
                if respect && !a.last {
                    // A hole would shift the later ones.
                    continue;
                }
                continue;
            };
            for _ in 0..c {
                let mut v = self.value(a);
                if a.last {
                    last.push(OsString::from_vec(v));
                    continue;
                }
                if a.trailing {
                    if self.rng.p(0.25) {
                        v = self.hostile();
                    }
                    tail.push(OsString::from_vec(v));
                    continue;
                }
                pos.push(OsString::from_vec(v));
            }
        }
        // Interleave positionals with options.
        let mut n_dd = if self.rng.p(self.k.p_dashdash) { self.rng.below(pos.len() + 1) } else { 0 };
        let mut tail_dd = false;
        if self.calm {
            let names: Vec<&str> = cmd.sub.iter().flat_map(|s| s.variants.iter().map(|v| v.name.as_str())).collect();
            let awkward = |t: &OsString| {
                let b = t.as_bytes();
                (b.len() > 1 && b[0] == b'-') || names.iter().any(|n| n.as_bytes() == b)
            };
            let has_last = cmd.args.iter().any(|a| a.last);
            if enter_sub {
                last.clear();
                tail.clear();
            }
            if !tail.is_empty() {
                last.clear();
            }
            let fixed = enter_sub || has_last;
            if fixed {
                n_dd = 0;
                for t in pos.iter_mut().chain(tail.iter_mut().take(1)) {
                    if awkward(t) {
                        let mut b = std::mem::take(t).into_vec();
                        b.insert(0, b'1');
                        *t = OsString::from_vec(b);
                    }
                }
            } else {
                let first = pos.iter().position(awkward).unwrap_or(pos.len());
                n_dd = n_dd.max(pos.len() - first);
                tail_dd = !tail.is_empty() && (n_dd > 0 || awkward(&tail[0]) || self.rng.p(0.3));
            }
        }
        let mut after = pos.split_off(pos.len() - n_dd);
        let mut seq: Vec<Option<Item>> = items.into_iter().map(Some).collect();
        let mut slots: Vec<usize> = (0..pos.len()).map(|_| self.rng.below(seq.len() + 1)).collect();
        slots.sort_unstable();
        for (i, (p, at)) in pos.into_iter().zip(slots).enumerate() {
            seq.insert(at + i, Some(Item { toks: vec![p], glue: None }));
        }
        // Emit with bundling.
        let mut i = 0;
        while i < seq.len() {
            let mut item = seq[i].take().unwrap();
            i += 1;
            while item.glue == Some(Glue::Open)
                && i < seq.len()
                && seq[i].as_ref().unwrap().glue.is_some()
                && self.rng.p(self.k.p_bundle)
            {
                let next = seq[i].take().unwrap();
                i += 1;
                let mut first = std::mem::take(&mut item.toks[0]).into_vec();
                first.extend_from_slice(&next.toks[0].as_bytes()[1..]);
                item.toks = std::iter::once(OsString::from_vec(first)).chain(next.toks.into_iter().skip(1)).collect();
                item.glue = next.glue;
            }
            out.extend(item.toks);
        }
        if enter_sub && after.is_empty() && (self.calm || last.is_empty() || self.rng.p(0.5)) {
            let s = cmd.sub.as_ref().unwrap();
            let mut v = self.rng.pick(&s.variants);
            if v.cmd.sub.is_none() && self.rng.p(self.k.p_deeper) {
                let deeper: Vec<_> = s.variants.iter().filter(|v| v.cmd.sub.is_some()).collect();
                if !deeper.is_empty() {
                    v = self.rng.pick::<&_>(&deeper);
                }
            }
            out.push(v.name.clone().into());
            self.level(&v.cmd, &below, out);
            return;
        }
        if self.calm {
            if !tail.is_empty() && !tail_dd {
                out.append(&mut tail);
                return;
            }
            if !after.is_empty() || !last.is_empty() || tail_dd || self.rng.p(0.05) {
                out.push("--".into());
            }
            out.append(&mut last);
            out.append(&mut after);
            out.append(&mut tail);
            return;
        }
        let want_dd = !after.is_empty() || !last.is_empty() || self.rng.p(0.02);
        if !tail.is_empty() && self.rng.p(0.7) {
            // The trailing argument takes it all.
            if self.rng.p(0.15) {
                tail.insert(0, "--".into());
            }
            out.append(&mut tail);
            if self.rng.p(0.8) {
                return;
            }
        }
        if want_dd && self.rng.p(0.96) {
            out.push("--".into());
        }
        if !last.is_empty() && self.rng.p(0.9) {
            out.append(&mut last);
        } else {
            out.append(&mut after);
            out.append(&mut tail);
        }
    }

    pub fn dict_token(&mut self) -> OsString {
        let n = self.dict.len();
        if n == 0 || self.rng.p(0.25) {
            return OsString::from_vec(self.hostile());
        }
        let i = self.rng.below(n);
        let mut b = self.dict[i].as_bytes().to_vec();
        match self.rng.below(14) {
            0..4 => {}
            4 => {
                // Prefix.
                let n = self.rng.below(b.len().max(1));
                b.truncate(n.max(1));
            }
            5 => b.extend_from_slice(*self.rng.pick(&[&b"x"[..], b"s", b"-", b"_", b"=", b"=v", b" ", b"\xff", b"\n", b"1"])),
            6 => b = b.to_ascii_uppercase(),
            7 => {
                for c in &mut b[..] {
                    if *c == b'-' {
                        *c = b'_'
                    }
                }
                if b.starts_with(b"__") {
                    b[0] = b'-';
                    b[1] = b'-';
                }
            }
            8 => {
                // Change the number of dashes.
                if b.starts_with(b"--") {
                    b.remove(0);
                } else if b.starts_with(b"-") {
                    b.insert(0, b'-');
                } else {
                    b.splice(0..0, *b"--");
                }
            }
            9 => {
                let i = self.rng.below(b.len());
                b[i] = b[i].wrapping_add(1).max(1);
            }
            10 => b = b.to_ascii_lowercase(),
            11 => {
                // Two names glued.
                let j = self.rng.below(n);
                let o = self.dict[j].as_bytes().to_vec();
                b.extend(o.iter().skip_while(|c| **c == b'-'));
            }
            12 => {
                b.push(b'=');
                let v = self.hostile();
                b.extend(v);
            }
            _ => {
                let i = self.rng.below(b.len());
                b.remove(i);
            }
        }
        b.retain(|&c| c != 0);
        OsString::from_vec(b)
    }

    fn mutate(&mut self, v: &mut Vec<OsString>) {
        let n = v.len();
        let at = 1 + self.rng.below(n.max(2) - 1);
        if n <= 1 || self.rng.p(0.25) {
            let t = self.dict_token();
            v.insert(at.min(n), t);
            return;
        }
        match self.rng.below(11) {
            0 => {
                v.remove(at);
            }
            1 => {
                let t = v[at].clone();
                let j = 1 + self.rng.below(n);
                v.insert(j, t);
            }
            2 => {
                let j = 1 + self.rng.below(n - 1);
                v.swap(at, j);
            }
            3 => v[at] = self.dict_token(),
            4 => {
                let mut b = std::mem::take(&mut v[at]).into_vec();
                if !b.is_empty() {
                    let i = self.rng.below(b.len());
                    if self.rng.p(0.5) {
                        b.truncate(i);
                    } else {
                        b.remove(i);
                    }
                }
                v[at] = OsString::from_vec(b);
            }
            5 => {
                let mut b = std::mem::take(&mut v[at]).into_vec();
                let i = self.rng.below(b.len() + 1);
                let c: &[u8] = *self.rng.pick(&[&b"-"[..], b"=", b",", b"a", b"\xff", "é".as_bytes(), b" ", b"0", b"h"]);
                b.splice(i..i, c.iter().copied());
                v[at] = OsString::from_vec(b);
            }
            6 => v.truncate(at),
            7 => {
                let t = *self.rng.pick(&["--", "-", "", "-h", "--help", "=", "-1"]);
                v.insert(at, t.into());
            }
            8 if at + 1 < n => {
                // Join with the next token.
                let next = v.remove(at + 1);
                let sep: &[u8] = *self.rng.pick(&[&b""[..], b"=", b" "]);
                v[at] = cat(&[v[at].as_bytes(), sep, next.as_bytes()]);
            }
            9 => {
                // Split at `=` into two tokens.
                let b = v[at].as_bytes().to_vec();
                if let Some(i) = b.iter().position(|&c| c == b'=') {
                    v[at] = OsString::from_vec(b[..i].to_vec());
                    v.insert(at + 1, OsString::from_vec(b[i + 1..].to_vec()));
                } else {
                    let t = self.dict_token();
                    v.insert(at, t);
                }
            }
            _ => {
                let b = v[at].as_bytes().to_vec();
                v[at] = if self.rng.p(0.5) {
                    OsString::from_vec(b.to_ascii_uppercase())
                } else {
                    OsString::from_vec(b.to_ascii_lowercase())
                };
            }
        }
    }

    /// What another program may take for a request for help, or anything as short.
    fn lookalike(&mut self) -> OsString {
        match self.rng.below(4) {
            0 => OsString::from(*self.rng.pick(&[
                "-?", "--?", "/?", "-H", "--HELP", "--Help", "-help", "--h", "--helps", "--help-all", "--usage", "--man", "--info", "--version", "-V", "-hh", "---help", "--hlep", "---h", "--long-help", "-h-", "--help ", " --help",
                "–help", "--ʜelp", "-ｈ", "/h", "/help", "-\u{1F}", "--\u{7F}",
            ])),
            1 => {
                let c = char::from(b'!' + self.rng.below(94) as u8);
                OsString::from(format!("--{c}"))
            }
            _ => {
                let c = char::from(b'!' + self.rng.below(94) as u8);
                OsString::from(format!("-{c}"))
            }
        }
    }

    pub fn arg0(&mut self) -> OsString {
        if self.rng.p(0.1) {
            let odd: [&[u8]; 12] =
                [b"/", b"..", b"a/..", b"./.", b"//", b"\xff/x\xfe", b"\xffprog", b"/a\nb", "日本".as_bytes(), b"a/b/", b"{}%s", b"C:\\prog.exe"];
            return OsString::from_vec(self.rng.pick(&odd).to_vec());
        }
        (*self.rng.pick(&["prog", "", "/usr/bin/prog", "./a b", "prog/", "-x", "--", "my-app"])).into()
    }

    pub fn argv(&mut self) -> Vec<OsString> {
        let mut v = vec![self.arg0()];
        self.calm = self.rng.p(self.k.p_calm);
        self.flood = self.k.p_flood > 0.0 && self.rng.p(self.k.p_flood);
        self.calm |= self.flood;
        self.floods = self.flood as usize;
        self.swell = 0;
        if !self.flood && self.rng.p(self.k.p_swell) {
            self.swell = [70, 130, 260, 520, 1030, 2050, 4100][self.rng.below(7)] + self.rng.below(8);
            self.flood = true;
        }
        if !self.calm && self.rng.p(self.k.p_chaos) {
            let n = self.rng.below(8);
            for _ in 0..n {
                let t = if self.rng.p(0.15) { OsString::from_vec(self.raw_value()) } else { self.dict_token() };
                v.push(t);
            }
        } else {
            let def = self.def;
            self.level(&def.cmd, &[], &mut v);
        }
        if (!self.calm || self.k.p_help > 0.1) && self.rng.p(self.k.p_help) {
            let at = 1 + self.rng.below(v.len());
            let t = if self.rng.p(0.6) {
                OsString::from(*self.rng.pick(&["--help", "-h", "--help", "-h", "--help=x", "-hx", "-h=1", "help", "--hel", "--help="]))
            } else {
                self.lookalike()
            };
            v.insert(at, t);
        }
        if !self.calm && self.rng.p(self.k.p_mut) {
            let n = 1 + self.rng.below(self.k.max_mut);
            for _ in 0..n {
                self.mutate(&mut v);
            }
        }
        if self.rng.p(self.k.p_nul) && v.len() > 1 {
            let i = 1 + self.rng.below(v.len() - 1);
            let mut b = std::mem::take(&mut v[i]).into_vec();
            let at = if self.rng.p(0.5) { b.len() } else { self.rng.below(b.len() + 1) };
            b.insert(at, 0);
            v[i] = OsString::from_vec(b);
            return v;
        }
        for t in &mut v {
            if t.as_bytes().contains(&0) {
                let mut b = std::mem::take(t).into_vec();
                b.retain(|&c| c != 0);
                *t = OsString::from_vec(b);
            }
        }
        v
    }
}

pub fn show_argv(argv: &[OsString]) -> String {
    let v: Vec<String> = argv
        .iter()
        .map(|a| {
            if a.len() > 200 {
                format!("{:?}...({} bytes)", OsStr::from_bytes(&a.as_bytes()[..60]), a.len())
            } else {
                format!("{a:?}")
            }
        })
        .collect();
    if v.len() > 60 { format!("[{}, ...({} tokens)]", v[..60].join(", "), v.len()) } else { format!("[{}]", v.join(", ")) }
}
