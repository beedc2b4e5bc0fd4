//! What the help of a command must say, compared regardless of spacing and of the order of entries.
use crate::ir::*;

fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Visible arguments of a command, with those of flattened groups.
fn visible<'a>(cmd: &'a Cmd, out: &mut Vec<&'a Arg>) {
    out.extend(cmd.args.iter().filter(|a| !a.hide));
    for f in &cmd.flats {
        visible(&f.cmd, out);
    }
}

fn entry_of(a: &Arg) -> String {
    let mut s = a.desc.clone();
    for d in &a.doc {
        s += " ";
        s += d;
    }
    if let Some(d) = &a.default {
        s += &format!(" [default: {}]", d.display);
    }
    squash(&s)
}

fn usage_forms(a: &Arg) -> Vec<String> {
    let mut forms = vec![squash(&a.desc)];
    if let Some(i) = a.desc.find(", --") {
        forms.push(squash(&a.desc[i + 2..]));
    }
    forms
}

fn same_set(what: &str, mut got: Vec<String>, mut want: Vec<String>) -> Result<(), String> {
    got.sort();
    want.sort();
    if got == want {
        return Ok(());
    }
    for g in &got {
        if let Some(i) = want.iter().position(|w| w == g) {
            want.remove(i);
        } else {
            let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
            return Err(format!("{what} unexpectedly shows {g:?}; missing there: {missing:?}"));
        }
    }
    Err(format!("{what} lacks {want:?}"))
}

/// `path`: the program name and the names of the subcommands entered.
pub fn check(cmd: &Cmd, path: &[String], text: &str) -> Result<(), String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let Some(u) = lines.iter().position(|l| l.starts_with("Usage:")) else {
        return Err("there is no usage line".into());
    };

    // About.
    let about = squash(&lines[..u].join(" "));
    let want = squash(&cmd.about.join(" "));
    if about != want {
        return Err(format!("the about text is {about:?} instead of {want:?}"));
    }

    // Usage.
    let mut args = vec![];
    visible(cmd, &mut args);
    let mut end = u + 1;
    while end < lines.len() && !lines[end].trim().is_empty() {
        end += 1;
    }
    let usage = squash(&lines[u..end].join(" "));
    let prefix = squash(&format!("Usage: {}", path.join(" ")));
    let Some(rest) = usage.strip_prefix(&prefix).filter(|r| r.is_empty() || r.starts_with(' ')) else {
        return Err(format!("the usage {usage:?} does not start with {prefix:?}"));
    };
    let mut rest = format!("{rest} ");
    let mut pieces: Vec<Vec<String>> = vec![];
    for a in &args {
        if a.pos {
            if a.last {
                pieces.push(vec![if a.required { format!("-- {}", squash(&a.desc)) } else { format!("[-- {}]", squash(&a.desc)) }]);
            } else if a.required || a.kind.multi() {
                pieces.push(vec![squash(&a.desc)]);
            }
        } else if a.required {
            pieces.push(usage_forms(a));
        }
    }
    if args.iter().any(|a| !a.pos && !a.required) {
        pieces.push(vec!["[OPTIONS]".into()]);
    }
    if let Some(s) = &cmd.sub
        && !s.variants.is_empty()
    {
        pieces.push(vec![if s.optional { "[COMMAND]".into() } else { "<COMMAND>".into() }]);
    }
    pieces.sort_by_key(|p| std::cmp::Reverse(p.iter().map(String::len).max()));
    for p in &pieces {
        // Delimited by spaces; pieces removed before leave two of them.
        let Some((i, n)) = p.iter().find_map(|f| {
            let f = format!(" {f} ");
            rest.find(&f).map(|i| (i, f.len()))
        }) else {
            return Err(format!("the usage {usage:?} does not show {:?}", p.last().unwrap()));
        };
        rest.replace_range(i..i + n, "  ");
    }
    if !rest.trim().is_empty() {
        return Err(format!("the usage {usage:?} shows {:?} besides what is required", rest.trim()));
    }

    // After.
    let body = lines[end..].join("\n");
    let mut body = body.as_str();
    if !cmd.after.is_empty() {
        let Some(b) = body.trim_end().strip_suffix(cmd.after.trim_end()) else {
            return Err(format!("the help does not end with {:?}", cmd.after));
        };
        body = b;
    }

    // Sections, made of blocks separated by blank lines.
    let mut section = "";
    let mut blocks: Vec<(&str, String)> = vec![];
    let mut fresh = true;
    let mut seen = vec![];
    for l in body.split('\n') {
        if matches!(l.trim_end(), "Commands:" | "Arguments:" | "Options:") {
            section = l.trim_end();
            if seen.contains(&section) {
                return Err(format!("there are two sections {section:?}"));
            }
            seen.push(section);
            fresh = true;
        } else if l.trim().is_empty() {
            fresh = true;
        } else if fresh || section == "Commands:" {
            blocks.push((section, l.to_owned()));
            fresh = false;
        } else {
            let b = &mut blocks.last_mut().unwrap().1;
            b.push(' ');
            b.push_str(l);
        }
    }
    let of = |s: &str| blocks.iter().filter(|b| b.0 == s).map(|b| squash(&b.1)).collect::<Vec<_>>();
    if let Some(x) = of("").first() {
        return Err(format!("there is a stray text {x:?}"));
    }
    let rows = cmd.sub.iter().flat_map(|s| &s.variants).map(|v| squash(&format!("{} {}", v.name, v.cmd.about.first().map_or("", |s| s.as_str())))).collect();
    same_set("the list of commands", of("Commands:"), rows)?;
    same_set("the list of positional arguments", of("Arguments:"), args.iter().filter(|a| a.pos).map(|a| entry_of(a)).collect())?;
    same_set("the list of options", of("Options:"), args.iter().filter(|a| !a.pos).map(|a| entry_of(a)).collect())
}

/// Every command with the names leading to it.
pub fn paths(cmd: &Cmd) -> Vec<Vec<String>> {
    let mut out = vec![vec![]];
    if let Some(s) = &cmd.sub {
        for v in &s.variants {
            for mut p in paths(&v.cmd) {
                p.insert(0, v.name.clone());
                out.push(p);
            }
        }
    }
    out
}
