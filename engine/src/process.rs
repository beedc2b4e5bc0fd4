//! `parse()` in real child processes, compared with `try_parse_from` in this one.
use crate::agen::{dictionary, show_argv};
use crate::observe::*;
use crate::rng::Rng;
use crate::worker::*;
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

const DEF: &str = "PALC_MONITOR_DEF";
const OUT: &str = "PALC_MONITOR_OUT";
const THREAD: &str = "PALC_MONITOR_THREAD";

/// In a child: parse the process's own arguments and leave the value in a file.
pub fn child(entries: &[Entry]) -> bool {
    let Some(id) = std::env::var_os(DEF) else {
        return false;
    };
    let id: u32 = id.to_str().unwrap().parse().unwrap();
    let process = entries.iter().find(|e| e.id == id).unwrap().process;
    let v = if std::env::var_os(THREAD).is_some() {
        std::thread::spawn(process).join().unwrap()
    } else {
        process()
    };
    let path = std::env::var_os(OUT).unwrap();
    std::fs::write(path, format!("{:016x} {v:?}", hash(&v))).unwrap();
    true
}

const ARG0: &[&[u8]] = &[
    b"prog", b"/", b"..", b"a/..", b"dir/prog/", b"./prog", b"../../x/y.exe", b"pr\xffog", b"/usr/\xf0\x9f\x98/ok", "/opt/我/程序".as_bytes(), b"//prog//", b"prog.",
    b"--help", b"-h", b"a=b", b"'quoted'", b"{}", b"%s", b"/very/long/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"C:\\x\\prog.exe",
];

/// How a child is run.
#[derive(Clone, Copy, PartialEq)]
enum Way {
    Plain,
    Thread,
    FullStderr,
    ClosedStdin,
}

fn judge(e: &Entry, argv: &[OsString], out_file: &str, way: Way, envs: &[(&str, &str)]) -> Option<String> {
    let expected = run_real(e, argv);
    let _ = std::fs::remove_file(out_file);
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg0(&argv[0]).args(&argv[1..]).env(DEF, e.id.to_string()).env(OUT, out_file);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    match way {
        Way::Plain => {}
        Way::Thread => {
            c.env(THREAD, "1");
        }
        Way::FullStderr => {
            c.stderr(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        Way::ClosedStdin => {
            c.stdin(Stdio::piped());
        }
    }
    for (k, v) in envs {
        c.env(k, v);
    }
    let r = c.output().unwrap_or_else(|err| panic!("cannot run a child: {err}"));
    let value = std::fs::read_to_string(out_file).ok();
    if !r.stdout.is_empty() {
        return Some(format!("printed {:?} to standard output", String::from_utf8_lossy(&r.stdout)));
    }
    if let Some(sig) = r.status.signal() {
        return Some(format!("died of signal {sig}: {}", String::from_utf8_lossy(&r.stderr)));
    }
    let code = r.status.code().unwrap();
    match &expected {
        Outcome::Ok(v) => {
            let want = format!("{:016x} {v:?}", hash(v));
            if value.as_deref() != Some(&want) {
                return Some(format!(
                    "try_parse_from gives {v:?}, parse() in a process {} (exit code {code}, stderr {:?})",
                    value.map_or("did not return".into(), |v| format!("gave {v}")),
                    String::from_utf8_lossy(&r.stderr)
                ));
            }
            if code != 0 {
                return Some(format!("accepted, but the exit code is {code}"));
            }
            if !r.stderr.is_empty() {
                return Some(format!("accepted, but printed {:?}", String::from_utf8_lossy(&r.stderr)));
            }
        }
        Outcome::Err(err) => {
            if let Some(v) = value {
                return Some(format!("try_parse_from rejects with {:?}, parse() returned {v}", err.display));
            }
            if code == 0 {
                return Some(format!("rejected ({:?}), but the exit code is 0", err.display));
            }
            if way != Way::FullStderr && r.stderr != format!("{}\n", err.display).as_bytes() {
                return Some(format!("rejected with {:?}, but standard error has {:?}", err.display, String::from_utf8_lossy(&r.stderr)));
            }
            if let Some(h) = &err.help
                && err.display != *h
            {
                return Some(format!("displays {:?} for the help {h:?}", err.display));
            }
        }
    }
    None
}

/// The usage line begins with the base name of the program.
fn usage_name(def: &crate::ir::Def, e: &Entry, arg0: &OsString) -> Option<String> {
    let argv = [arg0.clone(), "--help".into()];
    let arg0 = &argv[0];
    if arg0.is_empty() {
        return None;
    }
    let p = crate::model::predict(def, &argv, true);
    let (_, path) = p.help.as_ref()?;
    let name = crate::model::program_name(arg0).to_string_lossy().into_owned();
    assert_eq!(path[0], name);
    let Outcome::Err(err) = run_real(e, &argv) else {
        return Some("--help is accepted".into());
    };
    let help = err.help.unwrap_or_default();
    let usage = help.split("Usage:").nth(1).unwrap_or_default().trim_start_matches([' ', '\n']);
    let rest = usage.strip_prefix(name.as_str());
    if rest.is_some_and(|r| r.is_empty() || r.starts_with([' ', '\n'])) {
        None
    } else {
        Some(format!("usage begins with {:?} instead of {name:?}", usage.chars().take(60).collect::<String>()))
    }
}

pub fn replay(def: &crate::ir::Def, e: &Entry, argv: &[OsString]) -> Option<String> {
    let out = format!("{}.value", std::env::temp_dir().join(format!("palc-replay-{}", std::process::id())).display());
    let r = [Way::Plain, Way::Thread, Way::FullStderr, Way::ClosedStdin].into_iter().find_map(|w| judge(e, argv, &out, w, &[]));
    let _ = std::fs::remove_file(&out);
    r.or_else(|| usage_name(def, e, &argv[0]))
}

pub fn run(ctx: &Ctx<'_>, a: &BTreeMap<String, String>) {
    let (shard, shards) = a["shard"].split_once('/').unwrap();
    let (shard, shards): (u64, u64) = (shard.parse().unwrap(), shards.parse().unwrap());
    let cur = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&a["cur"]).unwrap();
    let out_file = format!("{}.value", a["out"]);
    let mut rep = Report::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let envs: [&[(&str, &str)]; 4] = [
        &[],
        &[("COLUMNS", "20"), ("NO_COLOR", "1"), ("TERM", "dumb")],
        &[("CLICOLOR_FORCE", "1"), ("LANG", "tr_TR.UTF-8"), ("RUST_BACKTRACE", "1"), ("TERM", "xterm-256color")],
        &[("RUST_LOG", "trace"), ("PALC_LOG", "1"), ("HOME", "/nonexistent"), ("PWD", "/"), ("COLUMNS", "0")],
    ];
    'all: for def in ctx.defs {
        let e = ctx.entry(def.id);
        let dict = dictionary(def);
        rep.defs += 1;
        // No program name at all.
        if let Outcome::Err(err) = run_real(e, &[]) {
            let none: &[&str] = &[];
            let again = (e.parse)(&mut none.iter().map(OsString::from));
            if !same(&again, &Outcome::Err(err)) {
                rep.divergences.push(div(def, 0, &[], "the empty argv is not always the same error".into()));
            }
        } else {
            rep.divergences.push(div(def, 0, &[], "an empty argv is accepted".into()));
        }
        let mut case = shard;
        while case < cases_for(ctx.cfg, &def.label) as u64 {
            let mut rec = [0u8; 12];
            rec[..4].copy_from_slice(&def.id.to_le_bytes());
            rec[4..].copy_from_slice(&case.to_le_bytes());
            cur.write_all_at(&rec, 0).unwrap();
            let (mut argv, _) = gen_case(ctx.cfg, def, &dict, case);
            case += shards;
            let mut rng = Rng::new(&[ctx.cfg.seed, case, u64::from(def.id), 22]);
            if !argv.is_empty() && rng.p(0.5) {
                argv[0] = OsString::from_vec(rng.pick(ARG0).to_vec());
            }
            let total: usize = argv.iter().map(|t| t.len() + 9).sum();
            if argv.is_empty() || total > 500_000 || argv.iter().any(|t| t.len() > 100_000 || t.as_bytes().contains(&0)) {
                *rep.extra.entry("not expressible as a process argv".into()).or_default() += 1;
                continue;
            }
            for n in [250, 1000, 4000] {
                if argv.len() > n {
                    *rep.extra.entry(format!("children given more than {n} arguments")).or_default() += 1;
                }
            }
            let way = match rng.below(10) {
                0 => Way::Thread,
                1 => Way::FullStderr,
                2 => Way::ClosedStdin,
                _ => Way::Plain,
            };
            let env = *rng.pick(&envs);
            rep.evaluations += 1;
            rep.parses += 2;
            rep.tokens += argv.len() as u64;
            if seen.insert(hash(&(def.id, &argv))) {
                rep.nontrivial += 1;
            }
            match run_real(e, &argv) {
                Outcome::Ok(_) => rep.accepted += 1,
                Outcome::Err(err) => {
                    rep.rejected += 1;
                    *rep.classes.entry(format!("{:?}", classify(&err))).or_default() += 1;
                }
            }
            if way == Way::FullStderr {
                *rep.extra.entry("children with an unwritable standard error".into()).or_default() += 1;
            }
            if argv.iter().any(|t| std::str::from_utf8(t.as_bytes()).is_err()) {
                *rep.extra.entry("children given bytes that are not UTF-8".into()).or_default() += 1;
            }
            if rep.samples.len() < 12 && argv.len() < 12 {
                rep.samples.push(format!("def {} ({}): {}", def.id, def.label, show_argv(&argv)));
            }
            let mut why = judge(e, &argv, &out_file, way, env);
            if why.is_none() && ctx.cfg.help_on {
                *rep.extra.entry("usage lines examined".into()).or_default() += 1;
                why = usage_name(def, e, &argv[0]);
            }
            if let Some(why) = why {
                rep.divergences.push(div(def, case, &argv, why));
                if rep.divergences.len() >= 3 {
                    break 'all;
                }
            }
        }
    }
    let _ = std::fs::remove_file(&out_file);
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", a["out"]), bytes).unwrap();
    std::fs::write(&a["out"], serde_json::to_vec(&rep).unwrap()).unwrap();
}

fn div(def: &crate::ir::Def, case: u64, argv: &[OsString], why: String) -> Divergence {
    Divergence {
        def: def.id,
        label: def.label.clone(),
        case,
        argv_hex: argv.iter().map(|t| hex(t.as_bytes())).collect(),
        argv: show_argv(argv),
        original: show_argv(argv),
        why,
        feats: vec![],
        relevant: true,
        monitor: "process".into(),
    }
}
