"""Checks with a course of their own."""
import fcntl
import json
import os
import pty
import re
import shutil
import struct
import subprocess
import termios
import time

import campaign
import gen
import harness
from harness import CORES, TARGET, WORK, CheckError
from profiles import PROFILES


def build_or_report(res, ws, target, package, defs, seed, what, write):
    exe, bad = harness.build(ws, TARGET / target, package)
    if not bad:
        return exe, defs
    by = dict(defs)
    for id, msg in sorted(bad.items())[:4]:
        res.violation(f"{what}: {msg[:900]}", kind="compile", def_id=id, definition=by[id], source=harness.source_of(by[id], id, seed), message=msg)
    defs = [(i, d) for i, d in defs if i not in bad]
    write(defs)
    exe, bad = harness.build(ws, TARGET / target, package)
    return (None if bad else exe), defs


def logs(exe, ws, cfg):
    _, crashes = harness.run_workers(exe, ws / "out", ws / "ir.json", cfg, mode="log")
    out = {}
    for i in range(CORES):
        p = ws / "out" / f"out{i}.json"
        for l in p.read_text(errors="replace").split("\n") if p.exists() else []:
            if l:
                d, c, h, key = l.split("\t", 3)
                out[int(d), int(c)] = (h, key)
    return out, crashes


# ---------------------------------------------------------------- C21


def c21(res, seed, tier):
    """The same definitions with and without help: model without help on one build, then both builds compared."""
    prof = PROFILES["C21"]
    size = campaign.THOROUGH if tier == "thorough" else campaign.QUICK
    defs = campaign.definitions("C21", seed, size["defs"], prof["gen"])
    m = campaign.run(res, "C21", seed, tier, defs=defs, target="nohelp", help_on=False)
    if m is None:
        return
    cfg = campaign.config("C21", seed, prof, size["cases"] // 2, False, monitors=[])
    exes = {}
    for name, target, help_on in [("C21on", "main", True), ("C21off", "nohelp", False)]:
        ws = WORK / name
        tag = name.lower() + "_"

        def write(ds):
            gen.write_workspace(ws, ds, seed, crates=CORES, help_on=help_on, tag=tag)

        write(defs)
        exe, _ = build_or_report(res, ws, target, tag + "worker", defs, seed, f"a supported definition does not compile with help {'enabled' if help_on else 'disabled'}", write)
        if exe is None:
            return
        exes[name] = (exe, ws)
    on, crashes = logs(*exes["C21on"], cfg)
    off, crashes2 = logs(*exes["C21off"], cfg)
    campaign.report_crashes(res, crashes + crashes2, defs, seed)
    n = help_lines = refused = 0
    by = dict(defs)
    bad = []
    for k in sorted(on.keys() & off.keys()):
        n += 1
        (h1, a), (h0, b) = on[k], off[k]
        if h0 == "H":
            bad.append((k, "without the help feature, help was rendered"))
        elif h1 == "H":
            help_lines += 1
            # Without the feature, the request itself is what is refused.
            if re.search(r"(?<![\w-])(-h|--help)(?![\w-])", b) and b.startswith("err"):
                refused += 1
            else:
                bad.append((k, f"with help: the help; without: {b}"))
        elif a != b:
            bad.append((k, f"with help: {a}; without: {b}"))
    for (d, case), why in bad[:4]:
        exe, ws = exes["C21off"]
        _, out, _ = harness.run_one(exe, ws / "ir.json", ws / "out/cfg.json", d, case=case)
        argv = next((l for l in out.split("\n") if l.startswith("ARGV ")), "")
        hexes = next((l[8:] for l in out.split("\n") if l.startswith("ARGVHEX ")), "")
        res.violation(f"help on/off differ: definition {d}, {argv[:600]}: {why}", kind="onoff", def_id=d, definition=by[d], source=harness.source_of(by[d], d, seed),
                      argv_hex=[h.lstrip(".") for h in hexes.split(",")])
    res.add(evaluations=n, lines_compared_between_builds=n, help_requests_set_aside=help_lines, of_which_refused_without_help=refused)
    if n < 1000:
        raise CheckError("the builds could not be compared")


# ---------------------------------------------------------------- C22


def c22(res, seed, tier):
    """Child processes that call parse()."""
    prof = PROFILES["C22"]
    n, cases = (400, 1500) if tier == "thorough" else (160, 200)
    defs = campaign.definitions("C22", seed, n, prof["gen"])
    cfg = campaign.config("C22", seed, prof, cases)
    campaign.run(res, "C22", seed, tier, defs=defs, cfg=cfg, mode="proc")


# ---------------------------------------------------------------- C18

ALLOCATOR = "#[global_allocator]\nstatic A: engine::cost::Counting = engine::cost::Counting;\n"
RULE18 = ("every command line counts, by (definition, argv): random, mutated, hostile and raw bytes, run with overflow checks and debug assertions, with misleading size hints, "
          "under AddressSanitizer and under Miri; then command lines grown 16 times over, with allocations, peak memory and time measured on a 1 MiB stack")


ASAN = dict(env=dict(RUSTFLAGS="-Zsanitizer=address"), extra=["--target", "x86_64-unknown-linux-gnu"], toolchain=harness.NIGHTLY)


def c18(res, seed, tier):
    prof = dict(PROFILES["C18"], rule=RULE18)
    thorough = tier == "thorough"
    cfg = campaign.config("C18", seed, prof, 6000 if thorough else 2500)
    defs = campaign.definitions("C18", seed, 700 if thorough else 240, prof["gen"], boundary="all" if thorough else True)
    exes = []
    m = campaign.run(res, "C18", seed, tier, defs=defs, cfg=dict(cfg), prof=prof, after=lambda exe, *_: exes.append(exe))
    if m is None:
        return
    parts = {"debug build: evaluations": m["evaluations"]}
    # AddressSanitizer.
    sub = harness.Result("C18", tier, seed)
    sub.violations = res.violations
    cfg["cases"] = 3000 if thorough else 1200
    some = defs[:400 if thorough else 100]
    asan_env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99")
    m = campaign.run(sub, "C18", seed, tier, defs=some, cfg=dict(cfg, seed=seed + 1), prof=prof, target="asan", dirname="C18asan", build=ASAN, env=asan_env, mem_gb=0)
    if m is None:
        return
    parts["AddressSanitizer: evaluations"] = m["evaluations"]
    parts["AddressSanitizer: distinct lines"] = sub.coverage["distinct_nontrivial"]
    # Growth.
    sub = harness.Result("C18", tier, seed)
    sub.violations = res.violations
    prof2 = dict(prof, knobs=dict(p_calm=0.9, p_mut=0.2, p_hostile=0.1, p_raw=0.05, max_multi=4))
    some = campaign.definitions("C18cost", seed, 400 if thorough else 120, dict(prof["gen"], p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.02), boundary=True)
    m = campaign.run(sub, "C18", seed, tier, defs=some, cfg=campaign.config("C18", seed + 2, prof2, 1000), prof=prof2, dirname="C18cost", mode="cost", main=ALLOCATOR,
                     args=["--seconds", "240" if thorough else "25"], stall_s=120)
    if m is None:
        return
    parts["growth: command lines measured at three sizes"] = m["evaluations"]
    parts["growth: distinct"] = sub.coverage["distinct_nontrivial"]
    parts["growth"] = {k: v for k, v in m["extra"].items() if "percent" not in k and "largest" not in k}
    parts["growth: largest"] = sorted(m["samples"], key=lambda s: -float(s.split(": ", 1)[1].split(" ")[0]))[:4]
    # Miri.
    some = campaign.definitions("C18miri", seed, 60 if thorough else 20, dict(prof["gen"], n_named=(1, 4), n_flat=(0, 1)), boundary=False)
    parts.update(miri(res, seed, exes[0], some, "C18", 100 if thorough else 40, 1200 if thorough else 240))
    res.add(**parts)


def miri(res, seed, exe, defs, prop, cases, timeout):
    """Interprets parses with Miri: undefined behaviour, data races, leaks. `exe` is a native worker of the same definitions."""
    ws = WORK / f"{prop}miri"
    tag = "miri_"
    gen.write_workspace(ws, defs, seed, crates=1, tag=tag)
    cfg = campaign.config(prop, seed + 3, PROFILES[prop], cases)
    cfg["knobs"] = dict(cfg["knobs"], p_long=0.0, max_multi=4)
    (ws / "cfg.json").write_text(json.dumps(cfg))
    subprocess.run([str(exe), "dump", "--ir", str(ws / "ir.json"), "--cfg", str(ws / "cfg.json"), "--out", str(ws / "jobs")], check=True, timeout=100)
    harness.lockfile(ws)
    env = dict(os.environ, CARGO_TARGET_DIR=str(TARGET / "miri"), RUSTUP_TOOLCHAIN=harness.NIGHTLY, CARGO_NET_OFFLINE="true", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-strict-provenance")
    harness.freshen(TARGET / "miri")
    t0 = time.time()
    ps = []
    for i in range(CORES):
        (ws / f"out{i}").unlink(missing_ok=True)
        ps.append(subprocess.Popen(["cargo", "miri", "run", "-q", "-p", tag + "worker", "--", "jobs", "--jobs", str(ws / "jobs"), "--shard", f"{i}/{CORES}", "--cur", str(ws / f"cur{i}"),
                                    "--out", str(ws / f"out{i}")], cwd=ws, env=dict(env, MIRIFLAGS=env["MIRIFLAGS"] + f" -Zmiri-seed={seed + i}"), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL, stderr=open(ws / f"err{i}", "wb")))
    jobs = parses = unfinished = 0
    for i, p in enumerate(ps):
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            unfinished += 1
            continue
        err = (ws / f"err{i}").read_text(errors="replace")
        cur = (ws / f"cur{i}").read_text() if (ws / f"cur{i}").exists() else ""
        d = int(cur.split(" ")[0]) if cur else None
        data = dict(kind="miri", def_id=d, definition=dict(defs)[d], source=harness.source_of(dict(defs)[d], d, seed), job=cur, stderr=err[-4000:]) if cur else dict(kind="miri", stderr=err[-4000:])
        if p.returncode == 0 and (ws / f"out{i}").exists():
            a, b, differ = map(int, (ws / f"out{i}").read_text().split())
            jobs += a
            parses += b
            if differ:
                res.violation(f"under Miri, {differ} concurrent parses differ from the first", **data)
        elif "Undefined Behavior" in err or "panicked" in err or "memory leaked" in err or "Data race" in err:
            res.violation("under Miri: " + "\n".join(l for l in err.split("\n") if "error" in l or "panicked" in l or "-->" in l)[:1200], **data)
        else:
            res.assumptions.append("Miri could not be run here: " + err[-300:])
            break
    harness.log(f"{prop}: Miri took {time.time() - t0:.0f} s")
    out = {"Miri: command lines": jobs, "Miri: parses": parses}
    if unfinished:
        out["Miri: shards stopped by the time limit"] = unfinished
    return out


# ---------------------------------------------------------------- C19

MEMORY_CALLS = {"brk", "mmap", "munmap", "mremap", "madvise", "mprotect", "futex", "sched_yield", "getrandom", "rt_sigreturn", "restart_syscall"}


def surroundings(exe, ws, cfg_file, name, tty=None, env=None, cwd=None, order=0):
    """Runs all shards in `log` mode in the given surroundings. Returns the log lines."""
    d = ws / f"out-{name}"
    d.mkdir(exist_ok=True)
    e = dict(os.environ)
    if env is not None:
        e = dict(env)
    ps, fds = [], []
    for i in range(CORES):
        (d / f"log{i}").unlink(missing_ok=True)
        io = dict(stdin=subprocess.DEVNULL, stdout=open(d / f"stdout{i}", "wb"), stderr=open(d / f"stderr{i}", "wb"))
        if tty:
            m, s = pty.openpty()
            fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 24, tty, 0, 0))
            fds += [m, s]
            io = dict(stdin=s, stdout=s, stderr=s, start_new_session=True)
        ps.append(subprocess.Popen([str(exe), "log", "--ir", str(ws / "ir.json"), "--cfg", str(cfg_file), "--shard", f"{i}/{CORES}", "--cur", str(d / f"cur{i}"),
                                    "--out", str(d / f"log{i}"), "--order", str(order)], env=e, cwd=cwd, **io))
    printed = b""
    for i, p in enumerate(ps):
        if p.wait(timeout=300):
            raise CheckError(f"worker failed in surroundings {name}: {p.returncode}")
        if tty:
            os.set_blocking(fds[2 * i], False)
            try:
                printed += os.read(fds[2 * i], 4096)
            except OSError:
                pass
        else:
            printed += (d / f"stdout{i}").read_bytes() + (d / f"stderr{i}").read_bytes()
    for f in fds:
        os.close(f)
    lines = []
    for i in range(CORES):
        ls = (d / f"log{i}").read_text(errors="replace").split("\n")
        lines += sorted((l for l in ls if l), key=lambda l: [int(x) for x in l.split("\t", 2)[:2]])
    shutil.rmtree(d)
    return lines, printed


def c19(res, seed, tier):
    prof = PROFILES["C19"]
    n, cases, ms = (500, 400, 60000) if tier == "thorough" else (240, 120, 6000)
    defs = campaign.definitions("C19", seed, n, prof["gen"])
    by = dict(defs)
    cfg = campaign.config("C19", seed, prof, cases)
    cfg["label_cases"] = {k: 40 for k in cfg["label_cases"]}

    def after(exe, ws, defs, cfg):
        # Nothing was printed by any worker.
        for i in range(CORES):
            for f in ("stdout", "err"):
                t = (ws / "out" / f"{f}{i}").read_bytes()
                if t:
                    res.violation(f"parsing printed {t[:300]!r} to {'standard output' if f == 'stdout' else 'standard error'}", kind="output")
        cfg_file = ws / "out/cfg.json"
        # Other processes, terminals, environments, directories.
        base, printed = surroundings(exe, ws, cfg_file, "base")
        ways = [("another order", dict(order=1)), ("yet another order", dict(order=2)), ("terminal of 37 columns", dict(tty=37, env=dict(TERM="xterm-256color", COLUMNS="37", LANG="C.UTF-8"), cwd="/")),
                ("terminal of 200 columns", dict(tty=200, order=3)), ("no environment", dict(env={}, cwd="/proc"))]
        # Names the parser asks the environment for.
        so = ws / "getenv.so"
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", str(so), str(harness.VERIF / "lib/getenv.c"), "-ldl"], capture_output=True, text=True)
        asked = None
        if r.returncode == 0:
            envlog = ws / "envlog"
            envlog.unlink(missing_ok=True)
            subprocess.run([str(exe), "quiet", "--ir", str(ws / "ir.json"), "--cfg", str(cfg_file), "--shard", "0/4", "--out", str(ws / "quiet.out")],
                           env=dict(os.environ, LD_PRELOAD=str(so), PALC_MONITOR_ENVLOG=str(envlog)), check=True, stdout=subprocess.DEVNULL, timeout=300)
            names = envlog.read_text(errors="replace").split("\n") if envlog.exists() else []
            if "<end>" not in names:
                raise CheckError("the getenv monitor saw no markers")
            asked = sorted({x for x in names if x and x != "<end>"})
            for v in ("1", "", "40", "never") if asked else ():
                ways.append((f"with {', '.join(asked)} set to {v!r}", dict(env=dict(os.environ, **{a: v for a in asked}))))
        compared = 0
        for name, kw in ways:
            lines, p = surroundings(exe, ws, cfg_file, "other", **kw)
            printed += p
            compared += len(lines)
            for a, b in zip(base, lines):
                if a != b:
                    d, case = a.split("\t")[:2]
                    res.violation(f"the outcome depends on the surroundings ({name}): definition {d} case {case}: {a[:500]} became {b[:500]}", kind="surroundings", def_id=int(d),
                                  definition=by[int(d)], source=harness.source_of(by[int(d)], int(d), seed))
                    break
        if printed:
            res.violation(f"parsing printed {printed[:300]!r}", kind="output")
        res.add(outcomes_compared_across_processes_and_surroundings=compared, surroundings=[n for n, _ in ways], environment_variables_asked_for=asked if asked is not None else "not monitored")
        # Data races and the like, as far as an interpreter sees them.
        some = campaign.definitions("C19miri", seed, 60 if tier == "thorough" else 16, dict(prof["gen"], n_named=(1, 4), n_flat=(0, 1)), boundary=False)
        res.add(**miri(res, seed, exe, some, "C19", 100 if tier == "thorough" else 24, 1200 if tier == "thorough" else 240))
        # System calls.
        trace = ws / "strace.out"
        trace.unlink(missing_ok=True)
        r = subprocess.run(["strace", "-f", "-qq", "-o", str(trace), str(exe), "quiet", "--ir", str(ws / "ir.json"), "--cfg", str(cfg_file), "--shard", "1/4", "--out", str(ws / "quiet.out")],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=300)
        lines = trace.read_text(errors="replace").split("\n") if trace.exists() else []
        at = [i for i, l in enumerate(lines) if "/palc-monitor-" in l]
        if r.returncode or len(at) < 2:
            res.assumptions.append(f"system calls could not be traced here: {r.stderr[-200:]}")
            return
        seen = {}
        for l in lines[at[0] + 1:at[-1]]:
            m = re.match(r"\d+ +(?:<\.\.\. )?(\w+)", l)
            if m:
                seen.setdefault(m[1], l)
        parses = int((ws / "quiet.out").read_text().split()[0])
        res.add(parses_under_system_call_trace=parses, system_calls_seen=sorted(seen))
        for c, l in seen.items():
            if c not in MEMORY_CALLS:
                res.violation(f"parsing makes the system call {l[:300]}", kind="syscall")

    campaign.run(res, "C19", seed, tier, defs=defs, cfg=cfg, mode="pure", args=["--ms", str(ms)], after=after)


SPECIAL = {"C18": c18, "C19": c19, "C21": c21, "C22": c22}
