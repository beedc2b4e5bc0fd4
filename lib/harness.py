"""Building generated definitions against the current /repo and running the monitored workers."""
import hashlib
import json
import os
import pathlib
import resource
import shutil
import subprocess
import sys
import time

import gen

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("PALC_REPO", "/repo"))
WORK = VERIF / "work"
TARGET = VERIF / "target"
REPLAYS = VERIF / "replays"
TOOLCHAIN = "1.96.0"
NIGHTLY = "nightly"
CORES = os.cpu_count() or 8


class CheckError(Exception):
    """The check could not be carried out."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    files = []
    for top in ["src", "derive", "Cargo.toml", "README.md"]:
        p = REPO / top
        files += [p] if p.is_file() else [f for f in p.rglob("*") if f.is_file() and "target" not in f.relative_to(p).parts[:1]]
    for f in sorted(files):
        h.update(str(f.relative_to(REPO)).encode() + b"\0")
        h.update(hashlib.sha256(f.read_bytes()).digest())
    return h.hexdigest()


def freshen(target):
    """Make cargo rebuild palc if its sources differ from those built into `target`, whatever
    the file times say."""
    now = repo_hash()
    stamp = target / "palc.hash"
    old = stamp.read_text() if stamp.exists() else ""
    if old != now:
        for d in target.glob("**/.fingerprint"):
            for f in d.glob("palc*"):
                shutil.rmtree(f)
        target.mkdir(parents=True, exist_ok=True)
        stamp.write_text(now)


def cargo(args, cwd, target, toolchain=TOOLCHAIN, env=None, timeout=800):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=str(target), RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ["RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"]:
        e.pop(k, None)
    e.update(env or {})
    freshen(target)
    return subprocess.run(["cargo", *args, *([] if "--" in args else ["--offline"])], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def lockfile(ws):
    """The committed lock file pins every dependency of the harness."""
    src = VERIF / "lib" / "Cargo.lock.base"
    if src.exists() and not (ws / "Cargo.lock").exists():
        shutil.copy(src, ws / "Cargo.lock")


def palc_builds(ws, target, toolchain=TOOLCHAIN, extra=(), env=None):
    r = cargo(["build", "-p", "palc", *extra], ws, target, toolchain, env)
    return r.returncode == 0, r.stderr


def build(ws, target, package, toolchain=TOOLCHAIN, extra=(), env=None, crates=None):
    """Builds the worker. Returns (binary or None, {definition id: compiler message}).
    `crates`, if given, receives {definition id: crates in which it is refused}."""
    lockfile(ws)
    r = cargo(["build", "--keep-going", "-p", package, "--message-format=json", *extra], ws, target, toolchain, env)
    if r.returncode == 0:
        exe = None
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-artifact" and m.get("executable"):
                    exe = m["executable"]
        if not exe:
            raise CheckError("cargo reported no executable")
        return pathlib.Path(exe), {}
    ok, err = palc_builds(ws, target, toolchain, extra, env)
    if not ok:
        raise CheckError("palc itself does not build:\n" + err[-3000:])
    bad = {}
    lines_of = {}
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        for sp in m["message"]["spans"] or []:
            f = (ws / sp["file_name"]) if not sp["file_name"].startswith("/") else pathlib.Path(sp["file_name"])
            if not f.exists() or ws not in f.parents:
                continue
            if f not in lines_of:
                mods, cur = [], None
                for line in f.read_text().split("\n"):
                    if line.startswith("pub mod d"):
                        cur = int(line[len("pub mod d"):].split(" ")[0])
                    mods.append(cur)
                    if line == "}":
                        cur = None
                lines_of[f] = mods
            ms = lines_of[f]
            i = sp["line_start"] - 1
            if i < len(ms) and ms[i] is not None:
                bad.setdefault(ms[i], m["message"]["rendered"])
                if crates is not None:
                    crates.setdefault(ms[i], set()).add(f.parent.parent.name)
                break
    if not bad:
        raise CheckError("the generated definitions do not build:\n" + (r.stderr + r.stdout)[-3000:])
    return None, bad


def _limits(mem_gb, cpu_s):
    def f():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
    return f


def run_one(exe, ir, cfg, def_id, case=None, argv_hex=None, predict_only=False, timeout=40, mem_gb=4, env=None):
    """Returns (status, stdout, stderr); status is an exit code or 'hang'."""
    cmd = [str(exe), "one", "--ir", str(ir), "--cfg", str(cfg), "--def", str(def_id)]
    cmd += ["--case", str(case)] if argv_hex is None else ["--argv", ",".join("." + h for h in argv_hex)]
    if predict_only:
        cmd += ["--predict-only", "x"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=_limits(mem_gb, timeout), env=env)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")


class Shard:
    def __init__(self, exe, dir, ir, cfg, i, n, mode, env, mem_gb, args=()):
        self.a = (exe, dir, ir, cfg, i, n, mode, env, mem_gb)
        self.args = list(args)
        self.skip = []
        self.cur = dir / f"cur{i}"
        self.out = dir / f"out{i}.json"
        self.err = dir / f"err{i}"
        self.start()

    def start(self):
        exe, dir, ir, cfg, i, n, mode, env, mem_gb = self.a
        self.out.unlink(missing_ok=True)
        self.p = subprocess.Popen(
            [str(exe), mode, "--ir", str(ir), "--cfg", str(cfg), "--shard", f"{i}/{n}", "--cur", str(self.cur), "--out", str(self.out),
             "--skip", ",".join(map(str, self.skip)), *self.args],
            stdout=open(dir / f"stdout{i}", "wb"), stderr=open(self.err, "wb"), preexec_fn=_limits(mem_gb, 0), env=env)
        self.last = (None, time.time())

    def where(self):
        try:
            b = self.cur.read_bytes()
            return int.from_bytes(b[:4], "little"), int.from_bytes(b[4:12], "little")
        except OSError:
            return None


def run_workers(exe, dir, ir, cfg_obj, shards=CORES, mode="run", env=None, mem_gb=12, stall_s=60, max_crashes=3, deadline_s=600, args=()):
    """Runs all shards. Returns (reports, crashes): a crash is a case on which the real code did not
    return (panic, abort, signal, hang), confirmed by running it alone."""
    dir.mkdir(parents=True, exist_ok=True)
    cfg = dir / "cfg.json"
    cfg.write_text(json.dumps(cfg_obj))
    t0 = time.time()
    ss = [Shard(exe, dir, ir, cfg, i, shards, mode, env, mem_gb, args) for i in range(shards)]
    crashes, done = [], []

    def confirm(s, kind):
        w = s.where()
        if w is None:
            raise CheckError(f"worker died early ({kind}): {s.err.read_text(errors='replace')[-2000:]}")
        st, out, err = run_one(exe, ir, cfg, w[0], case=w[1], mem_gb=mem_gb, env=env)
        if st == 0:
            # Only within the run: a monitor (permutation, prefix, endless source, ...) met it.
            err = s.err.read_text(errors="replace")
            if kind == "stall" or "killed" in kind:
                return False
        hexes = next((l[8:] for l in out.split("\n") if l.startswith("ARGVHEX ")), "")
        crashes.append(dict(def_id=w[0], case=w[1], status=str(st), kind=kind, stdout=out[-3000:], stderr=(err or "")[-3000:],
                            argv_hex=[h.lstrip(".") for h in hexes.split(",")] if hexes else []))
        s.skip.append(w[0])
        return True

    live = list(ss)
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s.p.poll()
            if rc is None:
                w = s.where()
                if w != s.last[0]:
                    s.last = (w, time.time())
                elif time.time() - s.last[1] > stall_s:
                    if confirm(s, "stall"):
                        s.p.kill()
                        s.p.wait()
                        if len(crashes) < max_crashes:
                            s.start()
                        else:
                            live.remove(s)
                    else:
                        s.last = (w, time.time() + stall_s)
                if time.time() - t0 > deadline_s:
                    for x in live:
                        x.p.kill()
                    if crashes:
                        return [], crashes
                    raise CheckError("workers did not finish in time")
                continue
            if rc == 0:
                done.append(s)
                live.remove(s)
                continue
            kind = f"exit {rc}" if rc != -9 else "killed"
            if not confirm(s, kind):
                if getattr(s, "retried", False):
                    raise CheckError("worker was killed")
                s.retried = True
                s.start()
                continue
            if len(crashes) < max_crashes:
                s.start()
            else:
                live.remove(s)
                for x in live:
                    x.p.kill()
                    x.p.wait()
                live = []
                break
    reports = []
    for s in done:
        if s.out.exists() and mode != "log":
            reports.append(json.loads(s.out.read_text()))
    return reports, crashes


def distinct(exe, dir, n=CORES):
    fs = [str(f) for f in sorted(dir.glob("out*.json.hashes"))]
    r = subprocess.run([str(exe), "merge", *fs], capture_output=True, text=True, check=True)
    return int(r.stdout)


def merge(reports):
    out = dict(evaluations=0, parses=0, accepted=0, rejected=0, values=0, tokens=0, max_depth=0, feats={}, classes={}, extra={}, samples=[], divergences=[], foreign=0)
    for r in reports:
        for k in ["evaluations", "parses", "accepted", "rejected", "values", "tokens", "foreign"]:
            out[k] += r[k]
        out["max_depth"] = max(out["max_depth"], r["max_depth"])
        for k in ["feats", "classes", "extra"]:
            for a, b in r[k].items():
                out[k][a] = out[k].get(a, 0) + b
        out["samples"] += r["samples"]
        out["divergences"] += r["divergences"]
    return out


# ---------------------------------------------------------------- results


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.coverage = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
        self.assumptions = []
        self.level = "exploration"

    def violation(self, what, **data):
        REPLAYS.mkdir(exist_ok=True)
        n = len(self.violations) + 1
        path = REPLAYS / f"{self.prop}-{n}.json"
        path.write_text(json.dumps(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, **data), indent=1, ensure_ascii=False, default=str))
        self.violations.append((what, path))

    def add(self, **kw):
        c = self.coverage
        for k, v in kw.items():
            if isinstance(v, bool) or k not in c or not isinstance(v, (int, float)):
                c[k] = v
            else:
                c[k] += v

    def finish(self):
        known = known_findings(self.prop)
        rest = []
        for what, path in self.violations:
            k = next((k for k in known if k[0] in what), None)
            if k:
                continue
            rest.append((what, path))
        for key, desc in known:
            print(f"KNOWN-FINDING: property={self.prop} {desc}")
        c = self.coverage
        c["samples"] = [str(s)[:600] for s in c["samples"][:12]]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=c, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(rest))
        text = json.dumps(ev, indent=1, ensure_ascii=False)
        if len(text.encode()) > 60000:
            c["samples"] = c["samples"][:3]
            text = json.dumps(ev, indent=1, ensure_ascii=False)
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(text)
        for what, path in rest[:10]:
            print(f"VIOLATION property={self.prop} replay={path}")
            print("  " + what.replace("\n", "\n  ")[:1500])
        n, d = c.get("evaluations", 0), c.get("distinct_nontrivial", 0)
        print(f"{self.prop}: {n} evaluations, {d} distinct non-trivial, {len(rest)} violations, {ev['wall_s']} s")
        return 1 if rest else 0


def known_findings(prop):
    """Lines `finding: property=<id> match=<text of the violation> | <description>`."""
    out = []
    f = VERIF / "known-findings.txt"
    for l in f.read_text().splitlines() if f.exists() else []:
        if l.startswith(f"finding: property={prop} "):
            m, desc = l.split("match=", 1)[1].split(" | ", 1)
            out.append((m, desc))
    return out


def source_of(d, id, seed):
    return gen.emit_def(d, id, seed)[1]
