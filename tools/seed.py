"""Confirms a planted bug in a scratch copy and keeps it under /verif/seeded.

seed.make(id, property, edits=[(file, old, new)], demo=rust source of main.rs, needs=..., breaks=...)
seed.confirm(id): the existing tests pass with it; the demonstration fails with it and passes without.
seed.py check ID [PROP..]: applies the patch to /repo, runs the checks, undoes it."""
import json
import os
import pathlib
import shutil
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parent.parent
SEEDED = V / "seeded"
SCRATCH = pathlib.Path("/tmp/seedrepo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.96.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO = """#!/bin/bash
# Builds main.rs against the palc in the current directory and runs it: it exits 0 when the property holds.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
description = "a demonstration"
[dependencies]
palc = { path = "$repo"@FEATURES@ }
[workspace]
END
cd "$dir"
export RUSTUP_TOOLCHAIN=1.96.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target"
cargo build -q --offline
@RUN@
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", env=ENV, **kw)


def scratch():
    if not SCRATCH.exists():
        subprocess.run(["cp", "-a", "/repo", str(SCRATCH)], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SCRATCH)


def make(id, prop, edits, demo, needs, breaks, features="", run="timeout 60 ./target/debug/demo"):
    scratch()
    for f, old, new in edits:
        p = SCRATCH / f
        t = p.read_text()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        p.write_text(t.replace(old, new))
    d = SEEDED / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh("git diff", SCRATCH).stdout)
    (d / "main.rs").write_text(demo.lstrip("\n"))
    (d / "demo.sh").write_text(DEMO.replace("@FEATURES@", features).replace("@RUN@", run.replace("./target", "\"$CARGO_TARGET_DIR\"")))
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
    ok = confirm(id)
    if not ok:
        shutil.rmtree(d)
    return ok


def confirm(id):
    d = SEEDED / id
    scratch()
    demo = lambda: sh(f"bash {d}/demo.sh", SCRATCH, timeout=280)
    r = demo()
    if r.returncode:
        print(id, "demo fails without the change:", (r.stdout + r.stderr)[-1500:])
        return False
    r = sh(f"git apply {d}/patch.diff", SCRATCH)
    if r.returncode:
        print(id, "patch does not apply:", r.stderr)
        return False
    r = demo()
    if r.returncode == 0:
        print(id, "demo passes with the change")
        return False
    how = (r.stdout + r.stderr).strip()[-200:]
    for args in ["--workspace --all-features", "-p palc --no-default-features --lib --tests"]:
        r = sh(f"cargo test {args} --no-fail-fast --offline -- --include-ignored" if "work" in args else f"cargo test {args} --no-fail-fast --offline", SCRATCH, timeout=900)
        if r.returncode:
            bad = [l for l in (r.stdout + r.stderr).split("\n") if "FAILED" in l or "mismatch" in l or l.startswith("error")]
            print(id, "existing tests fail:", bad[:6])
            return False
    print(id, "OK:", how.replace("\n", " | "))
    return True


def check(id, props, tier="quick"):
    """Applies the change to /repo, runs the checks, undoes it."""
    d = SEEDED / id
    prop = json.loads((d / "meta.json").read_text())["property"]
    assert not sh("git status --short", "/repo").stdout.strip(), "/repo is not clean"
    r = sh(f"git apply {d}/patch.diff", "/repo")
    assert r.returncode == 0, r.stderr
    try:
        for p in props or [prop]:
            r = subprocess.run([sys.executable, "check.py", p, "--tier", tier], cwd=V, capture_output=True, text=True, errors="replace")
            lines = [l[:300] for l in r.stdout.split("\n") if l.strip()]
            print(f"{id} [{prop}] {p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout else 'missed'}", flush=True)
            print("   ", "\n    ".join(lines[:4]) if r.returncode != 2 else r.stdout[-800:] + r.stderr[-800:], flush=True)
    finally:
        sh("git checkout -- .", "/repo")


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir()):
            confirm(i)
    elif sys.argv[1] == "check":
        check(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "all":
        for i in sorted(p.name for p in SEEDED.iterdir()):
            check(i, sys.argv[2:])
