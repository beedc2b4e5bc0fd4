"""C20: the derive macros run inside real compilers on generated programs.

Monitored: what every compilation reports, and where. A supported definition must compile without
any error or lint, in whatever surroundings; a broken one must be refused by a diagnostic inside it
and the macro must not panic.
"""
import collections
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import subprocess

import campaign
import defs20
import gen
import hand
import harness
from harness import CORES, NIGHTLY, TARGET, TOOLCHAIN, WORK, CheckError
from profiles import PROFILES

TOOLCHAINS = {"t20a": TOOLCHAIN, "t20b": "stable", "t20c": NIGHTLY}
EDITIONS = ["2018", "2021", "2024"]
RULE = ("an evaluation is one definition compiled in one kind of surroundings by one compiler; distinct by source text; all of them carry at least one field or variant or exercise the empty definition. "
        "Broken definitions are generated ones with one documented rule broken at a random place")


class Palc:
    """palc built by one toolchain."""

    def __init__(self, target, toolchain):
        self.target, self.toolchain = TARGET / target, toolchain
        self.ws = WORK / target
        gen.write(self.ws / "Cargo.toml", '[package]\nname = "base20"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\npalc = { path = "/repo" }\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n')
        gen.write(self.ws / "src/lib.rs", "")
        harness.lockfile(self.ws)
        r = harness.cargo(["build", "--message-format=json"], self.ws, self.target, toolchain)
        if r.returncode:
            raise CheckError("palc itself does not build:\n" + r.stderr[-3000:])
        self.rlib, dirs = None, []
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                dirs += [str(pathlib.Path(f).parent) for f in m.get("filenames", [])]
                if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "palc":
                    self.rlib = next(f for f in m["filenames"] if f.endswith(".rlib"))
                    self.files = m["filenames"]
        if not self.rlib:
            raise CheckError("cargo reported no palc library")
        # Where what palc itself depends on lies: in `deps`, or in a folder for each (newer cargo).
        dirs += [str(pathlib.Path(f).parent / "deps") for f in self.files]
        self.deps = [x for d in dict.fromkeys(dirs) if os.path.isdir(d) for x in ("-L", f"dependency={d}")]

    def compile(self, modules, dir, name, edition, lints):
        """`modules`: [(id, text)]. Returns ({id: [(level, rendered)]}, [unattributed])."""
        dir.mkdir(parents=True, exist_ok=True)
        src = dir / f"{name}.rs"
        head = "#![crate_type = \"lib\"]\n" + defs20.CRATE
        known = self.known_lints()
        for l in lints:
            if l in known:
                head += f"#![deny({l})]\n"
        text = head + defs20.SUPPORT
        owner = [None] * text.count("\n")
        for id, m in modules:
            text += m
            owner += [id] * m.count("\n")
        src.write_text(text)
        env = dict(os.environ, RUSTUP_TOOLCHAIN=self.toolchain, CARGO_PKG_DESCRIPTION="The description.", CARGO_PKG_NAME="p", CARGO_PKG_VERSION="1.0.0")
        try:
            r = subprocess.run(["rustc", "--edition", edition, "--emit=metadata", "--error-format=json", "--out-dir", str(dir), "--crate-name", name, *(x for f in self.files for x in ("--extern", f"palc={f}")),
                                *self.deps, str(src)], env=env, capture_output=True, text=True, timeout=300, cwd=dir)
        except subprocess.TimeoutExpired:
            return {}, ["the compiler did not finish within 300 s"]
        (dir / f"lib{name}.rmeta").unlink(missing_ok=True)
        found, loose = collections.defaultdict(list), []

        def chain(sp):
            while sp:
                yield sp
                sp = (sp.get("expansion") or {}).get("span")

        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                if l.strip():
                    loose.append(l)
                continue
            m = json.loads(l)
            if m.get("$message_type", "diagnostic") != "diagnostic" or m["level"] not in ("error", "warning", "error: internal compiler error"):
                continue
            ids = []
            for sp in sorted(m["spans"], key=lambda s: not s["is_primary"]):
                for s in chain(sp):
                    if s["file_name"] == str(src) and s["line_start"] <= len(owner) and owner[s["line_start"] - 1] is not None:
                        ids.append(owner[s["line_start"] - 1])
            for c in m["children"]:
                for sp in c["spans"]:
                    for s in chain(sp):
                        if s["file_name"] == str(src) and s["line_start"] <= len(owner) and owner[s["line_start"] - 1] is not None:
                            ids.append(owner[s["line_start"] - 1])
            if ids:
                found[ids[0]].append((m["level"], m["message"], m["rendered"]))
            elif not m["message"].startswith(("aborting due to", "For more information", "Some errors have", "could not compile")) and "warning emitted" not in m["message"] and "warnings emitted" not in m["message"]:
                loose.append(m["rendered"])
        if r.returncode not in (0, 1):
            loose.append(f"rustc ended with status {r.returncode}")
        if r.returncode == 0 and any(lv.startswith("error") for x in found.values() for lv, _, _ in x):
            raise CheckError("rustc reported errors and success")
        return dict(found), loose

    def known_lints(self):
        if not hasattr(self, "_lints"):
            r = subprocess.run(["rustc", "-Whelp"], env=dict(os.environ, RUSTUP_TOOLCHAIN=self.toolchain), capture_output=True, text=True)
            self._lints = {w.replace("-", "_") for l in r.stdout.splitlines() for w in l.split()[:1]} | {"warnings"}
        return self._lints

    def settle(self, modules, dir, name, edition, lints=()):
        """Compiles, sets aside what is reported, and compiles the rest, until nothing more is reported: errors of an earlier phase hide those of later ones."""
        out, rounds, loose_all = {}, 0, []
        rest = list(modules)
        while rest:
            rounds += 1
            found, loose = self.compile(rest, dir, name, edition, lints)
            if not found and loose and len(rest) > 1:
                # Nothing says which: divide.
                h = len(rest) // 2
                for part in (rest[:h], rest[h:]):
                    o, n, lo = self.settle(part, dir, name, edition, lints)
                    out.update(o)
                    rounds += n
                    loose_all += lo
                break
            if not found and loose:
                out[rest[0][0]] = [("error", "not a diagnostic of the definition", "\n".join(loose))]
                break
            if not found:
                break
            out.update(found)
            rest = [(i, m) for i, m in rest if i not in found]
        return out, rounds, loose_all


def broken(seed, n, prof):
    """[(id, mutation, definition)]"""
    out = []
    for k in range(n):
        rng = gen.Rng(f"{seed}/C20/mutant/{k}")
        d = gen.DefGen(rng, dict(prof, n_named=(1, 4), n_pos=(1, 2)) if rng.p(0.7) else prof, "broken").make()
        name, d2 = defs20.mutant(d, rng)
        out.append((k, name, d2))
    return out


def panicked(found):
    return next((x for x in found if ("panicked" in x[1] and not x[1].startswith("evaluation")) or "internal compiler error" in x[0] + x[1]), None)


def replay(prop, path, r):
    """Compiles a recorded definition again, alone."""
    palc = Palc(*next(kv for kv in TOOLCHAINS.items() if kv[1] == r["toolchain"]))
    found, rounds, loose = palc.settle([(0, r["source"])], WORK / "C20replay", "replay", r["edition"], defs20.LINTS if r["expect"] == "accepted" else [])
    ds = found.get(0, [])
    for x in ds:
        print(x[2])
    bad = bool(ds) if r["expect"] == "accepted" else panicked(ds) or not any(x[0].startswith("error") for x in ds)
    print(f"VIOLATION property={prop} replay={path}" if bad else "the definition is now " + r["expect"])
    return 1 if bad else 0


def c20(res, seed, tier):
    prof = PROFILES["C20"]["gen"]
    thorough = tier == "thorough"
    n_valid, n_broken = (1500, 6000) if thorough else (260, 900)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        palcs = list(ex.map(lambda kv: Palc(*kv), TOOLCHAINS.items()))
    dir = WORK / "C20"
    shutil.rmtree(dir, ignore_errors=True)
    defs = campaign.definitions("C20", seed, n_valid, prof, boundary=False)
    defs += [(10000 + i, d) for i, d in enumerate(hand.boundary("c20") if thorough else hand.boundary_few(seed)) if "huge" not in d["label"]]
    # With few kinds and types, so that what a definition does not mention can be the user's.
    for k in range(300 if thorough else 60):
        r = gen.Rng(f"{seed}/C20/narrow/{k}")
        kinds = {x: 1 for x in r.sample(sorted(gen.PROFILE["kinds"]), r.randint(1, 2))}
        types = {x: 1 for x in r.sample(sorted(gen.TYPES), r.randint(1, 2))}
        defs.append((5000 + k, gen.DefGen(r, dict(prof, kinds=kinds, types=types, p_multi_pos=0.2, p_sub_opt=r.pick([0, 1]), p_pos=0.3), "narrow").make()))
    rng = gen.Rng(f"{seed}/C20/grown")
    defs = [(i, defs20.grown(d, rng) if i < 10000 and rng.p(0.1) else d) for i, d in defs]
    jobs = []  # (kind, palc, edition, lints, [(id, text)])
    rng = gen.Rng(f"{seed}/C20/jobs")
    texts = set()
    shadowed = collections.Counter()
    which = {}

    def split(mods, size):
        return [mods[i:i + size] for i in range(0, len(mods), size)]

    n = 0
    for kind in ["plain", *defs20.KINDS]:
        mods = []
        for id, d in defs:
            if kind != "plain" and id >= 10000 and rng.p(0.5):
                continue
            t = defs20.module(id, d, seed, kind)
            texts.add(t.replace(f"mod d{id} ", "mod d "))
            if kind == "shadow":
                shadowed.update(x for x in set(re.findall(r"pub (?:struct|type|trait|fn|mod) (\w+)|macro_rules! (\w+)", t)) for x in x if x)
            mods.append((id, t))
            which[kind, id] = d
        for k, part in enumerate(split(mods, 40)):
            for p in range(3) if thorough else [k % 3]:
                # Before 2021, the standard assert! itself uses whatever panic! is in scope.
                edition = EDITIONS[1 + (k + p) % 2] if kind == "shadow" else EDITIONS[(k + p + len(kind)) % 3]
                jobs.append((kind, palcs[p], edition, defs20.LINTS, part))
                n += len(part)
    bad = broken(seed, n_broken, prof)
    mods = [(k, defs20.module(k, d, seed, "plain")) for k, _, d in bad]
    for k, t in mods:
        texts.add(t.replace(f"mod d{k} ", "mod d "))
    for k, part in enumerate(split(mods, 50)):
        for p in range(3) if thorough else [k % 3]:
            jobs.append(("broken", palcs[p], EDITIONS[k % 3], [], part))
            n += len(part)

    def work(job):
        i, (kind, palc, edition, lints, mods) = job
        return palc.settle(mods, dir / f"j{i}", f"j{i}", edition, lints)

    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(work, enumerate(jobs)))
    rounds = 0
    per_kind, per_mut, messages, per_tool = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    names = {k: name for k, name, _ in bad}
    bdefs = {k: d for k, _, d in bad}
    for (kind, palc, edition, lints, mods), (found, r, loose) in zip(jobs, results):
        rounds += r
        where = f"{palc.toolchain}, edition {edition}"
        per_tool[where] += len(mods)
        for id, text in mods:
            ds = found.get(id, [])
            panic = panicked(ds)
            rec = dict(kind="source", source=text, toolchain=palc.toolchain, edition=edition, surroundings=kind)
            if kind == "broken":
                per_mut[names[id]] += 1
                errors = [x for x in ds if x[0].startswith("error")]
                for x in errors[:1]:
                    messages[x[1][:70]] += 1
                if panic:
                    res.violation(f"the macro panics on an unsupported definition ({names[id]}; {where}): {panic[2][:600]}\n{text[:1500]}", definition=bdefs[id], expect="rejected", **rec)
                elif not errors:
                    res.violation(f"an unsupported definition is accepted ({names[id]}; {where}):\n{text[:2500]}", definition=bdefs[id], expect="rejected", **rec)
            else:
                per_kind[kind] += 1
                if ds:
                    res.violation(f"a supported definition does not compile cleanly ({kind}; {where}): {ds[0][2][:900]}\n{text[:1500]}", definition=which[kind, id], expect="accepted",
                                  diagnostics=[x[2] for x in ds[:5]], **rec)
    shutil.rmtree(dir, ignore_errors=True)
    res.add(evaluations=n, distinct_nontrivial=len(texts), rule=RULE, compilations=rounds, supported_definitions_compiled_by_surroundings=dict(per_kind),
            broken_definitions_by_rule=dict(sorted(per_mut.items())), kinds_of_first_diagnostic=len(messages), by_compiler=dict(per_tool),
            definitions_with_the_user_s_own={k: shadowed[k] for kind in defs20.SHADOW.values() for k in kind.split() if not k.endswith("_")},
            samples=[f"{k} x{v}" for k, v in messages.most_common(12)])
    if len(per_mut) < 35 or len(messages) < 30:
        raise CheckError("too few rules were broken")
