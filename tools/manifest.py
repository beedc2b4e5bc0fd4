#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
MODEL = "runtime monitoring of generated programs against an online reference interpreter (differential oracle)"
MODEL_NOTE = ("Real derived parsers, compiled from randomly generated and handcrafted definitions against the current /repo, are run on definition-driven, "
              "mutated and hostile command lines; an independent interpreter decides every outcome. Exploration: it holds on what was run; trusts the interpreter, rustc and the generator.")
T = {}
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C25 C27".split():
    T[p] = (MODEL, MODEL_NOTE)
T["C23"] = ("runtime monitoring: instrumented argument sources (read log, endless sources, suffix variation) with a reference interpreter",
            "Every argument source records its reads; rejected lines are re-run with other suffixes and endless sources. Exploration over generated definitions and lines.")
T["C26"] = ("runtime monitoring: metamorphic online checker over permuted command lines and twin definitions",
            "Each line is re-run under permutations which keep its meaning and on a definition with reordered fields; outcomes must coincide. Exploration.")
T["C18"] = ("runtime monitoring: AddressSanitizer, Miri, overflow checks, crash and hang detection, allocation and time growth monitors under hostile and growing command lines",
            "Real parsers run hostile, raw and huge lines under sanitizers; growth of time, allocations and peak memory is measured at sizes n, 4n, 16n on a small stack. Exploration.")
T["C19"] = ("runtime monitoring: recorded outcomes compared over shuffled histories, nested parses, threads, environments, terminals and processes; system-call, getenv and output monitors; Miri data-race detection",
            "Every later parse of a line must equal its first recorded outcome; between parses only memory system calls may occur. Exploration of sampled schedules and surroundings.")
T["C21"] = ("runtime monitoring: online reference interpreter on builds without help, and offline comparison of recorded outcomes of both builds", "The same definitions and lines run by builds with and without the feature. Exploration.")
T["C22"] = ("runtime monitoring: child processes calling parse(), their streams, exit status and value compared with try_parse_from in the parent", "Real processes with arbitrary argv bytes, environments and broken streams. Exploration.")
T["C20"] = ("runtime monitoring of the macros inside real compilers: generated supported definitions in hostile surroundings and generated unsupported ones, an oracle on every compilation's diagnostics",
            "Hundreds of definitions, spelled and surrounded at random, must compile without a lint; about a thousand with one rule broken must be refused in their own text and without a macro panic; three compilers, three editions. Exploration.")
T["C24"] = ("runtime monitoring: differential oracle, the same source compiled with clap's derive macros and run on the same lines",
            "Acceptance and values of palc and clap 4.6.1 are compared online on generated core definitions and lines. Exploration; trusts clap as the reference.")
extra = V / "tools" / "manifest_extra.json"
if extra.exists():
    T.update({k: tuple(v) for k, v in json.loads(extra.read_text()).items()})
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in T:
        m["checks"].append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough", technique=T[p][0], level="exploration", level_note=T[p][1]))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks")
