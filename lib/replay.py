"""Re-runs one recorded violation against the current /repo."""
import json
import pathlib

import gen
import harness
from harness import TARGET, WORK


def main(prop, path):
    r = json.loads(pathlib.Path(path).read_text())
    print(r["what"])
    kind = r.get("kind")
    if kind == "source":
        import c20
        return c20.replay(prop, path, r)
    if kind not in ("case", "crash", "compile"):
        print("replay: run the whole check with seed", r["seed"])
        return 2
    d, id = r["definition"], r["def_id"]
    ws = WORK / "replay"
    defs = [(id, d)]
    help_on = r.get("cfg", {}).get("help_on", True)
    if "twin" in d["label"] and "twin_definition" in r:
        defs.append((id ^ 1, r["twin_definition"]))
    gen.write_workspace(ws, defs, r["seed"], crates=1, tag="replay_", help_on=help_on, clap=prop == "C24")
    exe, bad = harness.build(ws, TARGET / ("clap" if prop == "C24" else "main" if help_on else "nohelp"), "replay_worker")
    if bad:
        print("\n".join(bad.values()))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    cfg = ws / "cfg.json"
    cfg.write_text(json.dumps(r.get("cfg") or dict(check=prop, seed=r["seed"], cases=1, strict=[True] * 4)))
    st, out, err = harness.run_one(exe, ws / "ir.json", cfg, id, argv_hex=r["argv_hex"])
    print(out, err)
    if st != 0 or "DIVERGES" in out:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the case now agrees")
    return 0
