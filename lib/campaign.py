"""The model-based campaign: generated definitions, real parsers, the reference interpreter as oracle."""
import json

import gen
import hand
import harness
from harness import CORES, TARGET, WORK, CheckError
from profiles import PROFILES

QUICK = dict(defs=320, cases=2500)
THOROUGH = dict(defs=900, cases=6000)


def definitions(prop, seed, n, prof, twins=False, base=0, boundary=True, small=False):
    """[(id, definition)]"""
    out = []
    i = base
    for k in range(n // (2 if twins else 1)):
        r = gen.Rng(f"{seed}/{prop}/{k}")
        # A part uses the general profile: what a property needs may hide in an unusual mixture.
        p = prof if k % 4 else {}
        d = gen.DefGen(r, p, "twin" if twins else ("focus" if p else "rand")).make()
        out.append((i, d))
        if twins:
            t = gen.twin(d, r)
            out.append((i + 1, t))
        i += 2 if twins else 1
    if boundary:
        if i % 2:
            i += 1
        for d in hand.boundary(seed) if boundary == "all" else hand.boundary_few(seed):
            out.append((i, d))
            i += 2 if twins else 1
    return out


def config(prop, seed, prof, cases, help_on=True, monitors=None):
    knobs = dict(prof["knobs"])
    big = dict(p_calm=0.6, p_mut=0.25, p_hostile=0.05, p_bad=0.01, p_raw=0.02, max_multi=6)
    label_knobs = {k: big for k in ["big-", "deep-", "wide-", "prefixes-"]}
    # To the bottom, and from there to the top.
    label_knobs["deep-"] = dict(big, p_sub=1.2, p_deeper=0.9, p_global_below=1.1)
    label_cases = {k: max(200, cases // 3) for k in ["big-", "deep-", "wide-", "prefixes-"]}
    label_cases["big-named-254"] = max(120, cases // 8)
    if prop == "C27":
        label_knobs = {k: dict(b, p_long=0.05, max_long=1 << 16, max_multi=12) for k, b in label_knobs.items()}
        label_cases = {k: cases for k in label_knobs}
        label_knobs["huge-"] = dict(big, p_long=0.3, max_long=1 << 22, max_multi=3000, p_bundle=0.7, p_flood=0.04)
        label_cases["huge-"] = max(40, cases // 20)
    return dict(check=prop, seed=seed, cases=cases, knobs=knobs, label_knobs=label_knobs, label_cases=label_cases, strict=prof["strict"],
                relevant=prof["relevant"], help_on=help_on, monitors=prof.get("monitors", []) if monitors is None else monitors, max_viol=4)


def report_bad_defs(res, bad, defs, seed):
    by = dict(defs)
    for id, msg in sorted(bad.items())[:4]:
        d = by[id]
        res.violation(f"a supported definition is rejected by the compiler: {msg[:900]}", kind="compile", def_id=id, definition=d,
                      source=harness.source_of(d, id, seed), message=msg)


def report_crashes(res, crashes, defs, seed):
    by = dict(defs)
    for c in crashes[:4]:
        d = by[c["def_id"]]
        tail = "\n".join(c["stderr"].strip().split("\n")[:4])
        argv = next((l for l in c["stdout"].split("\n") if l.startswith("ARGV ")), "")
        res.violation(f"the parser did not return ({c['kind']}, alone: {c['status']}) on {argv[:400]}: {tail[:500]}", kind="crash", def_id=c["def_id"],
                      definition=d, source=harness.source_of(d, c["def_id"], seed), argv_hex=c["argv_hex"], stderr=c["stderr"], detail=c)


def report_divergences(res, divs, defs, seed, cfg):
    by = dict(defs)
    divs = [d for d in divs if d["relevant"]]
    divs.sort(key=lambda d: (len(d["argv_hex"]), len(json.dumps(by[d["def"]]))))
    for d in divs[:4]:
        res.violation(f"{d['monitor']}: definition {d['def']} ({d['label']}), argv {d['argv']}: {d['why'][:1200]}", kind="case", def_id=d["def"],
                      definition=by[d["def"]], source=harness.source_of(by[d["def"]], d["def"], seed), argv_hex=d["argv_hex"], cfg=cfg, divergence=d)


def run(res, prop, seed, tier, defs=None, cfg=None, prof=None, target="main", help_on=True, dirname=None, sizes=None, after=None, main="", build=None, **kw):
    prof = prof or PROFILES[prop]
    size = sizes or (THOROUGH if tier == "thorough" else QUICK)
    if defs is None:
        defs = definitions(prop, seed, size["defs"], prof["gen"], prof.get("twins", False), boundary="all" if prop in ("C27", "C17") else True)
        if prop == "C27":
            defs += [(10000 + i, d) for i, d in enumerate(hand.huge(seed))]
    cfg = cfg or config(prop, seed, prof, size["cases"], help_on)
    ws = WORK / (dirname or prop)
    tag = (dirname or prop).lower() + "_"
    gen.write_workspace(ws, defs, seed, crates=CORES, help_on=help_on, tag=tag, main=main)
    harness.log(f"{prop}: building {len(defs)} definitions")
    exe, bad = harness.build(ws, TARGET / target, tag + "worker", **(build or {}))
    if bad:
        report_bad_defs(res, bad, defs, seed)
        defs = [(i, d) for i, d in defs if i not in bad]
        gen.write_workspace(ws, defs, seed, crates=CORES, help_on=help_on, tag=tag, main=main)
        exe, bad = harness.build(ws, TARGET / target, tag + "worker", **(build or {}))
        if bad:
            res.add(evaluations=len(defs), distinct_nontrivial=len(defs), rule="definitions compiled")
            return None
    harness.log(f"{prop}: running")
    reports, crashes = harness.run_workers(exe, ws / "out", ws / "ir.json", cfg, **kw)
    m = harness.merge(reports)
    report_crashes(res, crashes, defs, seed)
    report_divergences(res, m["divergences"], defs, seed, cfg)
    rel = prof["relevant"]
    feats = {k: v for k, v in sorted(m["feats"].items()) if not rel or any(k == r or (r.endswith("*") and k.startswith(r[:-1])) for r in rel)}
    res.add(evaluations=m["evaluations"], distinct_nontrivial=harness.distinct(exe, ws / "out"), definitions=len(defs), parses_observed=m["parses"],
            accepted=m["accepted"], rejected=m["rejected"], values_delivered=m["values"], tokens=m["tokens"], deepest_level=m["max_depth"],
            outcomes_by_error=m["classes"], features_observed=feats, other_observations=m["extra"],
            divergences_outside_this_property=m["foreign"])
    res.coverage["rule"] = (res.coverage["rule"] + " " if res.coverage["rule"] else "") + \
        "Command lines are generated per definition from its own names, values and structure, then mutated; " + prof["rule"] + \
        ". Distinct by (definition, argv)."
    step = max(1, len(m["samples"]) // 10)
    res.coverage["samples"] += m["samples"][::step][:10]
    if after:
        after(exe, ws, defs, cfg)
    return m
