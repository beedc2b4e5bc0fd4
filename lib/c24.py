"""C24: the same source compiled with palc and with clap, run on the same command lines."""
import re

import campaign
import gen
import harness
from gen import is_named, is_required, long_of, names_of, short_of, unraw
from harness import CORES, TARGET, WORK
from real import real

TYPES = {"String": 6, "OsString": 3, "PathBuf": 2, "u8": 2, "i32": 3, "u32": 1, "i64": 1, "i8": 1, "i16": 1, "u16": 1, "u64": 1, "f64": 1, "char": 1, "bool": 1,
         "NonZeroU32": 1, "IpAddr": 1, "Hex": 1, "Even": 1, "Strict": 1, "usize": 1, "u128": 1, "f32": 1, "BoxOs": 1, "ArcOs": 1, "Nil": 1, "Wide": 1, "Wrap<u8>": 1, "Wrap<String>": 1, "ENUM": 4}
GEN = dict(types=TYPES, p_shadow=0, p_own_help=0, p_doc=0.05, p_about=0.05, p_after=0.02, p_help_attr=0, rand_ident=0.1, p_hard_ident=0, p_hide=0.03)
CORE_IDENT = re.compile(r"(r#)?[a-z][a-z0-9]*(_[a-z0-9]+)*")
PROF = dict(gen=GEN, knobs=dict(p_calm=0.75, p_mut=0.4, max_mut=2, p_raw=0.05, p_hostile=0.1, p_chaos=0.05, p_nul=0.0, p_help=0.03), strict=[False] * 4, monitors=["nomodel", "clap"],
            relevant=[], rule="a case counts if the line is within the core, so that both parsers run and their outcomes are compared")


class CoreGen(gen.DefGen):
    def enums(self):
        # The two crates see words differently in a name like `Snake_case` renamed to "lower".
        while True:
            es = super().enums()
            if not any(e["rename"] in ("lower", "UPPER") and any("_" in v["ident"] for v in e["variants"]) for e in es.values()):
                return es


def positionals(s):
    """clap wants required positionals before optional ones."""
    at = [i for i, f in enumerate(s["fields"]) if f["k"] == "arg" and not is_named(f)]
    args = [s["fields"][i] for i in at]
    has_sub = any(f["k"] == "sub" for f in s["fields"])
    singles = sorted([a for a in args if a["kind"] not in ("vec", "optvec")], key=lambda a: not is_required(a))
    multi = [a for a in args if a["kind"] in ("vec", "optvec")]
    if has_sub:
        # palc prefers a subcommand to one more positional (documented); clap does not.
        multi = [a for a in multi if a["last"]]
    if any(a["trailing"] for a in multi):
        multi = [a for a in multi if not a["last"]]
    if any(not is_required(a) for a in singles):
        for a in multi:
            a["required"] = False
    for i, a in zip(at, singles + multi):
        s["fields"][i] = a
    gone = [s["fields"][i] for i in at[len(singles + multi):]]
    for i in sorted(at[len(singles + multi):], reverse=True):
        del s["fields"][i]
    left = {f["ident"] for f in s["fields"]}
    for f in s["fields"]:
        if f["k"] == "arg":
            for k in ("requires", "conflicts"):
                f[k] = [x for x in f[k] if x in left]


def constraints(s, group=False):
    """Presence constraints whose combinations mean the same in both: clap waives requirements for
    arguments that are in conflict with others."""
    args = [f for f in s["fields"] if f["k"] == "arg"]
    by = {a["ident"]: a for a in args}
    targets = {x for a in args for x in a["requires"]}
    for a in args:
        free = not is_required(a) and a["ident"] not in targets
        a["conflicts"] = [x for x in a["conflicts"] if free and not is_required(by[x]) and x not in targets]
    if any(is_required(a) for a in args) or any(f["k"] != "arg" for f in s["fields"]) or group:
        # (An exclusive argument may come with a subcommand in clap, not in palc; within a group, palc lets it
        # exclude the rest of the group.)
        for a in args:
            a["excl"] = False
    for a in args:
        if a["requires"]:
            a["excl"] = False
    for f in s["fields"]:
        if f["k"] == "flat":
            constraints(f["struct"], True)


def every(s):
    for f in s["fields"]:
        if f["k"] == "arg":
            yield f
        elif f["k"] == "flat":
            yield from every(f["struct"])
        else:
            for v in f["enum"]["variants"]:
                yield from every(v["struct"])


def adapt(d):
    """Keeps within what the two crates share."""
    fresh = [0]

    def visit(s, ids, names, top):
        """`ids`, `names`: those of the enclosing levels."""
        ids = set(ids)
        rename = {}

        def args(s):
            for f in s["fields"]:
                if f["k"] == "arg":
                    yield s, f
                elif f["k"] == "flat":
                    yield from args(f["struct"])

        everything = list(args(s))
        own = set()
        for owner, a in everything:
            i = a["ident"]
            if unraw(i) in ids or not CORE_IDENT.fullmatch(i) or unraw(i) in ("help", "version"):
                fresh[0] += 1
                a["ident"] = f"uniq{fresh[0]}"
                for o in owner["fields"]:
                    if o["k"] == "arg":
                        o["requires"] = [a["ident"] if x == i else x for x in o["requires"]]
                        o["conflicts"] = [a["ident"] if x == i else x for x in o["conflicts"]]
                if a["short"] is True:
                    a["short"] = unraw(i)[0]
                i = a["ident"]
            if a["ty"] == "PathBuf" and (is_named(a) or a["kind"] != "val"):
                a["ty"] = "OsString"
            ids.add(unraw(a["ident"]))
            if not is_named(a):
                continue
            taken = own | names | {"-h", "--help", "--version", "-V"}
            a["aliases"] = [x for x in a["aliases"] if "--" + x not in taken]
            a["saliases"] = [x for x in a["saliases"] if "-" + x not in taken]
            if a["short"] is not None and "-" + short_of(a) in taken:
                a["short"] = None
            if a["long"] is not None and "--" + long_of(a) in taken or not is_named(a):
                fresh[0] += 1
                a["long"] = f"long-{fresh[0]}"
            own |= names_of(a)
        for owner, a in everything:
            if a["default"] is not None and a["default"][0] != "str" and a["kind"] != "flag" and (
                    a["kind"] != "val" or a["ty"] in d["enums"] or a["ty"].startswith("Wrap<") or (a["default"][2] or "").startswith('"')):
                # clap wants an expression of the field's type here.
                a["default"] = ("str", a["default"][1], None, a["default"][3])
            # clap checks a level before it learns what was given below it.
            tied = any(a["ident"] in x["requires"] + x["conflicts"] for o, x in everything if o is owner)
            if is_required(a) or a["requires"] or a["conflicts"] or a["excl"] or tied or a["kind"] == "flag" and a["default"]:
                a["glob"] = False
        positionals(s)
        constraints(s)
        for f in s["fields"]:
            if f["k"] == "sub":
                f["enum"]["variants"] = [v for v in f["enum"]["variants"] if gen.kebab(unraw(v["ident"])) != "help"] or [gen.variant("Zed", "unit")]
                for v in f["enum"]["variants"]:
                    visit(v["struct"], ids, names | own, False)

    visit(d["root"], set(), set(), True)
    everywhere = list(every(d["root"]))
    if any(a["glob"] for a in everywhere):
        # clap counts a global argument of an outer level against an exclusive one.
        for a in everywhere:
            a["excl"] = False
    d["core"] = True
    return d


def definitions(seed, n):
    out = []
    for k in range(n):
        r = gen.Rng(f"{seed}/C24/{k}")
        out.append((k, adapt(CoreGen(r, GEN, "core").make())))
    return out + [(n + i, adapt(d)) for i, d in enumerate(real())]


SIZES = dict(quick=dict(defs=320, cases=2500), thorough=dict(defs=1600, cases=6000))


def c24(res, seed, tier):
    size = SIZES[tier]
    defs = definitions(seed, size["defs"])
    cfg = campaign.config("C24", seed, PROF, size["cases"])
    ws = WORK / "C24"
    tag = "c24_"
    total = len(defs)
    for _ in range(3):
        gen.write_workspace(ws, defs, seed, crates=CORES, tag=tag, clap=True)
        harness.log(f"C24: building {len(defs)} definitions with both")
        crates = {}
        exe, bad = harness.build(ws, TARGET / "clap", tag + "worker", crates=crates)
        if not bad:
            break
        # What clap refuses to compile is not in the core.
        campaign.report_bad_defs(res, {i: m for i, m in bad.items() if not any(c.startswith(tag + "k") for c in crates[i])}, defs, seed)
        defs = [(i, d) for i, d in defs if i not in bad]
    else:
        raise harness.CheckError("definitions keep being refused")
    if total - len(defs) > total // 4:
        raise harness.CheckError(f"{total - len(defs)} of {total} definitions do not compile with clap")
    harness.log("C24: running")
    reports, crashes = harness.run_workers(exe, ws / "out", ws / "ir.json", cfg)
    m = harness.merge(reports)
    campaign.report_crashes(res, crashes, defs, seed)
    campaign.report_divergences(res, m["divergences"], defs, seed, cfg)
    x = m["extra"]
    aside = sum(v for k, v in x.items() if k.startswith("set aside"))
    refused = sum(v for k, v in x.items() if k.startswith("definitions clap"))
    both = x.get("accepted by both with equal values", 0)
    n = m["evaluations"] - aside
    if not crashes and not m["divergences"] and (both < n // 4 or n < m["evaluations"] // 2):
        raise harness.CheckError(f"too few lines compared: {both} of {n} accepted, {aside} set aside")
    res.add(evaluations=n, distinct_nontrivial=harness.distinct(exe, ws / "out"), definitions=len(defs), parses_observed=m["parses"] + n,
            definitions_clap_does_not_compile=total - len(defs), definitions_clap_refuses_at_run_time=refused // CORES,
            lines_set_aside=aside, observations={k: v for k, v in sorted(x.items()) if not k.startswith("definitions clap")},
            features_observed=dict(sorted(m["feats"].items())), deepest_level=m["max_depth"])
    res.coverage["rule"] = ("Each definition's source text is compiled twice, with palc's derive macros and with clap's (4.6.1); " + PROF["rule"] +
                            ". Distinct by (definition, argv).")
    step = max(1, len(m["samples"]) // 10)
    res.coverage["samples"] += m["samples"][::step][:10]
    res.assumptions += ["clap 4.6.1 is the clap that palc follows", "what the README documents as different, and definitions clap does not take, are outside the shared core"]
