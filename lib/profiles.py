"""What each model-based check generates, watches and counts."""

# class, detail, reason, text
CLASS = [True, False, False, False]
DETAIL = [True, True, False, False]
FULL = [True, True, True, True]

ENUMISH = {"ENUM": 10, "String": 1, "u8": 1}
OSISH = {"OsString": 6, "BoxOs": 2, "ArcOs": 2, "PathBuf": 4, "Raw": 3, "Both": 2, "Len": 2, "String": 4, "Strict": 1, "i32": 1, "ENUM": 1, "char": 1}
CONV = {"u128": 1, "isize": 1, "f32": 2, "BoxOs": 1, "ArcOs": 1, "Wrap<u8>": 2, "Wrap<String>": 1, "String": 1, "OsString": 1, "PathBuf": 1, "u8": 2, "i32": 2, "u32": 1, "i64": 1, "usize": 1, "i8": 2, "i16": 1, "u16": 1, "u64": 1, "i128": 1, "f64": 2,
        "char": 2, "bool": 2, "NonZeroU32": 2, "IpAddr": 2, "Hex": 3, "Even": 3, "Strict": 3, "Raw": 3, "Both": 3, "Len": 3, "Counted": 2, "Nil": 1, "Wide": 2, "ENUM": 5}

PROFILES = {
    "C01": dict(
        gen=dict(n_named=(2, 10), p_alias=0.6, p_explicit=0.7, p_pos=0.3, p_sub=0.25, p_shadow=0.1, p_requires=0.03, p_conflicts=0.03, p_excl=0, p_required=0.04),
        knobs=dict(p_mut=0.5, p_hostile=0.2, p_chaos=0.1), strict=DETAIL,
        relevant=["long*", "short*", "alias", "err.unknown", "next.value", "bundle*"],
        rule="a case is a generated definition with a generated command line; non-trivial when it names an argument or tries a name that is none"),
    "C02": dict(
        gen=dict(n_named=(3, 10), p_long=0.3, p_short=1.0, p_alias=0.4, p_pos=0.3, p_sub=0.2, kinds={"flag": 6, "val": 0.3, "opt": 3, "optopt": 2, "vec": 2, "optvec": 1},
                 p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.02),
        knobs=dict(p_bundle=0.9, p_mut=0.4, p_hostile=0.2, p_raw=0.1), strict=FULL,
        relevant=["bundle*", "short*"],
        rule="non-trivial when a token is read as short options (bundled, with a value, multi-byte or not valid UTF-8)"),
    "C03": dict(
        gen=dict(n_named=(2, 7), p_hyphen=0.3, p_num=0.35, p_req_eq=0.08, p_sub=0.5, kinds={"flag": 2, "val": 1, "opt": 6, "optopt": 1, "vec": 3, "optvec": 1},
                 p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.02, p_flat=0.2),
        knobs=dict(p_hostile=0.45, p_calm=0.35, p_mut=0.45), strict=FULL,
        relevant=["next.value", "hyphen*", "err.missingvalue*", "short.attached", "long.eq", "short.eq", "short.tail", "dashdash"],
        rule="non-trivial when a value-taking option is met, with or without an inline value, whatever follows it"),
    "C04": dict(
        gen=dict(n_named=(2, 7), p_req_eq=0.6, kinds={"flag": 3, "val": 0.7, "opt": 3, "optopt": 5, "vec": 2, "optvec": 1}, p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.02),
        knobs=dict(p_hostile=0.3, p_mut=0.5), strict=FULL,
        relevant=["req_eq", "optopt*", "err.missingeq", "err.flagvalue", "long.eq", "short.eq"],
        rule="non-trivial when an option with require_equals or an optional value is met, or a flag is given a value"),
    "C05": dict(
        gen=dict(n_named=(2, 7), kinds={"flag": 2, "val": 0.6, "opt": 3, "optopt": 2, "vec": 5, "optvec": 4}, p_delim=0.6, p_alias=0.5, p_global=0.35, p_sub=0.45,
                 p_pos=0.5, p_multi_pos=0.8, p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.03, p_default=0.15),
        knobs=dict(p_dup=0.15, max_multi=8, p_calm=0.5), strict=FULL,
        relevant=["err.dup", "multi*", "delim*", "pos.multi", "greedy*"],
        rule="non-trivial when a list-valued argument occurs or a single-valued one is repeated"),
    "C06": dict(
        gen=dict(n_named=(1, 3), p_pos=1.0, n_pos=(0, 5), p_multi_pos=0.65, p_trailing=0.5, p_last=0.4, p_sub=0.3, p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.04, p_flat=0.15),
        knobs=dict(p_dashdash=0.5, p_hostile=0.3, p_mut=0.4), strict=DETAIL,
        relevant=["pos*", "dashdash*", "last", "greedy*", "err.extra", "err.unknownsub"],
        rule="non-trivial when a token is read as a positional, `--` occurs, or a positional is refused"),
    "C07": dict(
        gen=dict(n_named=(1, 3), p_sub=1.0, sub_depth=3, n_var=(1, 6), p_pos=0.5, n_pos=(0, 2), p_requires=0.02, p_conflicts=0.02, p_excl=0.02, p_required=0.04, p_sub_opt=0.5),
        knobs=dict(p_mut=0.5, p_sub=0.9, p_hostile=0.25), strict=DETAIL,
        relevant=["sub*", "err.unknownsub", "err.missingsub"],
        rule="non-trivial when a subcommand is entered, missing or unknown"),
    "C08": dict(
        gen=dict(n_named=(1, 5), p_global=0.6, p_sub=1.0, sub_depth=3, n_var=(1, 3), p_shadow=0.3, p_pos=0.25, p_flat=0.35, p_requires=0.04, p_conflicts=0.04, p_excl=0.01, p_required=0.04),
        knobs=dict(p_mut=0.45, p_sub=0.95, p_global_below=0.7, p_dup=0.08), strict=DETAIL,
        relevant=["global*", "sub*"],
        rule="non-trivial when a subcommand is entered or an argument marked global is given"),
    "C09": dict(
        gen=dict(n_named=(0, 4), p_flat=0.95, n_flat=(1, 3), flat_depth=4, p_shadow=0.3, p_sub=0.35, p_pos=0.4, p_requires=0.2, p_conflicts=0.2, p_required=0.12, p_global=0.25),
        knobs=dict(p_mut=0.35), strict=DETAIL,
        relevant=["flat*", "c.*", "err.*"],
        rule="non-trivial when an argument of a flattened group is given or a constraint is checked"),
    "C10": dict(
        gen=dict(n_named=(2, 7), p_requires=0.4, p_conflicts=0.35, p_excl=0.12, p_required=0.25, p_default=0.25, p_flat=0.25, p_sub=0.4, p_pos=0.6, n_pos=(1, 2), p_last=0.4, p_multi_pos=0.5, p_hard_ident=0.4),
        knobs=dict(p_pair=0.4, p_respect=0.45, p_calm=0.3, p_mut=0.15, p_hostile=0.03, p_bad=0.01, p_chaos=0.02, p_dup=0.0), strict=DETAIL,
        relevant=["c.*", "err.req*", "err.conflict", "err.excl", "err.missingsub"],
        rule="non-trivial when an argument with a presence constraint is given or a constraint is broken"),
    "C11": dict(
        gen=dict(n_named=(2, 7), p_default=0.75, p_requires=0.2, p_conflicts=0.2, p_excl=0.08, p_required=0.1, p_pos=0.6, n_pos=(1, 3), p_sub=0.4, p_global=0.3),
        knobs=dict(p_mut=0.15, p_hostile=0.05, p_calm=0.7), strict=CLASS,
        relevant=["default*", "c.*"],
        rule="non-trivial when a default applies or an argument with constraints is given"),
    "C12": dict(
        gen=dict(types=OSISH, p_delim=0.5, p_pos=0.7, p_trailing=0.4, p_last=0.3, p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.03, p_default=0.05),
        knobs=dict(p_raw=0.35, p_long=0.1, max_long=70000, p_mut=0.25, p_hostile=0.2, p_calm=0.6), strict=FULL,
        relevant=["ty.os", "raw.bytes"],
        rule="non-trivial when a value reaches a field of a raw-OS-string type or a token is not valid UTF-8"),
    "C13": dict(
        gen=dict(types=CONV, p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.03, p_default=0.1, p_pos=0.6, p_icase=0.4),
        knobs=dict(p_bad=0.25, p_raw=0.12, p_mut=0.2, p_calm=0.3, p_hostile=0.15), strict=FULL,
        relevant=["err.invalid", "next.value", "long.eq", "short.eq", "short.attached", "pos*", "optopt.value", "enum"],
        rule="non-trivial when a value is converted or its conversion fails"),
    "C14": dict(
        gen=dict(types=ENUMISH, n_enums=(2, 4), p_icase=0.6, p_delim=0.5, p_default=0.3, p_requires=0.02, p_conflicts=0.02, p_excl=0, p_required=0.03, p_sub=0.2,
                 kinds={"flag": 1, "val": 0.7, "opt": 5, "optopt": 2, "vec": 3, "optvec": 1}),
        knobs=dict(p_bad=0.35, p_mut=0.25, p_calm=0.35, p_hostile=0.1, p_raw=0.15), strict=FULL,
        relevant=["enum", "icase"],
        rule="non-trivial when a value is given to a value-enum argument"),
    "C15": dict(
        gen=dict(p_vname=0.3, p_explicit=0.7, p_hyphen=0.08, types=CONV, p_requires=0.2, p_conflicts=0.2, p_excl=0.06, p_required=0.15),
        knobs=dict(p_calm=0.05, p_mut=0.7, max_mut=2, p_bad=0.15, p_raw=0.12, p_hostile=0.2, p_respect=0.6, p_dup=0.06), strict=FULL,
        relevant=["err*"],
        rule="non-trivial when the command line is rejected, so that its message is examined"),
    "C16": dict(
        gen=dict(p_own_help=0.12, sub_depth=3, p_sub=0.7, p_required=0.2, p_pos=0.5, p_about=0.6, p_doc=0.4, kinds={"flag": 3, "val": 2, "opt": 4, "optopt": 1, "vec": 2, "optvec": 1}),
        knobs=dict(p_help=0.8, p_mut=0.25, p_hostile=0.15, p_calm=0.6), strict=CLASS, monitors=["help", "helpsame"],
        relevant=["help", "helplike"],
        rule="non-trivial when a token is, looks like or contains `-h` or `--help`"),
    "C17": dict(
        gen=dict(p_doc=0.6, p_about=0.6, p_after=0.3, p_help_attr=0.3, p_vname=0.3, p_hide=0.2, p_default=0.35, p_sub=0.6, sub_depth=3, n_var=(1, 5), p_flat=0.4, p_required=0.25, p_own_help=0.02,
                 p_pos=0.6, p_last=0.4, p_multi_pos=0.6, n_named=(0, 6)),
        knobs=dict(p_help=0.9, p_mut=0.05, p_hostile=0.03, p_calm=0.9), strict=CLASS, monitors=["helptext"],
        relevant=["help"],
        rule="non-trivial when help is rendered; every command of every definition is rendered with -h and --help, then after other arguments; each text is parsed and compared with the definition"),
    "C18": dict(
        gen=dict(p_default=0.3, types=dict(CONV, OsString=4, String=4), p_required=0.08, p_delim=0.5, p_pos=0.6, p_multi_pos=0.6, kinds={"flag": 3, "val": 1, "opt": 3, "optopt": 2, "vec": 4, "optvec": 2}),
        knobs=dict(p_chaos=0.3, p_raw=0.3, p_hostile=0.4, p_mut=0.6, max_mut=4, p_calm=0.25, p_long=0.03, max_long=70000, max_multi=30, p_help=0.06), strict=[False] * 4, monitors=["source", "nomodel"],
        relevant=[], rule=""),
    "C19": dict(
        gen=dict(p_own_help=0.05, p_required=0.1, p_about=0.5, p_doc=0.4), knobs=dict(p_help=0.15, p_mut=0.35, p_calm=0.5), strict=FULL, relevant=[],
        rule="each line's first outcome (value, message, help text) is recorded and every later parse of it must equal it: after shuffled histories, inside other parses, in other "
             "environments, directories and terminals, in other processes, and among 12 threads; every line counts"),
    "C20": dict(
        gen=dict(p_own_help=0.1, p_hard_ident=0.4, rand_ident=0.12, p_default=0.3, p_excl=0.08, p_about=0.5, n_var=(0, 4), p_flat=0.4, p_sub=0.5)),
    "C21": dict(
        gen=dict(p_own_help=0.15, p_required=0.1, p_doc=0.4, p_about=0.5, p_help_attr=0.15),
        knobs=dict(p_help=0.35, p_mut=0.4, p_calm=0.4), strict=FULL,
        relevant=[],
        rule="built without the help feature; every case counts, and each is also run by the same definition built with it"),
    "C22": dict(
        gen=dict(p_required=0.1, p_sub_opt=0.6), knobs=dict(p_help=0.15, p_mut=0.3, p_calm=0.6, p_raw=0.15, p_hostile=0.15, p_nul=0.0, p_swell=0.004), strict=FULL, relevant=[],
        rule="each case is a child process calling parse() with these arguments (any bytes but NUL), compared with try_parse_from in the parent; every case counts"),
    "C23": dict(
        gen=dict(), knobs=dict(p_calm=0.2, p_mut=0.7, max_mut=3, p_bad=0.1, p_chaos=0.15), strict=DETAIL, monitors=["stream"],
        relevant=["err.*", "help"],
        rule="non-trivial when the command line is rejected; the prefix that decides is then re-run with other suffixes and an endless source"),
    "C25": dict(
        gen=dict(rand_ident=0.75, p_explicit=0.08, p_alias=0.1, p_vname=0.05, n_named=(2, 8), n_enums=(2, 4), p_sub=0.7, n_var=(1, 8), p_hard_ident=0.8, p_pos=0.5, p_requires=0.08,
                 p_conflicts=0.08, p_excl=0, p_required=0.1, p_default=0.1, types={"ENUM": 6, "String": 4, "OsString": 1, "u8": 1, "i32": 1}),
        knobs=dict(p_help=0.15, p_calm=0.5, p_mut=0.5, p_hostile=0.05), strict=DETAIL, monitors=["help"],
        relevant=["long*", "short*", "sub*", "err.*", "help", "enum"],
        rule="non-trivial when a name, subcommand or value derived from an identifier is used, shown in an error or in the help"),
    "C26": dict(
        gen=dict(n_named=(3, 9), p_pos=0.5, p_global=0.3, p_requires=0.15, p_conflicts=0.15, p_excl=0.03, kinds={"flag": 3, "val": 1, "opt": 4, "optopt": 1, "vec": 3, "optvec": 1}),
        knobs=dict(p_calm=0.7, p_mut=0.15, p_hostile=0.08, p_bad=0.02), strict=CLASS, monitors=["perm", "twin"], twins=True,
        relevant=["long*", "short*", "next.value"],
        rule="non-trivial when the line has options; each is re-run in other orders, and by a definition with its named fields in another order"),
    "C27": dict(
        monitors=["help"],
        gen=dict(n_named=(20, 60), p_pos=0.5, n_pos=(1, 12), p_flat=0.4, flat_depth=4, n_flat=(1, 4), sub_depth=4, n_var=(1, 8), p_requires=0.03, p_conflicts=0.02, p_excl=0.0, p_required=0.01,
                 p_explicit=0.25),
        knobs=dict(max_multi=20, p_long=0.03, max_long=70000, p_mut=0.2, p_calm=0.7, p_bad=0.01, p_hostile=0.04), strict=DETAIL,
        relevant=[],
        rule="every case counts: definitions are at or near the limits"),
}
