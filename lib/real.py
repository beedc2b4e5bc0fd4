"""Definitions after programs people use: larger and more regular than the random ones."""
from gen import arg, definition, flag, flat, pos, struct, sub, variant, venum


def opt(ident, ty="String", **kw):
    kw.setdefault("long", True)
    return arg(ident, "opt", ty, **kw)


def vec(ident, ty="String", **kw):
    kw.setdefault("long", True)
    return arg(ident, "vec", ty, **kw)


def optvec(ident, ty="String", **kw):
    kw.setdefault("long", True)
    return arg(ident, "optvec", ty, **kw)


def num(x, ty):
    text = {"f64": lambda: repr(float(x)), "u32": lambda: str(x), "usize": lambda: str(x)}[ty]()
    return ("t", text[:-2] if text.endswith(".0") else text, text, text[:-2] if text.endswith(".0") else text)


def deno():
    """After <https://github.com/denoland/deno/pull/8617>, as in the repository's own test suite."""
    def reload(**kw):
        return optvec("reload", short="r", req_eq=True, delim=",", value_name="CACHE_BLOCKLIST", doc=["Reload source code cache (recompile TypeScript)", "", "--reload", "  Reload everything"], **kw)

    def import_map():
        return flat("import_map", struct(opt("import_map", aliases=["importmap"], value_name="FILE", doc=["UNSTABLE: Load import map file"])))

    def reload_arg():
        return flat("reload", struct(reload()))

    def ca_file():
        return flat("ca_file", struct(opt("cert", value_name="FILE", doc=["Load certificate authority from PEM encoded file"])))

    def watch():
        return flat("watch", struct(flag("watch", doc=["Watch for file changes and restart process automatically"])))

    def compilation():
        return flat("compilation", struct(
            flag("no_remote", doc=["Do not resolve remote modules"]), opt("config", short="c", value_name="FILE", doc=["Load tsconfig.json configuration file"]),
            flag("no_check", doc=["Skip type checking modules"]), opt("lock", "PathBuf", value_name="FILE", doc=["Check the specified lock file"]),
            flag("lock_write", requires=["lock"], doc=["Write lock file (use with --lock)"]), import_map(), reload_arg(), ca_file()))

    def permissions():
        return flat("permissions", struct(
            *(optvec(f"allow_{x}", t, req_eq=True, delim=",", doc=[f"Allow {x} access"]) for x, t in [("read", "PathBuf"), ("write", "PathBuf"), ("net", "String")]),
            *(flag(f"allow_{x}", doc=[f"Allow {x}"]) for x in ["env", "run", "plugin", "hrtime"]), flag("allow_all", short="A", doc=["Allow all permissions"])))

    def runtime():
        return flat("runtime", struct(
            arg("inspect", "optopt", "String", long=True, value_name="HOST:PORT", req_eq=True, doc=["activate inspector on host:port (default: 127.0.0.1:9229)"]),
            arg("inspect_brk", "optopt", "String", long=True, value_name="HOST:PORT", req_eq=True), flag("cached_only"),
            vec("v8_flags", delim=",", req_eq=True, doc=["Set V8 command line options (for help: --v8-flags=--help)"]), opt("seed", "u64", value_name="NUMBER", doc=["Seed Math.random()"]), compilation()))

    vs = [
        ("Bundle", struct(pos("source_file"), pos("out_file", "opt", "PathBuf"), watch(), compilation(), long_about="Output a single JavaScript file with all dependencies.\n  deno bundle https://deno.land/std/examples/colors.ts colors.bundle.js")),
        ("Cache", struct(pos("file", "vec", required=True), compilation(), about=["Cache the dependencies"])),
        ("Compile", struct(pos("source_file"), opt("output", "PathBuf", short="o", doc=["Output file (defaults to $PWD/<inferred-name>)"]), compilation(), about=["Compiles the given script into a self contained executable."])),
        ("Completions", struct(pos("shell", "val", "Shell"))),
        ("Doc", struct(flag("json"), flag("private"), pos("source_file", "opt"), pos("filter", "opt", conflicts=["json"], doc=["Dot separated path to symbol"]), import_map(), reload_arg())),
        ("Eval", struct(flag("ts", short="T"), flag("print", short="p"), pos("code_arg", "vec", required=True, value_name="CODE_ARG"), runtime())),
        ("Fmt", struct(flag("check"), vec("ignore", "PathBuf", delim=",", req_eq=True), pos("files", "vec", "PathBuf"), watch())),
        ("Info", struct(pos("file", "opt"), flag("no_check", hide=True), flag("json"), import_map(), ca_file(), reload(requires=["file"]))),
        ("Install", struct(pos("cmd", "vec", required=True, trailing=True), opt("name", short="n"), opt("root", "PathBuf"), flag("force", short="f"), runtime(), permissions())),
        ("Lint", struct(flag("rules"), vec("ignore", "PathBuf", delim=",", req_eq=True), flag("json"), pos("files", "vec", "PathBuf"))),
        ("Repl", struct(runtime(), about=["Read Eval Print Loop"])),
        ("Run", struct(pos("script_arg", "vec", required=True, value_name="SCRIPT_ARG"), flag("watch"), runtime(), permissions())),
        ("Test", struct(flag("no_run"), flag("fail_fast", aliases=["failfast"]), flag("allow_none"), opt("filter", hyphen="any"), flag("coverage"), pos("files", "vec"), runtime(), permissions())),
        ("Types", struct(about=["Print runtime TypeScript declarations."])),
        ("Upgrade", struct(opt("version"), opt("output", "PathBuf"), flag("dry_run"), flag("force", short="f"), flag("canary"), ca_file())),
    ]
    root = struct(flag("unstable", glob=True, doc=["Enable unstable features and APIs"]), opt("log_level", short="L", glob=True, doc=["Set log level"]),
                  flag("quiet", short="q", glob=True, doc=["Suppress diagnostic output", "", "By default, subcommands print human-readable diagnostic messages to stderr."]),
                  sub("subcommand", [variant(n, "newtype", s) for n, s in vs], True),
                  long_about="A secure JavaScript and TypeScript runtime\n\nTo start the REPL:\n  deno\n", after="ENVIRONMENT VARIABLES:\n    DENO_DIR             Set the cache directory")
    return definition("real-deno", root, [venum("Shell", ["Bash", "Fish", "Powershell", "Zsh"])])


def criterion():
    color, form, out, plot = (venum("Color", ["Auto", "Always", "Never"]), venum("Format", ["Pretty", "Terse"]), venum("OutputFormat", ["Criterion", "Test"]), venum("PlottingBackend", ["Gnuplot", "Plotters"]))
    d = lambda t: ("str", t, None, t)
    s = struct(
        pos("filter", "vec", doc=["Skip benchmarks whose names do not contain FILTER."]),
        opt("color", "Color", short="c", aliases=["colour"], default=d("auto"), doc=["Configure coloring of output. always = always colorize output, never = never colorize", "output."]),
        flag("verbose", short="v"), flag("quiet", short="q", conflicts=["verbose"]), flag("noplot", short="n"), opt("save_baseline", short="s", default=d("base")),
        flag("discard_baseline", conflicts=["save_baseline", "baseline", "baseline_lenient"]), opt("baseline", short="b", conflicts=["save_baseline", "baseline_lenient"]),
        opt("baseline_lenient", conflicts=["save_baseline", "baseline"]), flag("list", conflicts=["test", "profile_time"]), opt("format", "Format", default=d("pretty")), flag("ignored"), flag("exact"),
        opt("profile_time", "f64", conflicts=["test", "list"]), opt("load_baseline", conflicts=["profile_time"], requires=["baseline"]),
        opt("sample_size", "usize", default=num(100, "usize")), opt("warm_up_time", "f64", default=num(3, "f64")), opt("measurement_time", "f64", default=num(5, "f64")),
        opt("nresamples", "u32", default=num(100000, "u32")), opt("noise_threshold", "f64", default=num(0.01, "f64")), opt("confidence_level", "f64", default=num(0.95, "f64")),
        opt("significance_level", "f64", default=num(0.05, "f64")), flag("quick", conflicts=["sample_size"]), flag("test", hide=True, conflicts=["list", "profile_time"]), opt("bench", hide=True),
        opt("plotting_backend", "PlottingBackend"), opt("output_format", "OutputFormat", default=d("criterion")), flag("nocapture", hide=True), flag("show_output", hide=True),
        flag("include_ignored", hide=True), flag("version", short="V", hide=True), after="\nThis executable is a Criterion.rs benchmark.\nSee https://github.com/bheisler/criterion.rs for more details.\n")
    return definition("real-criterion", s, [color, form, out, plot])


def grep():
    """Many short options, some with values, made for bundling."""
    when = venum("When", ["Auto", "Always", "Never", "Ansi"])
    s = struct(
        *(flag(n, short=c) for n, c in [("ignore_case", "i"), ("smart_case", "S"), ("invert_match", "v"), ("word_regexp", "w"), ("line_regexp", "x"), ("count", "c"), ("line_number", "n"), ("no_line_number", "N"),
                                         ("files_with_matches", "l"), ("hidden", "."), ("follow", "L"), ("fixed_strings", "F"), ("null", "0"), ("quiet", "q"), ("only_matching", "o"), ("vimgrep", None)]),
        vec("regexp", "OsString", short="e", hyphen="any"), vec("file", "PathBuf", short="f"), opt("after_context", "usize", short="A"), opt("before_context", "usize", short="B"), opt("context", "usize", short="C"),
        opt("max_count", "u64", short="m", default=("t", "0", "0", "0")), opt("max_depth", "i32", short="d", hyphen="num"), vec("glob", "OsString", short="g"), vec("iglob"), vec("type", short="t"), vec("type_not", short="T"),
        opt("color", "When", default=("str", "auto", None, "auto"), icase=True), opt("threads", "u8", short="j"), opt("replace", "OsString", short="r", hyphen="any"), opt("encoding", short="E"),
        pos("pattern", "opt", "OsString"), pos("path", "vec", "PathBuf"), about=["Recursively search the current directory for lines matching a pattern."])
    for a in s["fields"]:
        if a["ident"] == "type":
            a["ident"] = "r#type"
    return definition("real-grep", s, [when])


def git():
    """Globals, two levels of subcommands, `--` before paths."""
    conf = lambda: [vec("config", short="c", glob=True), opt("git_dir", "PathBuf", glob=True), flag("no_pager", short="P", glob=True), opt("work_dir", "PathBuf", short="C")]
    fmt = lambda: flat("format", struct(flag("oneline"), opt("pretty", default=("str", "medium", None, "medium")), arg("color", "optopt", "When", long=True, req_eq=True)))
    remote = struct(flag("verbose", short="v", glob=True), sub("cmd", [
        variant("Add", "struct", struct(opt("track", short="t"), flag("fetch", short="f"), pos("name"), pos("url"))), variant("Rename", "struct", struct(pos("old"), pos("new"))),
        variant("Remove", "struct", struct(pos("name"))), variant("SetUrl", "struct", struct(flag("push"), pos("name"), pos("newurl"), pos("oldurl", "opt"))), variant("Update", "unit"),
    ], True), about=["Manage set of tracked repositories"])
    stash = struct(sub("action", [
        variant("Push", "struct", struct(flag("keep_index", short="k"), opt("message", short="m", hyphen="any"), pos("pathspec", "vec", "OsString", last=True))), variant("Pop", "struct", struct(pos("stash", "opt"))),
        variant("List", "unit"), variant("Drop", "struct", struct(pos("stash", "opt", default=("str", "stash@{0}", None, "stash@{0}")))),
    ], False))
    vs = [
        variant("Commit", "newtype", struct(flag("all", short="a"), vec("message", short="m"), opt("file", "PathBuf", short="F", conflicts=["message"]), flag("amend"), flag("no_edit", requires=["amend"]), opt("author"),
                                          arg("gpg_sign", "optopt", "String", short="S", req_eq=True), pos("pathspec", "optvec", "OsString", last=True), about=["Record changes to the repository"])),
        variant("Log", "newtype", struct(fmt(), opt("max_count", "u32", short="n"), optvec("author"), pos("revision", "opt"), pos("paths", "vec", "OsString", last=True))),
        variant("Checkout", "newtype", struct(opt("branch", short="b", aliases=["new-branch"], saliases=["B"]), flag("force", short="f"), flag("detach", conflicts=["branch"]), pos("start", "opt"), pos("paths", "vec", "OsString", last=True))),
        variant("Remote", "newtype", remote), variant("Stash", "newtype", stash), variant("Exec", "struct", struct(flag("dry_run", short="n"), pos("command", "vec", "OsString", required=True, trailing=True))),
    ]
    return definition("real-git", struct(*conf(), sub("command", vs, False), about=["the stupid content tracker"]), [venum("When", ["Always", "Never", "Auto"])])


def tar():
    """A mode among exclusive ones, lists, signed numbers, everything short as well as long."""
    modes = ["create", "extract", "list", "append"]
    s = struct(*(flag(m, short=c, conflicts=[x for x in modes if x > m]) for m, c in zip(modes, "cxtr")), opt("file", "OsString", short="f"), opt("directory", "PathBuf", short="C"), flag("gzip", short="z", saliases=["Z"]),
               flag("verbose", short="v"), vec("exclude", "OsString", delim=":"), opt("level", "i8", short="l", hyphen="num", default=("t", "-1", "-1", "-1")), opt("owner", conflicts=["extract", "list"]), flag("usage", excl=True),
               opt("mode", "Hex", required=False), vec("transform", hyphen="any"), pos("members", "vec", "OsString"))
    return definition("real-tar", s, [])


def wrapper():
    """Runs another program, as env, sudo, time, xargs do."""
    s = struct(flag("ignore_environment", short="i"), vec("unset", "OsString", short="u"), opt("chdir", "PathBuf", short="C"), opt("max_procs", "i32", short="P", hyphen="num"), arg("limit", "optopt", "u32", long=True, short="l", req_eq=True),
               opt("delimiter", "char", short="d", hyphen="any"), flag("debug", glob=True), pos("first", "opt", "OsString"), pos("command", "vec", "OsString", trailing=True), about=["Run COMMAND."])
    return definition("real-wrapper", s, [])


def real():
    return [deno(), criterion(), grep(), git(), tar(), wrapper()]
