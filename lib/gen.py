"""Generator of CLI definitions: Rust source using palc's derive macros, and the same definition
as plain data for the reference interpreter (`engine/src/ir.rs`)."""
import copy
import json
import random

# ---------------------------------------------------------------- names


def _words(s):
    """Word splitting of the documented case conversions: at every non-alphanumeric character,
    between a lower and an upper case letter, and before the last capital of an acronym."""
    out = []
    cur = ""

    def flush():
        nonlocal cur
        if cur:
            out.append(cur)
        cur = ""

    chunk = []
    chunks = []
    for c in s:
        if c.isalnum():
            chunk.append(c)
        else:
            chunks.append(chunk)
            chunk = []
    chunks.append(chunk)
    for ch in chunks:
        mode = None
        cur = ""
        n = len(ch)
        for i, c in enumerate(ch):
            if i + 1 == n:
                cur += c
                break
            nx = ch[i + 1]
            nmode = "l" if c.islower() else "u" if c.isupper() else mode
            if nmode == "l" and nx.isupper():
                cur += c
                flush()
                mode = None
            elif mode == "u" and c.isupper() and nx.islower():
                flush()
                cur = c
                mode = None
            else:
                cur += c
                mode = nmode
        flush()
    return out


def _cap(w):
    return w[:1].upper() + w[1:].lower()


RENAMES = {
    "camelCase": lambda s: "".join(w.lower() if i == 0 else _cap(w) for i, w in enumerate(_words(s))),
    "kebab-case": lambda s: "-".join(w.lower() for w in _words(s)),
    "PascalCase": lambda s: "".join(_cap(w) for w in _words(s)),
    "SCREAMING_SNAKE_CASE": lambda s: "_".join(w.upper() for w in _words(s)),
    "snake_case": lambda s: "_".join(w.lower() for w in _words(s)),
    "lower": lambda s: s.lower(),
    "UPPER": lambda s: s.upper(),
    "verbatim": lambda s: s,
}
kebab = RENAMES["kebab-case"]
shouty = RENAMES["SCREAMING_SNAKE_CASE"]


def unraw(ident):
    return ident[2:] if ident.startswith("r#") else ident


def rstr(s):
    """A Rust string literal."""
    out = '"'
    for c in s:
        if c == '"' or c == "\\":
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def rchar(c):
    if c == "'" or c == "\\":
        return "'\\" + c + "'"
    if c == "\t":
        return "'\\t'"
    return "'" + c + "'"


# ---------------------------------------------------------------- pools

FIELD_IDENTS = """a b c d e f g k l m n o p q s t v w x y z
foo foob foo_bar foo_baz fo bar bar2 ba verbose verbosity very quiet output out output_file
input input_dir level max_level color no_color dry_run dry run count config conf jobs target
name names file files path paths key value values user_id x11_server v2 v2_1 utf8 is_ok a_b ab
a_1 a1 http_url https_url _under trailing_ double__under __two alpha beta gamma delta
r#type r#match r#fn r#in r#move r#loop r#use größe naïve_mode 名前 ключ élan éclair σημα number_1st
out info frame parser fields default option result string vec help_me helper version host port
""".split()
# Fields with capitals (allowed, if unusual).
CAP_IDENTS = "X fooBar HTTPServer parseXMLFile ABC aB A1b myURL camelCase SNAKE_CASE É".split()

LONGS = """foo foo-bar foob fo foobar foo-ba Foo FOO f fo-o verbose verbos verbosee very v bar bar-
ba bar2 no-color no_color nocolor color output out outpu output-file x1 1 12 0 a aa aaa aab ab b
two\x20words dot.ted colon:ed slash/ed at@ hash# {} {0} {name} %s q" q' back\\slash größe naïve 名前 名 ключ
emoji😀 help helpme hel version opt opt-1 opt-10 opt-11 opt-2 trailing- under_score x--y a,b n? $HOME ~ *
long-name-that-is-quite-a-bit-longer-than-the-others-in-this-list""".split()
LONGS = [l.replace("\x20", " ") for l in LONGS]
SHORTS = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") * 2 + list("?@#.,/:_+%!*~'\"\\{}[]^ ") + list("éß我名😀ñÀ١") + ["\u0301", "\u200b", "\U0010ffff"]

SUB_IDENTS = """Add Remove Rm List Ls Init Build Run Test Bench Check Fix Foo FooBar FooBaz Foob Bar
Commit CommitAll Push Pull Status HTTPServer HttpServer2 X11 V2 Utf8Mode MyURL ABC ABCDef A B C D AB
Help Version Show ShowAll Hello World Größe Naïve Élan Ключ R2D2 Remote Config ConfigSet Get Set
Add1 Add2 Number42 IOError PDFToXML x_y Snake_Case Type Match Loop""".split()

ENUM_IDENTS = """Auto Always Never Red Green Blue DarkRed LightBlue HTTPServer HttpServer X11 V2 Utf8 A B C AB
ABC MyURL Foo FooBar Foobar Fo FooBarBaz Größe Élan Naïve Ключ One Two Three10 Ten Yes No On Off Fast Slow
Max Min Low Medium High None_ Any All Some1 IOError PDFToXML snake_v Upper_Snake Self_ Type Match Straße İx""".split()

DOC_WORDS = """Set the level of output Use this file instead Write results to it Enable colors Maximum number
of parallel jobs {} {0} "quoted" back\\slash 100% naïve größe 名前 see: <https://example.com> [default: nothing] --not-an-option
a,b;c It's (optional) Some text {braces} #hash * star `code` e.g. UPPER x=y""".split(" ")
DOC_WORDS = [w for x in DOC_WORDS for w in x.split("\n")]

# type -> [(text, rust expression or None, displayed)]
DEFAULTS = {
    "String": [("dflt", 'String::from("dflt")', "dflt"), ("", None, ""), ("a b=c", '"a b=c".to_owned()', "a b=c"), ("-x", 'format!("-{}", "x")', "-x")],
    "OsString": [("os", None, "os"), ("-os", None, "-os")],
    "PathBuf": [("/a/b", None, "/a/b"), (".", None, ".")],
    "u8": [("0", "0", "0"), ("255", "u8::MAX", "255"), ("7", "3 + 4", "7"), ("97", "b'a'", "97"), ("255", "0xFF", "255")],
    "i8": [("-128", "i8::MIN", "-128"), ("5", "5", "5"), ("-128", "-128", "-128")],
    "i16": [("-7", "-7", "-7"), ("300", "300", "300"), ("-32768", "-0x8000", "-32768")],
    "u16": [("80", "80", "80"), ("65535", "65_535", "65535")],
    "i32": [("42", "42", "42"), ("-1", "-1", "-1"), ("6", "(2 + 1) * 2", "6"), ("2147483647", "2147483647", "2147483647"), ("-2147483648", "-2147483648", "-2147483648")],
    "u32": [("1000", "1_000", "1000"), ("7", "7u32", "7"), ("4294967295", "4294967295", "4294967295"), ("2147483648", "0x8000_0000", "2147483648")],
    "i64": [("-9223372036854775808", "i64::MIN", "-9223372036854775808"), ("0", "0", "0"), ("9223372036854775807", "9223372036854775807", "9223372036854775807"), ("-5000000000", "-5_000_000_000", "-5000000000")],
    "u64": [("18446744073709551615", "u64::MAX", "18446744073709551615"), ("3", "3", "3"), ("18446744073709551615", "0xFFFF_FFFF_FFFF_FFFF", "18446744073709551615"), ("5000000000", "5000000000", "5000000000")],
    "usize": [("1", "1", "1"), ("0", "usize::default()", "0"), ("4294967296", "4_294_967_296", "4294967296")],
    "isize": [("-1", "-1", "-1"), ("4294967296", "4294967296", "4294967296")],
    "i128": [("12", "12", "12"), ("170141183460469231731687303715884105727", "170141183460469231731687303715884105727", "170141183460469231731687303715884105727")],
    "u128": [("340282366920938463463374607431768211455", "340282366920938463463374607431768211455", "340282366920938463463374607431768211455"), ("1", "1", "1")],
    "f32": [("0.5", "0.5", "0.5"), ("16777216", "16777217.0", "16777216"), ("0.1", "0.1f32", "0.1"), ("3.1415927", "3.14159265358979", "3.1415927"), ("-1", "-1.0", "-1")],
    "f64": [("1.5", "1.5", "1.5"), ("-0.25", "-0.25", "-0.25"), ("2", "2.0", "2"), ("16777217", "16777217.0", "16777217"), ("1e3", "1e3", "1000"), ("0.1", "0.1f64", "0.1")],
    "char": [("x", "'x'", "x"), ("é", "'é'", "é")],
    "bool": [("true", "true", "true"), ("false", "false", "false")],
    "NonZeroU32": [("3", "NonZeroU32::new(3).unwrap()", "3")],
    "IpAddr": [("127.0.0.1", '"127.0.0.1".parse().unwrap()', "127.0.0.1"), ("::1", "IpAddr::V6(std::net::Ipv6Addr::LOCALHOST)", "::1")],
    "Hex": [("0xff", "Hex(255)", "0xff")],
    "Even": [("4", "Even(2 + 2)", "4")],
    "Strict": [("okay", None, "okay")],
    "Raw": [("raw", None, "raw")],
    "Both": [("ab", None, "ab")],
    "Len": [("abc", None, "abc")],
    "Counted": [("c", None, "c")],
    "Nil": [("nil", "Nil", "nil"), ("", None, "")],
    "Wide": [("w i d e", None, "w i d e"), ("", None, "")],
    "BoxOs": [("boxed", None, "boxed"), ("-b", None, "-b")],
    "ArcOs": [("arced", None, "arced")],
    "Wrap<u8>": [("7", "Wrap(7)", "<7>"), ("255", "Wrap(u8::MAX)", "<255>")],
    "Wrap<String>": [("w", 'Wrap("w".into())', "<w>")],
}
# Types of which a default can be an associated constant.
CONST_TYPES = set("u8 i8 i16 u16 i32 u32 i64 u64 usize isize i128 u128 f32 f64 char bool".split())
INHERIT = {"String": ("", ""), "u8": ("0", "0"), "i32": ("0", "0"), "usize": ("0", "0"), "f64": ("0", "0"), "Hex": ("0x0", "0x0"), "Even": ("0", "0"), "bool": ("false", "false")}

TYPES = {"String": 6, "OsString": 3, "PathBuf": 2, "u8": 2, "i32": 3, "u32": 1, "i64": 1, "usize": 1, "i8": 1, "i16": 1, "u16": 1, "u64": 1,
         "i128": 1, "u128": 1, "isize": 1, "f32": 1, "f64": 1, "char": 1, "bool": 1, "NonZeroU32": 1, "BoxOs": 1, "ArcOs": 1, "Wrap<u8>": 1, "Wrap<String>": 1, "IpAddr": 1, "Hex": 1, "Even": 1, "Strict": 1, "Raw": 1, "Both": 1, "Len": 1,
         "Counted": 1, "Nil": 1, "Wide": 1, "ENUM": 4}

PROFILE = dict(
    n_named=(1, 6), p_named=0.95, p_pos=0.5, n_pos=(1, 3), p_multi_pos=0.4, p_trailing=0.3, p_last=0.25,
    p_flat=0.3, n_flat=(1, 2), flat_depth=2, p_sub=0.4, sub_depth=2, n_var=(1, 4), p_sub_opt=0.4,
    kinds={"flag": 3, "val": 1, "opt": 4, "optopt": 1, "vec": 2, "optvec": 1},
    pos_kinds={"val": 2, "opt": 3},
    types=TYPES, p_long=0.85, p_short=0.6, p_explicit=0.5, p_alias=0.3, p_req_eq=0.12, p_global=0.15,
    p_hyphen=0.15, p_num=0.08, p_icase=0.35, p_delim=0.4, p_default=0.2, p_requires=0.12, p_conflicts=0.12,
    p_excl=0.05, p_required=0.12, p_hide=0.05, p_doc=0.25, p_vname=0.2, p_shadow=0.15, p_hard_ident=0.25,
    n_enums=(1, 2), rand_ident=0.06, p_about=0.4, p_after=0.15, p_help_attr=0.1, spell=True, p_own_help=0.05,
    enum_idents=ENUM_IDENTS,
)


class Rng(random.Random):
    def p(self, x):
        return self.random() < x

    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def weighted(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.choices(ks, [d[k] for k in ks])[0]

    def between(self, lohi):
        return self.randint(lohi[0], lohi[1])


# ---------------------------------------------------------------- building blocks


def arg(ident, kind="opt", ty="String", **kw):
    a = dict(k="arg", ident=ident, kind=kind, ty=ty, long=None, short=None, aliases=[], saliases=[], value_name=None,
             req_eq=False, glob=False, hyphen="none", icase=False, delim=None, trailing=False, last=False,
             required=False, default=None, excl=False, requires=[], conflicts=[], hide=False, doc=[], help=None,
             long_help=None)
    assert not set(kw) - set(a), kw
    a.update(kw)
    return a


def pos(ident, kind="val", ty="String", **kw):
    return arg(ident, kind, ty, **kw)


def flag(ident, **kw):
    kw.setdefault("long", True)
    return arg(ident, "flag", "bool", **kw)


def flat(ident, struct):
    return dict(k="flat", ident=ident, struct=struct)


def sub(ident, variants, optional=False, name=None):
    return dict(k="sub", ident=ident, optional=optional, enum=dict(name=name, variants=variants))


def struct(*fields, about=(), long_about=None, after=None, name=None):
    return dict(name=name, fields=list(fields), about=list(about), long_about=long_about, after=after)


def variant(ident, kind="struct", struct_=None):
    return dict(ident=ident, kind=kind, struct=struct_ if struct_ is not None else struct())


def definition(label, root, enums=()):
    return dict(label=label, root=root, enums={e["name"]: e for e in enums})


def venum(name, variants, rename=None, extra=False):
    vs = []
    for v in variants:
        vs.append(dict(ident=v, name=None) if isinstance(v, str) else dict(ident=v[0], name=v[1]))
    return dict(name=name, rename=rename, variants=vs, extra=extra)


def enum_names(e):
    f = RENAMES[e["rename"] or "kebab-case"]
    return [v["name"] if v["name"] is not None else f(unraw(v["ident"])) for v in e["variants"]]


def is_named(a):
    return a["long"] is not None or a["short"] is not None


def long_of(a):
    return kebab(unraw(a["ident"])) if a["long"] is True else a["long"]


def short_of(a):
    return unraw(a["ident"])[0] if a["short"] is True else a["short"]


def names_of(a):
    if not is_named(a):
        return set()
    s = {"--" + x for x in [*a["aliases"], long_of(a)] if x is not None}
    return s | {"-" + x for x in [*a["saliases"], short_of(a)] if x is not None}


def is_required(a):
    return a["default"] is None and (a["required"] or a["kind"] == "val")


# ---------------------------------------------------------------- to data


def paragraphs(lines):
    """Doc lines to paragraphs."""
    out = [""]
    for l in lines:
        l = l.strip()
        if not l:
            if out[-1]:
                out.append("")
        else:
            out[-1] += (" " if out[-1] else "") + l
    while out and not out[-1]:
        out.pop()
    return out


def arg_ir(a, d):
    named = is_named(a)
    vname = a["value_name"] if a["value_name"] is not None else shouty(unraw(a["ident"]))
    kind = a["kind"]
    longs = shorts = []
    if named:
        longs = [x for x in [long_of(a), *a["aliases"]] if x is not None]
        shorts = [x for x in [short_of(a), *a["saliases"]] if x is not None]
        s, l = short_of(a), long_of(a)
        desc = ", ".join(x for x in [f"-{s}" if s is not None else None, f"--{l}" if l is not None else None] if x)
        if kind == "optopt":
            desc += f"[=<{vname}>]"
        elif kind != "flag":
            desc += ("=" if a["req_eq"] else " ") + f"<{vname}>"
    else:
        desc = f"<{vname}>" if is_required(a) else f"[{vname}]"
        if kind in ("vec", "optvec"):
            desc += "..."
    dv = None
    if a["default"] is not None:
        form, text, _expr, disp = a["default"]
        dv = dict(text=text, from_str=form == "str", display=disp)
    if a["long_help"] is not None or a["help"] is not None:
        t = a["long_help"] if a["long_help"] is not None else a["help"]
        doc = [x for x in t.split("\n") if x.strip()]
    else:
        doc = paragraphs(a["doc"])
    return dict(field=unraw(a["ident"]), kind=kind, ty=a["ty"], longs=longs, shorts=shorts, pos=not named, desc=desc,
                value_name=vname, req_eq=a["req_eq"], **{"global": a["glob"]}, hyphen=a["hyphen"], icase=a["icase"],
                delim=a["delim"], trailing=a["trailing"], last=a["last"], required=is_required(a), default=dv,
                excl=a["excl"], requires=[unraw(x) for x in a["requires"]], conflicts=[unraw(x) for x in a["conflicts"]],
                hide=a["hide"], doc=doc)


def cmd_ir(s, d, meta=None):
    """`meta`: where about and after come from (the struct itself by default)."""
    meta = meta or s
    about = paragraphs(meta["about"])
    if meta["long_about"] is True:
        about = [DESCRIPTION]
    elif meta["long_about"] is not None:
        about = [x for x in meta["long_about"].split("\n") if x.strip()]
    c = dict(args=[], flats=[], sub=None, about=about, after=meta["after"] or "")
    for f in s["fields"]:
        if f["k"] == "arg":
            c["args"].append(arg_ir(f, d))
        elif f["k"] == "flat":
            c["flats"].append(dict(field=unraw(f["ident"]), cmd=cmd_ir(f["struct"], d)))
        else:
            vs = [dict(ident=unraw(v["ident"]), name=kebab(unraw(v["ident"])), kind=v["kind"], cmd=cmd_ir(v["struct"], d))
                  for v in f["enum"]["variants"]]
            c["sub"] = dict(field=unraw(f["ident"]), optional=f["optional"], variants=vs)
    return c


def def_ir(d, id):
    enums = {n: [dict(ident=unraw(v["ident"]), name=nm) for v, nm in zip(e["variants"], enum_names(e))] for n, e in d["enums"].items()}
    return dict(id=id, label=d["label"], cmd=cmd_ir(d["root"], d), enums=enums)


# ---------------------------------------------------------------- to Rust


def rust_ty(a):
    t = a["ty"]
    return {"flag": "bool", "val": t, "opt": f"Option<{t}>", "optopt": f"Option<Option<{t}>>", "vec": f"Vec<{t}>", "optvec": f"Option<Vec<{t}>>"}[a["kind"]]


def doc_attrs(lines, rng):
    out = []
    for l in lines:
        if l.startswith("/") or "\n" in l or rng.p(0.15) or any(ord(c) == 13 for c in l):
            out.append(f"#[doc = {rstr(l)}]")
        else:
            out.append(f"/// {l}".rstrip())
    return out


def arg_attrs(a, rng, spell):
    items = []
    if a["long"] is True:
        items.append("long")
    elif a["long"] is not None:
        items.append(f"long = {rstr(a['long'])}")
    if a["short"] is True:
        items.append("short")
    elif a["short"] is not None:
        items.append(f"short = {rchar(a['short'])}")

    def multi(single, plural, xs, lit):
        xs = [lit(x) for x in xs]
        if not xs:
            return
        if not spell or rng.p(0.5):
            for x in xs:
                items.append(f"{single} = {x}" if len(xs) > 1 or not spell or rng.p(0.8) or spell == "core" else f"{single} = [{x}]")
        else:
            items.append(f"{plural} = [{', '.join(xs)}{',' if rng.p(0.3) else ''}]")

    multi("alias", "aliases", a["aliases"], rstr)
    multi("short_alias", "short_aliases", a["saliases"], rchar)
    if a["value_name"] is not None:
        items.append(f"value_name = {rstr(a['value_name'])}")
    for k, n in [("req_eq", "require_equals"), ("glob", "global"), ("icase", "ignore_case"), ("trailing", "trailing_var_arg"),
                 ("last", "last"), ("required", "required"), ("excl", "exclusive"), ("hide", "hide")]:
        if a[k]:
            items.append(f"{n} = true")
    if a["hyphen"] == "any":
        items.append("allow_hyphen_values = true")
    elif a["hyphen"] == "num":
        items.append("allow_negative_numbers = true")
    if a["delim"] is not None:
        if a["delim"] == "," and spell and rng.p(0.5):
            items.append("use_value_delimiter = true")
        else:
            items.append(f"value_delimiter = {rchar(a['delim'])}")
    if a["default"] is not None:
        form, text, expr, _ = a["default"]
        items.append({"str": f"default_value = {rstr(text)}", "t": f"default_value_t = {expr}", "inherit": "default_value_t"}[form])

    def ref(x):
        # A raw identifier can be named with and without its prefix; clap knows the latter only.
        return rstr(unraw(x) if x.startswith("r#") and (spell == "core" or rng.p(0.6)) else x)

    items += [f"requires = {ref(r)}" for r in a["requires"]]
    cs = [ref(c) for c in a["conflicts"]]
    if cs and spell and rng.p(0.5):
        items.append(f"conflicts_with_all = [{', '.join(cs)}]")
    else:
        items += [f"conflicts_with = {c}" for c in cs]
    if a["help"] is not None:
        items.append(f"help = {rstr(a['help'])}")
    if a["long_help"] is not None:
        items.append(f"long_help = {rstr(a['long_help'])}")
    if a.get("value_enum_attr"):
        items.append("value_enum")
    if spell:
        rng.shuffle(items)
    out = []
    i = 0
    while i < len(items):
        n = rng.randint(1, 3) if spell and rng.p(0.4) else len(items)
        out.append(f"#[arg({', '.join(items[i:i + n])}{',' if spell and rng.p(0.1) else ''})]")
        i += n
    docs = doc_attrs(a["doc"], rng)
    if docs and spell and rng.p(0.2):
        return out + docs
    return docs + out


def cmd_attrs(s, rng, assoc=None):
    """`assoc` collects associated constants of the type, for texts written as `Self::X`."""
    def text(t):
        if assoc is None or not rng.p(0.15):
            return t
        assoc.append(f"pub const TEXT_{len(assoc)}: &'static str = {t};")
        return f"Self::TEXT_{len(assoc) - 1}"

    out = doc_attrs(s["about"], rng)
    items = []
    if s["long_about"] is True:
        items.append("long_about")
    elif s["long_about"] is not None:
        t = rstr(s["long_about"])
        items.append(f"long_about = {text(t)}" if rng.p(0.7) else f"long_about = concat!({t})")
    if s["after"] is not None:
        items.append(f"after_long_help = {text(rstr(s['after']))}")
    if items:
        if len(items) == 2 and rng.p(0.3):
            out += [f"#[command({i})]" for i in items]
        else:
            out.append(f"#[command({', '.join(items)})]")
    return out


class Emit:
    def __init__(self, d, rng, spell=True, vis="pub "):
        self.d, self.rng, self.spell, self.vis = d, rng, spell, vis
        self.items = []
        self.n = 0

    def fresh(self, base):
        self.n += 1
        return f"{base}{self.n}"

    def own_const(self, f, assoc):
        """Sometimes the default is an associated constant of the type being derived on."""
        if assoc is None or f["k"] != "arg" or not self.spell or f.get("raw") or f.get("raw_ty") or f["default"] is None or f["default"][0] != "t" or not self.rng.p(0.2):
            return f
        if f["kind"] != "flag" and (f["ty"] not in CONST_TYPES or "default()" in f["default"][2]):
            return f
        n = f"DEFAULT_{len(assoc)}"
        assoc.append(f"pub const {n}: {'bool' if f['kind'] == 'flag' else f['ty']} = {f['default'][2]};")
        return dict(f, default=("t", f["default"][1], f"Self::{n}", f["default"][3]))

    def own_consts(self, name, assoc):
        return [f"#[allow(dead_code)] impl {name} {{ {' '.join(assoc)} }}"] if assoc else []

    def fields(self, s, vis, assoc):
        out, tov = [], []
        for f in s["fields"]:
            f = self.own_const(f, assoc)
            if f["k"] == "arg":
                attrs, ty = arg_attrs(f, self.rng, self.spell), rust_ty(f)
            elif f["k"] == "flat":
                attrs, ty = ["#[command(flatten)]"], self.struct(f["struct"], "Args", "Group")
            else:
                ty = self.enum(f["enum"])
                attrs, ty = ["#[command(subcommand)]"], f"Option<{ty}>" if f["optional"] else ty
            for x in attrs:
                out.append("    " + x)
            out.append(f"    {vis}{f['ident']}: {ty},")
            tov.append((f["ident"], unraw(f["ident"])))
        return out, tov

    def struct(self, s, derive, base):
        name = s["name"] or self.fresh(base)
        assoc = []
        attrs = cmd_attrs(s, self.rng, assoc if self.spell else None)
        body, tov = self.fields(s, "pub ", assoc)
        out = attrs[: len(attrs) // 2] + [f"#[derive({derive})]"] + attrs[len(attrs) // 2:] if self.rng.p(0.2) else attrs + [f"#[derive({derive})]"]
        if derive != "Args" or any("derive" in x for x in out):
            # Helper attributes must come after the derive.
            out = [x for x in out if x.startswith("#[derive")] + [x for x in out if not x.startswith("#[derive")]
        out += [f"{self.vis}struct {name} {{"] + body + ["}"] + self.own_consts(name, assoc)
        out += [f"impl ToVal for {name} {{", "    fn to_val(&self) -> Val {",
                "        rec(vec![" + ", ".join(f'({rstr(n)}, self.{i}.to_val())' for i, n in tov) + "])", "    }", "}"]
        self.items.append("\n".join(out))
        return name

    def enum(self, e):
        name = e["name"] or self.fresh("Sub")
        out = ["#[derive(Subcommand)]", f"{self.vis}enum {name} {{"]
        arms, assoc = [], []
        texts = assoc if self.spell else None
        for v in e["variants"]:
            i, n = v["ident"], unraw(v["ident"])
            if v["kind"] == "unit":
                out += ["    " + x for x in cmd_attrs(v["struct"], self.rng, texts)]
                out.append(f"    {i},")
                arms.append(f"{name}::{i} => var({rstr(n)}, Val::Unit),")
            elif v["kind"] == "newtype":
                ty = self.struct(v["struct"], "Args", "Inner")
                out.append(f"    {i}({ty}),")
                arms.append(f"{name}::{i}(x) => var({rstr(n)}, x.to_val()),")
            else:
                out += ["    " + x for x in cmd_attrs(v["struct"], self.rng, texts)]
                body, tov = self.fields(v["struct"], "", assoc)
                out += [f"    {i} {{"] + ["    " + b for b in body] + ["    },"]
                pat = ", ".join(f"{f}: f{k}" for k, (f, _) in enumerate(tov))
                vals = ", ".join(f"({rstr(nm)}, f{k}.to_val())" for k, (_, nm) in enumerate(tov))
                arms.append(f"{name}::{i} {{ {pat} }} => var({rstr(n)}, rec(vec![{vals}])),")
        out.append("}")
        out += self.own_consts(name, assoc)
        out += [f"impl ToVal for {name} {{", "    fn to_val(&self) -> Val {", "        match self {"] + ["            " + a for a in arms] + ["            #[allow(unreachable_patterns)] _ => unreachable!(),", "        }", "    }", "}"]
        self.items.append("\n".join(out))
        return name

    def value_enum(self, e):
        n = e["name"]
        out = ["#[derive(ValueEnum, Clone)]" if self.rng.p(0.9) else "#[derive(Clone, ValueEnum)]"]
        if e["rename"] is not None:
            out.append(f"#[value(rename_all = {rstr(e['rename'])})]")
        out.append(f"{self.vis}enum {n} {{")
        for v in e["variants"]:
            if v["name"] is not None:
                out.append(f"    #[value(name = {rstr(v['name'])})]")
            out.append(f"    {v['ident']},")
        out.append("}")
        arms = "".join(f"{n}::{v['ident']} => var({rstr(unraw(v['ident']))}, Val::Unit), " for v in e["variants"])
        out.append(f"impl ToVal for {n} {{ fn to_val(&self) -> Val {{ match self {{ {arms}}} }} }}")
        if e["extra"]:
            f = e["variants"][0]["ident"]
            out.append(f"impl std::str::FromStr for {n} {{ type Err = String; fn from_str(_: &str) -> Result<Self, String> {{ Ok({n}::{f}) }} }}")
            out.append(f"impl TryFrom<&std::ffi::OsStr> for {n} {{ type Error = String; fn try_from(_: &std::ffi::OsStr) -> Result<Self, String> {{ Ok({n}::{f}) }} }}")
        self.items.append("\n".join(out))

    def module(self):
        for e in self.d["enums"].values():
            self.value_enum(e)
        root = self.struct(self.d["root"], "Parser", "Cli")
        return root, "\n".join(self.items)


KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self
Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof
unsized virtual yield try gen""".split())
NO_RAW = {"crate", "self", "Self", "super", "_"}


def random_ident(r, variant=False):
    """A random valid identifier with capitals, digits, underscores and letters of other scripts."""
    low = "abcdefghijklmnopqrstuvwxyz" * 2 + "éßñøжя名"
    up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ" * 2 + "ÉÑØЖЯ"
    while True:
        out = ""
        for _ in range(r.randint(1, 4)):
            k = r.randrange(6 if variant else 9)
            if k == 0:
                w = "".join(r.pick(up) for _ in range(r.randint(1, 4)))
            elif k == 1:
                w = "".join(r.pick("0123456789") for _ in range(r.randint(1, 2)))
            elif k in (2, 3):
                w = r.pick(up) + "".join(r.pick(low) for _ in range(r.randint(0, 4)))
            elif k == 4:
                w = "".join(r.pick(low + up) for _ in range(r.randint(1, 4)))
            else:
                w = "".join(r.pick(low) for _ in range(r.randint(1, 5)))
            out += (r.pick(["", "", "_", "_", "__"]) if not variant else r.pick(["", "", "", "_"])) + w
        if r.p(0.08):
            out += "_"
        if r.p(0.05):
            out = r.pick(sorted(KEYWORDS - NO_RAW))
        if out in KEYWORDS or r.p(0.03):
            if out in NO_RAW or out[0].isdigit():
                continue
            return "r#" + out
        if out[0].isdigit() or not out.isidentifier() or not kebab(out):
            continue
        return out


# ---------------------------------------------------------------- random definitions


class DefGen:
    def __init__(self, rng, prof, label):
        self.rng = rng
        self.p = dict(PROFILE)
        self.p.update(prof)
        self.label = label

    def enums(self):
        r, out = self.rng, []
        for i in range(r.between(self.p["n_enums"])):
            for _ in range(50):
                rename = r.pick([None, None, None, *RENAMES])
                n = r.randint(1, 6)
                vs = [dict(ident=x, name=None) for x in r.sample(self.p["enum_idents"], n)]
                for v in vs:
                    if r.p(self.p["rand_ident"]):
                        v["ident"] = random_ident(r, True)
                if len({unraw(v["ident"]) for v in vs}) != n:
                    continue
                for v in vs:
                    if r.p(0.15):
                        v["name"] = r.pick(["x", "X", "", "two words", "a,b", "-dash", "é", "É", "a=b", "名", "10", "k\u212a", "foo-bar-baz", "{}", "[x]", "\u017f", "none"])
                e = dict(name=f"E{i + 1}", rename=rename, variants=vs, extra=r.p(0.3))
                ns = enum_names(e)
                if len(set(ns)) == len(ns) and all(x.isprintable() for x in ns):
                    break
            else:
                e = venum(f"E{i + 1}", ["Auto", "Never"])
            out.append(e)
        return {e["name"]: e for e in out}

    def ident(self, used, hard=None):
        r = self.rng
        for _ in range(200):
            x = random_ident(r) if r.p(self.p["rand_ident"]) else r.pick(CAP_IDENTS) if r.p((hard if hard is not None else self.p["p_hard_ident"]) * 0.4) else r.pick(FIELD_IDENTS)
            if unraw(x) not in used and kebab(unraw(x)):
                used.add(unraw(x))
                return x
        n = len(used)
        used.add(f"field_{n}")
        return f"field_{n}"

    def ty(self, kind, icase_ok=False):
        t = self.rng.weighted(self.p["types"])
        if t == "ENUM":
            t = self.rng.pick(sorted(self.d["enums"]))
        if kind == "val" and t == "bool":
            t = "String"
        return t

    def lower_only(self, t):
        e = self.d["enums"].get(t)
        return e is not None and all(not c.isascii() or not c.isupper() for n in enum_names(e) for c in n)

    def defaults(self, t):
        e = self.d["enums"].get(t)
        if e is not None:
            return [(n, f"{t}::{v['ident']}", n) for v, n in zip(e["variants"], enum_names(e))]
        return DEFAULTS[t]

    def make_default(self, a):
        r, t = self.rng, a["ty"]
        if a["kind"] == "flag":
            b = r.pick(["true", "false"])
            return ("inherit", "false", None, "false") if r.p(0.2) else ("t", b, b, b)
        text, expr, disp = r.pick(self.defaults(t))
        if a["kind"] in ("vec", "optvec"):
            if a["delim"] is not None:
                pieces = [x[0] for x in self.defaults(t) if a["delim"] not in x[0]]
                if not pieces:
                    return None
                text = a["delim"].join(r.pick(pieces) for _ in range(r.randint(1, 3)))
            return ("str", text, None, text)
        if a["kind"] == "optopt":
            return ("str", text, None, text)
        if a["kind"] in ("val", "opt") and t in INHERIT and r.p(0.2):
            return ("inherit", INHERIT[t][0], None, INHERIT[t][1])
        if expr is not None and r.p(0.6) and t not in ("OsString", "PathBuf"):
            return ("t", text, expr, disp)
        return ("str", text, None, text)

    def doc(self):
        r = self.rng
        out = []
        for i in range(r.randint(1, 4)):
            if i and r.p(0.3):
                out.append("")
            out.append(" ".join(r.pick(DOC_WORDS) for _ in range(r.randint(1, 7))))
        return [x for x in out if not x.startswith("/")] or ["Text."]

    def vname(self):
        return self.rng.pick(["FILE", "N", "KEY=VALUE", "名", "a b", "<X>", "...", "{}", "x", "%s", "[Y]", "lower_case", "'q'", "", "  "])

    def one_named(self, ids, names, prefer=None):
        """`names`: names which may not be used again."""
        r, p = self.rng, self.p
        for _ in range(100):
            used = set(ids)
            kind = r.weighted(p["kinds"])
            a = arg(self.ident(used), kind, "bool" if kind == "flag" else self.ty(kind))
            long = r.p(p["p_long"])
            short = r.p(p["p_short"]) or not long
            if long:
                a["long"] = r.pick(LONGS) if r.p(p["p_explicit"]) else True
                if prefer and r.p(p["p_shadow"]):
                    c = sorted(x[2:] for x in prefer if x.startswith("--"))
                    if c:
                        a["long"] = r.pick(c)
            if short:
                a["short"] = r.pick(SHORTS) if r.p(p["p_explicit"]) else True
                if prefer and r.p(p["p_shadow"]):
                    c = sorted(x[1:] for x in prefer if not x.startswith("--"))
                    if c:
                        a["short"] = r.pick(c)
            if r.p(p["p_own_help"]):
                if r.p(0.5):
                    a["long"] = "help"
                else:
                    a["short"] = "h"
            while r.p(p["p_alias"]) and len(a["aliases"]) < 3:
                a["aliases"].append(r.pick(LONGS))
            while r.p(p["p_alias"]) and len(a["saliases"]) < 3:
                a["saliases"].append(r.pick(SHORTS))
            l, s = long_of(a), short_of(a)
            if l is not None and (not l or l.startswith("-") or "=" in l):
                continue
            if s is not None and (s in "-=" or ord(s[0]) < 32):
                continue
            ns = names_of(a)
            declared = [x for x in [l, *a["aliases"]] if x is not None] + [x for x in [s, *a["saliases"]] if x is not None]
            if len(ns) != len(declared) or ns & names:
                continue
            ids |= used
            names |= ns
            break
        else:
            return None
        if kind == "optopt":
            a["req_eq"] = True
        elif kind != "flag":
            a["req_eq"] = r.p(p["p_req_eq"])
            if not a["req_eq"]:
                x = r.random()
                if x < p["p_hyphen"]:
                    a["hyphen"] = "any"
                elif x < p["p_hyphen"] + p["p_num"]:
                    a["hyphen"] = "num"
        a["glob"] = r.p(p["p_global"])
        if self.lower_only(a["ty"]) and r.p(p["p_icase"]):
            a["icase"] = True
        if a["ty"] in self.d["enums"] and r.p(0.3):
            a["value_enum_attr"] = True
        self.common(a)
        return a

    def common(self, a):
        r, p = self.rng, self.p
        if a["kind"] in ("vec", "optvec") and r.p(p["p_delim"]):
            a["delim"] = r.pick([",", ",", ";", ":", "我", "|", " ", "é", "/", "\t", "="])
        if r.p(p["p_default"]) and not (not is_named(a) and a["last"]):
            a["default"] = self.make_default(a)
        elif r.p(p["p_required"]) and a["kind"] != "val":
            a["required"] = True
        if r.p(p["p_vname"]):
            a["value_name"] = self.vname()
        a["hide"] = r.p(p["p_hide"])
        if r.p(p["p_doc"]):
            a["doc"] = self.doc()
        if r.p(p["p_help_attr"]):
            a[r.pick(["help", "long_help"])] = "\n".join(" ".join(r.pick(DOC_WORDS) for _ in range(3)) for _ in range(r.randint(1, 2)))

    def group(self, depth, ids_names, prefer):
        """A flattened struct: named arguments only."""
        r, p = self.rng, self.p
        ids, names = set(), ids_names
        s = struct()
        for _ in range(r.between((0 if r.p(0.1) else 1, 4))):
            a = self.one_named(ids, names, prefer)
            if a:
                s["fields"].append(a)
        if depth > 0 and r.p(p["p_flat"]):
            for _ in range(r.between(p["n_flat"])):
                # Before or after.
                f = flat(self.ident(ids), self.group(depth - 1, names, prefer))
                s["fields"].insert(r.randint(0, len(s["fields"])), f)
        self.constraints(s)
        return s

    def constraints(self, s):
        r, p = self.rng, self.p
        args = [f for f in s["fields"] if f["k"] == "arg"]
        if len(args) >= 2:
            def how_many():
                return r.pick([4, 6, 9, 12]) if r.p(0.12) else 1 + r.p(0.3)

            for a in args:
                if r.p(p["p_requires"]):
                    for _ in range(how_many()):
                        b = r.pick([x for x in args if x is not a])
                        if b["ident"] not in a["requires"]:
                            a["requires"].append(b["ident"])
                if r.p(p["p_conflicts"]):
                    for _ in range(how_many()):
                        b = r.pick([x for x in args if x is not a])
                        if is_required(b) and not r.p(0.1):
                            continue
                        if b["ident"] not in a["conflicts"] and b["ident"] not in a["requires"]:
                            a["conflicts"].append(b["ident"])
        if not any(f["k"] == "flat" for f in s["fields"]):
            for a in args:
                if r.p(p["p_excl"]):
                    a["excl"] = True
        return s

    def about(self, s):
        r, p = self.rng, self.p
        if r.p(p["p_about"]):
            s["about"] = self.doc()
        if r.p(p["p_about"] * 0.25):
            s["long_about"] = True if r.p(0.25) else "\n".join(" ".join(r.pick(DOC_WORDS) for _ in range(3)) for _ in range(r.randint(1, 2)))
        if r.p(p["p_after"]):
            s["after"] = " ".join(r.pick(DOC_WORDS) for _ in range(4))
        return s

    def command(self, depth, outer_names, top=False):
        """A struct with anything in it."""
        r, p = self.rng, self.p
        ids, names = set(), set()
        s = struct()
        if r.p(p["p_named"]):
            for _ in range(r.between(p["n_named"])):
                a = self.one_named(ids, names, outer_names)
                if a:
                    s["fields"].append(a)
        if r.p(p["p_flat"]):
            direct = set(names)
            for _ in range(r.between(p["n_flat"])):
                # A direct name may be shadowing one of the group; the group may not collide with others.
                g = self.group(p["flat_depth"] - 1, names, outer_names)
                if direct and r.p(p["p_shadow"]):
                    self.shadow(g, direct, names)
                s["fields"].insert(r.randint(0, len(s["fields"])), flat(self.ident(ids), g))
        if r.p(p["p_pos"]):
            for a in self.positionals(ids):
                lo = max([i + 1 for i, f in enumerate(s["fields"]) if f["k"] == "arg" and not is_named(f)], default=0)
                s["fields"].insert(r.randint(lo, len(s["fields"])), a)
        if depth > 0 and r.p(p["p_sub"]):
            f = self.subcommand(ids, depth, outer_names | names)
            s["fields"].insert(r.randint(0, len(s["fields"])), f)
        self.constraints(s)
        return self.about(s)

    def shadow(self, g, direct, names):
        """Give one argument of the group an extra name equal to a direct one, which is then unreachable."""
        r = self.rng
        args = [f for f in g["fields"] if f["k"] == "arg"]
        if not args:
            return
        a = r.pick(args)
        n = r.pick(sorted(direct))
        if n in names_of(a):
            return
        others = set().union(*[names_of(x) for x in args])
        if n in others:
            return
        if n.startswith("--"):
            a["aliases"].append(n[2:])
        else:
            a["saliases"].append(n[1:])

    def positionals(self, ids):
        r, p = self.rng, self.p
        out = []
        for _ in range(r.between(p["n_pos"])):
            kind = r.weighted(p["pos_kinds"])
            a = pos(self.ident(ids), kind, self.ty(kind))
            self.common(a)
            out.append(a)
        if r.p(p["p_multi_pos"]):
            kind = r.pick(["vec", "vec", "optvec"])
            a = pos(self.ident(ids), kind, self.ty(kind))
            a["trailing"] = r.p(p["p_trailing"])
            self.common(a)
            out.append(a)
        if r.p(p["p_last"]):
            kind = r.pick(["vec", "optvec"])
            a = pos(self.ident(ids), kind, self.ty(kind))
            a["last"] = True
            self.common(a)
            out.append(a)
        return out

    def subcommand(self, ids, depth, outer_names):
        r, p = self.rng, self.p
        vs, names = [], set()
        for _ in range(r.between(p["n_var"])):
            x = random_ident(r, True) if r.p(self.p["rand_ident"]) else r.pick(SUB_IDENTS)
            n = kebab(unraw(x))
            if n in names:
                continue
            names.add(n)
            kind = r.pick(["unit", "newtype", "struct", "struct"])
            if kind == "unit":
                v = variant(x, "unit", self.about(struct()))
            else:
                v = variant(x, kind, self.command(depth - 1, outer_names))
            vs.append(v)
        return sub(self.ident(ids), vs, r.p(p["p_sub_opt"]))

    def make(self):
        self.d = dict(label=self.label, root=None, enums={})
        self.d["enums"] = self.enums()
        self.d["root"] = self.command(self.p["sub_depth"], set(), top=True)
        return self.d


def twin(d, rng):
    """The same definition with the named fields declared in another order."""
    t = copy.deepcopy(d)

    def visit(s):
        at = [i for i, f in enumerate(s["fields"]) if f["k"] == "arg" and is_named(f)]
        fs = [s["fields"][i] for i in at]
        rng.shuffle(fs)
        rest = [f for f in s["fields"] if not (f["k"] == "arg" and is_named(f))]
        # Named fields also move relative to the others.
        out = list(rest)
        for f in fs:
            out.insert(rng.randint(0, len(out)), f)
        s["fields"] = out
        for f in s["fields"]:
            if f["k"] == "flat":
                visit(f["struct"])
            elif f["k"] == "sub":
                for v in f["enum"]["variants"]:
                    visit(v["struct"])

    visit(t["root"])
    return t


# ---------------------------------------------------------------- output

DESCRIPTION = "Package description of the generated crate."

PRELUDE = """    use engine::*;
    use palc::{Args, Parser, Subcommand, ValueEnum};
    use std::ffi::OsString;
    use std::net::IpAddr;
    use std::num::NonZeroU32;
    use std::path::PathBuf;
"""


def emit_def(d, id, seed, prelude=PRELUDE):
    rng = Rng(f"{seed}/{id}/emit")
    # "core": only spellings which clap takes as well.
    root, body = Emit(d, rng, "core" if d.get("core") else True).module()
    body = "\n".join("    " + l if l and not l.startswith("#![") else l for l in body.split("\n"))
    return root, f"pub mod d{id} {{\n{prelude}{body}\n}}\n"


def weight(d):
    return len(json.dumps(d["root"])) + 200


def write(path, text):
    """Rewrites a file only if it differs, so that builds are incremental."""
    try:
        if path.read_text() == text:
            return
    except OSError:
        pass
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(text)


CLAP_PRELUDE = PRELUDE.replace("use palc::", "use clap::")


def write_workspace(root, defs, seed, crates=8, glue="../../glue", help_on=True, extra_profile="", prelude=PRELUDE, tag="", main="", clap=False):
    """`defs`: list of (id, definition). Writes the workspace and `ir.json`.
    `clap`: the same source also against clap, in crates of their own."""
    n = max(1, min(crates, len(defs)))
    bins = [[0, []] for _ in range(n)]
    for id, d in sorted(defs, key=lambda x: -weight(x[1])):
        b = min(bins, key=lambda b: b[0])
        b[0] += weight(d)
        b[1].append((id, d))
    members = []
    feat = 'features = ["help"]' if help_on else "features = []"
    for i, (_, ds) in enumerate(bins):
        name = f"{tag}g{i}"
        members.append(name)
        write(root / name / "Cargo.toml", f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2024"
publish = false
description = "{DESCRIPTION}"

[dependencies]
engine = {{ path = "/verif/engine" }}
glue = {{ path = "/verif/glue" }}
palc = {{ path = "/repo", default-features = false }}
""")
        text = "#![allow(warnings)]\n"
        entries = []
        for id, d in sorted(ds, key=lambda x: x[0]):
            r, body = emit_def(d, id, seed, prelude)
            text += body
            entries.append(f"        glue::entry::<d{id}::{r}>({id}),")
        text += "pub fn entries() -> Vec<engine::Entry> {\n    vec![\n" + "\n".join(entries) + "\n    ]\n}\n"
        write(root / name / "src/lib.rs", text)
        if clap:
            name = f"{tag}k{i}"
            members.append(name)
            write(root / name / "Cargo.toml", f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2024"
publish = false
description = "{DESCRIPTION}"

[dependencies]
engine = {{ path = "/verif/engine" }}
glueclap = {{ path = "/verif/glueclap" }}
clap = {{ version = "=4.6.1", default-features = false, features = ["std", "derive"] }}
""")
            write(root / name / "src/lib.rs", text.replace(prelude, CLAP_PRELUDE).replace("glue::entry", "glueclap::entry").replace("engine::Entry", "engine::clapcmp::Entry"))
    write(root / "worker/Cargo.toml", f"""[package]
name = "{tag}worker"
version = "0.1.0"
edition = "2024"
publish = false

[dependencies]
engine = {{ path = "/verif/engine" }}
glue = {{ path = "/verif/glue", {feat} }}
""" + "".join(f'{m} = {{ path = "../{m}" }}\n' for m in members))
    write(root / "worker/src/main.rs", main + "fn main() {\n    let mut e = vec![];\n" + ("    let mut c = vec![];\n" if clap else "") + "".join(f"    {'c' if m.startswith(tag + 'k') else 'e'}.extend({m}::entries());\n" for m in members)
          + ("    engine::clapcmp::set(c);\n" if clap else "") + "    engine::worker::main(&e);\n}\n")
    write(root / "Cargo.toml", f"""[workspace]
resolver = "3"
members = [{', '.join(f'"{m}"' for m in [*members, 'worker'])}]

[profile.dev]
opt-level = 0
debug = 1
incremental = false
panic = "unwind"
{extra_profile}
[profile.dev.package.engine]
opt-level = 2
[profile.dev.package.serde_json]
opt-level = 2
""" + ("""[profile.dev.package.clap_builder]
opt-level = 2
""" if clap else ""))
    ir = [def_ir(d, id) for id, d in sorted(defs, key=lambda x: x[0])]
    write(root / "ir.json", json.dumps(ir, ensure_ascii=False))
    return {id: next(f"{tag}g{i}" for i, (_, ds) in enumerate(bins) if any(x == id for x, _ in ds)) for id, _ in defs}
