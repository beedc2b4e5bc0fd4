"""Handcrafted definitions at the limits, built from the same blocks as the random ones."""
from real import real
from gen import Rng, arg, definition, flag, flat, pos, struct, sub, variant, venum, unraw

VTYPES = ["String", "OsString", "u32", "i32", "E1"]
SMALL = [venum("E1", ["Auto", "Never", "Always"])]


def _named(i, r, prefix="f"):
    """One named argument with a systematic name."""
    k = r.weighted({"flag": 3, "opt": 4, "vec": 2, "optvec": 1, "optopt": 1})
    a = arg(f"{prefix}{i}", k, "bool" if k == "flag" else r.pick(VTYPES), long=True)
    if k == "optopt":
        a["req_eq"] = True
    if k in ("vec", "optvec") and r.p(0.4):
        a["delim"] = ","
    if k == "opt" and r.p(0.2):
        a["default"] = {"String": ("str", "d", None, "d"), "OsString": ("str", "d", None, "d"), "u32": ("t", "7", "7", "7"), "i32": ("t", "-1", "-1", "-1"),
                        "E1": ("str", "never", None, "never")}[a["ty"]]
    if k not in ("optopt", "flag") and r.p(0.15):
        a["hyphen"] = "any"
    a["glob"] = r.p(0.1)
    return a


SHORT_CHARS = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?@#.,/:_+%!*~^"


def many_named(n, seed, cross=True, subs=False):
    r = Rng(f"many_named/{n}/{seed}")
    fs = [_named(i, r) for i in range(n)]
    for i, c in zip(r.sample(range(n), min(n, len(SHORT_CHARS))), SHORT_CHARS):
        fs[i]["short"] = c
    if cross:
        ends = [0, 1, 7, 8, 31, 32, 63, 64, 65, 126, 127, 128, 129, 191, 192, 252, 253]
        ends = [e for e in ends if e < n]
        for _ in range(12):
            a, b = r.sample(ends, 2) if r.p(0.7) else r.sample(range(n), 2)
            kind = r.pick(["requires", "conflicts"])
            if f"f{b}" not in fs[a]["requires"] + fs[a]["conflicts"]:
                fs[a][kind].append(f"f{b}")
        # Long lists of references.
        free = [i for i in range(20, n - 20) if not fs[i]["requires"] + fs[i]["conflicts"]]
        a, b = r.sample(free, 2)
        fs[a]["requires"] = [f"f{i}" for i in r.sample(free, min(12, len(free))) if i not in (a, b)]
        fs[b]["conflicts"] = [f"f{i}" for i in r.sample(free, min(30, len(free))) if i not in (a, b)]
        for _ in range(2):
            fs[r.pick(ends)]["excl"] = True
        x = r.pick(ends)
        if fs[x]["default"] is None and not fs[x]["conflicts"]:
            fs[x]["required"] = r.p(0.5)
    if subs:
        fs[-1] = sub("command", [variant("Run", "struct", struct(flag("quick", short="q"), pos("what", "opt"))), variant("Stop", "unit")], True)
    return definition(f"big-named-{n}", struct(*fs), SMALL)


def many_pos(n, seed, tail=None):
    r = Rng(f"many_pos/{n}/{seed}")
    fs = [pos(f"p{i}", "val" if i < n // 4 and i % 3 == 0 else "opt", r.pick(["String", "OsString", "u32"])) for i in range(n)]
    # A required positional after an optional one is still filled in order.
    if tail == "vec":
        fs[-1] = pos(f"p{n - 1}", "vec", "String")
    elif tail == "trailing":
        fs[-1] = pos(f"p{n - 1}", "vec", "OsString", trailing=True)
    elif tail == "last":
        fs[-1] = pos(f"p{n - 1}", "optvec", "OsString", last=True)
    return definition(f"big-pos-{n}-{tail}", struct(*fs), SMALL)


def mixed(n_named, n_pos, seed, tail="vec"):
    r = Rng(f"mixed/{n_named}/{n_pos}/{seed}")
    fs = [_named(i, r) for i in range(n_named)]
    for i, c in zip(r.sample(range(n_named), min(n_named, len(SHORT_CHARS))), SHORT_CHARS):
        fs[i]["short"] = c
    ps = [pos(f"p{i}", "opt", r.pick(["String", "u32"])) for i in range(n_pos - 1)]
    ps.append(pos("rest", "vec", "OsString", trailing=tail == "trailing", last=tail == "last"))
    at = sorted(r.sample(range(n_named + n_pos), n_pos))
    out = []
    for i in range(n_named + n_pos):
        out.append(ps.pop(0) if at and at[0] == i and at.pop(0) == i else fs.pop(0))
    return definition(f"big-mixed-{n_named}-{n_pos}-{tail}", struct(*out), SMALL)


def many_subs(n, seed):
    r = Rng(f"many_subs/{n}/{seed}")
    vs = []
    for i in range(n):
        name = f"Cmd{i}" if i % 2 else f"C{'x' * (i % 40)}{i}"
        k = r.pick(["unit", "struct", "unit"])
        s = struct() if k == "unit" else struct(flag(f"flag_{i}", short=True), pos("p", "opt", "String"))
        vs.append(variant(name, k, s))
    return definition(f"big-subs-{n}", struct(flag("verbose", short="v", glob=True), pos("first", "opt"), sub("cmd", vs, r.p(0.5))), [])


def many_values(n, seed):
    vs = [f"Value{i}" if i % 3 else (f"V{i}", f"v{'-' * (i % 7)}{i}") for i in range(n)]
    e = venum("E1", vs)
    return definition(f"big-values-{n}", struct(
        arg("one", "opt", "E1", long=True, short="o", icase=True), arg("many", "vec", "E1", long=True, short="m", delim=","),
        arg("dflt", "opt", "E1", long=True, default=("str", f"value{n - 1 if (n - 1) % 3 else n - 2}", None, f"value{n - 1 if (n - 1) % 3 else n - 2}")),
        pos("p", "opt", "E1")), [e])


def deep_subs(depth, seed, optional=False):
    r = Rng(f"deep_subs/{depth}/{seed}")
    s = None
    for lvl in reversed(range(depth)):
        fs = [arg(f"global{lvl}", r.pick(["flag", "opt", "vec", "optopt"]), "String", long=True, glob=True),
              flag(f"local{lvl}", short=SHORT_CHARS[lvl]), arg("same", "opt", "String", long=True, short="S", glob=r.p(0.5))]
        for f in fs:
            if f["kind"] == "flag":
                f["ty"] = "bool"
            if f["kind"] == "optopt":
                f["req_eq"] = True
        if lvl % 3 == 0:
            fs.append(flat("group", struct(arg(f"grp{lvl}", "vec", "String", long=True, glob=True, short=SHORT_CHARS[30 + lvl]))))
        if r.p(0.4):
            fs.append(pos("p", "opt", "String"))
        if s is not None:
            vs = [variant(f"Level{lvl + 1}", "newtype" if lvl % 2 else "struct", s), variant(f"Other{lvl + 1}", "unit")]
            fs.append(sub("next", vs, optional or r.p(0.3)))
        s = struct(*fs)
    return definition(f"deep-subs-{depth}", s, [])


def deep_flats(depth, seed, width=1):
    r = Rng(f"deep_flats/{depth}/{width}/{seed}")
    n = [0]

    def group(d):
        fs = []
        for _ in range(2):
            a = _named(n[0], r, "g")
            if n[0] < len(SHORT_CHARS) and r.p(0.7):
                a["short"] = SHORT_CHARS[n[0]]
            n[0] += 1
            fs.append(a)
        if r.p(0.3):
            fs[0]["requires" if r.p(0.5) else "conflicts"].append(fs[1]["ident"])
        if d > 0:
            for k in range(width):
                fs.insert(r.randint(0, len(fs)), flat(f"sub{k}", group(d - 1)))
        return struct(*fs)

    s = group(depth)
    s["fields"].append(pos("p", "vec", "String"))
    return definition(f"deep-flat-{depth}-{width}", s, SMALL)


def wide_flats(n, seed):
    r = Rng(f"wide_flats/{n}/{seed}")
    fs = []
    for i in range(n):
        g = struct(_named(2 * i, r, "w"), _named(2 * i + 1, r, "w"))
        if i % 5 == 0:
            g["fields"].append(arg(f"need{i}", "val", "String", long=True) if i == 0 else arg(f"w{2 * i}x", "vec", "u32", long=True, delim=";"))
        fs.append(flat(f"g{i}", g))
    fs.append(sub("cmd", [variant("Go", "struct", struct(flag("fast"))), variant("Halt", "unit")], True))
    return definition(f"wide-flat-{n}", struct(*fs), SMALL)


def needy(seed):
    """Many required options, on the struct itself and in groups of which few, late ones have anything optional."""
    r = Rng(f"needy/{seed}")
    n = [0]

    def req(pre):
        n[0] += 1
        return arg(f"{pre}{n[0]}", "val", r.pick(["String", "u32", "OsString"]), long=True, short=SHORT_CHARS[n[0]] if n[0] < len(SHORT_CHARS) and r.p(0.5) else None,
                   value_name=r.pick([None, "V" * r.randint(1, 20)]), req_eq=r.p(0.2))

    def shape(direct, groups, optional_at, nested_at):
        fs = [req("d") for _ in range(direct)]
        for g in range(groups):
            own = [req("g") for _ in range(r.randint(1, 3))]
            if g == nested_at:
                own.append(flat(f"in{g}", struct(req("i"), flat(f"inin{g}", struct(req("j"), *([flag("deep")] if optional_at == -1 else []))))))
            if g == optional_at:
                own.insert(r.randint(0, len(own)), flag(f"maybe{g}"))
            fs.insert(r.randint(0, len(fs)), flat(f"g{g}", struct(*own)))
        return fs

    inner = struct(*shape(2, 4, r.randint(2, 3), None))
    none = struct(*shape(1, 3, None, 1))
    s = struct(*shape(r.randint(4, 12), 5, r.pick([-1, 3, 4]), r.randint(0, 4)), sub("cmd", [variant("Run", "struct", inner), variant("Bare", "struct", none)], True))
    return definition("wide-needy", s, SMALL)


def broad_flats(n, seed):
    """Groups as long as the struct they are in, one of them in another."""
    r = Rng(f"broad_flats/{n}/{seed}")
    k = [0]

    def many(m):
        out = []
        for _ in range(m):
            a = _named(k[0], r, "b")
            if k[0] % 3 == 0 and k[0] // 3 < len(SHORT_CHARS):
                a["short"] = SHORT_CHARS[k[0] // 3]
            k[0] += 1
            out.append(a)
        return out

    direct, one, two, three = many(n), many(n), many(n), many(2)
    inner = struct(*two[:n // 2], flat("three", struct(*three)), *two[n // 2:])
    s = struct(*direct[:n // 3], flat("one", struct(*one)), *direct[n // 3:], flat("two", inner), sub("cmd", [variant("Go", "struct", struct(*many(n), flat("own", struct(*many(3)))))], True))
    return definition(f"wide-broad-{n}", s, SMALL)


def prefixes(n, seed):
    """Names which are prefixes of each other, of every length."""
    r = Rng(f"prefixes/{n}/{seed}")
    fs = []
    for i in range(1, n + 1):
        k = ["flag", "opt", "vec"][i % 3]
        fs.append(arg(f"n{i}", k, "bool" if k == "flag" else "String", long="a" * i, aliases=["a" * i + "-b"] if i % 2 else [], glob=i % 4 == 0))
    fs.append(sub("cmd", [variant("A" + "a" * i, "unit" if i % 2 else "struct", struct()) for i in range(0, n)], True))
    return definition(f"prefixes-{n}", struct(*fs), [])


WORDS = "the value of what is given here and then some more of it, which nobody reads; see also: naïve Größe 我 (1) [2] {3} %s \\ \" ' <x> --other".split()


def texts(seed):
    """Names and descriptions far longer than anybody's."""
    r = Rng(f"texts/{seed}")

    def text(n):
        out = ""
        while len(out) < n:
            out += r.pick(WORDS) + " "
        return out[:n].strip()

    fs = []
    for i, n in enumerate([31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 400, 1000]):
        k = r.pick(["flag", "opt", "vec", "opt", "optopt"])
        a = arg(f"t{i}", k, "bool" if k == "flag" else r.pick(VTYPES), long=f"n{i}-" + "long" * (n // 4), req_eq=k == "optopt")
        a["aliases"] = ["alias" + "x" * r.pick([50, 123, 249, 600]) + str(i)] if r.p(0.3) else []
        a["value_name"] = r.pick(["W", "Ä", "Some thing "]) * r.pick([20, 64, 127, 300]) + "Z" if r.p(0.4) else None
        a["doc"] = [text(n * 3)] + ([text(60), "", text(900)] if r.p(0.5) else [])
        if r.p(0.2):
            a["long_help"] = text(2500)
        if k == "opt" and a["ty"] in ("String", "OsString") and r.p(0.8):
            t = text(r.pick([100, 300, 1000]))
            a["default"] = ("str", t, None, t)
        if i % 4 == 1:
            a["glob"] = True
        fs.append(a)
    fs.append(arg("f_" + "ident_" * 50 + "end", "opt", "E1", long=True, short=True))
    fs.append(pos("p_" + "place" * 40, "opt", "String", doc=[text(500)]))
    inner = struct(arg("inner_" + "name" * 70, "vec", "OsString", long=True, doc=[text(700)]), pos("rest", "vec", "String", value_name="V" * 256), about=[text(800), "", text(100)], after=text(1500))
    fs.append(sub("cmd", [variant("Run" + "Very" * 80, "struct", inner), variant("R" + "u" * 254, "unit"), variant("Stop", "struct", struct(flag("now"), about=[text(2000)]))], True))
    s = struct(*fs, about=[text(5000), "", text(300)], after=text(3000))
    names = [("A", "auto"), ("B", "b" * 255), ("C", "b" * 256), "D" + "efgh" * 100]
    return definition("big-texts", s, [venum("E1", ["Never", "Always", *names])])


def boundary(seed, scale=1):
    out = [
        many_named(254, seed), many_named(254, seed + 1000, subs=False), many_named(254, seed + 7, cross=False, subs=True), many_named(129, seed), many_named(65, seed),
        many_pos(254, seed), many_pos(254, seed, "vec"), many_pos(254, seed, "trailing"), many_pos(254, seed, "last"), many_pos(130, seed, "vec"),
        mixed(200, 54, seed), mixed(54, 200, seed, "last"), mixed(120, 134, seed, "trailing"), mixed(253, 1, seed, "trailing"), mixed(253, 1, seed, "last"), mixed(1, 253, seed),
        many_subs(300, seed), many_subs(257, seed), many_values(300, seed), many_values(40, seed),
        deep_subs(10, seed), deep_subs(16, seed), deep_subs(6, seed, True), deep_flats(10, seed), deep_flats(5, seed, 2), deep_flats(20, seed), wide_flats(30, seed), wide_flats(100, seed),
        prefixes(30, seed), prefixes(70, seed), texts(seed), texts(seed + 1),
        needy(seed), needy(seed + 1), needy(seed + 2), broad_flats(60, seed), broad_flats(200, seed),
    ]
    return out + real()


def boundary_few(seed):
    """The ones every check includes."""
    return [many_named(254, seed), many_pos(130, seed, "vec"), mixed(54, 76, seed, "last"), many_subs(60, seed), many_values(40, seed), deep_subs(11, seed), deep_flats(6, seed),
            wide_flats(20, seed), prefixes(20, seed), texts(seed), needy(seed), needy(seed + 1), broad_flats(45, seed)] + real()


def huge(seed):
    """Small definitions for huge command lines."""
    s = struct(flag("verbose", short="v"), arg("name", "opt", "OsString", long=True, short="n", hyphen="any"), arg("list", "vec", "OsString", long=True, short="l"),
               arg("split", "vec", "String", long=True, short="s", delim=","), arg("num", "optvec", "u32", long=True, short="N", delim=","),
               pos("rest", "vec", "OsString"))
    t = struct(arg("list", "vec", "String", long=True, short="l", glob=True), sub("cmd", [variant("Run", "struct", struct(flag("quick", short="q"), pos("args", "vec", "OsString", trailing=True)))], True))
    u = struct(flag("a", short="a"), arg("o", "opt", "PathBuf", short="o"), pos("p", "opt", "String"), pos("tail", "optvec", "OsString", last=True))
    return [definition("huge-flat", s), definition("huge-sub", t), definition("huge-last", u)]
