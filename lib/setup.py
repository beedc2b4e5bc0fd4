"""Prebuilds what every check needs, so that a check compiles only its own definitions."""
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import c20
import c24
import campaign
import gen
import harness
import special
from harness import TARGET, WORK

defs = campaign.definitions("setup", 1, 2, {}, boundary=False)
for target, help_on, kw in [("main", True, {}), ("nohelp", False, {}), ("asan", True, special.ASAN)]:
    ws = WORK / f"setup_{target}"
    gen.write_workspace(ws, defs, 1, crates=1, tag=f"setup_{target}_", help_on=help_on)
    exe, bad = harness.build(ws, TARGET / target, f"setup_{target}_worker", **kw)
    if bad:
        print("setup: a definition is rejected", bad)
    print("setup:", exe)
    if target == "main":
        main = exe
cd = c24.definitions(1, 2)
gen.write_workspace(WORK / "setup_clap", cd, 1, crates=1, tag="setup_clap_", clap=True)
print("setup:", harness.build(WORK / "setup_clap", TARGET / "clap", "setup_clap_worker"))
print("setup:", special.miri(harness.Result("setup", "quick", 1), 1, main, defs, "C18", 4, 600))
for kv in c20.TOOLCHAINS.items():
    print("setup:", c20.Palc(*kv).rlib)
