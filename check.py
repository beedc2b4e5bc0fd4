#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import pathlib
import sys
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "lib"))
import c20
import c24
import campaign
import harness
import special
from harness import CheckError, Result

SPECIAL = dict(special.SPECIAL, C20=c20.c20, C24=c24.c24)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        import replay
        sys.exit(replay.main(a.property, a.replay))
    res = Result(a.property, a.tier, a.seed)
    try:
        if a.property in SPECIAL:
            SPECIAL[a.property](res, a.seed, a.tier)
        else:
            campaign.run(res, a.property, a.seed, a.tier)
    except CheckError as e:
        print(f"check of {a.property} could not be carried out: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(res.finish())


if __name__ == "__main__":
    main()
