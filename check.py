#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--root DIR]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import report            # noqa: E402
import checks                    # noqa: E402
from checks.levels import level  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--selfcheck", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=None)
    a = ap.parse_args()
    if a.selfcheck:
        sys.exit(0 if checks.REGISTRY else 1)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn = checks.REGISTRY[a.id]
    ctx = report.Ctx(a.id, a.tier, seed, a.root)
    opts = ctx.guard("the check as a whole", fn, ctx) or {}
    sys.exit(ctx.finish(**{**opts, "known": known(a.id), "level": level(a.id)}))


def known(pid):
    """Keys of the recorded findings of this property."""
    out = set()
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                out.add(line.split(" key=", 1)[1].strip())
    return out


if __name__ == "__main__":
    main()
