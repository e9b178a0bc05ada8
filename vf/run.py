"""Entry point: python -m vf.run P01 [--tier quick] [--seed 1] [--replay FILE]."""
from __future__ import annotations

import argparse
import importlib
import os
import sys
import warnings

from vf import boot


def main():
    warnings.filterwarnings("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
    ap.add_argument("--family", action="append")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VF_SCALE", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="family:index, run one case")
    args = ap.parse_args()
    boot.scrub_and_reexec()
    try:
        boot.activate()
    except BaseException:
        import traceback

        traceback.print_exc()
        print("CHECK ERROR: code under test cannot be imported")
        sys.exit(2)
    from vf import core

    importlib.import_module(f"vf.checks.{args.prop.lower()}")
    if args.replay:
        sys.exit(core.replay(args.replay))
    if args.case:
        name, idx = args.case.rsplit(":", 1)
        fam = next(f for f in core.FAMILIES[args.prop] if f.name == name)
        ctx, status, tb = core.run_case(fam, int(idx), args.seed, args.tier)
        print(status, ctx.fails, ctx.desc, sorted(ctx.sigs)[:10])
        print(tb)
        sys.exit(status == "fail")
    code = core.run_property(args.prop, args.tier, args.seed, args.jobs, args.family, args.limit, args.scale)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
