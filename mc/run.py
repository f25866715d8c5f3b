from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

sys.path.insert(0, os.path.join(core.REPO, "python"))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--replay")
    args = ap.parse_args()
    ctx = core.Ctx(args.prop, args.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        mod = importlib.import_module(f"checks.{args.prop.lower()}")
    except Exception:
        tb = traceback.format_exc()
        if "/moz/l10n/" in tb.replace(os.sep, "/"):
            # the library itself cannot be imported or fails while it is being imported
            ctx.bad.append(("import", args.prop, tb[-1500:]))
            return ctx.finish()
        raise
    import moz.l10n.model as m

    assert m.__file__.startswith(os.path.join(core.REPO, "python")), m.__file__
    if args.replay:
        r = json.load(open(args.replay))
        ctx.replay_space = r["space"]
        ctx.tier = "thorough"
        mod.run(ctx)
        if r["space"] not in ctx.judges:
            mod.run(ctx)
        msg = core.judge_one(ctx.judges[r["space"]], r["case"])
        print("fails:", msg) if msg else print("passes")
        return 1 if msg else 0
    mod.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
