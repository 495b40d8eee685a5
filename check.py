#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE]: decides one property on /repo's working tree."""

import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B
import core
import plan


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    prop = args[0]
    ctx = core.Ctx(prop, thorough)
    try:
        if "--replay" in sys.argv:
            with open(args[1], encoding="utf-8") as f:
                plan.replay(ctx, json.load(f))
        else:
            plan.run(ctx)
    except (core.CheckError, B.BuildError) as x:
        print("the check could not decide: %s" % x)
        if not ctx.violations:
            return 2
    if ctx.undecided and not ctx.violations:
        print("the check could not decide: " + ctx.undecided)
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
