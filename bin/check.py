#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property. Exit 0, 1 (VIOLATION line) or 2 (tool error)."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, props


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    o = a.parse_args()
    c = None
    try:
        vf.build()
        c = vf.Check(o.prop, o.tier, o.seed)
        return props.CHECKS[o.prop](c)
    except vf.ToolError as e:
        print("TOOL-ERROR", e)
        # what was found before still counts
        return c.finish("model_checking", "not completed: " + str(e)) if c and c.violations else 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
