"""check ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [LIB, os.path.join(os.path.dirname(LIB), "checks")]
sys.modules.setdefault("main", sys.modules[__name__])


def run():
    a = argparse.ArgumentParser()
    a.add_argument("id", nargs="?")
    a.add_argument("--setup", action="store_true")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--replay")
    a = a.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        import vh

        vh.ws().hypothesis()
        if a.setup:
            print("Hypothesis is there; checks build what they need themselves")
            return 0
        check = importlib.import_module(a.id.lower()).C
        return check.main(tier, a.seed, a.replay)
    except Exception:
        traceback.print_exc()
        print("ERROR: the check of %s did not finish" % a.id)
        return 3


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = run()
    sys.stdout.flush()
    sys.exit(rc)
