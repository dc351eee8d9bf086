#!/opt/venv/bin/python
"""run_check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--sub NAME]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from pbt import env

    env.setup()
    env.import_sut()
    from pbt import core

    rc = core.run_property(
        a.prop, "pbt.checks.%s" % a.prop.lower(), a.tier, a.seed, a.replay, a.sub
    )
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
