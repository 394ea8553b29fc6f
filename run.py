"""run.py <property id> <quick|thorough>"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["NUMBA_DISABLE_JIT"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vlib import env
    env.load()
    from vlib.report import run_check
    return run_check(cid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
