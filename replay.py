"""Replay a recorded counterexample against the unmodified real code (JIT on,
no shims).  Exit 1 when the violation reproduces, 0 when it does not, 3 when
the recorded values are not a valid input."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("NUMBA_DISABLE_JIT", "0")
from vlib import env  # noqa: E402
env.load()
from vlib.engine_concrete import (ConcreteEngine, ReplayViolation,  # noqa
                                  ReplayInvalid)
from vlib.report import unjson  # noqa: E402


def main():
    rec = json.load(open(sys.argv[1]))
    mod = importlib.import_module("checks." + rec["property"].lower())
    fn = getattr(mod, rec["harness"])(**unjson(rec["params"]))
    e = ConcreteEngine(unjson(rec["values"]))
    print("recorded:", rec["what"])
    print("values:", json.dumps(rec["values"]))
    try:
        fn(e)
    except ReplayViolation as v:
        print("REPRODUCED on the real code:", v)
        return 1
    except ReplayInvalid as v:
        print("not a valid input:", v)
        return 3
    except Exception as ex:
        traceback.print_exc()
        if rec["what"].startswith("exception"):
            print("REPRODUCED on the real code: exception", type(ex).__name__)
            return 1
        # the code under test fails outright on a valid input
        tb = traceback.extract_tb(ex.__traceback__)
        repo = os.path.realpath(env.REPO) + os.sep
        if any(os.path.realpath(f.filename).startswith(repo) for f in tb):
            print("REPRODUCED on the real code: exception",
                  type(ex).__name__)
            return 1
        return 3
    print(f"does not reproduce ({e.ran_checks} assertions passed)")
    return 0


sys.exit(main())
