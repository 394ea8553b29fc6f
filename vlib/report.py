"""Running a check's obligations, replaying counterexamples, evidence."""
import copy
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(v):
    if isinstance(v, Fraction):
        return {"frac": [str(v.numerator), str(v.denominator)]}
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return str(v)


def unjson(v):
    if isinstance(v, dict):
        if set(v) == {"frac"}:
            return Fraction(int(v["frac"][0]), int(v["frac"][1]))
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


class Obligation:
    """One symbolic harness: `harness` names a function of the check module
    that, given `params`, returns fn(engine)."""

    def __init__(self, name, harness, params=None, functions=(), bounds="",
                 parallel=False, depth=8, timeout_ms=120000, known=None,
                 fallback=None):
        self.name = name
        self.harness = harness
        self.params = params or {}
        self.functions = list(functions)
        self.bounds = bounds
        self.parallel = parallel
        self.depth = depth
        self.timeout_ms = timeout_ms
        self.known = known
        # parameters for the fallback mode, if smaller ones are needed there
        self.fallback = fallback


def load_known():
    """known_findings.jsonl: one object per line; {"property", "obligation",
    "what", "describes"} for a finding, {"fixed": ...} for a repaired one."""
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def run_check(cid, tier, seed):
    t0 = time.time()
    from .engine import Engine, Counterexample, Inconclusive
    mod = importlib.import_module("checks." + cid.lower())
    obligations = mod.obligations(tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        obligations = [o for o in obligations if only in o.name]
    known = [k for k in load_known() if k.get("property") == cid
             and "fixed" not in k]
    rows = []
    totals = dict(paths=0, queries=0, branches=0, assertions=0,
                  discharged=0, solver_s=0.0)
    violations = []
    errors = []
    queue = [(ob, False) for ob in obligations]
    while queue:
        ob, enum = queue.pop(0)
        t = time.time()
        e = Engine(timeout_ms=ob.timeout_ms)
        e.enum = enum
        row = dict(obligation=ob.name, functions=ob.functions,
                   bounds=ob.bounds, params=jsonable(ob.params))
        try:
            fn = getattr(mod, ob.harness)(**ob.params)
            if ob.parallel:
                e.explore_parallel(fn, depth=ob.depth)
            else:
                e.explore(fn)
            if not e.checks:
                raise Inconclusive("no assertion was reached")
            bad = [k for k, v in e.reach.items() if not v]
            if bad or not e.reach:
                raise Inconclusive(f"vacuous: reachability twins {bad} "
                                   "not reached")
            row["verdict"] = "holds for every value within the bounds"
        except Counterexample as ce:
            row["verdict"] = "counterexample"
            row["what"] = ce.what
            row["values"] = jsonable(ce.values)
            kf = [k for k in known if k["obligation"] == ob.name
                  and k["what"] in ce.what]
            path, ok, text = replay(cid, ob, ce)
            row["replay"] = dict(path=path, reproduced=ok, output=text[-2000:])
            if ok and kf:
                print(f"KNOWN-FINDING: property={cid} {kf[0]['describes']}")
                row["verdict"] = "known finding"
            elif ok:
                violations.append(dict(obligation=ob.name, what=ce.what,
                                       replay=path,
                                       values=jsonable(ce.values)))
                print(f"  {ob.name}: {ce.what}\n  values: "
                      f"{json.dumps(jsonable(ce.values))[:600]}")
                if ce.detail:
                    print("  " + str(ce.detail)[-1200:])
                print(f"VIOLATION property={cid} replay={path}", flush=True)
            elif not enum:
                # The proxies met something they do not model: decide the
                # obligation again, forking the inputs to all their values.
                row["verdict"] = "not reproduced; fallback mode"
                fo = copy.copy(ob)
                if ob.fallback is not None:
                    fo.params = ob.fallback
                fo.name = ob.name + " [fallback]"
                queue.insert(0, (fo, True))
            else:
                errors.append(f"{ob.name}: counterexample does not reproduce "
                              f"({ce.what}): {text[-3000:]}\n{ce.detail}")
        except Inconclusive as ex:
            row["verdict"] = "inconclusive"
            errors.append(f"{ob.name}: inconclusive: {ex}")
        except Exception:
            row["verdict"] = "error"
            errors.append(f"{ob.name}: {traceback.format_exc()}")
        row.update(e.stats())
        row["reachability_twins"] = e.reach
        row["wall_s"] = round(time.time() - t, 2)
        for k in totals:
            totals[k] += e.stats()[k]
        rows.append(row)
        print(f"[{cid}] {ob.name}: {row['verdict']} "
              f"(paths {e.paths}, queries {e.queries}, assertions "
              f"{e.discharged}/{e.checks}, {row['wall_s']} s)", flush=True)
        if violations and os.environ.get("VERIF_ALL") is None:
            break
    totals["solver_s"] = round(totals["solver_s"], 2)
    ev = dict(
        property=cid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=mod.EXPLANATION,
            obligations=len(rows),
            obligations_decided=sum(
                r["verdict"].startswith("holds") for r in rows),
            functions_encoded=sorted({f for r in rows
                                      for f in r["functions"]}),
            solver="z3 " + _z3v(), **totals, details=rows,
            outside=getattr(mod, "OUTSIDE", "")),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for x in errors:
        print("ERROR", x, file=sys.stderr)
    if violations:
        return 1
    if errors:
        return 2
    print(f"[{cid}] property held on everything explored "
          f"({len(rows)} obligations, {totals['discharged']} assertions, "
          f"{totals['queries']} solver queries, {ev['wall_s']} s)")
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


def replay(cid, ob, ce):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() else "_" for c in ob.name)
    path = os.path.join(d, f"{cid}_{safe}.json")
    with open(path, "w") as f:
        json.dump(dict(property=cid, obligation=ob.name, harness=ob.harness,
                       params=jsonable(ob.params), what=ce.what,
                       values=jsonable(ce.values)), f, indent=1)
    with tempfile.TemporaryDirectory(prefix="vreplay") as tmp:
        env = dict(os.environ)
        env.pop("NUMBA_DISABLE_JIT", None)
        env["NUMBA_DISABLE_JIT"] = "0"
        env["NUMBA_CACHE_DIR"] = tmp
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        try:
            p = subprocess.run(
                [sys.executable, os.path.join(HERE, "replay.py"), path],
                env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return path, False, "replay timed out"
    return path, p.returncode == 1, p.stdout + p.stderr
