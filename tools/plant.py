#!/usr/bin/env python3
"""Write and confirm planted bugs (a development tool; no check uses it).

  plant.py make          write /verif/seeded/<id>/ for every entry of bugs.py
  plant.py test ID...    confirm: applies, builds, tests pass, demo tells
  plant.py check ID [TIER] [PROP...]  run the checks against the patched tree
All of it runs on a copy of /repo that is bind-mounted over /repo in a mount
namespace of its own; the real tree is never touched.
"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = VERIF + "/seeded"


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True,
                          **k)


def scratch(bug, patched=True):
    d = f"/tmp/plant.{bug}.{'p' if patched else 'u'}"
    sh(f"rm -rf {d}; cp -a /repo {d}")
    if patched:
        r = sh(f"git -C {d} apply {SEEDED}/{bug}/patch.diff")
        if r.returncode:
            sys.exit(f"{bug}: patch does not apply: {r.stderr}")
    return d


def inside(d, cmd):
    """Run cmd with d mounted over /repo and a private /opt/vp/work."""
    w = d + ".work"
    os.makedirs(w, exist_ok=True)
    return sh(f"unshare -m bash -c 'mount --bind {d} /repo && "
              f"mkdir -p /opt/vp/work && mount --bind {w} /opt/vp/work && "
              f"cd /repo && {cmd}'")


def clean(d):
    sh(f"rm -rf {d} {d}.work")


def make(only=None):
    sys.path.insert(0, HERE)
    import bugs
    for b in bugs.BUGS:
        if only and b["id"] not in only:
            continue
        out = f"{SEEDED}/{b['id']}"
        os.makedirs(out, exist_ok=True)
        d = f"/tmp/mk.{b['id']}"
        sh(f"rm -rf {d}; git clone -q /repo {d}")
        for f, old, new in b["edits"]:
            p = f"{d}/{f}"
            src = open(p).read()
            if src.count(old) != 1:
                sys.exit(f"{b['id']}: {src.count(old)} matches of {old!r}")
            open(p, "w").write(src.replace(old, new))
        diff = sh(f"git -C {d} diff").stdout
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(
            "#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 "
            "OMP_NUM_THREADS=1\n"
            "export NUMBA_CACHE_DIR=$(mktemp -d)\n"
            "PYTHONPATH=/repo /opt/venv/bin/python "
            "\"$(dirname \"$0\")/demo.py\"\nrc=$?\n"
            "rm -rf \"$NUMBA_CACHE_DIR\"\nexit $rc\n")
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"],
                       what_it_breaks=b["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)
        sh(f"rm -rf {d}")
        print("made", b["id"])


def test(bug):
    ok = True
    u = scratch(bug, False)
    r = inside(u, f"bash {SEEDED}/{bug}/demo.sh")
    if r.returncode:
        ok = False
        print(bug, "demo fails unpatched", r.stdout[-500:], r.stderr[-1500:])
    clean(u)
    d = scratch(bug)
    r = inside(d, f"bash {SEEDED}/{bug}/demo.sh")
    if not r.returncode:
        ok = False
        print(bug, "demo passes patched")
    last = (r.stderr.strip().splitlines() or [""])[-1]
    r = inside(d, "bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/"
               f"plant.{bug}.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(f"/tmp/plant.{bug}.json"))
    os.remove(f"/tmp/plant.{bug}.json")
    bad = failing(base, res)
    if bad:
        ok = False
        print(bug, "tests broken:", bad[:5])
    clean(d)
    print(bug, "CONFIRMED" if ok else "REJECTED", "|", last[:150])
    return ok


def failing(base, res):
    def names(x):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x:
                return set(x[k])
        raise SystemExit(f"unknown format {list(x)}")
    return sorted(names(base) - names(res))


def check(bug, tier="quick", props=()):
    meta = json.load(open(f"{SEEDED}/{bug}/meta.json"))
    d = scratch(bug)
    v = f"/tmp/plantv.{bug}"
    sh(f"rm -rf {v}; cp -a {VERIF} {v}")
    out = []
    for p in props or [meta["property"]]:
        r = inside(d, f"cd {v} && timeout 1800 bash check.sh {p} {tier}")
        viol = [ln for ln in r.stdout.splitlines() if "VIOLATION" in ln]
        out.append((p, r.returncode, viol[:2],
                    "" if viol else r.stdout[-300:] + r.stderr[-300:]))
    clean(d)
    sh(f"rm -rf {v}")
    for o in out:
        print(bug, *o)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1:])
    elif a[0] == "test":
        if len(a) == 2:
            test(a[1])
        else:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(2) as ex:
                list(ex.map(test, a[1:]))
    elif a[0] == "check":
        check(a[1], *(a[2:3] or ["quick"]), props=a[3:])
