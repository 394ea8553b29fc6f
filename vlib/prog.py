"""Programs (InflationLP, InflationSDP) in the state right after generation."""
import warnings
from collections import defaultdict

from .env import mod
from . import scen

_made = {}


def _make(kind, name, opts):
    o = dict(opts)
    p = scen.problem(**scen.kw(name, **o.pop("problem", {})))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "lp":
            return mod("lp.InflationLP").InflationLP(p, **o)
        cols = o.pop("columns", "npa1")
        s = mod("sdp.InflationSDP").InflationSDP(p, **o)
        s.generate_relaxation(cols)
        return s


def _copy(v):
    if isinstance(v, defaultdict):
        return defaultdict(v.default_factory, v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, list):
        return [_copy(x) if isinstance(x, (dict, list)) else x for x in v]
    return v


def fresh(kind, name, **opts):
    """The program, as generated: the real constructor runs once, later calls
    put all attributes back to what they were right after it."""
    key = (kind, name, repr(sorted(opts.items(), key=repr)))
    if key not in _made:
        p = _make(kind, name, opts)
        _made[key] = (p, {k: _copy(v) for k, v in vars(p).items()})
    p, state = _made[key]
    d = vars(p)
    d.clear()
    d.update({k: _copy(v) for k, v in state.items()})
    return p
