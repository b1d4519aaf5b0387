"""registration of property harnesses

A harness is `fn(ctx, **params)`: it builds inputs with ctx, runs the package's
functions through ctx.ff, and states the property with ctx.eq/check/le/raises.
The same function runs symbolically (deciding) and concretely (replay).
"""
import json
import os

HARNESSES = {}
_pf = os.path.join(os.path.dirname(os.path.abspath(__file__)), "promoted.json")
# instances written down as thorough that turned out cheap: run in both tiers, with the thorough limits
PROMOTED = json.load(open(_pf)) if os.path.exists(_pf) else {}


# inputs range over [-BOX, BOX] where the bound gives no range of its own
# (C12: tolerances relative to the size of the entries; C14, C25: exponentials)
BOX = 100
BOXES = {"C12": 10, "C14": 40, "C25": 10}


class Harness:
    def __init__(self, fn, prop, quick, thorough, paths, t, q_ms, ob_ms, bound, assumes, tpaths, tt, box=None):
        self.box = box or BOXES.get(prop, BOX)
        self.fn, self.prop, self.name = fn, prop, fn.__name__
        self.paths, self.t, self.q_ms, self.ob_ms = paths, t, q_ms, ob_ms
        self.bound, self.assumes = bound, assumes
        self.tpaths, self.tt = tpaths, tt
        up = PROMOTED.get(prop, {}).get(self.name, [])
        self.deep = [p for p in thorough if json.loads(json.dumps(p)) in up]
        self.quick = quick + self.deep
        self.thorough = [p for p in thorough if p not in self.deep]

    def limits(self, params, tier):
        """(paths, seconds, query ms, obligation ms)"""
        if tier == "quick" and params not in self.deep:
            return self.paths, self.t, self.q_ms, self.ob_ms
        return self.tpaths, self.tt if tier != "quick" else min(self.tt, 90.0), self.q_ms * 3, self.ob_ms * 4


def harness(prop, quick=({},), thorough=(), paths=64, t=25.0, q_ms=800, ob_ms=3000, bound="", assumes="",
            tpaths=None, tt=None, box=None):
    """quick: parameter sets run in both tiers; thorough: additional ones"""
    def deco(fn):
        HARNESSES.setdefault(prop, [])
        assert all(h.name != fn.__name__ for h in HARNESSES[prop]), fn.__name__
        HARNESSES[prop].append(Harness(fn, prop, list(quick), list(thorough), paths, t, q_ms, ob_ms, bound,
                                       assumes, tpaths or paths * 8, tt or max(120.0, t * 6), box))
        return fn
    return deco
