"""Drive RTL modules of /repo/hw: reset, clock, compare each cycle with a reference model, reset in the middle."""
import functools
import glob
import os

import numpy as np
from hypothesis import strategies as st

from . import sv
from .core import Violation, fail
from .gen import make_bits, streams, lengths, gseeds

HW = os.environ.get("RTL_HW") or "/repo/hw"


class Rtl:
    def __init__(self, path, top=None, params=None, extra=(), seed=0, clk="clk", rst="rst_n"):
        f = os.path.join(HW, path)
        top = top or os.path.splitext(os.path.basename(path))[0]
        try:
            self.sim = sv.Sim([os.path.join(HW, x) for x in extra] + [f], top, params, seed=seed)
            p = self.sim.ports
        except (sv.Unsupported, sv.Unstable):
            raise
        except Exception as e:              # our compiler met something it does not know
            raise sv.Unsupported("%s: %s" % (type(e).__name__, e))
        for n in (clk, rst):
            if n is not None and n not in p:
                raise sv.Unsupported("no port " + n)
        self.clk, self.rst, self.low = clk, rst, rst == "rst_n"
        z = {n: ([0] * s.dims[0][1] if s.dims else 0) for n, (d, s) in p.items() if d == "input"}
        if rst:
            z[rst] = 1 if self.low else 0
        self.sim.poke(**z)

    def reset(self, ticks=1):
        """assert reset (asynchronously), clock it, release it"""
        self.sim.poke(**{self.rst: 0 if self.low else 1})
        for _ in range(ticks):
            self.tick()
        self.sim.poke(**{self.rst: 1 if self.low else 0})

    def set(self, **kw):
        self.sim.poke(**kw)

    def get(self, n):
        return self.sim.peek(n)

    def width(self, n):
        return self.sim.width(n)

    def tick(self):
        self.sim.poke(**{self.clk: 1})
        self.sim.poke(**{self.clk: 0})

    def cycle(self, outs, **kw):
        """drive inputs, read the outputs of this cycle, then clock"""
        if kw:
            self.sim.poke(**kw)
        r = tuple(self.sim.peek(o) for o in outs)
        if self.clk:
            self.tick()
        return r


def find(*pats):
    out = []
    for p in pats:
        out += [os.path.relpath(x, HW) for x in glob.glob(os.path.join(HW, p))]
    return sorted(set(out))


def decided(fn):
    """A module our compiler cannot read is not decided; it is no alarm."""
    @functools.wraps(fn)
    def body(c):
        try:
            return fn(c)
        except sv.Unsupported as e:
            return {"nontrivial": False, "labels": ["not decided: %s (%s)" % (c.get("unit", "?"), str(e)[:60])]}
        except sv.Unstable as e:
            raise Violation("%s: %s" % (c.get("unit"), e))
    return body


def compare(c, rtl, model, drive, T, outs, what):
    """Every cycle: drive(k) -> inputs; model.step(**inputs) -> expected outputs (None: not specified)."""
    rtl.reset(c.get("rticks", 1))
    model.reset()
    at = c.get("reset_at", None)
    seen = {o: set() for o in outs}
    for k in range(T):
        if at is not None and k == at % max(T, 1) and k:
            rtl.reset(c.get("rticks", 1))
            model.reset()
        x = drive(k)
        got = rtl.cycle(outs, **x)
        want = model.step(**x)
        for o, g in zip(outs, got):
            w = want.get(o)
            if w is not None and g != w:
                fail("%s: output %s at cycle %d%s is %s, expected %s (inputs %s)"
                     % (what, o, k, "" if at is None else " (reset before %d)" % (at % max(T, 1)), g, w, x))
            seen[o].add(g if not isinstance(g, list) else tuple(g))
    return any(len(v) > 1 for v in seen.values())


COMMON = {"x": streams(), "gseed": gseeds, "rticks": st.integers(0, 2), "reset_at": st.one_of(st.none(), st.integers(1, 400))}


def cases(units, hi=300, **kw):
    d = dict(COMMON)
    d.update({"unit": st.sampled_from(units), "T": lengths(1, hi)})
    d.update(kw)
    return st.fixed_dictionaries(d)


def bits(c, n, T=None):
    return make_bits(c["x"], T or c["T"], [n]).astype(np.int64)
