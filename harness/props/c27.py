import math
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness.util import same, close, dtype_is
from harness.shim import float_shifts
from harness.props.c37 import without, nograds
from UnarySim.kernel import HardMGUCell, HardMGUCellFXP


def sig(x, hard):
    return np.clip((x + 1) / 2, 0, 1) if hard else 1 / (1 + np.exp(-x))


def cell(x, h, wf, bf, wn, bn, hard, q):
    """One step of the minimal gated unit in double precision; q quantises (or not)."""
    tanh = (lambda v: np.clip(v, -1, 1)) if hard else np.tanh
    fin = np.clip(np.concatenate([q(h), q(x)], 1) @ q(wf).T + q(bf), -1, 1)
    fg = sig(q(fin), hard)
    fh = q(fg) * q(h)
    ng = tanh(q(np.concatenate([q(fh), q(x)], 1) @ q(wn).T + q(bn)))
    return np.clip(q(ng) - q(q(fg) * q(ng)) + q(fh), -1, 1)


class Quant:
    """Round to a multiple of 2**-frac, saturate; remembers rows that come close to a tie in an inexact computation."""
    def __init__(self, iw, fw, exact):
        self.s, self.m, self.exact, self.bad = 2.0 ** fw, 2.0 ** (iw + fw) - 1, exact, False

    def __call__(self, v):
        z = np.asarray(v, dtype=np.float64) * self.s
        f = np.abs(z - np.floor(z) - 0.5)
        if ((f > 1e-12) & (f < 2e-3)).any() or (not self.exact and (f < 2e-3).any()):
            self.bad = True
        return np.clip(np.round(z), -self.m, self.m) / self.s


def draw(c, shape, seed, lim):
    r = np.random.default_rng([c["seed"], seed])
    v = r.standard_normal(shape) * lim
    return v.astype(np.float32)


def setup(c, cls, **kw):
    I, H = c["I"], c["H"]
    m = cls(I, H, bias=c["bias"], hard=c["hard"], **kw)
    p = {"wf": draw(c, (H, H + I), 0, c["mag"]), "wn": draw(c, (H, H + I), 1, c["mag"])}
    p["bf"], p["bn"] = (draw(c, H, 2, c["mag"]), draw(c, H, 3, c["mag"])) if c["bias"] else (np.zeros(H), np.zeros(H))
    m.weight_f.data, m.weight_n.data = t(p["wf"]), t(p["wn"])
    if c["bias"]:
        m.bias_f.data, m.bias_n.data = t(p["bf"]), t(p["bn"])
    return m, p


def hidden0(c, B, H):
    if c["h0"] is None:
        return None, np.zeros((B, H))
    h = np.clip(draw(c, (B, H), 4, 0.6), -1, 1)
    return t(h), h.astype(np.float64)


def floating(c):
    with without(c["nograd"]):
        return floating_(c)


def floating_(c):
    m, p = setup(c, HardMGUCell)
    hx, h = hidden0(c, c["B"], c["H"])
    nt = False
    for i in range(c["steps"]):
        x = np.clip(draw(c, (c["B"], c["I"]), 10 + i, 0.6), -1, 1)
        xt = t(x)
        hy = m(xt, hx) if hx is not None or not c["omit"] else m(xt)
        same(xt, x, "the input afterwards")
        if hx is not None:
            same(hx.double(), h, "the previous hidden state afterwards")
        dtype_is(hy, "f32", "hidden state")
        h = cell(x.astype(np.float64), h, p["wf"].astype(np.float64), p["bf"], p["wn"].astype(np.float64), p["bn"], c["hard"], lambda v: v)
        close(hy, h, 2e-5 * (1 + c["mag"]) ** (i + 1), "hidden state after step %d" % i)
        nt = nt or bool(np.ptp(h) > 1e-3)
        hx, h = hy, npy(hy).astype(np.float64)
    return {"nontrivial": nt, "labels": ["hard" if c["hard"] else "soft", "bias" if c["bias"] else "no bias"]}


def fixed(c):
    """With the shifts of older PyTorch, which the cell depends on (see known findings)."""
    with float_shifts(), without(c["nograd"]):
        return fixed_(c)


def fixed_(c):
    m, p = setup(c, HardMGUCellFXP, intwidth=c["iw"], fracwidth=c["fw"])
    hx, h = hidden0(c, c["B"], c["H"])
    nt = False
    for i in range(c["steps"]):
        x = np.clip(draw(c, (c["B"], c["I"]), 10 + i, 0.6), -1, 1)
        hy = m(t(x), hx) if hx is not None or not c["omit"] else m(t(x))
        got = npy(hy).astype(np.float64)
        if hx is not None:
            same(hx.double(), h, "the previous hidden state afterwards")
        for b in range(c["B"]):
            q0 = Quant(c["iw"], c["fw"], True)
            q = Quant(c["iw"], c["fw"], c["hard"])
            want = cell(x[b:b + 1].astype(np.float64), h[b:b + 1], p["wf"].astype(np.float64), p["bf"], p["wn"].astype(np.float64), p["bn"], c["hard"], q)
            if q.bad:
                continue            # a tie decided by rounding in single precision
            close(got[b:b + 1], want, 1e-6, "hidden state after step %d, row %d, %d.%d bits" % (i, b, c["iw"], c["fw"]))
            nt = nt or bool(np.ptp(want) > 1e-3)
        hx, h = hy, got
    return {"nontrivial": nt, "labels": ["hard" if c["hard"] else "soft", "bias" if c["bias"] else "no bias"]}


def init(c):
    """A new cell: parameters of the right shape within two standard deviations, outputs bounded."""
    for cls in (HardMGUCell, HardMGUCellFXP):
        m = cls(c["I"], c["H"], bias=c["bias"], hard=c["hard"])
        lim = 2 / np.sqrt(c["H"])
        names = dict(m.named_parameters())
        want = {"weight_f": [c["H"], c["H"] + c["I"]], "weight_n": [c["H"], c["H"] + c["I"]]}
        if c["bias"]:
            want.update(bias_f=[c["H"]], bias_n=[c["H"]])
        if {k: list(v.shape) for k, v in names.items()} != want:
            fail("parameters %s, expected %s" % ({k: list(v.shape) for k, v in names.items()}, want))
        for k, v in names.items():
            if not v.requires_grad or (npy(v).__abs__() > lim * (1 + 1e-6)).any():
                fail("parameter %s is not trainable or outside two standard deviations" % k)
        z = np.sort(np.concatenate([npy(v).astype(np.float64).ravel() for v in names.values()]) * np.sqrt(c["H"]))
        if len(z) > 20 and len(set(z.tolist())) < len(z) * 0.99:
            fail("equal initial parameters")
        edge = math.erf(math.sqrt(2))
        d = np.abs((np.array([math.erf(a / math.sqrt(2)) for a in z]) / edge + 1) / 2 - (np.arange(len(z)) + 0.5) / len(z)).max()
        if d > 3.3 / math.sqrt(len(z)) + 0.5 / len(z):      # Kolmogorov-Smirnov, chance below 1e-9
            fail("%d initial parameters lie %.3f off a truncated normal of deviation %.3f" % (len(z), d, 1 / math.sqrt(c["H"])))
    m = HardMGUCell(c["I"], c["H"], bias=c["bias"], hard=c["hard"])
    hx = None
    for i in range(5):
        hx = m(t(draw(c, (c["B"], c["I"]), i, c["mag"])), hx)
        if (npy(hx).__abs__() > 1).any():
            fail("hidden state outside [-1, 1]")
    return {"nontrivial": True, "labels": []}


def gradient(c):
    """Training goes through the cell: gradients against finite differences of the model are defined away from the corners."""
    m, p = setup(dict(c, hard=False), HardMGUCell)
    x = t(np.clip(draw(c, (c["B"], c["I"]), 10, 0.4), -1, 1)).requires_grad_(True)
    h = t(np.clip(draw(c, (c["B"], c["H"]), 4, 0.4), -1, 1))
    go = draw(c, (c["B"], c["H"]), 5, 1)
    (m(x, h) * t(go)).sum().backward()
    f = lambda xv: (cell(xv, npy(h).astype(np.float64), p["wf"].astype(np.float64), p["bf"], p["wn"].astype(np.float64), p["bn"], False, lambda v: v) * go).sum()
    x0 = npy(x).astype(np.float64)
    d = np.random.default_rng(c["seed"]).standard_normal(x0.shape)
    e = 1e-5
    up, dn, mid = f(x0 + e * d), f(x0 - e * d), f(x0)
    if abs(up - 2 * mid + dn) > 1e-8:      # a corner
        return {"nontrivial": False, "labels": []}
    num, ana = (up - dn) / (2 * e), float((npy(x.grad) * d).sum())
    if abs(num - ana) > 1e-3 * (1 + abs(num)) * (1 + c["mag"]) ** 2:
        fail("directional derivative %s, expected %s" % (ana, num))
    return {"nontrivial": abs(num) > 1e-3, "labels": []}


def cases(fxp=False, large=0):
    """Large: up to so many times the sizes."""
    d = {"I": st.integers(1, 5 * (large or 1)), "H": st.integers(1, 5 * (large or 1)), "B": st.integers(1, 4 * (large or 1)), "bias": st.booleans(), "hard": st.sampled_from([True, True, True, False]),
         "mag": st.sampled_from([0.3, 0.7, 1.5]), "h0": st.sampled_from([None, 1, 1]), "omit": st.booleans(), "steps": st.integers(1, 4), "nograd": nograds(),
         "seed": gseeds, "gseed": gseeds}
    if fxp:
        d.update(iw=st.integers(0, 4), fw=st.integers(2, 8))
    return st.fixed_dictionaries(d)


def no_shim():
    HardMGUCellFXP(3, 2, hard=True)(torch.rand(2, 3) * 2 - 1, torch.rand(2, 2) * 2 - 1)


PROP = Prop("C27",
            "float: random sizes, weights, inputs, one to four steps, with and without hidden state, against a double-precision cell. fixed_point: the same with "
            "random integer and fraction width, exactly, rows near a rounding tie left out. initial: shapes and bounds of new cells. gradient: directional "
            "derivatives. Non-trivial: a hidden state that varies; a derivative that is not small.",
            [Check("float", cases(), floating, 900), Check("fixed_point", cases(True), fixed, 900), Check("float_large", cases(False, 9), floating, 100),
             Check("fixed_large", cases(True, 4), fixed, 100), Check("initial", st.one_of(cases(), cases(False, 9)), init, 240), Check("gradient", cases(), gradient, 300)],
            ["The fixed-point cell runs with the float shifts of older PyTorch put back in the harness; that it fails without them is a recorded finding."],
            probes=[("fixed_point_cell", no_shim)])
