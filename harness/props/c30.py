import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness.util import same
from harness import quant as Q
from UnarySim.kernel import NN_SC_Weight_Clipper, FXPLinear, TLUTLinear


def grid_check(got, w, mode, bits, norm, what):
    """got lies on the grid of the width, within the range, as close as can be to the clipped or normalised w."""
    n = 2.0 ** bits
    lo, step = (0.0, 1 / n) if mode == "unipolar" else (-1.0, 2 / n)
    g = npy(got).astype(np.float64)
    w = w.astype(np.float64)
    if g.shape != w.shape:
        fail("%s: shape changes" % what)
    k = g / step
    if not (np.abs(k - np.round(k)) < 1e-6).all():
        fail("%s: not on the grid: %s" % (what, g.ravel()[:5]))
    if not ((g >= lo) & (g <= 1)).all():
        fail("%s: outside the range of %s data: %s" % (what, mode, g.ravel()[:5]))
    rng = w.max() - w.min()
    if norm and rng > 0:
        z = (w - w.min()) / rng * (1 - lo) + lo
        slack = 1e-3 + 1e-6 * n * np.abs(w).max() / rng
    else:
        z, slack = np.clip(w, lo, 1), 1e-3
    d = np.abs(g - z) / step
    if not (d <= 0.5 + slack).all():
        i = np.unravel_index(np.argmax(d), d.shape)
        fail("%s: %s becomes %s, expected the grid point next to %s" % (what, w[i], g[i], z[i]))
    return bool((g != w).any())


def build(c):
    if c["kind"] == "linear":
        return torch.nn.Linear(c["a"], c["b"], bias=c["bias"])
    if c["kind"] == "conv":
        return torch.nn.Conv2d(c["a"], c["b"], 2, bias=c["bias"])
    if c["kind"] == "norm":
        return torch.nn.BatchNorm1d(c["a"] + 1)
    if c["kind"] == "deconv":
        return torch.nn.ConvTranspose2d(c["a"], c["b"], (1, 2), bias=c["bias"])
    if c["kind"] == "tlut":
        return TLUTLinear(c["a"], c["b"], bias=c["bias"])
    return FXPLinear(c["a"], c["b"], bias=c["bias"])


def run_case(c):
    cl = NN_SC_Weight_Clipper(frequency=c["freq"], mode=c["mode"], method=c["method"], bitwidth=c["bits"])
    ch = False
    m = build(c)
    for i in range(c["calls"]):
        if i == 0 or c["fresh"]:
            m = build(c)
            for j, p in enumerate(m.parameters()):
                p.requires_grad_(c["frozen"] != "all" and not (c["frozen"] == "first" and j == 0))
                p.data = t(Q.draw(dict(c["x"], seed=c["x"]["seed"] + 7 * i + j), list(p.shape)))
            m.train(not c["eval"])
        old = [npy(p).copy() for p in m.parameters()]
        grads = [p.requires_grad for p in m.parameters()]
        cl(m)
        # the first call of a clipper at frequency 1 normalises, all others clip
        for p, w in zip(m.parameters(), old):
            ch = grid_check(p.data, w, c["mode"], c["bits"], c["freq"] + i <= 1, "%s weight after call %d" % (c["mode"], i)) or ch
        if [p.requires_grad for p in m.parameters()] != grads:
            fail("the trainable parameters change")
        if c["freq"] + i > 1:
            new = [npy(p).copy() for p in m.parameters()]
            k2 = NN_SC_Weight_Clipper(frequency=2, mode=c["mode"], bitwidth=c["bits"])
            k2(m)
            for p, w in zip(m.parameters(), new):
                same(p.data, w, "clipped twice")
    other = torch.nn.ReLU()
    cl(other)
    return {"nontrivial": ch, "labels": [c["mode"], "normalised" if c["freq"] <= 1 else "clipped", c["kind"]]}


def order(c):
    """Neither clipping nor normalising swaps two weights."""
    n = c["n"]
    m = torch.nn.Linear(n, 1, bias=False)
    x = np.sort(Q.draw(c["x"], [n]))
    m.weight.data = t(x[None])
    NN_SC_Weight_Clipper(frequency=c["freq"], mode=c["mode"], bitwidth=c["bits"])(m)
    g = npy(m.weight)[0]
    if (np.diff(g) < 0).any():
        fail("the order of the weights changes: %s" % g)
    if c["freq"] == 1 and np.ptp(x) > 1e-4 * np.abs(x).max():
        lo = 0 if c["mode"] == "unipolar" else -1
        if g[0] != lo or g[-1] != 1:
            fail("normalised weights span %s to %s" % (g[0], g[-1]))
    return {"nontrivial": bool(np.ptp(x) > 0), "labels": []}


PROP = Prop("C30",
            "Random layer, data, mode, width, frequency, method, one to three calls; grid, range, distance to the clipped or normalised weight, idempotence of "
            "clipping; order of the weights. Non-trivial: a weight changes.",
            [Check("clip", st.fixed_dictionaries({"kind": st.sampled_from(["linear", "conv", "fxp", "tlut", "deconv", "norm"]), "a": st.integers(1, 5), "b": st.integers(1, 5), "bias": st.booleans(),
                                                  "freq": st.one_of(st.integers(1, 3), st.integers(1, 2000)), "frozen": st.sampled_from([None, None, "all", "first"]), "eval": st.booleans(), "mode": st.sampled_from(["unipolar", "bipolar"]), "method": st.sampled_from(["clip", "norm"]),
                                                  "bits": st.integers(1, 10), "calls": st.integers(1, 3), "fresh": st.booleans(), "x": Q.data(), "gseed": gseeds}), run_case, 1500),
             Check("order", st.fixed_dictionaries({"n": st.integers(2, 30), "freq": st.integers(1, 2), "mode": st.sampled_from(["unipolar", "bipolar"]),
                                                   "bits": st.integers(1, 10), "x": Q.data(), "gseed": gseeds}), order, 800)],
            ["The call at frequency 1 normalises and later ones clip, whatever method is given, as the code documents by its frequency counter; constant data are "
             "clipped."])
