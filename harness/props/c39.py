import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness import models as M, quant as Q
from harness.accuracy import encode, grid, SW
from harness.props.c20 import geometry
from harness.props import c21, c22, c23
from UnarySim.kernel import (FSULinear, FSUReLU, FSUHardsigmoid, FSUHardtanh, HUBMGUCell, HardMGUCell, HUBLinear, HUBConv2d, TLUTLinear, TLUTConv2d, FSUMul, FSUAdd)
from UnarySim.metric import ProgError, Stability


def network(c):
    """Values in, two FSU layers with an activation between them, values out, as ProgError reads them."""
    w, mode, act = c["width"], c["mode"], c["act"]
    r = np.random.default_rng(c["seed"])
    lo = 0 if mode == "unipolar" else -1
    g = lambda s: grid(r.random(s) * (1 - lo) + lo, w, mode)
    I, H, O, B = c["I"], c["H"], c["O"], c["B"]
    x, w1, b1, w2 = g((B, I)), g((H, I)), g(H), g((O, H))
    hw = lambda d: {"width": w, "mode": mode, "scale": None, "depth": 12, "rng": "sobol", "dimr": d}
    l1, l2 = FSULinear(I, H, True, t(w1), t(b1), hw(1), SW), FSULinear(H, O, False, t(w2), None, hw(3), SW)
    a = {"relu": lambda: FSUReLU({"depth": 5}, SW), "sig": lambda: FSUHardsigmoid({"mode": mode, "depth": 8, "scale": 2, "dima": 0, "entry": 2}, SW),
         "tanh": FSUHardtanh}[act]()
    h = (x @ w1.T + b1) / (I + 1)
    h = {"relu": np.maximum(h, 0), "sig": (h + 1) / 2, "tanh": h}[act]
    want = h @ w2.T / H
    pe = ProgError(t(want), {"scale": 1, "mode": mode})
    e = encode(x, w, mode, 2)
    n = 1 << w
    for i in range(n):
        pe.Monitor(l2(a(l1(e(torch.full(x.shape, i, dtype=torch.long))))))
    val, err = pe()
    lim = (8.0 if mode == "unipolar" else 16.0) / n
    if not (npy(err.abs()) <= lim).all():
        fail("%s network with %s of width %d: values %s instead of %s" % (mode, act, w, npy(val).ravel()[:6], want.ravel()[:6]))
    return {"nontrivial": bool(np.abs(want).max() > 2 * lim), "labels": [mode + " " + act]}


def network_cases():
    return st.one_of(st.tuples(st.just("unipolar"), st.sampled_from(["sig", "tanh"])), st.tuples(st.just("bipolar"), st.sampled_from(["relu", "sig", "tanh"]))).flatmap(
        lambda p: st.fixed_dictionaries({"mode": st.just(p[0]), "act": st.just(p[1]), "width": st.sampled_from([6, 7]), "I": st.integers(1, 6), "H": st.integers(1, 6),
                                         "O": st.integers(1, 4), "B": st.integers(1, 4), "seed": gseeds, "gseed": gseeds}))


def cell(c):
    """The unary cell follows the float cell it stands for."""
    w, I, H, B = 7, c["I"], c["H"], 4
    r = np.random.default_rng(c["seed"])
    g = lambda s, m: t(grid(np.clip(r.standard_normal(s) * m, -1, 1), w, "bipolar"))
    wf, wn, bf, bn = g((H, H + I), 0.2), g((H, H + I), 0.2), g((H,), 0.2), g((H,), 0.2)
    hub = HUBMGUCell(I, H, True, wf, bf, wn, bn, hwcfg={"width": w, "mode": "bipolar", "depth": 10, "depth_ismul": 6, "rng": "sobol", "dimr": 1})
    f = HardMGUCell(I, H, True, True)
    f.weight_f.data, f.weight_n.data, f.bias_f.data, f.bias_n.data = wf, wn, bf, bn
    h0 = g((B, H), 0.5) if c["h0"] else None
    x = g((B, I), 0.5)
    a, b = npy(hub(x, h0)), npy(f(x, h0))
    e = np.abs(a - b)
    if e.max() > 0.4 or np.sqrt((e ** 2).mean()) > 0.2:
        fail("hidden state %s of the unary cell, %s of the float cell" % (a.ravel()[:6], b.ravel()[:6]))
    return {"nontrivial": bool(np.abs(b).max() > 0.1), "labels": []}


def bounded(c):
    """HUB and T-LUT layers run to the end stay within the resolution of their width of the float layer."""
    xs, ws = c22.shapes_of(c)
    w, x = Q.draw(c["w"], ws), Q.draw(c["x"], xs)
    N = 1 << (c["width"] - 1)
    hub = c["kind"] == "hub"
    if hub:
        h = {"width": c["width"], "rng": c["rng"], "qi": 1, "qw": 1, "cycle": None, "rounding": "ceil"}
        m = c22.make(HUBLinear, HUBConv2d, dict(c, bias=False), t(w), None, c21.hw(h))
    else:
        h = {"temporal": c["temporal"], "widtht": c["widtht"], "wi": c["width"], "ww": c["width"], "qi": 1, "qw": 1, "cycle": None, "rounding": "ceil"}
        m = c22.make(TLUTLinear, TLUTConv2d, dict(c, bias=False), t(w), None, c23.hw(h))
    y = npy(m(t(x))).astype(np.float64)
    rows, put = c22.rows_of(c, x)
    rows, wr = rows.astype(np.float64), w.reshape(c["nout"], -1).astype(np.float64)
    sx, sw = 2 * np.abs(x).max(), 2 * np.abs(w).max()
    dx, dw = 1.001 * sx / N, 1.001 * sw / N
    exact = put(rows @ wr.T, None)
    per = dx * dw + (sx * sw * (np.log2(N) / 2 + 1.5) / N if hub else 0)
    nz = (rows != 0).astype(float) @ (wr != 0).astype(float).T
    lim = put(np.abs(rows) @ np.full_like(wr.T, dw) + dx * np.abs(wr).sum(1)[None, :] + per * nz, None)
    if not (np.abs(y - exact) <= lim + 1e-5 * np.abs(exact) + 1e-9).all():
        fail("%s layer of width %d: %s instead of %s" % (c["kind"], c["width"], y.ravel()[:6], exact.ravel()[:6]))
    return {"nontrivial": bool(np.ptp(exact) > lim.max()), "labels": [c["kind"]]}


def bounded_cases(conv):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["hub", "tlut"]), "width": st.integers(4, 8), "rng": st.sampled_from([["sobol", "sobol"], ["sobol", "race"], ["tc", "sobol"], ["race10", "rc"]]),
        "temporal": st.sampled_from(["i", "w"]), "widtht": st.integers(1, 4), "nin": st.integers(1, 3 if conv else 8), "nout": st.integers(1, 3 if conv else 5),
        "B": st.integers(1, 3), "g": geometry() if conv else st.none(), "w": Q.data(), "x": Q.data(), "gseed": gseeds})


def inner(c):
    """An inner product built by hand from multipliers and an adder."""
    w, mode, n = c["width"], c["mode"], c["n"]
    r = np.random.default_rng(c["seed"])
    lo = 0 if mode == "unipolar" else -1
    x, y = (grid(r.random((n, 3)) * (1 - lo) + lo, w, mode) for _ in range(2))
    mul = FSUMul(t(y), {"width": w, "mode": mode, "static": True, "rng": "sobol", "dimr": 1}, SW)
    add = FSUAdd({"mode": mode, "scale": None, "dima": 0, "depth": 12, "entry": None}, SW)
    want = (x * y).sum(0) / n
    pe = ProgError(t(want), {"scale": 1, "mode": mode})
    sb = Stability(t(want), {"scale": 1, "mode": mode, "threshold": 0.3})
    e = encode(x, w, mode, 2)
    L = 1 << w
    for i in range(L):
        z = add(mul(e(torch.full(x.shape, i, dtype=torch.long))))
        pe.Monitor(z)
        sb.Monitor(z)
    val, err = pe()
    lim = (1 if mode == "unipolar" else 2) * (w / 2.0 + 3) / L
    if not (npy(err.abs()) <= lim).all():
        fail("%s inner product %s instead of %s" % (mode, npy(val), want))
    s = npy(sb())
    if (s < 0.5).any():
        fail("the product becomes stable only at the end: stability %s" % s)
    return {"nontrivial": n > 1, "labels": [mode]}


PROP = Prop("C39",
            "network: random two-layer FSU networks with each activation, decoded by ProgError, against the float network. cell: HUB gated unit against the float cell. "
            "bounded: HUB and T-LUT layers against float layers within the resolution of the width. inner: products built from multipliers and an adder. "
            "Non-trivial: an exact result larger than the tolerance.",
            [Check("network", network_cases(), network, 120), Check("cell", st.fixed_dictionaries({"I": st.integers(1, 4), "H": st.integers(1, 4), "h0": st.booleans(),
                                                                                                  "seed": gseeds, "gseed": gseeds}), cell, 40, 300),
             Check("bounded", st.booleans().flatmap(bounded_cases), bounded, 1200),
             Check("inner", st.fixed_dictionaries({"width": st.sampled_from([6, 7, 8]), "mode": st.sampled_from(["unipolar", "bipolar"]), "n": st.integers(1, 8), "seed": gseeds,
                                                   "gseed": gseeds}), inner, 120)],
            ["Tolerances are about twice what dense sweeps of the domain showed; Sobol sequences of different dimensions for data and weights, the configuration "
             "the project recommends."])
