import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import rng_names, DET_RNG, RATE, mode_names, lengths, streams, gseeds, make_bits, t, npy
from harness.util import same, close
from harness import models as M, quant as Q
from harness.props.c19 import grid_weights, SW
from harness.props import c21, c22, c23, c24
from harness.props.c25 import KIND, hwcfg
from UnarySim.kernel import FSULinear, FSUConv2d


def rows(x, point):
    """[B, C, H, W] as the rows a linear layer of the same weights would see."""
    return x.transpose(0, 2, 3, 1).reshape(-1, x.shape[1]) if point else x.reshape(x.shape[0], -1)


def back(y, c):
    """[n, nout] as an image."""
    if not c["point"]:
        return y.reshape(c["B"], c["nout"], 1, 1)
    return y.reshape(c["B"], c["h_w"][0], c["h_w"][1], c["nout"]).transpose(0, 3, 1, 2)


def common():
    return {"nin": st.integers(1, 3), "nout": st.integers(1, 4), "B": st.integers(1, 3), "bias": st.booleans(), "point": st.booleans(),
            "h_w": st.lists(st.integers(1, 4), min_size=2, max_size=2), "gseed": gseeds}


def fsu_cases():
    def more(c):
        full = c["nin"] * (1 if c["point"] else c["h_w"][0] * c["h_w"][1]) + int(c["bias"])
        return st.sampled_from([None, 1, full]).flatmap(lambda s: rng_names(
            DET_RNG if (c["mode"].lower() == "unipolar" or s in (None, full)) else RATE).map(lambda r: dict(c, scale=s, rng=r)))
    return st.fixed_dictionaries(dict(common(), mode=mode_names(), width=st.integers(2, 5), dimr=st.integers(1, 3), wseed=gseeds, x=streams(),
                                      T=lengths(1, 60))).flatmap(more)


def fsu(c):
    mode = c["mode"].lower()
    k = [1, 1] if c["point"] else c["h_w"]
    wi = grid_weights(c["wseed"], (c["nout"], c["nin"], k[0], k[1]), c["width"])
    w = M.prob_of(wi, c["width"], mode).astype(np.float32)
    b = M.prob_of(grid_weights(c["wseed"] + 1, (c["nout"],), c["width"]), c["width"], mode).astype(np.float32) if c["bias"] else None
    hw = {"width": c["width"], "mode": c["mode"], "scale": c["scale"], "depth": 12, "rng": c["rng"], "dimr": c["dimr"]}
    conv = FSUConv2d(c["nin"], c["nout"], tuple(k), bias=c["bias"], weight_ext=t(w), bias_ext=t(b) if c["bias"] else None, swcfg=SW, hwcfg=dict(hw))
    flat = w.reshape(c["nout"], -1)
    lin = FSULinear(flat.shape[1], c["nout"], bias=c["bias"], weight_ext=t(flat), bias_ext=t(b) if c["bias"] else None, swcfg=SW, hwcfg=dict(hw))
    bits = make_bits(c["x"], c["T"], [c["B"], c["nin"]] + c["h_w"])
    seen = set()
    for i in range(c["T"]):
        y, z = conv(t(bits[i])), npy(lin(t(rows(bits[i], c["point"]))))
        same(y, back(z, c), "FSU convolution against the linear layer, %s, %s, at cycle %d" % (mode, c["rng"], i))
        seen.update(z.ravel().tolist())
    return {"nontrivial": len(seen) == 2, "labels": ["pointwise" if c["point"] else "whole image", mode]}


def bin_cases():
    def more(k):
        h = {"hub": c21.cfg, "fxp": c22.cfg, "tlut": c23.cfg, "tlutfp": c24.cfg, "tlutmix": c23.cfg}[k]()
        return st.fixed_dictionaries(dict(common(), kind=st.just(k), h=h, w=Q.data(), b=Q.data(), x=Q.data()))
    return st.sampled_from(sorted(KIND)).flatmap(more)


def binary(c):
    k = [1, 1] if c["point"] else c["h_w"]
    w, b = Q.draw(c["w"], [c["nout"], c["nin"]] + k), (Q.draw(c["b"], [c["nout"]]) if c["bias"] else None)
    x = Q.draw(c["x"], [c["B"], c["nin"]] + c["h_w"])
    L, C = KIND[c["kind"]]
    bt = lambda: t(b) if c["bias"] else None
    # pseudo-random sequences are not generated, the two layers draw the same ones
    conv = C(c["nin"], c["nout"], tuple(k), bias=c["bias"], weight_ext=t(w), bias_ext=bt(), hwcfg=hwcfg(c))
    flat = w.reshape(c["nout"], -1)
    lin = L(flat.shape[1], c["nout"], bias=c["bias"], weight_ext=t(flat), bias_ext=bt(), hwcfg=hwcfg(c))
    r = rows(x, c["point"])
    z = npy(lin(t(r))).astype(np.float64)
    tol = 4e-6 * (np.abs(r).astype(np.float64) @ np.abs(flat.T).astype(np.float64) * 4 + (0 if b is None else np.abs(b))) + 1e-9
    close(conv(t(x)), back(z, c), back(np.broadcast_to(tol, z.shape), c), "%s convolution against the linear layer" % c["kind"])
    return {"nontrivial": bool(np.ptp(z) > 0), "labels": ["pointwise" if c["point"] else "whole image", c["kind"]]}


PROP = Prop("C26",
            "A convolution whose kernel covers the image, or is one pixel, against the linear layer with the same weights: FSU bit by bit at every cycle, HUB, FXP "
            "and T-LUT within rounding. Non-trivial: both output bits seen; an output that is not constant.",
            [Check("fsu", fsu_cases(), fsu, 500), Check("binary", bin_cases(), binary, 1500)], ["No padding, so that both see the same values."])
