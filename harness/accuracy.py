"""Values in, values out: encode, stream a full period through the unit, decode, and compare with real arithmetic.

The bounds are those the methods meet on the deterministic sequences over the stated domains (dense sweeps of the domain
stay within about two thirds of each bound), so they catch a wrong function, not a lost bit; the bit-exact models do that.
"""
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import fail
from harness.gen import gseeds, DT
from UnarySim.stream import RNG, BinGen, BSGen
from UnarySim.kernel import FSUDiv, FSUSqrt, FSUReLU

SW = {"rtype": torch.float, "stype": torch.float, "btype": torch.float}


def encode(v, width, mode, dimr, rng="sobol", sw=SW):
    hw = {"width": width, "mode": mode, "rng": rng, "dimr": dimr}
    return BSGen(BinGen(torch.from_numpy(np.asarray(v, dtype=np.float32)), hw, sw)(), RNG(hw, sw)(), sw)


def decode(m, gens, width, mode, shape):
    ones = np.zeros(shape)
    for i in range(1 << width):
        ones += m(*[g(torch.full(shape, i, dtype=torch.long)) for g in gens]).double().numpy()
    p = ones / (1 << width)
    return p if mode == "unipolar" else 2 * p - 1


def grid(v, width, mode):
    """Round values to what the width can hold."""
    n = 1 << width
    return np.round(v * n) / n if mode == "unipolar" else np.round(v * n / 2) / (n / 2)


def check(got, want, bound, rms, what):
    e = np.abs(got - want)
    if not (e <= bound).all():
        i = int(np.argmax(e))
        fail("%s: %s instead of %s (bound %s)" % (what, got.ravel()[i], want.ravel()[i], bound))
    r = float(np.sqrt((e ** 2).mean()))
    if e.size >= 32 and r > rms:
        fail("%s: root mean square error %.3f over %d values (bound %s)" % (what, r, e.size, rms))


def div_cases():
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["unipolar", "bipolar"]), "width": st.sampled_from([7, 8, 9]), "depth_sa": st.integers(3, 5),
        "depth_ss": st.integers(2, 4), "entry_kn": st.sampled_from([2, 4]), "n": st.sampled_from([1, 64, 64, 64]), "seed": gseeds, "gseed": gseeds})


def div_accuracy(c):
    r = np.random.default_rng(c["seed"])
    mode, w, n = c["mode"], c["width"], c["n"]
    b = 0.25 + 0.75 * r.random(n) if mode == "unipolar" else (0.5 + 0.5 * r.random(n)) * r.choice([-1, 1], n)
    b = grid(b, w, mode)
    a = grid(b * r.random(n) * (1 if mode == "unipolar" else r.choice([-1, 1], n)), w, mode)
    m = FSUDiv({"depth_sa": c["depth_sa"], "depth_ss": c["depth_ss"], "entry_kn": c["entry_kn"], "mode": mode, "rng": "sobol", "dimr": 4}, SW)
    got = decode(m, [encode(a, w, mode, 2), encode(b, w, mode, 3)], w, mode, [n])
    q = a / b
    check(got, q, 0.2 if mode == "unipolar" else 0.3, 0.05 if mode == "unipolar" else 0.12, "%s quotient" % mode)
    return {"nontrivial": bool(((np.abs(q) > 0) & (np.abs(q) < 1)).any()), "labels": [mode]}


def sqrt_cases():
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["unipolar", "bipolar"]), "width": st.sampled_from([7, 8, 9]),
        "method": st.sampled_from(["jk", "trace", "emit2", "emit4"]), "dimr": st.sampled_from([3, 5]), "n": st.sampled_from([1, 64, 64, 64]),
        "seed": gseeds, "gseed": gseeds})


def sqrt_accuracy(c):
    r = np.random.default_rng(c["seed"])
    mode, w, n = c["mode"], c["width"], c["n"]
    v = grid(0.1 + 0.9 * r.random(n), w, mode)
    m = FSUSqrt({"mode": mode, "jk_trace": c["method"] == "jk", "emit": c["method"].startswith("emit"), "entry_kn": 1,
                 "entry_sr": 4 if c["method"] == "emit4" else 2, "rng": "sobol", "dimr": 4}, SW)
    got = decode(m, [encode(v, w, mode, c["dimr"])], w, mode, [n])
    emit = c["method"].startswith("emit")
    check(got, np.sqrt(v), 0.22 if emit else 0.36, 0.1 if emit else 0.15, "%s square root (%s)" % (mode, c["method"]))
    return {"nontrivial": bool(((v > 0) & (v < 1)).any()), "labels": [mode + " " + c["method"]]}


def relu_cases():
    return st.fixed_dictionaries({"width": st.sampled_from([6, 7, 8]), "depth": st.integers(3, 7), "dimr": st.integers(1, 5),
                                  "n": st.integers(1, 64), "seed": gseeds, "gseed": gseeds})


def relu_accuracy(c):
    r = np.random.default_rng(c["seed"])
    w, n = c["width"], c["n"]
    v = grid(2 * r.random(n) - 1, w, "bipolar")
    got = decode(FSUReLU({"depth": c["depth"]}, SW), [encode(v, w, "bipolar", c["dimr"])], w, "bipolar", [n])
    check(got, np.maximum(v, 0), 6.0 / (1 << w), 1, "rectified value")
    return {"nontrivial": bool((v < 0).any() and (v > 0).any()), "labels": []}
