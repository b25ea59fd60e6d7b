import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import t, npy, gseeds, shapes
from harness.streamcheck import unit_cases, long_cases, model_check
from harness.util import same, close, dtype_is
from UnarySim.kernel import HUBHardsigmoid, HUBHardtanh, HUBReLU


def sig(case, bits, outs):
    n = np.arange(1, case["T"] + 1).reshape([-1] + [1] * len(case["shape"]))
    if not np.array_equal(np.cumsum(outs[0], 0), (np.cumsum(bits[0].astype(np.int64), 0) + n) // 2):
        fail("the output does not hold floor((ones + cycles) / 2) ones at every cycle")


def bin_cases():
    return st.fixed_dictionaries({"f": st.sampled_from(["sigmoid", "sigmoid", "tanh", "relu"]), "shape": shapes(3, 5), "seed": gseeds,
                                  "mag": st.sampled_from([0.5, 1.0, 2.0, 5.0, 100.0]), "dt": st.sampled_from(["f32", "f64"]),
                                  "scale": st.sampled_from([None, 1., 0.5, 2., 3., 6.]), "gseed": gseeds})


def binary(c):
    r = np.random.default_rng(c["seed"])
    x = (r.random(c["shape"]) * 2 - 1) * c["mag"]
    x.ravel()[::3] = np.round(x.ravel()[::3])
    x = x.astype(np.float32)
    xt = t(x, c["dt"]).requires_grad_(True)
    before = xt.detach().clone()
    if c["f"] == "sigmoid":
        s = 3 if c["scale"] is None else c["scale"]
        m = HUBHardsigmoid() if c["scale"] is None else HUBHardsigmoid(scale=s)
        want = np.clip((x.astype(np.float64) * s + 3) / 6, 0, 1)
        inner = np.abs(x * s) < 3 - 1e-3
        outer = np.abs(x * s) > 3 + 1e-3
        slope = s / 6.0
    elif c["f"] == "tanh":
        m = HUBHardtanh()
        want = np.clip(x, -1, 1)
        inner, outer, slope = np.abs(x) < 1 - 1e-3, np.abs(x) > 1 + 1e-3, 1.0
    else:
        s = 1. if c["scale"] is None else c["scale"]
        m = HUBReLU() if c["scale"] is None else HUBReLU(scale=s)
        want = np.clip(x, 0, s)
        inner, outer, slope = (x > 1e-3) & (x < s - 1e-3), (x < -1e-3) | (x > s + 1e-3), 1.0
    y = m(xt)
    close(y, want, 1e-5 * max(1.0, c["mag"] * 0), c["f"])
    dtype_is(y, c["dt"], c["f"])
    same(xt, npy(before), "the input after the activation")
    y.sum().backward()
    g = npy(xt.grad)
    close(np.where(inner, g, slope), np.full(x.shape, slope), 1e-5, c["f"] + " gradient inside its linear range")
    close(np.where(outer, g, 0), np.zeros(x.shape), 1e-6, c["f"] + " gradient outside its linear range")
    return {"nontrivial": bool(inner.any() and outer.any()), "labels": [c["f"]]}


def tanh_extra(case, bits, outs):
    if not np.array_equal(outs[0], bits[0]):
        fail("the stream is not passed through")


PROP = Prop("C16",
            "Streams: random depth, mode, shape, dtypes, length; real stream activation against its closed form at every cycle. Binary: random values "
            "inside and outside the linear range; value and gradient. Non-trivial: both bit values occur; binary values both inside and outside.",
            [Check("long", long_cases("FSUHardsigmoid"), model_check("FSUHardsigmoid", sig), 40),
             Check("fsu_hardsigmoid", unit_cases("FSUHardsigmoid"), model_check("FSUHardsigmoid", sig), 700),
             Check("fsu_hardtanh", unit_cases("FSUHardtanh", 40), model_check("FSUHardtanh", tanh_extra), 150),
             Check("binary", bin_cases(), binary, 1200)])
