import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, shapes, t, npy
from harness.util import same, close, dtype_is
from harness.shim import float_shifts
from harness import quant as Q
from UnarySim.kernel import Round


def run_case(c):
    with float_shifts():
        return run_case_(c)


def run_case_(c):
    i, f = c["iw"], c["fw"]
    if c["dt"] in ("f16", "bf16"):
        i, f = min(i, 6), min(f, 8)
    x = Q.draw(c["x"], c["shape"])
    if c["ties"]:
        r = np.random.default_rng(c["gseed"])
        x = (r.integers(-2 ** (i + f + 1) - 3, 2 ** (i + f + 1) + 4, c["shape"]) / 2.0 ** (f + 1)).astype(np.float32)
    xt = t(x, c["dt"])
    x = npy(xt).astype(np.float64)
    m = Round(intwidth=i, fracwidth=f)
    y = m(xt)
    top = (2.0 ** (i + f) - 1) / 2.0 ** f
    want = np.clip(np.round(x * 2.0 ** f) / 2.0 ** f, -top, top)
    if c["dt"] in ("f16", "bf16"):
        want = npy(t(want, c["dt"]))
    same(y, want, "rounded to %d.%d bits" % (i, f))
    dtype_is(y, c["dt"], "rounded value")
    same(xt, x, "the input afterwards")
    if m(None) is not None:
        fail("None does not pass through")
    same(m(y), want if c["dt"] in ("f32", "f64") else npy(m(y)), "rounded twice")
    if c["dt"] in ("f32", "f64"):
        same(m(-xt), -npy(y), "rounding of the negated value")
        z = t(x, c["dt"]).requires_grad_(True)
        g = t(np.random.default_rng(c["gseed"]).standard_normal(x.shape), c["dt"])
        m(z).backward(g)
        close(z.grad, npy(g), 1e-6 * np.abs(npy(g)), "gradient, which bypasses the rounding")
    return {"nontrivial": bool((want != x).any() and (want != 0).any()), "labels": [c["dt"], "saturated" if (np.abs(want) >= top).any() else "inside"]}


def round_floats():
    Round()(torch.rand(3))


PROP = Prop("C29",
            "Random shape, data, ties, integer and fraction width, float type; against nearest multiple (ties to even) with saturation; type, idempotence, symmetry, "
            "None and the straight-through gradient. Non-trivial: something is rounded and not all is zero.",
            [Check("round", st.fixed_dictionaries({"iw": st.one_of(st.integers(0, 6), st.integers(0, 11)), "fw": st.one_of(st.integers(0, 8), st.integers(0, 11)), "shape": shapes(), "x": Q.data(), "ties": st.booleans(),
                                                   "dt": st.sampled_from(["f32", "f32", "f64", "f16", "bf16"]), "gseed": gseeds}), run_case, 2000)],
            ["Runs with the float shifts of older PyTorch put back in the harness; that it fails without them is a recorded finding."],
            probes=[("round_floats", round_floats)])
