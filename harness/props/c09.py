import numpy as np
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import t, npy, gseeds, mode_names, make_bits, streams, shapes
from harness.streamcheck import unit_cases, long_cases, model_check
from harness.units import UNITS, sw, dtypes
from harness import models as M
from UnarySim.kernel import FSUMul


def counts(case, bits, outs):
    c = case["c"]
    w, L = c["width"], 1 << c["width"]
    u = UNITS["FSUMulStatic"]
    k = np.broadcast_to(u.ks(c, case["shape"]), case["shape"])
    x = bits[0].astype(np.int64)
    if c["mode"].lower() == "unipolar":
        if (outs[0] > x).any():
            fail("the product holds a 1 where the input holds 0")
        n = x.sum(0)
        got = outs[0].sum(0)
        full = n // L
        if ((got < full * k) | (got > full * k + np.minimum(k, n % L))).any():
            fail("%d ones in, constant %d/%d, %d ones out" % (n.ravel()[0], k.ravel()[0], L, got.ravel()[0]))
    return ["period>1"] if (x.sum(0) > L).any() else []


def pseudo_cases():
    return st.integers(2, 7).flatmap(lambda w: st.fixed_dictionaries({
        "width": st.just(w), "mode": mode_names(), "rng": st.sampled_from(["sys", "Sys", "lfsr", "LFSR"]), "k": st.integers(0, 1 << w),
        "periods": st.integers(1, 2), "S": dtypes(), "x": streams(), "gseed": gseeds}))


def pseudo(case):
    """With a pseudo-random sequence the count over each enabled period is still fixed by the constant."""
    w, L, k = case["width"], 1 << case["width"], case["k"]
    mode = case["mode"].lower()
    p = M.prob_of(np.array([k]), w, mode).astype(np.float32)
    mul = FSUMul(t(p), {"width": w, "mode": case["mode"], "static": True, "rng": case["rng"], "dimr": 1}, sw(case["S"]))
    on = []
    for i in range(L * case["periods"]):
        on.append(int(npy(mul(t(np.ones(1), case["S"][0])))[0]))
    for i in range(case["periods"]):
        n = sum(on[i * L:(i + 1) * L])
        ok = (k,) if case["rng"].lower() == "sys" else (max(0, k - 1), k)
        if n not in ok:
            fail("constant %d/%d over one period of ones gives %d ones" % (k, L, n))
        if on[:L] != on[i * L:(i + 1) * L]:
            fail("the sequence does not repeat with period %d" % L)
    if mode == "bipolar":
        off = [1 - int(npy(mul(t(np.zeros(1), case["S"][0])))[0]) for i in range(L)]
        if off != on[:L]:
            fail("zeros of a bipolar input do not step through the same sequence, inverted")
    return {"nontrivial": 0 < k < L, "labels": [mode]}


PROP = Prop("C09",
            "Random width, mode, sequence, constants on the binary grid (ends included), shape, dtypes, length beyond a period, stream; the real "
            "multiplier against an enable-driven generator model at every cycle, and counts of ones per period. Non-trivial: both bit values occur.",
            [Check("long", long_cases("FSUMulStatic"), model_check("FSUMulStatic", counts), 64),
             Check("model", unit_cases("FSUMulStatic"), model_check("FSUMulStatic", counts), 1000),
             Check("pseudo_random", pseudo_cases(), pseudo, 160)],
            ["The constant lies on the grid of the configured width, so its binary encoding is unambiguous."])
