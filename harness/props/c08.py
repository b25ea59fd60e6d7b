import numpy as np
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import t, npy, shapes, lengths, streams, gseeds, mode_names, make_bits
from harness.units import dtypes, fit, sw
from harness.util import same, dtype_is
from harness import models as M
from harness.props.c07 import narrow
from harness.streamcheck import long_cases, model_check
from UnarySim.kernel import FSUAdd

SCALES = [None, 1, 1, 2, 3, 0.5, 1.5, 2.5, 4, 7, 12, "n"]


def cases():
    return st.fixed_dictionaries({
        "n": st.integers(1, 12), "mode": mode_names(), "depth": st.integers(3, 12), "scale": st.sampled_from(SCALES),
        "entry": st.sampled_from([None, "n", 1, 3, 5, 16]), "rscale": st.sampled_from([None, None] + SCALES[1:]),
        "rentry": st.sampled_from([None, None, "n", 2, 9]), "every": st.booleans(), "dima": st.integers(-5, 4), "T": lengths(1, 300),
        "shape": st.one_of(shapes(2, 4), shapes(2, 4), shapes(4, 3)), "counts": st.sampled_from([1, 1, 3, 9]), "x": streams(), "S": dtypes(), "gseed": gseeds})


def fn(c):
    n, T, shape, mode = c["n"], c["T"], c["shape"], c["mode"].lower()
    num = lambda v: n if v == "n" else v
    nd = len(shape) + 1
    ax = c["dima"] % nd
    bits = np.moveaxis(make_bits(c["x"], T, [n] + shape), 1, ax + 1).astype(np.int64)
    if c["counts"] > 1:                              # parallel counts rather than single bits
        bits = bits * np.random.default_rng(c["gseed"]).integers(0, c["counts"] + 1, bits.shape)
    m = FSUAdd({"mode": c["mode"], "scale": num(c["scale"]), "dima": c["dima"] if -nd <= c["dima"] < nd else ax, "depth": c["depth"], "entry": num(c["entry"])}, sw(fit(c["S"], c["depth"])))
    rs, re = num(c["rscale"]), num(c["rentry"])
    entry = re if re is not None else (num(c["entry"]) if c["entry"] is not None else n)
    scale = rs if rs is not None else (num(c["scale"]) if c["scale"] is not None else entry)
    ref = M.Add(mode, scale, entry, c["depth"], shape)
    hit = False
    ones = np.zeros(shape)
    for k in range(T):
        kw = {"scale": rs, "entry": re} if (k == 0 or c["every"]) else {}
        o = m(t(bits[k], c["S"][0]), **kw)
        want = ref.step(bits[k].sum(ax))
        same(o, want, "sum (entry %s, scale %s) at cycle %d" % (entry, scale, k))
        dtype_is(o, c["S"][0], "sum at cycle %d" % k)
        hit = hit or bool((np.abs(ref.acc) >= ref.lim).any())
        ones += want
    lab = [mode, "scale=entry" if scale == entry else "scale=1" if scale == 1 else "scale other"]
    lab += ["saturated"] if hit else []
    lab += ["runtime"] if (rs is not None or re is not None) else []
    return {"nontrivial": bool((ones > 0).any() and (ones < T).any()), "labels": lab}


PROP = Prop("C08",
            "1 to 12 streams (or parallel counts), any scale including fractional, entry and scale given at construction or at the first call, depths "
            "small enough to saturate, random dtypes, dimension, length; real adder against an accumulator model at every cycle. Non-trivial: the output "
            "is not constant.",
            [Check("model", cases(), fn, 1600),
             Check("long", long_cases("FSUAdd").map(lambda c: dict(c, S=narrow(c["S"])) if c["gseed"] % 3 == 0 else c), model_check("FSUAdd"), 96)],
            ["Scale and entry are fixed by the first call; later calls repeat the same ones or give none."])
