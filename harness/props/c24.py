import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness.util import same, dtype_is
from harness import quant as Q
from harness.props.c20 import geometry
from harness.props.c22 import make, rows_of, shapes_of
from harness.props.c23 import FMT, EPS, hw
from UnarySim.kernel import TLUTLinear, TLUTConv2d

MANT = {"f32": 24, "f16": 11, "bf16": 8}
SPAN = {"f32": (127, -149), "f16": (15, -24), "bf16": (127, -133)}
MAX = {"f32": float(np.finfo(np.float32).max), "f16": 65504.0, "bf16": (2 - 2.0 ** -7) * 2.0 ** 127}


def temporal(x, f, widtht, cycle):
    """The mantissa cut into digits, each limited by the number of cycles; the exponent kept."""
    m, e = np.frexp(x)
    q = np.rint(m * 2.0 ** MANT[f])
    assert (q == m * 2.0 ** MANT[f]).all()
    d = Q.digits(q, widtht, MANT[f], 2 ** widtht if cycle is None else min(cycle, 2 ** widtht))
    return np.ldexp(d, e - MANT[f])


def run_case(c):
    h, f = c["h"], c["fmt"]
    xs, ws = shapes_of(c)
    itime = h["temporal"].lower()[0] == "i"
    wt, xt = t(Q.draw(c["w"], ws), f), t(Q.draw(c["x"], xs), f)
    w, x = npy(wt).astype(np.float64), npy(xt).astype(np.float64)
    b = npy(t(Q.draw(c["b"], [c["nout"]]), f)).astype(np.float64) if c["bias"] else None
    name = FMT[f].capitalize() if c["caps"] else FMT[f]
    m = make(TLUTLinear, TLUTConv2d, c, wt, t(b, f) if c["bias"] else None, hw(h, name, name))
    y = m(xt)
    dtype_is(y, f, "output")
    same(xt, x, "the input afterwards")
    same(wt, w, "the weight afterwards")
    rows, put = rows_of(c, x)
    wr = w.reshape(c["nout"], -1)
    full = h["cycle"] is None or h["cycle"] >= 2 ** h["widtht"]
    a = temporal(rows, f, h["widtht"], h["cycle"]) if itime else rows
    v = wr if itime else temporal(wr, f, h["widtht"], h["cycle"])
    if full and not (np.array_equal(a, rows) and np.array_equal(v, wr)):
        raise AssertionError("the model loses digits")
    if f != "f32":
        a, v = npy(t(a, f)).astype(np.float64), npy(t(v, f)).astype(np.float64)
    want = put(a @ v.T, b)
    tol = (4 + (rows.shape[-1] / 4 if f == "f32" else 0)) * EPS[f] * put(np.abs(a) @ np.abs(v.T), None if b is None else np.abs(b)) + (1e-6 if f != "f32" else 1e-12)
    Q.near(y, [want], tol, "%s T-LUT %s, %s" % (FMT[f], "conv" if c["g"] else "linear", h))
    return {"nontrivial": bool(np.ptp(want) > 0), "labels": [f, "full" if full else "early stop", "temporal input" if itime else "temporal weight"]}


def digit(c):
    """One value times one: the digits that survive, exactly, whatever the format."""
    f, widtht = c["fmt"], c["widtht"]
    r = np.random.default_rng(c["seed"])
    x = r.standard_normal((6, 1)) * 2.0 ** r.integers(-6, 6, (6, 1))
    if c["far"]:             # up to the largest and the smallest magnitude of the format
        hi, lo = SPAN[f]
        x = np.sign(x) * (1 + r.random((6, 1))) * 2.0 ** np.where(r.random((6, 1)) < 0.2, hi, r.integers(lo, hi + 1, (6, 1)))
        x = np.clip(x, -MAX[f], MAX[f])
    x = npy(t(x, f)).astype(np.float64)
    cyc = None if c["cyc"] is None else 1 + c["cyc"] % (2 ** widtht)
    h = {"temporal": c["temporal"], "widtht": widtht, "wi": 8, "ww": 8, "qi": 1, "qw": 1, "cycle": cyc, "rounding": "round"}
    itime = c["temporal"][0] == "i"
    one = np.ones((1, 1))
    w, v = (one, x) if itime else (x, one)
    if c["conv"]:
        w, v = w[:, :, None, None], v[:, :, None, None]
    m = (TLUTConv2d(1, len(w), 1, bias=False, weight_ext=t(w, f), hwcfg=hw(h, FMT[f], FMT[f])) if c["conv"] else
         TLUTLinear(1, len(w), bias=False, weight_ext=t(w, f), hwcfg=hw(h, FMT[f], FMT[f])))
    got = npy(m(t(v, f))).reshape(6, 1)
    want = npy(t(temporal(x, f, widtht, cyc), f)).astype(np.float64)      # tiny ones may not fit the format
    if not np.array_equal(got.astype(np.float64), want):
        fail("%s values %s with %d-bit digits in %s cycles become %s, expected %s" % (FMT[f], x.ravel(), widtht, cyc, got.ravel(), want.ravel()))
    return {"nontrivial": True, "labels": ["full" if cyc in (None, 2 ** widtht) else "early stop", f]}


def cfg():
    return st.integers(1, 8).flatmap(lambda wt: st.fixed_dictionaries({
        "temporal": st.sampled_from(["i", "input", "w", "weight", "Input", "W"]), "widtht": st.just(wt), "wi": st.integers(2, 8), "ww": st.integers(2, 8),
        "qi": st.sampled_from([1, 0.9]), "qw": st.sampled_from([1, 0.8]),
        "cycle": st.one_of(st.none(), st.none(), st.just(2 ** wt), st.integers(1, 2 ** wt), st.just(2 ** wt + 3)), "rounding": st.sampled_from(Q.ROUNDING)}))


def cases(conv, large=False):
    return st.fixed_dictionaries(dict(Q.sizes(conv, large), h=cfg(), caps=st.booleans(), fmt=st.sampled_from(["f32"] if large else ["f32", "f16", "bf16"])))


PROP = Prop("C24",
            "Random sizes, geometry, float format of both operands, temporal operand, digit width, early stop, data; the real layer against a double-precision model "
            "that cuts the mantissa into digits (all of them kept without early stop), and single values exactly. Non-trivial: an output that is not constant; "
            "single values always are.",
            [Check("linear", cases(False), run_case, 900), Check("conv", cases(True), run_case, 600),
             Check("large", st.booleans().flatmap(lambda b: cases(b, True)), run_case, 120),
             Check("single_values", st.fixed_dictionaries({"fmt": st.sampled_from(["f32", "f16", "bf16"]), "widtht": st.integers(1, 8), "seed": gseeds,
                                                           "cyc": st.one_of(st.none(), st.integers(0, 255)), "temporal": st.sampled_from(["i", "w"]), "far": st.booleans(), "conv": st.booleans()}), digit, 900)],
            ["The format named is that of the data, the same for both operands. Rounding of the 16-bit products and sums is accepted within four units."])
