import itertools
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness.util import same, dtype_is
from harness import quant as Q
from harness.props.c20 import geometry
from harness.props.c22 import make, rows_of, shapes_of
from UnarySim.kernel import TLUTLinear, TLUTConv2d

FMT = {"f32": "float32", "f16": "float16", "bf16": "bfloat16"}
EPS = {"f32": 2.0 ** -23, "f16": 2.0 ** -10, "bf16": 2.0 ** -7}


def cfg(mixed=False):
    return st.integers(1, 5).flatmap(lambda wt: st.fixed_dictionaries({
        "temporal": st.sampled_from(["i", "input", "w", "weight", "Input", "W"]), "widtht": st.just(wt), "wi": st.integers(2, 8 if mixed else 11),
        "ww": st.integers(2, 8 if mixed else 11), "qi": st.sampled_from([1, 1, 1, 0.9, 0.5]), "qw": st.sampled_from([1, 1, 1, 0.8]),
        "cycle": st.one_of(st.none(), st.none(), st.just(2 ** wt), st.integers(1, 2 ** wt), st.just(2 ** wt + 3)), "rounding": st.sampled_from(Q.ROUNDING)}))


def hw(h, fi="fxp", fw="fxp"):
    return {"temporal": h["temporal"], "widtht": h["widtht"], "formati": fi, "widthi": h["wi"], "quantilei": h["qi"], "formatw": fw, "widthw": h["ww"],
            "quantilew": h["qw"], "cycle": h["cycle"], "rounding": h["rounding"], "signmag": True}


def quantised(x, e, W, widtht=None, cycle=None):
    q = Q.trunc_quant(x, e, W)
    if widtht is not None:
        q = Q.digits(q, widtht, W, 2 ** widtht if cycle is None else min(cycle, 2 ** widtht))
    return q * 2.0 ** (e - W)


def scales(x, rows, q, rounding):
    """The scale follows the data multiplied: of a convolution, the image or its patches."""
    a = Q.exps(x, q, rounding)
    b = a if rows is x else Q.exps(rows, q, rounding)
    return None if a is None or b is None else sorted(set(a) | set(b))


def run_case(c):
    h = c["h"]
    xs, ws = shapes_of(c)
    w, b = Q.draw(c["w"], ws), (Q.draw(c["b"], [c["nout"]]) if c["bias"] else None)
    wt, bt = t(w), (t(b) if c["bias"] else None)
    m = make(TLUTLinear, TLUTConv2d, c, wt, bt, hw(h))
    itime = h["temporal"].lower()[0] == "i"
    nt = False
    for i in range(c["calls"]):
        x = Q.draw(dict(c["x"], seed=c["x"]["seed"] + i, exp=c["x"]["exp"] + i), xs)
        xt = t(x)
        y = m(xt)
        dtype_is(y, "f32", "output")
        same(xt, x, "the input afterwards")
        rows, put = rows_of(c, x)
        ei, ew = scales(x, rows, h["qi"], h["rounding"]), Q.exps(w, h["qw"], h["rounding"])
        if ei is None or ew is None:
            continue
        wants, tols = [], []
        for a, e in itertools.product(ei, ew):
            qi = quantised(rows, a, h["wi"] - 1, *([h["widtht"], h["cycle"]] if itime else []))
            qw = quantised(w.reshape(c["nout"], -1), e, h["ww"] - 1, *([] if itime else [h["widtht"], h["cycle"]]))
            wants.append(put(qi @ qw.T, b))
            tols.append(Q.roundoff(rows) * put(np.abs(qi) @ np.abs(qw.T), None if b is None else np.abs(b)) + 1e-12)
        it = iter(tols)
        Q.near(y, wants, lambda _: next(it), "T-LUT %s, %s" % ("conv" if c["g"] else "linear", h))
        nt = nt or bool(np.ptp(wants[0]) > 0)
    same(wt, w, "the weight afterwards")
    return {"nontrivial": nt, "labels": ["temporal input" if itime else "temporal weight", "early stop" if h["cycle"] is not None and h["cycle"] < 2 ** h["widtht"] else "full"]}


def mixed(c):
    """One operand temporal in fxp, the other a float of some format, taken as it is."""
    h, f = c["h"], c["fmt"]
    xs, ws = shapes_of(c)
    itime = h["temporal"].lower()[0] == "i"
    # the temporal operand stays float32, as do the other and the result for float32
    w, x = Q.draw(c["w"], ws), Q.draw(c["x"], xs)
    wt, xt = t(w, f), t(x, f)
    w, x = npy(wt).astype(np.float64), npy(xt).astype(np.float64)
    b = npy(t(Q.draw(c["b"], [c["nout"]]), f)).astype(np.float64) if c["bias"] else None
    m = make(TLUTLinear, TLUTConv2d, c, wt, t(b, f) if c["bias"] else None, hw(h, *(("fxp", FMT[f]) if itime else (FMT[f], "fxp"))))
    y = m(xt)
    dtype_is(y, f, "output")
    rows, put = rows_of(c, x)
    ei, ew = scales(x, rows, h["qi"], h["rounding"]), Q.exps(w, h["qw"], h["rounding"])
    if ei is None or ew is None:
        return {"nontrivial": False, "labels": []}
    wants, tols = [], []
    for e in (ei if itime else ew):
        wr = w.reshape(c["nout"], -1)
        qi = quantised(rows, e, h["wi"] - 1, h["widtht"], h["cycle"]) if itime else rows
        qw = wr if itime else quantised(wr, e, h["ww"] - 1, h["widtht"], h["cycle"])
        wants.append(put(qi @ qw.T, b))
        tols.append((4 + (rows.shape[-1] / 4 if f == "f32" else 0)) * EPS[f] * put(np.abs(qi) @ np.abs(qw.T), None if b is None else np.abs(b)) + (1e-6 if f != "f32" else 1e-12))
    it = iter(tols)
    Q.near(y, wants, lambda _: next(it), "T-LUT %s with a %s operand, %s" % ("conv" if c["g"] else "linear", FMT[f], h))
    return {"nontrivial": bool(np.ptp(wants[0]) > 0), "labels": [f, "temporal input" if itime else "temporal weight"]}


def cases(conv, mix=False, large=False):
    d = dict(Q.sizes(conv, large), h=cfg(mix), calls=st.sampled_from([1, 1, 2]))
    if mix:
        d["fmt"] = st.sampled_from(["f32", "f32", "f16", "bf16"])
    return st.fixed_dictionaries(d)


PROP = Prop("C23",
            "Random sizes, geometry, temporal operand, widths, digit width, early stop, quantiles, rounding, data of many kinds and magnitudes; the real layer "
            "against a double-precision model that truncates both operands and limits each digit of the temporal one. mixed: the other operand a float of 16 or "
            "32 bits, used as it is. Non-trivial: an output that is not constant.",
            [Check("linear", cases(False), run_case, 1000), Check("conv", cases(True), run_case, 700),
             Check("large", st.booleans().flatmap(lambda b: cases(b, False, True)), run_case, 120),
             Check("mixed", st.booleans().flatmap(lambda b: cases(b, True)), mixed, 600)],
            ["Where the scale lies on a rounding boundary within float32 precision, both neighbours are accepted; the scale of a convolution may be that of the image "
             "or of its patches. Mixed formats: the temporal operand is the fxp one."])
