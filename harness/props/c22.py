import itertools
import numpy as np
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness.util import same, dtype_is
from harness import models as M, quant as Q
from harness.props.c20 import geometry, arg
from UnarySim.kernel import FXPLinear, FXPConv2d


def cfg():
    return st.fixed_dictionaries({"wi": st.integers(2, 12), "ww": st.integers(2, 12), "qi": st.sampled_from([1, 1, 1, 0.9, 0.5]),
                                  "qw": st.sampled_from([1, 1, 1, 0.8]), "rounding": st.sampled_from(Q.ROUNDING)})


def hw(h):
    return {"widthi": h["wi"], "quantilei": h["qi"], "widthw": h["ww"], "quantilew": h["qw"], "rounding": h["rounding"]}


def shapes_of(c):
    if c["g"] is not None:
        kh, kw = M.pair(c["g"]["kernel"])
        return [c["B"], c["nin"]] + c["g"]["size"], [c["nout"], c["nin"], kh, kw]
    return [c["B"], c["nin"]], [c["nout"], c["nin"]]


def make(lin, conv, c, wt, bt, hwcfg):
    if c["g"] is None:
        return lin(c["nin"], c["nout"], bias=c["bias"], weight_ext=wt, bias_ext=bt, hwcfg=hwcfg)
    g = c["g"]
    return conv(c["nin"], c["nout"], arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), bias=c["bias"],
                weight_ext=wt, bias_ext=bt, hwcfg=hwcfg)


def rows_of(c, x):
    """Rows to multiply with the weight, and how to put the products together."""
    if c["g"] is None:
        return x, lambda r, b: r + (0 if b is None else b)
    rows, o = Q.patches(x, c["g"])
    return rows.reshape(-1, rows.shape[-1]), lambda r, b: Q.fold(r, o, c["B"]) + (0 if b is None else b.reshape(1, -1, 1, 1))


def run_case(c):
    h = c["h"]
    xs, ws = shapes_of(c)
    w, b = Q.draw(c["w"], ws), (Q.draw(c["b"], [c["nout"]]) if c["bias"] else None)
    wt, bt = t(w), (t(b) if c["bias"] else None)
    m = make(FXPLinear, FXPConv2d, c, wt, bt, hw(h))
    nt = clipped = False
    for i in range(c["calls"]):
        x = Q.draw(dict(c["x"], seed=c["x"]["seed"] + i, exp=c["x"]["exp"] + i), xs)
        xt = t(x)
        y = m(xt)
        dtype_is(y, "f32", "output")
        same(xt, x, "the input afterwards")
        rows, put = rows_of(c, x)
        ei, ew = Q.exps(x, h["qi"], h["rounding"]), Q.exps(w, h["qw"], h["rounding"])
        if ei is None or ew is None:
            continue
        wants, tols = [], []
        for a, e in itertools.product(ei, ew):
            qi, qw = Q.fxp_quant(rows, a, h["wi"]), Q.fxp_quant(w.reshape(c["nout"], -1), e, h["ww"])
            wants.append(put(qi @ qw.T, b))
            tols.append(Q.roundoff(rows) * put(np.abs(qi) @ np.abs(qw.T), None if b is None else np.abs(b)) + 1e-12)
            clipped = clipped or bool((np.abs(rows) > np.abs(qi) + 2.0 ** (a - h["wi"] + 1)).any())
        it = iter(tols)
        Q.near(y, wants, lambda _: next(it), "FXP %s, %s" % ("conv" if c["g"] else "linear", h))
        nt = nt or bool(np.ptp(wants[0]) > 0)
    same(wt, w, "the weight afterwards")
    return {"nontrivial": nt, "labels": [h["rounding"].lower()] + (["saturated"] if clipped else [])}


def bound(c):
    """Without any rounding boundary in play: the distance to the float product is at most half a step per operand."""
    h = dict(c["h"], qi=1, qw=1, rounding="ceil")
    xs, ws = shapes_of(c)
    w, x = Q.draw(c["w"], ws), Q.draw(c["x"], xs)
    wt = t(w)
    m = make(FXPLinear, FXPConv2d, dict(c, bias=False), wt, None, hw(h))
    y = npy(m(t(x))).astype(np.float64)
    rows, put = rows_of(c, x)
    wr = w.reshape(c["nout"], -1).astype(np.float64)
    mx, mw = np.abs(x).max(), np.abs(w).max()
    # a scale of at most 2*max, split into 2**(width-1) steps
    di, dw = 2 * mx * 2.0 ** (1 - h["wi"]) / 2 * 1.001, 2 * mw * 2.0 ** (1 - h["ww"]) / 2 * 1.001
    exact, lim = put(rows @ wr.T, None), put(np.abs(rows) @ np.full_like(wr.T, dw) + di * np.abs(wr).sum(1)[None, :] + rows.shape[1] * di * dw, None)
    if not (np.abs(y - exact) <= lim + 1e-5 * np.abs(exact) + 1e-12).all():
        fail("quantisation error above half a step per operand: %s against %s, %s" % (y.ravel()[:4], exact.ravel()[:4], h))
    return {"nontrivial": bool(np.ptp(exact) > 0), "labels": []}


def cases(conv, large=False):
    return st.fixed_dictionaries(dict(Q.sizes(conv, large), h=cfg(), calls=st.sampled_from([1, 1, 2])))


PROP = Prop("C22",
            "Random sizes, geometry, both widths, quantiles, rounding, data of many kinds and magnitudes, one or two calls (the scale follows each input); the real "
            "layer against a double-precision model of quantise, saturate and multiply, and the error against half a step per operand. Non-trivial: an output that "
            "is not constant.",
            [Check("linear", cases(False), run_case, 1200), Check("conv", cases(True), run_case, 800), Check("large", st.booleans().flatmap(lambda b: cases(b, True)), run_case, 160), Check("error_bound", st.booleans().flatmap(cases), bound, 600)],
            ["Where the scale lies on a rounding boundary within float32 precision, both neighbours are accepted."])
