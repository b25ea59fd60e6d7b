import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy, DT
from harness.util import same, close, dtype_is
from harness import quant as Q
from harness.props.c20 import geometry, arg
from harness.props import c21, c22, c23, c24
from UnarySim.kernel import HUBLinear, HUBConv2d, FXPLinear, FXPConv2d, TLUTLinear, TLUTConv2d

KIND = {"hub": (HUBLinear, HUBConv2d), "fxp": (FXPLinear, FXPConv2d), "tlut": (TLUTLinear, TLUTConv2d), "tlutfp": (TLUTLinear, TLUTConv2d),
        "tlutmix": (TLUTLinear, TLUTConv2d)}


def hwcfg(c):
    k, h = c["kind"], c["h"]
    if k == "hub":
        return c21.hw(h)
    if k == "fxp":
        return c22.hw(h)
    if k == "tlut":
        return c23.hw(h)
    if k == "tlutfp":
        return c23.hw(h, "float32", "float32")
    i = h["temporal"].lower()[0] == "i"
    return c23.hw(h, *(("fxp", "float32") if i else ("float32", "fxp")))


def through(c, x, w, b):
    if c["g"] is None:
        return torch.nn.functional.linear(x, w, b)
    g = c["g"]
    return torch.nn.functional.conv2d(x, w, b, stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]))


def backward(c, m, w, b, wr, br, tot, i, x, leaf, leafr, y, yr):
    go = t(np.random.default_rng(c["gseed"] + i).standard_normal(yr.shape))
    yr.backward(go)
    # the same sums without cancellation, for the tolerance
    al, aw, ab = t(np.abs(x)).requires_grad_(True), t(np.abs(w)).requires_grad_(True), (t(np.abs(b)).requires_grad_(True) if c["bias"] else None)
    through(c, al * 2 if c["nonleaf"] else al, aw, ab).backward(go.abs())
    for k, v in {"input": al.grad, "weight": aw.grad, "bias": ab.grad if c["bias"] else None}.items():
        if v is not None:
            tot[k] = v.numpy().astype(np.float64) + (tot[k] if k in tot and k != "input" else 0)
    if not y.requires_grad:
        return False
    y.backward(go)
    nt = False
    for what, on, got, want in (("input", c["gx"], leaf.grad, leafr.grad), ("weight", c["gw"], m.weight.grad, wr.grad),
                                ("bias", c["bias"] and c["gb"], m.bias.grad if c["bias"] else None, br.grad if c["bias"] else None)):
        if not on:
            if got is not None:
                fail("%s has a gradient although it does not require it" % what)
            continue
        if got is None:
            fail("no gradient of the %s" % what)
        wv = want.numpy().astype(np.float64)
        close(got, wv, (2e-6 + 3e-8 * y.numel()) * tot[what] + 1e-12, "gradient of the %s (%s)" % (what, c["kind"]))
        nt = nt or bool(np.ptp(wv) > 0)
    return nt


def run_case(c):
    xs, ws = c22.shapes_of(c)
    w, b = Q.draw(c["w"], ws), (Q.draw(c["b"], [c["nout"]]) if c["bias"] else None)
    m = c22.make(*KIND[c["kind"]], c, t(w), t(b) if c["bias"] else None, hwcfg(c))
    m.weight.requires_grad_(c["gw"])
    if c["bias"]:
        m.bias.requires_grad_(c["gb"])
    wr, br = t(w).requires_grad_(True), (t(b).requires_grad_(True) if c["bias"] else None)
    nt, runs, tot = False, [], {}
    for i in range(c["calls"]):
        x = Q.draw(dict(c["x"], seed=c["x"]["seed"] + i), xs)
        # a non-leaf input: the gradient flows further back
        leaf, leafr = t(x).requires_grad_(c["gx"]), t(x).requires_grad_(True)
        y = m(leaf * 2 if c["nonleaf"] else leaf)
        xr = leafr * 2 if c["nonleaf"] else leafr
        yr = through(c, xr, wr, br)
        if list(y.shape) != list(yr.shape):
            fail("output shape %s, of the float layer %s" % (list(y.shape), list(yr.shape)))
        if not (c["gx"] or c["gw"] or (c["bias"] and c["gb"])) and y.requires_grad:
            fail("output requires a gradient although nothing does")
        runs.append((i, x, leaf, leafr, y, yr))
        if not c["late"] or i == c["calls"] - 1:
            # backwards right away, or after all calls and in the opposite order; gradients add up as those of any layer
            for r in reversed(runs):
                nt = backward(c, m, w, b, wr, br, tot, *r) or nt
            runs = []
    return {"nontrivial": nt, "labels": [c["kind"]]}


def cases(conv, large=False):
    def more(k):
        h = {"hub": c21.cfg, "fxp": c22.cfg, "tlut": c23.cfg, "tlutfp": c24.cfg, "tlutmix": c23.cfg}[k]()
        return st.fixed_dictionaries(dict(Q.sizes(conv, large), **{
            "kind": st.just(k), "h": h, "calls": st.sampled_from([1, 1, 2, 3]),
            "gx": st.sampled_from([True, True, True, False]), "gw": st.sampled_from([True, True, True, False]), "gb": st.booleans(),
            "nonleaf": st.booleans(), "late": st.booleans()}))
    return st.sampled_from(sorted(KIND)).flatmap(more)


PROP = Prop("C25",
            "HUB, FXP and T-LUT layers (all format combinations in float32), linear and convolutional, random configuration, data and output gradient; gradients of "
            "input, weight and bias against those of the float layer, over one to three calls, each followed by its backward pass or all passes after all calls in the opposite order. Non-trivial: a gradient that is not constant.",
            [Check("linear", cases(False), run_case, 900), Check("conv", cases(True), run_case, 700),
             Check("large", st.booleans().flatmap(lambda b: cases(b, True)), run_case, 120)],
            ["Straight-through estimator: the gradients do not see quantisation, saturation nor early stop."])
