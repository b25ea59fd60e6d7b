import itertools
import numpy as np
import torch
from hypothesis import strategies as st, assume
from harness.core import Prop, Check, fail
from harness.gen import rng_names, gseeds, t, npy
from harness.util import same, dtype_is
from harness import models as M, quant as Q
from harness.props.c20 import geometry, arg
from UnarySim.kernel import HUBLinear, HUBConv2d

RATE, TEMP = ["sobol", "rc"], ["race", "tc", "race10", "tc10"]
PSEUDO = ["sys", "lfsr"]


def cfg(pseudo=False, large=False):
    def pair(_):
        r = PSEUDO if pseudo else RATE
        return st.one_of(st.tuples(rng_names(r), rng_names(r + RATE)), st.tuples(rng_names(r), rng_names(TEMP)), st.tuples(rng_names(TEMP), rng_names(r)))
    def more(w):
        N = 1 << (w - 1)
        return st.fixed_dictionaries({
            "width": st.just(w), "rng": pair(0).map(list), "qi": st.sampled_from([1, 1, 1, 0.9, 0.5]), "qw": st.sampled_from([1, 1, 1, 0.8]),
            "cycle": st.one_of(st.none(), st.just(N), st.integers(1, N), st.just(4 * N)), "rounding": st.sampled_from(Q.ROUNDING)})
    return st.integers(3, 10 if large else 7).flatmap(more)


def hw(h):
    return {"widthi": h["width"], "rngi": h["rng"][0], "quantilei": h["qi"], "widthw": h["width"], "rngw": h["rng"][1], "quantilew": h["qw"],
            "cycle": h["cycle"], "rounding": h["rounding"], "signmag": True}


def tables(h):
    """The table of products, by the coding of the two operands; the temporal operand counts, the other is sampled."""
    W = h["width"] - 1
    N = 1 << W
    ri, rw = h["rng"][0].lower(), h["rng"][1].lower()
    itc, wtc = ri in TEMP, rw in TEMP
    if wtc:
        T = Q.hub_table(M.sequence(ri, W, 1), N)
        return [T, T.T]             # either operand may select the count
    return [Q.hub_table(M.sequence(rw, W, 1), N)]


def results(h, x, w, rows, wrows, tabs):
    """All acceptable [n, m] products (before bias) for patches/rows and weight rows, with scales from x and w."""
    N = 1 << (h["width"] - 1)
    cyc = N if h["cycle"] is None else min(h["cycle"], N)
    ei, ew = Q.exps(x, h["qi"], h["rounding"]), Q.exps(w, h["qw"], h["rounding"])
    if ei is None or ew is None:
        return None
    out = []
    for a, b in itertools.product(ei, ew):
        qi, si = Q.hub_quant(rows, a, h["width"], cyc)
        qw, sw = Q.hub_quant(wrows, b, h["width"], cyc)
        sc = 2.0 ** (a + b - (h["width"] - 1))
        for T in tabs:
            if isinstance(T, str):
                out.append((np.stack([qi, si]), np.stack([qw, sw]), sc, N))
            else:
                out.append(Q.hub_matmul(qi, si, qw, sw, T) * sc)
    return out


def tol(bias):
    b = 0 if bias is None else float(np.abs(bias).max())
    return lambda w: 1e-6 * (np.abs(w) + b) + 1e-12


def run_case(c, pseudo=False):
    h = c["h"]
    conv = c["g"] is not None
    if conv:
        kh, kw = M.pair(c["g"]["kernel"])
        xs, ws = [c["B"], c["nin"]] + c["g"]["size"], [c["nout"], c["nin"], kh, kw]
    else:
        xs, ws = [c["B"], c["nin"]], [c["nout"], c["nin"]]
    w, b = Q.draw(c["w"], ws), (Q.draw(c["b"], [c["nout"]]) if c["bias"] else None)
    wt, bt = t(w), (t(b) if c["bias"] else None)
    if conv:
        g = c["g"]
        m = HUBConv2d(c["nin"], c["nout"], arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), bias=c["bias"],
                      weight_ext=wt, bias_ext=bt, hwcfg=hw(h))
    else:
        m = HUBLinear(c["nin"], c["nout"], bias=c["bias"], weight_ext=wt, bias_ext=bt, hwcfg=hw(h))
    lab = ["conv" if conv else "linear", h["rounding"].lower()]
    nt = False
    for i in range(c["calls"]):
        spec = dict(c["x"], seed=c["x"]["seed"] + i, exp=c["x"]["exp"] + i)
        x = Q.draw(spec, xs)
        xt = t(x)
        y = m(xt)
        dtype_is(y, "f32", "output")
        same(xt, x, "the input afterwards")
        rows = x
        if conv:
            rows, o = Q.patches(x, c["g"])
            rows = rows.reshape(-1, rows.shape[-1])
        res = results(h, x, w, rows, w.reshape(c["nout"], -1), ["bounds"] if pseudo else tables(h))
        if res is None:
            continue
        shape = lambda r: (Q.fold(r, o, c["B"]) + (b.reshape(1, -1, 1, 1) if b is not None else 0)) if conv else r + (b if b is not None else 0)
        if pseudo:
            ok = False
            for (qi, si), (qw, sw), sc, N in res:
                s = si[:, None, :] * sw[None, :, :]
                slack = 2
                lo_t = np.maximum(0, qi[:, None, :] + qw[None, :, :] - N - slack)
                hi_t = np.minimum(qi[:, None, :], qw[None, :, :]) + slack
                zero = (qi[:, None, :] == 0) | (qw[None, :, :] == 0)
                hi_t = np.where(zero, 0, hi_t)
                lo = np.where(s > 0, lo_t, np.where(s < 0, -hi_t, 0)).sum(2) * sc
                hi = np.where(s > 0, hi_t, np.where(s < 0, -lo_t, 0)).sum(2) * sc
                yy = npy(y).astype(np.float64)
                lo, hi = shape(lo), shape(hi)
                e = 1e-5 * (np.abs(lo) + np.abs(hi)) + 1e-9
                ok = ok or (list(lo.shape) == list(yy.shape) and bool(((yy >= lo - e) & (yy <= hi + e)).all()))
            if not ok:
                fail("product counts outside what the operands allow, %s" % h)
        else:
            Q.near(y, [shape(r) for r in res], tol(b), "HUB %s, %s" % (lab[0], h))
        nt = nt or bool(np.ptp(npy(y)) > 0) and bool((res[0] != 0).any() if not pseudo else True)
    same(wt, w, "the weight afterwards")
    return {"nontrivial": nt, "labels": lab + (["early stop"] if h["cycle"] is not None and h["cycle"] < 1 << (h["width"] - 1) else [])}


def cases(conv, pseudo=False, large=False):
    return st.fixed_dictionaries(dict(Q.sizes(conv, large), h=cfg(pseudo, large), calls=st.sampled_from([1, 1, 2])))


def product_cases():
    return st.fixed_dictionaries({"w": st.integers(3, 7), "rng": st.tuples(rng_names(RATE), rng_names(RATE)).map(list), "gseed": gseeds, "seed": gseeds})


def product(c):
    """One product at a time, away from clipping: the count is within the discrepancy of the sequence of the exact product."""
    W = c["w"] - 1
    N = 1 << W
    r = np.random.default_rng(c["seed"])
    i, w = int(r.integers(0, N)), r.integers(0, N, 8)
    si, sw = r.choice([-1, 1]), r.choice([-1, 1], 8)
    # a second feature of magnitude 1 fixes the scale (and meets a zero weight)
    x = np.array([[si * i / N, 1.0]], dtype=np.float32)
    wt = np.stack([sw * w / N, np.zeros(8)], 1)
    wt = np.concatenate([wt, [[0, 1.0]]], 0).astype(np.float32)
    m = HUBLinear(2, 9, bias=False, weight_ext=t(wt), hwcfg=hw({"width": c["w"], "rng": c["rng"], "qi": 1, "qw": 1, "cycle": None, "rounding": "round"}))
    y = npy(m(t(x)))[0, :8].astype(np.float64)
    exact = si * sw * i * w / float(N * N)
    if (np.abs(y - exact) > (W / 2.0 + 1.5) / N).any():
        fail("product %s instead of %s at width %d" % (y.tolist(), exact.tolist(), c["w"]))
    return {"nontrivial": bool(i > 0 and (w > 0).any()), "labels": []}


def widths_differ():
    HUBLinear(4, 3, bias=False, weight_ext=torch.rand(3, 4), hwcfg={
        "widthi": 8, "rngi": "Sobol", "quantilei": 1, "widthw": 6, "rngw": "Sobol", "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True})(torch.rand(2, 4))


def widths_differ_conv():
    HUBConv2d(1, 3, 2, bias=False, weight_ext=torch.rand(3, 1, 2, 2), hwcfg={
        "widthi": 6, "rngi": "Sobol", "quantilei": 1, "widthw": 8, "rngw": "Sobol", "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True})(torch.rand(2, 1, 4, 4))


PROP = Prop("C21",
            "Random sizes, geometry, widths, generator pairs, quantiles, rounding, early stop, data of many kinds and magnitudes, one or two calls; the real layer "
            "against sign times a table of counts, scaled by powers of two; with pseudo-random generators, bounds on the counts; single products against the "
            "exact product. Non-trivial: an output that is not constant nor zero.",
            [Check("linear", cases(False), run_case, 500), Check("conv", cases(True), run_case, 350),
             Check("large", st.booleans().flatmap(lambda b: cases(b, False, True)), run_case, 64), Check("pseudo_random", cases(False, True), lambda c: run_case(c, True), 160), Check("product", product_cases(), product, 200)],
            ["The two widths are equal (different widths are a recorded finding). Where the scale lies on a rounding boundary within float32 precision, both "
             "neighbours are accepted. With a temporal weight, either operand may select the count."],
            probes=[("widths_differ_linear", widths_differ), ("widths_differ_conv", widths_differ_conv)])
