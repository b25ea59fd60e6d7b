import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, mode_names, case_mix, t, npy
from harness import models as M
from harness.props.c20 import geometry, arg
from harness.props.c19 import SW
from UnarySim.stream import RNG, BinGen, BSGen
from UnarySim.kernel import FSUMul, FSUAdd, FSULinear, FSUConv2d
from UnarySim.metric import ProgError


def off(m):
    """How far the ones among any first m numbers of the sequence below a level can be from proportional: each power of two in m adds less than one."""
    m = np.asarray(m)
    return np.vectorize(lambda v: bin(int(v)).count("1"))(m)


def draw(r, shape, lo):
    v = r.random(shape) * (1 - lo) + lo
    m = r.random(shape) < 0.2
    return np.where(m, r.choice([lo, 0.0, 0.5, 1.0], shape), v).astype(np.float32)


def to_ones(v, mode):
    v = np.asarray(v, dtype=np.float64)
    return v if mode == "unipolar" else (v + 1) / 2


def generator(v, c, dim):
    hw = {"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": dim}
    return BSGen(BinGen(t(v), hw, SW)(), RNG(hw, SW)(), SW)


def product_off(m1, m0, mode, n):
    """Products of a stream with m1 ones and m0 zeros so far and a constant."""
    return off(m1 % n) + (off(m0 % n) if mode == "bipolar" else 0)


def run(c):
    mode, w, kind = c["mode"].lower(), c["width"], c["kind"]
    n = 1 << w
    r = np.random.default_rng(c["seed"])
    lo = 0 if mode == "unipolar" else -1
    B, I, O = c["B"], c["nin"], c["nout"]
    half = 0.5 / n                      # of rounding a value to the grid, in ones per cycle
    bt = None
    if kind == "conv":
        g = c["g"]
        xs, ws = [B, I] + g["size"], [O, I] + list(M.pair(g["kernel"]))
    elif kind == "linear":
        xs, ws = [B, I], [O, I]
    else:
        xs, ws = [B, I], [I]
    x, wt, b = draw(r, xs, lo), draw(r, ws, lo), draw(r, (O,), lo)
    layer = kind in ("linear", "conv")
    lin = dict(weight_ext=t(wt), bias=c["bias"], bias_ext=t(b) if c["bias"] else None,
               hwcfg={"width": w, "mode": c["mode"], "scale": None, "depth": 16, "rng": c["rng"], "dimr": c["dims"][1]}, swcfg=SW)
    one = lambda v, f: f(to_ones(v, mode))
    if kind == "gen":
        unit, exact, n_in, scale = None, x.astype(np.float64), 0, 1
    elif kind == "mul":
        unit = FSUMul(t(wt), {"width": w, "mode": c["mode"], "static": True, "rng": c["rng"], "dimr": c["dims"][1]}, SW)
        exact, n_in, scale = x.astype(np.float64) * wt, 1, 1
    elif kind == "add":
        unit = FSUAdd({"mode": c["mode"], "scale": None, "dima": 1, "depth": 16, "entry": None}, SW)
        exact, n_in, scale = x.astype(np.float64).mean(1), I, I
    elif kind == "linear":
        unit = FSULinear(I, O, **lin)
        scale = n_in = I + int(c["bias"])
        exact = (x.astype(np.float64) @ wt.astype(np.float64).T + (b if c["bias"] else 0)) / scale
    else:
        unit = FSUConv2d(I, O, arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), **lin)
        scale = n_in = I * int(np.prod(M.pair(g["kernel"]))) + int(c["bias"])
        exact = torch.nn.functional.conv2d(torch.from_numpy(x).double(), torch.from_numpy(wt).double(), torch.from_numpy(b).double() if c["bias"] else None,
                                           stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"])).numpy() / scale
    enc = generator(x, c, c["dims"][0])
    pe = ProgError(t(exact.astype(np.float32)), {"scale": 1, "mode": c["mode"]})
    ones = np.zeros(x.shape)
    varied = False
    start = c["start"] if kind == "gen" else 0        # a block that starts at a multiple of its size is as good as the first
    T = c["T"]
    for k in range(T):
        bits = enc(torch.full(x.shape, start * (1 << T.bit_length()) + k, dtype=torch.long))
        ones = ones + npy(bits)
        y = bits if unit is None else unit(bits)
        pe.Monitor(y)
        m = k + 1
        if c["all"] or m == T or (m & (m - 1)) == 0:
            d_in = int(off(m % n))
            if kind == "gen":
                lim = d_in + m * half
            elif kind == "add":
                lim = d_in + m * half + 1
            elif kind == "mul":
                lim = product_off(ones, m - ones, mode, n) + d_in + 2 * m * half
            else:
                # every product, its input included, is off by so much; sum, then one output one is worth `scale`
                worst = max(int(product_off(a, m - a, mode, n)) for a in range(m + 1)) + d_in + 2 * m * half
                lim = worst + 1 + (1 if mode == "bipolar" and kind == "conv" else 0)   # (padding alternates)
            lim = lim * (1 if mode == "unipolar" else 2) / m + 1e-5
            val, err = pe()
            e = npy(err).astype(np.float64)
            if e.shape != exact.shape:
                fail("shape %s instead of %s" % (e.shape, exact.shape))
            if (np.abs(e) > lim).any():
                i = tuple(np.argwhere(np.abs(e) > lim)[0])
                fail("%s %s stopped after %d cycles: value %s is %s off, more than %s" % (mode, kind, m, npy(val)[i], e[i], np.broadcast_to(lim, e.shape)[i]))
            varied = varied or (m >= 4 and bool((lim * 1.0 < 0.9 * (1 if mode == "unipolar" else 2)).all() if isinstance(lim, np.ndarray) else lim < 0.9))
    return {"nontrivial": varied, "labels": [kind, mode]}


def cases(kind):
    d = {"kind": st.just(kind), "width": st.integers(3, 9), "mode": mode_names(), "rng": case_mix("sobol"), "dims": st.lists(st.integers(1, 6), min_size=2, max_size=2), "B": st.integers(1, 3),
         "nin": st.integers(1, 3 if kind == "conv" else 12), "nout": st.integers(1, 3), "bias": st.booleans(), "seed": gseeds, "all": st.booleans(), "start": st.integers(0, 3),
         "T": st.one_of(st.integers(4, 64), st.integers(4, 300) if kind != "conv" else st.integers(4, 90), st.sampled_from([8, 16, 32, 64, 128])), "gseed": gseeds}
    return st.fixed_dictionaries(dict(d, g=geometry()) if kind == "conv" else d)


PROP = Prop("C48",
            "Values of all kinds (on and off the grid) encoded with random Sobol dimensions and run through generator, multiplication by a constant, scaled addition, stream linear layer or convolution, and stopped at "
            "any cycle, or inspected at every one: the progressive error metric against the float result is at most the discrepancy bound there (the number of powers of two in the cycle count, per operand, and half a step per "
            "cycle of rounding), over the cycles. Non-trivial: a cycle beyond the fourth at which the bound is less than 0.9.",
            [Check(k, cases(k), run, q) for k, q in (("gen", 300), ("mul", 300), ("add", 200), ("linear", 250), ("conv", 150))],
            ["Sobol sequences; default scale; weights rounded to the grid."])
