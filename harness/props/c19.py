import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import rng_names, DET_RNG, RATE, mode_names, lengths, streams, gseeds, make_bits, t, npy
from harness.util import same, dtype_is
from harness import models as M
from UnarySim.kernel import FSULinear
from UnarySim.kernel.linear import FSULinearPC

SW = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}


def grid_weights(seed, shape, width, seq=None, T=0):
    """Numbers of the grid; with a sequence, half of them are numbers of its first T places, or one more: there a bit changes at once."""
    n = 1 << width
    r = np.random.default_rng(seed)
    k = r.integers(0, n + 1, shape)
    m = r.random(shape)
    k = np.where(m < 0.08, 0, np.where(m > 0.92, n, k))
    if seq is not None:
        near = seq[r.integers(0, min(T, n), shape)] + r.integers(0, 2, shape)
        k = np.where(r.random(shape) < 0.5, near, k)
    return k


def base(bias_too=True):
    return {"width": st.integers(1, 6), "mode": mode_names(), "dimr": st.integers(1, 4), "bias": st.booleans(), "B": st.integers(1, 4),
            "wseed": gseeds, "x": streams(), "T": lengths(1, 150), "gseed": gseeds}


def cases(large=False, wide=False):
    """Large: many inputs, outputs and rows, wide sequences of high dimension. Wide: hundreds of cycles of a small layer with wide sequences."""
    def more(c):
        full = c["nin"] + c["bias"]
        temporal_ok = c["mode"].lower() == "unipolar"
        return st.tuples(
            st.sampled_from([None, "full", 1, 1, 2, 0.5, 3]),
            st.sampled_from([None, None, None, 1, 2, "full"]),
            st.sampled_from([None, None, 1, 4]),
            st.integers(0, 5)).flatmap(lambda s: rng_names(
                DET_RNG if (temporal_ok or s[0] in (None, "full") or s[0] == full) else RATE).map(
                lambda rng: dict(c, scale=s[0], rscale=s[1], rentry=s[2], extra=s[3], rng=rng)))
    big = {"width": st.integers(6, 14), "dimr": st.integers(1, 60), "B": st.integers(1, 40), "T": lengths(1, 60), "nin": st.integers(1, 300), "nout": st.integers(1, 70)}
    if wide:
        big = {"width": st.integers(8, 12), "dimr": st.integers(1, 8), "B": st.integers(1, 2), "T": st.integers(130, 900), "nin": st.integers(1, 3), "nout": st.integers(1, 3)}
    return st.fixed_dictionaries(dict(base(), nin=st.integers(1, 8), nout=st.integers(1, 5)) if not (large or wide) else dict(base(), **big)).flatmap(more)


def build_args(c):
    mode, w = c["mode"].lower(), c["width"]
    seq = M.sequence(c["rng"], w, c["dimr"])
    kw = grid_weights(c["wseed"], (c["nout"], c["nin"]), w, seq, c["T"])
    kb = grid_weights(c["wseed"] + 1, (c["nout"],), w, seq, c["T"]) if c["bias"] else None
    wt = t(M.prob_of(kw, w, mode).astype(np.float32))
    bt = t(M.prob_of(kb, w, mode).astype(np.float32)) if c["bias"] else None
    return mode, w, kw, kb, wt, bt


def linear(c):
    mode, w, kw, kb, wt, bt = build_args(c)
    full = c["nin"] + int(c["bias"])
    num = lambda v: full if v == "full" else v
    depth = 3
    while 2 ** (depth - 2) < full:
        depth += 1
    depth += c["extra"] - 1
    depth = max(3, depth)
    hw = {"width": w, "mode": c["mode"], "scale": num(c["scale"]), "depth": depth, "rng": c["rng"], "dimr": c["dimr"]}
    w0, b0 = wt.clone(), (bt.clone() if bt is not None else None)
    m = FSULinear(c["nin"], c["nout"], bias=c["bias"], weight_ext=wt, bias_ext=bt, hwcfg=hw, swcfg=SW)
    rs, re = num(c["rscale"]), c["rentry"]
    scale = rs if rs is not None else (num(c["scale"]) if c["scale"] is not None else full)
    entry = re if re is not None else full
    seq = M.sequence(c["rng"], w, c["dimr"])
    pc = M.LinearPC(mode, kw, kb, seq, c["rng"].lower() not in RATE)
    acc = M.Add(mode, scale, entry, depth, (c["B"], c["nout"]))
    bits = make_bits(c["x"], c["T"], [c["B"], c["nin"]])
    ones = 0
    sat = False
    for k in range(c["T"]):
        x = t(bits[k])
        y = m(x, rs, re)
        want = acc.step(pc.step(bits[k]))
        same(y, want, "%s layer %s of scale %s: output at cycle %d" % (mode, c["rng"], scale, k))
        dtype_is(y, "f32", "output")
        ones += int(want.sum())
        sat = sat or bool((np.abs(acc.acc) >= acc.lim).any())
    same(wt, npy(w0), "the external weight afterwards")
    if bt is not None:
        same(bt, npy(b0), "the external bias afterwards")
    lab = [mode, "scaled" if scale == full else "non-scaled", "temporal weight" if c["rng"].lower() not in RATE else "rate weight"]
    return {"nontrivial": 0 < ones < c["T"] * c["B"] * c["nout"] and c["T"] >= 4, "labels": lab + (["saturated"] if sat else []) + (["bias"] if c["bias"] else [])}


def pc_cases():
    return st.fixed_dictionaries(dict(base(), nin=st.integers(1, 8), nout=st.integers(1, 5), rng=rng_names(DET_RNG)))


def pc(c):
    mode, w, kw, kb, wt, bt = build_args(c)
    m = FSULinearPC(c["nin"], c["nout"], bias=c["bias"], weight_ext=wt, bias_ext=bt,
                    hwcfg={"width": w, "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]}, swcfg=SW)
    ref = M.LinearPC(mode, kw, kb, M.sequence(c["rng"], w, c["dimr"]), c["rng"].lower() not in RATE)
    bits = make_bits(c["x"], c["T"], [c["B"], c["nin"]])
    seen = set()
    for k in range(c["T"]):
        want = ref.step(bits[k])
        same(m(t(bits[k])), want, "%s parallel count (%s) at cycle %d" % (mode, c["rng"], k))
        seen.update(want.ravel().tolist())
    return {"nontrivial": len(seen) > 1, "labels": [mode]}


def value_cases():
    return st.fixed_dictionaries({"width": st.sampled_from([6, 7, 8]), "mode": mode_names(), "nin": st.integers(1, 16), "nout": st.integers(1, 6),
                                  "B": st.integers(1, 3), "bias": st.booleans(), "scaled": st.booleans(), "code": st.sampled_from(["rr", "tr", "rt"]),
                                  "seed": gseeds, "gseed": gseeds})


def value(c):
    """Encoded inputs through the layer: the decoded output is the float linear result, scaled or saturated."""
    from harness.accuracy import encode, grid
    mode, w = c["mode"].lower(), c["width"]
    n = 1 << w
    r = np.random.default_rng(c["seed"])
    lo = 0 if mode == "unipolar" else -1
    x = grid(r.random((c["B"], c["nin"])) * (1 - lo) + lo, w, mode)
    wt = grid(r.random((c["nout"], c["nin"])) * (1 - lo) + lo, w, mode)
    bs = grid(r.random(c["nout"]) * (1 - lo) + lo, w, mode) if c["bias"] else None
    full = c["nin"] + int(c["bias"])
    scale = None if c["scaled"] or c["code"] == "rt" else 1
    rng_i = "race" if c["code"] == "tr" else "sobol"
    rng_w = "race" if c["code"] == "rt" else "sobol"
    m = FSULinear(c["nin"], c["nout"], bias=c["bias"], weight_ext=t(wt.astype(np.float32)), bias_ext=t(bs.astype(np.float32)) if c["bias"] else None,
                  hwcfg={"width": w, "mode": c["mode"], "scale": scale, "depth": 16, "rng": rng_w, "dimr": 1}, swcfg=SW)
    g = encode(x, w, mode, 2, rng_i)
    tot = np.zeros((c["B"], c["nout"]))
    for i in range(n):
        tot += npy(m(g(torch.full(x.shape, i, dtype=torch.long))))
    p = tot / n
    got = p if mode == "unipolar" else 2 * p - 1
    exact = x @ wt.T + (bs if bs is not None else 0)
    s = full if scale is None else 1
    want = exact / s
    step = (1 if mode == "unipolar" else 2) / n
    # each product is off by a few counts, which the accumulator adds up
    if s == full:
        tol = step * (w / 2.0 + 4)
    else:
        tol = step * (full * (w / 2.0 + 2) + 3)
        if c["code"] == "tr" and mode == "bipolar":
            tol = None                # the sum of a temporal input swings to the ends before it settles
        want = np.clip(want, lo, 1)
        inside = np.abs(want) < 0.999
    if tol is not None:
        e = np.abs(got - want)
        if s != full:
            # a saturated sum can only be compared by its sign
            e = np.where(inside, e, np.where(np.sign(got) == np.sign(want), 0, 9))
            e = np.where(np.abs(exact) > 1 + tol, e, np.minimum(e, 9))
        if (e > tol).any():
            i = tuple(np.argwhere(e > tol)[0])
            fail("%s linear (%s, scale %s): value %s instead of %s" % (mode, c["code"], s, got[i], want[i]))
    return {"nontrivial": bool((np.abs(want) < 0.99).any()) and c["nin"] > 1 and tol is not None, "labels": [mode, c["code"], "scaled" if s == full else "scale 1"]}


PROP = Prop("C19",
            "layer and parallel_count: random sizes, batch, mode, weight and bias on the grid, generator, scale (configured and per call), depth (saturating too), "
            "streams longer than a period; real layer against an integer model at every cycle. value: encoded inputs over one period against the float "
            "product. Non-trivial: an output that is not constant; for value, two or more inputs and an unsaturated result.",
            [Check("layer", cases(), linear, 900), Check("large", cases(True), linear, 80), Check("wide", cases(wide=True), linear, 24), Check("parallel_count", pc_cases(), pc, 300), Check("value", value_cases(), value, 200)],
            ["Weights and biases are given and lie on the grid of the width; the batch size stays the same during a run; all types are float32, as the layer "
             "demands; temporal weights only where the layer accepts them."])
