import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import rng_names, RATE, lengths, streams, gseeds, make_bits, t, npy
from harness.util import same, close, dtype_is
from harness import models as M
from harness.props.c19 import grid_weights, SW
from UnarySim.kernel import FSUMGUCell, HUBMGUCell


class Cell:
    """The gate network, bit by bit, with the constant hidden state k/2**width in one multiplier."""
    def __init__(self, c, kw, kb, khx, B):
        w, H = c["width"], c["H"]
        seq = M.sequence(c["rng"], w, c["dimr"])
        full = H + c["I"] + int(c["bias"])
        shape = (B, H)
        self.f, self.n = M.LinearPC("bipolar", kw[0], kb[0], seq, False), M.LinearPC("bipolar", kw[1], kb[1], seq, False)
        self.fa, self.na = M.Add("bipolar", 1, full, c["depth"], shape), M.Add("bipolar", 1, full, c["depth"], shape)
        self.sg = M.Add("bipolar", 2, 2, c["depth"], shape)
        self.hm = M.MulStatic("bipolar", khx, seq, shape)
        self.nm = M.MulInStream("bipolar", c["dmul"], M.sequence(c["rng"], c["dmul"], c["dimr"]), shape)
        self.hy = M.Add("bipolar", 1, 3, c["depth"], shape)

    def step(self, x, h):
        fin = self.fa.step(self.f.step(np.concatenate([h, x], 1)))
        fg = self.sg.step(fin + 1)
        fh = self.hm.step(fg)
        ng = self.na.step(self.n.step(np.concatenate([fh, x], 1)))
        fn = self.nm.step(fg, ng)
        return self.hy.step(ng + (1 - fn) + fh)


def ints(c):
    H, I, w = c["H"], c["I"], c["width"]
    kw = [grid_weights(c["seed"] + i, (H, H + I), w) for i in range(2)]
    kb = [grid_weights(c["seed"] + 2 + i, (H,), w) if c["bias"] else None for i in range(2)]
    return kw, kb


def val(k, c):
    return None if k is None else t(M.prob_of(k, c["width"], "bipolar").astype(np.float32))


def hw(c):
    return {"width": c["width"], "mode": "Bipolar" if c["caps"] else "bipolar", "depth": c["depth"], "depth_ismul": c["dmul"], "rng": c["rng"], "dimr": c["dimr"]}


def fsu(c):
    kw, kb = ints(c)
    B, H, I = c["B"], c["H"], c["I"]
    khx = grid_weights(c["seed"] + 4, (B, H), c["width"])
    m = FSUMGUCell(I, H, bias=c["bias"], weight_ext_f=val(kw[0], c), bias_ext_f=val(kb[0], c), weight_ext_n=val(kw[1], c), bias_ext_n=val(kb[1], c),
                   hx_buffer=val(khx, c), hwcfg=hw(c), swcfg=SW)
    ref = Cell(c, kw, kb, khx, B)
    xs, hs = make_bits(c["x"], c["T"], [B, I]), make_bits(c["h"], c["T"], [B, H])
    ones = 0
    for i in range(c["T"]):
        x, h = t(xs[i]), t(hs[i])
        y = m(x, h)
        want = ref.step(xs[i].astype(np.int64), hs[i].astype(np.int64))
        same(y, want, "hidden bit at cycle %d" % i)
        dtype_is(y, "f32", "hidden bit")
        same(x, xs[i], "the input afterwards")
        same(h, hs[i], "the hidden input afterwards")
        ones += int(want.sum())
    return {"nontrivial": 0 < ones < c["T"] * B * H and c["T"] >= 4, "labels": ["bias" if c["bias"] else "no bias"]}


def hub(c):
    kw, kb = ints(c)
    B, H, I, w = c["B"], c["H"], c["I"], c["width"]
    n = 1 << w
    W = [val(k, c) for k in kw]
    Bs = [val(k, c) for k in kb]
    m = HUBMGUCell(I, H, bias=c["bias"], weight_ext_f=W[0], bias_ext_f=Bs[0], weight_ext_n=W[1], bias_ext_n=Bs[1], hwcfg=hw(c))
    seq = M.sequence(c["rng"], w, c["dimr"])
    r = np.random.default_rng(c["seed"] + 9)
    kh = np.full((B, H), n // 2) if c["h0"] is None else grid_weights(c["seed"] + 4, (B, H), w)
    hx = None if c["h0"] is None else val(kh, c)
    nt = False
    for s in range(c["steps"]):
        ki = grid_weights(c["seed"] + 20 + s, (B, I), w)
        # off the grid, but still closest to ki
        x = t(np.clip((ki + r.uniform(-0.4, 0.4, ki.shape)) / n * 2 - 1, -1, 1).astype(np.float32))
        x0 = npy(x).copy()
        hy = m(x, hx)
        same(x, x0, "the input afterwards")
        ref = Cell(c, kw, kb, kh, B)
        tot = np.zeros((B, H), dtype=np.int64)
        for k in range(n):
            tot += ref.step((ki > seq[k]).astype(np.int64), (kh > seq[k]).astype(np.int64))
        same(hy, 2 * tot / n - 1, "hidden state after step %d" % s)
        nt = nt or bool(np.ptp(tot) > 0)
        hx, kh = hy, tot
    for a, k in zip(W + Bs, kw + kb):
        if a is not None:
            same(a, npy(val(k, c)), "the weights afterwards")
    return {"nontrivial": nt, "labels": ["no hidden state" if c["h0"] is None else "hidden state"]}


def cases(hubby=False, large=False):
    if large:
        return st.tuples(cases(hubby), st.fixed_dictionaries({
            "I": st.integers(1, 24), "H": st.integers(1, 16), "B": st.integers(1, 9), "width": st.integers(5, 6 if hubby else 9), "dmul": st.integers(4, 7),
            "depth": st.integers(6, 14)})).map(lambda p: dict(p[0], **p[1]))
    d = {"I": st.integers(1, 4), "H": st.integers(1, 4), "B": st.integers(1, 3), "bias": st.booleans(), "width": st.integers(1, 5) if hubby else st.integers(1, 6),
         "depth": st.integers(4, 10), "dmul": st.integers(1, 5), "rng": rng_names(RATE), "dimr": st.integers(1, 3), "caps": st.booleans(),
         "seed": st.integers(0, 2 ** 31 - 100), "gseed": gseeds}
    if hubby:
        d.update(h0=st.sampled_from([None, 1, 1]), steps=st.integers(1, 3))
    else:
        d.update(x=streams(), h=streams(), T=lengths(1, 120))
    return st.fixed_dictionaries(d)


PROP = Prop("C28",
            "fsu: random sizes, weights, biases, hidden constant, streams; the cell against the composition of the models of its units, bit by bit. hub: the binary "
            "cell over one to three recurrent steps against the same network run for a whole period, exactly. Non-trivial: hidden bits or states that vary.",
            [Check("fsu", cases(), fsu, 600), Check("fsu_large", cases(False, True), fsu, 64),
             Check("hub", cases(True), hub, 300), Check("hub_large", cases(True, True), hub, 48),
             Check("hub_wide", cases(True).flatmap(lambda c: st.integers(7, 10).map(lambda w: dict(c, width=w, B=1, steps=1, depth=12))), hub, 12)],
            ["Weights, biases and hidden values lie on the grid of the width; inputs are closest to a grid point. Rate-coded deterministic generators, the only ones "
             "the layers inside accept besides pseudo-random ones."])
