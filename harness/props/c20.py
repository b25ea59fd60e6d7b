import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import rng_names, DET_RNG, RATE, mode_names, lengths, streams, gseeds, make_bits, t, npy
from harness.util import same, dtype_is, close
from harness import models as M
from harness.props.c19 import grid_weights, SW
from UnarySim.kernel import FSUConv2d
from UnarySim.kernel.conv import FSUConv2dPC


def pairs(lo, hi):
    return st.one_of(st.integers(lo, hi), st.tuples(st.integers(lo, hi), st.integers(lo, hi)).map(list))


def geometry(large=False):
    """Kernel, stride, padding, dilation and an image at least as large as the dilated kernel."""
    def img(g):
        kh, kw = M.pair(g["kernel"]); dh, dw = M.pair(g["dilation"]); ph, pw = M.pair(g["padding"])
        mh, mw = max(1, dh * (kh - 1) + 1 - 2 * ph), max(1, dw * (kw - 1) + 1 - 2 * pw)
        return st.tuples(st.integers(mh, mh + more), st.integers(mw, mw + more)).map(lambda s: dict(g, size=list(s)))
    more = 9 if large else 3
    if large:
        return st.fixed_dictionaries({"kernel": pairs(1, 6), "stride": pairs(1, 5), "padding": pairs(0, 5), "dilation": pairs(1, 4)}).flatmap(img)
    return st.fixed_dictionaries({"kernel": pairs(1, 3), "stride": pairs(1, 3), "padding": pairs(0, 2), "dilation": pairs(1, 2)}).flatmap(img)


def arg(v):
    return tuple(v) if isinstance(v, list) else v


def cases(large=False, wide=False):
    def more(c):
        kh, kw = M.pair(c["g"]["kernel"])
        full = kh * kw * c["cin"] + int(c["bias"])
        uni = c["mode"].lower() == "unipolar"
        return st.sampled_from([None, "full", 1, 1, 3]).flatmap(lambda s: rng_names(
            DET_RNG if (uni or s in (None, "full") or s == full) else RATE).flatmap(lambda rng: st.tuples(
                st.sampled_from([None, None, None, 1, 2]), st.sampled_from([None, None, 2]), st.integers(0, 4)).map(
                lambda e: dict(c, scale=s, rng=rng, rscale=e[0], rentry=e[1], extra=e[2]))))
    return st.fixed_dictionaries({
        "g": geometry(large), "cin": st.integers(1, 6 if large else 3), "cout": st.integers(1, 8 if large else 3), "B": st.integers(1, 6) if large else st.sampled_from([1, 2, 2, 5]),
        "width": st.integers(8, 12) if wide else st.integers(6, 14) if large else st.integers(1, 5), "mode": mode_names(), "dimr": st.integers(1, 60 if large else 3), "bias": st.booleans(),
        "wseed": gseeds, "x": streams(), "T": st.integers(130, 900) if wide else lengths(1, 40 if large else 70), "gseed": gseeds}).flatmap(more)


class Ref:
    def __init__(self, c):
        g = c["g"]
        self.g, self.mode, self.B, self.cout = g, c["mode"].lower(), c["B"], c["cout"]
        self.kern, self.dil, self.stride, self.p = [M.pair(g[k]) for k in ("kernel", "dilation", "stride", "padding")]
        kh, kw = self.kern
        seq = M.sequence(c["rng"], c["width"], c["dimr"])
        self.kw = grid_weights(c["wseed"], (c["cout"], c["cin"], kh, kw), c["width"], seq, c["T"])
        self.kb = grid_weights(c["wseed"] + 1, (c["cout"],), c["width"], seq, c["T"]) if c["bias"] else None
        self.pc = M.LinearPC(self.mode, self.kw.reshape(c["cout"], -1), self.kb, M.sequence(c["rng"], c["width"], c["dimr"]), c["rng"].lower() not in RATE)
        self.full = kh * kw * c["cin"] + int(c["bias"])
        self.k = 0

    def tensors(self, c):
        w = t(M.prob_of(self.kw, c["width"], self.mode).astype(np.float32))
        b = t(M.prob_of(self.kb, c["width"], self.mode).astype(np.float32)) if self.kb is not None else None
        return w, b

    def step(self, x):
        # bipolar zeros are padded as an alternating stream
        val = 1 if (self.mode == "bipolar" and self.k % 2 == 1) else 0
        self.k += 1
        u, (oh, ow) = M.unfold(M.pad(x.astype(np.int64), self.p, val), self.kern, self.dil, self.stride)
        n = u.shape[0] * u.shape[1]
        r = self.pc.step(u.reshape(n, -1))
        return r.reshape(self.B, oh * ow, self.cout).transpose(0, 2, 1).reshape(self.B, self.cout, oh, ow)


def conv(c):
    g = c["g"]
    ref = Ref(c)
    full = ref.full
    num = lambda v: full if v == "full" else v
    depth = 3
    while 2 ** (depth - 2) < full:
        depth += 1
    depth = max(3, depth - 1 + c["extra"])
    wt, bt = ref.tensors(c)
    m = FSUConv2d(c["cin"], c["cout"], arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), bias=c["bias"],
                  weight_ext=wt, bias_ext=bt, swcfg=SW,
                  hwcfg={"width": c["width"], "mode": c["mode"], "scale": num(c["scale"]), "depth": depth, "rng": c["rng"], "dimr": c["dimr"]})
    scale = c["rscale"] if c["rscale"] is not None else (num(c["scale"]) if c["scale"] is not None else full)
    entry = c["rentry"] if c["rentry"] is not None else full
    bits = make_bits(c["x"], c["T"], [c["B"], c["cin"]] + g["size"])
    acc, ones, tot = None, 0, 0
    for k in range(c["T"]):
        x = t(bits[k])
        y = m(x, c["rscale"], c["rentry"])
        p = ref.step(bits[k])
        acc = acc or M.Add(ref.mode, scale, entry, depth, p.shape)
        want = acc.step(p)
        same(y, want, "%s convolution (%s, scale %s): output at cycle %d" % (ref.mode, c["rng"], scale, k))
        dtype_is(y, "f32", "output")
        same(x, bits[k], "the input afterwards")
        ones += int(want.sum()); tot += want.size
    return {"nontrivial": 0 < ones < tot and c["T"] >= 4, "labels": [ref.mode, "padded" if max(ref.p) else "no padding", "non-square" if any(
        isinstance(g[k], list) and g[k][0] != g[k][1] for k in ("kernel", "stride", "padding", "dilation")) else "square"]}


def pc(c):
    g = c["g"]
    ref = Ref(c)
    wt, bt = ref.tensors(c)
    m = FSUConv2dPC(c["cin"], c["cout"], arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), bias=c["bias"],
                    weight_ext=wt, bias_ext=bt, swcfg=SW, hwcfg={"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]})
    bits = make_bits(c["x"], c["T"], [c["B"], c["cin"]] + g["size"])
    seen = set()
    for k in range(c["T"]):
        want = ref.step(bits[k])
        same(m(t(bits[k])), want, "%s parallel count (%s) at cycle %d" % (ref.mode, c["rng"], k))
        seen.update(want.ravel().tolist())
    return {"nontrivial": len(seen) > 1, "labels": [ref.mode]}


def pc_cases():
    return st.fixed_dictionaries({
        "g": geometry(), "cin": st.integers(1, 3), "cout": st.integers(1, 3), "B": st.integers(1, 2), "width": st.integers(1, 5), "mode": mode_names(),
        "dimr": st.integers(1, 3), "bias": st.booleans(), "wseed": gseeds, "x": streams(), "T": lengths(1, 40), "rng": rng_names(DET_RNG), "gseed": gseeds})


def value_cases():
    return st.fixed_dictionaries({"g": geometry(), "cin": st.integers(1, 2), "cout": st.integers(1, 3), "B": st.integers(1, 2), "width": st.sampled_from([6, 7]),
                                  "mode": mode_names(), "bias": st.booleans(), "seed": gseeds, "gseed": gseeds})


def value(c):
    """Encoded images through the layer: the decoded output is the float convolution over the number of addends."""
    from harness.accuracy import encode, grid
    g = c["g"]
    mode, w = c["mode"].lower(), c["width"]
    n = 1 << w
    r = np.random.default_rng(c["seed"])
    lo = 0 if mode == "unipolar" else -1
    draw = lambda s: grid(r.random(s) * (1 - lo) + lo, w, mode).astype(np.float32)
    kh, kw = M.pair(g["kernel"])
    x, wt = draw([c["B"], c["cin"]] + g["size"]), draw((c["cout"], c["cin"], kh, kw))
    bs = draw(c["cout"]) if c["bias"] else None
    m = FSUConv2d(c["cin"], c["cout"], arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), bias=c["bias"],
                  weight_ext=t(wt), bias_ext=t(bs) if c["bias"] else None, swcfg=SW,
                  hwcfg={"width": w, "mode": c["mode"], "scale": None, "depth": 14, "rng": "sobol", "dimr": 1})
    e = encode(x, w, mode, 2)
    tot = 0
    for i in range(n):
        tot = tot + npy(m(e(torch.full(x.shape, i, dtype=torch.long))))
    p = tot / n
    got = p if mode == "unipolar" else 2 * p - 1
    ref = torch.nn.functional.conv2d(t(x, "f64"), t(wt, "f64"), t(bs, "f64") if c["bias"] else None, stride=arg(g["stride"]), padding=arg(g["padding"]),
                                     dilation=arg(g["dilation"])).numpy() / (kh * kw * c["cin"] + int(c["bias"]))
    close(got, ref, (1 if mode == "unipolar" else 2) / n * (w / 2.0 + 4), "%s convolution value" % mode)
    return {"nontrivial": bool(np.ptp(ref) > 0.01), "labels": [mode]}


PROP = Prop("C20",
            "layer and parallel_count: random kernel, stride, padding, dilation (equal or per axis), image, channels, batch, mode, weights on the grid, generator, "
            "scale, depth; real layer against an integer model with an alternating zero padding, at every cycle. value: encoded images over one period "
            "against the float convolution. Non-trivial: an output that is not constant.",
            [Check("layer", cases(), conv, 640), Check("large", cases(True), conv, 64), Check("wide", cases(wide=True), conv, 24), Check("parallel_count", pc_cases(), pc, 240), Check("value", value_cases(), value, 160)],
            ["As for the linear layer; image and batch size stay the same during a run."])
