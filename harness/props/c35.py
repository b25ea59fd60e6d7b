import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, gseeds, mode_names, make_bits, rng_names, RATE, DET_RNG, values, t, npy
from harness.util import same
from harness.units import UNITS, UAdd, dtypes
from harness.streamcheck import inputs
from harness import models as M
from harness.props.c19 import grid_weights, SW
from harness.props.c20 import arg, geometry
from UnarySim.stream import RNG, BSGen
from UnarySim.kernel import FSULinear, FSUConv2d
from UnarySim.metric import Correlation, ProgError, Stability

NAMES = sorted(UNITS)


def lanes_of(xs, shape, case, pick, u):
    """The inputs of some of the lanes, as a flat tensor of lanes."""
    n = int(np.prod(shape))
    out = []
    for step in xs:
        row = []
        for x in step:
            if isinstance(u, UAdd):
                ax = case["c"]["dima"] % (len(shape) + 1)
                f = np.moveaxis(x, ax, 0).reshape(x.shape[ax], n)[:, pick]
            else:
                f = x.reshape(n)[pick]
            row.append(f)
        out.append(row)
    return out


def unit(case):
    name, u = case["name"], UNITS[case["name"]]
    c, shape, S = case["c"], case["shape"], case["S"]
    n = int(np.prod(shape))
    xs, _ = inputs(u, case)
    r = np.random.default_rng(case["gseed"])
    pick = np.sort(r.choice(n, r.integers(1, n + 1), replace=False)) if case["how"] == "subset" else r.permutation(n)
    if name == "FSUMulStatic":
        c = dict(c, one=True)              # the same constant for all lanes
    big = u.build(c, shape, S)
    if isinstance(u, UAdd):
        c2 = dict(c, dima=0)
    else:
        c2 = c
    small = u.build(c2, [len(pick)], S)
    sub = lanes_of(xs, shape, case, pick, u)
    varied = False
    for k in range(case["T"]):
        a = u.step(big, [t(x, S[0]) for x in xs[k]])
        b = u.step(small, [t(x, S[0]) for x in sub[k]])
        for p in range(u.nout):
            av = npy(a[p]).reshape(n)[pick]
            same(b[p], av, "%s output %d, lanes alone, at cycle %d" % (name, p, k))
            varied = varied or av.min() != av.max()
    return {"nontrivial": varied and n > 1 and case["T"] >= 4, "labels": [name, case["how"]]}


def unit_cases():
    return st.sampled_from(NAMES).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "c": UNITS[n].cfg(), "T": lengths(1, 80), "shape": shapes(3, 4), "x": streams(), "S": dtypes(),
        "how": st.sampled_from(["subset", "permutation"]), "gseed": gseeds}))


def layer_cases():
    lin = st.fixed_dictionaries({"nin": st.integers(1, 5), "nout": st.integers(1, 4), "g": st.none()})
    conv = st.fixed_dictionaries({"nin": st.integers(1, 2), "nout": st.integers(1, 3), "g": geometry()})
    def more(c):
        return st.sampled_from([None, 1]).flatmap(lambda s: rng_names(DET_RNG if c["mode"].lower() == "unipolar" or s is None else RATE).map(
            lambda r: dict(c, scale=s, rng=r)))
    return st.one_of(lin, conv).flatmap(lambda d: st.fixed_dictionaries({
        "mode": mode_names(), "width": st.integers(2, 5), "B": st.integers(2, 4), "bias": st.booleans(), "wseed": gseeds, "x": streams(),
        "T": lengths(1, 50), "gseed": gseeds}).map(lambda e: dict(d, **e))).flatmap(more)


def layer(c):
    mode = c["mode"].lower()
    hw = {"width": c["width"], "mode": c["mode"], "scale": c["scale"], "depth": 10, "rng": c["rng"], "dimr": 1}
    bt = lambda: t(M.prob_of(grid_weights(c["wseed"] + 1, (c["nout"],), c["width"]), c["width"], mode)) if c["bias"] else None
    if c["g"] is None:
        shape = [c["nin"]]
        w = grid_weights(c["wseed"], (c["nout"], c["nin"]), c["width"])
        make = lambda: FSULinear(c["nin"], c["nout"], bias=c["bias"], weight_ext=t(M.prob_of(w, c["width"], mode)), bias_ext=bt(), hwcfg=dict(hw), swcfg=SW)
    else:
        g = c["g"]
        shape = [c["nin"]] + g["size"]
        w = grid_weights(c["wseed"], (c["nout"], c["nin"]) + M.pair(g["kernel"]), c["width"])
        make = lambda: FSUConv2d(c["nin"], c["nout"], arg(g["kernel"]), stride=arg(g["stride"]), padding=arg(g["padding"]), dilation=arg(g["dilation"]), bias=c["bias"],
                                 weight_ext=t(M.prob_of(w, c["width"], mode)), bias_ext=bt(), hwcfg=dict(hw), swcfg=SW)
    r = np.random.default_rng(c["gseed"])
    pick = r.choice(c["B"], r.integers(1, c["B"] + 1), replace=False)
    big, small = make(), make()
    bits = make_bits(c["x"], c["T"], [c["B"]] + shape)
    seen = set()
    for k in range(c["T"]):
        y = npy(big(t(bits[k])))
        same(small(t(bits[k][pick])), y[pick], "%s layer, some rows of the batch alone, at cycle %d" % (mode, k))
        seen.update(y.ravel().tolist())
    return {"nontrivial": len(seen) == 2, "labels": ["linear" if c["g"] is None else "conv", mode]}


def metric_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(["scc", "auto", "pe", "stab"]), "shape": shapes(3, 4), "T": lengths(1, 80), "x": streams(), "mode": mode_names(),
                                  "scale": st.sampled_from([1, 2]), "gseed": gseeds})


def metric(c):
    n = int(np.prod(c["shape"]))
    r = np.random.default_rng(c["gseed"])
    pick = r.choice(n, r.integers(1, n + 1), replace=False)
    src = values(c["gseed"], c["shape"], 0 if c["mode"].lower() == "unipolar" else -1, 1).astype(np.float32)
    hw = {"scale": c["scale"], "mode": c["mode"], "threshold": 0.1}
    mk = {"scc": lambda s: Correlation(), "auto": lambda s: Correlation(), "pe": lambda s: ProgError(t(s), hw), "stab": lambda s: Stability(t(s), hw)}[c["what"]]
    big, small = mk(src), mk(src.reshape(n)[pick])
    x, y = make_bits(c["x"], c["T"], c["shape"]), make_bits(dict(c["x"], seed=c["x"]["seed"] + 1), c["T"], c["shape"])
    for k in range(c["T"]):
        a = [t(x[k])] + ([t(y[k])] if c["what"] == "scc" else [])
        b = [t(x[k].reshape(n)[pick])] + ([t(y[k].reshape(n)[pick])] if c["what"] == "scc" else [])
        big.Monitor(*a)
        small.Monitor(*b)
    u, v = big(), small()
    u, v = (u, v) if c["what"] == "pe" else ((u,), (v,))
    for p, q in zip(u, v):
        same(q, npy(p).reshape(n)[pick], "%s of some of the streams alone" % c["what"])
    return {"nontrivial": n > 1 and bool(np.ptp(npy(u[-1])) > 0), "labels": [c["what"]]}


def gen_cases():
    return st.fixed_dictionaries({"width": st.integers(1, 7), "rng": rng_names(DET_RNG), "dimr": st.integers(1, 4), "shape": shapes(3, 4), "T": st.integers(1, 20), "gseed": gseeds})


def gen(c):
    """Every element of a tensor is converted by its own value and its own cycle."""
    n, L = int(np.prod(c["shape"])), 1 << c["width"]
    r = np.random.default_rng(c["gseed"])
    k = r.integers(0, L + 1, c["shape"])
    hw, sw = {"width": c["width"], "rng": c["rng"], "dimr": c["dimr"]}, {"rtype": torch.float, "stype": torch.float}
    g = BSGen(t(k), RNG(hw, sw)(), sw)
    one = [BSGen(t(k.reshape(n)[i:i + 1]), RNG(hw, sw)(), sw) for i in range(n)]
    nt = False
    for _ in range(c["T"]):
        cyc = r.integers(0, 3 * L, c["shape"])
        y = npy(g(t(cyc, "i64"))).reshape(n)
        for i in range(n):
            same(one[i](t(cyc.reshape(n)[i:i + 1], "i64")), y[i:i + 1], "bit of one value alone, %s" % c["rng"])
        nt = nt or y.min() != y.max()
    return {"nontrivial": nt, "labels": []}


PROP = Prop("C35",
            "A tensor of streams against a subset or permutation of its elements run alone through a unit of the same configuration: all streaming units (types random), "
            "FSU layers by batch row, metrics, generators with a cycle per element. Non-trivial: several elements with outputs that differ.",
            [Check("unit", unit_cases(), unit, 900), Check("layer", layer_cases(), layer, 250), Check("metric", metric_cases(), metric, 400), Check("generator", gen_cases(), gen, 250)],
            ["Deterministic generators, so that two units draw the same numbers."])
