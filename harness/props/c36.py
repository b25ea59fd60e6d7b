import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, LONG_KINDS, gseeds, rng_names, mode_names, DET_RNG, RATE, t, npy, DT
from harness.util import same, close, dtype_is
from harness.units import UNITS, dtypes, wide_dtypes, ST, RT
from harness.streamcheck import inputs
from harness.props import c37
from UnarySim.stream import RNG, BinGen, BSGen
from UnarySim.kernel import (FSUMul, FSULinear, FSUConv2d, FSUMGUCell, HUBMGUCell, TLUTLinear, TLUTConv2d, HardMGUCell, HUBHardsigmoid, HUBReLU, HUBHardtanh)
from UnarySim.metric import ProgError, Stability

NAMES = [n for n in sorted(UNITS) if n != "FSUHardtanh"]


def unit(case):
    """The same bits whatever types carry them."""
    u, c, shape = UNITS[case["name"]], case["c"], case["shape"]
    S = u.types(c, case["S"])
    ref = ["f32", "f32", "f32"]
    xs, _ = inputs(u, case)
    a, b = u.build(c, shape, ref), u.build(c, shape, S)
    varied = False
    for k in range(case["T"]):
        ya, yb = u.step(a, [t(x, "f32") for x in xs[k]]), u.step(b, [t(x, S[0]) for x in xs[k]])
        for p in range(u.nout):
            same(yb[p], npy(ya[p]), "%s output %d with types %s at cycle %d" % (case["name"], p, S, k))
            if not (case["name"] == "ShiftReg" and p == 1):
                dtype_is(yb[p], S[0], "%s output %d" % (case["name"], p))
            varied = varied or (k > 0 and bool((npy(ya[p]) != last).any())) if p == 0 else varied
        last = npy(ya[0])
    return {"nontrivial": varied and S != ref, "labels": [case["name"]]}


def unit_cases():
    return st.sampled_from(NAMES).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "c": UNITS[n].cfg(), "T": lengths(1, 100), "shape": shapes(2, 3), "x": streams(), "S": dtypes(), "gseed": gseeds}))


def deep_cases():
    """Long histories in deep counters: a narrow type for the bits must not become the type of a counter."""
    return st.sampled_from(NAMES).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "c": UNITS[n].deep(), "T": st.integers(300, 1000), "shape": shapes(1, 2), "x": streams(LONG_KINDS), "S": wide_dtypes(), "gseed": gseeds}))


def gen_cases():
    return st.fixed_dictionaries({"width": st.integers(1, 8), "mode": mode_names(), "rng": rng_names(DET_RNG), "dimr": st.integers(1, 4), "shape": shapes(2, 4),
                                  "st": st.sampled_from(ST), "rt": st.sampled_from(RT + ["f16"]), "bt": st.sampled_from(RT), "cyc": st.sampled_from(["i64", "i32", "f32", "i16"]),
                                  "gseed": gseeds})


def gen(c):
    r = np.random.default_rng(c["gseed"])
    n = 1 << c["width"]
    uni = c["mode"].lower() == "unipolar"
    v = r.integers(0, n + 1, c["shape"]) / n
    v = t(v if uni else 2 * v - 1)
    hw = {"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]}
    f = {"rtype": torch.float, "stype": torch.float}
    base = BSGen(BinGen(v, hw, f)(), RNG(hw, f)(), f)
    b, s = BinGen(v, hw, {"rtype": DT[c["bt"]]})(), RNG(hw, {"rtype": DT[c["rt"]]})()
    dtype_is(b, c["bt"], "binary value")
    dtype_is(s, c["rt"], "random sequence")
    g = BSGen(b, s, {"stype": DT[c["st"]]})
    nt = False
    for i in range(min(2 * n, 40)):
        want = npy(base(torch.full(c["shape"], i, dtype=torch.long)))
        y = g(torch.full(c["shape"], i).type(DT[c["cyc"]]))
        same(y, want, "bits of type %s from values of %s and numbers of %s at cycle %d" % (c["st"], c["bt"], c["rt"], i))
        dtype_is(y, c["st"], "bits")
        nt = nt or bool(want.any())
    return {"nontrivial": nt, "labels": []}


TAKES = ["Bi2Uni", "Uni2Bi", "FSUAdd", "FSUMulStatic", "FSUMulInStream", "CORDIV", "FSUSqrt", "FSUSignAbs", "FSUReLU", "FSUHardsigmoid", "JKFF"]
OTHERS = ["linear", "conv", "mgu", "scc", "auto", "pe", "stab"]


def bits(x, dt):
    return t(x).bool() if dt == "bool" else t(x, dt)


def incoming(case):
    """Bits that come in another type than the one configured are taken for what they are."""
    if "kind" in case:
        a, b = c37.build(case), c37.build(case)
        xs, nout = c37.stream_of(case), 1
        step = lambda r, v: b_out(r, v)
        want_type = "f32"
    else:
        u, S = UNITS[case["name"]], case["S"]
        a, b = u.build(case["c"], case["shape"], S), u.build(case["c"], case["shape"], S)
        xs, nout = inputs(u, case)[0], u.nout
        step = u.step
        want_type = S[0]
    varied = False
    for k in range(case["T"]):
        kinds = ["f64" if d != "f32" else d for d in case["D"]] if case.get("kind") == "conv" else case["D"]      # it refuses others
        D = [kinds[(k * case["mixed"] + i) % len(kinds)] for i in range(len(xs[k]))]
        ya, yb = step(a, [t(x, want_type) for x in xs[k]]), step(b, [bits(x, d) for x, d in zip(xs[k], D)])
        what = case.get("name") or case["kind"]
        for p in range(nout):
            same(yb[p], npy(ya[p]), "%s output %d for bits of types %s at cycle %d" % (what, p, D, k))
            dtype_is(yb[p], want_type, "%s output %d for bits of types %s" % (what, p, D))
        varied = varied or (k > 0 and bool((npy(ya[0]) != last).any()))
        last = npy(ya[0])
    return {"nontrivial": varied and any(d != want_type for d in case["D"]), "labels": [case.get("name") or case["kind"]]}


def b_out(rig, xs):
    if isinstance(rig, c37.MetricRig):
        rig.m.Monitor(*xs)
        y = rig.m()
        return y if isinstance(y, tuple) else (y,)
    return (rig.m(*xs),)


def incoming_cases():
    more = {"T": lengths(2, 80), "x": streams(), "D": st.lists(st.sampled_from(["f32", "i8", "bool", "i64", "f64", "f16", "i16"]), min_size=1, max_size=3), "mixed": st.booleans(), "gseed": gseeds}
    u = st.sampled_from(TAKES).flatmap(lambda n: st.fixed_dictionaries(dict(more, name=st.just(n), c=UNITS[n].cfg(), shape=shapes(2, 3), S=dtypes())))
    l = st.sampled_from(OTHERS).flatmap(lambda k: st.fixed_dictionaries(dict(more, kind=st.just(k), width=st.integers(2, 5), mode=mode_names(), bias=st.booleans(),
                                                                           scale=st.sampled_from([None, 1]), rng=rng_names(RATE), wseed=gseeds)))
    return st.one_of(u, u, l)


HELD = ["mul", "linear", "conv", "mgu", "hubmgu", "pe", "stab", "bsgen"]
FLOAT = ["tlut", "tlutconv", "hard", "soft", "sigmoid", "relu", "tanh"]
SW = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}


def operands(c):
    """Constants, weights, biases, sources and data that come in another type, which holds them exactly, give the same results."""
    r = np.random.default_rng(c["gseed"])
    w, k, uni = c["width"], c["kind"], c["mode"].lower() == "unipolar"
    n = 1 << w
    B, I, H = c["sizes"]
    if k in ("mgu", "hubmgu") or k in FLOAT:
        uni = False
    hw = {"width": w, "mode": "unipolar" if uni else c["mode"] if k not in ("mgu", "hubmgu") else "bipolar", "scale": None, "depth": 10, "depth_ismul": 3,
          "rng": c["rng"], "dimr": 1, "static": True, "threshold": 0.1234567}

    def val(*shape):
        v = r.integers(0, n + 1, shape) / n
        return v if uni else 2 * v - 1

    T = c["T"]
    if k in ("mul", "pe", "stab", "bsgen"):
        ops, xs = [val(B, I)], r.integers(0, 2, (T, B, I))
    elif k in ("linear", "tlut"):
        ops, xs = [val(H, I), val(H)], r.integers(0, 2, (T, B, I))
    elif k in ("conv", "tlutconv"):
        ops, xs = [val(H, I, 2, 1), val(H)], r.integers(0, 2, (T, B, I, 3, 2))
    else:
        ops, xs = [val(H, H + I), val(H), val(H, H + I), val(H), val(B, H)], r.integers(0, 2, (T, B, H + I))
    xv = val(*xs.shape[1:])
    D = [c["D"][i % len(c["D"])] for i in range(5)] if k in HELD else ["f64"] * 5

    def run(kinds):
        o = [t(v, d) for v, d in zip(ops, kinds)]
        bits = [t(x) for x in xs]
        if k == "mul":
            m = FSUMul(o[0], hw, SW)
        elif k == "linear":
            m = FSULinear(I, H, True, o[0], o[1], hw, SW)
        elif k == "conv":
            m = FSUConv2d(I, H, (2, 1), weight_ext=o[0], bias_ext=o[1], hwcfg=hw, swcfg=SW)
        elif k == "bsgen":
            g = BSGen(BinGen(o[0], hw, SW)(), RNG(hw, SW)(), SW)
            return [npy(g(torch.full((B, I), i))) for i in range(T)]
        elif k in ("pe", "stab"):
            m = (ProgError if k == "pe" else Stability)(o[0], dict(hw, scale=1))
            y = []
            for b in bits:
                m.Monitor(b)
                y.append(npy(m()[1] if k == "pe" else m()).astype(np.float64))
            return y
        elif k == "mgu":
            m = FSUMGUCell(I, H, True, *o[:4], hx_buffer=o[4], hwcfg=hw, swcfg=SW)
            return [npy(m(b[:, H:], b[:, :H])) for b in bits]
        elif k == "hubmgu":
            return [npy(HUBMGUCell(I, H, True, *o[:4], hwcfg=hw)(t(xv[:, H:], kinds[0]), o[4]))]
        elif k in ("tlut", "tlutconv"):
            tw = {"temporal": "wi"[c["gseed"] % 2], "widtht": 2, "formati": "fxp", "widthi": w + 1, "quantilei": 1, "formatw": "fxp", "widthw": w + 1, "quantilew": 1,
                  "cycle": None, "rounding": "round", "signmag": True}
            m = TLUTLinear(I, H, True, *o, tw) if k == "tlut" else TLUTConv2d(I, H, (2, 1), weight_ext=o[0], bias_ext=o[1], hwcfg=tw)
            return [npy(m(t(xv, kinds[0]))).astype(np.float64)]
        elif k in ("hard", "soft"):
            m = HardMGUCell(I, H, True, k == "hard")
            for p, v in zip((m.weight_f, m.bias_f, m.weight_n, m.bias_n), o):
                p.data = v
            return [npy(m(t(xv[:, H:], kinds[0]), o[4] if c["T"] % 2 else None)).astype(np.float64)]
        else:
            return [npy({"sigmoid": HUBHardsigmoid, "relu": HUBReLU, "tanh": HUBHardtanh}[k]()(t(3 * xv, kinds[0])))]
        return [npy(m(b)) for b in bits]

    a, b = run(["f32"] * 5), run(D)
    for i, (y, z) in enumerate(zip(a, b)):
        # of decimal fractions, doubles keep more
        if k in HELD and k not in ("pe", "stab"):
            same(torch.from_numpy(z.copy()), y, "%s with operands of types %s, output %d" % (k, D, i))
        else:
            close(torch.from_numpy(z.copy()), y, 2e-6, "%s with operands of types %s, output %d" % (k, D, i))
    return {"nontrivial": any(d != "f32" for d in D) and np.ptp(np.concatenate([np.ravel(y) for y in a])) > 0, "labels": [k]}


def operand_cases():
    return st.fixed_dictionaries({"kind": st.sampled_from(HELD + HELD + FLOAT), "width": st.integers(1, 6), "mode": mode_names(), "rng": rng_names(RATE), "T": lengths(2, 40),
                                  "sizes": st.tuples(*[st.integers(1, 4)] * 3), "D": st.lists(st.sampled_from(["f64", "f16", "bf16", "f32"]), min_size=1, max_size=3), "gseed": gseeds})


PROP = Prop("C36",
            "The same streams through a unit whose bits, counters and random numbers are float32 and one whose types are random; outputs equal, in the type asked for; "
            "the same for generators. incoming: bits that arrive in another type than the one configured (integers, booleans, other floats; changing during the run) give the same output in the type "
            "configured, for units, layers, cell and monitors. operands: constants, weights, biases, hidden states, sources and data that come in other types. Non-trivial: an output that changes and types that differ.",
            [Check("unit", unit_cases(), unit, 900), Check("generator", gen_cases(), gen, 400), Check("deep", deep_cases(), unit, 160),
             Check("incoming", incoming_cases(), incoming, 900), Check("operands", operand_cases(), operands, 900)],
            ["Types can hold the counts of the configuration exactly (widths up to 8 with 16-bit floats for random numbers)."])
