"""The configuration a component records is the one it runs, and suffices to build it again."""
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, mode_names, rng_names, RATE, TEMP_UP, TEMP_DN, t, npy
from UnarySim.stream import RNG, RawScale, BinGen, BSGen, SkewedSync, Bi2Uni, Uni2Bi
from UnarySim.kernel import (FSUAdd, FSUMul, FSUDiv, FSUSqrt, FSUSignAbs, FSUReLU, FSUHardsigmoid, JKFF, ShiftReg, CORDIV_kernel, FSULinear, FSUConv2d, HUBLinear, HUBConv2d,
                             FXPLinear, FXPConv2d, TLUTLinear, TLUTConv2d, FSUMGUCell, HUBMGUCell)
from UnarySim.metric import ProgError, Stability

FT = [torch.float, torch.double]
F = {k: torch.float for k in ("stype", "btype", "rtype")}
case_of = st.sampled_from(["lower", "as is", "upper"])
ROUND = st.sampled_from(["round", "Floor", "CEIL"])
Q = st.sampled_from([1, 0.95, 0.8])
TEMP = TEMP_UP + TEMP_DN


def ints(a, b):
    return st.integers(a, b)


def pw(*v):
    return st.sampled_from(v)


MODE, RNGS = mode_names(), rng_names(RATE)
GEN = {"rng": RNGS, "dimr": ints(1, 4)}
HUB = {"widthi": ints(3, 6), "rngi": RNGS, "quantilei": Q, "widthw": ints(3, 6), "rngw": RNGS, "quantilew": Q, "cycle": st.one_of(st.none(), ints(1, 40)), "rounding": ROUND, "signmag": st.just(True)}
FXP = {"widthi": ints(3, 9), "quantilei": Q, "widthw": ints(3, 9), "quantilew": Q, "rounding": ROUND}
FMT = pw("fxp", "FXP", "bfloat16", "Float16", "FLOAT32")
TLUT = {"temporal": pw("i", "I", "w", "input", "Weight"), "widtht": ints(1, 5), "formati": FMT, "widthi": ints(3, 9), "quantilei": Q, "formatw": FMT, "widthw": ints(3, 9), "quantilew": Q,
        "cycle": st.one_of(st.none(), ints(1, 40)), "rounding": ROUND, "signmag": st.just(True)}
LAYER = {"width": ints(2, 6), "mode": MODE, "scale": pw(None, 1), "depth": ints(8, 12), "rng": RNGS, "dimr": ints(1, 4)}
CELL = {"width": ints(2, 5), "mode": st.sampled_from(["bipolar", "Bipolar"]), "depth": ints(8, 11), "depth_ismul": ints(2, 6), "rng": RNGS, "dimr": ints(1, 4)}

# name: (documented entries of hwcfg, entries of swcfg, which of these may be other than float)
SPEC = {
    "RNG": (dict(GEN, width=ints(2, 7)), ["rtype"]),
    "RawScale": ({"quantile": pw(1, 0.9, 0.5)}, []),
    "BinGen": ({"width": ints(2, 7), "mode": MODE}, ["rtype"]),
    "SkewedSync": ({"depth": ints(1, 6)}, ["stype", "btype"]),
    "Bi2Uni": ({"depth": ints(3, 8)}, ["stype", "btype"]),
    "Uni2Bi": ({"depth": ints(4, 8)}, ["stype", "btype"]),
    "FSUAdd": ({"mode": MODE, "scale": st.one_of(st.none(), pw(1, 2, 1.5)), "dima": ints(0, 2), "depth": ints(7, 10), "entry": st.one_of(st.none(), ints(1, 8))}, ["stype", "btype"]),
    "FSUMulStatic": (dict(GEN, width=ints(2, 6), mode=MODE, static=st.just(True)), ["stype", "rtype"]),
    "FSUMulInStream": (dict(GEN, width=ints(2, 6), mode=MODE, static=st.just(False)), ["stype", "rtype"]),
    "CORDIV": (dict(GEN, entry=pw(1, 2, 4, 8)), ["stype"]),
    "FSUDiv": (dict(GEN, depth_sa=ints(2, 6), depth_ss=ints(1, 5), entry_kn=pw(1, 2, 4, 8), mode=MODE), ["stype", "btype"]),
    "FSUSqrt": (dict(GEN, mode=MODE, jk_trace=st.booleans(), emit=st.booleans(), entry_kn=pw(1, 2, 4), entry_sr=pw(1, 2, 4, 8), dimr=st.just(4)), ["stype", "btype"]),
    "FSUSignAbs": ({"depth": ints(2, 7)}, ["stype", "btype"]),
    "FSUReLU": ({"depth": ints(2, 7)}, ["stype", "btype"]),
    "FSUHardsigmoid": ({"mode": MODE, "depth": ints(5, 10)}, ["stype", "btype"]),
    "JKFF": ({}, ["stype"]),
    "ShiftReg": ({"entry": ints(1, 12)}, ["stype"]),
    "FSULinear": (LAYER, ["btype", "rtype", "stype"]), "FSUConv2d": (LAYER, ["btype", "rtype", "stype"]),
    "HUBLinear": (HUB, []), "HUBConv2d": (HUB, []), "FXPLinear": (FXP, []), "FXPConv2d": (FXP, []), "TLUTLinear": (TLUT, []), "TLUTConv2d": (TLUT, []),
    "FSUMGUCell": (CELL, ["btype", "rtype", "stype"]), "HUBMGUCell": (CELL, []),
    "ProgError": ({"scale": pw(1, 2, 0.5), "mode": MODE}, []),
    "Stability": ({"scale": pw(1, 2, 0.5), "mode": MODE, "threshold": pw(0.05, 0.2)}, []),
}
UNARY = {"SkewedSync": 2, "Bi2Uni": 1, "Uni2Bi": 1, "CORDIV": 2, "FSUDiv": 2, "FSUSqrt": 1, "FSUSignAbs": 1, "FSUReLU": 1, "FSUHardsigmoid": 1, "JKFF": 2, "ShiftReg": 1}
CLASS = {"SkewedSync": SkewedSync, "Bi2Uni": Bi2Uni, "Uni2Bi": Uni2Bi, "CORDIV": CORDIV_kernel, "FSUDiv": FSUDiv, "FSUSqrt": FSUSqrt, "FSUSignAbs": FSUSignAbs, "FSUReLU": FSUReLU,
         "FSUHardsigmoid": FSUHardsigmoid, "ShiftReg": ShiftReg, "HUBLinear": HUBLinear, "HUBConv2d": HUBConv2d, "FXPLinear": FXPLinear, "FXPConv2d": FXPConv2d, "TLUTLinear": TLUTLinear,
         "TLUTConv2d": TLUTConv2d}
ONLY_FLOAT = ("FSULinear", "FSUConv2d", "FSUMGUCell")


def make(c, hw, sw):
    """The component with this configuration, and a function that runs a short history through it."""
    n, s, T = c["name"], c["seed"], c["T"]
    r = np.random.default_rng(s)
    rnd = lambda *k: t((r.random(k) * 2 - 1).astype(np.float32))
    grid = lambda *k: t((np.round(r.random(k) * 4) / 4).astype(np.float32))
    bits = lambda *k: [t((r.random(k) < p).astype(np.float32)) for p in r.random(T)]
    once = lambda f: lambda: [f()]
    if n == "RNG":
        m = RNG(hw, sw); return m, once(m)
    if n == "RawScale":
        m, x = RawScale(hw), rnd(9) * 3; return m, once(lambda: m(x))
    if n == "BinGen":
        m = BinGen(grid(6), hw, sw); return m, once(m)
    if n == "FSUAdd":
        m, b = FSUAdd(hw, sw), bits(3, 3, 3); return m, lambda: [m(x) for x in b]
    if n == "FSUMulStatic":
        m, b = FSUMul(grid(4), hw, sw), bits(4); return m, lambda: [m(x) for x in b]
    if n == "FSUMulInStream":
        m, b, d = FSUMul(None, hw, sw), bits(4), bits(4); return m, lambda: [m(x, y) for x, y in zip(b, d)]
    if n == "JKFF":
        m, b, d = JKFF(sw), bits(4), bits(4); return m, lambda: [m(x, y) for x, y in zip(b, d)]
    if n in UNARY:
        m = CLASS[n](hw, sw)
        bs = [bits(4) for _ in range(UNARY[n])]
        if n == "CORDIV":
            bs[0] = [x * y for x, y in zip(*bs)]
        return m, lambda: [o for xs in zip(*bs) for o in outs(m(*xs))]
    if n in ("FSULinear", "FSUConv2d"):
        wt, bt, k = grid(2, 3, *([] if n == "FSULinear" else [2, 2])), grid(2), bits(2, 3, *([] if n == "FSULinear" else [3, 2]))
        m = FSULinear(3, 2, True, wt, bt, hw, sw) if n == "FSULinear" else FSUConv2d(3, 2, 2, bias=True, weight_ext=wt, bias_ext=bt, hwcfg=hw, swcfg=sw)
        return m, lambda: [m(x) for x in k]
    if n in ("FSUMGUCell", "HUBMGUCell"):
        ws, h = [grid(2, 5), grid(2), grid(2, 5), grid(2)], grid(2, 2)
        if n == "HUBMGUCell":
            m, x = HUBMGUCell(3, 2, True, *ws, hwcfg=hw), rnd(2, 3)
            return m, once(lambda: m(x, h))
        m, b, d = FSUMGUCell(3, 2, True, *ws, hx_buffer=h, hwcfg=hw, swcfg=sw), bits(2, 3), bits(2, 2)
        return m, lambda: [m(x, y) for x, y in zip(b, d)]
    if n in ("ProgError", "Stability"):
        m, b = (ProgError if n == "ProgError" else Stability)(rnd(4), hw), bits(4)
        def run():
            o = []
            for x in b:
                m.Monitor(x)
                o += [v.clone() for v in outs(m())]
            return o
        return m, run
    conv = n.endswith("Conv2d")
    wt, bt, x = rnd(2, 3, *([2, 2] if conv else [])), rnd(2), rnd(*([2, 3, 4, 3] if conv else [4, 3]))
    m = CLASS[n](3, 2, 2, bias=True, weight_ext=wt, bias_ext=bt, hwcfg=hw) if conv else CLASS[n](3, 2, True, wt, bt, hwcfg=hw)
    return m, once(lambda: m(x))


def outs(y):
    return list(y) if isinstance(y, tuple) else [y]


def plain(v):
    return v.item() if isinstance(v, torch.Tensor) else v


def expected(c):
    """What hwcfg must say before the first input, and afterwards."""
    n, hw = c["name"], {k: v.lower() if isinstance(v, str) else v for k, v in c["hw"].items()}
    if "cycle" in hw:
        most = 2 ** (max(hw["widthi"], hw["widthw"]) - 1) if "HUB" in n else 2 ** hw["widtht"]
        hw["cycle"] = most if hw["cycle"] is None else min(hw["cycle"], most)
    after = dict(hw)
    if n == "FSUAdd":
        after["entry"] = 3 if hw["entry"] is None else hw["entry"]
        after["scale"] = after["entry"] if hw["scale"] is None else hw["scale"]
        after["offset"] = (after["entry"] - after["scale"]) / 2 if hw["mode"] == "bipolar" else 0
    return hw, after


def look(c, m, want, when):
    for k, v in want.items():
        if k not in m.hwcfg or plain(m.hwcfg[k]) != v or isinstance(plain(m.hwcfg[k]), bool) != isinstance(v, bool):
            fail("hwcfg[%r] of %s %s is %r instead of %r" % (k, c["name"], when, m.hwcfg.get(k), v))
    for k in SPEC[c["name"]][1]:
        if m.swcfg.get(k) != types(c)[k]:
            fail("swcfg[%r] of %s is %r instead of %r" % (k, c["name"], m.swcfg.get(k), types(c)[k]))


def types(c):
    return F if c["name"] in ONLY_FLOAT else {k: (torch.double if c["double"][i] else torch.float) for i, k in enumerate(("stype", "btype", "rtype"))}


def alike(c):
    """The hybrid layers build with equal widths only (known finding of C21)."""
    return dict(c, hw=dict(c["hw"], widthw=c["hw"]["widthi"])) if "HUB" in c["name"] and "rngi" in c["hw"] else c


def valid(c):
    hw = c["hw"]
    if "rngi" in hw and hw["rngi"].lower() in TEMP and hw["rngw"].lower() in TEMP:
        return False
    if "scale" in hw and c["name"] in ("FSULinear", "FSUConv2d") and hw["scale"] is not None and hw["rng"].lower() in TEMP:
        return False
    return True


def record(c):
    m, run = make(c, dict(c["hw"]), types(c))
    before, after = expected(c)
    look(c, m, before, "before use")
    ref = [npy(y).copy() for y in run()]
    look(c, m, after, "after use")
    # its own record builds it again
    given = {k: plain(v) for k, v in m.hwcfg.items()} if hasattr(m, "hwcfg") else {}
    m2, run2 = make(c, given, dict(types(c), **(m.swcfg if hasattr(m, "swcfg") else {})))
    for k, (y, w) in enumerate(zip(run2(), ref)):
        if npy(y).shape != w.shape or npy(y).dtype != w.dtype or not np.array_equal(npy(y), w, equal_nan=True):
            fail("%s built from what another one records, %s, gives %s instead of %s (output %d)" % (c["name"], given, npy(y).ravel()[:6], w.ravel()[:6], k))
    if given:
        look(c, m2, after, "built from the record of another")
    flat = np.concatenate([np.ravel(w).astype(float) for w in ref])
    return {"nontrivial": bool(np.nanmin(flat) != np.nanmax(flat)), "labels": [c["name"]]}


def cases():
    return st.sampled_from(sorted(SPEC)).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "hw": st.fixed_dictionaries(SPEC[n][0]), "double": st.tuples(st.booleans(), st.booleans(), st.booleans()), "seed": gseeds, "T": ints(3, 20), "gseed": gseeds})).map(alike).filter(valid)


def bsgen(c):
    n = 1 << c["w"]
    seq = t(np.random.default_rng(c["seed"]).permutation(n).astype(np.float32))
    m = BSGen(t(np.array([0.5 * n], dtype=np.float32)), seq, dict(F, stype=torch.double if c["double"] else torch.float))
    if m.hwcfg.get("width") != c["w"]:
        fail("a generator with a sequence of %d numbers records the width %r" % (n, m.hwcfg.get("width")))
    return {"nontrivial": c["w"] > 1}


PROP = Prop("C52",
            "record: a component of each class with a random configuration: hwcfg and swcfg hold the entries given (names in lower case), the cycles that run and, after the first input, what the adder "
            "settled on; another component built from these records gives the same outputs over a short history. width: the bitstream generator records the width of its sequence. Non-trivial: outputs vary.",
            [Check("record", cases(), record, 2400), Check("width", st.fixed_dictionaries({"w": ints(0, 12), "seed": gseeds, "double": st.booleans()}), bsgen, 200)],
            ["Entries beyond the documented ones are allowed in the records."])
