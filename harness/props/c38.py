import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, mode_names, rng_names, RATE, TEMP_UP, TEMP_DN, t
from harness.props.c19 import SW
from UnarySim.stream import RNG, RawScale, BinGen, BSGen
from UnarySim.kernel import (FSUMul, FSUAdd, FSUDiv, FSUSqrt, FSUHardsigmoid, ShiftReg, FSULinear, FSUConv2d, HUBLinear, HUBConv2d, FXPLinear, FXPConv2d,
                             TLUTLinear, TLUTConv2d, FSUMGUCell, NN_SC_Weight_Clipper)
from UnarySim.kernel.linear import FSULinearPC
from UnarySim.kernel.conv import FSUConv2dPC
from UnarySim.metric import ProgError, Stability

TEMP = TEMP_UP + TEMP_DN
BADMODE = ["", "polar", "uni", "bi-polar", "unipolar ", "signed", "bipola", "unipolarr"]
BADQ = [0, -0.5, 1.0001, 2, -1, 1.5, float("nan"), float("inf"), -1e-9]
BADNAME = ["", "sobo", "halton", "rand", "race1", "sobol ", "tc01", "system"]


def pick(r, v):
    return v[int(r.integers(0, len(v)))]


def typ(r):
    return pick(r, [torch.double, torch.half, torch.int8, torch.long, torch.bfloat16])


# each target: a function (r, bad) that builds, and uses where needed, the thing; bad names what to corrupt, or is None
def rng(r, bad):
    RNG({"width": int(r.integers(1, 6)), "dimr": 1, "rng": pick(r, BADNAME) if bad else "Sobol"}, SW)()


def rawscale(r, bad):
    RawScale({"quantile": pick(r, BADQ) if bad else 0.9})(torch.rand(5))


def bingen(r, bad):
    BinGen(torch.rand(3), {"width": 4, "mode": pick(r, BADMODE) if bad else "Bipolar"}, SW)()


def bsgen(r, bad):
    n = int(r.integers(3, 200))
    n = n + 1 if bad and (n & (n - 1)) == 0 else n
    seq = torch.arange(n if bad else 16).float()
    BSGen(torch.rand(3), seq, SW)(torch.zeros(3))


def mul(r, bad):
    static = bool(r.integers(0, 2)) if bad != "prob" else True
    m = FSUMul(None if bad == "prob" or not static else torch.rand(1), {"width": 4, "mode": pick(r, BADMODE) if bad == "mode" else "unipolar", "static": static,
                                                                         "rng": "sobol", "dimr": 1}, SW)
    m(torch.ones(2), torch.ones(2))


def add(r, bad):
    FSUAdd({"mode": pick(r, BADMODE) if bad else "bipolar", "scale": None, "dima": 0, "depth": 8, "entry": None}, SW)(torch.ones(2, 3))


def div(r, bad):
    FSUDiv({"depth_sa": 3, "depth_ss": 3, "entry_kn": 2, "mode": pick(r, BADMODE) if bad else "unipolar", "rng": "sobol", "dimr": 4}, SW)(torch.ones(2), torch.ones(2))


def sqrt(r, bad):
    odd = lambda: pick(r, [3, 5, 6, 7, 9, 12])
    FSUSqrt({"mode": pick(r, BADMODE) if bad == "mode" else "bipolar", "jk_trace": bool(r.integers(0, 2)), "emit": bool(r.integers(0, 2)), "entry_kn": odd() if bad == "kn" else 2,
             "entry_sr": odd() if bad == "sr" else 2, "rng": "sobol", "dimr": 4}, SW)(torch.ones(2))


def sigmoid(r, bad):
    FSUHardsigmoid({"mode": pick(r, BADMODE) if bad else "bipolar", "scale": 2, "dima": 0, "depth": 8, "entry": 2}, SW)(torch.ones(2))


def shiftreg(r, bad):
    m = ShiftReg({"entry": 4}, SW)
    m(torch.ones(2, 3), mask=torch.ones(pick(r, [(3, 2), (2, 2), (1, 3), (6,), (2, 1)]) if bad else (2, 3)))


def misfit(r, ws):
    """Another shape of the same number of dimensions: one side longer, shorter or 1, or two sides exchanged."""
    ws = list(ws)
    how, i = int(r.integers(0, 4)), int(r.integers(0, len(ws)))
    if how == 3 and len(ws) > 1 and ws[0] != ws[1]:
        ws[0], ws[1] = ws[1], ws[0]
    elif how == 2:
        ws[i] = 1
    elif how == 1:
        ws[i] -= 1
    else:
        ws[i] += int(r.integers(1, 3))
    return ws


def fsu(conv):
    def f(r, bad):
        mode = pick(r, BADMODE) if bad == "mode" else "bipolar"
        sw = dict(SW)
        if bad in ("stype", "btype", "rtype"):
            sw[bad] = typ(r)
        temporal = bad == "temporal"
        hw = {"width": 3, "mode": mode, "scale": pick(r, [1, 2, 7]) if temporal else None, "depth": 8, "rng": pick(r, TEMP).upper() if temporal else "sobol", "dimr": 1}
        ws = [2, 3] + ([2, 2] if conv else [])
        if bad == "weight":
            ws = misfit(r, ws)
        a = dict(bias=bad == "bias" or bool(r.integers(0, 2)), weight_ext=torch.rand(ws), bias_ext=torch.rand(pick(r, [1, 3, 4, 6]) if bad == "bias" else 2), hwcfg=hw, swcfg=sw)
        if conv:
            if bad == "groups":
                a["groups"] = 3
            if bad == "padding_mode":
                a["padding_mode"] = pick(r, ["reflect", "replicate", "circular"])
            m = FSUConv2d(3, 3 if bad == "groups" else 2, 2, padding=1, **a) if bad != "groups" else FSUConv2d(
                3, 3, 2, padding=1, **dict(a, weight_ext=torch.rand(3, 1, 2, 2), bias_ext=torch.rand(3)))
            m(torch.ones(1, 3, 3, 3))
        else:
            m = FSULinear(3, 2, **a)
            m(torch.ones(pick(r, [(3,), (1, 1, 3), (2, 1, 3)]) if bad == "input" else (1, 3)))
    return f


def binary(cls, conv, kind):
    def f(r, bad):
        bads = lambda k, ok, v: pick(r, v) if bad == k else ok
        hw = {"widthi": 5, "widthw": 5, "quantilei": bads("quantilei", 1, BADQ), "quantilew": bads("quantilew", 1, BADQ),
              "rounding": bads("rounding", "round", ["", "nearest", "truncate", "rounds", "up"])}
        if kind == "hub":
            both = bad == "both temporal"
            hw.update(rngi=pick(r, TEMP) if both else "sobol", rngw=pick(r, TEMP) if both else "sobol", cycle=None, signmag=bads("signmag", True, [False, None, 0]))
        if kind == "tlut":
            f = ["", "int8", "float64", "fp", "bf16", "fxp "]
            hw.update(temporal=bads("temporal", "i", ["", "x", "both", "inputs", "iw"]), widtht=2, formati=bads("formati", "fxp", f), formatw=bads("formatw", "fxp", f),
                      cycle=None, signmag=bads("signmag", True, [False, None, 0]))
        ws = [2, 3] + ([2, 2] if conv else [])
        if bad == "weight":
            ws = misfit(r, ws)
        a = dict(bias=bad == "bias" or bool(r.integers(0, 2)), weight_ext=torch.rand(ws), bias_ext=torch.rand(pick(r, [1, 3, 4, 6]) if bad == "bias" else 2), hwcfg=hw)
        if conv:
            if bad == "groups":
                m = cls(3, 3, 2, groups=3, **dict(a, weight_ext=torch.rand(3, 1, 2, 2), bias_ext=torch.rand(3)))
            else:
                if bad == "padding_mode":
                    a["padding_mode"] = pick(r, ["reflect", "replicate", "circular"])
                m = cls(3, 2, 2, padding=1, **a)
            m(torch.rand(1, 3, 3, 3))
        else:
            m = cls(3, 2, **a)
            m(torch.rand(2, 3))
    return f


def mgu(r, bad):
    s = lambda k, v: torch.rand(misfit(r, v) if bad == k else v)
    m = FSUMGUCell(3, 2, True, s("weight_f", [2, 5]), s("bias_f", [2]), s("weight_n", [2, 5]), s("bias_n", [2]), hx_buffer=torch.rand(2, 2),
                   hwcfg={"width": 3, "mode": pick(r, BADMODE + ["unipolar"]) if bad == "mode" else "bipolar", "depth": 8, "depth_ismul": 3, "rng": "sobol", "dimr": 1}, swcfg=SW)
    i, h, b = 3, 2, 2
    if bad == "input":
        i = pick(r, [1, 2, 4])
    if bad == "hidden":
        h = pick(r, [1, 3])
    if bad == "sizes":         # as many as there should be, in all
        i, h = pick(r, [(4, 1), (2, 3), (1, 4)])
    if bad == "batch":
        b = pick(r, [1, 3, 4])
    m(torch.ones(2, i), torch.ones(b, h))


def progerror(r, bad):
    m = ProgError(torch.rand(2), {"scale": 1, "mode": pick(r, BADMODE) if bad else "bipolar"})
    m.Monitor(torch.ones(2)); m()


def stability(r, bad):
    m = Stability(torch.rand(2), {"scale": 1, "mode": pick(r, BADMODE) if bad else "bipolar", "threshold": 0.1})
    m.Monitor(torch.ones(2)); m()


def clipper(r, bad):
    NN_SC_Weight_Clipper(frequency=int(r.integers(1, 3)), mode=pick(r, BADMODE) if bad else "bipolar")(torch.nn.Linear(2, 2))


Q = ["quantilei", "quantilew", "rounding", "weight", "bias"]
TARGETS = {"RNG": (rng, ["name"]), "RawScale": (rawscale, ["quantile"]), "BinGen": (bingen, ["mode"]), "BSGen": (bsgen, ["length"]), "FSUMul": (mul, ["mode", "prob"]),
           "FSUAdd": (add, ["mode"]), "FSUDiv": (div, ["mode"]), "FSUSqrt": (sqrt, ["mode", "kn", "sr"]), "FSUHardsigmoid": (sigmoid, ["mode"]), "ShiftReg": (shiftreg, ["mask"]),
           "FSULinear": (fsu(False), ["mode", "stype", "btype", "rtype", "temporal", "weight", "bias", "input"]),
           "FSUConv2d": (fsu(True), ["mode", "stype", "btype", "rtype", "temporal", "weight", "bias", "groups", "padding_mode"]),
           "HUBLinear": (binary(HUBLinear, False, "hub"), Q + ["both temporal", "signmag"]),
           "HUBConv2d": (binary(HUBConv2d, True, "hub"), Q + ["both temporal", "signmag", "groups", "padding_mode"]),
           "FXPLinear": (binary(FXPLinear, False, "fxp"), Q),
           "FXPConv2d": (binary(FXPConv2d, True, "fxp"), Q + ["groups", "padding_mode"]),
           "TLUTLinear": (binary(TLUTLinear, False, "tlut"), Q + ["temporal", "formati", "formatw", "signmag"]),
           "TLUTConv2d": (binary(TLUTConv2d, True, "tlut"), Q + ["temporal", "formati", "formatw", "signmag", "groups", "padding_mode"]),
           "FSUMGUCell": (mgu, ["mode", "weight_f", "weight_n", "bias_f", "bias_n", "input", "hidden", "sizes", "batch"]),
           "ProgError": (progerror, ["mode"]), "Stability": (stability, ["mode"]), "NN_SC_Weight_Clipper": (clipper, ["mode"])}


def run_case(c):
    f, _ = TARGETS[c["what"]]
    if c["bad"] is None:
        f(np.random.default_rng(c["gseed"]), None)        # accepted; an exception is a violation
        return {"nontrivial": False, "labels": [c["what"]]}
    try:
        f(np.random.default_rng(c["gseed"]), c["bad"])
    except Exception:
        return {"nontrivial": True, "labels": [c["what"]]}
    fail("%s accepts a bad %s" % (c["what"], c["bad"]))


def cases():
    return st.sampled_from(sorted(TARGETS)).flatmap(lambda w: st.sampled_from([None] + TARGETS[w][1]).map(lambda b: (w, b))).flatmap(
        lambda p: gseeds.map(lambda s: {"what": p[0], "bad": p[1], "gseed": s}))


def names():
    """Every name a parameter may take is accepted whatever its case."""
    return st.fixed_dictionaries({"rng": rng_names(RATE + TEMP), "mode": mode_names(), "gseed": gseeds})


def accepted(c):
    hw = {"width": 3, "dimr": 1, "rng": c["rng"], "mode": c["mode"]}
    RNG(hw, SW)(); BinGen(torch.rand(2), hw, SW)()
    FSUMul(torch.rand(1), dict(hw, static=True), SW)(torch.ones(2))
    FSULinearPC(2, 2, False, torch.rand(2, 2), None, hw, SW)(torch.ones(1, 2))
    FSUConv2dPC(1, 1, 2, bias=False, weight_ext=torch.rand(1, 1, 2, 2), hwcfg=hw, swcfg=SW)(torch.ones(1, 1, 2, 2))
    FSULinear(2, 2, False, torch.rand(2, 2), None, dict(hw, scale=None, depth=6), SW)(torch.ones(1, 2))
    return {"nontrivial": True, "labels": [c["rng"].lower()]}


PROP = Prop("C38",
            "For every unit, layer, cell and metric: a valid configuration, accepted, or the same with one item corrupted (mode, generator name, type, shape, quantile, "
            "rounding, sign-magnitude flag, format, groups, padding mode, mask, input), refused with an exception. Non-trivial: a corrupted one.",
            [Check("refused", cases(), run_case, 2500), Check("accepted", names(), accepted, 300)],
            ["Any exception, at construction or first use, counts as a refusal."])
