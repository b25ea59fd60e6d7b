"""What is left out of a call means its documented default, whatever was built before."""
import contextlib
import io
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness.shim import float_shifts
import UnarySim.stream as S
import UnarySim.kernel as K
import UnarySim.metric as E

F = torch.float
BS = {"btype": F, "stype": F}
BRS = {"btype": F, "rtype": F, "stype": F}
PC = {"width": 8, "mode": "bipolar", "rng": "Sobol", "dimr": 1}
LAYER = {"width": 8, "mode": "bipolar", "scale": None, "depth": 12, "rng": "Sobol", "dimr": 1}
CELL = {"width": 8, "mode": "bipolar", "depth": 10, "depth_ismul": 6, "rng": "Sobol", "dimr": 1}
HUB = {"widthi": 8, "rngi": "Sobol", "quantilei": 1, "widthw": 8, "rngw": "Sobol", "quantilew": 1, "cycle": 128, "rounding": "round", "signmag": True}
FXP = {"widthi": 8, "quantilei": 1, "widthw": 8, "quantilew": 1, "rounding": "round"}
TLUT = {"temporal": "i", "widtht": 4, "formati": "fxp", "widthi": 8, "quantilei": 1, "formatw": "fxp", "widthw": 8, "quantilew": 1, "cycle": None, "rounding": "round", "signmag": True}
CONV = {"stride": 1, "padding": 0, "dilation": 1, "groups": 1, "bias": True, "padding_mode": "zeros"}


class Draw:
    """The same data for both of a pair."""
    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def real(self, *k, mag=1.0):
        return t(((self.r.random(k) * 2 - 1) * mag).astype(np.float32))

    def bits(self, T, *k):
        return t((self.r.random((T,) + k) < self.r.random(k)).astype(np.float32))


def unit(hw, sw, nin=1, T=80):
    """A streaming unit: documented configuration, and the run of a history."""
    opts = {}
    if hw is not None:
        opts["hwcfg"] = hw
    opts["swcfg"] = sw

    def run(make, d):
        m = make()
        xs = [d.bits(T, 5) for _ in range(nin)]
        return [o for k in range(T) for o in outs(m(*[x[k] for x in xs]))]
    return opts, run


def outs(y):
    return list(y) if isinstance(y, (tuple, list)) else [y]


def add(make, d):
    m, x = make(), d.bits(120, 4, 5)
    return [m(v) for v in x]


def cordiv(make, d):
    m, x, y = make(), d.bits(80, 5), d.bits(80, 5)
    return [m(a * b, b) for a, b in zip(x, y)]


def lin(T):
    def run(make, d):
        m = make(3, 2, weight_ext=d.real(2, 3), bias_ext=d.real(2))
        if T is None:
            return [m(d.real(6, 3))]
        return [m(x) for x in d.bits(T, 2, 3)]
    return run


def conv(T):
    def run(make, d):
        m = make(2, 2, 2, weight_ext=d.real(2, 2, 2, 2), bias_ext=d.real(2))
        if T is None:
            return [m(d.real(2, 2, 4, 4))]
        return [m(x) for x in d.bits(T, 1, 2, 4, 4)]
    return run


def cell(make, d):
    m = make(3, 2, weight_ext_f=d.real(2, 5), bias_ext_f=d.real(2), weight_ext_n=d.real(2, 5), bias_ext_n=d.real(2), hx_buffer=d.real(2, 2))
    return [m(x, h) for x, h in zip(d.bits(60, 2, 3), d.bits(60, 2, 2))]


def hubcell(make, d):
    m = make(3, 2, weight_ext_f=d.real(2, 5), bias_ext_f=d.real(2), weight_ext_n=d.real(2, 5), bias_ext_n=d.real(2))
    return [m(d.real(1, 3), d.real(1, 2))]


def hard(make, d):
    torch.manual_seed(int(d.r.integers(0, 2 ** 31)))
    m = make(3, 4)
    return [p for p in m.parameters()] + [m(d.real(5, 3), d.real(5, 4))]


def monitor(make, d):
    m, o = make(d.real(5)), []
    for x in d.bits(60, 5):
        m.Monitor(x)
        o += [v.clone() for v in outs(m())]
    return o


def source(make, d):
    return [make(d.real(9))()]


def once(make, d):
    return [make()()]


def scale(make, d):
    return [make()(d.real(40, mag=3))]


def bsgen(make, d):
    m = make(t(d.r.integers(0, 17, 6).astype(np.float32)), t(d.r.permutation(16).astype(np.float32)))
    return [m(torch.tensor([k])) for k in range(20)]


def act(make, d):
    return [make()(d.real(60, mag=5))]


def clipper(make, d):
    m, o = make(), []
    for _ in range(3):
        l = torch.nn.Linear(4, 3)
        l.weight.data, l.bias.data = d.real(3, 4, mag=1.5), d.real(3, mag=1.5)
        m(l)
        o += [l.weight.data, l.bias.data]
    return o


def shape_of(n):
    def run(make, d):
        o = []
        for _ in range(6):
            a, b = [tuple(int(v) for v in d.r.integers(3, 9, 2)) for _ in range(2)]
            y = make(*([a] if n == 1 else [a, b]))
            o.append(torch.tensor([float(v) for p in y for v in (p if isinstance(p, tuple) else (p,))]))
        return o
    return run


def trunc(make, d):
    torch.manual_seed(int(d.r.integers(0, 2 ** 31)))
    return [make(torch.empty(50))]


def offset(make, d):
    return [torch.as_tensor(v) for v in make(d.real(9), d.real(9), 5, 6)]


def seq(make, d):
    torch.manual_seed(int(d.r.integers(0, 2 ** 31)))
    import random
    random.seed(1)
    np.random.seed(1)
    return [torch.as_tensor(np.array(make(), dtype=float))]


def said(arg):
    def run(make, d):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            make(arg(d))
        return [torch.tensor([float(ord(c)) for c in b.getvalue()])]
    return run


def progerror(d):
    m = E.ProgError(d.real(5), {"scale": 1, "mode": "bipolar"})
    for x in d.bits(20, 5):
        m.Monitor(x)
    return m


# name: (what is called, its documented defaults, a use of it)
SPEC = {n: (f, o, r) for n, f, (o, r) in [
    ("SkewedSync", S.SkewedSync, unit({"depth": 2}, BS, 2)), ("Bi2Uni", S.Bi2Uni, unit({"depth": 3}, BS)), ("Uni2Bi", S.Uni2Bi, unit({"depth": 4}, BS)),
    ("FSUDiv", K.FSUDiv, unit({"depth_sa": 3, "depth_ss": 2, "entry_kn": 2, "mode": "bipolar", "rng": "Sobol", "dimr": 4}, BS, 2, 160)),
    ("FSUSqrt", K.FSUSqrt, unit({"mode": "bipolar", "jk_trace": True, "emit": True, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}, BS)),
    ("FSUSignAbs", K.FSUSignAbs, unit({"depth": 3}, BS)), ("FSUReLU", K.FSUReLU, unit({"depth": 6}, BS, 1, 200)),
    ("FSUHardsigmoid", K.FSUHardsigmoid, unit({"mode": "bipolar", "scale": 2, "dima": 0, "depth": 8, "entry": 2}, BS)),
    ("JKFF", K.JKFF, unit(None, {"stype": F}, 2)), ("ShiftReg", K.ShiftReg, unit({"entry": 8}, {"stype": F})),
    ("FSUMul", K.FSUMul, ({"in_1_prob": None, "hwcfg": {"width": 8, "mode": "bipolar", "static": False, "rng": "Sobol", "dimr": 1}, "swcfg": {"rtype": F, "stype": F}}, unit({}, {}, 2, 400)[1])),
    ("FSUAdd", K.FSUAdd, ({"hwcfg": {"mode": "bipolar", "scale": None, "dima": 0, "depth": 10, "entry": None}, "swcfg": BS}, add)),
    ("CORDIV_kernel", K.CORDIV_kernel, ({"hwcfg": {"entry": 4, "rng": "Sobol", "dimr": 4}, "swcfg": {"stype": F}}, cordiv)),
    ("FSULinear", K.FSULinear, ({"bias": True, "hwcfg": LAYER, "swcfg": BRS}, lin(300))), ("FSULinearPC", K.FSULinearPC, ({"bias": True, "hwcfg": PC, "swcfg": BRS}, lin(300))),
    ("FSUConv2d", K.FSUConv2d, (dict(CONV, hwcfg=LAYER, swcfg=BRS), conv(200))), ("FSUConv2dPC", K.FSUConv2dPC, (dict(CONV, hwcfg=PC, swcfg=BRS), conv(200))),
    ("HUBLinear", K.HUBLinear, ({"bias": True, "hwcfg": HUB}, lin(None))), ("HUBConv2d", K.HUBConv2d, (dict(CONV, hwcfg=HUB), conv(None))),
    ("FXPLinear", K.FXPLinear, ({"bias": True, "hwcfg": FXP}, lin(None))), ("FXPConv2d", K.FXPConv2d, (dict(CONV, hwcfg=FXP), conv(None))),
    ("TLUTLinear", K.TLUTLinear, ({"bias": True, "hwcfg": TLUT}, lin(None))), ("TLUTConv2d", K.TLUTConv2d, (dict(CONV, hwcfg=TLUT), conv(None))),
    ("FSUMGUCell", K.FSUMGUCell, ({"bias": True, "hwcfg": CELL, "swcfg": BRS}, cell)), ("HUBMGUCell", K.HUBMGUCell, ({"bias": True, "hwcfg": CELL}, hubcell)),
    ("HardMGUCell", K.HardMGUCell, ({"bias": True, "hard": True}, hard)), ("HardMGUCellFXP", K.HardMGUCellFXP, ({"bias": True, "hard": True, "intwidth": 3, "fracwidth": 4}, hard)),
    ("Round", K.Round, ({"intwidth": 3, "fracwidth": 4}, lambda make, d: [make()(d.real(60, mag=12))])),
    ("HUBReLU", K.HUBReLU, ({"scale": 1.0, "inplace": False}, act)), ("HUBHardsigmoid", K.HUBHardsigmoid, ({"scale": 3}, act)),
    ("NN_SC_Weight_Clipper", K.NN_SC_Weight_Clipper, ({"frequency": 1, "mode": "bipolar", "method": "clip", "bitwidth": 8}, clipper)),
    ("BinGen", S.BinGen, ({"hwcfg": {"width": 8, "mode": "bipolar"}, "swcfg": {"rtype": F}}, source)),
    ("RNG", S.RNG, ({"hwcfg": {"width": 8, "dimr": 1, "rng": "Sobol"}, "swcfg": {"rtype": F}}, once)),
    ("RawScale", S.RawScale, ({"hwcfg": {"quantile": 1}}, scale)), ("BSGen", S.BSGen, ({"swcfg": {"stype": F}}, bsgen)),
    ("ProgError", E.ProgError, ({"hwcfg": {"scale": 1, "mode": "bipolar"}}, monitor)), ("Stability", E.Stability, ({"hwcfg": {"scale": 1, "mode": "bipolar", "threshold": 0.05}}, monitor)),
    ("get_lfsr_seq", S.get_lfsr_seq, ({"width": 8}, seq)), ("get_sysrand_seq", S.get_sysrand_seq, ({"width": 8}, seq)),
    ("conv2d_output_shape", K.conv2d_output_shape, ({"kernel_size": 1, "stride": 1, "pad": 0, "dilation": 1}, shape_of(1))),
    ("convtransp2d_output_shape", K.convtransp2d_output_shape, ({"kernel_size": 1, "stride": 1, "pad": 0, "dilation": 1, "out_pad": 0}, shape_of(1))),
    ("conv2d_get_padding", K.conv2d_get_padding, ({"kernel_size": 1, "stride": 1, "dilation": 1}, shape_of(2))),
    ("convtransp2d_get_padding", K.convtransp2d_get_padding, ({"kernel_size": 1, "stride": 1, "dilation": 1, "out_pad": 0}, shape_of(2))),
    ("truncated_normal", K.truncated_normal, ({"mean": 0.0, "std": 0.01}, trunc)),
    ("rshift_offset", K.rshift_offset, ({"rounding": "round", "quantilei": 1, "quantilew": 1}, offset)),
    ("tensor_unary_outlier", K.tensor_unary_outlier, ({"name": "tensor"}, said(lambda d: d.real(30, mag=2)))),
    ("progerror_report", K.progerror_report, ({"name": "progerror", "report_value": False, "report_relative": False}, said(progerror))),
]}
NAMES = sorted(SPEC)
SHIFTS = ("Round", "HardMGUCellFXP")          # need the shifts of floats that this PyTorch lacks (finding of C29)
# entries another instance may have been built with before
OTHER = {"width": [5], "widthi": [6], "widthw": [6], "widtht": [3], "depth": [7], "depth_sa": [5], "depth_ss": [4], "depth_ismul": [4], "entry": [16], "entry_kn": [4], "entry_sr": [4],
         "dimr": [2], "rng": ["Sobol", "RC"], "mode": ["unipolar"], "scale": [2], "cycle": [20], "rounding": ["floor"], "quantile": [0.8], "threshold": [0.2], "temporal": ["w"]}


def copies(v):
    return dict(v) if isinstance(v, dict) else v


def before(f, opts, use, name, r):
    """Other instances of the class, built with the defaults or with something else, used, their records rewritten by the caller."""
    made = []

    def make(*a, **kw):
        given = {}
        if r.random() < 0.5 and isinstance(opts.get("hwcfg"), dict):
            hw = dict(opts["hwcfg"])
            for k in hw:
                if k in OTHER and r.random() < 0.4 and (k != "mode" or "MGU" not in name) and not (k == "scale" and name.endswith(("Linear", "Conv2d"))):
                    hw[k] = OTHER[k][int(r.integers(0, len(OTHER[k])))]
            if "rngi" in hw:
                hw["widthi"] = hw["widthw"]
            given["hwcfg"] = hw
        m = f(*a, **kw, **given)
        made.append(m)
        return m
    use(make, Draw(int(r.integers(0, 2 ** 31))))
    for m in made:
        for rec in ("hwcfg", "swcfg"):
            v = getattr(m, rec, None)
            if isinstance(v, dict):
                for k in list(v):
                    v[k] = "rewritten"


def run(c):
    f, opts, use = SPEC[c["name"]]
    with float_shifts() if c["name"] in SHIFTS else contextlib.nullcontext():
        r = np.random.default_rng(c["gseed"])
        for _ in range(c["before"]):
            before(f, opts, use, c["name"], r)
        keep = [k for i, k in enumerate(opts) if c["give"] >> i & 1]          # these are given all the same
        a = use(lambda *p, **kw: f(*p, **kw, **{k: copies(opts[k]) for k in keep}), Draw(c["seed"]))
        b = use(lambda *p, **kw: f(*p, **kw, **{k: copies(v) for k, v in opts.items()}), Draw(c["seed"]))
    if len(a) != len(b):
        fail("%s gives %d outputs by default and %d when the documented defaults are given" % (c["name"], len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = npy(x), npy(y)
        if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=True):
            fail("%s without %s differs from %s with the documented defaults given, at output %d: %s instead of %s" % (
                c["name"], sorted(set(opts) - set(keep)), c["name"], i, x.ravel()[:6], y.ravel()[:6]))
    flat = np.concatenate([np.ravel(npy(y)).astype(float) for y in b])
    return {"nontrivial": bool(len(keep) < len(opts) and flat.size and np.nanmin(flat) != np.nanmax(flat)), "labels": [c["name"]] + (["others before"] if c["before"] else [])}


def cases():
    return st.sampled_from(NAMES).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "give": st.one_of(st.just(0), st.integers(0, (1 << len(SPEC[n][1])) - 1)), "before": st.integers(0, 2), "seed": gseeds, "gseed": gseeds}))


PROP = Prop("C53",
            "A random class or function, used with some or all of its optional arguments left out, after 0 to 2 other instances were built with other configurations, used, and their "
            "records overwritten; against the same use with every documented default given. Non-trivial: something was left out and the outputs vary.",
            [Check("defaults", cases(), run, 700)],
            ["The defaults are those of the signatures at the base commit. With pseudo-random data both uses start from the same seed."])
