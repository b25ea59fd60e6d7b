import contextlib
import copy
import io
import pickle
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, gseeds, mode_names, make_bits, rng_names, RATE, DET_RNG, values, t, npy
from harness.util import same
from harness.units import UNITS, dtypes, sw
from harness.streamcheck import inputs
from harness import models as M, quant as Q
from harness.props.c19 import grid_weights
from harness.props import c21, c22, c23, c28
from UnarySim.stream import RNG, BinGen, BSGen, RawScale
from UnarySim.kernel import FSULinear, FSUConv2d, HUBLinear, FXPLinear, TLUTLinear, FSUMGUCell, HUBMGUCell, FSUMul
from UnarySim.kernel import (HUBHardtanh, HUBHardsigmoid, HUBReLU, HardMGUCell, HardMGUCellFXP, Round, rshift_offset, lshift, rshift, tensor_unary_outlier,
                             progerror_report, HUBConv2d, FXPConv2d, TLUTConv2d)
from harness.shim import float_shifts
from UnarySim.metric import Correlation, ProgError, Stability


class Rig:
    """Something that consumes the inputs of one cycle and returns a list of arrays; built from configs of its own."""
    def __init__(self, case):
        self.case = case
        self.args = []          # (what, object given, copy) that construction and use must leave as they were
        self.held = []
        self.m = self.make(case)

    def keep(self, what, v):
        self.args.append((what, v, copy.deepcopy(v)))
        return v

    def given(self, ts):
        """One cycle on these tensors; the tensors it returns."""
        return [self.m(*ts)]

    def give(self, outs):
        """The outputs as arrays; the tensors themselves are kept and looked at again at the end."""
        r = [npy(y).copy() for y in outs]
        self.held.extend(zip(outs, r))
        return r

    def unchanged(self):
        for y, was in self.held:
            if not np.array_equal(npy(y), was, equal_nan=True):
                fail("a result returned earlier changes from %s to %s" % (was.ravel()[:6], npy(y).ravel()[:6]))
        for what, v, old in self.args:
            if isinstance(v, torch.Tensor):
                same(v, npy(old), what)
                if v.dtype != old.dtype:
                    fail("%s: type %s becomes %s" % (what, old.dtype, v.dtype))
            elif v != old:
                fail("%s: %s becomes %s" % (what, old, v))


class UnitRig(Rig):
    def make(self, case):
        u = UNITS[case["name"]]
        real = u.build
        return u.build(case["c"], case["shape"], case["S"])

    def feed(self, xs):
        u, S = UNITS[self.case["name"]], self.case["S"]
        return self.give(u.step(self.m, [self.keep("input of %s" % self.case["name"], t(x, S[0])) for x in xs]))

    def given(self, ts):
        return UNITS[self.case["name"]].step(self.m, ts)


def rig_inputs(case):
    return inputs(UNITS[case["name"]], case)[0]


class FsuRig(Rig):
    def make(self, c):
        w, mode = c["width"], c["mode"].lower()
        hw = self.keep("hwcfg", {"width": w, "mode": c["mode"], "scale": c["scale"], "depth": 9, "rng": c["rng"], "dimr": 1})
        sc = self.keep("swcfg", {"btype": torch.float, "rtype": torch.float, "stype": torch.float})
        k = () if c["kind"] == "linear" else (2, 2)
        wt = self.keep("weight", t(M.prob_of(grid_weights(c["wseed"], (2, 3) + k, w), w, mode)))
        bt = self.keep("bias", t(M.prob_of(grid_weights(c["wseed"] + 1, (2,), w), w, mode))) if c["bias"] else None
        if c["kind"] == "linear":
            return FSULinear(3, 2, bias=c["bias"], weight_ext=wt, bias_ext=bt, hwcfg=hw, swcfg=sc)
        return FSUConv2d(3, 2, 2, padding=1, bias=c["bias"], weight_ext=wt, bias_ext=bt, hwcfg=hw, swcfg=sc)

    def feed(self, xs):
        return self.give([self.m(self.keep("input", t(xs[0])))])


class MguRig(Rig):
    def make(self, c):
        hw = self.keep("hwcfg", {"width": c["width"], "mode": "bipolar", "depth": 8, "depth_ismul": 3, "rng": c["rng"], "dimr": 1})
        sc = self.keep("swcfg", {"btype": torch.float, "rtype": torch.float, "stype": torch.float})
        v = lambda s, i: self.keep("weight %d" % i, t(M.prob_of(grid_weights(c["wseed"] + i, s, c["width"]), c["width"], "bipolar")))
        return FSUMGUCell(3, 2, bias=True, weight_ext_f=v((2, 5), 0), bias_ext_f=v((2,), 1), weight_ext_n=v((2, 5), 2), bias_ext_n=v((2,), 3),
                          hx_buffer=v((2, 2), 4), hwcfg=hw, swcfg=sc)

    def feed(self, xs):
        return self.give([self.m(self.keep("input", t(xs[0])), self.keep("hidden", t(xs[1])))])


class MetricRig(Rig):
    def make(self, c):
        hw = self.keep("hwcfg", {"scale": 2, "mode": c["mode"], "threshold": 0.1})
        if c["kind"] in ("scc", "auto"):
            return Correlation()
        s = self.keep("source", t(values(c["wseed"], [2, 3], 0, 1).astype(np.float32)))
        return (ProgError if c["kind"] == "pe" else Stability)(s, hw)

    def feed(self, xs):
        a = [self.keep("stream", t(x)) for x in xs]
        return self.give(self.given(a))

    def given(self, ts):
        self.m.Monitor(*ts)
        y = self.m()
        return y if isinstance(y, tuple) else (y,)


class BsRig(Rig):
    def make(self, c):
        hw = self.keep("hwcfg", {"width": c["width"], "mode": c["mode"], "rng": c["rng"], "dimr": 2})
        sc = self.keep("swcfg", {"btype": torch.float, "rtype": torch.float, "stype": torch.float})
        v = self.keep("source", t(values(c["wseed"], [2, 3], 0, 1).astype(np.float32)))
        b = self.keep("binary", BinGen(v, hw, sc)())
        s = self.keep("sequence", RNG(hw, sc)())
        return BSGen(b, s, sc)

    def feed(self, xs):
        return self.give([self.m(self.keep("cycle", t(np.asarray(xs[0], dtype=np.int64) * 5 + 3, "i64")))])


RIGS = {"linear": FsuRig, "conv": FsuRig, "mgu": MguRig, "scc": MetricRig, "auto": MetricRig, "pe": MetricRig, "stab": MetricRig, "bsgen": BsRig}
SHAPE = {"linear": [[2, 3]], "conv": [[2, 3, 2, 3]], "mgu": [[2, 3], [2, 2]], "scc": [[2, 3], [2, 3]], "auto": [[2, 3]], "pe": [[2, 3]], "stab": [[2, 3]], "bsgen": [[2, 3]]}


def build(case):
    return UnitRig(case) if "name" in case else RIGS[case["kind"]](case)


def stream_of(case):
    if "name" in case:
        return rig_inputs(case)
    return [[b[k] for b in bits] for bits in [[make_bits({"seed": case["x"]["seed"] + i, "kind": case["x"]["kind"]}, case["T"], s) for i, s in enumerate(SHAPE[case["kind"]])]]
            for k in range(case["T"])]


def agree(got, want, what):
    for p, (g, w) in enumerate(zip(got, want)):
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=True):
            fail("%s (output %d)" % (what, p))


def without(how):
    """No gradients: not at all, or recorded by no tensor made meanwhile."""
    return {"": contextlib.nullcontext, "no_grad": torch.no_grad, "inference_mode": torch.inference_mode}[how]()


def nograds():
    return st.sampled_from(["", "", "no_grad", "inference_mode"])


def duplicate(b, case):
    """A rig whose module is a copy of that of b, or is saved and loaded again."""
    d, f, conv = None, io.BytesIO(), case.get("kind") == "conv"
    if case["copy"] == "file" or conv:
        with contextlib.suppress(pickle.PicklingError, AttributeError, TypeError):      # a module need not be one that can be saved
            torch.save(b.m, f)
            d = build(case)
            f.seek(0)
            d.m = torch.load(f, weights_only=False)
    if d is None and not conv:
        kept, b.held = b.held, []
        d = copy.deepcopy(b)
        b.held = kept
    return d


def history(case):
    with without(case["nograd"]):
        return history_(case)


def history_(case):
    """One reference run; then a second instance, interleaved with a third on other data; copies taken mid-run; a replay."""
    xs = stream_of(case)
    T = case["T"]
    other = stream_of(dict(case, x=dict(case["x"], seed=case["x"]["seed"] + 77777)))
    a = build(case)
    ref = [a.feed(x) for x in xs]
    a.unchanged()
    b, c = build(case), build(case)
    cut = case["cut"] % T
    for k in range(T):
        if k == cut:
            d = duplicate(b, case)
        if case["first"]:
            c.feed(other[k])
        agree(b.feed(xs[k]), ref[k], "a second instance disagrees at cycle %d, interleaved with a third" % k)
        if not case["first"]:
            c.feed(other[k])
    # the copy continues from where it was taken, whatever became of the original
    for k in range(cut, T) if d is not None else ():
        agree(d.feed(xs[k]), ref[k], "a copy taken at cycle %d disagrees at cycle %d" % (cut, k))
    b.unchanged()
    flat = np.concatenate([np.ravel(r[0]) for r in ref])
    return {"nontrivial": T >= 3 and bool(flat.min() != flat.max()), "labels": [case.get("name") or case["kind"]]}


def wreck(m, seen=None):
    """Overwrites every tensor an object holds, in place."""
    seen = set() if seen is None else seen
    if id(m) in seen:
        return
    seen.add(id(m))
    if isinstance(m, torch.Tensor):
        with torch.no_grad():
            d = m.data
            try:
                d.copy_(~d if d.dtype == torch.bool else (d + 1 + torch.arange(d.numel()).reshape(d.shape) % 3).to(d.dtype))
            except RuntimeError:        # one element seen in several places
                pass
    elif isinstance(m, (list, tuple)):
        for v in m:
            wreck(v, seen)
    elif isinstance(m, dict):
        for v in m.values():
            wreck(v, seen)
    elif hasattr(m, "__dict__"):
        wreck(vars(m), seen)


def apart(case):
    """Whatever becomes of the tensors of one instance, the next instance, and one built before, behave as if it had never been."""
    xs = stream_of(case)
    a = build(case)
    ref = [a.feed(x) for x in xs]
    b, c = build(case), build(dict(case, S=case["S2"]) if "name" in case else case)
    agree(b.feed(xs[0]), ref[0], "a second instance disagrees at cycle 0")
    wreck(c.m)
    d = build(case)
    wreck(c.m)
    for k in range(len(xs)):
        agree(d.feed(xs[k]), ref[k], "an instance disagrees at cycle %d, after the tensors of another one were overwritten" % k)
        if k:
            agree(b.feed(xs[k]), ref[k], "an instance disagrees at cycle %d, after the tensors of a later one were overwritten" % k)
    o = np.concatenate([np.ravel(r[0]) for r in ref])
    return {"nontrivial": len(xs) >= 3 and bool(o.min() != o.max()), "labels": [case.get("name") or case["kind"]]}


def buffers(case):
    """A caller that reuses one tensor per input for all cycles, overwriting it in between."""
    xs = stream_of(case)
    a, b = build(case), build(case)
    held = None
    with torch.no_grad():
        for k, x in enumerate(xs):
            ref = a.feed(x)
            if held is None:
                held = [t(v, case["S"][0] if "S" in case else "i64" if case["kind"] == "bsgen" else "f32") for v in x]
            for h, v in zip(held, x):
                h.copy_(torch.from_numpy(np.array(v)) if case.get("kind") != "bsgen" else torch.from_numpy(np.array(v, dtype=np.int64) * 5 + 3))
            out = b.given(held)
            agree([npy(y).copy() for y in out], ref, "an instance whose caller reuses its tensors disagrees at cycle %d" % k)
            for h in held:
                h.fill_(k % 2)
    return {"nontrivial": len(xs) >= 3, "labels": [case.get("name") or case["kind"]]}


def cases():
    u = st.sampled_from(sorted(UNITS)).flatmap(lambda n: st.fixed_dictionaries({"name": st.just(n), "c": UNITS[n].cfg(), "shape": shapes(2, 3), "S": dtypes(), "S2": dtypes()}))
    l = st.sampled_from(sorted(RIGS)).flatmap(lambda k: st.fixed_dictionaries({
        "kind": st.just(k), "width": st.integers(2, 5), "mode": mode_names(), "bias": st.booleans(), "scale": st.sampled_from([None, 1]), "rng": rng_names(RATE), "wseed": gseeds}))
    return st.one_of(u, l).flatmap(lambda d: st.fixed_dictionaries({
        "x": streams(), "T": lengths(1, 60), "cut": st.integers(0, 60), "first": st.booleans(), "copy": st.sampled_from(["deepcopy", "deepcopy", "file"]), "nograd": nograds(), "gseed": gseeds}).map(lambda e: dict(d, **e)))


def config_cases():
    return st.fixed_dictionaries({"name": st.sampled_from(["FSUMul", "RNG", "BinGen", "RawScale", "HUB", "FXP", "TLUT", "HUBMGU"]), "seed": gseeds, "rng": rng_names(RATE),
                                  "width": st.integers(3, 6), "nograd": nograds(), "gseed": gseeds})


def config(c):
    with without(c["nograd"]):
        return config_(c)


def config_(c):
    """Dictionaries and tensors given to a constructor or a call come back as they were, and the caller may change them afterwards."""
    r = np.random.default_rng(c["seed"])
    w = c["width"]
    given = {}
    x = t(r.random((3, 4)) * 2 - 1)
    sc = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}
    if c["name"] == "FSUMul":
        p = t(np.round(r.random(4) * 4) / 4)
        hw = {"width": w, "mode": "Bipolar", "static": True, "rng": c["rng"], "dimr": 1}
        m = lambda: FSUMul(p, hw, sc)
        run = lambda m: torch.stack([m(t((np.arange(12).reshape(3, 4) + i) % 2)) for i in range(6)])
        given = {"prob": p}
    elif c["name"] == "RNG":
        hw = {"width": w, "dimr": 2, "rng": c["rng"]}
        m, run = lambda: RNG(hw, sc), lambda m: m()
    elif c["name"] == "BinGen":
        hw = {"width": w, "mode": "BIPOLAR"}
        m, run, given = lambda: BinGen(x, hw, sc), lambda m: m(), {"source": x}
    elif c["name"] == "RawScale":
        hw = {"quantile": 0.8}
        m, run = lambda: RawScale(hw), lambda m: m(x)
        given = {"raw": x}
    elif c["name"] in ("HUB", "FXP", "TLUT"):
        wt, bt = t(r.standard_normal((2, 4))), t(r.standard_normal(2))
        if c["name"] == "HUB":
            hw, cl = c21.hw({"width": w, "rng": [c["rng"], "Sobol"], "qi": 1, "qw": 0.9, "cycle": 5, "rounding": "Round"}), HUBLinear
        elif c["name"] == "FXP":
            hw, cl = c22.hw({"wi": w, "ww": 5, "qi": 1, "qw": 0.9, "rounding": "Floor"}), FXPLinear
        else:
            hw, cl = c23.hw({"temporal": "W", "widtht": 2, "wi": w, "ww": 5, "qi": 1, "qw": 0.9, "cycle": 9, "rounding": "Ceil"}), TLUTLinear
        m, run = lambda: cl(4, 2, weight_ext=wt, bias_ext=bt, hwcfg=hw), lambda m: m(x)
        given = {"input": x, "weight": wt, "bias": bt}
    else:
        hw = {"width": 3, "mode": "Bipolar", "depth": 8, "depth_ismul": 3, "rng": c["rng"], "dimr": 1}
        ws = [t(np.round(r.random(s) * 8) / 4 - 1) for s in ((2, 6), (2,), (2, 6), (2,), (3, 2))]
        m = lambda: HUBMGUCell(4, 2, True, ws[0], ws[1], ws[2], ws[3], hwcfg=hw)
        run = lambda m: m(x, ws[4])
        given = {"input": x, **{"weight %d" % i: v for i, v in enumerate(ws)}}
    h0, s0, g0 = copy.deepcopy(hw), copy.deepcopy(sc), {k: npy(v).copy() for k, v in given.items()}
    a = m()
    y = npy(run(a)).copy()
    b = m()
    def check():
        if hw != h0 or sc != s0:
            fail("the configuration of %s becomes %s, %s" % (c["name"], hw, sc))
        for k, v in given.items():
            same(v, g0[k], "%s of %s afterwards" % (k, c["name"]))
    check()
    # an instance does not follow later changes of the dictionary it was built from
    for k in list(hw):
        hw[k] = "?"
    z = npy(run(b)).copy()
    if not np.array_equal(y, z):
        fail("%s follows its caller's dictionary after construction" % c["name"])
    return {"nontrivial": bool(np.ptp(y) > 0), "labels": [c["name"]]}


PURE = ["HUBHardtanh", "HUBHardsigmoid", "HUBReLU", "HardMGUCell", "HardMGUCellFXP", "Round", "rshift_offset", "shifts", "outlier", "report",
        "HUBConv2d", "FXPConv2d", "TLUTConv2d", "HUBLinear", "FXPLinear", "TLUTLinear"]


def pure_cases():
    return st.fixed_dictionaries({"name": st.sampled_from(PURE), "seed": gseeds, "mag": st.sampled_from([0.7, 1.0, 3.0]), "hard": st.booleans(), "bias": st.booleans(),
                                  "hidden": st.booleans(), "rounding": st.sampled_from(["round", "floor", "ceil"]), "scale": st.sampled_from([[], [], [1], [1.0], [6], [0.5]]), "view": st.booleans(), "width": st.integers(3, 6),
                                  "rng": rng_names(RATE), "nograd": nograds(), "gseed": gseeds})


def subject(c, r, keep):
    """Something without state: the callable, its arguments and other arguments for a call in between."""
    n, w = c["name"], c["width"]
    if n in ("HUBHardtanh", "HUBHardsigmoid", "HUBReLU"):
        m = HUBHardtanh() if n == "HUBHardtanh" else HUBHardsigmoid(*c["scale"]) if n == "HUBHardsigmoid" else HUBReLU(*c["scale"])
        args = lambda: (keep("input", (3, 4)),)
        other = lambda: (t(r.random((3, 4))),)
    elif n in ("HardMGUCell", "HardMGUCellFXP"):
        m = (HardMGUCell if n == "HardMGUCell" else HardMGUCellFXP)(3, 2, bias=c["bias"], hard=c["hard"])
        args = lambda: (keep("input", (2, 3), 1.0),) + ((keep("hidden", (2, 2), 1.0),) if c["hidden"] else ())
        other = lambda: (t(r.random((2, 3))), t(r.random((2, 2))))
    elif n == "Round":
        m = Round(2, 3)
        args = lambda: (keep("input", (3, 4), 6.0),)
        other = lambda: (t(r.random((3, 4))),)
    elif n == "rshift_offset":
        m = lambda a, b: rshift_offset(a, b, w, 5, rounding=c["rounding"], quantilei=0.9, quantilew=1)
        args = lambda: (keep("input", (3, 4)), keep("weight", (2, 4)))
        other = lambda: (t(r.random((3, 4))), t(r.random((2, 4))))
    elif n == "shifts":
        m = lambda a: (lshift(a, 3), rshift(a, 2))
        args = lambda: (keep("input", (3, 4)),)
        other = lambda: (t(r.random((3, 4))),)
    elif n == "outlier":
        def m(a):
            with contextlib.redirect_stdout(io.StringIO()) as f:
                tensor_unary_outlier(a)
            return f.getvalue()
        args = lambda: (keep("tensor", (3, 4)),)
        other = lambda: (t(r.random((3, 4))),)
    elif n == "report":
        src = keep("source", (3, 4), 1.0)
        pe = ProgError(src, {"scale": 1, "mode": "bipolar"})
        for i in range(5):
            pe.Monitor(keep("stream %d" % i, (3, 4)).gt(0).float())

        def m():
            with contextlib.redirect_stdout(io.StringIO()) as f:
                progerror_report(pe, report_value=c["bias"], report_relative=c["hard"])
            return f.getvalue(), pe()[0], pe()[1], pe.cycle
        args = other = tuple
    else:
        conv = "Conv2d" in n
        k = (2, 2) if conv else ()
        wt, bt = keep("weight", (2, 3) + k, 1.0), keep("bias", (2,), 1.0) if c["bias"] else None
        sh = (2, 3, 4, 3) if conv else (2, 3)
        a = (3, 2, 2) if conv else (3, 2)
        if n.startswith("HUB"):
            hw, cl = c21.hw({"width": w, "rng": [c["rng"], "Sobol"], "qi": 1, "qw": 0.9, "cycle": 5, "rounding": c["rounding"]}), HUBConv2d if conv else HUBLinear
        elif n.startswith("FXP"):
            hw, cl = c22.hw({"wi": w, "ww": 5, "qi": 1, "qw": 0.9, "rounding": c["rounding"]}), FXPConv2d if conv else FXPLinear
        else:
            hw, cl = c23.hw({"temporal": "IW"[c["hard"]], "widtht": 2, "wi": w, "ww": 5, "qi": 1, "qw": 0.9, "cycle": 9, "rounding": c["rounding"]}), TLUTConv2d if conv else TLUTLinear
        m = cl(*a, weight_ext=wt, bias_ext=bt, bias=c["bias"], hwcfg=hw)
        args = lambda: (keep("input", sh),)
        other = lambda: (t(r.random(sh)),)
    return m, args, other


def flat(y):
    return [npy(v).copy() if isinstance(v, torch.Tensor) else v for v in (y if isinstance(y, (tuple, list)) else (y,))]


def pure(c):
    with without(c["nograd"]):
        return pure_(c)


def pure_(c):
    """What holds no state: the tensors and tuples given stay as they were, and the same call gives the same result, which a later call does not touch."""
    r = np.random.default_rng(c["seed"])
    n = c["name"]
    given = {}

    def keep(k, shape, mag=None):
        v = t((r.random(shape) * 2 - 1) * (c["mag"] if mag is None else mag))
        if c["view"]:
            v = torch.stack([v, v + 1], -1)[..., 0]
        given[k] = v
        return v
    m, args, other = subject(c, r, keep)

    def check(y, was, what):
        for a_, b_ in zip(flat(y), was):
            if not (np.array_equal(a_, b_, equal_nan=True) if isinstance(a_, np.ndarray) else a_ == b_):
                fail("%s of %s: %s instead of %s" % (what, n, a_, b_))
    with float_shifts() if n in ("HardMGUCellFXP", "Round") else contextlib.nullcontext():
        x = args()
        g0 = {k: npy(v).copy() for k, v in given.items()}
        y = m(*x)
        was = flat(y)
        for k, v in given.items():
            same(v, g0[k], "%s of %s afterwards" % (k, n))
        m(*other())
        check(y, was, "an earlier result, after another call,")
        check(m(*x), was, "the second result of the same call")
    for k, v in given.items():
        same(v, g0[k], "%s of %s afterwards" % (k, n))
    return {"nontrivial": any(isinstance(v, (str, int)) or np.ptp(np.asarray(v, dtype=np.float64)) > 0 for v in was), "labels": [n]}


PROP = Prop("C37",
            "history: for every unit, FSU layer, cell, metric and generator, a reference run, a second instance interleaved with a third on other data, a deep copy (or a saved and "
            "reloaded module) taken at a random cycle and continued after the original moved on; outputs equal throughout, inputs, configurations, weights, sources and earlier results "
            "as they were. apart: every tensor that one instance holds is overwritten; instances before and after it behave as before. buffers: the caller reuses one tensor per input for all cycles and overwrites it in between. config: construction and use leave dictionaries and tensors as they were, and later changes of the dictionary have no effect. pure: the stateless layers, cells, activations and tools leave what they are given as it was, repeat their result and leave earlier results alone. Each with gradients, under no_grad and in inference mode. Non-trivial: an "
            "output that varies over three cycles or more.",
            [Check("history", cases(), history, 900), Check("apart", cases(), apart, 480), Check("buffers", cases(), buffers, 480), Check("config", config_cases(), config, 400), Check("pure", pure_cases(), pure, 900)],
            ["Deterministic generators; copies are taken with copy.deepcopy or torch.save (of the stream convolution, whose views of its weight torch does not deep copy, with torch.save)."])
