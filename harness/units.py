"""The streaming units: how to configure, build and step each, and its reference model."""
import numpy as np
import torch
from hypothesis import strategies as st
from UnarySim.stream import SkewedSync, Bi2Uni, Uni2Bi
from UnarySim.kernel import (FSUAdd, FSUMul, FSUDiv, FSUSqrt, FSUSignAbs, FSUReLU, FSUHardsigmoid, FSUHardtanh, JKFF,
                             ShiftReg, CORDIV_kernel)
from harness import models as M
from harness.gen import DT, rng_names, DET_RNG, RATE, mode_names, t, npy, case_mix, dims


def wide_dtypes():
    """Types whose counters hold any count of a long history; bits of any type."""
    return st.tuples(st.sampled_from(["f32", "bf16", "bf16", "i8", "f16", "f64", "i16", "i64"]), st.sampled_from(["f32", "f64", "i16", "i32", "i64"]), st.sampled_from(RT)).map(list)


def fit(S, depth):
    """bfloat16 counts halves exactly up to 64 only."""
    return [S[0], "f32", S[2]] if S[1] == "bf16" and depth > 8 else S


class Unit:
    nin = 1
    nout = 1
    uses_b = True         # takes a btype
    out_st = None         # dtype of the outputs, or None for stype
    def cfg(self): return st.just({})
    def deep(self): return self.cfg()       # larger counters, registers and widths, for long histories
    def types(self, c, S): return S         # types that hold what this configuration counts
    def build(self, c, shape, S): raise NotImplementedError
    def step(self, m, xs): return (m(*xs),)
    def model(self, c, shape): raise NotImplementedError
    def mstep(self, m, xs): return (m.step(*xs),)


def sw(S):
    return {"stype": DT[S[0]], "btype": DT[S[1]], "rtype": DT[S[2]]}


ST = ["f32", "f32", "f32", "i8", "f64", "f16", "bf16", "i16", "i32", "i64"]
BT = ["f32", "f32", "f64", "i8", "i16", "i32", "i64", "bf16"]
RT = ["f32", "f32", "f64", "i64", "i32", "i16"]


def dtypes():
    """(stype, btype, rtype) for bits, counters and random numbers."""
    return st.tuples(st.sampled_from(ST), st.sampled_from(BT), st.sampled_from(RT)).map(list)



class USkewedSync(Unit):
    nin, nout = 2, 2
    def cfg(self): return st.fixed_dictionaries({"depth": st.integers(1, 6)})
    def deep(self): return st.fixed_dictionaries({"depth": st.integers(6, 14)})
    def build(self, c, shape, S): return SkewedSync({"depth": c["depth"]}, sw(S))
    def step(self, m, xs): return m(xs[0], xs[1])
    def model(self, c, shape): return M.SkewedSync(c["depth"], shape)
    def mstep(self, m, xs): return m.step(*xs)


class UBi2Uni(Unit):
    def cfg(self): return st.fixed_dictionaries({"depth": st.integers(3, 7)})
    def deep(self): return st.fixed_dictionaries({"depth": st.integers(7, 13)})
    def build(self, c, shape, S): return Bi2Uni({"depth": c["depth"]}, sw(S))
    def model(self, c, shape): return M.Bi2Uni(c["depth"], shape)


class UUni2Bi(Unit):
    def cfg(self): return st.fixed_dictionaries({"depth": st.integers(4, 7)})
    def deep(self): return st.fixed_dictionaries({"depth": st.integers(7, 13)})
    def build(self, c, shape, S): return Uni2Bi({"depth": c["depth"]}, sw(S))
    def model(self, c, shape): return M.Uni2Bi(c["depth"], shape)


class UAdd(Unit):
    """Adds `entry` streams that arrive stacked along dimension `dima`."""
    def cfg(self):
        def more(n):
            return st.fixed_dictionaries({
                "n": st.just(n), "mode": mode_names(), "depth": st.integers(4, 10),
                "scale": st.one_of(st.none(), st.just(1), st.integers(1, n), st.sampled_from([0.5, 1.5, 2.5])),
                "entry": st.sampled_from([None, None, n]), "dima": st.integers(0, 3)})
        return st.integers(1, 6).flatmap(more)
    def deep(self):
        def more(n):
            return st.fixed_dictionaries({
                "n": st.just(n), "mode": mode_names(), "depth": st.integers(10, 14),
                "scale": st.one_of(st.none(), st.sampled_from([1, 2, n, n / 2, n - 0.5])), "entry": st.sampled_from([None, n]), "dima": st.integers(0, 3)})
        return st.one_of(st.integers(1, 6), st.integers(100, 700)).flatmap(more)
    def build(self, c, shape, S):
        return FSUAdd({"mode": c["mode"], "scale": c["scale"], "dima": c["dima"] % (len(shape) + 1), "depth": c["depth"],
                       "entry": c["entry"]}, sw(fit(S, c["depth"])))
    # its input has one more dimension: the bits of n lanes are made from one stream tensor by the caller
    def model(self, c, shape):
        n = c["n"]
        return M.Add(c["mode"].lower(), n if c["scale"] is None else c["scale"], n, c["depth"], shape)


class UMulStatic(Unit):
    uses_b = False
    def cfg(self): return self.widths(2, 7)
    def deep(self): return self.widths(8, 13)
    def widths(self, lo, hi):
        return st.integers(lo, hi).flatmap(lambda w: st.fixed_dictionaries({
            "width": st.just(w), "mode": mode_names(), "rng": rng_names(DET_RNG), "dimr": dims(4),
            "kseed": st.integers(0, 2 ** 20), "one": st.booleans()}))
    def ks(self, c, shape):
        n = 1 << c["width"]
        r = np.random.default_rng(c["kseed"])
        shp = [1] if c["one"] else list(shape)
        k = r.integers(0, n + 1, shp)
        m = r.random(shp)
        k = np.where(m < 0.08, 0, np.where(m > 0.92, n, k))
        return k
    def build(self, c, shape, S):
        k = self.ks(c, shape)
        p = M.prob_of(k, c["width"], c["mode"].lower())
        return FSUMul(t(p.astype(np.float32)), {"width": c["width"], "mode": c["mode"], "static": True, "rng": c["rng"],
                                                "dimr": c["dimr"]}, sw(S))
    def model(self, c, shape):
        return M.MulStatic(c["mode"].lower(), self.ks(c, shape), M.sequence(c["rng"], c["width"], c["dimr"]), shape)


class UMulIn(Unit):
    def types(self, c, S):               # the window's count is held in the bit type, bfloat16 holds up to 256
        return ["f32"] + S[1:] if S[0] == "bf16" and c["width"] > 8 else S
    nin = 2
    uses_b = False
    def cfg(self):
        return st.fixed_dictionaries({"width": st.integers(1, 6), "mode": mode_names(), "rng": rng_names(DET_RNG), "dimr": dims(4)})
    def deep(self):
        return st.fixed_dictionaries({"width": st.one_of(st.integers(7, 8), st.integers(9, 11)), "mode": mode_names(), "rng": rng_names(DET_RNG), "dimr": dims(4)})
    def build(self, c, shape, S):
        return FSUMul(None, {"width": c["width"], "mode": c["mode"], "static": False, "rng": c["rng"], "dimr": c["dimr"]}, sw(S))
    def model(self, c, shape):
        return M.MulInStream(c["mode"].lower(), c["width"], M.sequence(c["rng"], c["width"], c["dimr"]), shape)


class UCordiv(Unit):
    nin = 2
    uses_b = False
    def cfg(self):
        return st.fixed_dictionaries({"entry": st.sampled_from([1, 2, 4, 8, 16]), "rng": rng_names(DET_RNG), "dimr": dims(5)})
    def deep(self):
        return st.fixed_dictionaries({"entry": st.sampled_from([16, 32, 64, 256]), "rng": rng_names(DET_RNG), "dimr": dims(5)})
    def build(self, c, shape, S):
        return CORDIV_kernel({"entry": c["entry"], "rng": c["rng"], "dimr": c["dimr"]}, sw(S))
    def model(self, c, shape):
        return M.Cordiv(c["entry"], M.sequence(c["rng"], c["entry"].bit_length() - 1, c["dimr"]), shape)


class UDiv(Unit):
    nin = 2
    def cfg(self):
        return st.fixed_dictionaries({"depth_sa": st.integers(2, 6), "depth_ss": st.integers(1, 5), "entry_kn": st.sampled_from([1, 2, 4, 8]),
                                      "mode": mode_names(), "rng": rng_names(DET_RNG), "dimr": dims(5)})
    def deep(self):
        return st.fixed_dictionaries({"depth_sa": st.integers(6, 11), "depth_ss": st.integers(5, 10), "entry_kn": st.sampled_from([4, 8, 32, 64]),
                                      "mode": mode_names(), "rng": rng_names(DET_RNG), "dimr": dims(5)})
    def build(self, c, shape, S): return FSUDiv(dict(c), sw(S))
    def model(self, c, shape):
        return M.Div(c["mode"].lower(), c["depth_sa"], c["depth_ss"], c["entry_kn"],
                     M.sequence(c["rng"], c["entry_kn"].bit_length() - 1, c["dimr"]), shape)


class USqrt(Unit):
    def cfg(self):
        return st.fixed_dictionaries({"mode": mode_names(), "jk_trace": st.booleans(), "emit": st.booleans(), "entry_kn": st.sampled_from([1, 2, 4]),
                                      "entry_sr": st.sampled_from([1, 2, 4, 8]), "rng": rng_names(DET_RNG), "dimr": st.just(4)})
    def deep(self):
        return st.fixed_dictionaries({"mode": mode_names(), "jk_trace": st.booleans(), "emit": st.booleans(), "entry_kn": st.just(1),
                                      "entry_sr": st.sampled_from([2, 16, 64, 256, 1024]), "rng": rng_names(DET_RNG), "dimr": st.just(4)})
    def build(self, c, shape, S): return FSUSqrt(dict(c), sw(S))
    def model(self, c, shape):
        return M.Sqrt(c["mode"].lower(), c["jk_trace"], c["emit"], c["entry_sr"], M.sequence(c["rng"], 2, 4), shape)


class USignAbs(Unit):
    nout = 2
    def cfg(self): return st.fixed_dictionaries({"depth": st.integers(2, 6)})
    def deep(self): return st.fixed_dictionaries({"depth": st.integers(6, 11)})
    def build(self, c, shape, S): return FSUSignAbs({"depth": c["depth"]}, sw(S))
    def step(self, m, xs): return m(xs[0])
    def model(self, c, shape): return M.SignAbs(c["depth"], shape)
    def mstep(self, m, xs): return m.step(*xs)


class UReLU(Unit):
    def cfg(self): return st.fixed_dictionaries({"depth": st.integers(2, 6)})
    def deep(self): return st.fixed_dictionaries({"depth": st.integers(6, 11)})
    def build(self, c, shape, S): return FSUReLU({"depth": c["depth"]}, sw(S))
    def model(self, c, shape): return M.ReLU(c["depth"], shape)


class UHardsigmoid(Unit):
    keys = {"scale": st.sampled_from([2, 2, 3, 1, None]), "dima": st.integers(0, 1), "entry": st.sampled_from([2, None, 3])}     # (x+1)/2 whatever these say
    def cfg(self): return st.fixed_dictionaries(dict(self.keys, mode=mode_names(), depth=st.integers(5, 10)))
    def deep(self): return st.fixed_dictionaries(dict(self.keys, mode=mode_names(), depth=st.integers(8, 12)))
    def build(self, c, shape, S): return FSUHardsigmoid(dict(c), sw(fit(S, c["depth"])))
    def model(self, c, shape): return M.Uni2Bi(8, shape)


class UHardtanh(Unit):
    uses_b = False
    def build(self, c, shape, S): return FSUHardtanh()
    class _Id:
        def step(self, x): return x
    def model(self, c, shape): return self._Id()


class UJKFF(Unit):
    nin = 2
    uses_b = False
    def build(self, c, shape, S): return JKFF(sw(S))
    def model(self, c, shape): return M.JKFF(shape)


class UShiftReg(Unit):
    nout = 2
    uses_b = False
    def cfg(self): return st.integers(1, 16).flatmap(lambda e: st.fixed_dictionaries({"entry": st.just(e), "index": st.integers(0, e - 1)}))
    def deep(self): return st.integers(17, 256).flatmap(lambda e: st.fixed_dictionaries({"entry": st.just(e), "index": st.integers(0, e - 1)}))
    def build(self, c, shape, S): return (ShiftReg({"entry": c["entry"]}, sw(S)), c["index"])
    def step(self, m, xs): return m[0](xs[0], index=m[1])
    def model(self, c, shape): return (M.ShiftReg(c["entry"], shape), c["index"])
    def mstep(self, m, xs):
        o, n = m[0].r[m[1]].copy(), m[0].count()
        m[0].push(xs[0])
        return o, n


UNITS = {"SkewedSync": USkewedSync(), "Bi2Uni": UBi2Uni(), "Uni2Bi": UUni2Bi(), "FSUAdd": UAdd(), "FSUMulStatic": UMulStatic(),
         "FSUMulInStream": UMulIn(), "CORDIV": UCordiv(), "FSUDiv": UDiv(), "FSUSqrt": USqrt(), "FSUSignAbs": USignAbs(), "FSUReLU": UReLU(),
         "FSUHardsigmoid": UHardsigmoid(), "FSUHardtanh": UHardtanh(), "JKFF": UJKFF(), "ShiftReg": UShiftReg()}
