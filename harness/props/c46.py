from hypothesis import strategies as st
import numpy as np
import torch
from UnarySim.stream import RNG, SkewedSync, Bi2Uni, Uni2Bi
from UnarySim.kernel import FSUAdd, FSUMul, FSUDiv, FSUSqrt, FSUSignAbs, JKFF
from harness.core import Prop, Check, fail
from harness.rtl import Rtl, find, decided, cases, bits

SW = {"stype": torch.float, "btype": torch.float, "rtype": torch.float}
K, SH, O = "kernel/", "stream/shuffle/", "kernel/old/"
MULS = [O + "uMUL_uni/uMUL_uni.sv", O + "uMUL_bi/uMUL_bi.sv"] + find(O + "MAC16/*/uMUL_*.sv")


def one(x):
    return int(x.reshape(-1)[0])


def bit(v):
    return torch.tensor([float(v)])


class Pair:
    """One unit in both worlds.  RTL outputs `outs`; sim(k) gives the simulator's, `late` cycles earlier."""
    late, par, ins, outs, extra = 0, {}, ["in"], ["out"], {}

    def __init__(self, c):
        self.c = c
        self.make()

    def inputs(self, b):
        return {n: int(v) for n, v in zip(self.ins, b)}


class PSync(Pair):
    ins, outs = ["in0", "in1"], ["out0", "out1"]

    def make(self):
        self.par = {"DEP": self.c["dep"]}
        self.m = SkewedSync({"depth": self.c["dep"]}, SW)

    def sim(self, b):
        return [one(v) for v in self.m(bit(b[0]), bit(b[1]))]


class PB2U(Pair):
    late = 1

    def make(self):
        d = max(3, self.c["dep"])
        self.par, self.m = {"DEP": d}, Bi2Uni({"depth": d}, SW)
        self.lim, self.acc = 2 ** (d - 2), 0

    def sim(self, b):
        self.acc += 2 * int(b[0]) - 1
        if self.acc < -self.lim:      # the simulator's counter clips here, the RTL's later
            return None
        o = one(self.m(bit(b[0])))
        self.acc -= o
        return [o]


class PU2B(Pair):
    late = 1

    def make(self):
        self.m = Uni2Bi({"depth": 4}, SW)

    def sim(self, b):
        return [one(self.m(bit(b[0])))]


class PJK(Pair):
    late, ins = 1, ["J", "K"]

    def make(self):
        self.m = JKFF(SW)

    def sim(self, b):
        return [one(self.m(bit(b[0]), bit(b[1])))]


class PSign(Pair):
    late, ins, outs = 1, ["value"], ["sign"]

    def make(self):
        d = max(2, self.c["dep"])
        self.par, self.m = {"DEP": d}, FSUSignAbs({"depth": d}, SW)

    def sim(self, b):
        return [one(self.m(bit(b[0]))[0])]


class PSqrt(Pair):
    def make(self):
        self.m = FSUSqrt({"mode": "unipolar", "jk_trace": True, "emit": False, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 1}, SW)

    def sim(self, b):
        return [one(self.m(bit(b[0])))]


class PDiv(Pair):
    ins, outs = ["dividend", "divisor"], ["quotient"]

    def make(self):
        self.par = {"DEP_KERNEL": 1, "DEPLOG_KERNEL": 1, "DEP_SYNC": self.c["dep"]}
        self.m = FSUDiv({"depth_sa": 3, "depth_ss": self.c["dep"], "entry_kn": 1, "mode": "unipolar", "rng": "Sobol", "dimr": 1}, SW)

    def inputs(self, b):
        return {"dividend": int(b[0]), "divisor": int(b[1]), "randNum": 0}

    def sim(self, b):
        return [one(self.m(bit(b[0]), bit(b[1])))]


class PMul(Pair):
    ins, outs = ["iA"], ["oC"]

    def make(self):
        w = 8
        n = 2 ** w
        self.k = [0, n - 1, 1, n // 2][self.c["gseed"] % 4] if self.c["num"] < 0 else self.c["num"]
        bi = "_bi" in self.c["unit"].rsplit("/", 1)[1]
        v = self.k / n
        self.m = FSUMul(torch.tensor([2 * v - 1 if bi else v]), {"width": w, "mode": "bipolar" if bi else "unipolar", "static": True,
                                                                 "rng": "Sobol", "dimr": 1}, SW)
        self.first, self.used = True, [0, 0]

    def inputs(self, b):
        x = {"iA": int(b[0]), "iB": self.k, "loadB": int(self.first)}
        return x

    def sim(self, b):
        o = one(self.m(bit(b[0])))
        f, self.first = self.first, False
        self.used[int(b[0])] += 1
        if self.used[int(b[0])] > 256:          # the RTL starts its second period at another number
            return None
        return None if f else [o]               # the number is loaded in the first cycle


class PAdd(Pair):
    def make(self):
        u = self.c["unit"]
        self.n = 8 if "8.sv" in u else 16
        ns = "NSADD" in u
        self.late = int(ns)
        self.ins = [str(i) for i in range(self.n)]
        self.m = FSUAdd({"mode": "unipolar", "scale": 1 if ns else None, "dima": 0, "depth": 14, "entry": None}, SW)
        self.ns, self.s, self.e = ns, 0, 0

    def inputs(self, b):
        return {"in": sum(int(v) << i for i, v in enumerate(b))}

    def sim(self, b):
        o = one(self.m(torch.tensor(np.asarray(b, dtype=np.float32))))
        self.s += int(sum(b))
        if self.ns and 2 * self.s >= 1024:      # the RTL counts within ten bits
            return None
        return [o]


PAIRS = {SH + "SkewedSync.sv": PSync, SH + "Bi2Uni.sv": PB2U, SH + "Uni2Bi.sv": PU2B, K + "jkff/JKFF.sv": PJK, K + "sign/Sign.sv": PSign,
         K + "sqrt/BISQRT_S_JK_U.sv": PSqrt, K + "div/ISCBDIV_U.sv": PDiv, O + "uSADD/uSADD8.sv": PAdd, O + "uSADD/uSADD16.sv": PAdd,
         O + "MAC16/uMAC_uni_nonscaled/uNSADD16.sv": PAdd}


@decided
def fn(c):
    u = c["unit"]
    p = (PAIRS[u] if u in PAIRS else PMul)(c)
    r = Rtl(u, params=p.par, seed=c["gseed"])
    if isinstance(p, PMul) and r.width("iB") != 8:
        fail("%s: operand of %d bits, expected 8" % (u, r.width("iB")))
    b = bits(c, len(p.ins))
    if isinstance(p, PAdd) and p.ns and c["num"] % 2:
        b = (np.random.default_rng(c["gseed"]).random(b.shape) < 0.8 / p.n).astype(int)
    r.reset(c["rticks"])
    want, seen = [None] * p.late, set()
    dead = False
    for k in range(c["T"]):
        got = list(r.cycle(p.outs, **p.inputs(b[k])))
        want.append(None if dead else p.sim(b[k]))
        if want[-1] is None and not isinstance(p, PMul):
            dead = True
        w = want.pop(0)
        if w is not None and got != w:
            fail("%s: RTL gives %s at cycle %d, the simulator %s (%s cycle(s) earlier); inputs so far %s"
                 % (u, dict(zip(p.outs, got)), k, w, p.late, b[:k + 1].tolist()[-12:]))
        seen.add(tuple(got))
    return {"nontrivial": len(seen) > 1, "labels": [u.rsplit("/", 1)[1]]}


@decided
def seq(c):
    u, w = c["unit"], c["w"]
    r = Rtl(u, seed=c["gseed"])
    r.reset(c["rticks"])
    want = RNG({"width": w, "dimr": 1, "rng": "Sobol"}, {"rtype": torch.float})().tolist()
    got = [r.cycle(["sobolSeq"], enable=1)[0] for _ in range(2 ** w)]
    if got != [int(v) for v in want]:
        k = [int(a == b) for a, b in zip(got, want)].index(0)
        fail("%s: number %d is %d, the simulator's is %d" % (u, k, got[k], int(want[k])))
    return {"nontrivial": True, "labels": [u.rsplit("/", 1)[1]]}


SEQ = [("stream/old/SobolRNGs/SobolRNGDim1_%db.sv" % w, w) for w in range(3, 11)] + [("stream/old/SobolRNG/SobolRNGDim1.sv", 8)]
PROP = Prop("C46",
            "Converters, synchroniser, sign, flip-flop, roots, dividers, multipliers and adders that exist both as Python unit and as RTL: counter depths 1 to 6, any 8-bit "
            "constant, random, bursty and swinging streams of up to 400 cycles, registers powered up at random; the simulated RTL and the Python unit run side by side and are "
            "compared at every cycle. Non-trivial: the output changes.",
            [Check("pair", cases(sorted(PAIRS) + MULS[:2] * 2 + MULS, 400, dep=st.integers(1, 6), num=st.integers(-1, 255)), fn, 2000),
             Check("sequence", st.sampled_from(SEQ).flatmap(lambda s: st.fixed_dictionaries(
                 {"unit": st.just(s[0]), "w": st.just(s[1]), "gseed": st.integers(0, 2 ** 20), "rticks": st.integers(0, 2)})), seq, 120)],
            ["The RTL is run by harness/sv.py, a two-state simulator of the subset used here; a module outside the subset is reported as not decided.",
             "Registered RTL outputs come one cycle after the simulator's; pairs are compared until a counter of limited depth clips or wraps on one side only, or the RTL's number generator starts its second period."])
