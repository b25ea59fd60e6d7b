from hypothesis import strategies as st
import numpy as np
from harness.core import Prop, Check, fail
from harness.rtl import Rtl, find, decided, compare, cases, bits, COMMON
from harness import rtlmodels as R

O = "kernel/old/"
MUL = [O + "%s/%s.sv" % (x, x) for x in ("uMUL_uni", "uMUL_bi", "tMUL_uni", "tMUL_bi", "gMUL_uni", "gMUL_bi")]
MUL8 = find(O + "MAC16/*/uMUL_*.sv")              # copies that include their generator under another name


def operands(c, w, n, loads):
    """numbers and load pulses: mostly loaded once, sometimes again"""
    rnd = np.random.default_rng(c["gseed"])
    special = [0, 1, 2 ** w - 1, 2 ** (w - 1)]
    num = lambda: int(rnd.choice(special)) if rnd.random() < 0.25 else int(rnd.integers(0, 2 ** w))
    vals = [[num() for _ in range(c["T"])] for _ in range(n)]
    ld = []
    for _ in range(loads):                             # the first load comes within four cycles
        s = int(rnd.integers(0, 5))
        ld.append([int(k in (s, s + 1) or rnd.random() < c["reload"] / 100) for k in range(c["T"])])
    return vals, ld


@decided
def mul(c):
    u = c["unit"]
    r = Rtl(u, seed=c["gseed"])
    w = r.width("iB")
    a = bits(c, 1)[:, 0]
    name = u.rsplit("/", 1)[1]
    bi = "_bi" in name
    vals, ld = operands(c, w, 2, 2)
    if name[0] == "u":
        m, drive, outs = R.UMul(w, bi), lambda k: {"iA": int(a[k]), "iB": vals[1][k], "loadB": ld[1][k]}, ["oC"]
    else:
        m = (R.TMul if name[0] == "t" else R.GMul)(w, bi)
        drive = lambda k: {"iA": vals[0][k], "iB": vals[1][k], "loadA": ld[0][k], "loadB": ld[1][k]}
        outs = ["oC", "stop"] if name[0] == "t" else ["oC"]
    nt = compare(c, r, m, drive, c["T"], outs, u)
    return {"nontrivial": nt, "labels": [name]}


class Popcount:
    def reset(self):
        pass

    def step(self, **k):
        return {"out": bin(k["in"]).count("1")}


class Late:
    """A function of the inputs of `lat` cycles ago; `zero` before that."""
    def __init__(self, f, lat, zero):
        self.f, self.lat, self.zero = f, lat, zero
        self.reset()

    def reset(self):
        self.q = [self.zero] * self.lat

    def step(self, **k):
        if not self.lat:
            return self.f(**k)
        self.q.append(self.f(**k))
        return self.q.pop(0)


class Adder:
    def __init__(self, a):
        self.a = a

    def reset(self):
        self.a.reset()

    def step(self, **k):
        return {"out": self.a.step(bin(k["in"]).count("1"))}


class Mac:
    def reset(self):
        self.c = 0

    def step(self, iA, iB, iC, acc_en):
        o = self.c
        self.c = (iA * iB + (o if acc_en else iC)) & 0xFFFFF
        return {"oC": o}


class Buf:
    def reset(self):
        self.m = {}

    def step(self, rd_en, rd_addr, wr_en, wr_addr, iData):
        o = self.m.get(rd_addr, 0)
        if wr_en:
            self.m[wr_addr] = iData
        return {"oData": o}


P = O + "parallelCnt/parallelCnt%d.sv"
NS = O + "MAC16/uMAC_%s_nonscaled/uNSADD16.sv"
# unit -> (model, outputs)
ADD = {O + "uSADD/uSADD8.sv": (lambda: Adder(R.ScaledAdd(8)), ["out"]),
       O + "uSADD/uSADD16.sv": (lambda: Adder(R.ScaledAdd(16)), ["out"]),
       O + "MAC16/uMAC_uni_scaled/uSADD16.sv": (lambda: Adder(R.ScaledAdd(16)), ["out"]),
       O + "uNSADD/uNSADD8.sv": (lambda: Adder(R.NonScaledAdd(7)), ["out"]),
       O + "uNSADD/uNSADD16.sv": (lambda: Adder(R.NonScaledAdd(15)), ["out"]),
       NS % "bi": (lambda: Adder(R.NonScaledAdd(15)), ["out"]),
       NS % "uni": (lambda: Adder(R.NonScaledAdd(0)), ["out"]),
       P % 7: (Popcount, ["out"]), P % 15: (Popcount, ["out"]),
       O + "muxADD/muxADD.sv": (lambda: Late(lambda **k: {"out": k["in"] >> k["sel"] & 1}, 1, {"out": 0}), ["out"]),
       O + "orADD/orADD.sv": (lambda: Late(lambda **k: {"out": int(k["in"] > 0)}, 1, {"out": 0}), ["out"]),
       O + "add/add16.sv": (lambda: Late(lambda **k: {"out": k["in"] >> k["randNum"] & 1}, 0, None), ["out"]),
       O + "add/add2.sv": (lambda: Late(lambda **k: {"out": k["in"] >> k["randNum"] & 1}, 0, None), ["out"]),
       O + "add/fulladder.sv": (lambda: Late(lambda a, b, ci: {"sum": (a + b + ci) & 1, "co": (a + b + ci) >> 1}, 0, None), ["sum", "co"]),
       O + "mul/mul.sv": (lambda: Late(lambda **k: {"out": int(k["in"] == 3)}, 0, None), ["out"]),
       O + "add/fixed_point_add16bit.sv": (lambda: Late(lambda a, b: {"c": a + b}, 1, {"c": 0}), ["c"]),
       O + "mul/fixed_point_mul16bit.sv": (lambda: Late(lambda a, b: {"c": a * b}, 1, {"c": 0}), ["c"]),
       O + "bADD/bADD.sv": (lambda: Late(lambda iA, iB: {"oC": iA + iB}, 2, {"oC": 0}), ["oC"]),
       O + "bMUL/bMUL.sv": (lambda: Late(lambda iA, iB: {"oC": iA * iB}, 2, {"oC": 0}), ["oC"]),
       O + "MAC16/bMAC_SIMD/mac.sv": (Mac, ["oC"]), O + "MAC16/bMAC_SIMD/data_buf.sv": (Buf, ["oData"])}
COMB = ("parallelCnt", "add16.sv", "add2.sv", "fulladder", "mul/mul.sv")


@decided
def add(c):
    u = c["unit"]
    mk, outs = ADD[u]
    comb = any(x in u for x in COMB) and "fixed" not in u
    r = Rtl(u, seed=c["gseed"], clk=None if comb else "clk", rst=None if comb else "rst_n")
    ins = [n for n, (d, s) in r.sim.ports.items() if d == "input" and n not in ("clk", "rst_n")]
    W = {n: r.width(n) for n in ins}
    T = c["T"]
    b = bits(c, sum(W.values()))
    rnd = np.random.default_rng(c["gseed"])
    if c["dense"] < 3 and "in" in W and W["in"] > 3:       # the sum of the inputs stays near a level
        b = (rnd.random(b.shape) < [1 / W["in"], 0.5, 0.6][c["dense"]]).astype(int)
    if c["whole"] and c["dense"] < 4:                      # and now and then all inputs, or none, are 1
        h = rnd.random(len(b))
        b[h < 0.1], b[h > 0.95] = 1, 0

    def drive(k):
        x, i = {}, 0
        for n in ins:
            x[n] = sum(int(v) << j for j, v in enumerate(b[k, i:i + W[n]]))
            i += W[n]
        if "rd_addr" in x and c["dense"] < 2:
            x["rd_addr"], x["wr_addr"] = x["rd_addr"] & 1, x["wr_addr"] & 1
        return x

    m = mk()
    if comb:
        m.reset()
        for k in range(T):
            x = drive(k)
            r.set(**x)
            want = m.step(**x)
            for o in outs:
                if r.get(o) != want[o]:
                    fail("%s: output %s is %s, expected %s (inputs %s)" % (u, o, r.get(o), want[o], x))
        nt = T > 1
    else:
        nt = compare(c, r, m, drive, T, outs, u)
    return {"nontrivial": nt, "labels": [u.rsplit("/", 1)[1]]}


MAC = [O + "MAC16/uMAC_%s_%s/uMAC_%s_%s.sv" % (a, s, a, s) for a in ("uni", "bi") for s in ("scaled", "nonscaled")]


class UMac:
    def __init__(self, bi, scaled):
        self.mul = [R.UMul(8, bi) for _ in range(16)]
        self.add = R.ScaledAdd(16) if scaled else R.NonScaledAdd(15 if bi else 0)
        self.reset()

    def reset(self):
        for m in self.mul:
            m.reset()
        self.add.reset()

    def step(self, iA, iB, loadB):
        s = sum(m.step(iA >> i & 1, iB[i], loadB)["oC"] for i, m in enumerate(self.mul))
        return {"oC": self.add.step(s)}


@decided
def mac(c):
    u = c["unit"]
    r = Rtl(u, seed=c["gseed"])
    m = UMac("_bi_" in u, "nonscaled" not in u)
    T = min(c["T"], 150)
    a = bits(c, 16, T)
    rnd = np.random.default_rng(c["gseed"])
    iB = [int(v) for v in rnd.integers(0, [40, 256][c["gseed"] % 2], 16)]

    def drive(k):
        return {"iA": sum(int(v) << j for j, v in enumerate(a[k])), "iB": iB, "loadB": int(k == 0)}
    nt = compare(c, r, m, drive, T, ["oC"], u)
    return {"nontrivial": nt, "labels": [u.rsplit("/", 1)[1]]}


PROP = Prop("C45",
            "The RTL multipliers, adders, counters and multiply-accumulate units under hw/kernel/old: random streams and numbers, loads at random times, sums near zero and "
            "near full scale, registers powered up at random, reset also in the middle; simulated RTL against counting models at every cycle. Non-trivial: an output changes.",
            [Check("mul", cases(MUL + MUL8, 300, reload=st.sampled_from([0, 2, 10, 30])), mul, 1500),
             Check("add", cases(sorted(ADD), 250, dense=st.integers(0, 5), whole=st.booleans()), add, 1800),
             Check("mac", cases(MAC, 150), mac, 120)],
            ["The RTL is run by harness/sv.py, a two-state simulator of the subset used here; a module outside the subset is reported as not decided.",
             "Non-scaled adders are compared until their 10-bit counters would wrap."])
