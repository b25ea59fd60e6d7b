import re
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.rtl import Rtl, find, decided, compare, cases, bits
from harness import rtlmodels as R

MAIN = find("stream/old/SobolRNGs/*.sv", "stream/old/*/SobolRNGDim1.sv")
COPIES = find("kernel/old/*/SobolRNGDim1.sv", "kernel/old/MAC16/*/SobolRNGDim1_*.sv")


@decided
def sobol(c):
    r = Rtl(c["unit"], seed=c["gseed"])
    name = c["unit"].rsplit("/", 1)[1]
    m = re.search(r"_(\d+)b", name)
    w = int(m.group(1)) if m else r.width("sobolSeq")
    if r.width("sobolSeq") != w:
        fail("%s: %d bits wide, expected %d" % (c["unit"], r.width("sobolSeq"), w))
    T = c["T"] if c["full"] == 0 else min(2 ** w + c["T"] % 40, 1100)
    en = bits(c, 1, T)[:, 0] if c["full"] != 2 else [1] * T
    nt = compare(c, r, R.Sobol(w), lambda k: {"enable": int(en[k])}, T, ["sobolSeq"], c["unit"])
    return {"nontrivial": nt, "labels": ["width %d" % w, "whole period" if T > 2 ** w and sum(en) >= 2 ** w else "part"]}


@decided
def counters(c):
    u = c["unit"]
    if "Halton" in u:
        b = int(u[-4])
        d = {2: 8, 3: 5, 5: 3}[b]
        r = Rtl(u, seed=c["gseed"], extra=[u.replace("HaltonSeq%d.sv" % b, "ModCnt%d.sv" % b)], rst="rst")
        m, o, n = R.Halton(b, d, 0 if b == 2 else 1), "out", b ** d
    else:
        r = Rtl(u, seed=c["gseed"])
        m, o, n = R.Gray(r.width("grayOutBin")), "grayOutBin", 1 << r.width("grayOutBin")
    T = c["T"]
    nt = compare(c, r, m, lambda k: {}, T, [o], u)
    return {"nontrivial": nt, "labels": [u.rsplit("/", 1)[1], "whole period" if T > n else "part"]}


HAL = ["stream/old/HaltonSeq%d/HaltonSeq%d.sv" % (b, b) for b in (2, 3, 5)]
PROP = Prop("C41",
            "Every Sobol generator module under hw (3 to 10 bits and its copies beside the kernels), random enable patterns, up to a whole period and beyond, "
            "Halton and Gray generators, registers powered up at random, reset also in the middle; simulated RTL against digit-reversal and Gray-code models at every "
            "cycle. Non-trivial: the output changes.",
            [Check("sobol", cases(MAIN or ["none"], 300, full=st.integers(0, 2)), sobol, 700),
             Check("copies", cases(COPIES or ["none"], 300, full=st.integers(0, 2)), sobol, 700),
             Check("counters", cases(HAL + ["stream/old/GrayCode/grayCode.sv"] * 2, 600), counters, 600)],
            ["The RTL is run by harness/sv.py, a two-state simulator of the subset used here; a module outside the subset is reported as not decided.",
             "Beyond the first period the Sobol register starts over from its last point; only that is specified there."])
