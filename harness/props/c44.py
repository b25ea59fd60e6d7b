from hypothesis import strategies as st
import numpy as np
from harness.core import Prop, Check
from harness.rtl import Rtl, decided, compare, cases, bits
from harness import rtlmodels as R

S = "kernel/sqrt/"
UNITS = [S + x + ".sv" for x in ("BISQRT_S_JK_U", "BISQRT_S_JK_B", "BISQRT_S_IS_U", "BISQRT_S_IS_B", "BISQRT_O_U", "BISQRT_O_B", "GSQRT_U", "GSQRT_B")] + [
    "kernel/old/sqrt/sqrtJK.sv", "kernel/old/jkdivbisqrt/jkdivbisqrt.sv", "kernel/old/gsqrt/gsqrt4b.sv", "kernel/old/gsqrt/gsqrt5b.sv"]


@decided
def fn(c):
    u, dep = c["unit"], c["dep"]
    b = bits(c, 1)[:, 0]
    log = max(1, (dep - 1).bit_length())
    par, n, extra = {}, dep, []
    bi = u.endswith("_B.sv")
    if "_JK_" in u:
        n = 0
        cd = max(2, c["cnt"])
        par = {"DEP": cd} if bi else {}
        m = R.SqrtJK(cd if bi else None)
    elif "_IS_" in u:
        par, m = {"DEP": dep, "DEPLOG": log}, R.SqrtIS(dep, bi)
        extra = ["stream/shuffle/Bi2Uni.sv"] if bi else []
    elif "BISQRT_O" in u:
        cd = max(3, c["cnt"])
        par, m = {"DEP": cd, "DEP_SR": dep, "DEPLOG_SR": log}, R.SqrtO(cd, dep, bi)
    elif "GSQRT" in u:
        par, n, m = {"DEP": c["cnt"]}, 2 ** c["cnt"], R.Gaines(c["cnt"], "sqrtb" if bi else "sqrt")
    elif "gsqrt" in u:
        n, m = 2 ** int(u[-5]), R.Gaines(int(u[-5]), "sqrt", True)
    else:
        n, m = 0, R.SqrtOld()
    rn = np.random.default_rng(c["gseed"]).integers(0, max(n, 1), c["T"])
    r = Rtl(u, params=par, extra=extra, seed=c["gseed"])
    nt = compare(c, r, m, lambda k: dict({"in": int(b[k])}, **({"randNum": int(rn[k])} if n else {})), c["T"], ["out"], "%s %s" % (u, par))
    return {"nontrivial": nt, "labels": [u.rsplit("/", 1)[1]]}


PROP = Prop("C44",
            "The RTL square roots with history depths 1 to 6 and counters of 2 to 6 bits, random, bursty and swinging inputs, random number inputs, registers powered up at "
            "random, reset also in the middle; simulated RTL against history models at every cycle. Non-trivial: the output changes.",
            [Check("model", cases(UNITS, 400, dep=st.integers(1, 6), cnt=st.integers(2, 6)), fn, 2500)],
            ["The RTL is run by harness/sv.py, a two-state simulator of the subset used here; a module outside the subset is reported as not decided.",
             "The bipolar roots are compared until a converter inside them leaves its counter."])
