from hypothesis import strategies as st
import numpy as np
from harness.core import Prop, Check
from harness.rtl import Rtl, decided, compare, cases, bits
from harness import rtlmodels as R

D = "kernel/div/"
UNITS = [D + x + ".sv" for x in ("CORDIV_kernel", "ISCBDIV_U", "ISCBDIV_B", "GDIV_U", "GDIV_B")] + [
    "kernel/old/cordiv/cordiv.sv", "kernel/old/gdiv/gdiv4b.sv", "kernel/old/gdiv/gdiv5b.sv"]


class OldCordiv:
    """The register keeps the quotients of cycles whose divisor was 1; select 0 is the latest."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.h = [0, 0]

    def step(self, srSel, dividend, divisor):
        s = self.h[srSel]
        q = dividend if divisor else s
        if divisor:
            self.h = [q, self.h[0]]
        return {"quotient": q, "srOut": s}


@decided
def fn(c):
    u, dep = c["unit"], c["dep"]
    b = bits(c, 2)
    rnd = np.random.default_rng(c["gseed"])
    par, sel, n = {}, "randNum", dep
    outs = ["quotient"]
    log = max(1, (dep - 1).bit_length())
    if "CORDIV" in u:
        par, m = {"DEP": dep, "DEPLOG": log}, R.Cordiv(dep)
    elif u.endswith("ISCBDIV_U.sv"):
        par, m = {"DEP_KERNEL": dep, "DEPLOG_KERNEL": log, "DEP_SYNC": c["sync"]}, R.IscbdivU(dep, c["sync"])
    elif u.endswith("ISCBDIV_B.sv"):
        par = {"DEP_KERNEL": dep, "DEPLOG_KERNEL": log, "DEP_SYNC": c["sync"], "DEP_ABS": c["abs"]}
        m = R.IscbdivB(c["abs"], dep, c["sync"])
    elif "GDIV" in u:
        par, n = {"DEP": c["cnt"]}, 2 ** c["cnt"]
        m = R.Gaines(c["cnt"], "divb" if "_B" in u else "div")
    elif "gdiv" in u:
        w = int(u[-5])
        n, m = 2 ** w, R.Gaines(w, "div", True)
    else:
        m, n, sel, outs = OldCordiv(), 2, "srSel", ["quotient", "srOut"]
    rn = rnd.integers(0, n, c["T"])
    r = Rtl(u, params=par, seed=c["gseed"])
    nt = compare(c, r, m, lambda k: {sel: int(rn[k]), "dividend": int(b[k, 0]), "divisor": int(b[k, 1])}, c["T"], outs, "%s %s" % (u, par))
    return {"nontrivial": nt, "labels": [u.rsplit("/", 1)[1]]}


PROP = Prop("C43",
            "The RTL dividers with history depths 1 to 4, counters of 2 to 6 bits and synchroniser depths 1 to 4, random, bursty and swinging dividend and divisor, "
            "random number inputs, registers powered up at random, reset also in the middle; simulated RTL against history models at every cycle. Non-trivial: the quotient changes.",
            [Check("model", cases(UNITS, 400, dep=st.integers(1, 4), sync=st.integers(1, 4), abs=st.integers(2, 5), cnt=st.integers(2, 6)), fn, 2500)],
            ["The RTL is run by harness/sv.py, a two-state simulator of the subset used here; a module outside the subset is reported as not decided.",
             "The bipolar divider is compared until a converter inside it leaves its counter.",
             "CORDIV_kernel_IS_U/B, cordivall and the old iscbdiv are not claimed (see DESIGN.md)."])
