from hypothesis import strategies as st
from harness.core import Prop, Check
from harness.rtl import Rtl, decided, compare, cases, bits
from harness import rtlmodels as R

SH = "stream/shuffle/"
UNITS = {SH + "SkewedSync.sv": ("in0 in1", "out0 out1"), SH + "Uni2Bi.sv": ("in", "out"), SH + "Bi2Uni.sv": ("in", "out"),
         "kernel/sign/Sign.sv": ("value", "sign"), "kernel/abs/Abs.sv": ("value", "sign abs"), "kernel/jkff/JKFF.sv": ("J K", "out"),
         "stream/shuffle_int/SkewedSyncInt.sv": ("in0 in1", "out0 out1")}


@decided
def fn(c):
    u, dep = c["unit"], c["dep"]
    ins, outs = (x.split() for x in UNITS[u])
    b = bits(c, len(ins))
    par = {}
    if u.endswith("SkewedSync.sv"):
        m, par = R.SkewedSync(dep), {"DEP": dep}
    elif u.endswith("Int.sv"):
        bw = min(c["bw"], dep)
        par = {"DEP": dep, "BWIN": bw}
        m = R.SkewedSyncInt(dep)
        b[:, 0] = (bits(c, bw + 1)[:, 1:] << range(bw)).sum(1)
    elif u.endswith("Uni2Bi.sv"):
        m = R.Uni2Bi()
    elif u.endswith("Bi2Uni.sv"):
        dep = max(dep, 2)
        m, par = R.Bi2Uni(dep), {"DEP": dep}
    elif u.endswith("JKFF.sv"):
        m = R.JKFF()
    else:
        dep = max(dep, 2)
        m, par = R.SignAbs(dep), {"DEP": dep}
    r = Rtl(u, params=par, seed=c["gseed"])
    nt = compare(c, r, m, lambda k: {n: int(b[k, j]) for j, n in enumerate(ins)}, c["T"], outs, "%s %s" % (u, par))
    return {"nontrivial": nt, "labels": [u.rsplit("/", 1)[1]] + (["wrapped"] if not getattr(m, "ok", True) else [])}


PROP = Prop("C42",
            "The RTL converters, synchronisers, sign, magnitude and JK flip-flop with counter depths 1 to 6, random, bursty, nearly constant and swinging streams, registers "
            "powered up at random, reset also in the middle; simulated RTL against integer history models at every cycle. Non-trivial: an output changes.",
            [Check("model", cases(sorted(UNITS), 600, dep=st.integers(1, 6), bw=st.integers(1, 4)), fn, 2500)],
            ["The RTL is run by harness/sv.py, a two-state simulator of the subset used here; a module outside the subset is reported as not decided.",
             "Bi2Uni is compared until its deficit leaves the counter."])
