"""Long runs: the exact checks of streams, layers and monitors, for more cycles than 15 bits count."""
from hypothesis import strategies as st
from harness.core import Prop, Check
from harness.gen import streams, LONG_KINDS
from harness.streamcheck import long_cases, model_check
from harness.units import UNITS
from harness.props import c19, c20, c28, c32, c33, c34

LO, HI = 32780, 33600
LONGER = st.integers(2 * LO + 20, 2 * HI)      # for monitors, of which 2**16 cycles are cheap
LEN, X = st.integers(LO, HI), streams(LONG_KINDS)


def over(d, **kw):
    """Cases of d with some entries drawn anew."""
    return st.tuples(d, st.fixed_dictionaries(kw)).map(lambda p: dict(p[0], **p[1]))


PAIR = dict(c32.BASE, shape=st.just([3]), T=LEN, x=X, y=X, rel=st.sampled_from(["independent", "noisy", "inverse", "subset"]))
SUBJECTS = {n: (long_cases(n, LO, HI), model_check(n)) for n in UNITS}
SUBJECTS.update({
    "FSULinear": (over(c19.cases(), T=LEN, x=X, B=st.just(1), width=st.integers(1, 11)), c19.linear),
    "FSUConv2d": (over(c20.cases().filter(lambda c: c["g"]["size"][0] * c["g"]["size"][1] <= 12), T=LEN, x=X, B=st.just(1), width=st.integers(1, 11)), c20.conv),
    "FSUMGUCell": (over(c28.cases(), T=LEN, x=X, h=X, B=st.just(1)), c28.fsu),
    "Correlation": (st.fixed_dictionaries(PAIR), c32.pair),
    "ProgError": (st.fixed_dictionaries(dict(c33.LONG, shape=st.just([3]), T=LONGER)), c33.run_case),
    "Stability": (st.fixed_dictionaries(dict(c34.LONG, shape=st.just([3]), T=LONGER)), c34.run_case)})
NAMES = sorted(SUBJECTS)


def cases():
    return st.sampled_from(NAMES + ["ProgError", "Stability"]).flatmap(lambda n: st.fixed_dictionaries({"subject": st.just(n), "case": SUBJECTS[n][0], "gseed": st.just(0)}))


def run(c):
    out = SUBJECTS[c["subject"]][1](c["case"])
    return {"nontrivial": out["nontrivial"], "labels": [c["subject"]]}


PROP = Prop("C51",
            "A random unit, stream layer, cell or monitor with a random configuration, run for about 33000 cycles (monitors of one stream: 66000) against its exact model (the checks of C04-C20, C28, "
            "C32-C34), every cycle. Non-trivial: as there.",
            [Check("runs", cases(), run, 36, 864)],
            ["Histories of a little more than 2**15 cycles (monitors of one stream: 2**16), of few elements."])
