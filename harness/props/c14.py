import numpy as np
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check


def extra(case, bits, outs):
    x, (s, o) = bits[0], outs
    if not np.array_equal(o, s ^ x):
        fail("the magnitude bit is not the input bit flipped by the sign bit")
    d = case["c"]["depth"]
    lab = []
    # a stream that never strays keeps its sign: replay the counter's own definition from the history alone
    run = np.cumsum(2 * x.astype(np.int64) - 1, 0)
    lo, hi = np.minimum.accumulate(run, 0), np.maximum.accumulate(run, 0)
    inside = (lo >= -2 ** (d - 1)) & (hi <= 2 ** (d - 1) - 1)
    if not np.array_equal(s[inside], (run < 0).astype(np.int64)[inside]):
        fail("the sign differs from the sign of the running bipolar sum, which the counter never saturated on")
    if (~inside).any():
        lab.append("saturated")
    if (np.diff(s, axis=0) != 0).any():
        lab.append("sign_changed")
    return lab


PROP = Prop("C14",
            "Random depth, shape, dtypes, length and stream; the real unit against a saturating counter model at every cycle, and against the sign of the "
            "running sum while unsaturated. Non-trivial: 4 or more cycles of a stream holding both bit values.",
            [Check("long", long_cases("FSUSignAbs"), model_check("FSUSignAbs", extra), 64),
             Check("model", unit_cases("FSUSignAbs"), model_check("FSUSignAbs", extra), 1200)])
