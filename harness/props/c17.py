import numpy as np
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check


def extra(case, bits, outs):
    j, k = bits
    q = outs[0]
    p = np.concatenate([np.zeros_like(q[:1]), q[:-1]], 0)
    for (a, b), want in {(0, 0): p, (0, 1): 0 * p, (1, 0): 0 * p + 1, (1, 1): 1 - p}.items():
        m = (j == a) & (k == b)
        if not np.array_equal(q[m], want[m]):
            fail("J=%d K=%d does not %s the state" % (a, b, {(0, 0): "hold", (0, 1): "reset", (1, 0): "set", (1, 1): "toggle"}[(a, b)]))
    return ["toggled"] if ((j == 1) & (k == 1)).any() else []


PROP = Prop("C17",
            "Random shape, dtype, length and pair of streams; the truth table of the flip-flop at every cycle and element. Non-trivial: 4 or more "
            "cycles of a stream holding both bit values.",
            [Check("long", long_cases("JKFF"), model_check("JKFF", extra), 40),
             Check("truth_table", unit_cases("JKFF"), model_check("JKFF", extra), 1200)])
