import numpy as np
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check


def extra(case, bits, outs):
    a, b = bits
    o = outs[0]
    if not np.array_equal(o[b == 1], a[b == 1]):
        fail("with the divisor bit at 1 the quotient bit is not the dividend bit")
    return ["replayed"] if (b == 0).any() else []


PROP = Prop("C11",
            "Random register size, sequence, shape, dtypes, length and pair of streams; the real divider kernel against a shift-register model at every "
            "cycle. Non-trivial: 4 or more cycles with both bit values, and the divisor is 0 at some cycle.",
            [Check("long", long_cases("CORDIV"), model_check("CORDIV", extra), 64),
             Check("model", unit_cases("CORDIV"), model_check("CORDIV", extra, lambda c, b, o: bool((b[1] == 0).any())), 1200)],
            ["Register size is a power of two (it is addressed by a random number of log2(size) bits)."])
