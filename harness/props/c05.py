import numpy as np
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check


def extra(case, bits, outs):
    a, b = bits
    top = 2 ** case["c"]["depth"] - 1
    if not np.array_equal(outs[1], b):
        fail("the reference stream is not passed through unchanged")
    held = np.cumsum(a.astype(np.int64), 0) - np.cumsum(outs[0], 0)
    if held.min() < 0:
        fail("at cycle %d more ones were output than were input" % int(np.argwhere(held < 0)[0][0]))
    if held.max() > top:
        fail("%d ones are held, a depth-%d counter holds %d" % (held.max(), case["c"]["depth"], top))
    return (["saturated"] if held.max() == top else []) + (["drained"] if (np.diff(held, axis=0) < 0).any() else [])


PROP = Prop("C05",
            "Random depth, tensor shape, dtypes, stream length and pair of streams (Bernoulli, bursts, runs, periodic, near-constant); the real "
            "synchroniser and a counter model step together. Non-trivial: 4 or more cycles of a stream holding both bit values, and a 1 was held back.",
            [Check("long", long_cases("SkewedSync"), model_check("SkewedSync", extra), 64),
             Check("model", unit_cases("SkewedSync"),
                   model_check("SkewedSync", extra, lambda c, b, o: bool((np.cumsum(b[0].astype(int), 0) != np.cumsum(o[0], 0)).any())), 1200)],
            ["The synchroniser starts empty and one instance sees one tensor shape."])
