import numpy as np
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check


def bi2uni(case, bits, outs):
    # while the counter has never clipped, the ones output are the running maximum of (2*ones - cycles), floored at 0
    x, o = bits[0].astype(np.int64), outs[0]
    lim = 2 ** (case["c"]["depth"] - 2)
    s = np.cumsum(2 * x - 1, 0)
    emitted = np.cumsum(o, 0)
    want = np.maximum(np.maximum.accumulate(s, 0), 0)
    clipped = np.maximum.accumulate((s - want) < -lim, 0)
    bad = (emitted != want) & ~clipped
    if bad.any():
        fail("at cycle %d the output holds %d ones, the input is worth %d" % (
            np.argwhere(bad)[0][0], emitted[bad][0], want[bad][0]))
    return ["clipped"] if clipped.any() else []


def uni2bi(case, bits, outs):
    n = np.arange(1, case["T"] + 1).reshape([-1] + [1] * len(case["shape"]))
    want = (np.cumsum(bits[0].astype(np.int64), 0) + n) // 2
    if not np.array_equal(np.cumsum(outs[0], 0), want):
        fail("the bipolar output does not hold floor((ones + cycles) / 2) ones at every cycle")


PROP = Prop("C06",
            "Random depth, shape, dtypes, length and stream kind; the real converter against a counter model at every cycle, plus the closed form of "
            "the number of ones output. Non-trivial: 4 or more cycles of a stream holding both bit values.",
            [Check("bi2uni_long", long_cases("Bi2Uni"), model_check("Bi2Uni", bi2uni), 64),
             Check("uni2bi_long", long_cases("Uni2Bi"), model_check("Uni2Bi", uni2bi), 64),
             Check("bi2uni", unit_cases("Bi2Uni"), model_check("Bi2Uni", bi2uni), 1000),
             Check("uni2bi", unit_cases("Uni2Bi"), model_check("Uni2Bi", uni2bi), 800)],
            ["Counter depth 3 or more (bipolar to unipolar) and 4 or more (unipolar to bipolar), as in the units that use them."])
