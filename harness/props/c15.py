import numpy as np
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check
from harness import accuracy


def extra(case, bits, outs):
    x, o = bits[0], outs[0]
    if (o < x).any():
        fail("a 1 of the input came out as 0")
    # a counter that is never let below half - 1 bounds how far the output can fall below bipolar 0
    half = 2 ** (case["c"]["depth"] - 1)
    bal = np.cumsum(2 * o - 1, 0)
    drop = bal - np.maximum.accumulate(np.maximum(bal, 0), 0)
    if bal.min() < -1 or drop.min() < -half:
        fail("the output is %d zeros ahead over some window; a depth-%d counter allows %d" % (-drop.min(), case["c"]["depth"], half))
    return ["forced_ones"] if (o > x).any() else []


PROP = Prop("C15",
            "model: random depth, shape, dtypes, length and stream; real ReLU against a counter model at every cycle. accuracy: full-period streams of "
            "encoded values, output value against max(0, value). Non-trivial: 4 or more cycles of a stream holding both bit values.",
            [Check("long", long_cases("FSUReLU"), model_check("FSUReLU", extra), 64),
             Check("model", unit_cases("FSUReLU"), model_check("FSUReLU", extra), 1000),
             Check("accuracy", accuracy.relu_cases(), accuracy.relu_accuracy, 300)])
