import numpy as np
from harness.core import Prop, Check, fail
from harness.streamcheck import unit_cases, long_cases, model_check


def extra(case, bits, outs):
    c = case["c"]
    if c["mode"].lower() == "unipolar" and (outs[0] > bits[0]).any():
        fail("the product holds a 1 where the first input holds 0")
    return ["window_full"] if case["T"] > 2 ** c["width"] else []


PROP = Prop("C10",
            "Random width, mode, sequence, shape, dtypes, length and pair of streams; the real in-stream multiplier against a sliding-window model at "
            "every cycle. Non-trivial: both bit values occur and the window has been refilled at least once.",
            [Check("long", long_cases("FSUMulInStream"), model_check("FSUMulInStream", extra), 64),
             Check("model", unit_cases("FSUMulInStream"), model_check("FSUMulInStream", extra, lambda c, b, o: c["T"] > 2 ** c["c"]["width"]), 1200)],
            ["The window starts with alternating bits, i.e. at value one half."])
