from harness.core import Prop, Check
from harness.streamcheck import unit_cases, long_cases, model_check
from harness.accuracy import sqrt_cases, sqrt_accuracy

PROP = Prop("C13",
            "model: random mode, method, register sizes, shape, dtypes, length and stream; real unit against a composed model at every cycle. accuracy: "
            "full-period streams of encoded values, output value against the square root. Non-trivial: 4 or more cycles of a stream holding both bit "
            "values; for accuracy, a value strictly between 0 and 1.",
            [Check("long", long_cases("FSUSqrt"), model_check("FSUSqrt"), 64),
             Check("model", unit_cases("FSUSqrt"), model_check("FSUSqrt"), 900),
             Check("accuracy", sqrt_cases(), sqrt_accuracy, 100)])
