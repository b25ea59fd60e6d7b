from harness.core import Prop, Check
from harness.streamcheck import unit_cases, long_cases, model_check
from harness.accuracy import div_cases, div_accuracy

PROP = Prop("C12",
            "model: random configuration, shape, dtypes, length and pair of streams, real divider against a composed model at every cycle. accuracy: a "
            "quotient of two encoded values, dividend not above divisor in magnitude, over a full period. Non-trivial: 4 or more cycles with both bit "
            "values; for accuracy, a quotient strictly between 0 and 1 in magnitude.",
            [Check("long", long_cases("FSUDiv"), model_check("FSUDiv"), 64),
             Check("model", unit_cases("FSUDiv"), model_check("FSUDiv"), 700),
             Check("accuracy", div_cases(), div_accuracy, 120)],
            ["The accuracy bound holds for |dividend| <= |divisor| and a divisor not close to 0, as the method requires."])
