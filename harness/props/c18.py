import numpy as np
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import t, npy, shapes, lengths, streams, gseeds, make_bits
from harness.units import sw, ST
from harness.util import same, dtype_is
from harness import models as M
from harness.streamcheck import long_cases, model_check
from UnarySim.kernel import ShiftReg


def cases():
    def more(e):
        return st.fixed_dictionaries({
            "entry": st.just(e), "shape": shapes(3, 4), "S": st.sampled_from(ST), "M": st.sampled_from(ST + ["bool", "i64", "f64"]), "x": streams(), "gseed": gseeds,
            "ops": st.lists(st.tuples(st.sampled_from(["push", "push", "masked", "masked_all", "masked_none"]), st.integers(0, e - 1)).map(list),
                            min_size=1, max_size=60)})
    return st.integers(1, 20).flatmap(more)


def fn(c):
    m = ShiftReg({"entry": c["entry"]}, sw([c["S"], "f32", "f32"]))
    ref = M.ShiftReg(c["entry"], c["shape"])
    T = len(c["ops"])
    xs = make_bits(c["x"], T, c["shape"])
    masks = (np.random.default_rng(c["gseed"]).random([T] + c["shape"]) < 0.5).astype(np.int8)
    held = False
    for k, (op, idx) in enumerate(c["ops"]):
        mask = {"push": None, "masked": masks[k], "masked_all": np.ones_like(xs[k]), "masked_none": np.zeros_like(xs[k])}[op]
        args = {} if mask is None else {"mask": t(mask).bool() if c["M"] == "bool" else t(mask, c["M"])}
        if idx or k % 2:
            args["index"] = idx
        else:
            idx = 0
        out, cnt = m(t(xs[k], c["S"]), **args)
        same(out, ref.r[idx], "bit %d of the register at step %d (%s)" % (idx, k, op))
        same(cnt, ref.count(), "ones in the register at step %d (%s)" % (k, op))
        dtype_is(out, c["S"], "bit at step %d" % k)
        ref.push(xs[k], mask)
        held = held or (mask is not None and (mask == 0).any())
    return {"nontrivial": T > c["entry"] and held, "labels": (["wrapped"] if T > c["entry"] else []) + (["held"] if held else [])}


PROP = Prop("C18",
            "Operation sequences of up to 60 plain, masked, fully enabled and disabled shifts with any read index, any entry count up to 20, shape, "
            "dtype and dtype of the mask, against a queue per element. Non-trivial: more steps than entries, and some element was held by a mask.",
            [Check("sequence", cases(), fn, 1600),
             Check("long", long_cases("ShiftReg"), model_check("ShiftReg"), 64)],
            ["The register starts with alternating bits 0,1,0,1,... from its oldest slot, as the units built on it assume."])
