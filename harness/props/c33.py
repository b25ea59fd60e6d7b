import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, LONG_KINDS, gseeds, make_bits, mode_names, values, t, npy
from harness.util import close, same
from UnarySim.metric import ProgError


def run_case(c):
    T, shape, mode, scale = c["T"], c["shape"], c["mode"].lower(), c["scale"]
    src = (values(c["gseed"], shape, 0 if mode == "unipolar" else -1, 1) * c["mag"]).astype(np.float32)
    s = t(src)
    m = ProgError(s, {"scale": scale, "mode": c["mode"]})
    want_src = np.clip(src.astype(np.float64) / scale, -1, 1)
    x = make_bits(c["x"], T, shape)
    cnt = np.zeros(shape)
    nt = False
    kept = []
    for i in range(T):
        v = t(x[i], c["dt"])
        m.Monitor(v)
        if i < 40:
            kept.append((v, x[i], "the stream of cycle %d" % i))
        cnt += x[i]
        if i == T - 1 or i in c["at"]:
            p = cnt / (i + 1)
            val = p if mode == "unipolar" else 2 * p - 1
            for _ in range(c["reads"]):        # reading changes nothing
                pp, pe = m()
                close(pp, val, 2e-6, "value after cycle %d" % i)
                close(pe, val - want_src, 3e-6, "error after cycle %d" % i)
                kept += [(pp, npy(pp).copy(), "the value returned after cycle %d" % i), (pe, npy(pe).copy(), "the error returned after cycle %d" % i)]
            nt = nt or bool((np.abs(val - want_src) > 1e-3).any())
    same(s, src, "the source afterwards")
    for v, was, what in kept:
        same(v, was, what + ", looked at after %d cycles" % T)
    return {"nontrivial": nt, "labels": [mode, "clipped source" if (np.abs(src / scale) > 1).any() else "source inside"]}


BASE = {"shape": shapes(), "T": lengths(1, 300), "x": streams(), "dt": st.sampled_from(["f32", "f32", "i8", "f16", "bf16", "i64", "u8"]),
        "mode": mode_names(), "scale": st.sampled_from([1, 1, 2, 4, 0.5, 3]), "mag": st.sampled_from([1, 1, 2.5]),
        "at": st.lists(st.integers(0, 60), max_size=4), "reads": st.integers(1, 2), "gseed": gseeds}
LONG = dict(BASE, shape=shapes(1, 3), T=st.integers(1500, 5000), x=streams(LONG_KINDS))
PROP = Prop("C33",
            "Random source, scale, mode, stream shape, length and type, read at random cycles and repeatedly; against counts in double precision. long: thousands of "
            "cycles. Non-trivial: an error that is not small.",
            [Check("long", st.fixed_dictionaries(LONG), run_case, 48),
             Check("progressive", st.fixed_dictionaries(BASE), run_case, 1500)],
            ["At least one cycle was monitored before the error is read."])
