import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, LONG_KINDS, gseeds, make_bits, mode_names, values, t, npy
from harness.util import close, same
from UnarySim.metric import Stability


def run_case(c):
    T, shape, mode, scale, thr = c["T"], c["shape"], c["mode"].lower(), c["scale"], c["thr"]
    src = (values(c["gseed"], shape, 0 if mode == "unipolar" else -1, 1)).astype(np.float32)
    x = make_bits(c["x"], T, shape)
    if c["match"]:
        # the source is the value the stream ends with, so that it does become stable
        p = x.mean(0)
        src = ((p if mode == "unipolar" else 2 * p - 1) * scale).astype(np.float32)
    if c["tie"]:
        # sources and thresholds that errors meet exactly
        src = (np.round(src.astype(np.float64) / scale * 8) / 8 * scale).astype(np.float32)
        thr = [0.125, 0.25, 0.5, 0.0625][c["gseed"] % 4]
    s = t(src)
    m = Stability(s, {"scale": scale, "mode": c["mode"], "threshold": thr})
    ref = np.clip(src.astype(np.float64) / scale, -1, 1)
    cnt, last, late = np.zeros(shape), np.zeros(shape), np.zeros(shape)
    nt = False
    kept = []
    for i in range(T):
        v = t(x[i], c["dt"])
        m.Monitor(v)
        if i < 40:
            kept.append((v, x[i], "the stream of cycle %d" % i))
        cnt += x[i]
        p = cnt / (i + 1)
        e = np.abs((p if mode == "unipolar" else 2 * p - 1) - ref)
        near = np.abs(e - thr) <= 2e-6
        if c["tie"] and (i & (i + 1)) == 0:
            near &= e != thr                    # exact in any precision after 2^k cycles
        last = np.where((e > thr) & ~near, i + 1, last)
        late = np.where((e > thr) | near, i + 1, late)      # single precision decides when near
        if i == T - 1 or i in c["at"]:
            sure = last == late
            want = 1 - np.clip(last, 1, i + 1) / (i + 1)
            for _ in range(c["reads"]):
                y = m()
                got = npy(y).copy()
                kept.append((y, got, "the stability returned after cycle %d" % i))
                close(np.where(sure, got, 0), np.where(sure, want, 0), 2e-6, "stability after cycle %d" % i)
                if ((got < -1e-6) | (got >= 1)).any():
                    fail("stability outside [0, 1)")
            nt = nt or bool((sure & (want > 0) & (last > 0)).any())
    same(s, src, "the source afterwards")
    for v, was, what in kept:
        same(v, was, what + ", looked at after %d cycles" % T)
    return {"nontrivial": nt, "labels": [mode, "late start" if c["match"] else "any source"]}


BASE = {"shape": shapes(), "T": lengths(1, 300), "x": streams(), "dt": st.sampled_from(["f32", "f32", "i8", "f16", "bf16"]),
        "mode": mode_names(), "scale": st.sampled_from([1, 1, 2, 4, 10, 16, 64]), "thr": st.sampled_from([0.05, 0.1, 0.02, 0.3, 0.0]),
        "match": st.booleans(), "tie": st.integers(0, 3).map(lambda v: v == 0), "at": st.lists(st.integers(0, 60), max_size=4), "reads": st.integers(1, 2), "gseed": gseeds}
LONG = dict(BASE, shape=shapes(1, 3), T=st.integers(1500, 5000), x=streams(LONG_KINDS), match=st.just(True), tie=st.just(False))
PROP = Prop("C34",
            "Random source (or the value the stream ends with), scale, mode, threshold, stream shape, length and type, read at random cycles; against the last cycle "
            "at which the error exceeds the threshold. long: thousands of cycles; a quarter of the sources and thresholds are met exactly. Non-trivial: a stream that becomes stable after being unstable.",
            [Check("long", st.fixed_dictionaries(LONG), run_case, 40),
             Check("stability", st.fixed_dictionaries(BASE), run_case, 1200)],
            ["Elements whose error comes within rounding of the threshold are left out."])
