import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, LONG_KINDS, gseeds, make_bits, t, npy
from harness.util import close, same
from UnarySim.metric import Correlation


def scc(x, y):
    """Stochastic cross correlation over axis 0; 0 where it is 0/0."""
    x, y = x.astype(np.int64), y.astype(np.int64)
    n = x.shape[0]
    a, b, c = (x & y).sum(0), (x & (1 - y)).sum(0), ((1 - x) & y).sum(0)
    d = n - a - b - c
    num = a * d - b * c
    pos = n * np.minimum(a + b, a + c) - (a + b) * (a + c)
    neg = (a + b) * (a + c) - n * np.maximum(a - d, 0)
    den = np.where(num > 0, pos, neg)
    return np.where(num == 0, 0.0, num / np.where(den == 0, 1, den))


def second(c, x, T, shape):
    r = np.random.default_rng(c["gseed"])
    if c["rel"] == "same":
        return x.copy()
    if c["rel"] == "inverse":
        return 1 - x
    if c["rel"] == "noisy":
        return x ^ (r.random(x.shape) < 0.2).astype(x.dtype)
    if c["rel"] == "subset":
        return x & (r.random(x.shape) < 0.6).astype(x.dtype)
    return make_bits(c["y"], T, shape)


def pair(c):
    T, shape = c["T"], c["shape"]
    x = make_bits(c["x"], T, shape)
    y = second(c, x, T, shape)
    m, s = Correlation(), Correlation()
    nt = False
    kept = []
    for i in range(T):
        a, b = t(x[i], c["dt"]), t(y[i], c["dt"])
        m.Monitor(a, b)
        if i < 40:
            kept += [(a, x[i], "the first stream of cycle %d" % i), (b, y[i], "the second stream of cycle %d" % i)]
        s.Monitor(t(y[i], c["dt"]), t(x[i], c["dt"]))
        if i == T - 1 or i in c["at"]:
            r = m()
            got = npy(r).copy()
            kept.append((r, got, "the correlation returned after cycle %d" % i))
            want = scc(x[:i + 1], y[:i + 1])
            close(got, want, 2e-6, "correlation after cycle %d" % i)
            close(s(), want, 2e-6, "correlation of the swapped pair after cycle %d" % i)
            if (np.abs(got) > 1 + 1e-6).any():
                fail("correlation outside [-1, 1]")
            nt = nt or bool((np.abs(want) > 0).any())
    for v, was, what in kept:
        same(v, was, what + ", looked at after %d cycles" % T)
    if c["rel"] in ("same", "inverse"):
        varies = (x.min(0) != x.max(0))
        close(m(), np.where(varies, 1.0 if c["rel"] == "same" else -1.0, 0.0), 2e-6, "correlation of a stream with %s" % ("itself" if c["rel"] == "same" else "its inverse"))
    return {"nontrivial": nt, "labels": [c["rel"]]}


def auto(c):
    T, shape = c["T"], c["shape"]
    x = make_bits(c["x"], T, shape)
    m = Correlation()
    y = np.concatenate([np.zeros_like(x[:1]), x[:-1]], 0)
    nt = False
    for i in range(T):
        v = t(x[i].copy(), c["dt"])
        m.Monitor(v)
        v.fill_(1 - int(v.reshape(-1)[0]))           # the caller reuses its buffer
        if i == T - 1 or i in c["at"]:
            want = scc(x[:i + 1], y[:i + 1])
            close(m(), want, 2e-6, "autocorrelation after cycle %d" % i)
            nt = nt or bool((np.abs(want) > 0).any())
    return {"nontrivial": nt, "labels": []}


BASE = {"shape": shapes(), "T": lengths(1, 400), "x": streams(), "dt": st.sampled_from(["f32", "f32", "i8", "f16", "bf16", "i64"]),
        "at": st.lists(st.integers(0, 60), max_size=4), "gseed": gseeds}
PROP = Prop("C32",
            "Random pairs of streams (independent, equal, inverse, noisy, subset) of random shape, length and type, read at random cycles; against the published "
            "formula in integers; bounds, symmetry, the ends. auto: one stream against its own delay. Non-trivial: a correlation that is not 0.",
            [Check("pair", st.fixed_dictionaries(dict(BASE, y=streams(), rel=st.sampled_from(["independent", "independent", "same", "inverse", "noisy", "subset"]))), pair, 900),
             Check("auto", st.fixed_dictionaries(BASE), auto, 600),
             Check("long", st.fixed_dictionaries(dict(BASE, shape=shapes(1, 3), T=st.integers(1500, 4000), x=streams(LONG_KINDS), y=streams(LONG_KINDS),
                                                      rel=st.sampled_from(["independent", "noisy", "inverse", "subset"]))), pair, 32)],
            ["Streams shorter than 4096 cycles, so that all counts are exact in float32."])
