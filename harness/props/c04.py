import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, gseeds, t, npy
from harness.util import same, close, dtype_is
from UnarySim.stream import RawScale


def data(c):
    r = np.random.default_rng(c["seed"])
    n = int(np.prod(c["shape"])) if c["shape"] else 1
    k = c["kind"]
    if k == "normal":
        x = r.standard_normal(n)
    elif k == "skewed":
        x = r.standard_normal(n) ** 2 - 0.1
    elif k == "tails":
        x = r.standard_cauchy(n)
    elif k == "negative":
        x = -r.random(n) - 0.01
    elif k == "sparse":
        x = r.standard_normal(n) * (r.random(n) < 0.15)
    elif k == "ints":
        x = r.integers(-3, 4, n).astype(float)
    else:
        x = np.zeros(n) + c["const"]
    return (x * c["mag"]).astype(np.float32).reshape(c["shape"])


def cases():
    return st.fixed_dictionaries({
        "shape": shapes(3, 8), "seed": gseeds, "kind": st.sampled_from(["normal", "normal", "skewed", "tails", "negative", "sparse", "ints", "const"]),
        "const": st.sampled_from([0, 1, -2]), "mag": st.sampled_from([1, 1, 1e-3, 50, 0.3, 2e-13, 5e-26, 1e20]), "dt": st.sampled_from(["f32", "f32", "f64"]),
        "q": st.one_of(st.just(1), st.floats(0.05, 1), st.sampled_from([0.5, 0.9, 0.99])), "gseed": gseeds})


def large():
    """Thousands of elements, as a weight matrix has."""
    return st.tuples(cases(), st.sampled_from([[1025], [5000], [40, 60], [2, 30, 30], [7, 9, 31], [20000]]), st.sampled_from([0.5, 0.9, 0.99, 0.999, 1])).map(
        lambda v: dict(v[0], shape=v[1], q=v[2]))


def quantile(x, q, off=0.0):
    s = np.sort(x.ravel().astype(np.float64))
    p = min(max(q * (len(s) - 1) + off, 0), len(s) - 1)
    i = int(np.floor(p + 1e-9))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * max(0.0, p - i)


def fn(c):
    x = data(c)
    xt = t(x, c["dt"])
    m = RawScale({"quantile": c["q"]})
    y = m(xt)
    dtype_is(y, c["dt"], "scaled data")
    lo, hi = quantile(x, 0.5 - c["q"] / 2.0), quantile(x, 0.5 + c["q"] / 2.0)
    s = max(abs(lo), abs(hi))
    # the position of a quantile among n samples is itself single precision: this far it can be off
    e = 4e-7 * x.size
    off = sum(abs(quantile(x, 0.5 + d * c["q"] / 2.0, e) - quantile(x, 0.5 + d * c["q"] / 2.0, -e)) for d in (-1, 1))
    spread = float(np.abs(x).max())
    got = npy(y).astype(np.float64)
    if np.isnan(got).any():
        fail("nan in the scaled data")
    if (np.abs(got) > 1 + 1e-6).any():
        fail("scaled data reach %s" % np.abs(got).max())
    # a quantile cut between two samples is only as exact as single precision makes it
    if s > 1e-5 * spread:
        want = np.clip(x.astype(np.float64), lo, hi) / s
        close(got, want, 1e-5 + 4e-6 * spread / s + 2 * off / s, "scaled data")
        if np.abs(got).max() < 1 - 1e-4 * max(1, spread / s * 0.1) and c["q"] == 1:
            fail("the largest magnitude is %s, not 1" % np.abs(got).max())
    elif s == 0:
        close(got, np.zeros(x.shape), 0, "scaled zeros")
    o = np.argsort(x.ravel(), kind="stable")
    if (np.diff(got.ravel()[o]) < 0).any():
        fail("order is not kept")
    if (got * x < 0).any() and lo <= 0 <= hi:
        fail("a sign is changed")
    # scale by a power of two, and negate
    close(m(xt * 4), got, 1e-6 + 1e-5 * min(1, spread / s if s > 0 else 1) + (2 * off / s if s > 0 else 0), "data scaled by 4")
    if s > 1e-3 * spread:
        close(-npy(m(-xt)), got, 1e-4 + 4 * off / s, "negated data")
    same(xt, x, "the data afterwards")
    return {"nontrivial": bool(len(np.unique(got)) > 2), "labels": [c["kind"], "clipped" if (x > hi + 1e-9).any() or (x < lo - 1e-9).any() else "whole"]}


PROP = Prop("C04",
            "Random tensors (normal, skewed, heavy tails, one-sided, sparse, integer, constant) of any shape and magnitude, any quantile; clip-and-scale oracle in "
            "double precision, range, order, sign, scale invariance, odd symmetry, no nan. Non-trivial: more than two distinct scaled values.",
            [Check("scale", cases(), fn, 2400), Check("large", large(), fn, 160)])
