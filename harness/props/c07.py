import numpy as np
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import t, npy, shapes, lengths, streams, gseeds, mode_names, make_bits
from harness.units import dtypes, wide_dtypes, fit, sw
from harness.util import same, dtype_is
from UnarySim.kernel import FSUAdd


def cases():
    def more(n):
        lo = 3
        while 2 ** (lo - 2) < 2 * n:
            lo += 1
        return st.fixed_dictionaries({
            "n": st.just(n), "mode": mode_names(), "depth": st.integers(lo, lo + 6), "scale": st.sampled_from([None, None, "entry"]),
            "entry": st.sampled_from([None, "entry"]), "dima": st.integers(-5, 4), "T": lengths(1, 300), "shape": st.one_of(shapes(2, 4), shapes(2, 4), shapes(4, 3)),
            "x": streams(), "S": dtypes(), "gseed": gseeds})
    return st.integers(1, 20).flatmap(more)


def narrow(S):
    """Counters of 8 bits: of bits they hold, of sums they do not, which the adder keeps elsewhere."""
    return [S[0], "i8", S[2]]


def wide_cases():
    """Hundreds of streams and long histories."""
    return st.integers(100, 1500).flatmap(lambda n: st.fixed_dictionaries({
        "n": st.just(n), "mode": mode_names(), "depth": st.sampled_from([14, 16, 20]), "scale": st.sampled_from([None, "entry"]), "entry": st.sampled_from([None, "entry"]),
        "dima": st.integers(-2, 1), "T": lengths(1, 400), "shape": shapes(1, 2), "x": streams(), "S": st.one_of(wide_dtypes(), wide_dtypes().map(narrow)), "gseed": gseeds}))


def fn(c):
    n, T, shape = c["n"], c["T"], c["shape"]
    nd = len(shape) + 1
    ax = c["dima"] % nd
    dima = c["dima"] if -nd <= c["dima"] < nd else ax
    bits = np.moveaxis(make_bits(c["x"], T, [n] + shape), 1, ax + 1)
    m = FSUAdd({"mode": c["mode"], "scale": n if c["scale"] else None, "dima": dima, "depth": c["depth"],
                "entry": n if c["entry"] else None}, sw(fit(c["S"], c["depth"])))
    total = np.zeros(shape, dtype=np.int64)
    out = np.zeros(shape, dtype=np.int64)
    for k in range(T):
        o = m(t(bits[k], c["S"][0]))
        dtype_is(o, c["S"][0], "sum at cycle %d" % k)
        total = total + bits[k].astype(np.int64).sum(ax)
        new = total // n
        same(o, new - out, "sum of %d streams at cycle %d" % (n, k))
        out = new
    return {"nontrivial": n > 1 and bool((out > 0).any()) and bool((out < T).any()), "labels": [c["mode"].lower(), "neg_dim" if dima < 0 else "dim"]}


PROP = Prop("C07",
            "1 to 20 (wide: up to 1500) streams along any dimension (negative too) of a random shape, both modes, accumulators at least deep enough, random dtypes and "
            "lengths; at every cycle the number of ones out is floor(ones in / number of streams). Non-trivial: 2 or more streams and an output that is "
            "not constant.",
            [Check("conservation", cases(), fn, 1200), Check("wide", wide_cases(), fn, 96)],
            ["Accumulator range of at least twice the number of inputs."])
