"""Generated check of one streaming unit against its reference model, cycle by cycle."""
import numpy as np
from hypothesis import strategies as st
from harness.core import fail
from harness.gen import shapes, lengths, streams, LONG_KINDS, make_bits, gseeds, t, npy
from harness.units import UNITS, UAdd, dtypes, wide_dtypes, ST
from harness.util import same, dtype_is


def unit_cases(name, hi=300, lo=1, max_dims=3, max_side=4):
    u = UNITS[name]
    return st.fixed_dictionaries({
        "c": u.cfg(), "T": lengths(lo, hi), "shape": shapes(max_dims, max_side), "x": streams(), "S": dtypes(), "gseed": gseeds})


def long_cases(name, lo=400, hi=2500):
    """Few elements, long histories, deep counters."""
    u = UNITS[name]
    return st.fixed_dictionaries({
        "c": u.deep(), "T": st.integers(lo, hi), "shape": shapes(1, 2), "x": streams(LONG_KINDS), "S": wide_dtypes(), "gseed": gseeds})


def inputs(u, case):
    """Per cycle: the list of input arrays of the unit; FSUAdd's operands are stacked along its dimension."""
    c, T, shape = case["c"], case["T"], case["shape"]
    n = c["n"] if isinstance(u, UAdd) else u.nin
    bits = [make_bits({"seed": case["x"]["seed"] + 7919 * i, "kind": case["x"]["kind"]}, T, shape) for i in range(n)]
    if isinstance(u, UAdd):
        ax = c["dima"] % (len(shape) + 1)
        stack = np.stack(bits, 1)                       # [T, n, *shape]
        return [[np.moveaxis(stack[k], 0, ax)] for k in range(T)], bits
    return [[b[k] for b in bits] for k in range(T)], bits


def model_step(u, mod, xs, c, shape):
    if isinstance(u, UAdd):
        return (mod.step(xs[0].astype(np.int64).sum(c["dima"] % (len(shape) + 1))),)
    return u.mstep(mod, xs)


def run_unit(name, case):
    """Steps the real unit and the model together; returns (inputs per stream, outputs per port) as int arrays [T, ...]."""
    u = UNITS[name]
    c, T, shape, S = case["c"], case["T"], case["shape"], u.types(case["c"], case["S"])
    xs, bits = inputs(u, case)
    m = u.build(c, shape, S)
    mod = u.model(c, shape)
    hist = [[] for _ in range(u.nout)]
    held = []
    for k in range(T):
        outs = u.step(m, [t(x, S[0]) for x in xs[k]])
        want = model_step(u, mod, xs[k], c, shape)
        for p in range(u.nout):
            same(outs[p], want[p], "%s output %d at cycle %d" % (name, p, k))
            if not (name == "ShiftReg" and p == 1):
                dtype_is(outs[p], S[0], "%s output %d at cycle %d" % (name, p, k))
            hist[p].append(np.asarray(npy(outs[p])).astype(np.int64))
            held.append((outs[p], hist[p][-1], p, k))
    for y, was, p, k in held:                 # a returned stream stays as it was returned
        same(y, was, "%s output %d of cycle %d, looked at after %d cycles" % (name, p, k, T))
    return bits, [np.stack(h) for h in hist], mod


def model_check(name, extra=None, nontrivial=None):
    def fn(case):
        bits, outs, mod = run_unit(name, case)
        labels = ["T>=256"] if case["T"] >= 256 else []
        labels.append("stype=" + case["S"][0])
        if extra is not None:
            labels += extra(case, bits, outs) or []
        o = outs[0]
        varied = case["T"] >= 4 and any(0 < b.mean() < 1 for b in bits)
        nt = varied if nontrivial is None else (varied and nontrivial(case, bits, outs))
        return {"nontrivial": bool(nt), "labels": labels}
    return fn
