import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import rng_names, ALL_RNG, DET_RNG, RATE, mode_names, shapes, gseeds, values, t, npy, DT
from harness.util import same, dtype_is, bits_only
from harness.units import ST
from UnarySim.stream import BSGen, BinGen, RNG

# the widest width at which a type holds the numbers of a sequence
HOLDS = {"f32": 12, "f64": 12, "i64": 12, "i32": 12, "i16": 12, "i8": 7, "u8": 8, "f16": 11, "bf16": 8}
CT = ["i64", "i64", "i32", "f32", "i16"]


def raw_cases():
    return st.one_of(st.integers(0, 9), st.integers(6, 12)).flatmap(lambda w: st.fixed_dictionaries({
        "width": st.just(w), "shape": shapes(3, 4), "seed": gseeds, "S": st.sampled_from(ST + ["u8"]), "rt": st.sampled_from(["f32", "i64", "f64", "i32"]), "qt": st.sampled_from([None] + [k for k in sorted(HOLDS) if w <= HOLDS[k]]),
        "cdt": st.sampled_from(CT), "per_lane": st.booleans(), "calls": st.integers(1, 12), "hi": st.sampled_from([1, 3, 20]), "gseed": gseeds}))


def raw(c):
    """Any numbers against any sequence at any cycles, in any order, per lane or common."""
    n = 1 << c["width"]
    r = np.random.default_rng(c["seed"])
    seq = r.integers(0, n, n) if c["width"] else np.zeros(1, dtype=np.int64)
    k = r.integers(0, n + 1, c["shape"])
    g = BSGen(t(k, c["rt"]), t(seq, c["qt"] or c["rt"]), {"stype": DT[c["S"]]})
    ones = 0
    for i in range(c["calls"]):
        cyc = r.integers(0, min(n * c["hi"], 1 << 15) if c["cdt"] == "i16" else n * c["hi"], c["shape"] if c["per_lane"] else [1])
        cc = t(cyc, c["cdt"])
        o = g(cc)
        want = (k > seq[cyc % n]).astype(np.int64)
        same(o, want, "bit at cycles %s" % cyc.ravel()[:6].tolist())
        dtype_is(o, c["S"], "bit")
        same(cc, cyc, "the cycle afterwards")
        ones += int(want.sum())
    return {"nontrivial": n > 1 and 0 < ones < c["calls"] * k.size, "labels": ["per lane" if c["per_lane"] else "common"]}


def trip_cases():
    def more(name):
        lo = 2 if name.lower() == "lfsr" else 1
        return st.integers(lo, 8).flatmap(lambda w: st.fixed_dictionaries({
            "rng": st.just(name), "width": st.just(w), "mode": mode_names(), "dimr": st.integers(1, 12), "start": st.integers(0, 3 << w),
            "shape": shapes(2, 5), "seed": gseeds, "gseed": gseeds}))
    return rng_names(ALL_RNG).flatmap(more)


def trip(c):
    """Value -> number -> stream -> value: within half a step over a period, whatever the sequence and the start."""
    mode, w, name = c["mode"].lower(), c["width"], c["rng"].lower()
    n = 1 << w
    v = values(c["seed"], c["shape"], 0 if mode == "unipolar" else -1, 1).astype(np.float32)
    hw = {"width": w, "mode": c["mode"], "rng": c["rng"], "dimr": c["dimr"]}
    sw = {"rtype": torch.float, "stype": torch.float}
    b = BinGen(t(v), hw, sw)()
    g = BSGen(b, RNG(hw, sw)(), sw)
    k = npy(b).astype(np.int64)
    bits = np.stack([npy(g(torch.tensor([c["start"] + i]))) for i in range(n)]).astype(np.int64)
    if not np.isin(bits, (0, 1)).all():
        fail("not a bitstream")
    ones = bits.sum(0)
    slack = 1 if name == "lfsr" else 0
    if (ones > k).any() or (ones < k - slack).any():
        i = tuple(np.argwhere((ones > k) | (ones < k - slack))[0])
        fail("number %d of %d gives %d ones over one period" % (k[i], n, ones[i]))
    p = ones / n
    d = p if mode == "unipolar" else 2 * p - 1
    step = (1 if mode == "unipolar" else 2) / n
    if (np.abs(d - v) > step * (0.5 + slack) + 1e-5).any():
        fail("a value decodes to %s off, more than half a step of %s" % (np.abs(d - v).max(), step))
    at0 = np.roll(bits, c["start"] % n, 0)             # cycle 0 first
    if name in ("race", "tc") and (np.diff(at0, axis=0) > 0).any():
        fail("temporal code: a one after a zero")
    if name in ("race10", "tc10") and (np.diff(at0, axis=0) < 0).any():
        fail("reverse temporal code: a zero after a one")
    if name in RATE:
        tt = np.arange(1, n + 1).reshape([-1] + [1] * k.ndim)
        dev = np.abs(np.cumsum(at0, 0) - tt * k / n)
        if dev.max() > w / 2.0 + 2:
            fail("rate code: a prefix is %.1f ones away from its share" % dev.max())
    return {"nontrivial": bool(((k > 0) & (k < n)).any()), "labels": [name, mode]}


PROP = Prop("C03",
            "raw: random numbers against an arbitrary sequence, at arbitrary cycles beyond the period, common or per lane, any types. round_trip: random values "
            "encoded, streamed for one period from any start and decoded. Non-trivial: both bit values occur; a number strictly between 0 and 2**width.",
            [Check("raw", raw_cases(), raw, 1400), Check("round_trip", trip_cases(), trip, 600)])
