import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import rng_names, ALL_RNG, RATE, DT, gseeds, npy
from harness.util import same, dtype_is
from harness import models as M
from UnarySim.stream import RNG

# widest sequence whose values the type holds exactly
FITS = {"f32": 12, "f64": 12, "f16": 11, "bf16": 8, "i8": 7, "u8": 8, "i16": 12, "i32": 12, "i64": 12}


def cases():
    def more(d):
        rt, name = d
        lo = 2 if name.lower() == "lfsr" else 0
        hi = min(FITS[rt], 9 if name.lower() == "lfsr" else 12)
        return st.fixed_dictionaries({"rtype": st.just(rt), "rng": st.just(name), "width": st.integers(lo, hi),
                                      "dimr": st.one_of(st.integers(1, 8), st.integers(1, 64)), "gseed": gseeds})
    return st.tuples(st.sampled_from(sorted(FITS)), rng_names(ALL_RNG)).flatmap(more)


def wide_cases():
    def more(name):
        hi = 13 if name.lower() == "lfsr" else 16
        return st.fixed_dictionaries({"rtype": st.sampled_from(["f32", "f64", "i32", "i64"]), "rng": st.just(name), "width": st.integers(10, hi),
                                      "dimr": st.one_of(st.integers(1, 8), st.integers(1, 1000)), "gseed": gseeds})
    return rng_names(ALL_RNG).flatmap(more)


def strata(seq, width, what):
    """A Sobol dimension is a (0,1)-sequence: every aligned block of 2**k points has one point in each of the 2**k equal bins."""
    n = 1 << width
    for k in range(width + 1):
        b = (seq >> (width - k)).reshape(n >> k, 1 << k)
        if not (np.sort(b, 1) == np.arange(1 << k)).all():
            fail("%s: a block of %d points does not stratify" % (what, 1 << k))


def fn(c):
    name, w = c["rng"].lower(), c["width"]
    n = 1 << w
    hw = {"width": w, "dimr": c["dimr"], "rng": c["rng"]}
    g = RNG(hw, {"rtype": DT[c["rtype"]]})
    p = g()
    what = "%s width %d dimension %d" % (name, w, c["dimr"])
    if not isinstance(p, torch.nn.Parameter) or p.requires_grad:
        fail(what + ": not a parameter free of gradient")
    if list(p.shape) != [n]:
        fail("%s: shape %s, expected [%d]" % (what, list(p.shape), n))
    dtype_is(p, c["rtype"], what)
    raw = npy(p)
    s = raw.astype(np.int64)
    if not (raw == s).all():
        fail(what + ": values are not integers")
    same(g(), s, what + ", asked again")
    if s.min() < 0 or s.max() >= n:
        fail("%s: values %d..%d outside 0..%d" % (what, s.min(), s.max(), n - 1))
    if name == "lfsr":
        m = n - 1
        if (s == 0).any() or len(set(s[:m].tolist())) != m or s[m] != s[0]:
            fail(what + ": not a maximal sequence of period 2**width-1 over the non-zero values")
    elif len(set(s.tolist())) != n:
        fail(what + ": not a permutation of 0..2**width-1")
    if name in ("race", "tc") and (np.diff(s) != 1).any():
        fail(what + ": not ascending")
    if name in ("race10", "tc10") and (np.diff(s) != -1).any():
        fail(what + ": not descending")
    if name in RATE:
        if s[0] != 0:
            fail(what + ": does not start at 0")
        strata(s, w, what)
        same(p, M.sobol(w, c["dimr"]), what)
    # the same seeds give the same sequence
    torch.manual_seed(c["gseed"]); np.random.seed(c["gseed"])
    a = npy(RNG(hw, {"rtype": DT[c["rtype"]]})())
    torch.manual_seed(c["gseed"]); np.random.seed(c["gseed"])
    same(RNG(hw, {"rtype": DT[c["rtype"]]})(), a, what + ", rebuilt with the same seeds")
    return {"nontrivial": w >= 2, "labels": [name]}


def seeded(c):
    """Drawn sequences depend on the seed and on nothing that was drawn before."""
    hw = {"width": c["width"], "dimr": 1, "rng": c["rng"]}
    def draw(seed):
        torch.manual_seed(seed); np.random.seed(seed)
        return npy(RNG(hw, {"rtype": torch.float})()).tolist()
    first = {s: draw(s) for s in c["seeds"]}
    for s in c["seeds"][::-1]:
        if draw(s) != first[s]:
            fail("%s width %d: seed %d gives another sequence the second time" % (c["rng"], c["width"], s))
    if len({tuple(v) for v in first.values()}) == 1:
        fail("%s width %d: seeds %s all give the same sequence" % (c["rng"], c["width"], c["seeds"]))
    return {"nontrivial": True, "labels": [c["rng"].lower()]}


def dims(c):
    w = c["width"]
    s = [npy(RNG({"width": w, "dimr": d, "rng": "sobol"}, {"rtype": torch.float})()) for d in c["dims"]]
    for i in range(len(s)):
        for j in range(i):
            if np.array_equal(s[i], s[j]):
                fail("dimensions %d and %d are the same sequence" % (c["dims"][i], c["dims"][j]))
    # any two of the first dimensions fill a 2-D grid far more evenly than chance; the first pair perfectly
    if c["dims"][:2] == [1, 2] or c["dims"][:2] == [2, 1]:
        h = w // 2
        b = set(zip((s[0].astype(int) >> (w - h)).tolist(), (s[1].astype(int) >> (w - h)).tolist()))
        if len(b) != 1 << (2 * h):
            fail("dimensions 1 and 2 leave %d of %d cells empty" % ((1 << (2 * h)) - len(b), 1 << (2 * h)))
    return {"nontrivial": True, "labels": []}


PROP = Prop("C01",
            "Any generator name in any case, width, dimension and number type wide enough; permutation, order, period, stratification, shape, type, "
            "reproducibility. seeded: five seeds, in two orders, drawing again what they drew before, and not all the same. dimensions: distinct sequences per dimension. Non-trivial: width 2 or more.",
            [Check("sequence", cases(), fn, 1600), Check("wide", wide_cases(), fn, 64),
             Check("seeded", st.fixed_dictionaries({"rng": rng_names(["lfsr", "sys"]), "width": st.integers(7, 9), "gseed": gseeds,
                                                    "seeds": st.lists(gseeds, min_size=5, max_size=6, unique=True)}), seeded, 60),
             Check("dimensions", st.fixed_dictionaries({"width": st.integers(6, 10), "gseed": gseeds, "dims": st.one_of(
                 st.just([1, 2]), st.lists(st.integers(1, 20), min_size=2, max_size=4, unique=True))}), dims, 100)],
            ["A linear feedback shift register needs width 2 or more; the number type must hold 2**width-1 exactly."])
