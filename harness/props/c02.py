import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import mode_names, shapes, gseeds, values, t, npy, DT
from harness.util import same, dtype_is
from UnarySim.stream import BinGen

FITS = {"f32": 14, "f64": 14, "f16": 11, "bf16": 8, "i8": 6, "u8": 7, "i16": 14, "i32": 14, "i64": 14}


def cases():
    return st.sampled_from(sorted(FITS)).flatmap(lambda rt: st.fixed_dictionaries({
        "rtype": st.just(rt), "width": st.integers(1, FITS[rt]), "mode": mode_names(), "shape": shapes(4, 5, 0), "seed": gseeds,
        "kind": st.sampled_from(["any", "grid", "near_half"]), "src": st.sampled_from(["f32", "f32", "f64"]), "param": st.booleans(), "gseed": gseeds}))


def fn(c):
    mode, w = c["mode"].lower(), c["width"]
    n = 1 << w
    r = np.random.default_rng(c["seed"])
    lo = 0 if mode == "unipolar" else -1
    v = values(c["seed"], c["shape"], lo, 1)
    step = 1.0 / n if mode == "unipolar" else 2.0 / n
    if c["kind"] == "grid":
        v = np.round((v - lo) / step) * step + lo
    elif c["kind"] == "near_half":
        v = np.clip((np.floor((v - lo) / step) + 0.5 + r.choice([-1e-3, 1e-3], v.shape)) * step + lo, lo, 1)
    src = t(v, c["src"])
    if c["param"]:
        src = torch.nn.Parameter(src)
    v = npy(src).astype(np.float64).copy()
    g = BinGen(src, {"width": w, "mode": c["mode"]}, {"rtype": DT[c["rtype"]]})
    out = g()
    what = "%s width %d" % (mode, w)
    if not isinstance(out, torch.nn.Parameter) or out.requires_grad:
        fail(what + ": not a parameter free of gradient")
    dtype_is(out, c["rtype"], what)
    if list(out.shape) != list(src.shape):
        fail("%s: shape %s for a source of shape %s" % (what, list(out.shape), list(src.shape)))
    raw = npy(out).astype(np.float64)
    k = raw.astype(np.int64)
    if not (raw == k).all():
        fail(what + ": not integers")
    exact = v * n if mode == "unipolar" else (v + 1) / 2 * n
    bad = np.abs(k - exact) > 0.5 + 1e-3 if c["src"] == "f32" else np.abs(k - exact) > 0.5 + 1e-9
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        fail("%s: value %r becomes %d of %d" % (what, v[i], k[i], n))
    if k.size and (k.min() < 0 or k.max() > n):
        fail(what + ": outside 0..2**width")
    if c["kind"] == "grid":
        same(out, np.round(exact), what + " on the grid")
    o = np.argsort(v.ravel(), kind="stable")
    if (np.diff(k.ravel()[o]) < 0).any():
        fail(what + ": not monotone")
    same(src, v, "the source afterwards")
    same(g(), k, "the same object asked again")
    return {"nontrivial": bool(((k > 0) & (k < n)).any()), "labels": [mode, c["kind"]]}


PROP = Prop("C02",
            "Random sources of any shape (scalars too) within the range of the mode, on the grid, near rounding boundaries or anywhere, any width and number "
            "type that fits. Non-trivial: some encoded number is strictly between 0 and 2**width.",
            [Check("encode", cases(), fn, 2400)],
            ["The number type must hold 2**width exactly. Exact halves may round either way."])
