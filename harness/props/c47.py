import contextlib
import numpy as np
import torch
from hypothesis import strategies as st
from harness import gen
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, gseeds, mode_names, rng_names, RATE, make_bits, t, npy
from harness.units import UNITS, dtypes
from harness.props import c37
from harness.shim import float_shifts
from UnarySim.stream import RNG, BSGen
from UnarySim.kernel import FSUMul
from UnarySim.metric import Correlation, ProgError

LAYOUTS = ["plain", "transposed", "strided", "offset", "expanded"]


@contextlib.contextmanager
def operands(layout, grad):
    """Tensors the harness makes have this layout; floating-point ones track gradients on request."""
    gen.LAYOUT, gen.GRAD = layout, grad
    try:
        yield
    finally:
        gen.LAYOUT, gen.GRAD = None, False


def modules(o):
    """The modules inside a rig or a unit."""
    if isinstance(o, torch.nn.Module):
        return [o]
    if isinstance(o, (list, tuple)):
        return [m for v in o for m in modules(v)]
    return modules(list(vars(o).values())) if hasattr(o, "__dict__") and not isinstance(o, type) else []


def how():
    return {"layout": st.sampled_from(LAYOUTS), "grad": st.booleans(), "nograd": c37.nograds(), "eval": st.integers(-1, 20), "rows": st.booleans()}


def same_rows(case, xs):
    """Inputs whose rows are all alike, so that a view that repeats one row is possible."""
    if not case["rows"]:
        return xs
    out = [[np.broadcast_to(x[:1], x.shape).copy() if x.ndim else x for x in step] for step in xs]
    return out


def history(case):
    xs = same_rows(case, c37.stream_of(case))
    with operands("plain", False):
        a = c37.build(case)
        ref = [a.feed(x) for x in xs]
    with operands(case["layout"], case["grad"]), c37.without(case["nograd"]):
        torch.manual_seed(case["gseed"] + 1)
        b = c37.build(case)
        gen.GRAD = False               # bits carry no gradient: they come from comparisons
        for k, x in enumerate(xs):
            if k == case["eval"]:
                for m in modules(b.m):
                    m.eval()
            if case["eval"] >= 0 and k == case["eval"] + 3:
                for m in modules(b.m):
                    m.train()
            c37.agree(b.feed(x), ref[k], "operands that are %s%s%s%s change the output at cycle %d" % (
                case["layout"], ", track gradients" if case["grad"] else "", ", under " + case["nograd"] if case["nograd"] else "", ", in evaluation mode" if 0 <= case["eval"] <= k else "", k))
        b.unchanged()
    flat = np.concatenate([np.ravel(r[0]) for r in ref])
    varied = case["layout"] != "plain" or case["grad"] or bool(case["nograd"]) or case["eval"] >= 0
    return {"nontrivial": varied and len(xs) >= 3 and bool(flat.min() != flat.max()), "labels": [case.get("name") or case["kind"], case["layout"]]}


def cases():
    u = st.sampled_from(sorted(UNITS)).flatmap(lambda n: st.fixed_dictionaries({"name": st.just(n), "c": UNITS[n].cfg(), "shape": shapes(3, 3), "S": dtypes()}))
    l = st.sampled_from(sorted(c37.RIGS)).flatmap(lambda k: st.fixed_dictionaries({
        "kind": st.just(k), "width": st.integers(2, 5), "mode": mode_names(), "bias": st.booleans(), "scale": st.sampled_from([None, 1]), "rng": rng_names(RATE), "wseed": gseeds}))
    return st.one_of(u, l).flatmap(lambda d: st.fixed_dictionaries(dict({
        "x": streams(), "T": lengths(3, 60), "gseed": gseeds}, **how())).map(lambda e: dict(d, **e)))


def layer(c):
    """Layers, cells, activations and tools without state."""
    n = c["name"]
    def run(layout, grad, nograd, ev):
        r = np.random.default_rng(c["seed"])
        with operands(layout, grad), c37.without(nograd), float_shifts() if n in ("HardMGUCellFXP", "Round") else contextlib.nullcontext():
            def keep(k, shape, mag=None):
                v = (r.random(shape) * 2 - 1) * (c["mag"] if mag is None else mag)
                return t(np.broadcast_to(v[:1], v.shape) if c["rows"] else v)
            torch.manual_seed(c["gseed"])
            m, args, _ = c37.subject(c, r, keep)
            if ev and isinstance(m, torch.nn.Module):
                m.eval()
            return c37.flat(m(*args()))
    want = run("plain", False, "", False)
    got = run(c["layout"], c["grad"] and n not in ("outlier", "report"), c["nograd"], c["eval"] >= 0)
    for g, w in zip(got, want):
        if isinstance(w, np.ndarray):
            tol = 1e-5 * max(1.0, float(np.abs(w).max())) if w.dtype.kind == "f" else 0
            if g.shape != w.shape or g.dtype != w.dtype or not (np.abs(g - w) <= tol).all():
                fail("%s with operands that are %s: %s instead of %s" % (n, c["layout"], g.ravel()[:6], w.ravel()[:6]))
        elif g != w and not isinstance(w, str):
            fail("%s with operands that are %s: %s instead of %s" % (n, c["layout"], g, w))
    varied = c["layout"] != "plain" or c["grad"] or bool(c["nograd"]) or c["eval"] >= 0
    return {"nontrivial": varied and any(isinstance(v, np.ndarray) and np.ptp(v) > 0 for v in want), "labels": [n]}


def layer_cases():
    return st.fixed_dictionaries(dict({"name": st.sampled_from(c37.PURE), "seed": gseeds, "mag": st.sampled_from([0.7, 1.0, 3.0]), "hard": st.booleans(), "bias": st.booleans(),
                                       "hidden": st.booleans(), "rounding": st.sampled_from(["round", "floor", "ceil"]), "scale": st.sampled_from([[], [], [1], [1.0], [6], [0.5]]), "width": st.integers(3, 6), "rng": rng_names(RATE),
                                       "gseed": gseeds}, **how()))


def partial(full, mask, drop):
    """A shape that broadcasts to this one."""
    s = [1 if m else n for n, m in zip(full, mask)]
    while drop and s and s[0] == 1:
        s = s[1:]
    return s


TWO = ["SkewedSync", "FSUMulInStream", "JKFF", "FSUDiv", "FSUMulStatic", "bsgen", "pe", "scc"]


def broadcast(c):
    """An operand given once for the elements it is common to."""
    n, full = c["name"], c["shape"]
    s0 = partial(full, c["m0"], c["drop"])
    s1 = partial(full, [b and not a for a, b in zip(c["m0"], c["m1"])], c["drop"] and not all(c["m0"]))
    if n == "FSUDiv":
        s1 = full                   # only the dividend
    if n == "bsgen":
        s1 = partial(full, c["m1"], False)
    if n == "pe":
        s1 = full                   # only the source
    bits = [make_bits({"seed": c["x"]["seed"] + i, "kind": c["x"]["kind"]}, c["T"], s) for i, s in enumerate((s0, s1))]
    wide = lambda x: np.broadcast_to(x, full).copy()
    r = np.random.default_rng(c["gseed"])
    src = r.random(s0)
    hw = {"width": 3, "mode": c["mode"], "rng": c["rng"], "dimr": 1, "static": True, "scale": 2}
    out = []
    for part in (True, False):
        f = (lambda x: x) if part else wide
        if n in UNITS and n != "FSUMulStatic":
            m = UNITS[n].build(c["c"], full, ["f32", "f32", "f32"])
            out.append([npy(UNITS[n].step(m, [t(f(b[k])) for b in bits])[0]).copy() for k in range(c["T"])])
        elif n == "FSUMulStatic":
            m = FSUMul(t(f(src)), hw, SW)
            out.append([npy(m(t(f(bits[1][k])))).copy() for k in range(c["T"])])
        elif n == "bsgen":
            m = BSGen(t(np.round(f(src) * 8)), RNG(hw, SW)(), SW)
            cyc = r.integers(0, 40, [c["T"]] + s1) if part else cyc
            out.append([npy(m(t(f(cyc[k]), "i64"))).copy() for k in range(c["T"])])
        else:
            m = Correlation() if n == "scc" else ProgError(t(f(src)), hw)
            y = []
            for k in range(c["T"]):
                m.Monitor(*[t(f(b[k])) for b in (bits if n == "scc" else bits[1:])])
                v = m()
                y.append(npy(v if n == "scc" else v[1]).copy())
            out.append(y)
    for k, (g, w) in enumerate(zip(*out)):
        # a correlation of two operands of one element each is as wide as they are
        if not np.array_equal(np.broadcast_to(g, full), np.broadcast_to(w, full), equal_nan=True):
            fail("%s with operands of shapes %s, %s at cycle %d: %s instead of %s" % (n, s0, s1, k, g.tolist(), w.tolist()))
    return {"nontrivial": (s0 != full or s1 != full) and np.ptp(np.concatenate([np.ravel(w) for w in out[1]])) > 0, "labels": [n]}


def broadcast_cases():
    return st.sampled_from(TWO).flatmap(lambda n: shapes(3, 3).flatmap(lambda s: st.fixed_dictionaries({
        "name": st.just(n), "shape": st.just(s), "m0": st.lists(st.booleans(), min_size=len(s), max_size=len(s)), "m1": st.lists(st.booleans(), min_size=len(s), max_size=len(s)),
        "drop": st.booleans(), "c": UNITS[n].cfg() if n in UNITS else st.just({}), "x": streams(), "T": lengths(2, 60), "mode": mode_names(), "rng": rng_names(RATE), "gseed": gseeds})))


SW = {"btype": torch.float, "rtype": torch.float, "stype": torch.float}


PROP = Prop("C47",
            "history: every unit, stream layer, cell, metric and generator run once with plain operands and once with operands that are transposed, strided, offset or expanded views, with weights and "
            "sources that track gradients, under no_grad or inference_mode, in evaluation mode for a while, and another global seed: the same outputs. layer: the same for the layers, cells, activations and tools without state. "
            "broadcast: two operands of different shapes, or source and stream, or source and cycle, against the same ones expanded. Non-trivial: something is varied, and the output is not constant.",
            [Check("history", cases(), history, 2000), Check("layer", layer_cases(), layer, 1200),
             Check("broadcast", broadcast_cases(), broadcast, 600)],
            ["Bits themselves track no gradient (the convolution refuses them).", "Float layers may differ in the last digits (order of sums)."])
