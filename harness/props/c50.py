import contextlib
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, streams, make_bits, lengths, rng_names, mode_names, DET_RNG, RATE, t, npy
from harness import models as M, quant as Q
from harness.shim import float_shifts
from harness.util import same
from harness.props import c21, c22, c23, c24, c25
from harness.props.c19 import grid_weights, SW
from harness.props.c20 import geometry, arg
from UnarySim.kernel import FSULinear, FSUConv2d, FSUMGUCell, HUBMGUCell, HardMGUCell, HardMGUCellFXP

GEO = ("kernel", "stride", "padding", "dilation")


def turned(g):
    """The geometry with height and width exchanged."""
    out = {k: (list(reversed(g[k])) if isinstance(g[k], list) else g[k]) for k in GEO}
    return dict(out, size=list(reversed(g["size"])))


def covered(g, axis):
    """The windows end where the padded image ends, so that they are the same from either side."""
    k, s, p, d = [M.pair(g[x])[axis] for x in GEO]
    return (g["size"][axis] + 2 * p - d * (k - 1) - 1) % s == 0


def moves(c, conv, r):
    """Names of the symmetries that apply, and for each: x', w', b', geometry' and what becomes of the output."""
    P = {k: r.permutation(n) for k, n in (("in", c["nin"]), ("out", c["nout"]), ("batch", c["B"]))}
    g = c["g"]
    m = {"inputs": (lambda x: x[:, P["in"]], lambda w: w[:, P["in"]], lambda b: b, g, lambda y: y),
         "outputs": (lambda x: x, lambda w: w[P["out"]], lambda b: b[P["out"]], g, lambda y: y[:, P["out"]]),
         "batch": (lambda x: x[P["batch"]], lambda w: w, lambda b: b, g, lambda y: y[P["batch"]]),
         "one by one": None}
    if conv:
        tr = lambda v: np.ascontiguousarray(v.swapaxes(2, 3))
        m["turn"] = (tr, tr, lambda b: b, turned(g), tr)
        for ax, name in ((0, "upside down"), (1, "mirror")):
            if covered(g, ax):
                fl = (lambda a: lambda v: np.ascontiguousarray(np.flip(v, a + 2)))(ax)
                m[name] = (fl, fl, lambda b: b, g, fl)
    return m


def pick(c, m):
    names = sorted(m)
    return names[c["op"] % len(names)]


# ---------------------------------------------------------------- binary layers
def binary(c):
    xs, ws = c22.shapes_of(c)
    x, w, b = Q.draw(c["x"], xs), Q.draw(c["w"], ws), (Q.draw(c["b"], [c["nout"]]) if c["bias"] else None)
    h = c["h"]
    r = np.random.default_rng(c["gseed"])
    m = moves(c, c["g"] is not None, r)
    a, e = [int(r.integers(-16, 17)) for _ in range(2)]
    f32 = np.float32
    m["magnitude"] = (lambda v: v * f32(2.0 ** a), lambda v: v * f32(2.0 ** e), lambda v: v * f32(2.0 ** (a + e)), c["g"], lambda y: y * 2.0 ** (a + e))
    m["negative input"] = (lambda v: -v, lambda v: v, lambda v: -v, c["g"], lambda y: -y)
    m["negative weight"] = (lambda v: v, lambda v: -v, lambda v: -v, c["g"], lambda y: -y)
    op = pick(c, m)

    def run(c, x, w, b):
        return npy(c22.make(*c25.KIND[c["kind"]], c, t(w), t(b) if b is not None else None, c25.hwcfg(c))(t(x))).astype(np.float64)
    y = run(c, x, w, b)
    tol = 4e-6 * c25.through(c, torch.from_numpy(np.abs(x)).double(), torch.from_numpy(np.abs(w)).double(), None if b is None else torch.from_numpy(np.abs(b)).double()).numpy().max() + 1e-12
    seen = c22.rows_of(c, x)[0] if c["kind"].startswith("tlut") else x       # the table-lookup convolution takes its scale from its windows
    if op == "one by one":           # one row of the batch at a time, the scale of the batch being that of its largest row
        k = int(r.integers(0, c["B"]))
        if c["h"].get("qi", 1) != 1:
            return {"nontrivial": False}
        big = np.abs(seen).reshape(c["B"], -1).max(1).argmax()
        rows = [k, int(big)] if k != big else [k]
        z = run(dict(c, B=len(rows)), x[rows], w, b)
        if np.abs(z - y[rows]).max() > tol:
            fail("%s layer: rows %s of a batch of %d give %s alone, %s in the batch" % (c["kind"], rows, c["B"], z.ravel()[:6], y[rows].ravel()[:6]))
        return {"nontrivial": c["B"] > len(rows) and bool(np.ptp(y) > 0), "labels": [c["kind"], op]}
    fx, fw, fb, g, fy = m[op]
    nt = bool(np.ptp(y) > 0)
    if op in ("magnitude", "negative input", "negative weight"):
        # the scale must not sit on a rounding boundary within float32 precision
        ei, ew = Q.exps(seen, h.get("qi", 1), h.get("rounding", "round")), Q.exps(w, h.get("qw", 1), h.get("rounding", "round"))
        if ei is None or ew is None or len(ei) > 1 or len(ew) > 1 or not x.any() or not w.any():
            return {"nontrivial": False}
        if op == "magnitude":
            tol = max(tol, tol * 2.0 ** (a + e))
    z = run(dict(c, g=g), fx(x), fw(w), None if b is None else fb(b))
    want = fy(y)
    if z.shape != want.shape or np.abs(z - want).max() > tol:
        fail("%s %s, %s: %s instead of %s" % (c["kind"], "convolution" if c["g"] else "layer", op, z.ravel()[:6], want.ravel()[:6]))
    return {"nontrivial": nt, "labels": [c["kind"], op]}


def binary_cases(conv):
    H = {"hub": c21.cfg, "fxp": c22.cfg, "tlut": c23.cfg, "tlutfp": c24.cfg, "tlutmix": c23.cfg}
    def more(k):
        return st.fixed_dictionaries({
            "kind": st.just(k), "h": H[k](), "nin": st.integers(1, 4 if conv else 8), "nout": st.integers(1, 4), "B": st.integers(1, 3), "bias": st.booleans(), "g": geometry() if conv else st.none(),
            "w": Q.data(), "x": Q.data(), "b": Q.data(), "op": st.integers(0, 2519), "gseed": gseeds})
    return st.sampled_from(sorted(H)).flatmap(more)


# ---------------------------------------------------------------- stream layers
def stream(c):
    conv = c["g"] is not None
    mode, n = c["mode"].lower(), c["width"]
    xs, ws = c22.shapes_of(c)
    w = M.prob_of(grid_weights(c["wseed"], tuple(ws), n), n, mode).astype(np.float32)
    b = M.prob_of(grid_weights(c["wseed"] + 1, (c["nout"],), n), n, mode).astype(np.float32) if c["bias"] else None
    bits = make_bits(c["x"], c["T"], xs)
    m = moves(c, conv, np.random.default_rng(c["gseed"]))
    del m["one by one"]              # this is what C35 is about
    op = pick(c, m)
    fx, fw, fb, g, fy = m[op]
    scale = {"full": int(np.prod(ws[1:])) + int(c["bias"])}.get(c["scale"], c["scale"])

    def make(c, w, b):
        return c22.make(FSU_L, FSU_C, c, t(w), t(b) if b is not None else None, {
            "width": n, "mode": c["mode"], "scale": scale, "depth": c["depth"], "rng": c["rng"], "dimr": c["dimr"]})
    p, q = make(c, w, b), make(dict(c, g=g), fw(w), None if b is None else fb(b))
    seen = set()
    for k in range(c["T"]):
        y, z = npy(p(t(bits[k]))), q(t(fx(bits[k])))
        same(z, fy(y), "%s stream %s, %s, at cycle %d" % (mode, "convolution" if conv else "layer", op, k))
        seen.update(y.ravel().tolist())
    return {"nontrivial": len(seen) == 2 and c["T"] >= 4, "labels": [op, mode]}


def FSU_L(*a, **k):
    return FSULinear(*a, swcfg=SW, **k)


def FSU_C(*a, **k):
    return FSUConv2d(*a, swcfg=SW, **k)


def stream_cases(conv):
    def more(c):
        uni = c["mode"].lower() == "unipolar"
        return st.sampled_from([None, "full", 1, 1]).flatmap(lambda s: rng_names(DET_RNG if uni or s in (None, "full") else RATE).map(lambda g: dict(c, scale=s, rng=g)))
    return st.fixed_dictionaries({
        "g": geometry() if conv else st.none(), "nin": st.integers(1, 3 if conv else 6), "nout": st.integers(1, 4), "B": st.integers(1, 3), "width": st.integers(1, 6), "mode": mode_names(),
        "dimr": st.integers(1, 4), "depth": st.sampled_from([8, 10, 12]), "bias": st.booleans(), "wseed": gseeds, "x": streams(), "T": lengths(2, 40 if conv else 90), "op": st.integers(0, 2519),
        "gseed": gseeds}).flatmap(more)


# ---------------------------------------------------------------- cells
def cell(c):
    H, I, B, kind = c["H"], c["I"], c["B"], c["kind"]
    r = np.random.default_rng(c["seed"])
    ph, pi, pb = [r.permutation(n) if on else np.arange(n) for n, on in zip((H, I, B), c["which"])]
    cols = np.concatenate([ph, H + pi])
    n = c["width"]
    grid = kind in ("fsu", "hub")
    def draw(*s):
        return M.prob_of(r.integers(0, (1 << n) + 1, s), n, "bipolar").astype(np.float32) if grid else (r.standard_normal(s) * c["mag"]).astype(np.float32)
    W = [draw(H, H + I) for _ in range(2)]
    bs = [draw(H) if c["bias"] else None for _ in range(2)]
    W2 = [v[ph][:, cols] for v in W]
    bs2 = [None if v is None else v[ph] for v in bs]
    h = np.clip(draw(B, H), -1, 1)
    h2 = h[pb][:, ph]
    hw = {"width": n, "mode": "bipolar", "depth": c["depth"], "depth_ismul": c["dmul"], "rng": c["rng"], "dimr": c["dimr"]}
    tt = lambda v: None if v is None else t(v)
    def make(W, bs, h):
        ext = dict(weight_ext_f=tt(W[0]), bias_ext_f=tt(bs[0]), weight_ext_n=tt(W[1]), bias_ext_n=tt(bs[1]))
        if kind == "fsu":
            return FSUMGUCell(I, H, bias=c["bias"], hx_buffer=tt(h), hwcfg=hw, swcfg=SW, **ext)
        if kind == "hub":
            return HUBMGUCell(I, H, bias=c["bias"], hwcfg=hw, **ext)
        m = HardMGUCell(I, H, bias=c["bias"], hard=c["hard"]) if kind == "hard" else HardMGUCellFXP(I, H, bias=c["bias"], hard=c["hard"], intwidth=3, fracwidth=4)
        m.weight_f.data, m.weight_n.data = tt(W[0]), tt(W[1])
        if c["bias"]:
            m.bias_f.data, m.bias_n.data = tt(bs[0]), tt(bs[1])
        return m
    p, q = make(W, bs, h), make(W2, bs2, h2)
    vals = []
    if kind == "fsu":
        xs, hs = make_bits(c["x"], c["T"], [B, I]), make_bits({"seed": c["x"]["seed"] + 7919, "kind": c["x"]["kind"]}, c["T"], [B, H])
        for k in range(c["T"]):
            y, z = npy(p(t(xs[k]), t(hs[k]))), q(t(xs[k][pb][:, pi]), t(hs[k][pb][:, ph]))
            same(z, y[pb][:, ph], "hidden bits of the gated unit with its elements rearranged, at cycle %d" % k)
            vals.append(y)
    else:
        with float_shifts() if kind == "fxp" else contextlib.nullcontext(), torch.no_grad():
            for k in range(2):
                x = np.clip(draw(B, I), -1, 1)
                y, z = npy(p(t(x), t(h))), npy(q(t(x[pb][:, pi]), t(h2)))
                if z.shape != y.shape or np.abs(z - y[pb][:, ph]).max() > (1e-5 if kind == "hard" else 0):
                    fail("%s gated unit with its elements rearranged: %s instead of %s" % (kind, z.ravel()[:6], y[pb][:, ph].ravel()[:6]))
                vals.append(y)
                h, h2 = y, y[pb][:, ph]
    return {"nontrivial": bool(np.ptp(np.stack(vals)) > 0) and any(c["which"]), "labels": [kind]}


def cell_cases():
    def more(k):
        return st.fixed_dictionaries({
            "kind": st.just(k), "I": st.integers(1, 5), "H": st.integers(1, 5), "B": st.integers(1, 3), "which": st.lists(st.booleans(), min_size=3, max_size=3), "bias": st.booleans(), "hard": st.booleans(),
            "width": st.integers(1, 4 if k == "hub" else 6), "depth": st.integers(4, 10), "dmul": st.integers(1, 5), "rng": rng_names(RATE), "dimr": st.integers(1, 3), "mag": st.sampled_from([0.3, 1.0, 2.5]),
            "x": streams(), "T": lengths(2, 80), "seed": gseeds, "gseed": gseeds})
    return st.sampled_from(["fsu", "fsu", "hub", "hard", "fxp"]).flatmap(more)


PROP = Prop("C50",
            "Random layers, linear and convolutional, binary and streaming, and gated units, run twice: as they are and with inputs, outputs, hidden elements or batch rows rearranged (weights alike), height and width "
            "exchanged, image and kernel mirrored, and, for the binary layers, operands negated or multiplied by powers of two: the output is transformed alike (streams and the fixed-point cell exactly). "
            "Non-trivial: an output that is not constant.",
            [Check("binary-linear", binary_cases(False), binary, 1500), Check("binary-conv", binary_cases(True), binary, 800), Check("stream-linear", stream_cases(False), stream, 500),
             Check("stream-conv", stream_cases(True), stream, 300), Check("cell", cell_cases(), cell, 500)],
            ["Negation and magnitude only where the scale does not sit on a rounding boundary of single precision.", "Batch rows are compared alone only together with the largest row, which sets the scale."])
