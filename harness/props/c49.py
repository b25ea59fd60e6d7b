import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds, t, npy
from harness import quant as Q
from harness.shim import float_shifts
from harness.props import c21, c22, c23, c24, c25, c47
from harness.props.c20 import geometry
from UnarySim.kernel import HardMGUCell, HardMGUCellFXP

KINDS = sorted(c25.KIND) + ["cell", "cellfxp"]
OPS = ["run", "run", "mode", "load", "copy", "data", "place", "scale", "step", "swap", "other"]


def fresh(c, params):
    """A new layer (or cell) of the configuration whose parameters are these arrays."""
    if c["kind"] in ("cell", "cellfxp"):
        m = HardMGUCell(c["nin"], c["nout"], bias=c["bias"], hard=c["hard"]) if c["kind"] == "cell" else HardMGUCellFXP(
            c["nin"], c["nout"], bias=c["bias"], hard=c["hard"], intwidth=3, fracwidth=4)
        with torch.no_grad():
            for k, p in trained(c, m):
                p.copy_(torch.from_numpy(params[k]))
        return m
    return c22.make(*c25.KIND[c["kind"]], c, t(params["weight"]), t(params["bias"]) if c["bias"] else None, c25.hwcfg(c))


def blank(c):
    """A layer of the configuration with parameters of its own making."""
    if c["kind"] in ("cell", "cellfxp"):
        return HardMGUCell(c["nin"], c["nout"], bias=c["bias"], hard=c["hard"]) if c["kind"] == "cell" else HardMGUCellFXP(
            c["nin"], c["nout"], bias=c["bias"], hard=c["hard"], intwidth=3, fracwidth=4)
    return c22.make(*c25.KIND[c["kind"]], c, None, None, c25.hwcfg(c))


def trained(c, m):
    """The weights and biases among the parameters (some layers keep number sequences in others)."""
    return [(k, p) for k, p in m.named_parameters() if k in shapes(c)[1]]


def shapes(c):
    if c["kind"] in ("cell", "cellfxp"):
        H, I = c["nout"], c["nin"]
        p = {"weight_f": (H, H + I), "weight_n": (H, H + I)}
        return [c["B"], I], dict(p, bias_f=(H,), bias_n=(H,)) if c["bias"] else p
    xs, ws = c22.shapes_of(c)
    return xs, dict({"weight": ws}, **({"bias": [c["nout"]]} if c["bias"] else {}))


def history(c):
    with float_shifts() if c["kind"] == "cellfxp" else torch.enable_grad(), c47.operands("plain", False):
        return history_(c)


def history_(c):
    r = np.random.default_rng(c["seed"])
    xs, ps = shapes(c)
    draw = lambda s: Q.draw(dict(c["w"], seed=int(r.integers(0, 2 ** 31)), exp=int(r.integers(-3, 4))), s)
    now = {k: draw(s) for k, s in ps.items()}
    m = fresh(c, now)
    nt = changed = False
    last = None
    for op in c["ops"]:
        if op == "run":
            x = Q.draw(dict(c["x"], seed=int(r.integers(0, 2 ** 31))), [int(r.integers(1, 4))] + list(xs[1:]))
            y = npy(m(t(x)))
            want = npy(fresh(c, now)(t(x)))
            if y.shape != want.shape or not (np.abs(y - want) <= 1e-6 * np.abs(want).max() + 1e-12).all():
                fail("after %s, the %s layer gives %s, a new one with its parameters %s" % (last, c["kind"], y.ravel()[:6], want.ravel()[:6]))
            nt = nt or (changed and bool(np.ptp(want) > 0))
            continue
        if op == "mode":             # training mode or evaluation mode, which these layers do not tell apart
            m.train(not m.training)
            continue
        last = op
        if {k for k, _ in trained(c, m)} != set(ps):
            fail("parameters %s instead of %s" % (sorted(k for k, _ in trained(c, m)), sorted(ps)))
        if op == "step":             # one step of training
            x = Q.draw(dict(c["x"], seed=int(r.integers(0, 2 ** 31))), xs)
            for k, p in trained(c, m):
                p.requires_grad_(True)
            opt = torch.optim.SGD(m.parameters(), lr=0.5)
            opt.zero_grad()
            y = m(t(x))
            y.backward(t(r.standard_normal(tuple(y.shape))))
            want = {k: npy(p).copy() - np.float32(0.5) * npy(p.grad) for k, p in trained(c, m)}
            opt.step()
            for k, p in trained(c, m):
                if np.abs(npy(p) - want[k]).max() > 1e-5 * (1 + np.abs(want[k]).max()):
                    fail("a training step takes %s of the %s layer to %s instead of %s" % (k, c["kind"], npy(p).ravel()[:4], want[k].ravel()[:4]))
                now[k] = npy(p).copy()
            changed = True
            continue
        new = {k: draw(s) for k, s in ps.items()}
        if op == "scale":
            factor = 2.0 ** int(r.integers(-4, 5))
            new = {k: (v * np.float32(factor)) for k, v in now.items()}
        if op == "other":            # another layer of the configuration runs in between
            blank(c)(t(Q.draw(dict(c["x"], seed=int(r.integers(0, 2 ** 31))), xs)))
            continue
        if op == "load":             # a checkpoint of another layer
            m.load_state_dict(fresh(c, new).state_dict())
        elif op == "swap":           # this layer's checkpoint, in a layer made without it
            n = blank(c)
            n.load_state_dict(m.state_dict())
            m, new = n, now
        else:
            with torch.no_grad():
                for k, p in trained(c, m):
                    if op == "copy":
                        p.copy_(t(new[k]))
                    elif op == "place":      # behind autograd's back
                        p.data.copy_(t(new[k]))
                    elif op == "scale":
                        p.data.mul_(factor)
                    else:
                        p.data = t(new[k])
        now, changed = new, True
    return {"nontrivial": nt, "labels": [c["kind"], "conv" if c["g"] is not None else "linear"]}


def cases(conv):
    H = {"hub": c21.cfg, "fxp": c22.cfg, "tlut": c23.cfg, "tlutfp": c24.cfg, "tlutmix": c23.cfg}
    def more(k):
        return st.fixed_dictionaries({
            "kind": st.just(k), "h": H[k]() if k in H else st.none(), "nin": st.integers(1, 3 if conv else 6), "nout": st.integers(1, 3 if conv else 4), "B": st.integers(1, 3), "bias": st.booleans(),
            "hard": st.booleans(), "g": geometry() if conv else st.none(), "w": Q.data(), "x": Q.data(), "seed": gseeds,
            "ops": st.lists(st.sampled_from(OPS), min_size=2, max_size=7).map(lambda o: o + ["run"]), "gseed": gseeds})
    return st.sampled_from(sorted(H) if conv else KINDS).flatmap(more)


PROP = Prop("C49",
            "Histories of runs (batches of changing size), parameter changes (in place, replaced, loaded from a checkpoint, a training step), checkpoints moved to a new layer, switches of mode, and runs of other layers, for every "
            "trainable layer and cell: after each change the layer gives what a new layer with these parameters gives, and a training step moves every parameter against its gradient. Non-trivial: an output, "
            "after a change, that is not constant.",
            [Check("linear", cases(False), history, 700), Check("conv", cases(True), history, 400)],
            ["The fixed-point cell runs with the float shifts of the harness (see known findings)."])
