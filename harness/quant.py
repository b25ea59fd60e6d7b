"""Models of the quantised binary layers (HUB, FXP, T-LUT), in double precision, and the data they are run on."""
import itertools
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import fail
from harness.gen import gseeds, t, npy, DT
from harness import models as M

ROUNDING = ["round", "floor", "ceil", "Round", "FLOOR"]
KINDS = ["uniform", "uniform", "normal", "tails", "sparse", "pow2", "ints", "same", "zero"]


def draw(spec, shape):
    """float32 data of a kind and magnitude."""
    r = np.random.default_rng(spec["seed"])
    n = int(np.prod(shape))
    k = spec["kind"]
    if k == "uniform":
        x = r.random(n) * 2 - 1
    elif k == "normal":
        x = r.standard_normal(n) * 0.4
    elif k == "tails":
        x = r.standard_normal(n) ** 3
    elif k == "sparse":
        x = r.standard_normal(n) * (r.random(n) < 0.4)
    elif k == "pow2":
        x = r.choice([-1, 1], n) * 2.0 ** r.integers(-4, 2, n)
    elif k == "ints":
        x = r.integers(-4, 5, n).astype(float)
    elif k == "same":
        x = np.full(n, r.random() * 2 - 1)
    else:
        x = np.zeros(n)
    return (x * 2.0 ** spec["exp"] * spec["mul"]).astype(np.float32).reshape(shape)


def data(wide=False):
    return st.fixed_dictionaries({"seed": gseeds, "kind": st.sampled_from(KINDS), "exp": st.integers(-24, 24) if wide else st.integers(-3, 3),
                                  "mul": st.sampled_from([1, 1, 1, 0.7, 1.4])})


def sizes(conv, large):
    """Features or channels, rows, geometry and data of a layer."""
    from harness.props.c20 import geometry
    a, b, n = ((6, 8, 4) if conv else (300, 70, 40)) if large else ((3, 3, 3) if conv else (8, 6, 3))
    return {"nin": st.integers(1, a), "nout": st.integers(1, b), "B": st.integers(1, n), "bias": st.booleans(), "g": geometry(large) if conv else st.none(),
            "w": data(large), "b": data(large), "x": data(large), "gseed": gseeds}


def roundoff(rows):
    """Relative error of a sum of products in single precision: half a unit for each term, at most."""
    return 1e-6 + 6e-8 * (rows.shape[-1] - 8 if rows.shape[-1] > 8 else 0)


def quantile(x, q):
    s = np.sort(np.asarray(x, dtype=np.float64).ravel())
    p = q * (len(s) - 1)
    i = int(np.floor(p + 1e-9))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * max(0.0, p - i)


def exps(x, q, rounding):
    """Exponents the scale of x may round to (more than one only when it sits on a boundary within float32 precision)."""
    s = max(abs(quantile(x, 0.5 + q / 2.0)), abs(quantile(x, 0.5 - q / 2.0)))
    if s <= 1e-6 * np.abs(x).max() and s > 0 and q != 1:
        return None                 # a cut so close to 0 that single precision cannot place it
    if s == 0:
        return [0] if q == 1 or (x == 0).all() else ([0] if np.count_nonzero(x) == 0 else None)
    f = {"round": np.round, "floor": np.floor, "ceil": np.ceil}[rounding.lower()]
    slack = 2e-6 + (0 if q == 1 else 4e-6 * np.abs(x).max() / s)
    return sorted({int(f(np.log2(s * (1 + d)))) for d in (-slack, 0.0, slack)})


def near(got, wants, tol, what):
    """got must agree with one of the candidate results."""
    g = npy(got).astype(np.float64)
    best = None
    for w in wants:
        w = np.asarray(w, dtype=np.float64)
        if list(w.shape) != list(g.shape):
            fail("%s: shape %s, expected %s" % (what, list(g.shape), list(w.shape)))
        d = np.abs(g - w)
        tl = tol(w) if callable(tol) else tol
        if (d <= tl).all():
            return
        if best is None:
            best = (w, d, tl)
    w, d, tl = best
    i = tuple(int(v) for v in np.argwhere(~(d <= tl))[0])
    fail("%s: element %s is %r, expected %r" % (what, i, g[i], w[i]))


# ------------------------------------------------------------------ geometry
def patches(x, g):
    kern, stride, p, dil = [M.pair(g[k]) for k in ("kernel", "stride", "padding", "dilation")]
    u, o = M.unfold(M.pad(x, p, 0), kern, dil, stride)
    return u, o


def fold(y, o, B):
    return y.reshape(B, o[0] * o[1], -1).transpose(0, 2, 1).reshape(B, -1, o[0], o[1])


# ------------------------------------------------------------------ HUB
def hub_table(seq, N):
    """T[i][w]: ones of w among the first i numbers of the sequence."""
    on = np.arange(N)[:, None] > seq[None, :]                  # [w, j]
    c = np.concatenate([np.zeros((N, 1), dtype=np.int64), np.cumsum(on, 1)], 1)   # [w, i]
    return c.T[:N]


def hub_quant(x, e, width, cycle):
    W = width - 1
    q = np.abs(np.round(x.astype(np.float64) * 2.0 ** (W - e))).astype(np.int64)
    return np.clip(q, 0, cycle - 1), np.sign(x)


def hub_matmul(qi, si, qw, sw, T):
    """[n, k] x [m, k] with table T."""
    return (T[qi[:, None, :], qw[None, :, :]] * si[:, None, :] * sw[None, :, :]).sum(2)


# ------------------------------------------------------------------ FXP
def fxp_quant(x, e, width):
    m = 2.0 ** width - 1
    return np.clip(np.round(x.astype(np.float64) * 2.0 ** (width - 1 - e)), -m, m) * 2.0 ** (e - (width - 1))


# ------------------------------------------------------------------ T-LUT
def trunc_quant(x, e, W):
    m = 2.0 ** W - 1
    return np.trunc(np.clip(x.astype(np.float64) * 2.0 ** (W - e), -m, m))


def digits(q, widtht, W, cycle):
    """Rebuild integers from their base 2**widtht digits, each limited to cycle-1."""
    out = np.zeros(q.shape)
    a, s = np.abs(q).astype(np.int64), np.sign(q)
    d, used = 0, 0
    while used < W:
        out += np.minimum((a >> (widtht * d)) & (2 ** widtht - 1), cycle - 1) * 2.0 ** (widtht * d)
        d += 1
        used += widtht
    return out * s
