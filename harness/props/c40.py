import contextlib, io, math, re
import numpy as np
import torch
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import shapes, lengths, streams, gseeds, make_bits, mode_names, values, t, npy, DT
from harness.util import same
from harness import quant as Q
from UnarySim.kernel import truncated_normal, tensor_unary_outlier, progerror_report
from UnarySim.metric import ProgError

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


def lines(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f(*a, **k)
    return [l for l in buf.getvalue().split("\n") if l.strip()]


def numbers(line, name):
    """The numbers of a line after the name it starts with."""
    if not line.startswith(name):
        fail("the line does not start with the name given: %r" % line)
    return [float(v) for v in NUM.findall(line[len(name):])]


def agree(got, want, what, line):
    if len(got) != len(want):
        fail("%s: %d numbers, not %d, in %r" % (what, len(got), len(want), line))
    for g, w in zip(got, want):
        if math.isnan(w):
            if not math.isnan(g):
                fail("%s: %s instead of nan in %r" % (what, g, line))
        elif not abs(g - w) <= 2e-6 + 2e-5 * abs(w):
            fail("%s: %s instead of %s in %r" % (what, g, w, line))


def outlier(c):
    x = Q.draw(c["x"], c["shape"])
    xt = t(x, c["dt"])
    x = npy(xt).astype(np.float64)
    keep = npy(xt).copy()
    got = lines(tensor_unary_outlier, xt, *([c["name"]] if c["name"] else []))
    same(xt, keep, "the tensor afterwards")
    if len(got) != 1:
        fail("%d lines are printed" % len(got))
    out = (np.abs(x) > 1).mean() * 100
    agree(numbers(got[0], c["name"] or "tensor"), [x.min(), x.max(), out], "the outlier report", got[0])
    return {"nontrivial": 0 < out < 100, "labels": ["outliers"] if out else []}


def moments(v, rms=True):
    n = v.size
    sd = v.std(ddof=1) if n > 1 else math.nan
    return [v.min(), v.max(), sd, v.mean()] + ([math.sqrt((v * v).mean())] if rms else [])


def report(c):
    shape, T, mode = c["shape"], c["T"], c["mode"].lower()
    src = values(c["gseed"], shape, 0 if mode == "unipolar" else -1, 1).astype(np.float32)
    m = ProgError(t(src), {"scale": c["scale"], "mode": c["mode"]})
    x = make_bits(c["x"], T, shape)
    for i in range(T):
        m.Monitor(t(x[i]))
    args = {k: c[k] for k in ("report_value", "report_relative") if c[k] is not None}
    got = lines(progerror_report, m, *([c["name"]] if c["name"] else []), **args)
    name = c["name"] or "progerror"
    ref = np.clip(src.astype(np.float64) / c["scale"], -1, 1)
    p = x.mean(0)
    val = p if mode == "unipolar" else 2 * p - 1
    err = val - ref
    want = []
    if c["report_value"]:
        want += [("Binary", moments(ref, False)), ("Unary", moments(val, False))]
    want.append(("Absolute", moments(err)))
    if c["report_relative"]:
        # an error relative to a value of zero has no agreed meaning
        want.append(("Relative", moments(err / val) if (np.abs(val) > 1e-3).all() else None))
    if len(got) != len(want):
        fail("%d lines are printed instead of %d" % (len(got), len(want)))
    for line, (kind, w) in zip(got, want):
        if kind not in line:
            fail("no line on the %s values: %r" % (kind, line))
        g = numbers(line, name)
        if w is not None:
            agree(g, w, kind, line)
    v, e = m()
    if not np.allclose(npy(v), val, atol=1e-6) or not np.allclose(npy(e), err, atol=1e-6):
        fail("the report changes the error it reports")
    return {"nontrivial": bool(np.abs(err).max() > 1e-3), "labels": [k for k in ("report_value", "report_relative") if c[k]]}


def truncated(c):
    mean, std, n = c["mean"], c["std"], int(np.prod(c["shape"])) if c["shape"] else 1
    src = t(np.full(c["shape"], 7.0, dtype=np.float32), c["dt"])
    args = {k: c[k] for k in ("mean", "std")} if c["given"] else {}
    if not c["given"]:
        mean, std = 0.0, 0.01
    out = truncated_normal(src, **args)
    if list(out.shape) != list(c["shape"]) or out.dtype is not DT[c["dt"]]:
        fail("shape or type changes: %s %s" % (list(out.shape), out.dtype))
    v = npy(out).astype(np.float64)
    slack = 2e-6 * (abs(mean) + std)
    if not (np.abs(v - mean) <= 2 * std + slack).all():
        fail("%s lies more than two deviations from the mean %s (std %s)" % (v.ravel()[np.abs(v - mean).argmax()], mean, std))
    if n >= 2000:
        z = np.sort((v.ravel() - mean) / std)
        phi = np.array([0.5 * (1 + math.erf(a / math.sqrt(2))) for a in z])
        lo, hi = 0.5 * (1 + math.erf(-math.sqrt(2))), 0.5 * (1 + math.erf(math.sqrt(2)))
        d = np.abs((phi - lo) / (hi - lo) - (np.arange(n) + 0.5) / n).max()
        if d > 3.3 / math.sqrt(n):      # Kolmogorov-Smirnov, chance below 1e-9
            fail("%d samples lie %.3f off the distribution of a truncated normal" % (n, d))
    return {"nontrivial": n >= 2, "labels": ["distribution"] if n >= 2000 else []}


NAMES = st.sampled_from([None, "w", "layer one", "a name that is much longer than thirty characters"])
PROP = Prop("C40",
            "outlier: random tensors of any type and magnitude; the three numbers printed against double precision. report: random monitored streams; every number of "
            "every line printed against double precision. truncated: bounds, shape, type, and for large tensors a Kolmogorov-Smirnov test. Non-trivial: some but not all "
            "are outliers; an error that is not small; two samples or more.",
            [Check("outlier", st.fixed_dictionaries({"shape": shapes(), "x": Q.data(), "dt": st.sampled_from(["f32", "f32", "f64"]), "name": NAMES, "gseed": gseeds}), outlier, 1500),
             Check("report", st.fixed_dictionaries({"shape": shapes(), "T": lengths(1, 120), "x": streams(), "mode": mode_names(), "scale": st.sampled_from([1, 1, 2, 0.5]),
                                                    "report_value": st.sampled_from([None, False, True, True]), "report_relative": st.sampled_from([None, False, True, True]),
                                                    "name": NAMES, "gseed": gseeds}), report, 800),
             Check("truncated", st.fixed_dictionaries({"shape": st.one_of(shapes(), st.sampled_from([[2000], [60, 50], [10, 20, 30]])), "dt": st.sampled_from(["f32", "f32", "f64"]),
                                                       "mean": st.sampled_from([0.0, 1.0, -3.5, 0.25]), "std": st.sampled_from([0.01, 1.0, 0.3, 20.0]), "given": st.booleans(),
                                                       "gseed": gseeds}), truncated, 800)],
            ["The error relative to a value of zero is not compared."])
