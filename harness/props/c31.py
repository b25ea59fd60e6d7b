import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from harness.core import Prop, Check, fail
from harness.gen import gseeds
from harness.props.c20 import arg
from UnarySim.kernel import conv2d_output_shape, convtransp2d_output_shape, conv2d_get_padding, convtransp2d_get_padding, num2tuple


def axis(lo, hi):
    one = st.one_of(*[st.integers(lo, hi)] * 5, st.integers(lo, 8 * hi + 3))
    return st.one_of(one, st.tuples(one, one).map(list))


def pads():
    return st.one_of(axis(0, 3), st.lists(st.lists(st.integers(0, 3), min_size=2, max_size=2), min_size=2, max_size=2))


def p4(p):
    """torch order (left, right, top, bottom)."""
    p = [p, p] if not isinstance(p, list) else p
    p = [[v, v] if not isinstance(v, list) else v for v in p]
    return p[1] + p[0]


def parg(p):
    return tuple(tuple(v) if isinstance(v, list) else v for v in p) if isinstance(p, list) else p


def pr(v):
    return tuple(v) if isinstance(v, list) else (v, v)


def forward(c):
    x = torch.zeros(1, 1, *pr(c["hw"]))
    p = p4(c["pad"])
    got = conv2d_output_shape(arg(c["hw"]), kernel_size=arg(c["kernel"]), stride=arg(c["stride"]), pad=parg(c["pad"]), dilation=arg(c["dilation"]))
    k, d = pr(c["kernel"]), pr(c["dilation"])
    xp = F.pad(x, p)
    if xp.shape[2] < d[0] * (k[0] - 1) + 1 or xp.shape[3] < d[1] * (k[1] - 1) + 1:
        return {"nontrivial": False, "labels": ["image too small"]}
    y = F.conv2d(xp, torch.zeros(1, 1, *k), stride=pr(c["stride"]), dilation=d)
    if tuple(got) != tuple(y.shape[2:]):
        fail("conv2d_output_shape gives %s, the convolution %s" % (got, tuple(y.shape[2:])))
    return {"nontrivial": y.shape[2] > 1 or y.shape[3] > 1, "labels": []}


def transposed(c):
    k, d, s = pr(c["kernel"]), pr(c["dilation"]), pr(c["stride"])
    op = pr(c["out_pad"])
    got = convtransp2d_output_shape(arg(c["hw"]), kernel_size=arg(c["kernel"]), stride=arg(c["stride"]), pad=parg(c["pad"]), dilation=arg(c["dilation"]), out_pad=arg(c["out_pad"]))
    if op[0] >= max(s[0], d[0]) or op[1] >= max(s[1], d[1]):
        return {"nontrivial": False, "labels": ["output padding not allowed"]}
    y = F.conv_transpose2d(torch.zeros(1, 1, *pr(c["hw"])), torch.zeros(1, 1, *k), stride=s, dilation=d, output_padding=op)
    l, r, a, b = p4(c["pad"])
    want = (y.shape[2] - a - b, y.shape[3] - l - r)
    if tuple(got) != want:
        fail("convtransp2d_output_shape gives %s, the convolution %s" % (got, want))
    return {"nontrivial": True, "labels": []}


def padding(c):
    """The padding returned leads to the output asked for, split as evenly as can be."""
    hi, ho = pr(c["hw"]), pr(c["out"])
    if c["transp"]:
        p = convtransp2d_get_padding(arg(c["hw"]), arg(c["out"]), kernel_size=arg(c["kernel"]), stride=arg(c["stride"]), dilation=arg(c["dilation"]), out_pad=arg(c["out_pad"]))
        o = convtransp2d_output_shape(arg(c["hw"]), kernel_size=arg(c["kernel"]), stride=arg(c["stride"]), pad=p, dilation=arg(c["dilation"]), out_pad=arg(c["out_pad"]))
    else:
        p = conv2d_get_padding(arg(c["hw"]), arg(c["out"]), kernel_size=arg(c["kernel"]), stride=arg(c["stride"]), dilation=arg(c["dilation"]))
        o = conv2d_output_shape(arg(c["hw"]), kernel_size=arg(c["kernel"]), stride=arg(c["stride"]), pad=p, dilation=arg(c["dilation"]))
    if tuple(o) != ho:
        fail("padding %s leads to %s, not to %s" % (p, o, ho))
    for a, b in p:
        if not (0 <= b - a <= 1) or a != int(a) or b != int(b):
            fail("padding %s is not split evenly" % (p,))
    return {"nontrivial": True, "labels": ["transposed" if c["transp"] else "convolution"]}


GEO = {"hw": axis(1, 9), "kernel": axis(1, 4), "stride": axis(1, 3), "dilation": axis(1, 3), "gseed": gseeds}
PROP = Prop("C31",
            "Random image, kernel, stride, dilation, padding (one number, per axis, per side), output padding; shapes against those of torch's convolutions, padding "
            "against the shape it leads to. Non-trivial: the convolution exists and is larger than one pixel.",
            [Check("conv", st.fixed_dictionaries(dict(GEO, pad=pads())), forward, 2000), Check("transposed", st.fixed_dictionaries(dict(GEO, pad=pads(), out_pad=axis(0, 2))), transposed, 2000),
             Check("padding", st.fixed_dictionaries(dict(GEO, out=axis(1, 9), out_pad=axis(0, 2), transp=st.booleans())), padding, 2000)], [])
