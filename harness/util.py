import numpy as np
from harness.core import fail
from harness.gen import npy, DT


def same(got, want, what):
    """got (tensor) equals want (array) in shape and in every element."""
    g = npy(got)
    w = np.asarray(want)
    if list(g.shape) != list(w.shape):
        fail("%s: shape %s, expected %s" % (what, list(g.shape), list(w.shape)))
    if not np.array_equal(g.astype(np.float64), w.astype(np.float64)):
        bad = np.argwhere(g.astype(np.float64) != w.astype(np.float64))
        i = tuple(int(v) for v in bad[0])
        fail("%s: element %s is %s, expected %s (%d of %d elements differ)" % (what, i, g[i], w[i], len(bad), g.size))


def close(got, want, tol, what):
    g = npy(got).astype(np.float64) if hasattr(got, "detach") else np.asarray(got, dtype=np.float64)
    w = np.asarray(want, dtype=np.float64)
    if list(g.shape) != list(w.shape):
        fail("%s: shape %s, expected %s" % (what, list(g.shape), list(w.shape)))
    d = np.abs(g - w)
    bad = ~(d <= tol)          # a nan is bad
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        fail("%s: element %s is %s, expected %s within %s" % (what, i, g[i], w[i], np.broadcast_to(tol, d.shape)[i]))


def dtype_is(got, dt, what):
    if got.dtype != DT[dt]:
        fail("%s: dtype %s, expected %s" % (what, got.dtype, DT[dt]))


def bits_only(got, what):
    g = npy(got)
    if not np.isin(g, (0, 1)).all():
        fail("%s: not a bitstream, holds %s" % (what, sorted(set(g.ravel().tolist()))[:6]))
