"""Reference models, written from the published definitions of the units; integers and numpy only."""
import numpy as np
import math
import torch


# ---------------------------------------------------------------- sequences
def van_der_corput(width):
    """Sobol dimension 1: the bit-reversal sequence in Gray-code order."""
    n = 1 << width
    out = np.zeros(n, dtype=np.int64)
    x = 0
    for i in range(n):
        out[i] = x
        c = 0
        v = i
        while v & 1:
            v >>= 1
            c += 1
        if c < width:
            x ^= 1 << (width - 1 - c)
    return out


def sobol(width, dimr):
    """First 2**width points of one Sobol dimension, as integers; dimension 1 is written out, others are torch's."""
    if dimr == 1:
        return van_der_corput(width)
    d = torch.quasirandom.SobolEngine(dimr).draw(1 << width)[:, dimr - 1].double().numpy()
    return np.floor(d * (1 << width)).astype(np.int64)


def sequence(name, width, dimr):
    name = name.lower()
    if name in ("sobol", "rc"):
        return sobol(width, dimr)
    if name in ("race", "tc"):
        return np.arange(1 << width, dtype=np.int64)
    if name in ("race10", "tc10"):
        return np.arange(1 << width, dtype=np.int64)[::-1].copy()
    raise ValueError(name)


def prob_of(k, width, mode):
    """The value a count k out of 2**width encodes."""
    p = k / float(1 << width)
    return p if mode == "unipolar" else 2 * p - 1


# ---------------------------------------------------------------- stream conversion
class SkewedSync:
    def __init__(self, depth, shape):
        self.top = 2 ** depth - 1
        self.cnt = np.zeros(shape, dtype=np.int64)

    def step(self, a, b):
        a = a.astype(np.int64); b = b.astype(np.int64)
        out = a.copy()
        give = (a == 0) & (b == 1) & (self.cnt > 0)
        keep = (a == 1) & (b == 0) & (self.cnt < self.top)
        out[give] = 1
        out[keep] = 0
        self.cnt = self.cnt - give + keep
        return out, b


class Bi2Uni:
    def __init__(self, depth, shape):
        self.lim = 2 ** (depth - 2)
        self.acc = np.zeros(shape, dtype=np.int64)

    def step(self, x):
        self.acc = np.clip(self.acc + 2 * x.astype(np.int64) - 1, -self.lim, self.lim)
        out = (self.acc >= 1).astype(np.int64)
        self.acc = self.acc - out
        return out


class Uni2Bi:
    def __init__(self, depth, shape):
        self.lim = 2 ** (depth - 2)
        self.acc = np.zeros(shape, dtype=np.int64)

    def step(self, x):
        self.acc = np.clip(self.acc + x.astype(np.int64) + 1, -self.lim, self.lim)
        out = (self.acc >= 2).astype(np.int64)
        self.acc = self.acc - 2 * out
        return out


class Add:
    """Accumulate the offset parallel count; carry when a full scale is reached.  All in halves (exact for .5 offsets)."""
    def __init__(self, mode, scale, entry, depth, shape):
        self.lim = 2 ** (depth - 2)
        self.scale = scale
        self.off = (entry - scale) / 2.0 if mode == "bipolar" else 0.0
        self.acc = np.zeros(shape, dtype=np.float64)

    def step(self, count):
        self.acc = np.clip(self.acc + count - self.off, -self.lim, self.lim)
        out = (self.acc >= self.scale).astype(np.int64)
        self.acc = np.clip(self.acc - out * self.scale, -self.lim, self.lim)
        return out


# ---------------------------------------------------------------- arithmetic
class MulStatic:
    """One stream multiplied by a constant k/2**width: the generator advances only when enabled."""
    def __init__(self, mode, k, seq, shape):
        self.mode, self.seq = mode, seq
        self.k = np.broadcast_to(k, shape).astype(np.int64)
        self.i1 = np.zeros(shape, dtype=np.int64)
        self.i0 = np.zeros(shape, dtype=np.int64)

    def step(self, x):
        x = x.astype(np.int64)
        L = len(self.seq)
        on = (self.k > self.seq[self.i1 % L]).astype(np.int64)
        out = x * on
        self.i1 = self.i1 + x
        if self.mode == "bipolar":
            off = 1 - (self.k > self.seq[self.i0 % L]).astype(np.int64)
            out = out + (1 - x) * off
            self.i0 = self.i0 + 1 - x
        return out


class ShiftReg:
    """Newest bit enters at entry-1, slot 0 is the oldest; starts alternating 0,1,0,1,..."""
    def __init__(self, entry, shape):
        self.entry = entry
        self.r = np.zeros([entry] + list(shape), dtype=np.int64)
        self.r[1::2] = 1

    def count(self):
        return self.r.sum(0)

    def push(self, x, mask=None):
        x = x.astype(np.int64)
        nxt = np.concatenate([self.r[1:], x[None]], 0)
        if mask is None:
            self.r = nxt
        else:
            self.r = np.where(mask.astype(bool)[None], nxt, self.r)


class MulInStream:
    def __init__(self, mode, width, seq, shape):
        self.mode, self.seq = mode, seq
        self.sr = ShiftReg(2 ** width, shape)
        self.i1 = np.zeros(shape, dtype=np.int64)
        self.i0 = np.zeros(shape, dtype=np.int64)

    def step(self, x, y):
        x = x.astype(np.int64)
        L = len(self.seq)
        c = self.sr.count()
        self.sr.push(y)
        out = x * (c > self.seq[self.i1 % L])
        self.i1 = self.i1 + x
        if self.mode == "bipolar":
            out = out + (1 - x) * (1 - (c > self.seq[self.i0 % L]))
            self.i0 = self.i0 + 1 - x
        return out.astype(np.int64)


class Cordiv:
    def __init__(self, entry, seq, shape):
        self.sr = ShiftReg(entry, shape)
        self.seq, self.i, self.entry = seq, 0, entry

    def step(self, a, b):
        hist = self.sr.r[self.seq[self.i % self.entry]]
        self.i += 1
        q = np.where(b == 1, a, hist).astype(np.int64)
        self.sr.push(q, b == 1)
        return q


class SignAbs:
    def __init__(self, depth, shape):
        self.top, self.half = 2 ** depth - 1, 2 ** (depth - 1)
        self.acc = np.full(shape, self.half, dtype=np.int64)

    def step(self, x):
        x = x.astype(np.int64)
        self.acc = np.clip(self.acc + 2 * x - 1, 0, self.top)
        sign = (self.acc < self.half).astype(np.int64)
        return sign, sign ^ x


class ReLU:
    def __init__(self, depth, shape):
        self.top, self.half = 2 ** depth - 1, 2 ** (depth - 1)
        self.acc = np.full(shape, self.half, dtype=np.int64)

    def step(self, x):
        out = x.astype(np.int64) | (self.acc < self.half).astype(np.int64)
        self.acc = np.clip(self.acc + 2 * out - 1, 0, self.top)
        return out


class Div:
    def __init__(self, mode, depth_sa, depth_ss, entry_kn, seq, shape):
        self.mode = mode
        self.ss = SkewedSync(depth_ss, shape)
        self.kn = Cordiv(entry_kn, seq, shape)
        if mode == "bipolar":
            self.sa = SignAbs(depth_sa, shape), SignAbs(depth_sa, shape)
            self.bu = Bi2Uni(3, shape), Bi2Uni(3, shape)
            self.ub = Uni2Bi(4, shape)

    def step(self, a, b):
        if self.mode == "unipolar":
            return self.kn.step(*self.ss.step(a, b))
        s1, a1 = self.sa[0].step(a)
        s2, b1 = self.sa[1].step(b)
        q = self.kn.step(*self.ss.step(self.bu[0].step(a1), self.bu[1].step(b1)))
        return s1 ^ s2 ^ self.ub.step(q)


class JKFF:
    def __init__(self, shape):
        self.q = np.zeros(shape, dtype=np.int64)

    def step(self, j, k):
        self.q = np.where(self.q == 0, j, 1 - k).astype(np.int64)
        return self.q


class Sqrt:
    def __init__(self, mode, jk, emit, entry_sr, seq4, shape):
        self.mode, self.jk, self.emit = mode, jk, emit
        self.b2u = Bi2Uni(3, shape)
        if emit:
            self.add = Add("unipolar", 1, 2, 10, shape)
            self.sr = ShiftReg(entry_sr, shape)
            self.fb = np.zeros(shape, dtype=np.int64)
        else:
            self.fb = np.zeros(shape, dtype=np.int64)
            if jk:
                self.ff = JKFF(shape)
            else:
                self.kn = Cordiv(4, seq4, shape)
                self.d = 0

    def step(self, x):
        x = x.astype(np.int64)
        if self.emit:
            out = self.add.step(x + self.fb)
            old = self.sr.r[0]
            self.sr.push(1 - out)
            u = self.b2u.step(out) if self.mode == "bipolar" else out
            self.fb = old & u
            return out
        out = np.where(self.fb == 1, 1, x)
        u = self.b2u.step(out) if self.mode == "bipolar" else out
        if self.jk:
            self.fb = self.ff.step(u, np.ones_like(u))
        else:
            a = (1 - self.d) & u
            self.fb = self.kn.step(a, self.d + a)
            self.d = 1 - self.d
        return out


# ---------------------------------------------------------------- matrix
class LinearPC:
    """Count of ones over the products of one batch row and each weight row, plus the bias bit."""
    def __init__(self, mode, kw, kb, seq, temporal):
        self.mode, self.kw, self.kb, self.seq, self.temporal = mode, kw.astype(np.int64), kb, seq, temporal
        self.i1 = self.i0 = None
        self.t = 0

    def step(self, x):
        # x [B, in] -> [B, out]
        x = x.astype(np.int64)
        L = len(self.seq)
        B = x.shape[0]
        if self.temporal:
            w = (self.kw > self.seq[self.t % L]).astype(np.int64)        # [out, in]
            pc = x @ w.T
            if self.mode == "bipolar":
                pc = pc + (1 - x) @ (1 - w).T
        else:
            if self.i1 is None:
                self.i1 = np.zeros(x.shape, dtype=np.int64)
                self.i0 = np.zeros(x.shape, dtype=np.int64)
            w1 = self.kw[None] > self.seq[self.i1 % L][:, None, :]        # [B, out, in]
            pc = (w1 * x[:, None, :]).sum(2)
            self.i1 = self.i1 + x
            if self.mode == "bipolar":
                w0 = self.kw[None] > self.seq[self.i0 % L][:, None, :]
                pc = pc + ((~w0) * (1 - x)[:, None, :]).sum(2)
                self.i0 = self.i0 + 1 - x
        if self.kb is not None:
            pc = pc + (self.kb > self.seq[self.t % L])[None]
        self.t += 1
        return pc


def unfold(x, kernel, dilation, stride):
    """x [B, C, H, W] already padded -> [B, oh*ow, C*kh*kw] and (oh, ow)."""
    kh, kw = kernel; dh, dw = dilation; sh, sw = stride
    B, C, H, W = x.shape
    oh = (H - dh * (kh - 1) - 1) // sh + 1
    ow = (W - dw * (kw - 1) - 1) // sw + 1
    out = np.zeros((B, oh * ow, C * kh * kw), dtype=x.dtype)
    for b in range(B):
        for i in range(oh):
            for j in range(ow):
                p = x[b, :, i * sh:i * sh + dh * (kh - 1) + 1:dh, j * sw:j * sw + dw * (kw - 1) + 1:dw]
                out[b, i * ow + j] = p.reshape(-1)
    return out, (oh, ow)


def pad(x, p, val):
    return np.pad(x, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])), constant_values=val)


def pair(v):
    return tuple(v) if isinstance(v, (list, tuple)) else (v, v)
