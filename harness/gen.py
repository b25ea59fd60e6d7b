"""Strategies (what is generated) and the streams the cases describe."""
import zlib
import numpy as np
import torch
from hypothesis import strategies as st

RATE = ["sobol", "rc"]                    # deterministic, a permutation of 0..n-1
TEMP_UP = ["race", "tc"]
TEMP_DN = ["race10", "tc10"]
PSEUDO = ["lfsr", "sys"]                  # drawn from global generators when constructed
ALL_RNG = RATE + TEMP_UP + TEMP_DN + PSEUDO
DET_RNG = RATE + TEMP_UP + TEMP_DN

DT = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16, "bf16": torch.bfloat16,
      "i8": torch.int8, "u8": torch.uint8, "i16": torch.int16, "i32": torch.int32, "i64": torch.int64}


def case_mix(name):
    """The documented names are case-insensitive."""
    return st.sampled_from([name, name.upper(), name.capitalize()])


def rng_names(names):
    return st.sampled_from(names).flatmap(case_mix)


def mode_names():
    return st.sampled_from(["unipolar", "bipolar", "bipolar", "unipolar", "Unipolar", "BIPOLAR"])


gseeds = st.integers(0, 2 ** 31 - 1)


BIG = [[130], [33, 7], [2, 3, 2, 2, 2], [1, 1, 1, 1, 1, 2], [1, 65], [70, 1], [5, 4, 11], [1300], [2, 3, 350]]


def shapes(max_dims=3, max_side=4, min_dims=1):
    small = st.lists(st.integers(1, max_side), min_size=min_dims, max_size=max_dims)
    return st.one_of(*[small] * 9, st.sampled_from(BIG)) if max_dims >= 3 and max_side >= 4 else small


def dims(hi=5):
    """Dimension of a Sobol sequence."""
    return st.one_of(st.integers(1, hi), st.integers(1, hi), st.integers(1, 64))


def lengths(lo=1, hi=300):
    """Stream lengths: short ones, powers of two and their neighbours, long ones."""
    opts = [v for b in range(0, 12) for v in (2 ** b - 1, 2 ** b, 2 ** b + 1) if lo <= v <= hi]
    return st.one_of(st.integers(lo, min(hi, max(lo, 24))), st.integers(lo, hi), st.sampled_from(opts or [lo]))


KINDS = ["mix", "bern", "burst", "extreme", "runs", "alt"]
LONG_KINDS = ["mix", "swing", "swing", "swing", "burst", "extreme", "bern"]


def streams(kinds=KINDS):
    """A bitstream (or a tensor of them), described by seed and kind."""
    return st.fixed_dictionaries({"seed": gseeds, "kind": st.sampled_from(kinds)})


def make_bits(spec, T, shape):
    """int8 array [T, *shape] of 0/1 described by spec; a prefix of a longer one with the same spec."""
    n = int(np.prod(shape)) if len(shape) else 1
    kinds = {"mix": None, "bern": [0], "burst": [1], "extreme": [2], "runs": [3], "alt": [4], "swing": [6]}[spec["kind"]]
    out = np.zeros((T, n), dtype=np.int8)
    for i in range(n):
        q = np.random.default_rng([spec["seed"], i])
        k = int(q.integers(0, 6)) if kinds is None else kinds[0]
        if k == 0 or k == 5:      # Bernoulli of any value
            p = q.random()
            out[:, i] = q.random(T) < p
        elif k == 1:              # a sticky two-state chain: long bursts of 0 and 1
            stay = 1 - q.random() * 0.2
            b = int(q.integers(0, 2))
            out[:, i] = (b + np.cumsum(q.random(T) > stay)) % 2
        elif k == 2:              # nearly constant
            p = [0.0, 1.0, 0.02, 0.98][int(q.integers(0, 4))]
            out[:, i] = q.random(T) < p
        elif k == 3:              # a few long runs
            t, b = 0, int(q.integers(0, 2))
            while t < T:
                L = int(q.integers(1, 80))
                out[t:t + L, i] = b
                t += L
                b = 1 - b
        elif k == 6:              # long stretches of nearly constant value: far excursions, then back
            t, p = 0, 0.0
            while t < T:
                L = int(q.integers(60, 1300))
                p = [0.02, 0.0, 0.3, 0.7, 1.0, 0.98][int(q.integers(0, 6))]
                out[t:t + L, i] = q.random(len(out[t:t + L])) < p
                t += L
        else:                     # periodic with drifting phase
            per = int(q.integers(2, 6))
            on = int(q.integers(1, per))
            out[:, i] = (np.arange(T) + int(q.integers(0, per))) % per < on
    j = spec["seed"] % 7919           # the operands of one unit have seeds 7919 apart
    if j % 4 == 3:                    # cycles in which every bit of every operand is 1, or 0
        u = np.random.default_rng([j, 1]).random(T)
        out[u < 0.12], out[u > 0.88] = 1, 0
    return out.reshape([T] + list(shape))


def values(spec, shape, lo, hi):
    """float64 array of values within [lo, hi]; the ends, 0 and 0.5 are frequent."""
    r = np.random.default_rng(spec)
    n = int(np.prod(shape)) if len(shape) else 1
    v = r.random(n) * (hi - lo) + lo
    special = np.array([lo, hi, 0.0, 0.5, (lo + hi) / 2, hi - 1e-6])
    m = r.random(n) < 0.25
    v[m] = special[r.integers(0, len(special), n)][m]
    return np.clip(v, lo, hi).reshape(shape)


LAYOUT, GRAD = None, False     # set by C47; None: by the content


def t(a, dt="f32"):
    """A tensor of these numbers, which never shares memory with a, in one of several layouts."""
    x = torch.from_numpy(np.array(a, order="C", copy=True)).to(DT[dt])
    if x.dim() and x.numel() > 1 and LAYOUT != "plain":
        m = LAYOUT or ["transposed", "strided", "plain", "plain"][zlib.crc32(x.to(torch.float64).numpy().tobytes()) % 4]
        rev = list(range(x.dim() - 1, -1, -1))
        if m == "transposed":
            x = x.permute(rev).contiguous().permute(rev) if x.dim() > 1 else torch.stack([x, x + 1], 1)[:, 0]
        elif m == "strided":
            x = torch.stack([x + 1, x], -1)[..., 1]
        elif m == "offset":
            x = torch.cat([x + 1, x, x + 1])[x.size(0):2 * x.size(0)]
        elif m == "expanded" and bool((x == x[:1]).all()):
            x = x[:1].expand(x.shape)
    return x.requires_grad_() if GRAD and x.is_floating_point() else x


def npy(x):
    x = x.detach()
    return x.to(torch.float64).numpy() if x.dtype in (torch.float16, torch.bfloat16) else x.numpy()
