"""Older PyTorch scaled float tensors by powers of two with << and >>; kernel/utils.py Round still needs that (a recorded finding)."""
import contextlib
import torch


@contextlib.contextmanager
def float_shifts():
    T = torch.Tensor
    old = T.__lshift__, T.__rshift__

    def lshift(a, n):
        return a * 2.0 ** n if a.is_floating_point() else old[0](a, n)

    def rshift(a, n):
        return a * 2.0 ** (-n) if a.is_floating_point() else old[1](a, n)
    T.__lshift__, T.__rshift__ = lshift, rshift
    try:
        yield
    finally:
        T.__lshift__, T.__rshift__ = old
