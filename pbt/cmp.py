"""Comparisons with stated tolerances."""

from __future__ import annotations

import numpy as np
import torch

from .core import Violation


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def as_np(t, what="result"):
    if not isinstance(t, torch.Tensor):
        raise Violation(f"{what} is a {type(t).__name__}, not a tensor")
    t = t.detach()
    if t.is_sparse or t.layout != torch.strided:
        t = t.to_dense()
    return t.numpy()


def maxabs(*arrays):
    m = 0.0
    for a in arrays:
        a = np.asarray(a)
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m


def close(got, ref, tol, what, dtype=None):
    """``|got - ref| <= tol`` everywhere, same shape, (optionally) same dtype."""
    if dtype is not None and isinstance(got, torch.Tensor):
        require(got.dtype == dtype, f"{what}: dtype {got.dtype}, expected {dtype}")
    g = as_np(got, what)
    ref = np.asarray(ref)
    require(
        tuple(g.shape) == tuple(ref.shape),
        f"{what}: shape {tuple(g.shape)}, expected {tuple(ref.shape)}",
    )
    if g.size == 0:
        return
    cplx = np.iscomplexobj(ref)
    require(np.iscomplexobj(g) == cplx, f"{what}: complex/real mismatch")
    g = g.astype(np.complex128 if cplx else np.float64)
    err = np.abs(g - ref)
    if not np.all(np.isfinite(g)) and np.all(np.isfinite(ref)):
        raise Violation(f"{what}: not finite")
    m = float(np.max(err))
    if not m <= tol:
        i = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation(
            f"{what}: differs at {tuple(int(k) for k in i)}: {g[i]!r} expected {ref[i]!r} "
            f"(max error {m:.3g}, tolerance {tol:.3g})"
        )
