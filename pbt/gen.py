"""Generators: every strategy draws plain JSON values; builders turn them into tensors."""

from __future__ import annotations

import functools

import numpy as np
import pywt
import torch
from hypothesis import strategies as st

MODES = ["zero", "constant", "symmetric", "reflect", "periodic"]


@functools.lru_cache(None)
def wav(name):
    """pywt wavelet of a name; 'lattice:a,b,..' is an orthonormal bank that pywt does not have."""
    if not name.startswith("lattice:"):
        return pywt.Wavelet(name)
    angles = [float(a) for a in name[8:].split(",")]
    lo, hi = np.array([1.0, 0.0]), np.array([0.0, 1.0])
    for i, a in enumerate(angles):
        if i:
            # paraunitary lattice: delay of the second branch by one polyphase sample
            lo, hi = np.append(lo, [0.0, 0.0]), np.append([0.0, 0.0], hi)
        lo, hi = np.cos(a) * lo + np.sin(a) * hi, -np.sin(a) * lo + np.cos(a) * hi
    return pywt.Wavelet(name, filter_bank=[list(lo), list(hi), list(lo[::-1]), list(hi[::-1])])


@functools.lru_cache(None)
def lattice_pool(max_len):
    """Orthonormal banks of 2 to 10 taps whose truncated filters stay well conditioned."""
    rng = np.random.default_rng(20)
    out = []
    for taps in (2, 4, 4, 4, 6, 6, 6, 8, 8, 10, 10):
        if taps > max_len:
            break
        for _ in range(2000):
            angles = rng.uniform(-np.pi, np.pi, taps // 2)
            name = "lattice:" + ",".join(f"{a:.3f}" for a in angles)
            w, n = wav(name), 2 * taps
            if np.abs(w.dec_lo).min() < 0.1 / taps:
                continue
            rows = np.zeros((n, n))
            for f, off in ((w.dec_lo, 0), (w.dec_hi, n // 2)):
                for r in range(n // 2):
                    for j in range(taps):
                        c = 2 * r - (taps // 2 - 1) + j
                        if 0 <= c < n:
                            rows[off + r, c] += f[::-1][j]
            if np.linalg.svd(rows, compute_uv=False)[-1] > 0.08:
                out.append(name)
                break
    return out


@functools.lru_cache(None)
def wav_pool(max_len, orth=False):
    """Discrete wavelets of pywt with filters of at most ``max_len`` taps."""
    out = []
    for n in pywt.wavelist(kind="discrete"):
        w = wav(n)
        if w.dec_len > max_len:
            continue
        if orth and not (w.orthogonal and n != "dmey"):
            continue
        out.append(n)
    return out


@functools.lru_cache(None)
def gain(name):
    """Largest l1 norm of the four filters: bounds the growth of one axis and level."""
    w = wav(name)
    return max(1.0, max(float(np.sum(np.abs(f))) for f in w.filter_bank))


@functools.lru_cache(None)
def pr_error(name):
    """How far pywt's own coefficients are from perfect reconstruction (per level)."""
    w = wav(name)
    n = max(64, 2 * w.dec_len)
    rng = np.random.default_rng(7)
    x = rng.standard_normal(n)
    r = pywt.idwt(*pywt.dwt(x, w, mode="zero"), w, mode="zero")[:n]
    return float(np.max(np.abs(r - x)))


COMMON = ["haar", "db2", "db3", "db4", "sym4", "coif1", "bior2.2", "rbio1.3", "bior3.1"]


@st.composite
def wavelets(draw, max_len=100, orth=False, custom=False):
    if custom and draw(st.integers(0, 15)) == 15:
        return draw(st.sampled_from(lattice_pool(max_len)))
    pool = wav_pool(max_len, orth)
    common = [c for c in COMMON if c in pool]
    if draw(st.integers(0, 9)) < 5:
        return draw(st.sampled_from(common))
    return draw(st.sampled_from(pool))


def level_lengths(n, L, level):
    out = [n]
    for _ in range(level):
        out.append((out[-1] + L - 1) // 2)
    return out


def step_ok(n, L, mode):
    """Is a signal of length ``n`` long enough for torch's padding?"""
    pad = L - 2 + n % 2
    if mode == "reflect":
        return pad < n
    if mode == "periodic":
        return pad <= n
    return n >= 1


def max_valid_level(n, L, mode, cap):
    lev = 0
    while lev < cap and step_ok(n, L, mode):
        n = (n + L - 1) // 2
        lev += 1
    return lev


def min_len(L, mode):
    """Smallest length that can be transformed at least once."""
    if mode == "reflect":
        return L if L > 2 else 2
    if mode == "periodic":
        return max(1, L - 1)
    return 1


DATA_KINDS = [
    "impulse", "ramp", "ints", "normal", "normal", "normal", "large", "tiny", "sine", "sparse", "constant", "same_rows",
]


@st.composite
def data_spec(draw):
    return {"kind": draw(st.sampled_from(DATA_KINDS)), "seed": draw(st.integers(0, 2**32 - 1))}


def build_np(spec, shape):
    """Deterministic float64 array for a data spec."""
    rng = np.random.default_rng(spec["seed"])
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    k = spec["kind"]
    if k == "impulse":
        x = np.zeros(n)
        if n:
            x[spec["seed"] % n] = 1.0
    elif k == "zeros":
        x = np.zeros(n)
    elif k == "ramp":
        x = np.arange(1, n + 1, dtype=np.float64)
    elif k == "ints":
        x = rng.integers(-9, 10, n).astype(np.float64)
    elif k == "normal":
        x = rng.standard_normal(n)
    elif k == "large":
        x = rng.standard_normal(n) * 1e6
    elif k == "tiny":
        x = rng.standard_normal(n) * 1e-6
    elif k == "sine":
        x = np.sin(np.arange(n) * (0.05 + 2.9 * rng.random())) + 0.5
    elif k == "sparse":
        x = rng.standard_normal(n) * (rng.random(n) < 0.15)
    elif k == "same_rows":
        # the entries along the first axis are all equal
        rows = shape[0] if shape else 1
        x = np.tile(rng.standard_normal(n // max(1, rows)), rows)
    else:
        x = np.full(n, float(rng.integers(1, 9)))
    return x.reshape(shape)


DT = {"f32": torch.float32, "f64": torch.float64}


@st.composite
def dtypes(draw):
    return draw(st.sampled_from(["f64", "f64", "f64", "f32"]))


LAYOUTS = ["plain", "plain", "transposed", "strided", "flipped", "offset", "grad"]


@st.composite
def layouts(draw):
    return draw(st.sampled_from(LAYOUTS))


def to_tensor(x, dtype="f64", layout="plain"):
    """Tensor with the values of ``x`` in the asked memory layout."""
    t = torch.from_numpy(np.ascontiguousarray(x)).to(DT[dtype]).clone()
    if layout == "transposed" and t.dim() >= 2:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif layout == "strided" and t.dim() >= 1:
        big = torch.full(list(t.shape[:-1]) + [2 * t.shape[-1]], 7.5, dtype=t.dtype)
        big[..., ::2] = t
        t = big[..., ::2]
    elif layout == "flipped" and t.dim() >= 2:
        t = t.movedim(-1, 0).contiguous().movedim(0, -1)
    elif layout == "offset":
        big = torch.full([t.numel() + 3], -3.25, dtype=t.dtype)
        big[3:] = t.reshape(-1)
        t = big[3:].reshape(t.shape)
    elif layout == "grad":
        t = t.requires_grad_(True)
    return t


@st.composite
def arrangement(draw, d, max_batch_dims=3, allow_default=True):
    """Where the ``d`` transformed axes sit among the batch axes.

    ``axes`` is null for "do not pass the argument".  ``pos`` are the
    non-negative positions of the transformed axes, in order.
    """
    nb = draw(st.integers(0, max_batch_dims))
    b = [draw(st.integers(1, 3)) for _ in range(nb)]
    if nb == max_batch_dims >= 2 and draw(st.integers(0, 7)) == 7:
        # more axes than usual
        nb = draw(st.integers(3, 5))
        b = [draw(st.integers(1, 2)) for _ in range(nb)]
    if nb and draw(st.integers(0, 15)) == 15:
        b[draw(st.integers(0, nb - 1))] = draw(st.sampled_from([4, 5, 8, 13, 17, 33]))
    nd = nb + d
    if draw(st.booleans()) and allow_default:
        pos = list(range(nb, nd))
        axes = None if draw(st.booleans()) else [p - nd for p in pos]
    else:
        pos = list(draw(st.permutations(range(nd))))[:d]
        axes = [p - nd if draw(st.booleans()) else p for p in pos]
    return {"batch": b, "pos": pos, "axes": axes}


@st.composite
def widened(draw, arr, n, limit=24000):
    """One case in 24: a batch axis that is much longer than usual."""
    if arr["batch"] and draw(st.integers(0, 23)) == 23:
        i = draw(st.integers(0, len(arr["batch"]) - 1))
        rest = int(np.prod(n)) * int(np.prod(arr["batch"])) // arr["batch"][i]
        top = min(1100, limit // max(1, rest))
        if draw(st.integers(0, 5)) == 5:
            # as many entries as a large data set has
            top = min(12000, 10 * limit // max(1, rest))
        if top > 33:
            arr["batch"][i] = draw(st.integers(33, top))
    return arr


def full_shape(arr, tshape):
    nd = len(arr["batch"]) + len(tshape)
    shape = [None] * nd
    for p, n in zip(arr["pos"], tshape):
        shape[p] = n
    b = list(arr["batch"])
    return [b.pop(0) if s is None else s for s in shape]


@st.composite
def size(draw, lo, hi):
    """A length in [lo, hi], with weight on the lower end and both parities."""
    hi = max(lo, hi)
    if draw(st.integers(0, 3)) == 0 or hi - lo > 1000:
        return draw(st.integers(lo, hi))
    return draw(st.integers(lo, min(hi, lo + 24)))


@st.composite
def dwt_case(draw, d, max_len, hi, level_cap, lo_extra=0, custom=False):
    """Wavelet, mode, level and sizes for which the padded transform is defined."""
    w = draw(wavelets(max_len, custom=custom))
    L = wav(w).dec_len
    mode = draw(st.sampled_from(MODES + ["reflect"]))
    lo = min_len(L, mode) + lo_extra
    if mode == "reflect" and L > 2:
        lo = L + 1 if draw(st.booleans()) else L
    n = []
    if draw(st.integers(0, 19)) == 19:
        # much larger inputs and more levels than usual
        hi, level_cap = {1: 4500, 2: 150, 3: 34}[d], level_cap + {1: 5, 2: 2, 3: 1}[d]
        lo = max(lo, hi // 8)
    for _ in range(d):
        big = draw(st.integers(0, 2))
        base = lo if big == 0 else max(lo, 2 * L - 3)
        n.append(draw(size(base, max(base + 8, hi))))
    cap = min(max_valid_level(k, L, mode, level_cap) for k in n)
    kind = draw(st.sampled_from("eeeeeeed0"))
    if kind == "d":
        # default level: only if every step of it is inside torch's padding domain
        lev = min(pywt.dwt_max_level(k, L) for k in n)
        if lev <= cap and (lev > 0 or draw(st.integers(0, 3)) == 3):
            return {"wavelet": w, "mode": mode, "n": n, "level": None}
    level = 0 if kind == "0" else draw(st.integers(min(1, cap), cap))
    return {"wavelet": w, "mode": mode, "n": n, "level": level}


def wavelet_arg(name, as_object):
    return wav(name) if as_object or name.startswith("lattice:") else name


def rtol_for(dtype):
    return 1e-10 if dtype == "f64" else 3e-5
