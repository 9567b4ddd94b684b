"""One interface to every transform and inverse of the toolbox.

A case names a family ("fam") and its parameters.  ``core_shapes`` gives the
sizes (transformed axes only) of the tensors it takes, ``pack`` builds the
container the function expects from a flat list, ``build`` returns a callable
(for classes: one object), ``flat`` lists the tensors of a result.
"""

from __future__ import annotations

from itertools import product

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st

from . import gen
from .cmp import maxabs, require
from .core import HarnessError
from .gen import DT, build_np, full_shape, to_tensor, wav
from .p_conv import ANALYSIS, FS_DEC, FS_KEYS, FS_REC, KEYS3, SYNTHESIS
from .p_matrix import DEC, REC, matrix_case, plan
from .p_packets import CHARS, PACKET, next_len, packet_case

PAD_AN = ["dwt1", "dwt2", "dwt3", "fs2", "fs3"]
PAD_SYN = ["idwt1", "idwt2", "idwt3", "ifs2", "ifs3"]
STAT = ["swt", "iswt"]
MAT_AN = ["mat1", "mat2", "mat3"]
MAT_SYN = ["imat1", "imat2", "imat3"]
PACK = ["wp1", "wp2", "iwp1", "iwp2"]
DISCRETE = PAD_AN + PAD_SYN + STAT + MAT_AN + MAT_SYN + PACK
ALL = DISCRETE + ["cwt"]
SYN = PAD_SYN + ["iswt"] + MAT_SYN + ["iwp1", "iwp2"]
CWT_WAVELETS = ["mexh", "morl", "gaus1", "gaus4", "cgau2", "cmor1.5-1.0", "shan1.5-1.0", "fbsp2-1.5-1.0"]


def dim(case):
    f = case["fam"]
    return 1 if f in ("swt", "iswt", "cwt") else int(f[-1])


@st.composite
def small_dwt(draw, d):
    max_len, hi, cap = {1: (40, 80, 4), 2: (12, 24, 3), 3: (8, 11, 2)}[d]
    c = draw(gen.dwt_case(d, max_len, hi, cap))
    if c["level"] is None:
        L = wav(c["wavelet"]).dec_len
        c["level"] = min(pywt.dwt_max_level(n, L) for n in c["n"])
    return c


@st.composite
def cases(draw, fams=ALL, max_batch_dims=2, level0=True):
    fam = draw(st.sampled_from(fams))
    d = dim({"fam": fam})
    if fam in PAD_AN + PAD_SYN:
        c = draw(small_dwt(d))
        if fam in PAD_SYN and draw(st.booleans()):
            c["level"] = draw(st.integers(0, {1: 4, 2: 3, 3: 2}[d]))
    elif fam in STAT:
        level = draw(st.integers(0, 3))
        n = draw(st.integers(1, 30)) if draw(st.booleans()) else 2**level * draw(st.integers(1, 8))
        c = {"wavelet": draw(gen.wavelets(40)), "level": level, "n": [n]}
    elif fam in MAT_AN + MAT_SYN:
        c = draw(matrix_case(d, small=True))
        if d == 2 and not c["sep"]:
            c["n"] = [min(n, 14) for n in c["n"]]
        if c["level"] is None:
            c["level"] = draw(st.integers(1, 3))
    elif fam in PACK:
        c = draw(packet_case(d))
        c["maxlevel"] = min(c["maxlevel"], {1: 3, 2: 2}[d] if fam.startswith("w") else {1: 3, 2: 1}[d])
        if fam.startswith("i") and d == 1 and draw(st.booleans()):
            c["maxlevel"] = min(c["maxlevel"], 2)
    else:
        c = {
            "wavelet": draw(st.sampled_from(CWT_WAVELETS)),
            "n": [draw(st.integers(2, 60))],
            "scales": [draw(st.integers(2, 96)) / 4 + draw(st.sampled_from([0, 0.3])) for _ in range(draw(st.integers(1, 3)))],
        }
    c["fam"], c["d"] = fam, d
    if not level0 and c.get("level") == 0:
        c["level"] = 1 if fam in SYN + STAT else c["level"]
    if fam == "cwt":
        b = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 1)))]
        c["arr"] = {"batch": b, "pos": [len(b)], "axes": None}
    else:
        c["arr"] = draw(gen.widened(draw(gen.arrangement(d, max_batch_dims=min(max_batch_dims, 5 - d))), c["n"], 6000))
    c["data"] = draw(gen.data_spec())
    c.setdefault("dtype", draw(gen.dtypes()))
    if fam == "cwt":
        c["dtype"] = "f64"
    c["layout"] = draw(gen.layouts())
    return c


def nlevels(case):
    """How many levels the call really computes."""
    f = case["fam"]
    if f in MAT_AN + MAT_SYN:
        return len(plan(case)[0])
    if f in PACK:
        return case["maxlevel"]
    if f == "cwt":
        return 1
    return case["level"]


def label(case, ctx):
    ctx.label(case["fam"], f"dtype={case['dtype']}", f"batch_dims={len(case['arr']['batch'])}")
    if case["fam"] in PAD_AN + PACK:
        ctx.label(f"mode={case['mode']}")


def bands(d):
    return 2**d - 1


def core_shapes(case):
    f, d, n = case["fam"], case["d"], list(case["n"])
    if f in PAD_AN + MAT_AN + ["swt", "wp1", "wp2", "cwt"]:
        return [n]
    if f == "iswt":
        return [n] * (case["level"] + 1)
    if f in PAD_SYN:
        L = wav(case["wavelet"]).dec_len
        lens = [gen.level_lengths(k, L, case["level"]) for k in n]
        out = [[l[case["level"]] for l in lens]]
        for lv in range(case["level"], 0, -1):
            out += [[l[lv] for l in lens]] * bands(d)
        return out
    if f in MAT_SYN:
        steps, last = plan(case)
        out = [list(last)]
        for _, even in reversed(steps):
            out += [[e // 2 for e in even]] * bands(d)
        return out
    L = wav(case["wavelet"]).dec_len
    for _ in range(case["maxlevel"]):
        n = [next_len(k, L, case["mode"]) for k in n]
    return [n] * len(CHARS[d]) ** case["maxlevel"]


def arrays(case, salt=0):
    """The input arrays in their arrangement."""
    out = []
    for k, core in enumerate(core_shapes(case)):
        spec = {"kind": case["data"]["kind"], "seed": (case["data"]["seed"] + 7919 * salt + k) % 2**32}
        out.append(build_np(spec, full_shape(case["arr"], core)))
    return out


def tensors(case, salt=0, layout=True):
    lay = case["layout"] if layout else "plain"
    return [to_tensor(a, case["dtype"], lay) for a in arrays(case, salt)]


def pack(case, ts):
    """The argument of the function from the flat list of tensors."""
    f, d = case["fam"], case["d"]
    if f in PAD_AN + MAT_AN + ["swt", "wp1", "wp2", "cwt"]:
        return ts[0]
    if f in ("iwp1", "iwp2"):
        return dict(zip(leaf_keys(case), ts))
    if d == 1:
        return list(ts)
    out, k = [ts[0]], 1
    while k < len(ts):
        group = ts[k : k + bands(d)]
        k += bands(d)
        if f in ("idwt2", "imat2"):
            out.append(ptwt.WaveletDetailTuple2d(*group))
        else:
            out.append(dict(zip(FS_KEYS[d] if f.startswith("ifs") else KEYS3, group)))
    return tuple(out)


def leaf_keys(case):
    return ["".join(p) for p in product(CHARS[case["d"]], repeat=case["maxlevel"])]


def axes_kw(case, axes):
    if axes is None or case["fam"] == "cwt":
        return {}
    if case["d"] == 1:
        return {"axis": axes[0]}
    return {"axes": axes}


def build(case, wavelet, axes=None, **extra):
    """A callable for the packed argument."""
    f, d = case["fam"], case["d"]
    kw = dict(axes_kw(case, axes), **extra)
    if f in ("dwt1", "dwt2", "dwt3", "fs2", "fs3"):
        fn = ANALYSIS[d] if f.startswith("dwt") else FS_DEC[d]
        return lambda a: fn(a, wavelet, mode=case["mode"], level=case["level"], **kw)
    if f in PAD_SYN:
        fn = SYNTHESIS[d] if f.startswith("idwt") else FS_REC[d]
        return lambda a: fn(a, wavelet, **kw)
    if f == "swt":
        return lambda a: ptwt.swt(a, wavelet, level=case["level"], **kw)
    if f == "iswt":
        return lambda a: ptwt.iswt(a, wavelet, **kw)
    if f in MAT_AN + MAT_SYN:
        kw.setdefault("orthogonalization", case["orth"])
        if d == 2:
            kw["separable"] = case["sep"]
        if f in MAT_AN:
            kw["odd_coeff_padding_mode"] = case["odd"]
            return DEC[d](wavelet, case["level"], **kw)
        return REC[d](wavelet, **kw)
    if f in PACK:
        kw["mode"] = case["mode"]
        if case["mode"] == "boundary":
            kw.setdefault("orthogonalization", case["orth"])
        if d == 2 and case["sep"]:
            kw["separable"] = True

        def nodes(a):
            wp = PACKET[d](a, wavelet, maxlevel=case["maxlevel"], **kw)
            keys = ["".join(p) for k in range(1, case["maxlevel"] + 1) for p in product(CHARS[d], repeat=k)]
            return {k: wp[k] for k in keys or [""]}

        def rec(leaves):
            any_leaf = next(iter(leaves.values()))
            shape = list(any_leaf.shape)
            nd = len(shape)
            for ax, k in zip(list(axes) if axes is not None else range(nd - d, nd), case["n"]):
                shape[ax] = k
            wp = PACKET[d](torch.zeros(shape, dtype=any_leaf.dtype), wavelet, maxlevel=case["maxlevel"], **kw)
            wp.initialize(list(leaves))
            for k, v in leaves.items():
                wp[k] = v
            wp.reconstruct()
            return wp[""]

        return nodes if f.startswith("w") else rec
    if f == "cwt":
        scales = extra.get("scales", np.array(case["scales"]))
        return lambda a: ptwt.cwt(a, scales, wavelet)
    raise HarnessError(f)


def flat(case, out):
    """The tensors of a result with their names."""
    f, d = case["fam"], case["d"]
    if f in SYN:
        return [("result", out)]
    if f == "cwt":
        return [(f"scale {i}", t) for i, t in enumerate(out[0])]
    if f in ("wp1", "wp2"):
        return [(f"node '{k}'", t) for k, t in out.items()]
    res = [("a", out[0])]
    for i, e in enumerate(out[1:]):
        if isinstance(e, dict):
            res += [(f"{k}[{i + 1}]", e[k]) for k in sorted(e)]
        elif isinstance(e, tuple):
            res += [(f"{k}[{i + 1}]", t) for k, t in zip("hvd", e)]
        else:
            res.append((f"d[{i + 1}]", e))
    return res


def wavelet_of(case):
    """Wavelet argument: by name or object (drawn by cases that care)."""
    if case["fam"] == "cwt":
        return pywt.ContinuousWavelet(case["wavelet"]) if case.get("wobj") else case["wavelet"]
    return gen.wavelet_arg(case["wavelet"], bool(case.get("wobj")))


def growth(case):
    """Bound on the amplification of rounding errors of one level."""
    if case["fam"] == "cwt":
        return 50.0
    return gen.gain(case["wavelet"]) ** case["d"]


def rtol(case):
    if case["fam"] in MAT_AN + MAT_SYN or case.get("mode") == "boundary":
        return 1e-9 if case["dtype"] == "f64" else 1e-3
    return 1e-10 if case["dtype"] == "f64" else 1e-4


def tol_of(case, *arrs):
    return rtol(case) * growth(case) * maxabs(*arrs) + 1e-300


def same_names(a, b, what=""):
    require([n for n, _ in a] == [n for n, _ in b], f"{what}results {[n for n, _ in a]} and {[n for n, _ in b]}")
