"""C08-C13: boundary-wavelet (sparse matrix) transforms."""

from __future__ import annotations

import functools

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st
from torch.utils._python_dispatch import TorchDispatchMode

from . import gen
from .cmp import as_np, close, maxabs, require
from .core import Prop, Violation, oracle
from .gen import DT, build_np, full_shape, to_tensor, wav
from .p_conv import KEYS3, check_structure, flat_got

DEC = {1: ptwt.MatrixWavedec, 2: ptwt.MatrixWavedec2, 3: ptwt.MatrixWavedec3}
REC = {1: ptwt.MatrixWaverec, 2: ptwt.MatrixWaverec2, 3: ptwt.MatrixWaverec3}
NP_PAD = {
    "zero": {"mode": "constant"},
    "constant": {"mode": "edge"},
    "symmetric": {"mode": "symmetric"},
    "reflect": {"mode": "reflect"},
    "periodic": {"mode": "wrap"},
}


@functools.lru_cache(None)
def orth_pool(max_len):
    """Orthogonal wavelets whose boundary filters are numerically well defined."""
    out = []
    for n in gen.wav_pool(max_len, True):
        if n.startswith("db") and int(n[2:]) > 20:
            continue
        if n.startswith("coif") and int(n[4:]) > 8:
            continue
        out.append(n)
    return out


def tol_for(dtype, L):
    return 1e-9 if dtype == "f64" else 1e-3


@st.composite
def orth_wavelet(draw, max_len, custom=False):
    if custom and draw(st.integers(0, 11)) == 11:
        return draw(st.sampled_from(gen.lattice_pool(max_len)))
    pool = orth_pool(max_len)
    if draw(st.booleans()):
        return draw(st.sampled_from([w for w in ["haar", "db2", "db3", "sym4", "coif1", "db4", "db5"] if w in pool]))
    return draw(st.sampled_from(pool))


@st.composite
def matrix_case(draw, d, small=False):
    sep = True if d != 2 else draw(st.booleans())
    dtype = draw(gen.dtypes())
    cap = {1: 40, 2: 16 if sep else 6, 3: 8}[d]
    orth = draw(st.sampled_from(["qr", "qr", "gramschmidt"]))
    if orth == "gramschmidt":
        cap = min(cap, {1: 14, 2: 8 if sep else 4, 3: 6}[d])
    if dtype == "f32":
        cap = min(cap, 14)
    if small:
        cap = min(cap, 8 if d == 1 else 6)
    w = draw(orth_wavelet(cap, custom=not small))
    L = wav(w).dec_len
    level = draw(st.sampled_from([1, 2, 2, 3, 3, 4, None]))
    top = {1: 130, 2: 44 if sep else 2 * L + 6, 3: 22}[d]
    # lengths for which the asked levels exist (a quarter: any length, levels get cut)
    base = L
    if draw(st.integers(0, 3)):
        want = (level or 2) - 1
        while want > 0 and base * 2 <= top:
            base, want = base * 2, want - 1
    else:
        base = draw(st.sampled_from([2, L]))
    if base > L and draw(st.booleans()):
        base -= 1  # just below: odd sizes still give the level after padding
    n = [draw(st.integers(base, max(base + 4, min(top, base + 12)))) for _ in range(d)]
    if not small and sep and draw(st.integers(0, 29)) == 29:
        # much larger inputs than usual
        top = {1: 700, 2: 150, 3: 36}[d]
        n = [draw(st.integers(top // 4, top)) for _ in range(d)]
        if level is not None:
            level += draw(st.integers(0, 3))
    if not small and not sep and draw(st.integers(0, 11)) == 11:
        # more levels of small images, often much longer on one side
        w = draw(st.sampled_from(["haar", "haar", "db2"])) if orth == "qr" else "haar"
        level = draw(st.integers(2, 4))
        side = {"haar": 4, "db2": 8}[w]
        n = [draw(st.integers(side, 2 * side)), draw(st.integers(side, side * {"haar": 12, "db2": 3}[w]))]
        n = draw(st.permutations(n))
    return {
        "d": d,
        "wavelet": w,
        "wobj": draw(st.booleans()),
        "orth": orth,
        "sep": sep,
        "odd": draw(st.sampled_from(gen.MODES)),
        "level": level,
        "n": n,
        "arr": draw(gen.widened(draw(gen.arrangement(d, max_batch_dims=2)), n)),
        "omit": draw(st.booleans()),
        "data": draw(gen.data_spec()),
        "dtype": dtype,
        "layout": draw(gen.layouts()),
    }


def plan(case):
    """Lengths per level that the documentation promises: [(in_lengths, even_lengths)]."""
    d, L = case["d"], wav(case["wavelet"]).dec_len
    n = list(case["n"])
    if d == 1 and n[0] % 2:
        pre = [n[0] + 1]
    else:
        pre = n
    level = case["level"]
    if level is None:
        level = max(0, int(min(np.log2(k / (L - 1)) for k in pre)))
    steps, cur = [], pre
    first = n
    for _ in range(level):
        if any(k < L for k in cur):
            break
        even = [k + k % 2 for k in cur]
        steps.append((first if not steps else cur, even))
        cur = [k // 2 for k in even]
    return steps, (cur if steps else pre)


DEFAULTS = {"orthogonalization": "qr", "odd_coeff_padding_mode": "zero", "separable": True}


def without_defaults(case, kw):
    """Sometimes leave out the arguments that have their documented default value."""
    if case.get("omit"):
        return {k: v for k, v in kw.items() if k not in DEFAULTS or v != DEFAULTS[k]}
    return kw


def dec_kwargs(case):
    kw = {"orthogonalization": case["orth"], "odd_coeff_padding_mode": case["odd"]}
    a = case["arr"]["axes"]
    if a is not None:
        kw["axis" if case["d"] == 1 else "axes"] = a[0] if case["d"] == 1 else tuple(a)
    if case["d"] == 2:
        kw["separable"] = case["sep"]
    return without_defaults(case, kw)


def rec_kwargs(case):
    kw = {"orthogonalization": case["orth"]}
    a = case["arr"]["axes"]
    if a is not None:
        kw["axis" if case["d"] == 1 else "axes"] = a[0] if case["d"] == 1 else tuple(a)
    if case["d"] == 2:
        kw["separable"] = case["sep"]
    return without_defaults(case, kw)


def make_dec(case, level="case"):
    w = gen.wavelet_arg(case["wavelet"], case["wobj"])
    return DEC[case["d"]](w, case["level"] if level == "case" else level, **dec_kwargs(case))


def make_rec(case):
    return REC[case["d"]](gen.wavelet_arg(case["wavelet"], case["wobj"]), **rec_kwargs(case))


@functools.lru_cache(512)
def level1_matrix(w, n, orth, dtype):
    """Matrix of the one-level 1d transform, read off by transforming the identity."""
    eye = torch.eye(n, dtype=DT[dtype])
    c = ptwt.MatrixWavedec(wav(w), 1, orthogonalization=orth)(eye)
    require(len(c) == 2, f"one level of {w} on length {n} gave {len(c) - 1} levels")
    return torch.cat([c[0], c[1]], -1).T.numpy().astype(np.float64)


@functools.lru_cache(64)
def level1_matrix2(w, h, k, orth, dtype):
    """Matrices (per subband a, h, v, d) of the non-separable one-level 2d transform."""
    eye = torch.eye(h * k, dtype=DT[dtype]).reshape(h * k, h, k)
    c = ptwt.MatrixWavedec2(wav(w), 1, separable=False, orthogonalization=orth)(eye)
    require(len(c) == 2, "one level gave another number of levels")
    bands = [c[0], c[1].horizontal, c[1].vertical, c[1].diagonal]
    return [b.reshape(h * k, -1).T.numpy().astype(np.float64) for b in bands]


def interior_rows(w, n):
    """Rows that are pure filters: (row, first column, low filter, high filter)."""
    lo, hi = np.array(wav(w).dec_lo)[::-1], np.array(wav(w).dec_hi)[::-1]
    L = len(lo)
    out = []
    for r in range(n // 2):
        s = 2 * r - (L // 2 - 1)
        if s >= 0 and s + L <= n:
            out.append((r, s, lo, hi))
    return out


def check_level1(w, n, orth, dtype):
    A = level1_matrix(w, n, orth, dtype)
    L = wav(w).dec_len
    tol = tol_for(dtype, L)
    require(A.shape == (n, n), f"one-level matrix has shape {A.shape} for length {n}")
    e = maxabs(A @ A.T - np.eye(n))
    require(e <= tol, f"one-level matrix of {w}, length {n}, {orth}: |A A^T - I| = {e:.2g}")
    for r, s, lo, hi in interior_rows(w, n):
        for row, f, nm in ((r, lo, "low"), (n // 2 + r, hi, "high")):
            want = np.zeros(n)
            want[s : s + L] = f
            e = maxabs(A[row] - want)
            require(
                e <= tol,
                f"{w}, length {n}, {orth}: {nm}-pass row {r} is not the wavelet filter (error {e:.2g})",
            )
    return A


def apply_axis(A, x, axis):
    return np.moveaxis(np.tensordot(A, x, axes=(1, axis)), 0, axis)


def pad_even(x, lengths, even, d, odd):
    pads = [(0, 0)] * (x.ndim - d) + [(0, e - k) for k, e in zip(lengths, even)]
    if any(p[1] for p in pads):
        return np.pad(x, pads, **NP_PAD[odd])
    return x


def reference(case, x):
    """Subbands per level from one-level matrices; x has the transformed axes last.

    Returns (approx, [details finest first]); details are dicts keyed 'ad', 'da', ...
    """
    d, w, orth, dt = case["d"], case["wavelet"], case["orth"], case["dtype"]
    steps, _ = plan(case)
    if d == 1 and not steps and case["n"][0] % 2:
        x = pad_even(x, case["n"], [case["n"][0] + 1], 1, case["odd"])
    details = []
    for lengths, even in steps:
        x = pad_even(x, lengths, even, d, case["odd"])
        if case["sep"]:
            for ax, e in enumerate(even):
                x = apply_axis(check_level1(w, e, orth, dt), x, x.ndim - d + ax)
            bands = {}
            for key in np.ndindex(*([2] * d)):
                sl = tuple(
                    slice(0, e // 2) if b == 0 else slice(e // 2, e) for b, e in zip(key, even)
                )
                bands["".join("ad"[b] for b in key)] = x[(Ellipsis,) + sl]
        else:
            mats = check_level1_2d(w, even[0], even[1], orth, dt)
            flat = x.reshape(x.shape[:-2] + (-1,))
            bands = {}
            for key, m in zip(("aa", "da", "ad", "dd"), mats):
                y = flat @ m.T
                bands[key] = y.reshape(x.shape[:-2] + (even[0] // 2, even[1] // 2))
        x = bands.pop("a" * d)
        details.append(bands)
    return x, details


def check_level1_2d(w, h, k, orth, dt):
    mats = level1_matrix2(w, h, k, orth, dt)
    L = wav(w).dec_len
    tol = tol_for(dt, L)
    full = np.concatenate(mats)
    require(full.shape == (h * k, h * k), f"2d one-level matrix has shape {full.shape}")
    e = maxabs(full @ full.T - np.eye(h * k))
    require(e <= tol, f"2d one-level matrix of {w} ({h}, {k}), {orth}: |A A^T - I| = {e:.2g}")
    for r, s, lo, hi in interior_rows(w, h):
        for c, t, _, _ in interior_rows(w, k):
            for m, fr, fc in zip(mats, (lo, hi, lo, hi), (lo, lo, hi, hi)):
                want = np.zeros((h, k))
                want[s : s + L, t : t + L] = np.outer(fr, fc)
                e = maxabs(m[r * (k // 2) + c] - want.ravel())
                require(e <= tol, f"2d {w} ({h}, {k}): row ({r}, {c}) is not the filter (error {e:.2g})")
    return mats


def label_matrix(case, ctx, steps):
    ctx.label(
        f"orth={case['orth']}", f"levels={len(steps)}", f"asked={case['level']}",
        f"odd={case['odd']}", f"dtype={case['dtype']}", f"sep={case['sep']}",
    )
    if any(l != e for l, e in steps):
        ctx.label("padded")
    if case["level"] is not None and len(steps) < case["level"]:
        ctx.label("levels_truncated")


class MatrixProp(Prop):
    d = 1

    def strategy(self):
        return matrix_case(self.d)

    def check(self, case, ctx):
        d = self.d
        steps, _ = plan(case)
        label_matrix(case, ctx, steps)
        L = wav(case["wavelet"]).dec_len
        arr = case["arr"]
        nd = len(arr["batch"]) + d
        order = [i for i in range(nd) if i not in arr["pos"]] + list(arr["pos"])
        x = build_np(case["data"], full_shape(arr, case["n"]))
        xt = np.transpose(x, order)
        undo = np.argsort(order)
        ctx.interesting(len(steps) >= 1 and maxabs(x) > 0)
        t = to_tensor(x, case["dtype"], case["layout"])
        dt = DT[case["dtype"]]
        got = make_dec(case)(t)
        check_structure(got, d, len(steps), "coefficients")
        ref_a, ref_d = reference(case, xt)
        ref_d = ref_d[::-1]
        scale = maxabs(x) * np.sqrt(max(1, L)) ** d * 4
        tol = tol_for(case["dtype"], L) * scale + 1e-300

        def same(g, r, what):
            close(g, np.transpose(r, undo), tol, what, dt)

        same(got[0], ref_a, "approximation")
        if d == 2 and case["sep"]:
            self.check_2d_separable(got, ref_d, same, ctx)
        else:
            for i, (g, r) in enumerate(zip(got[1:], ref_d)):
                if d == 1:
                    same(g, r["d"], f"detail[{i + 1}]")
                elif d == 2:
                    for nm, key in zip(("horizontal", "vertical", "diagonal"), ("da", "ad", "dd")):
                        same(getattr(g, nm), r[key], f"{nm}[{i + 1}]")
                else:
                    for key in KEYS3:
                        same(g[key], r[key], f"{key}[{i + 1}]")
        # energy: no padding, or padding with zeros
        if case["odd"] == "zero" or (
            all(l == e for l, e in steps) and not (d == 1 and case["n"][0] % 2)
        ):
            e0 = float(np.sum(x**2))
            e1 = sum(float(np.sum(as_np(g).astype(np.float64) ** 2)) for _, g in flat_got(got, d))
            require(
                abs(e1 - e0) <= (1e-8 if case["dtype"] == "f64" else 3e-3) * e0 + 1e-300,
                f"energy {e0!r} became {e1!r}",
            )
        # Haar needs no boundary filters: the padded transform of pywt is the reference
        if case["wavelet"] in ("haar", "db1") and steps:
            with oracle():
                ref = {1: pywt.wavedecn, 2: pywt.wavedecn, 3: pywt.wavedecn}[d](
                    xt, "haar", mode=case["odd"], level=len(steps),
                    axes=tuple(range(nd - d, nd)),
                )
            same(got[0], ref[0], "Haar approximation vs pywt")
            if not (d == 2 and case["sep"]):
                for i, (g, r) in enumerate(zip(got[1:], ref[1:])):
                    gd = {"d": g} if d == 1 else ({"da": g[0], "ad": g[1], "dd": g[2]} if d == 2 else g)
                    for key in r:
                        same(gd[key], r[key], f"Haar {key}[{i + 1}] vs pywt")
        # inverse
        cin = tuple(got) if (d == 1 and case["wobj"]) else got
        rec = make_rec(case)(cin)
        require(isinstance(rec, torch.Tensor), "reconstruction is not a tensor")
        want = list(x.shape)
        for p in arr["pos"]:
            if steps or (d == 1):
                want[p] += want[p] % 2
        require(list(rec.shape) == want, f"reconstruction shape {list(rec.shape)}, expected {want}")
        close(rec[tuple(slice(0, k) for k in x.shape)], x, tol, "reconstruction", dt)

    def check_2d_separable(self, got, ref_d, same, ctx):
        errors = {}
        for name, keys in (("documented", ("da", "ad", "dd")), ("swapped", ("ad", "da", "dd"))):
            try:
                for i, (g, r) in enumerate(zip(got[1:], ref_d)):
                    for nm, key in zip(("horizontal", "vertical", "diagonal"), keys):
                        same(getattr(g, nm), r[key], f"{nm}[{i + 1}]")
                return ctx.known(
                    "matrix2d-separable-hv-swapped",
                    "separable MatrixWavedec2 returns (V, H, D) instead of the documented (H, V, D)",
                ) if name == "swapped" else None
            except Violation as v:
                errors[name] = v
        raise errors["swapped"]


_RULE = (
    "random orthogonal wavelet, even/odd lengths (also below the filter length), level incl. default and "
    "too deep, qr/gramschmidt, odd-padding mode, batch dims, axes, dtype, layout; oracle: cascade of "
    "one-level matrices (checked to be orthonormal with pure-filter interior rows), pywt for Haar, energy, "
    "inverse; non-trivial: at least one level on non-zero data"
)
_ASSUME = [
    "orthogonal wavelets; db up to 20, coif up to 8 (longer ones are ill-conditioned), float32 up to 14 taps",
    "boundary rows are fixed by orthonormality only up to a rotation; the code's own one-level rows are used",
    "tolerance 1e-9 (float64) / 1e-3 (float32) relative",
]


class C08(MatrixProp):
    id, d, quick = "C08", 1, 800
    rule, assumptions = _RULE, _ASSUME


class C09(MatrixProp):
    id, d, quick = "C09", 2, 130
    rule, assumptions = _RULE + "; separable and non-separable", _ASSUME
    corpus = [
        {
            "d": 2, "wavelet": "haar", "wobj": False, "orth": "qr", "sep": True, "odd": "zero",
            "level": 1, "n": [4, 6], "arr": {"batch": [], "pos": [0, 1], "axes": None},
            "data": {"kind": "normal", "seed": 3}, "dtype": "f64", "layout": "plain",
        }
    ]


class C10(MatrixProp):
    id, d, quick = "C10", 3, 900
    rule, assumptions = _RULE, _ASSUME


# ------------------------------------------------------------------ sparse operators


class C11(Prop):
    id, quick = "C11", 150
    rule = (
        "1d and non-separable 2d objects called on random inputs; the sparse operator must equal the "
        "stacked one-call transform on random vectors, its inverse operator must undo it, and access must "
        "fail as documented before a call, for separable 2d and for padded multi-level transforms; "
        "non-trivial: an operator was compared"
    )
    assumptions = _ASSUME[:1]

    def strategy(self):
        @st.composite
        def s(draw):
            d = draw(st.sampled_from([1, 1, 2]))
            c = draw(matrix_case(d, small=True))
            c["arr"] = {"batch": [draw(st.integers(1, 3))], "pos": list(range(1, d + 1)), "axes": None}
            c["level"] = draw(st.sampled_from([1, 2, 3, 3, None]))
            L = wav(c["wavelet"]).dec_len
            if d == 1 and draw(st.integers(0, 11)) == 0:
                # many unpadded levels
                c["wavelet"] = L = draw(st.sampled_from(["haar", "haar", "db2"])) if c["orth"] == "qr" else "haar"
                L = wav(L).dec_len
                c["level"] = draw(st.integers(4, 6))

                def size():
                    return [2 ** c["level"] * draw(st.integers(L // 2, L // 2 + 1))]

                c["n"] = size()
            elif d == 2 and (L == 2 or L == 4 and c["orth"] == "qr") and draw(st.integers(0, 5)) == 0:
                # three unpadded levels
                c["sep"], c["level"] = False, 3

                def size():
                    return [draw(st.sampled_from([8, 8, 16] if L == 2 else [16])) for _ in range(d)]

                c["n"] = size()
            elif draw(st.integers(0, 3)):
                # lengths divisible by a power of two: several unpadded levels
                k = draw(st.integers(1, 3 if d == 1 else 2))
                top = (96 if d == 1 else 24)
                lo = -(-L // 2**k) if k == 1 else max(1, L // 2)

                def size():
                    return [min(2**k * draw(st.integers(max(1, lo), max(lo, 5))), top) for _ in range(d)]

                c["n"] = size()
            else:
                def size():
                    return [draw(st.integers(2, 24 if d == 1 else 8)) for _ in range(d)]
            # the objects are used again for other sizes, or for a swapped image
            c["more"] = []
            for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
                c["more"].append(draw(st.sampled_from([c["n"][::-1], c["n"]])) if draw(st.integers(0, 3)) == 0 else size())
            return c

        return s()

    def check(self, case, ctx):
        d = case["d"]
        dec, rec = make_dec(case), make_rec(case)
        sep2 = d == 2 and case["sep"]
        for obj, nm in ((dec, "sparse_fwt_operator"), (rec, "sparse_ifwt_operator")):
            try:
                getattr(obj, nm)
            except NotImplementedError:
                require(sep2, f"{nm} before the first call: NotImplementedError, documented ValueError")
            except ValueError:
                require(not sep2, f"{nm} of a separable transform: ValueError, documented NotImplementedError")
            else:
                raise Violation(f"{nm} is available before the first call")
        for n in [case["n"]] + case.get("more", []):
            self.check_call({**case, "n": n}, ctx, dec, rec)
        if case.get("more"):
            ctx.label("reused")

    def check_call(self, case, ctx, dec, rec):
        d = case["d"]
        sep2 = d == 2 and case["sep"]
        steps, _ = plan(case)
        label_matrix(case, ctx, steps)
        x = build_np(case["data"], full_shape(case["arr"], case["n"]))
        t = to_tensor(x, case["dtype"], case["layout"])
        c = dec(t)
        r = rec(c)
        if sep2:
            for obj, nm in ((dec, "sparse_fwt_operator"), (rec, "sparse_ifwt_operator")):
                try:
                    getattr(obj, nm)
                except NotImplementedError:
                    continue
                raise Violation(f"{nm} of a separable transform is available")
            return
        if not steps:
            return
        # 1d pads odd inputs before the first matrix: the operator acts on even lengths
        inner = steps[1:] if d == 1 else steps
        padded = any(l != e for l, e in inner)
        if padded and len(steps) > 1:
            for obj, nm, pad in (
                (dec, "sparse_fwt_operator", padded),
                (rec, "sparse_ifwt_operator", any(l != e for l, e in steps[1:])),
            ):
                if not pad:
                    continue
                ctx.label("operator_refused")
                try:
                    getattr(obj, nm)
                except NotImplementedError:
                    continue
                raise Violation(f"{nm} is available although levels were padded")
            return
        even0 = steps[0][1]
        F, R = as_np(dec.sparse_fwt_operator), as_np(rec.sparse_ifwt_operator)
        N = int(np.prod(even0))
        require(F.shape == (N, N), f"operator shape {F.shape}, expected {(N, N)}")
        require(R.shape == (N, N), f"inverse operator shape {R.shape}, expected {(N, N)}")
        tol = tol_for(case["dtype"], 1) * 10
        eye = np.eye(N)
        require(maxabs(F @ F.T - eye) <= tol, "operator is not orthonormal")
        require(maxabs(R @ F - eye) <= tol, "inverse operator does not undo the operator")
        lengths = steps[0][0]
        xe = pad_even(x, lengths, even0, d, case["odd"])
        b = xe.shape[0]
        if d == 1:
            vec = xe
            stacked = np.concatenate([as_np(k) for k in c], -1)
        else:
            # column-major vectorisation, as in the documentation of the 2d matrices
            vec = np.swapaxes(xe, -1, -2).reshape(b, -1)
            parts = [np.swapaxes(as_np(k), -1, -2).reshape(b, -1) for _, k in flat_got(c, 2)]
            stacked = np.concatenate(parts, -1)
        scale = maxabs(x) * N + 1e-300
        close(torch.from_numpy(np.ascontiguousarray(stacked)).double(), vec @ F.T.astype(np.float64), tol * scale, "stacked coefficients vs operator")
        close(torch.from_numpy(np.ascontiguousarray(stacked)).double(), vec @ R.astype(np.float64), tol * scale, "stacked coefficients vs inverse operator")
        ctx.interesting(maxabs(x) > 0)
        ctx.label(f"operator_levels={len(steps)}", f"d={d}")
        require(list(r.shape) == list(xe.shape), f"reconstruction shape {list(r.shape)}")


# ------------------------------------------------------------------ history independence


class OutOfMemory(MemoryError):
    pass


class FailAt(TorchDispatchMode):
    """Lets the n-th tensor operation fail."""

    def __init__(self, n):
        super().__init__()
        self.left = n

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if self.left == 0:
            self.left = -1
            raise OutOfMemory("injected")
        self.left -= 1
        return func(*args, **(kwargs or {}))


class C12(Prop):
    id, quick = "C12", 150
    rule = (
        "one Matrix analysis/synthesis object is called several times with inputs that change size, batch "
        "shape, dtype and (for synthesis) level, interleaved with operator reads and calls that fail (bad input, a tensor operation that runs out of memory); every "
        "result must equal the one of a fresh object; non-trivial: at least two calls with different "
        "configurations and at least one level"
    )
    assumptions = _ASSUME[:1]

    def strategy(self):
        @st.composite
        def s(draw):
            d = draw(st.sampled_from([1, 1, 2, 2, 3]))
            c = draw(matrix_case(d, small=True))
            if c["orth"] == "gramschmidt" and d == 2 and not c["sep"]:
                c["orth"] = "qr"
            c["wavelet"] = draw(st.sampled_from(["haar", "db2", "db3"] if d > 1 else ["haar", "db2", "db3", "sym4"]))
            L = wav(c["wavelet"]).dec_len
            top = {1: 40, 2: 16, 3: 10}[d]

            def length():
                # mostly long enough for a level or two, often without any padding
                kind = draw(st.integers(0, 5))
                if kind == 0:
                    return draw(st.integers(2, top))
                if kind == 1:
                    return draw(st.integers(L, max(L, top)))
                k = draw(st.sampled_from([2, 2, 4, 4, 8]))
                return min(k * draw(st.integers(max(1, -(-L // k)), max(-(-L // k), top // k))), max(top, L))

            pool = [[length() for _ in range(d)] for _ in range(draw(st.integers(1, 3)))]
            # same number of samples arranged differently / swapped axes
            pool.append(list(reversed(pool[0])))
            ops = []
            for _ in range(draw(st.integers(2, 7))):
                k = draw(st.integers(0, 9))
                if k == 0:
                    ops.append({"op": "operator"})
                elif k == 1:
                    ops.append({"op": "bad"})
                elif k == 2:
                    # runs out of memory in the middle, and is repeated later
                    ops.append(
                        {
                            "op": "fault", "at": draw(st.integers(0, 40)) * draw(st.sampled_from([1, 1, 5, 20])), "n": draw(st.sampled_from(pool)),
                            "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
                            "batch": draw(st.lists(st.integers(1, 3), max_size=1)),
                            "level": draw(st.integers(1, 3)), "data": draw(gen.data_spec()),
                        }
                    )
                    if draw(st.integers(0, 3)):
                        ops.append(dict(ops[-1], op="call"))
                else:
                    ops.append(
                        {
                            "op": "call",
                            "n": draw(st.sampled_from(pool)),
                            "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
                            "batch": draw(st.lists(st.integers(1, 3), max_size=2)),
                            "level": draw(st.integers(1, 3)),
                            "data": draw(gen.data_spec()),
                        }
                    )
                    ops[-1]["same"] = draw(st.integers(0, 2)) == 0
                    if draw(st.booleans()):
                        # right after a call: as many samples, levels and dtype, but arranged differently
                        t = dict(ops[-1], n=list(ops[-1]["n"]), batch=list(ops[-1]["batch"]), data=draw(gen.data_spec()))
                        i = draw(st.integers(0, d - 1))
                        how = draw(st.sampled_from(["fold", "fold", "unfold", "next", "double", "transfer"]))
                        if how == "fold" and t["n"][i] % 2 == 0:
                            t["n"][i] //= 2
                            t["batch"] = [2] + t["batch"]
                        elif how == "unfold" and 2 in t["batch"]:
                            t["batch"].remove(2)
                            t["n"][i] *= 2
                        elif how == "next":
                            t["n"][i] = max(1, t["n"][i] + draw(st.sampled_from([-1, 1])))
                        elif how == "double":
                            t["n"][i] *= 2
                        elif how == "transfer" and d > 1 and t["n"][i] % 2 == 0:
                            t["n"][i] //= 2
                            t["n"][i - 1] *= 2
                        if len(t["batch"]) <= 2 and np.prod(t["n"]) <= {1: 80, 2: 400, 3: 1000}[d]:
                            ops.append(t)
            c["ops"] = ops
            c["level"] = draw(st.sampled_from([1, 2, 2, 3, None]))
            c["arr"]["axes"] = None
            return c

        return s()

    def check(self, case, ctx):
        d = case["d"]
        dec, rec = make_dec(case), make_rec(case)
        configs = set()
        for i, op in enumerate(case["ops"]):
            if op["op"] == "operator":
                for o, nm in ((dec, "sparse_fwt_operator"), (rec, "sparse_ifwt_operator")):
                    try:
                        getattr(o, nm, None)
                    except (NotImplementedError, ValueError):
                        pass
                continue
            if op["op"] == "bad":
                try:
                    dec(torch.zeros([4] * d, dtype=torch.int64))
                except Exception:
                    pass
                else:
                    raise Violation("an integer tensor was accepted")
                continue
            shape = op["batch"] + op["n"]
            x = build_np(op["data"], shape)
            t = to_tensor(x, op["dtype"])
            if op["op"] == "fault":
                c2 = DEC[d](wav(case["wavelet"]), op["level"], **dec_kwargs(case))(t)
                for o, arg in ((dec, t), (rec, c2)):
                    try:
                        with FailAt(op["at"]):
                            o(arg)
                    except OutOfMemory:
                        ctx.label("fault")
                continue
            fresh_dec = make_dec(case)
            try:
                want = fresh_dec(t)
            except RuntimeError:
                if case["odd"] != "reflect" or min(op["n"]) > 1:
                    raise
                # a single sample cannot be padded by reflection
                try:
                    dec(t)
                except RuntimeError:
                    continue
                raise Violation(f"call {i}: a fresh object refuses the input") from None
            got = dec(t)
            scale = maxabs(x) * 10 + 1e-300
            rt = 1e-12 if op["dtype"] == "f64" else 1e-5
            require(
                len(got) == len(want),
                f"call {i}: {len(got) - 1} levels after earlier calls, {len(want) - 1} from a fresh object",
            )
            for (nm, g), (_, w_) in zip(flat_got(got, d), flat_got(want, d)):
                close(g, as_np(w_), rt * scale, f"call {i} ({nm}) vs fresh object", DT[op["dtype"]])
            # synthesis: coefficients of another level from another object
            c2 = DEC[d](wav(case["wavelet"]), op["level"], **{k: v for k, v in dec_kwargs(case).items()})(t)
            r1, r2 = rec(c2), make_rec(case)(c2)
            close(r1, as_np(r2), rt * scale, f"call {i}: reconstruction vs fresh object", DT[op["dtype"]])
            if op.get("same"):
                # the same tensors again, with other values in them
                ctx.label("values_replaced")
                for q in [t] + [c for _, c in flat_got(c2, d)]:
                    q.mul_(-0.5).add_(0.125 * scale)
                got, want = dec(t), make_dec(case)(t.clone())
                for (nm, g), (_, w_) in zip(flat_got(got, d), flat_got(want, d)):
                    close(g, as_np(w_), rt * scale, f"call {i} ({nm}), repeated with other values", DT[op["dtype"]])
                c3 = DEC[d](wav(case["wavelet"]), op["level"], **dec_kwargs(case))(torch.zeros_like(t))
                for (_, q), (_, v) in zip(flat_got(c3, d), flat_got(c2, d)):
                    q.copy_(v)
                close(rec(c2), as_np(make_rec(case)(c3)), rt * scale, f"call {i}: reconstruction, repeated with other values", DT[op["dtype"]])
            if not (d == 2 and not case["sep"]) and d == 2:
                pass
            elif d in (1, 2) and len(want) > 1:
                # the operator describes the last call
                for a, b, nm in ((dec, fresh_dec, "sparse_fwt_operator"),):
                    try:
                        ob = getattr(b, nm)
                    except NotImplementedError:
                        try:
                            getattr(a, nm)
                        except NotImplementedError:
                            continue
                        raise Violation(f"call {i}: {nm} available, but not from a fresh object")
                    close(getattr(a, nm), as_np(ob), rt * 10, f"call {i}: {nm} vs fresh object")
            if len(want) > 1:
                configs.add((tuple(op["n"]), op["dtype"], op["level"]))
        ctx.label(f"d={d}", f"configs={len(configs)}", f"level={case['level']}")
        ctx.interesting(len(configs) >= 2)


# ------------------------------------------------------------------ boundary matrices


class C13(Prop):
    id, quick = "C13", 350
    rule = (
        "construct_boundary_a / _s (1d) and _a2 / _s2 (2d) for random wavelet, size, method and dtype: "
        "orthonormal, interior rows are the pure filters, synthesis is the inverse, the same row space "
        "split for both orthogonalisation methods; non-trivial: the wavelet has boundary rows"
    )
    assumptions = _ASSUME

    def strategy(self):
        @st.composite
        def s(draw):
            d = draw(st.sampled_from([1, 1, 1, 2]))
            dtype = draw(gen.dtypes())
            orth = draw(st.sampled_from(["qr", "gramschmidt"]))
            cap = {1: 40, 2: 6}[d]
            if orth == "gramschmidt":
                cap = {1: 16, 2: 4}[d]
            if dtype == "f32":
                cap = min(cap, 14)
            w = draw(orth_wavelet(cap, custom=True))
            L = wav(w).dec_len
            h = [2 * draw(st.integers((L + 1) // 2, L // 2 + (20 if d == 1 else 4))) for _ in range(d)]
            return {"d": d, "wavelet": w, "n": h, "orth": orth, "dtype": dtype, "wobj": draw(st.booleans()), "twin": draw(st.integers(0, 3)) == 0}

        return s()

    def check(self, case, ctx):
        from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s
        from ptwt.matmul_transform_2 import construct_boundary_a2, construct_boundary_s2

        d, w, n, orth = case["d"], case["wavelet"], case["n"], case["orth"]
        L = wav(w).dec_len
        dt = DT[case["dtype"]]
        wa = gen.wavelet_arg(w, case["wobj"])
        N = int(np.prod(n))
        tol = tol_for(case["dtype"], L)
        kw = {"device": torch.device("cpu"), "orthogonalization": orth, "dtype": dt}
        fa, fs = (construct_boundary_a, construct_boundary_s) if d == 1 else (construct_boundary_a2, construct_boundary_s2)
        if case.get("twin"):
            # another wavelet object of the same name, whose filters are negated
            ctx.label("twin")
            o = wav(w)
            namesake = pywt.Wavelet(o.name, filter_bank=[[-v for v in f] for f in o.filter_bank])
            fa(namesake, *n, **kw), fs(namesake, *n, **kw)
        ta, ts = fa(wa, *n, **kw), fs(wa, *n, **kw)
        for nm, m in (("analysis", ta), ("synthesis", ts)):
            require(m.layout == torch.sparse_coo or m.is_sparse, f"{nm} matrix is not sparse")
            require(m.dtype == dt, f"{nm} matrix has dtype {m.dtype}, asked for {dt}")
            require(tuple(m.shape) == (N, N), f"{nm} matrix has shape {tuple(m.shape)}")
        A, S = as_np(ta).astype(np.float64), as_np(ts).astype(np.float64)
        eye = np.eye(N)
        require(maxabs(A @ A.T - eye) <= tol, f"analysis matrix not orthonormal ({maxabs(A @ A.T - eye):.2g})")
        require(maxabs(S @ A - eye) <= tol, f"synthesis @ analysis is not the identity ({maxabs(S @ A - eye):.2g})")
        require(maxabs(A @ S - eye) <= tol, "analysis @ synthesis is not the identity")
        ctx.label(f"d={d}", f"orth={orth}", f"dtype={case['dtype']}")
        if d == 1:
            rows = []
            for r, s, lo, hi in interior_rows(w, n[0]):
                for row, f in ((r, lo), (n[0] // 2 + r, hi)):
                    want = np.zeros(N)
                    want[s : s + L] = f
                    require(maxabs(A[row] - want) <= tol, f"row {row} is not the wavelet filter")
                    rows.append(row)
            bnd = [r for r in range(N) if r not in rows]
            # the boundary rows only mix rows that are cut off by the boundary:
            # each one is supported near one of the two ends or both
            ctx.interesting(len(bnd) > 0)
            raw = np.zeros((N, N))
            lo, hi = np.array(wav(w).dec_lo)[::-1], np.array(wav(w).dec_hi)[::-1]
            for r in range(n[0] // 2):
                s = 2 * r - (L // 2 - 1)
                for j in range(L):
                    if 0 <= s + j < N:
                        raw[r, s + j] += lo[j]
                        raw[n[0] // 2 + r, s + j] += hi[j]
            if bnd and len(bnd) < N:
                # same span as the truncated filters
                q = A[bnd]
                resid = raw[bnd] - (raw[bnd] @ q.T) @ q
                require(maxabs(resid) <= tol * 10, "boundary rows do not span the truncated filters")
        else:
            check = [(r, s) for r, s, _, _ in interior_rows(w, n[0])]
            lo, hi = np.array(wav(w).dec_lo)[::-1], np.array(wav(w).dec_hi)[::-1]
            h2, w2 = n[0] // 2, n[1] // 2
            for r, s in check:
                for c, t, _, _ in interior_rows(w, n[1]):
                    for band, (fr, fc) in enumerate(((lo, lo), (hi, lo), (lo, hi), (hi, hi))):
                        want = np.zeros((n[0], n[1]))
                        want[s : s + L, t : t + L] = np.outer(fr, fc)
                        row = band * h2 * w2 + c * h2 + r
                        require(
                            maxabs(A[row] - want.T.ravel()) <= tol,
                            f"2d row band={band} ({r}, {c}) is not the filter",
                        )
            ctx.interesting(L > 2)
