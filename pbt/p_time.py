"""C14-C17: stationary and continuous transforms."""

from __future__ import annotations

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st

from . import gen
from .cmp import as_np, close, maxabs, require
from .core import Prop, Violation, oracle
from .gen import DT, build_np, full_shape, rtol_for, to_tensor, wav

# ------------------------------------------------------------------ stationary


def atrous(x, w, level):
    """Dilated circular filters on the last axis: [a_n, d_n, ..., d_1]."""
    lo, hi = np.array(wav(w).dec_lo)[::-1], np.array(wav(w).dec_hi)[::-1]
    L, n = len(lo), x.shape[-1]
    out, a = [], x
    for j in range(level):
        d = 2**j
        na, nd = np.zeros_like(a), np.zeros_like(a)
        for i in range(L):
            s = a[..., (np.arange(n) + d * (i - (L // 2 - 1))) % n]
            na, nd = na + lo[i] * s, nd + hi[i] * s
        out.append(nd)
        a = na
    return [a] + out[::-1]


@st.composite
def swt_case(draw, allow_any=True):
    w = draw(gen.wavelets(100, custom=True))
    level = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, None, 0]))
    any_len = allow_any and draw(st.integers(0, 3)) == 0
    if any_len:
        n = draw(st.integers(1, 40))
    elif level:
        n = 2**level * draw(st.integers(1, max(1, min(12, 128 // 2**level))))
    else:
        n = draw(st.integers(1, 48)) * draw(st.sampled_from([1, 2, 4, 8]))
    if draw(st.integers(0, 24)) == 24:
        # much longer inputs and more levels than usual
        level = draw(st.sampled_from([1, 2, 4, 6, 8, None]))
        n = 2 ** (level or 7) * draw(st.integers(1, max(1, 3000 // 2 ** (level or 7))))
    return {
        "wavelet": w,
        "wobj": draw(st.booleans()),
        "level": level,
        "n": [n],
        "arr": draw(gen.widened(draw(gen.arrangement(1)), [n])),
        "data": draw(gen.data_spec()),
        "dtype": draw(gen.dtypes()),
        "layout": draw(gen.layouts()),
        "pass_level": draw(st.booleans()),
    }


def swt_kw(case):
    a = case["arr"]["axes"]
    return {} if a is None else {"axis": a[0]}


def swt_level(case):
    lev = case["level"]
    return pywt.swt_max_level(case["n"][0]) if lev is None else lev


def label_swt(case, ctx):
    n, lev, L = case["n"][0], swt_level(case), wav(case["wavelet"]).dec_len
    ctx.label(f"level={case['level']}", f"dtype={case['dtype']}", f"layout={case['layout']}")
    if n % 2**lev:
        ctx.label("not_divisible")
    if lev and n < 2 ** (lev - 1) * (L // 2):
        ctx.label("pads_more_than_a_period")


def run_swt(case, x):
    t = to_tensor(x, case["dtype"], case["layout"])
    kw = swt_kw(case)
    if case["level"] is not None or case["pass_level"]:
        kw["level"] = case["level"]
    return ptwt.swt(t, gen.wavelet_arg(case["wavelet"], case["wobj"]), **kw)


class C14(Prop):
    id, quick = "C14", 2500
    rule = (
        "random wavelet, length, level (incl. default), batch dims, axis, dtype, layout: compared with "
        "pywt.swt for lengths divisible by 2^level and with dilated circular filters in numpy for every "
        "length; non-trivial: at least one level on non-zero data"
    )
    assumptions = ["pywt.swt(trim_approx=True, norm=False) is the reference", "CPU only"]

    def strategy(self):
        return swt_case()

    def check(self, case, ctx):
        x = build_np(case["data"], full_shape(case["arr"], case["n"]))
        lev, ax, n = swt_level(case), case["arr"]["pos"][0], case["n"][0]
        label_swt(case, ctx)
        with oracle():
            ref = [np.moveaxis(r, -1, ax) for r in atrous(np.moveaxis(x, ax, -1), case["wavelet"], lev)]
            if lev and n % 2**lev == 0:
                ref2 = pywt.swt(x, wav(case["wavelet"]), lev, trim_approx=True, norm=False, axis=ax)
                top = maxabs(x, *ref)
                for a, b in zip(ref, ref2):
                    assert maxabs(a - b) <= 1e-9 * top, "numpy model and pywt differ"
                ref = ref2
        got = run_swt(case, x)
        require(isinstance(got, list), f"a {type(got).__name__} was returned, documented as a list")
        require(len(got) == lev + 1, f"{len(got) - 1} levels, expected {lev}")
        ctx.interesting(lev >= 1 and maxabs(x) > 0)
        tol = rtol_for(case["dtype"]) * maxabs(x, *ref) + 1e-300
        for i, (g, r) in enumerate(zip(got, ref)):
            close(g, r, tol, f"coefficient {i}", DT[case["dtype"]])


class C15(Prop):
    id, quick = "C15", 2500
    rule = (
        "iswt(swt(x)) == x for every length and level; rolling the input rolls all coefficients; arbitrary "
        "coefficients against pywt.iswt (lengths divisible by 2^level); non-trivial: at least one level on "
        "non-zero data"
    )
    assumptions = ["pywt.iswt(norm=False) is the reference for arbitrary coefficients", "CPU only"]

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["roundtrip", "roundtrip", "shift", "arbitrary"]))
            c = draw(swt_case(allow_any=kind != "arbitrary"))
            c["kind"] = kind
            c["shift"] = draw(st.integers(-50, 50))
            c["seq"] = draw(st.sampled_from(["list", "tuple"]))
            if kind == "arbitrary" and not c["level"]:
                c["level"] = 1
                c["n"] = [2 * c["n"][0]]
            return c

        return s()

    def check(self, case, ctx):
        x = build_np(case["data"], full_shape(case["arr"], case["n"]))
        lev, ax = swt_level(case), case["arr"]["pos"][0]
        w = case["wavelet"]
        label_swt(case, ctx)
        ctx.label(case["kind"])
        ctx.interesting(lev >= 1 and maxabs(x) > 0)
        G = gen.gain(w)
        dt = DT[case["dtype"]]
        wa = gen.wavelet_arg(w, case["wobj"])
        if case["kind"] == "arbitrary":
            c = [
                build_np({"kind": case["data"]["kind"], "seed": case["data"]["seed"] + k}, x.shape)
                for k in range(lev + 1)
            ]
            with oracle():
                ref = pywt.iswt(c, wav(w), norm=False, axis=ax)
            tc = [to_tensor(k, case["dtype"], case["layout"]) for k in c]
            rec = ptwt.iswt(tc if case["seq"] == "list" else tuple(tc), wa, **swt_kw(case))
            scale = max(maxabs(ref), maxabs(*c) * G)
            close(rec, ref, rtol_for(case["dtype"]) * scale + 1e-300, "synthesis", dt)
            return
        got = run_swt(case, x)
        if case["kind"] == "shift":
            got2 = run_swt(case, np.roll(x, case["shift"], axis=ax))
            require(len(got) == len(got2) == lev + 1, "number of levels")
            tol = rtol_for(case["dtype"]) * max(maxabs(x), maxabs(*map(as_np, got))) + 1e-300
            for i, (a, b) in enumerate(zip(got, got2)):
                close(b, np.roll(as_np(a), case["shift"], axis=ax).astype(np.float64), tol, f"coefficient {i} of the rolled input", dt)
            return
        rec = ptwt.iswt(got if case["seq"] == "list" else tuple(got), wa, **swt_kw(case))
        scale = max(maxabs(x), maxabs(*map(as_np, got)))
        tol = (rtol_for(case["dtype"]) * G + 20 * (lev + 1) * gen.pr_error(w)) * scale + 1e-300
        close(rec, x, tol, "reconstruction", dt)


# ------------------------------------------------------------------ continuous

PLAIN = [f"gaus{i}" for i in range(1, 9)] + [f"cgau{i}" for i in range(1, 9)] + ["mexh", "morl"]


@st.composite
def cwt_wavelet(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return draw(st.sampled_from(PLAIN))
    if k < 10:
        b = draw(st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0]))
        c = draw(st.sampled_from([0.5, 1.0, 1.25, 2.0]))
        f = draw(st.sampled_from(["cmor", "shan", "fbsp"]))
        if f == "fbsp":
            return f"fbsp{draw(st.integers(1, 3))}-{b}-{c}"
        return f"{f}{b}-{c}"
    raise AssertionError


def cwt_object(name, as_object, lower=None):
    if not as_object and lower is None:
        return name
    w = pywt.ContinuousWavelet(name)
    if lower is not None:
        w.lower_bound, w.upper_bound = -lower, lower
    return w


def int_psi_of(name, lower, precision):
    w = cwt_object(name, True, lower)
    psi, x = w.wavefun(precision)
    return np.cumsum(psi) * (x[1] - x[0]), x


def ambiguity(ip, x, scale, eps):
    """Change of the sampled wavelet where the sampling index is a rounding matter."""
    step = x[1] - x[0]
    q = np.arange(np.floor(scale * (x[-1] - x[0]) * (1 + 1e-12) + 1) + 1) / (scale * step)
    k = np.round(q).astype(int)
    k = k[(np.abs(q - k) <= eps * np.maximum(1, q))]
    jump = np.abs(np.diff(ip, prepend=0))
    tail = float(np.abs(ip[-1]))
    return sum(float(jump[i]) if i < len(ip) else tail for i in k if i > 0)


@st.composite
def scales_spec(draw, many=False):
    kind = draw(st.sampled_from(["ints", "ints", "floats", "tensor_int", "tensor_float", "scalar_int", "scalar_float"]))
    n = 1 if kind.startswith("scalar") else draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 12]))
    if "int" in kind:
        v = [draw(st.integers(1, 24)) for _ in range(n)]
        if draw(st.integers(0, 11)) == 11:
            v[-1] = draw(st.integers(25, 260))
    else:
        v = [draw(st.integers(2, 200)) / 8 + draw(st.sampled_from([0, 0.01, 0.3])) for _ in range(n)]
        if draw(st.integers(0, 9)) == 9:
            # less than one sample of the wavelet
            v[draw(st.integers(0, n - 1))] = draw(st.sampled_from([0.0113, 0.0313, 0.0457, 0.0721, 0.117]))
    if many and n > 1 and draw(st.integers(0, 39)) == 39:
        # as many scales as a scalogram has
        n, start = draw(st.integers(13, 260)), v[0]
        step = draw(st.integers(1, 2)) if "int" in kind else draw(st.sampled_from([0.125, 0.3]))
        v = [start + step * i for i in range(n)]
        if draw(st.booleans()):
            v = v[::-1]
    return {"kind": kind, "values": v}


def scales_arg(s):
    if s["kind"].startswith("scalar"):
        return s["values"][0]
    if s["kind"].startswith("tensor"):
        return torch.tensor(s["values"], dtype=torch.int64 if "int" in s["kind"] else torch.float64)
    return np.array(s["values"])


class C16(Prop):
    id, quick = "C16", 3000
    rule = (
        "random continuous wavelet (all pywt families, parameters, bounds), scales as "
        "array, tensor or scalar, precision, sampling period, signal length and batch; compared with "
        "pywt.cwt; non-trivial: non-zero data"
    )
    assumptions = [
        "pywt.cwt(method='conv') is the reference",
        "where the sampling position of the wavelet is an integer up to rounding, either neighbour is accepted",
        "float32 data is compared with a correspondingly wider tolerance; its result type is not checked",
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            name = draw(cwt_wavelet())
            n = draw(
                st.one_of(
                    st.sampled_from([1, 2, 3, 8, 16, 17, 31, 32, 50, 64, 100, 128]),
                    st.integers(1, 130),
                    st.sampled_from([50, 100, 255, 511, 700, 1024]),
                )
            )
            if draw(st.integers(0, 19)) == 19:
                n = draw(st.one_of(st.sampled_from([2048, 4096, 8192]), st.integers(1025, 9000)))
            return {
                "wavelet": name,
                "wobj": draw(st.booleans()),
                "lower": draw(st.sampled_from([None, None, None, 4.0, 6.5])),
                "n": n,
                "batch": draw(st.lists(st.sampled_from([1, 2, 3, 2, 3, 9]), max_size=1)),
                "scales": draw(scales_spec(many=True)),
                "period": draw(st.sampled_from([None, 1.0, 0.5, 0.01, 3.7, 2])),
                "precision": draw(st.sampled_from([None, 12, 10, 8, 7])),
                "data": draw(gen.data_spec()),
                "dtype": draw(st.sampled_from(["f64", "f64", "f64", "f32"])),
                "layout": draw(gen.layouts()),
            }

        return s()

    def check(self, case, ctx):
        name = case["wavelet"]
        x = build_np(case["data"], case["batch"] + [case["n"]])
        prec = case["precision"] or 12
        period = 1.0 if case["period"] is None else case["period"]
        err = None
        with oracle():
            w_ref = cwt_object(name, True, case["lower"])
            try:
                ref, fref = pywt.cwt(x, np.array(case["scales"]["values"]), w_ref, sampling_period=period, precision=prec)
            except ValueError as e:
                if "too small" not in str(e):
                    raise
                err = e
        kw = {}
        if case["period"] is not None:
            kw["sampling_period"] = case["period"]
        if case["precision"] is not None:
            kw["precision"] = case["precision"]
        t = to_tensor(x, case["dtype"], case["layout"])
        ctx.label(f"family={name.rstrip('0123456789.-')}", f"scales={case['scales']['kind']}", f"dtype={case['dtype']}", f"precision={case['precision']}")
        wa = cwt_object(name, case["wobj"], case["lower"])
        if err is not None:
            ctx.label("scale_too_small")
            try:
                ptwt.cwt(t, scales_arg(case["scales"]), wa, **kw)
            except ValueError:
                return
            raise Violation("a scale that is too small for the wavelet was accepted")
        got, freqs = ptwt.cwt(t, scales_arg(case["scales"]), wa, **kw)
        ctx.interesting(maxabs(x) > 0)
        fref = np.atleast_1d(fref)
        require(isinstance(freqs, np.ndarray), f"frequencies are a {type(freqs).__name__}")
        require(freqs.shape == fref.shape, f"frequencies have shape {freqs.shape}, expected {fref.shape}")
        require(maxabs(freqs - fref) <= 1e-12 * maxabs(fref), f"frequencies {freqs}, expected {fref}")
        require(got.shape == ref.shape, f"shape {tuple(got.shape)}, expected {ref.shape}")
        ip, xs = int_psi_of(name, case["lower"], prec)
        f32 = case["dtype"] == "f32"
        for i, s in enumerate(case["scales"]["values"]):
            amb = ambiguity(ip, xs, s, 1e-5 if f32 else 1e-12)
            sum_psi = maxabs(ip) * (s * (xs[-1] - xs[0]) + 2)
            tol = np.sqrt(s) * maxabs(x) * (2 * amb + (2e-6 if f32 else 1e-13) * sum_psi)
            close(got[i], ref[i], tol + 1e-300, f"scale {s}")


BOUNDS = [[0, 16], [-8, 8], [-4, 19], [0, 8], [-16, 0], [-7.5, 0.5], [0.5, 16.5], [-16, 16]]


class C17(Prop):
    id, quick = "C17", 1200
    rule = (
        "differentiable Shannon / complex Morlet wavelet with random bandwidth and centre (from the name or "
        "set on the parameters) and support (default or changed), both also changed after a first use, against pywt.cwt with the same numbers, and gradients with respect to both "
        "parameters and the signal against central differences; non-trivial: non-zero data"
    )
    assumptions = ["pywt.cwt is the reference", "central differences, relative accuracy 1e-5"]

    def strategy(self):
        @st.composite
        def s(draw):
            sc = draw(scales_spec())
            far = draw(st.integers(0, 7)) == 7
            return {
                "family": draw(st.sampled_from(["shan", "cmor"])),
                "b": draw(st.integers(6, 48)) / 16,
                # an eighth: far beyond the usual values, but below half the sampling rate
                "c": draw(st.integers(49, 256)) / 16 if far else draw(st.integers(6, 48)) / 16,
                "set": draw(st.booleans()),
                "n": draw(st.integers(2, 60)),
                "batch": draw(st.lists(st.integers(1, 3), max_size=1)),
                "scales": sc,
                "period": draw(st.sampled_from([1.0, 0.25])),
                "precision": 12 if far else draw(st.sampled_from([8, 10, 12])),
                # the support may be changed; spans that share no factor with 2**precision - 1 (no ties in the spectrum)
                "bounds": draw(st.one_of(st.none(), st.sampled_from(BOUNDS))),
                # a transform with the wavelet as it was before it is set
                "used": draw(st.booleans()),
                "data": draw(gen.data_spec()),
            }

        return s()

    def slope(self, p, value, h):
        """Central difference of ``value`` for a parameter."""
        with torch.no_grad():
            old = p.clone()
            p.copy_(old + h)
            up = value()
            p.copy_(old - h)
            dn = value()
            p.copy_(old)
        return (up - dn) / (2 * h)

    def check(self, case, ctx):
        from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

        cls = {"shan": _ShannonWavelet, "cmor": _ComplexMorletWavelet}[case["family"]]
        fam, b, c = case["family"], case["b"], case["c"]
        x = build_np({**case["data"], "kind": "normal" if case["data"]["kind"] in ("large", "tiny") else case["data"]["kind"]}, case["batch"] + [case["n"]])
        scales = case["scales"]["values"]
        err = None
        with oracle():
            try:
                pw = pywt.ContinuousWavelet(f"{fam}{b}-{c}")
                if case["bounds"]:
                    pw.lower_bound, pw.upper_bound = case["bounds"]
                psi, xs = pw.wavefun(case["precision"])
                ip = np.cumsum(psi) * (xs[1] - xs[0])
                ref, fref = pywt.cwt(x, np.array(scales), pw, sampling_period=case["period"], precision=case["precision"])
            except ValueError as e:
                if "too small" not in str(e):
                    raise
                err = e
        w = cls(f"{fam}1.0-1.0" if case["set"] else f"{fam}{b}-{c}")
        if case["used"]:
            ptwt.cwt(torch.ones(4, dtype=torch.float64), np.array([2.0]), w, precision=case["precision"])
        if case["set"]:
            with torch.no_grad():
                w.bandwidth_par.fill_(b**0.5)
                w.center_par.fill_(c**0.5)
        if case["bounds"]:
            w.lower_bound, w.upper_bound = case["bounds"]
        t = torch.from_numpy(x.copy()).requires_grad_(True)
        args = dict(sampling_period=case["period"], precision=case["precision"])

        def run(tt):
            return ptwt.cwt(tt, scales_arg(case["scales"]), w, **args)

        if err is not None:
            ctx.label("scale_too_small")
            try:
                run(t)
            except ValueError:
                return
            raise Violation("a scale that is too small for the wavelet was accepted")
        got, freqs = run(t)
        ctx.interesting(maxabs(x) > 0)
        ctx.label(fam, f"set={case['set']}", f"bounds={case['bounds']}")
        require(got.shape == ref.shape, f"shape {tuple(got.shape)}, expected {ref.shape}")
        for i, s in enumerate(scales):
            tol = np.sqrt(s) * maxabs(x) * (2 * ambiguity(ip, xs, s, 1e-12) + 1e-12 * maxabs(ip) * (s * (xs[-1] - xs[0]) + 2))
            close(got[i], ref[i], tol + 1e-300, f"scale {s}")
        f = np.asarray(freqs, dtype=np.float64)
        require(f.shape == np.atleast_1d(fref).shape, f"frequencies have shape {f.shape}")
        require(maxabs(f - fref) <= 1e-9 * maxabs(fref), f"frequencies {f}, expected {fref}")
        require(got.requires_grad, "the coefficients are cut off from the graph")
        rng = np.random.default_rng(case["data"]["seed"])
        wt = torch.from_numpy(rng.standard_normal(got.shape) + 1j * rng.standard_normal(got.shape))
        loss = (got * wt).real.sum()
        gt, gb, gc = torch.autograd.grad(loss, [t, w.bandwidth_par, w.center_par], allow_unused=True)
        for nm, g in (("signal", gt), ("bandwidth", gb), ("centre", gc)):
            require(g is not None, f"no gradient reaches the {nm}")

        def value(tt=None):
            with torch.no_grad():
                return float((run(t.detach() if tt is None else tt)[0] * wt).real.sum())

        size = maxabs(got.detach().numpy()) * wt.numel()
        noise = 1e-8 * wt.numel() * maxabs(x) * maxabs(ip) * max(1.0, max(scales))
        for nm, p, g in (("bandwidth", w.bandwidth_par, gb), ("centre", w.center_par, gc)):
            num, half = self.slope(p, value, 1e-5), self.slope(p, value, 5e-6)
            require(
                abs(num - float(g)) <= 1e-5 * (abs(num) + abs(float(g)) + size) + noise + 4 * abs(num - half),
                f"{nm} gradient {float(g)!r}, numerically {num!r}",
            )
        v = rng.standard_normal(x.shape)
        num = value(torch.from_numpy(v))
        ana = float((gt * torch.from_numpy(v)).sum())
        size = maxabs(gt.numpy()) * v.size + abs(num)
        require(abs(num - ana) <= 1e-9 * size + 1e-13 * v.size * wt.numel() * maxabs(ip) * max(scales), f"signal gradient {ana!r}, by linearity {num!r}")
