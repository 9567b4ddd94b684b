"""C01-C07: padded (convolution) transforms in one, two and three dimensions."""

from __future__ import annotations

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st

from . import gen
from .cmp import as_np, close, maxabs, require
from .core import Prop, oracle
from .gen import DT, build_np, full_shape, rtol_for, to_tensor, wav


def kwargs_for(case, d):
    kw = {}
    arr = case["arr"]
    if arr["axes"] is not None:
        if d == 1:
            kw["axis"] = arr["axes"][0]
        else:
            kw["axes"] = tuple(arr["axes"]) if case.get("tup", True) else list(arr["axes"])
    return kw


def ref_axes(case, d):
    a = case["arr"]["pos"]
    return a[0] if d == 1 else tuple(a)


ANALYSIS = {1: ptwt.wavedec, 2: ptwt.wavedec2, 3: ptwt.wavedec3}
SYNTHESIS = {1: ptwt.waverec, 2: ptwt.waverec2, 3: ptwt.waverec3}
DEFAULT_MODE = {1: "reflect", 2: "reflect", 3: "zero"}
KEYS3 = ["aad", "ada", "add", "daa", "dad", "dda", "ddd"]


def ref_dec(x, w, mode, level, axes, d):
    w = wav(w)
    if d == 1:
        return pywt.wavedec(x, w, mode=mode, level=level, axis=axes)
    if d == 2:
        return pywt.wavedec2(x, w, mode=mode, level=level, axes=axes)
    return pywt.wavedecn(x, w, mode=mode, level=level, axes=axes)


def flat_ref(c, d):
    out = [("a", c[0])]
    for i, e in enumerate(c[1:]):
        if d == 1:
            out.append((f"d[{i + 1}]", e))
        elif d == 2:
            out.extend((f"{n}[{i + 1}]", t) for n, t in zip("hvd", e))
        else:
            out.extend((f"{k}[{i + 1}]", e[k]) for k in KEYS3)
    return out


def check_structure(c, d, nlev, what):
    """The coefficient container has the documented shape."""
    if d == 1:
        require(isinstance(c, list), f"{what}: a {type(c).__name__}, documented as a list")
    else:
        require(isinstance(c, tuple), f"{what}: a {type(c).__name__}, documented as a tuple")
    require(len(c) == nlev + 1, f"{what}: {len(c) - 1} levels, expected {nlev}")
    require(isinstance(c[0], torch.Tensor), f"{what}: approximation is not a tensor")
    for i, e in enumerate(c[1:]):
        if d == 1:
            require(isinstance(e, torch.Tensor), f"{what}[{i + 1}] is a {type(e).__name__}")
        elif d == 2:
            require(
                isinstance(e, ptwt.WaveletDetailTuple2d) and len(e) == 3,
                f"{what}[{i + 1}] is a {type(e).__name__}",
            )
        else:
            require(
                isinstance(e, dict) and sorted(e) == KEYS3,
                f"{what}[{i + 1}] keys {sorted(e) if isinstance(e, dict) else type(e)}",
            )


def flat_got(c, d):
    out = [("a", c[0])]
    for i, e in enumerate(c[1:]):
        if d == 1:
            out.append((f"d[{i + 1}]", e))
        elif d == 2:
            out.append((f"h[{i + 1}]", e.horizontal))
            out.append((f"v[{i + 1}]", e.vertical))
            out.append((f"d[{i + 1}]", e.diagonal))
        else:
            out.extend((f"{k}[{i + 1}]", e[k]) for k in KEYS3)
    return out


LIMITS = {1: (100, 160, 6), 2: (24, 28, 4), 3: (10, 12, 3)}


@st.composite
def conv_case(draw, d):
    max_len, hi, cap = LIMITS[d]
    if d > 1 and draw(st.integers(0, 19)) == 19:
        # longer filters than usual
        max_len, hi, cap = {2: (76, 30, 3), 3: (24, 14, 2)}[d]
    c = draw(gen.dwt_case(d, max_len, hi, cap, custom=True))
    c["arr"] = draw(gen.widened(draw(gen.arrangement(d, max_batch_dims={1: 3, 2: 2, 3: 2}[d])), c["n"]))
    c["data"] = draw(gen.data_spec())
    c["dtype"] = draw(gen.dtypes())
    c["layout"] = draw(gen.layouts())
    c["wobj"] = draw(st.booleans())
    c["omit_mode"] = draw(st.booleans())
    c["tup"] = draw(st.booleans())
    if draw(st.integers(0, 19)) == 0:
        c["bad"] = [draw(st.integers(0, 10**6)), draw(st.sampled_from(["nan", "inf", "-inf"]))]
    return c


def spoil(case, x, ctx):
    """One entry that is not a finite number."""
    if "bad" in case and x.size:
        x = x.copy()
        x.flat[case["bad"][0] % x.size] = float(case["bad"][1])
        ctx.label("not_finite")
    return x


def close_where_finite(got, ref, tol, what, dtype=None):
    """``close``, and the entries that are not finite are the same ones."""
    ok = np.isfinite(ref)
    if ok.all():
        return close(got, ref, tol, what, dtype)
    fin = np.isfinite(as_np(got, what))
    require(fin.shape == ok.shape, f"{what}: shape {fin.shape}, expected {ok.shape}")
    require((fin == ok).all(), f"{what}: {int((~fin).sum())} entries are not finite, expected {int((~ok).sum())}, or other ones")
    close(torch.where(torch.from_numpy(ok), got.detach(), 0), np.where(ok, ref, 0), tol, what, dtype)


def label_conv(case, ctx, d):
    L = wav(case["wavelet"]).dec_len
    ctx.label(
        f"mode={case['mode']}",
        f"level={case['level']}",
        f"batch_dims={len(case['arr']['batch'])}",
        "axes=default" if case["arr"]["axes"] is None else "axes=given",
        f"dtype={case['dtype']}",
        f"layout={case['layout']}",
    )
    if any(n % 2 for n in case["n"]):
        ctx.label("odd_length")
    if any(n < L for n in case["n"]):
        ctx.label("shorter_than_filter")
    if L > 20:
        ctx.label("long_filter")


class Analysis(Prop):
    d = 1

    def strategy(self):
        return conv_case(self.d)

    def check(self, case, ctx):
        d = self.d
        w = case["wavelet"]
        shape = full_shape(case["arr"], case["n"])
        x = spoil(case, build_np(case["data"], shape), ctx)
        with oracle():
            ref = ref_dec(x, w, case["mode"], case["level"], ref_axes(case, d), d)
        nlev = len(ref) - 1
        label_conv(case, ctx, d)
        ctx.interesting(nlev >= 1 and x.any())
        t = to_tensor(x, case["dtype"], case["layout"])
        kw = kwargs_for(case, d)
        if not (case["omit_mode"] and case["mode"] == DEFAULT_MODE[d]):
            kw["mode"] = case["mode"]
        if case["level"] is not None or not case["omit_mode"]:
            kw["level"] = case["level"]
        got = ANALYSIS[d](t, gen.wavelet_arg(w, case["wobj"]), **kw)
        check_structure(got, d, nlev, "coefficients")
        fr, fg = flat_ref(ref, d), flat_got(got, d)
        scale = maxabs(*(v[np.isfinite(v)] for v in [x] + [r for _, r in fr]))
        tol = rtol_for(case["dtype"]) * scale + 1e-300
        for (name, r), (_, g) in zip(fr, fg):
            close_where_finite(g, r, tol, name, DT[case["dtype"]])


class C01(Analysis):
    id, d, quick = "C01", 1, 4000
    rule = (
        "random wavelet (all pywt discrete), boundary mode, lengths (odd/even, below and above the "
        "filter length), level (incl. default and 0), batch dims, axis, dtype and memory layout; "
        "non-trivial: at least one level on non-zero data"
    )
    assumptions = [
        "pywt.wavedec is the reference",
        "reflect/periodic: lengths at every level within torch's padding limits",
        "tolerance 1e-10 (float64) / 3e-5 (float32) of the largest value involved",
    ]


class C03(Analysis):
    id, d, quick = "C03", 2, 2500
    rule = C01.rule + " (two axes, filters up to 24 taps)"
    assumptions = ["pywt.wavedec2 is the reference"] + C01.assumptions[1:]


class C05(Analysis):
    id, d, quick = "C05", 3, 500
    rule = C01.rule + " (three axes, filters up to 10 taps)"
    assumptions = ["pywt.wavedecn is the reference"] + C01.assumptions[1:]


def random_coeffs(case, d, spec):
    """Arbitrary coefficient arrays with the shapes a decomposition would have."""
    L = wav(case["wavelet"]).dec_len
    level = case["level"]
    lens = [gen.level_lengths(n, L, level) for n in case["n"]]
    k = [0]

    def arr(lv):
        k[0] += 1
        s = {"kind": spec["kind"], "seed": spec["seed"] + k[0]}
        return build_np(s, full_shape(case["arr"], [l[lv] for l in lens]))

    out = [arr(level)]
    for lv in range(level, 0, -1):
        if d == 1:
            out.append(arr(lv))
        elif d == 2:
            out.append(tuple(arr(lv) for _ in range(3)))
        else:
            out.append({key: arr(lv) for key in KEYS3})
    return out


def coeffs_to_torch(c, d, dtype, layout, plain_tuple=False):
    def t(a):
        return to_tensor(a, dtype, layout)

    out = [t(c[0])]
    for e in c[1:]:
        if d == 1:
            out.append(t(e))
        elif d == 2:
            cls = (lambda *a: tuple(a)) if plain_tuple else ptwt.WaveletDetailTuple2d
            out.append(cls(*[t(a) for a in e]))
        else:
            out.append({k: t(a) for k, a in e.items()})
    return out


def ref_rec(c, w, axes, d):
    w = wav(w)
    if len(c) == 1:
        return c[0]
    if d == 1:
        return pywt.waverec(c, w, axis=axes)
    if d == 2:
        return pywt.waverec2(c, w, axes=axes)
    return pywt.waverecn(c, w, axes=axes)


class Synthesis(Prop):
    d = 1

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(conv_case(self.d))
            c["kind"] = draw(st.sampled_from(["roundtrip", "arbitrary"]))
            c["as_list"] = draw(st.booleans())
            if c["kind"] == "arbitrary":
                # no padding involved: any level and length
                cap = LIMITS[self.d][2]
                c["level"] = draw(st.integers(0, cap)) if draw(st.booleans()) else draw(st.integers(1, cap))
                if draw(st.integers(0, 2)) == 2:
                    # some coefficient arrays (approximation, levels or single subbands) vanish
                    c["zeros"] = draw(st.lists(st.integers(0, 7 * cap), min_size=1, max_size=4))
                    c["zero_levels"] = draw(st.lists(st.integers(1, cap), max_size=3))
            return c

        return s()

    def check(self, case, ctx):
        d = self.d
        w = case["wavelet"]
        label_conv(case, ctx, d)
        ctx.label(case["kind"])
        kw = kwargs_for(case, d)
        wa = gen.wavelet_arg(w, case["wobj"])
        G = gen.gain(w)
        if case["kind"] == "roundtrip":
            shape = full_shape(case["arr"], case["n"])
            x = build_np(case["data"], shape)
            t = to_tensor(x, case["dtype"], case["layout"])
            coeffs = ANALYSIS[d](t, wa, mode=case["mode"], level=case["level"], **kw)
            nlev = len(coeffs) - 1
            ctx.interesting(nlev >= 1 and maxabs(x) > 0)
            if d == 1 and not case["as_list"]:
                coeffs = tuple(coeffs)
            rec = SYNTHESIS[d](coeffs, wa, **kw)
            require(isinstance(rec, torch.Tensor), "reconstruction is not a tensor")
            want = list(x.shape)
            for p in case["arr"]["pos"]:
                # an odd axis comes back one sample longer, like in pywt
                want[p] += (want[p] % 2) if nlev else 0
            require(
                list(rec.shape) == want,
                f"reconstruction shape {list(rec.shape)}, expected {want}",
            )
            crop = rec[tuple(slice(0, k) for k in x.shape)]
            scale = max(
                maxabs(x),
                maxabs(*[a.detach().numpy() for _, a in flat_got(coeffs, d)]),
            )
            tol = (rtol_for(case["dtype"]) * G**d + 20 * d * nlev * gen.pr_error(w)) * scale
            close(crop, x, tol + 1e-300, "reconstruction", DT[case["dtype"]])
        else:
            c = random_coeffs(case, d, case["data"])
            zeros, zero_levels = case.get("zeros", []), case.get("zero_levels", [])
            for i, e in enumerate(c[1:]):
                for j, a in enumerate([e] if d == 1 else e if d == 2 else [e[k] for k in KEYS3]):
                    if (2**d - 1) * i + j + 1 in zeros or i + 1 in zero_levels:
                        a[...] = 0
            if 0 in zeros:
                c[0][...] = 0
            with oracle():
                ref = ref_rec(c, w, ref_axes(case, d), d)
            ctx.interesting(len(c) > 1 and maxabs(*[a for _, a in flat_ref(c, d)]) > 0)
            tc = coeffs_to_torch(c, d, case["dtype"], case["layout"])
            tc = tc if (d == 1 and case["as_list"]) else tuple(tc)
            rec = SYNTHESIS[d](tc, wa, **kw)
            scale = max(maxabs(ref), maxabs(*[a for _, a in flat_ref(c, d)]) * G**d)
            close(rec, ref, rtol_for(case["dtype"]) * scale + 1e-300, "synthesis", DT[case["dtype"]])


class C02(Synthesis):
    id, d, quick = "C02", 1, 4000
    rule = (
        "half the cases invert an actual decomposition, half feed arbitrary coefficients of "
        "decomposition shape and compare with pywt; non-trivial: at least one level, non-zero data"
    )
    assumptions = ["pywt.waverec is the reference for arbitrary coefficients"] + C01.assumptions[1:]


class C04(Synthesis):
    id, d, quick = "C04", 2, 1600
    rule = C02.rule
    assumptions = ["pywt.waverec2 is the reference for arbitrary coefficients"] + C01.assumptions[1:]


class C06(Synthesis):
    id, d, quick = "C06", 3, 500
    rule = C02.rule
    assumptions = ["pywt.waverecn is the reference for arbitrary coefficients"] + C01.assumptions[1:]


# ---------------------------------------------------------------- fully separable


FS_DEC = {2: ptwt.fswavedec2, 3: ptwt.fswavedec3}
FS_REC = {2: ptwt.fswaverec2, 3: ptwt.fswaverec3}
FS_KEYS = {2: ["ad", "da", "dd"], 3: KEYS3}


def fs_default_level(n, L):
    """The documented rule of the separable transforms: floor(log2(n / (L - 1)))."""
    return min(int(np.log2(k / (L - 1))) for k in n)


class C07(Prop):
    id, quick = "C07", 1500
    rule = (
        "fswavedec2/3 against pywt.dwtn per level (keys follow the order of the axes), inverse on "
        "decompositions and on arbitrary coefficients; non-trivial: at least one level, non-zero data"
    )
    assumptions = ["pywt.dwtn / idwtn applied level by level is the reference"] + C01.assumptions[1:]

    def strategy(self):
        @st.composite
        def s(draw):
            d = draw(st.sampled_from([2, 2, 3]))
            c = draw(conv_case(d))
            c["d"] = d
            c["kind"] = draw(st.sampled_from(["roundtrip", "roundtrip", "arbitrary"]))
            if c["kind"] == "arbitrary":
                c["level"] = draw(st.integers(1, LIMITS[d][2]))
                if draw(st.integers(0, 2)) == 2:
                    c["zeros"] = draw(st.lists(st.integers(0, 7 * c["level"]), min_size=1, max_size=4))
            elif c["level"] is None:
                L = wav(c["wavelet"]).dec_len
                lev = fs_default_level(c["n"], L)
                cap = min(gen.max_valid_level(k, L, c["mode"], 9) for k in c["n"])
                if lev > cap or lev < 0:
                    c["level"] = min(1, cap)
            return c

        return s()

    def check(self, case, ctx):
        d, w = case["d"], case["wavelet"]
        label_conv(case, ctx, d)
        ctx.label(case["kind"], f"d={d}")
        kw = kwargs_for(case, d)
        pos = tuple(case["arr"]["pos"])
        wa = gen.wavelet_arg(w, case["wobj"])
        G = gen.gain(w)
        keys = FS_KEYS[d]
        dt = DT[case["dtype"]]
        if case["kind"] == "roundtrip":
            x = build_np(case["data"], full_shape(case["arr"], case["n"]))
            level = case["level"]
            with oracle():
                if level is None:
                    level = fs_default_level(case["n"], wav(w).dec_len)
                ref, a = [], x
                for _ in range(level):
                    r = pywt.dwtn(a, wav(w), mode=case["mode"], axes=pos)
                    a = r.pop("a" * d)
                    ref.append(r)
                ref = [a] + ref[::-1]
            kw2 = dict(kw)
            if not (case["omit_mode"] and case["mode"] == "reflect"):
                kw2["mode"] = case["mode"]
            t = to_tensor(x, case["dtype"], case["layout"])
            got = FS_DEC[d](t, wa, level=case["level"], **kw2)
            require(isinstance(got, tuple), f"a {type(got).__name__} was returned, not a tuple")
            require(len(got) == level + 1, f"{len(got) - 1} levels, expected {level}")
            scale = maxabs(x, *[v for r in ref[1:] for v in r.values()], ref[0])
            tol = rtol_for(case["dtype"]) * scale + 1e-300
            close(got[0], ref[0], tol, "approximation", dt)
            for i, (g, r) in enumerate(zip(got[1:], ref[1:])):
                require(isinstance(g, dict) and sorted(g) == keys, f"level {i}: keys {sorted(g)}")
                for k in keys:
                    close(g[k], r[k], tol, f"{k}[{i + 1}]", dt)
            ctx.interesting(level >= 1 and maxabs(x) > 0)
            rec = FS_REC[d](got, wa, **kw)
            want = list(x.shape)
            for p in pos:
                want[p] += (want[p] % 2) if level else 0
            require(list(rec.shape) == want, f"reconstruction shape {list(rec.shape)}, expected {want}")
            tol = (rtol_for(case["dtype"]) * G**d + 20 * d * level * gen.pr_error(w)) * scale
            close(rec[tuple(slice(0, k) for k in x.shape)], x, tol + 1e-300, "reconstruction", dt)
        else:
            L = wav(w).dec_len
            lens = [gen.level_lengths(n, L, case["level"]) for n in case["n"]]
            cnt = [0]

            def arr(lv):
                cnt[0] += 1
                s = {"kind": case["data"]["kind"], "seed": case["data"]["seed"] + cnt[0]}
                return build_np(s, full_shape(case["arr"], [q[lv] for q in lens]))

            c = [arr(case["level"])]
            for lv in range(case["level"], 0, -1):
                c.append({k: arr(lv) for k in keys})
            for i in case.get("zeros", []):
                if i == 0:
                    c[0][...] = 0
                elif (i - 1) // len(keys) < case["level"]:
                    c[1 + (i - 1) // len(keys)][keys[(i - 1) % len(keys)]][...] = 0
            with oracle():
                a = c[0]
                for e in c[1:]:
                    shp = e[keys[0]].shape
                    a = a[tuple(slice(0, q) for q in shp)]
                    a = pywt.idwtn({**e, "a" * d: a}, wav(w), axes=pos)
            tc = [to_tensor(c[0], case["dtype"], case["layout"])]
            tc += [{k: to_tensor(v, case["dtype"], case["layout"]) for k, v in e.items()} for e in c[1:]]
            rec = FS_REC[d](tuple(tc), wa, **kw)
            allc = maxabs(c[0], *[v for e in c[1:] for v in e.values()])
            ctx.interesting(allc > 0)
            scale = max(maxabs(a), allc * G**d)
            close(rec, a, rtol_for(case["dtype"]) * scale + 1e-300, "synthesis", dt)
