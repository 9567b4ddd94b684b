"""C37, C38: containers of coefficients, agreement of the transforms with one another."""

from __future__ import annotations

import collections
from itertools import product

import numpy as np
import ptwt
import torch
from hypothesis import strategies as st

from . import gen, generic as g
from .cmp import as_np, close, maxabs, require
from .core import Prop
from .gen import DT, build_np, to_tensor, wav
from .p_conv import ANALYSIS, FS_DEC, FS_KEYS, FS_REC, KEYS3, SYNTHESIS, check_structure, flat_got
from .p_generic import is_work
from .p_matrix import DEC
from .p_packets import CHARS, PACKET, depth_ok

# ------------------------------------------------------------------------ C37


class Seq(collections.abc.Sequence):
    """A sequence that is neither a list nor a tuple."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class MyDict(dict):
    """A user's dictionary type."""


class MyTuple(tuple):
    """A user's tuple type."""


def permuted(items, seed):
    items = list(items)
    return [items[i] for i in np.random.default_rng(seed).permutation(len(items))]


def rewrap(case, coeffs, how, seed):
    """The same coefficients in another container of the documented type."""
    d = case["d"]
    if d == 1:
        return {"tuple": tuple, "list": list, "sequence": Seq, "deque": collections.deque}[how["outer"]](coeffs)
    new = [coeffs[0]]
    for k, e in enumerate(coeffs[1:]):
        if isinstance(e, dict):
            items = permuted(e.items(), seed + k)
            new.append({"dict": dict, "ordered": collections.OrderedDict, "sub": MyDict}[how["dict"]](items))
        else:
            new.append({"named": lambda t: ptwt.WaveletDetailTuple2d(*t), "plain": tuple, "sub": MyTuple}[how["tuple"]](tuple(e)))
    return list(new) if how["outer"] == "list" else tuple(new)


class C37(Prop):
    id, quick = "C37", 2000
    rule = (
        "analysis: random transform, documented containers, keys and field names, then one tensor of the result is "
        "overwritten in place: no other tensor and not the input changes; synthesis: the same coefficients in "
        "another container (list/tuple/sequence, plain or named tuples, dictionaries in any order and of a "
        "subclass) give the same result and stay as they are; non-trivial: at least one level"
    )
    assumptions = ["values are decided by C01-C15", "level zero may hand the input itself back, as pywt does"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases(g.PAD_AN + ["swt"] + g.MAT_AN + g.PAD_SYN + ["iswt"] + g.MAT_SYN))
            c["r"] = draw(st.integers(0, 10**6))
            outer = ["tuple", "list", "sequence", "deque"] if c["d"] == 1 else ["tuple", "tuple", "list"]
            c["how"] = {
                "outer": draw(st.sampled_from(outer)),
                "tuple": draw(st.sampled_from(["named", "plain", "plain", "sub"])),
                "dict": draw(st.sampled_from(["dict", "ordered", "sub"])),
            }
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        lev = g.nlevels(case)
        ctx.interesting(lev >= 1)
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])
        ts = g.tensors(case)
        if case["fam"] in g.SYN:
            return self.synthesis(case, ctx, f, ts)
        x = ts[0]
        out = f(x)
        if case["fam"] in ("fs2", "fs3"):
            keys = FS_KEYS[case["d"]]
            require(isinstance(out, tuple) and len(out) == lev + 1, f"{type(out).__name__} of {len(out)}")
            for e in out[1:]:
                require(isinstance(e, dict) and sorted(e) == keys, f"detail {type(e).__name__} {sorted(e)}")
        else:
            check_structure(out, case["d"], lev, case["fam"])
        if case["d"] == 2 and not case["fam"].startswith("fs"):
            for e in out[1:]:
                require(e.horizontal is e[0] and e.vertical is e[1] and e.diagonal is e[2], "fields of the detail tuple")
        if lev == 0:
            return
        flat = g.flat(case, out)
        with torch.no_grad():
            tensors = [t.detach() for _, t in flat]
            before = [t.clone() for t in tensors] + [x.detach().clone()]
            k = case["r"] % len(tensors)
            # one entry first: entries of a tensor are independent, too
            one = before[k].clone()
            i = case["r"] // 7 % max(1, one.numel())
            if one.numel():
                place = tuple(int(v) for v in np.unravel_index(i, tuple(one.shape)))
                one[place] = tensors[k][place] = 123.5
            require(torch.equal(tensors[k], one), f"writing one entry of {flat[k][0]} in place changed other entries of it")
            tensors[k].fill_(123.5)
            for i, (t, b) in enumerate(zip(tensors + [x.detach()], before)):
                if i == k:
                    require(bool((t == 123.5).all()), f"{flat[k][0]} cannot be overwritten")
                else:
                    name = "the input" if i == len(tensors) else flat[i][0]
                    require(torch.equal(t, b), f"overwriting {flat[k][0]} in place changed {name}")

    def synthesis(self, case, ctx, f, ts):
        ctx.label(*[f"{k}={v}" for k, v in case["how"].items()])
        base = f(g.pack(case, ts))
        other = rewrap(case, g.pack(case, ts), case["how"], case["r"])
        shape = [(type(e), list(e) if isinstance(e, dict) else None) for e in other]
        got = f(other)
        require(base.dtype == got.dtype, f"dtype {got.dtype} for another container")
        close(got, as_np(base), 1e-3 * g.tol_of(case, *[as_np(t) for t in ts]), f"{case['fam']} from {case['how']}")
        require(
            shape == [(type(e), list(e) if isinstance(e, dict) else None) for e in other],
            "the container of the caller was changed",
        )
        if case["d"] > 1:
            flat = [t for e in other for t in (e.values() if isinstance(e, dict) else e if isinstance(e, tuple) else [e])]
            require({id(t) for t in flat} == {id(t) for t in ts}, "the tensors in the caller's container were replaced")


# ------------------------------------------------------------------------ C38


def outer(vs):
    out = vs[0]
    for v in vs[1:]:
        out = out[..., None] * v
    return out


class C38(Prop):
    id, quick = "C38", 1800
    rule = (
        "random signals: 2-D and 3-D analysis of an outer product = outer products of the 1-D coefficients, and the "
        "same for one-level synthesis; L levels = one level, then L-1 levels of the approximation; packet nodes on "
        "the low-pass path = wavelet coefficients; first swt level = all phases of the periodic transform; "
        "non-trivial: at least one level on non-zero data"
    )
    assumptions = ["rounding", "boundary filters of equal length and wavelet are computed identically"]

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["outer", "outer", "inverse", "cascade", "packet", "packet", "phases"]))
            if kind == "outer":
                c = draw(g.cases(["dwt2", "dwt3", "fs2", "fs3", "mat2", "mat3"]))
                if c["fam"] == "mat2":
                    c["sep"] = True
            elif kind == "inverse":
                c = draw(g.cases(["idwt2", "idwt3", "ifs2", "ifs3"]))
                c["level"] = 1
            elif kind == "cascade":
                c = draw(g.cases(g.PAD_AN + g.MAT_AN))
            elif kind == "packet":
                c = draw(g.cases(["wp1", "wp2"]))
                if draw(st.integers(0, 2)) == 0:
                    # the low-pass path goes deeper than the packet checks walk
                    want = draw(st.integers(3, 7 if c["fam"] == "wp1" else 4))
                    c["maxlevel"] = depth_ok(c["n"], wav(c["wavelet"]).dec_len, c["mode"], want)
            else:
                c = draw(g.cases(["swt"]))
            c["kind"], c["layout"] = kind, "plain"
            if kind in ("outer", "inverse"):
                c["arr"] = {"batch": [], "pos": list(range(c["d"])), "axes": None}
            c["r"] = draw(st.integers(0, 10**6))
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.label(case["kind"])
        getattr(self, case["kind"])(case, ctx)

    def parts(self, case, ns):
        """One small vector per axis."""
        kind = {"large": "normal", "small": "normal"}.get(case["data"]["kind"], case["data"]["kind"])
        return [build_np({"kind": kind, "seed": (case["data"]["seed"] + k) % 2**32}, [n]) for k, n in enumerate(ns)]

    def one_dim(self, case, v):
        """1-D coefficients [a, d_1 (coarsest), ...] of a vector with the settings of the case."""
        f = case["fam"]
        t = to_tensor(v, case["dtype"], "plain")
        w = g.wavelet_of(case)
        if f.startswith("mat"):
            return DEC[1](w, case["level"], orthogonalization=case["orth"], odd_coeff_padding_mode=case["odd"])(t)
        return ptwt.wavedec(t, w, mode=case["mode"], level=case["level"])

    def outer(self, case, ctx):
        d, fam = case["d"], case["fam"]
        lev = g.nlevels(case)
        vs = self.parts(case, case["n"])
        x = outer([np.asarray(v) for v in vs])
        out = g.build(case, g.wavelet_of(case), None)(to_tensor(x, case["dtype"], "plain"))
        ones = []
        for n, v in zip(case["n"], vs):
            c1 = dict(case, d=1, n=[n], fam="mat1" if fam.startswith("mat") else "dwt1")
            if g.nlevels(dict(c1, level=lev)) != lev:
                return
            if fam.startswith("mat") and lev:
                c1["level"] = lev
            elif fam.startswith("mat"):
                return
            ones.append([np.asarray(as_np(t), dtype=float) for t in self.one_dim(c1, v)])
        ctx.interesting(lev >= 1 and maxabs(x) > 0)
        tol = g.rtol(case) * g.growth(case) ** 1 * max(maxabs(x), np.prod([maxabs(*o) for o in ones])) * 10 + 1e-300
        # approximations of the inner levels are not needed: details of one level are made of a_l and d_l
        apx = [self.approximations(case, n, v, lev) for n, v in zip(case["n"], vs)]
        close(out[0], outer([a[lev] for a in apx]), tol, "approximation of an outer product")
        for k, e in enumerate(out[1:]):
            level = lev - k
            bands = {"".join(key): outer([(apx[i] if ch == "a" else None)[level] if ch == "a" else ones[i][k + 1] for i, ch in enumerate(key)]) for key in product("ad", repeat=d)}
            if fam == "dwt2":
                got = {"da": e.horizontal, "ad": e.vertical, "dd": e.diagonal}
            elif fam == "mat2":
                got = {"dd": e.diagonal}  # the order of the others: known finding of C09
            else:
                got = e
            for key, t in got.items():
                close(t, bands[key], tol, f"band {key} of level {level} of an outer product")

    def approximations(self, case, n, v, lev):
        """1-D approximations of all levels 0..lev."""
        out = [np.asarray(v)]
        for l in range(1, lev + 1):
            c1 = dict(case, d=1, n=[n], level=l, fam="mat1" if case["fam"].startswith("mat") else "dwt1")
            out.append(np.asarray(as_np(self.one_dim(c1, v)[0]), dtype=float))
        return out

    def inverse(self, case, ctx):
        d, fam = case["d"], case["fam"]
        shapes = g.core_shapes(case)
        ns = shapes[0]
        vs = self.parts(case, ns)
        keys = ["".join(k) for k in product("ad", repeat=d)]
        key = keys[case["r"] % len(keys)]
        x = outer([np.asarray(v) for v in vs])
        z = torch.zeros(ns, dtype=DT[case["dtype"]])
        t = to_tensor(x, case["dtype"], "plain")
        bands = {k: (t if k == key else z) for k in keys}
        w = g.wavelet_of(case)
        rest = {k: v for k, v in bands.items() if k != "a" * d}
        if fam == "idwt2":
            coeffs = (bands["aa"], ptwt.WaveletDetailTuple2d(bands["da"], bands["ad"], bands["dd"]))
        else:
            coeffs = (bands["a" * d], rest)
        got = (SYNTHESIS if fam.startswith("idwt") else FS_REC)[d](coeffs, w)
        ones = []
        for ch, v in zip(key, vs):
            p = to_tensor(v, case["dtype"], "plain")
            o = torch.zeros_like(p)
            ones.append(np.asarray(as_np(ptwt.waverec([p, o] if ch == "a" else [o, p], w)), dtype=float))
        ctx.interesting(maxabs(x) > 0)
        tol = g.rtol(case) * g.growth(case) * max(maxabs(x), np.prod([maxabs(o) for o in ones])) * 10 + 1e-300
        close(got, outer(ones), tol, f"synthesis of an outer product in band {key}")

    def cascade(self, case, ctx):
        lev = g.nlevels(case)
        if lev < 2:
            return
        x = g.tensors(case)[0]
        w, axes = g.wavelet_of(case), case["arr"]["axes"]
        ctx.interesting(maxabs(as_np(x)) > 0)
        full = g.flat(case, g.build(case, w, axes)(x))
        cut = 1 + case["r"] % (lev - 1)
        first = g.build(dict(case, level=cut), w, axes)(x)
        second = g.build(dict(case, level=lev - cut), w, axes)(first[0])
        require(len(first) == cut + 1 and len(second) == lev - cut + 1, f"{len(first) - 1} and {len(second) - 1} levels")
        both = g.flat(case, list(second) + list(first[1:]))
        g.same_names(full, both)
        for (n, a), (_, b) in zip(full, both):
            close(a, as_np(b), g.tol_of(case, as_np(x), as_np(b)), f"{n}: {lev} levels at once, and {cut} then {lev - cut}")

    def packet(self, case, ctx):
        d, lev = case["d"], case["maxlevel"]
        if not lev:
            return
        x = g.tensors(case)[0]
        ctx.interesting(maxabs(as_np(x)) > 0)
        w, axes = g.wavelet_of(case), case["arr"]["axes"]
        nodes = g.build(case, w, axes)(x)
        if case["mode"] == "boundary":
            c2 = dict(case, fam=f"mat{d}", level=lev, odd="zero")
        else:
            c2 = dict(case, fam=("fs2" if case["sep"] else "dwt2") if d == 2 else "dwt1", level=lev)
        out = g.build(c2, w, axes)(x)
        if len(out) != lev + 1:
            return  # fewer levels fit than the packet tree was asked for
        close(out[0], as_np(nodes["a" * lev]), g.tol_of(case, as_np(out[0]), as_np(x)), "low-pass node")
        for k, e in enumerate(out[1:]):
            p = "a" * (lev - k - 1)
            if d == 1:
                bands = {"d": e}
            elif isinstance(e, dict):
                bands = {"d": e["dd"]}
            else:
                bands = {"h": e[0], "v": e[1], "d": e[2]}
            for key, t in bands.items():
                close(t, as_np(nodes[p + key]), g.tol_of(case, as_np(t), as_np(x)), f"node {p + key} and detail {k + 1}")

    def phases(self, case, ctx):
        x = g.tensors(case)[0]
        pos = case["arr"]["pos"][0]
        n, L = x.shape[pos], wav(case["wavelet"]).dec_len
        if n % 2 or not gen.step_ok(n, L, "periodic"):
            return
        ctx.interesting(maxabs(as_np(x)) > 0)
        w, kw = g.wavelet_of(case), g.axes_kw(case, case["arr"]["axes"])
        sa, sd = ptwt.swt(x, w, level=1, **kw)
        for shift in (0, 1):
            pa, pd = ptwt.wavedec(torch.roll(x, -shift, pos), w, level=1, mode="periodic", **kw)
            m = pa.shape[pos]
            idx = torch.tensor([(2 * k + 1 - L // 2 + shift) % n for k in range(m)])
            for name, s, p in (("approximation", sa, pa), ("detail", sd, pd)):
                want = as_np(p)
                close(s.index_select(pos, idx), want, g.tol_of(case, want, as_np(x)), f"{name} of swt at phase {shift} against the periodic transform")


PROPS = [C37, C38]
