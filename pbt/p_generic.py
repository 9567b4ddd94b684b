"""C23-C27 and C30-C33: relations that every transform has to satisfy."""

from __future__ import annotations

import copy
import math
import warnings
from itertools import product

import numpy as np
import ptwt
import pywt
import torch
from ptwt.constants import WaveletTensorTuple
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet
from hypothesis import strategies as st

from . import gen
from . import generic as g
from .cmp import as_np, close, maxabs, require
from .core import Prop, Violation, oracle
from .gen import DT, build_np, full_shape, to_tensor, wav
from .p_packets import PACKET
from .state import state


def np64(t):
    a = as_np(t)
    return a.astype(np.complex128 if np.iscomplexobj(a) else np.float64)


def run(case, ts, wavelet=None, axes="case"):
    axes = case["arr"]["axes"] if axes == "case" else axes
    f = g.build(case, g.wavelet_of(case) if wavelet is None else wavelet, axes)
    return g.flat(case, f(g.pack(case, ts)))


def is_work(case, arrs):
    return g.nlevels(case) >= 1 and maxabs(*arrs) > 0


# ------------------------------------------------------------------------ C23


class C23(Prop):
    id, quick = "C23", 700
    rule = (
        "random transform or inverse with random rank (up to 5), axes (any order, negative or not) and batch "
        "shape, entries of very different magnitudes, with one entry that is not finite, or a batch without entries; every (other) batch "
        "entry is compared with a call on that entry alone with default axes; non-trivial: "
        "at least two entries or non-default axes, at least one level, non-zero data"
    )
    assumptions = ["the same call on a single entry with default axes is the reference (decided by C01-C21)"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases(max_batch_dims=3))
            c["pick"] = draw(st.integers(0, 2**32 - 1))
            c["entries"] = draw(st.sampled_from(["same", "scaled", "scaled", "nan", "inf", "empty"]))
            return c

        return s()

    def check(self, case, ctx):
        d, arr = case["d"], case["arr"]
        g.label(case, ctx)
        nb = len(arr["batch"])
        if nb and case["entries"] == "empty":
            return self.empty(case, ctx)
        ts = g.tensors(case)
        arrs = [t.detach() for t in ts]
        default = arr["pos"] == list(range(nb, nb + d))
        idx = list(np.ndindex(*arr["batch"])) if nb else [()]
        ctx.interesting(is_work(case, [a.numpy() for a in arrs]) and (len(idx) > 1 or not default))
        if len(idx) > 1 and case["entries"] != "same":
            # entries of very different magnitude, or one that is not finite
            ctx.label("entries=" + case["entries"])
            rng = np.random.default_rng(case["pick"])
            bad = idx[int(rng.integers(len(idx)))] if case["entries"] != "scaled" else None
            power = {i: 10.0 ** int(rng.integers(-9, 10)) for i in idx}
            for t in arrs:
                for i in idx:
                    e = t.movedim(arr["pos"], list(range(-d, 0)))[i]
                    if i == bad:
                        e.fill_(float(case["entries"]))
                    else:
                        e.mul_(power[i])
            idx = [i for i in idx if i != bad]
        got = run(case, ts)
        ctx.label("axes=default" if default else "axes=permuted")
        back = list(range(-d, 0))
        front = [t.movedim(arr["pos"], back) for t in arrs]
        if len(idx) > 6:
            rng = np.random.default_rng(case["pick"])
            idx = [idx[i] for i in sorted(rng.choice(len(idx), 6, replace=False))]
        moved = [(n, t.detach().movedim(arr["pos"], back)) for n, t in got]
        for i in idx:
            one = [t[i].clone() for t in front]
            ref = run(case, one, axes=None)
            g.same_names(moved, ref)
            for (n, m), (_, r) in zip(moved, ref):
                want = list(arr["batch"]) + list(r.shape)
                require(list(m.shape) == want, f"{n}: shape {list(m.shape)} (axes moved to the end), expected {want}")
                r = np64(r)
                close(m[i], r, g.tol_of(case, r, *[t.numpy() for t in one]), f"{n}, entry {i}", m.dtype)

    def empty(self, case, ctx):
        """A batch without any entry: what a batch of one entry gives, of size zero."""
        ctx.label("entries=empty")
        ctx.interesting(g.nlevels(case) >= 1)
        outs = []
        k = case["pick"] % len(case["arr"]["batch"])
        for n in (0, 1):
            batch = list(case["arr"]["batch"])
            batch[k] = n
            c = dict(case, arr=dict(case["arr"], batch=batch), layout="plain")
            outs.append(run(c, g.tensors(c)))
        g.same_names(*outs)
        pos = [p for p in range(len(batch) + case["d"]) if p not in case["arr"]["pos"]]
        for (n, m), (_, r) in zip(*outs):
            want = list(r.shape)
            want[pos[k]] = 0
            require(list(m.shape) == want, f"{n} of an empty batch: shape {list(m.shape)}, expected {want}")
            require(m.dtype == r.dtype, f"{n} of an empty batch: {m.dtype}, expected {r.dtype}")


# ------------------------------------------------------------------------ C24


class Bank:
    """A user-defined wavelet object."""

    def __init__(self, w):
        self.name = "user"
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = (list(map(float, f)) for f in w.filter_bank)
        self.dec_len, self.rec_len = len(self.dec_lo), len(self.rec_lo)
        self.filter_bank = (self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi)

    def __len__(self):
        return self.dec_len


def snapshot(obj):
    """A comparable description of a (nested) argument."""
    if isinstance(obj, torch.Tensor):
        t = obj.detach()
        return ("T", str(t.dtype), tuple(t.shape), t.stride(), t.storage_offset(), t.numpy().tobytes(), obj.requires_grad)
    if isinstance(obj, np.ndarray):
        return ("N", str(obj.dtype), obj.shape, obj.tobytes())
    if isinstance(obj, dict):
        return ("D", tuple((k, id(v), snapshot(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple((id(v), snapshot(v)) for v in obj))
    if isinstance(obj, Bank):
        return ("B", snapshot(list(map(list, obj.filter_bank)))[0], tuple(map(tuple, obj.filter_bank)), tuple(sorted(obj.__dict__)))
    return ("V", repr(obj))


def storage_of(t):
    return t.untyped_storage().data_ptr() if t.numel() else None


class C24(Prop):
    id, quick = "C24", 700
    rule = (
        "sequences of 1-3 random transforms, inverses and packet operations; arguments (tensors, containers, "
        "filters, axes lists, scales) are compared bitwise before and after, the call is repeated (same object for "
        "classes) and must agree bitwise, earlier results must survive later calls; non-trivial: at least one "
        "level on non-zero data"
    )
    assumptions = ["CPU kernels are deterministic for one thread"]

    def strategy(self):
        @st.composite
        def s(draw):
            cs = [draw(g.cases()) for _ in range(draw(st.integers(1, 3)))]
            for c in cs:
                c["rep"] = draw(st.sampled_from(["name", "object", "custom", "tuple"]))
                c["plain_tuple"] = draw(st.booleans())
                c["writes"] = draw(st.booleans())
                c["refresh"] = draw(st.booleans())
                c["other"] = draw(st.integers(0, 3)) > 0
            return {"calls": cs, "again": draw(st.booleans())}

        return s()

    def wavelet(self, c):
        if c["fam"] == "cwt":
            return pywt.ContinuousWavelet(c["wavelet"]) if c["rep"] != "name" else c["wavelet"]
        w = wav(c["wavelet"])
        if c["rep"] == "custom":
            return Bank(w)
        if c["rep"] == "tuple":
            return WaveletTensorTuple.from_wavelet(w, DT[c["dtype"]])
        return c["wavelet"] if c["rep"] == "name" else pywt.Wavelet(c["wavelet"])

    def check(self, case, ctx):
        kept = []
        for c in case["calls"]:
            g.label(c, ctx)
            ts = g.tensors(c)
            ctx.interesting(is_work(c, [t.detach().numpy() for t in ts]))
            w = self.wavelet(c)
            axes = c["arr"]["axes"]
            axes = list(axes) if axes is not None else None
            arg = g.pack(c, ts)
            if c["d"] == 1 and isinstance(arg, list) and c["plain_tuple"]:
                arg = tuple(arg)
            extra = {}
            if c["fam"] == "cwt":
                extra["scales"] = np.array(c["scales"]) if c["plain_tuple"] else torch.tensor(c["scales"])
            watched = [arg, ts, axes, w if not isinstance(w, (pywt.Wavelet, pywt.ContinuousWavelet)) else None, list(extra.values())]
            if isinstance(w, pywt.Wavelet):
                watched.append([list(f) for f in w.filter_bank])
            before = snapshot(watched)
            f = g.build(c, w, axes, **extra)
            outs = []
            for k in range(2):
                out = g.flat(c, f(arg))
                if isinstance(w, pywt.Wavelet):
                    watched[-1] = [list(f) for f in w.filter_bank]
                    if not math.isclose(sum(watched[-1][0]), sum(w.dec_lo)):
                        raise Violation("filters changed")
                    now = snapshot(watched[:-1] + [None])
                    require(now[1][:-1] == before[1][:-1] or self.same_but_ids(before, now), f"{c['fam']}: an argument was changed by call {k + 1}")
                    require(watched[-1] == [list(f) for f in wav(c["wavelet"]).filter_bank], "the wavelet's filters changed")
                else:
                    require(snapshot(watched) == before, f"{c['fam']}: an argument was changed by call {k + 1}: {self.what(before, snapshot(watched))}")
                outs.append(out)
            first, second = outs
            g.same_names(first, second)
            for (n, a), (_, b) in zip(first, second):
                require(a.dtype == b.dtype and a.shape == b.shape, f"{c['fam']} {n}: the second call gives {b.dtype} {tuple(b.shape)}")
                require(
                    np.array_equal(as_np(a), as_np(b), equal_nan=True),
                    f"{c['fam']} {n}: the second call gives other values",
                )
            kept.append((c, first, [as_np(t).copy() for _, t in first], f, arg, (ts, w, axes, extra)))
            if c["writes"] and g.nlevels(c) >= 1 and c["fam"] not in ("wp1", "wp2"):
                # writing into a result must not reach the arguments or later results
                with torch.no_grad():
                    for _, t in second:
                        t.detach().mul_(0).add_(3.0)
                if not isinstance(w, pywt.Wavelet):
                    require(snapshot(watched) == before, f"{c['fam']}: a result shares memory with an argument")
                ctx.label("wrote_into_result")
            if c.get("other", True):
                # the same object, other values of the same shape: earlier results stay
                others = [(t.detach() * -0.75 + 0.5).clone() for t in ts]
                f(g.pack(c, others))
                ctx.label("other_values_between")
            self.earlier(kept)
        if case["again"]:
            for c, _, vals, f, arg, _ in kept:
                for (n, t), v in zip(g.flat(c, f(arg)), vals):
                    require(np.array_equal(as_np(t), v, equal_nan=True), f"{c['fam']} {n}: repeating the call later gives other values")
        self.earlier(kept)
        for c, _, _, f, arg, more in kept:
            if c.get("refresh"):
                self.refresh(c, ctx, f, arg, *more)

    def earlier(self, kept):
        for c, first, vals, _, _, _ in kept:
            for (n, t), v in zip(first, vals):
                require(np.array_equal(as_np(t), v, equal_nan=True), f"{c['fam']} {n}: an earlier result was overwritten by a later call")

    def refresh(self, c, ctx, f, arg, ts, w, axes, extra):
        """The same argument objects with other values in them."""
        ctx.label("values_replaced")
        with torch.no_grad():
            for i, t in enumerate(ts):
                t.detach().mul_(-0.5).add_(0.25 * (1 + i) * float(maxabs(t.detach().numpy())))
            if isinstance(w, WaveletTensorTuple) and c["writes"]:
                for q in w:
                    q.neg_()
                w2 = WaveletTensorTuple(*[q.clone() for q in w])
                f = g.build(c, w, axes, **extra)
            elif isinstance(w, Bank) and c["writes"]:
                for q in w.filter_bank:
                    q[:] = [-v for v in q]
                w2 = Bank(w)
                f = g.build(c, w, axes, **extra)
            else:
                w2 = w
        copies = [t.detach().clone() for t in ts]
        want = g.flat(c, g.build(c, w2, axes, **extra)(g.pack(c, copies)))
        got = g.flat(c, f(arg))
        g.same_names(got, want)
        for (n, a), (_, b) in zip(got, want):
            close(a, as_np(b), g.tol_of(c, as_np(b), *[np64(t) for t in copies]), f"{n} after the arguments were given other values", b.dtype)

    def same_but_ids(self, a, b):
        return a[1][:-1] == b[1][:-1]

    def what(self, a, b):
        names = ["argument", "tensors", "axes", "wavelet", "scales"]
        return [n for n, x, y in zip(names, a[1], b[1]) if x != y]


# ------------------------------------------------------------------------ C25

BAD_DTYPES = ["float16", "bfloat16", "int64", "int32", "uint8", "bool", "complex64", "complex128"]


class C25(Prop):
    id, quick = "C25", 800
    rule = (
        "random discrete transform or inverse: float32 and float64 results have the dtype of the input and agree to "
        "single precision; eight other dtypes and coefficient sequences with one tensor of another dtype at a random "
        "position raise ValueError; non-trivial: at least one level on non-zero data, or a refusal"
    )
    assumptions = ["float64 results are decided by the other properties", "cwt is outside (pywt's promotion rules)"]

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["precision", "precision", "dtype", "mixed"]))
            c = draw(g.cases(g.DISCRETE if kind != "mixed" else g.SYN, level0=kind != "mixed"))
            if c["data"]["kind"] in ("large", "tiny"):
                c["data"]["kind"] = "normal"
            c["kind"] = kind
            c["rep"] = draw(st.sampled_from(["name", "object", "custom", "tuple32", "tuple64"]))
            c["bad"] = draw(st.sampled_from(BAD_DTYPES))
            c["at"] = draw(st.integers(0, 200))
            c["mixed_to"] = draw(st.sampled_from(["other", "other", "float16", "int64"]))
            # boundary filters of long wavelets are ill-conditioned in float32
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.label(case["kind"])
        w = case["wavelet"]
        if case["rep"] == "object":
            w = pywt.Wavelet(w)
        elif case["rep"] == "custom":
            w = Bank(wav(w))
        elif case["rep"].startswith("tuple"):
            # filters of another precision must not change the dtype of the result
            w = WaveletTensorTuple.from_wavelet(wav(w), DT["f" + case["rep"][5:]])
        if case["kind"] == "precision":
            arrs = [a.astype(np.float32).astype(np.float64) for a in g.arrays(case)]
            out = {}
            for dt in ("f32", "f64"):
                c = dict(case, dtype=dt)
                ts = [to_tensor(a, dt, case["layout"]) for a in arrs]
                out[dt] = run(c, ts, w)
                for n, t in out[dt]:
                    require(t.dtype == DT[dt], f"{n}: dtype {t.dtype} from {DT[dt]} input")
            ctx.interesting(is_work(case, arrs))
            c32 = dict(case, dtype="f32")
            g.same_names(out["f32"], out["f64"])
            L = wav(case["wavelet"]).dec_len
            boundary = case["fam"] in g.MAT_AN + g.MAT_SYN or case.get("mode") == "boundary"
            if boundary and case["orth"] == "qr":
                # the signs of the QR basis may flip with the precision, norms do not
                return
            if boundary and L > 14:
                return
            for (n, a), (_, b) in zip(out["f32"], out["f64"]):
                b = np64(b)
                close(a, b, g.tol_of(c32, b, *arrs) * (1 if boundary else 0.3), f"{n} in float32")
            return
        ts = g.tensors(case)
        if case["kind"] == "dtype":
            dt = getattr(torch, case["bad"])
            ts = [t.detach().to(dt) for t in ts]
            if dt == torch.bool:
                ts = [t > 0 for t in g.tensors(case)]
            what = f"{case['fam']} accepted {dt}"
            if case["fam"] in g.PACK and case["maxlevel"] == 0:
                return
        else:
            if len(ts) < 2:
                return
            i = case["at"] % len(ts)
            other = {"f32": torch.float64, "f64": torch.float32}[case["dtype"]]
            dt = other if case["mixed_to"] == "other" else getattr(torch, case["mixed_to"])
            ts[i] = ts[i].detach().to(dt)
            what = f"{case['fam']} accepted coefficient {i} in {dt} among {case['dtype']}"
        ctx.interesting()
        try:
            run(case, ts, w)
        except ValueError:
            return
        raise Violation(what)


# ------------------------------------------------------------------------ C26

REFUSALS = (ValueError, KeyError, IndexError, TypeError, RuntimeError, AttributeError, AssertionError, NotImplementedError)
BAD_MODES = ["bogus", "Zero", "", "reflect ", "periodization", "smooth", "replicate", "circular", "antisymmetric", "REFLECT"]
BAD_ORTH = ["bogus", "QR", "", "gram-schmidt", "gramschmidt ", None, "svd"]


REFUSED_DTYPES = [torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.uint8, torch.bool, torch.complex64, torch.complex128]


def refused(f, types, what):
    try:
        f()
    except types:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}) instead of {[t.__name__ for t in types]}") from e
    raise Violation(f"{what}: silently accepted")


def relevel(c):
    """Make sure something is computed."""
    return g.nlevels(c) >= 1


class C26(Prop):
    id, quick = "C26", 1200
    rule = (
        "random valid call, then the same call with one thing made invalid: boundary mode, orthogonalisation, axes "
        "(repeated, too few, too many, int, out of range), rank, dtype, matrix level, filter lengths, or one coefficient "
        "at a random position (shape off by one along a random axis, wrong batch, not a tensor, wrong container, "
        "missing subband); non-trivial: an invalid call was made"
    )
    assumptions = [
        "exception types where documented (ValueError; NotImplementedError for the orthogonalisation); elsewhere any exception",
    ]

    KINDS = {
        "mode": [f for f in g.PAD_AN + ["wp1", "wp2"] + g.MAT_AN],
        "orth": g.MAT_AN + g.MAT_SYN + g.PACK,
        "axes": [f for f in g.DISCRETE],
        "rank": g.DISCRETE,
        "level": g.MAT_AN,
        "filters": g.MAT_AN + g.MAT_SYN,
        "shape": g.SYN,
        "container": g.PAD_SYN + ["iswt"] + g.MAT_SYN,
        "dtype": g.DISCRETE,
    }

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["mode", "orth", "axes", "rank", "level", "filters", "shape", "shape", "shape", "container", "container", "dtype"]))
            c = draw(g.cases(self.KINDS[kind], level0=False))
            c["layout"] = "plain"
            c["kind"] = kind
            c["r"] = [draw(st.integers(0, 10**6)) for _ in range(4)]
            c["bad"] = draw(st.sampled_from(BAD_MODES if kind == "mode" else BAD_ORTH))
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.label("kind=" + case["kind"])
        getattr(self, case["kind"])(case, ctx)
        if case["kind"] != "level" and g.nlevels(case) >= 0:
            run(case, g.tensors(case))  # the valid neighbour still works

    def mode(self, case, ctx):
        if not relevel(case):
            return
        c = dict(case)
        if case["fam"] in g.MAT_AN:
            # only needed, and only refused, where a level is padded
            steps, _ = g.plan(case)
            if not any(l != e for l, e in steps):
                return
            c["odd"] = case["bad"]
        else:
            c["mode"] = case["bad"]
        ctx.interesting()
        refused(lambda: run(c, g.tensors(case)), (ValueError,), f"mode {case['bad']!r}")

    def orth(self, case, ctx):
        ctx.interesting()
        w, d = g.wavelet_of(case), case["d"]
        kw = {"orthogonalization": case["bad"]}
        what = f"orthogonalization {case['bad']!r}"
        if case["fam"] in g.PACK:
            f = lambda: PACKET[d](None, w, mode=case["mode"], **kw)
        elif case["fam"] in g.MAT_AN:
            f = lambda: g.DEC[d](w, 1, **kw)
        else:
            f = lambda: g.REC[d](w, **kw)
        refused(f, (NotImplementedError,), what)
        if case["fam"] in ("mat1", "imat1"):
            fn = ptwt.matmul_transform.construct_boundary_a if case["fam"] == "mat1" else ptwt.matmul_transform.construct_boundary_s
            refused(lambda: fn(w, 2 * wav(case["wavelet"]).dec_len, orthogonalization=case["bad"]), (ValueError,), what)

    def axes(self, case, ctx):
        d, nb = case["d"], len(case["arr"]["batch"])
        nd, r = nb + d, case["r"]
        ts = g.tensors(case)
        opts = ["range", "range"]
        if d > 1:
            opts += ["dup", "dup", "few", "many", "int", "alias"]
        opt = opts[r[0] % len(opts)]
        base = list(case["arr"]["pos"])
        typ = (ValueError,)
        if opt == "range":
            base[r[1] % d] = nd + r[2] % 3 if r[3] % 2 else -nd - 1 - r[2] % 3
            typ = REFUSALS
        elif opt == "dup":
            base = [p - nd for p in base] if r[3] % 2 else base
            base[r[1] % d] = base[(r[1] + 1) % d]
        elif opt == "alias":
            base[r[1] % d] = base[(r[1] + 1) % d] - nd
            typ = REFUSALS
        elif opt == "few":
            base = base[1:]
        elif opt == "many":
            rest = [i for i in range(nd) if i not in base]
            base = base + (rest[:1] or [nd])
        ctx.label("axes=" + opt)
        ctx.interesting()
        if case["fam"] in g.PACK and opt in ("range", "alias") and not g.nlevels(case):
            return
        arg = base[0] if opt == "int" else base
        if opt == "int":
            if case["fam"] in ("iwp2",):
                return
        else:
            arg = tuple(base) if r[2] % 2 else base
        w = g.wavelet_of(case)
        if case["fam"].startswith("iwp") and opt not in ("range", "alias"):
            refused(lambda: PACKET[d](None, w, mode=case["mode"], axes=arg), typ, f"axes {arg}")
            return
        refused(lambda: g.build(case, w, arg)(g.pack(case, ts)), typ, f"{case['fam']} axes {arg} of rank {nd}")

    def rank(self, case, ctx):
        d = case["d"]
        c = dict(case, arr={"batch": [], "pos": list(range(d)), "axes": None})
        keep = case["r"][0] % d
        ts = [t[(0,) * (d - keep)] for t in g.tensors(c)]
        ctx.interesting()
        typ = REFUSALS if case["fam"] in g.PACK else (ValueError,)
        if case["fam"] in g.PACK and not g.nlevels(case):
            return
        refused(lambda: run(c, ts), typ, f"{case['fam']} on rank {keep}")

    def dtype(self, case, ctx):
        dt = REFUSED_DTYPES[case["r"][0] % len(REFUSED_DTYPES)]
        if case["fam"] in g.PACK and not g.nlevels(case):
            return
        ctx.label(str(dt))
        ctx.interesting()
        ts = [t.to(dt) for t in g.tensors(case)]
        refused(lambda: run(case, ts), (ValueError,), f"{case['fam']} of dtype {dt}")

    def level(self, case, ctx):
        ctx.interesting()
        c = dict(case, level=-(case["r"][0] % 3))
        refused(lambda: run(c, g.tensors(case)), (ValueError,), f"level {c['level']}")
        run(case, g.tensors(case))

    def filters(self, case, ctx):
        ctx.interesting()
        b = Bank(wav(case["wavelet"]))
        pre = case["r"][0] % 2
        more = [0.25] * (2 * (1 + case["r"][1] % 2))
        if pre:
            b.dec_lo, b.dec_hi = b.dec_lo + more, b.dec_hi + more
        else:
            b.rec_lo, b.rec_hi = b.rec_lo + more, b.rec_hi + more
        b.filter_bank = (b.dec_lo, b.dec_hi, b.rec_lo, b.rec_hi)
        b.dec_len, b.rec_len = len(b.dec_lo), len(b.rec_lo)
        refused(lambda: run(case, g.tensors(case), b), (ValueError,), f"filters of {b.dec_len} and {b.rec_len} taps")

    def shape(self, case, ctx):
        ts = g.tensors(case)
        r, d = case["r"], case["d"]
        if len(ts) < 2:
            return
        i = r[0] % len(ts)
        t = ts[i]
        pos = case["arr"]["pos"]
        opt = ["batch", "axis", "axis", "long", "nobatch", "exchange", "exchange", "level", "level"][r[1] % 9]
        if opt == "level":
            if self.whole_level(case, ctx, ts):
                return
            opt = "axis"
        if opt == "exchange":
            # two coefficients of one level exchange samples: their total size fits
            j = (i + 1) % len(ts)
            p = pos[r[2] % d]
            k = t.shape[p]
            e = 1 + r[3] % max(1, k - 1)
            if t.shape == ts[j].shape and k > e:
                ts[i] = t.narrow(p, 0, k - e)
                ts[j] = torch.cat([ts[j], ts[j].narrow(p, 0, e)], p)
                ctx.label("shape=exchange")
                ctx.interesting()
                refused(lambda: run(case, ts), REFUSALS, f"{case['fam']}: coefficients {i} and {j} have shapes {tuple(ts[i].shape)}, {tuple(ts[j].shape)}")
                return
            opt = "axis"
        bpos = [p for p in range(t.dim()) if p not in pos]
        if opt in ("batch", "nobatch") and not bpos:
            opt = "axis"
        if opt == "nobatch":
            if all(t.shape[p] == 1 for p in bpos):
                return
            ts[i] = t[tuple(0 if p in bpos else slice(None) for p in range(t.dim()))]
        else:
            p = bpos[r[2] % len(bpos)] if opt == "batch" else pos[r[2] % d]
            k = t.shape[p]
            if opt == "batch":
                ts[i] = t.narrow(p, 0, 1) if k > 1 else torch.cat([t, t], p)
            elif opt == "axis" and k > 1:
                ts[i] = t.narrow(p, 0, k - 1)
            else:
                ts[i] = torch.cat([t] * 4, p)[tuple(slice(0, k + 3) if q == p else slice(None) for q in range(t.dim()))]
        if case["fam"] in ("idwt1", "imat1") and i == len(ts) - 1 and opt != "batch" and opt != "nobatch":
            # one detail tensor per level: the finest may belong to another signal
            k, L = ts[i].shape[pos[0]], wav(case["wavelet"]).dec_len
            up = ts[i - 1].shape[pos[0]]
            pred = 2 * up - (L - 2) if case["fam"] == "idwt1" else 2 * up
            if k in (pred, pred - 1) and len(ts) > 2:
                return
        if case["fam"] in ("idwt1", "imat1") and 1 <= i < len(ts) - 1 and opt in ("axis", "long"):
            pass
        ctx.label("shape=" + opt)
        ctx.interesting()
        refused(lambda: run(case, ts), REFUSALS, f"{case['fam']}: coefficient {i} has shape {tuple(ts[i].shape)} instead of {tuple(t.shape)}")

    def whole_level(self, case, ctx, ts):
        """All details of one level belong to a signal of another size."""
        d, r, pos = case["d"], case["r"], case["arr"]["pos"]
        nb = 2**d - 1
        levels = (len(ts) - 1) // nb
        if levels < 2 or case["fam"] in ("iswt", "iwp1", "iwp2"):
            # no levels of other sizes
            return False
        j = 1 + r[0] % (levels - 1)
        p = pos[r[2] % d]
        up = ts[1 + (j - 1) * nb].shape[p]
        pred = 2 * up if case["fam"].startswith("imat") else 2 * up - (wav(case["wavelet"]).dec_len - 2)
        ok = (pred, pred - 1)
        k = ts[1 + j * nb].shape[p]
        new = [q for q in list(range(1, k + 5)) if q not in ok and q != k]
        if not new:
            return False
        new = new[r[3] % len(new)]
        for i in range(1 + j * nb, 1 + (j + 1) * nb):
            big = torch.cat([ts[i]] * (1 + new // k), p)
            ts[i] = big.narrow(p, 0, new)
        ctx.label("shape=level", "longer" if new > k else "shorter")
        ctx.interesting()
        refused(lambda: run(case, ts), REFUSALS, f"{case['fam']}: details of level {j} have {new} instead of {k} entries on axis {p}")
        return True

    def container(self, case, ctx):
        f, d, r = case["fam"], case["d"], case["r"]
        c = list(g.pack(case, g.tensors(case)))
        i = r[0] % len(c)
        e = c[i]
        dicts = f.startswith("ifs") or f in ("idwt3", "imat3")
        opts = ["none", "numpy", "float", "str", "list"]
        if i == 0:
            opts += ["tuple", "dict"]
            typ = (ValueError,)
        elif d == 1:
            opts += ["tuple", "dict"]
            typ = REFUSALS
        else:
            opts += ["tensor", "drop", "drop", "empty", "inner"] + (["astuple", "wrongkey"] if dicts else ["asdict", "more"])
            if dicts and not f.startswith("ifs"):
                # the separable synthesis ignores other keys
                opts.append("morekeys")
            typ = REFUSALS
        k = r[1] % len(opts)
        for opt in (opts[k:] + opts[:k])[:5]:
            self.replaced(case, ctx, list(c), i, opt, typ)

    def replaced(self, case, ctx, c, i, opt, typ):
        """Element i in another container."""
        f, d, r = case["fam"], case["d"], case["r"]
        dicts = f.startswith("ifs") or f in ("idwt3", "imat3")
        e = c[i]
        vals = list(e.values()) if isinstance(e, dict) else (list(e) if isinstance(e, tuple) else [e])
        j = r[2] % len(vals)
        if opt == "none":
            new = None
        elif opt == "numpy":
            new = vals[0].detach().numpy().copy()
        elif opt == "float":
            new = 1.0
        elif opt == "str":
            new = "a"
        elif opt == "list":
            new = list(vals)
        elif opt == "tuple":
            new = (vals[0], vals[0])
        elif opt == "dict":
            new = {"a": vals[0]}
        elif opt == "tensor":
            new = vals[j]
        elif opt == "empty":
            new = {} if dicts else ()
        elif opt == "drop":
            new = {k: v for n, (k, v) in enumerate(e.items()) if n != j} if dicts else tuple(v for n, v in enumerate(e) if n != j)
        elif opt == "inner":
            bad = [None, 1.0, "x"][r[3] % 3]
            new = {k: bad if n == j else v for n, (k, v) in enumerate(e.items())} if dicts else tuple(bad if n == j else v for n, v in enumerate(e))
        elif opt == "astuple":
            new = tuple(vals)
        elif opt == "wrongkey":
            new = {("x" * d if n == j else k): v for n, (k, v) in enumerate(e.items())}
        elif opt == "morekeys":
            new = {**e, ["x" * d, "a" * d, list(e)[0] + "d"][r[3] % 3]: vals[0]}
        elif opt == "asdict":
            new = dict(zip("hvd", vals))
        else:
            new = tuple(vals) + (vals[0],)
        c[i] = new
        ctx.label("container=" + opt)
        ctx.interesting()
        fn = g.build(case, g.wavelet_of(case), case["arr"]["axes"])
        refused(lambda: fn(c if d == 1 else tuple(c)), typ, f"{f}: element {i} replaced ({opt})")


# ------------------------------------------------------------------------ C27


def inner(ys, outs):
    """Re <y, out> summed over all tensors."""
    total = 0.0
    for y, (_, o) in zip(ys, outs):
        total = total + ((y.conj() * o).real if o.is_complex() else y * o).sum()
    return total


def noise_like(outs, seed):
    rng = np.random.default_rng(seed)
    ys = []
    for _, o in outs:
        y = rng.standard_normal(o.shape)
        if o.is_complex():
            y = y + 1j * rng.standard_normal(o.shape)
        ys.append(torch.as_tensor(y).to(o.dtype))
    return ys


class C27(Prop):
    id, quick = "C27", 500
    rule = (
        "random transform or inverse T, random x, x', y: the autograd gradient q of <y, T x> must satisfy "
        "<q, x'> = <y, T x'> for every input tensor (graph intact); for padded, separable and stationary "
        "transforms the gradients with respect to the four filters against central differences; non-trivial: at "
        "least one level"
    )
    assumptions = ["torch autograd of elementary operations", "relative accuracy 1e-8 (data) and 1e-6 (filters), float64"]
    FILTER_FAMS = g.PAD_AN + g.PAD_SYN + g.STAT

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["data", "data", "data", "filters"]))
            c = draw(g.cases(g.ALL if kind == "data" else self.FILTER_FAMS))
            c["dtype"], c["kind"] = "f64", kind
            c["layout"] = "plain"
            c["data"]["kind"] = draw(st.sampled_from(["normal", "ints", "impulse", "zeros", "constant"]))
            if kind == "filters" and c["data"]["kind"] == "zeros":
                c["data"]["kind"] = "normal"
            c["rep"] = draw(st.sampled_from(["tuple", "learnable"]))
            c["single"] = draw(st.integers(0, 3)) == 3
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.label(case["kind"])
        if case["kind"] == "filters":
            return self.filters(case, ctx)
        arrs = g.arrays(case) if case["data"]["kind"] != "zeros" else [0 * a for a in g.arrays(dict(case, data={"kind": "constant", "seed": 0}))]
        xs = [torch.from_numpy(a).clone().requires_grad_(True) for a in arrs]
        outs = run(case, xs)
        ctx.interesting(g.nlevels(case) >= 1)
        seed = case["data"]["seed"]
        ys = noise_like(outs, seed)
        for n, o in outs:
            require(o.requires_grad, f"{n} is cut off from the graph")
        qs = torch.autograd.grad(inner(ys, outs), xs, allow_unused=True)
        rng = np.random.default_rng(seed + 1)
        x2 = [torch.from_numpy(rng.standard_normal(a.shape)) for a in arrs]
        with torch.no_grad():
            for k in range(-1, len(xs)):
                # all inputs together, then one input at a time (up to four of them)
                if k >= 4:
                    break
                if k >= 0 and len(xs) == 1:
                    break
                probe = [x if k in (-1, i) else torch.zeros_like(x) for i, x in enumerate(x2)]
                o2 = run(case, probe)
                want = float(inner(ys, o2))
                have = 0.0
                for i, (q, p) in enumerate(zip(qs, probe)):
                    if q is None:
                        q = torch.zeros_like(p)
                    have += float((q * p).sum())
                scale = sum(float((y.abs() * o.abs()).sum()) for y, (_, o) in zip(ys, o2))
                scale += sum(float((q.abs() * p.abs()).sum()) for q, p in zip(qs, probe) if q is not None)
                scale += maxabs(*[as_np(y) for y in ys]) * maxabs(*[as_np(p) for p in probe])
                require(
                    abs(want - have) <= 1e-8 * g.growth(case) * scale + 1e-300,
                    f"<gradient, x'> = {have!r} but <y, T x'> = {want!r}" + (f" (input {k})" if k >= 0 else ""),
                )

    def filters(self, case, ctx):
        lev = g.nlevels(case)
        w0 = [torch.tensor(f, dtype=torch.float64) for f in wav(case["wavelet"]).filter_bank]
        # filters of another dtype than the data: converted, with their graph
        fdt, tol = (torch.float32, 2e-5) if case["single"] else (torch.float64, 2e-6)
        w0 = [f.to(fdt).double() for f in w0]
        ctx.label(f"filters {fdt}")
        if case["rep"] == "learnable":
            mod = ProductFilter(*[f.to(fdt) for f in w0])
            filt = [mod.dec_lo, mod.dec_hi, mod.rec_lo, mod.rec_hi]
            wv = mod
        else:
            filt = [f.to(fdt).clone().requires_grad_(True) for f in w0]
            wv = WaveletTensorTuple(*filt)
        xs = [t.detach() for t in g.tensors(case)]
        outs = run(case, xs, wv)
        if lev == 0:
            return
        ctx.interesting(maxabs(*[x.numpy() for x in xs]) > 0)
        seed = case["data"]["seed"]
        ys = noise_like(outs, seed)
        qs = torch.autograd.grad(inner(ys, outs), filt, allow_unused=True)
        used = (0, 1) if case["fam"] in g.PAD_AN + ["swt"] else (2, 3)
        rng = np.random.default_rng(seed + 1)
        for k in used:
            require(qs[k] is not None, f"no gradient reaches filter {k}")
            v = torch.from_numpy(rng.standard_normal(filt[k].shape))

            def value(h):
                fs = [f + h * v if i == k else f for i, f in enumerate(w0)]
                with torch.no_grad():
                    return float(inner(ys, run(case, xs, WaveletTensorTuple(*fs))))

            # the value is a polynomial of degree level * d: Richardson extrapolation
            h = 1e-3
            d1 = (value(h) - value(-h)) / (2 * h)
            d2 = (value(h / 2) - value(-h / 2)) / h
            d3 = (value(h / 4) - value(-h / 4)) / (h / 2)
            e1, e2 = (4 * d2 - d1) / 3, (4 * d3 - d2) / 3
            num = (16 * e2 - e1) / 15
            ana = float((qs[k] * v).sum())
            scale = sum(float((y.abs() * o.abs()).sum()) for y, (_, o) in zip(ys, outs)) + float((qs[k].abs() * v.abs()).sum()) + abs(num)
            require(abs(num - ana) <= tol * scale + 10 * abs(e2 - e1) + 1e-300, f"gradient along filter {k}: {ana!r}, numerically {num!r}")


# ------------------------------------------------------------------------ C30


class C30(Prop):
    id, quick = "C30", 900
    rule = (
        "random transform or inverse T, random x, y and scalars over many magnitudes: T(ax+by) = aT(x)+bT(y), "
        "T(0) = 0 exactly, T(2^k x) = 2^k T(x); non-trivial: at least one level on non-zero data"
    )
    assumptions = ["rounding bound 1e-10 (float64) / 1e-4 (float32), 1e-9 / 1e-3 for boundary filters, times the filter gain"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases())
            c["a"] = draw(st.sampled_from([1.0, -1.0, 0.5, 3.0, -2.25, 1e3, 1e-3, 0.0]))
            c["b"] = draw(st.sampled_from([1.0, -1.0, 0.75, -5.0, 1e2]))
            c["pow"] = draw(st.sampled_from([-400, -60, -20, -7, 5, 20, 60, 400] if c["dtype"] == "f64" else [-60, -30, -9, 6, 20, 60]))
            c["other"] = draw(gen.data_spec())
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        dt = DT[case["dtype"]]
        xs = [t.detach() for t in g.tensors(case)]
        if case["layout"] == "grad":
            xs = [x.requires_grad_(True) for x in xs]
        c2 = dict(case, data=case["other"])
        ys = [t.detach() for t in g.tensors(c2, salt=1, layout=False)]
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])

        def T(ts):
            return [(n, np64(t)) for n, t in g.flat(case, f(g.pack(case, ts)))]

        a, b = case["a"], case["b"]
        tx, ty = T(xs), T(ys)
        ctx.interesting(is_work(case, [np64(x) for x in xs]))
        txy = T([(a * x.detach() + b * y).to(dt) for x, y in zip(xs, ys)])
        size = maxabs(*[a * np64(x) for x in xs], *[b * np64(y) for y in ys], *[a * v for _, v in tx], *[b * v for _, v in ty])
        for (n, x), (_, y), (_, z) in zip(tx, ty, txy):
            e = maxabs(z - (a * x + b * y))
            require(z.shape == x.shape, f"{n}: shape depends on the values")
            require(e <= 3 * g.tol_of(case, np.array(size)), f"{n}: T(ax+by) differs from aT(x)+bT(y) by {e:.3g} (largest value {size:.3g})")
        for n, z in T([torch.zeros_like(x) for x in xs]):
            require(maxabs(z) == 0, f"{n}: T(0) is not zero")
        k = 2.0 ** case["pow"]
        size = maxabs(*[np64(x) for x in xs], *[v for _, v in tx]) * k
        for (n, x), (_, z) in zip(tx, T([(k * x.detach()).to(dt) for x in xs])):
            e = maxabs(z - k * x)
            require(e <= g.tol_of(case, np.array(size)), f"{n}: T(2^{case['pow']} x) differs from 2^{case['pow']} T(x) by {e:.3g}")


# ------------------------------------------------------------------------ C31


def custom_bank(spec):
    """A filter bank that is not in pywt: random, or a random two-stage lattice (orthogonal)."""
    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "random":
        L = 2 * (1 + spec["seed"] % 5)
        return [list(map(float, rng.standard_normal(L) / np.sqrt(L))) for _ in range(4)]
    th = rng.uniform(0, 2 * np.pi, 1 + spec["seed"] % 3)
    h = np.array([np.cos(th[0]), np.sin(th[0])])
    k = np.array([-np.sin(th[0]), np.cos(th[0])])
    for t in th[1:]:
        h2 = np.concatenate([np.cos(t) * h, [0, 0]]) + np.concatenate([[0, 0], np.sin(t) * k])
        k2 = -np.concatenate([np.sin(t) * h, [0, 0]]) + np.concatenate([[0, 0], np.cos(t) * k])
        h, k = h2, k2
    return [list(map(float, f)) for f in (h, k, h[::-1], k[::-1])]


class C31(Prop):
    id, quick = "C31", 900
    rule = (
        "random transform or inverse, the same wavelet as name, pywt object, user-defined object, filter tuple of "
        "either precision or learnable wavelet: results agree bitwise (1 ulp of float32 filters otherwise); custom "
        "random filter banks against pywt.Wavelet(filter_bank=...) in pywt; non-trivial: at least one level"
    )
    assumptions = ["pywt is the reference for custom banks", "learnable wavelets: padded and stationary transforms only"]
    DEFAULT_LEVEL = g.PAD_AN + ["swt"] + g.MAT_AN + ["wp1", "wp2"]

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["same", "same", "custom"]))
            if kind == "custom":
                d = draw(st.integers(1, 3))
                spec = {"kind": draw(st.sampled_from(["random", "random", "lattice"])), "seed": draw(st.integers(0, 2**32 - 1))}
                L = len(custom_bank(spec)[0])
                mode = draw(st.sampled_from(gen.MODES))
                lo = max(2, L)
                n = [draw(st.integers(lo, lo + {1: 40, 2: 12, 3: 6}[d])) for _ in range(d)]
                cap = min(gen.max_valid_level(k, L, mode, {1: 3, 2: 2, 3: 2}[d]) for k in n)
                return {
                    "kind": kind, "bank": spec, "d": d, "mode": mode, "n": n, "level": draw(st.integers(min(1, cap), cap)),
                    "fs": draw(st.booleans()), "swt": draw(st.integers(0, 2)) == 0, "data": draw(gen.data_spec()),
                    "rep": draw(st.sampled_from(["object", "custom", "tuple", "learnable"])),
                }
            c = draw(g.cases(g.DISCRETE))
            c["kind"] = kind
            c["default_level"] = draw(st.booleans()) and c["fam"] in self.DEFAULT_LEVEL
            c["nograd"] = draw(st.booleans())
            return c

        return s()

    def trained(self, case, w, dt, call):
        """A learnable wavelet that was used with other parameters before."""
        lw = ProductFilter(*[torch.tensor(f, dtype=dt).flip(0) * 0.5 for f in w.filter_bank])
        with torch.set_grad_enabled(not case["nograd"]):
            call(lw)
        with torch.no_grad():
            for p, f in zip(lw.parameters(), w.filter_bank):
                p.copy_(torch.tensor(f, dtype=dt))
        return lw

    def reps(self, case, w, dt):
        def ft(t):
            return [torch.tensor(f, dtype=t) for f in w.filter_bank]

        out = {
            "object": w,
            "custom": Bank(w),
            "tuple": WaveletTensorTuple.from_wavelet(w, dt),
            "tuple of float64": WaveletTensorTuple.from_wavelet(w, torch.float64),
        }
        if case["fam"] not in g.MAT_AN + g.MAT_SYN and not (case["fam"] in g.PACK and case["mode"] == "boundary") and not (
            case["fam"] in g.PACK and case["default_level"]
        ):
            out["learnable"] = ProductFilter(*ft(dt))
            out["learnable orthogonal"] = SoftOrthogonalWavelet(*ft(torch.float64))
        return out

    def check(self, case, ctx):
        ctx.label(case["kind"])
        if case["kind"] == "custom":
            return self.custom(case, ctx)
        g.label(case, ctx)
        c = dict(case)
        w = pywt.Wavelet(case["wavelet"])
        if case["default_level"]:
            L = wav(case["wavelet"]).dec_len
            if case["fam"] in g.PAD_AN + ["wp1", "wp2"]:
                # stay inside torch's padding limits
                from .p_packets import depth_ok
                ml = min(pywt.dwt_max_level(n, L) for n in case["n"])
                if case["fam"].startswith("fs"):
                    ml = max(0, int(min(np.log2(n / (L - 1)) for n in case["n"])))
                if ml > depth_ok(case["n"], L, case["mode"], 6) or ml > 3:
                    c["default_level"] = False
            if c["default_level"]:
                c["level"] = None
                ctx.label("default_level")
        ts = g.tensors(case)
        build = self.build_default if c["default_level"] and case["fam"] in g.PACK else g.build
        ref = g.flat(c, build(c, case["wavelet"], case["arr"]["axes"])(g.pack(case, ts)))
        ctx.interesting(g.nlevels(case) >= 1)

        def call(wv):
            return g.flat(c, build(c, wv, case["arr"]["axes"])(g.pack(case, ts)))

        reps = self.reps(c, w, DT[case["dtype"]])
        if "learnable" in reps:
            reps["learnable, trained"] = self.trained(c, w, DT[case["dtype"]], call)
        for name, wv in reps.items():
            ctx.label("as "+name)
            with torch.set_grad_enabled(not case["nograd"]):
                got = call(wv)
            g.same_names(ref, got, f"wavelet as {name}: ")
            for (n, a), (_, b) in zip(ref, got):
                require(a.dtype == b.dtype, f"{n}: dtype {b.dtype} with the wavelet as {name}")
                r = np64(a)
                close(b, r, g.tol_of(case, r, *[np64(t) for t in ts]) * 1e-3, f"{n} with the wavelet as {name}")

    def build_default(self, c, w, axes):
        def f(a):
            wp = PACKET[c["d"]](a, w, mode=c["mode"], **g.axes_kw(c, axes), **({"separable": True} if c["d"] == 2 and c["sep"] else {}), **({"orthogonalization": c["orth"]} if c["mode"] == "boundary" else {}))
            keys = ["a" * wp.maxlevel, "d" * wp.maxlevel, "ad"[: wp.maxlevel]]
            return {f"{wp.maxlevel}:{k}": wp[k] for k in dict.fromkeys(keys)}

        return f

    def custom(self, case, ctx):
        bank, d, lev = custom_bank(case["bank"]), case["d"], case["level"]
        with oracle():
            w = pywt.Wavelet("user", filter_bank=bank)
        ft = [torch.tensor(f, dtype=torch.float64) for f in bank]
        wv = {"object": w, "custom": Bank(w), "tuple": WaveletTensorTuple(*ft), "learnable": ProductFilter(*ft)}[case["rep"]]
        ctx.label("bank=" + case["bank"]["kind"], case["rep"])
        ctx.interesting(lev >= 1)
        G = max(1.0, max(np.sum(np.abs(f)) for f in bank)) ** d
        if case["swt"]:
            n = 2**lev * max(1, case["n"][0] // 2**lev)
            x = build_np(case["data"], [2, n])
            with oracle():
                ref = pywt.swt(x, w, lev, trim_approx=True, norm=False, axis=-1) if lev else [x]
            got = ptwt.swt(torch.from_numpy(x.copy()), wv, level=lev)
            require(len(got) == len(ref), "levels")
            for i, (a, b) in enumerate(zip(got, ref)):
                close(a, b, 1e-10 * G**lev * maxabs(x) + 1e-300, f"swt[{i}]")
            if lev and len(bank[0]) > 2:
                return
            return
        x = build_np(case["data"], [2] + case["n"])
        t = torch.from_numpy(x.copy())
        axes = tuple(range(-d, 0))
        fs = case["fs"] and d > 1
        with oracle():
            ref = pywt.wavedecn(x, w, mode=case["mode"], level=lev, axes=axes)
        fam = ("fs" if fs else "dwt") + str(d)
        c = {"fam": fam, "d": d, "mode": case["mode"], "level": lev}
        out = g.build(c, wv)(t)
        names = {"h": "da", "v": "ad", "d": "dd"}
        tol = 1e-10 * G**max(1, lev) * maxabs(x) + 1e-300
        close(out[0], ref[0], tol, "approximation")
        require(len(out) == len(ref), "number of levels")
        for i, (e, r) in enumerate(zip(out[1:], ref[1:])):
            if d == 1:
                close(e, r["d"], tol, f"detail {i + 1}")
            elif isinstance(e, dict):
                require(sorted(e) == sorted(r), f"subbands {sorted(e)}")
                for k in r:
                    close(e[k], r[k], tol, f"{k}[{i + 1}]")
            else:
                for k, v in zip("hvd", e):
                    close(v, r[names[k]], tol, f"{k}[{i + 1}]")
        # synthesis of the same coefficients, whatever the bank reconstructs
        c["fam"] = ("ifs" if fs else "idwt") + str(d)
        rec = g.build(c, wv)(out)
        with oracle():
            want = pywt.waverecn(ref, w, axes=axes)
        scale = maxabs(want, *[v.detach().numpy() for _, v in g.flat({"fam": fam, "d": d}, out)])
        close(rec, want, 1e-10 * G**max(1, lev) * scale + 1e-300, "synthesis")


# ------------------------------------------------------------------------ C32


class C32(Prop):
    id, quick = "C32", 90
    rule = (
        "random padded, separable, stationary or boundary transform or inverse (filter tuple as wavelet) and cwt: "
        "torch.jit.trace on one input, evaluated on that input and two others of the same shape, compared with the "
        "eager call; non-trivial: at least one level"
    )
    assumptions = ["eager execution is decided by the other properties", "fixed shape and level, as torch.jit.trace requires"]
    FAMS = g.PAD_AN + g.PAD_SYN + g.STAT + g.MAT_AN + g.MAT_SYN + ["cwt"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases(self.FAMS))
            if c["fam"] in g.MAT_AN and draw(st.booleans()):
                # the padding of odd lengths is inside the traced function
                c["n"] = [n + 1 - n % 2 for n in c["n"]]
                c["odd"] = draw(st.sampled_from(gen.MODES))
                if draw(st.booleans()):
                    c["arr"] = {"batch": [], "pos": list(range(c["d"])), "axes": None}
            c["layout"] = "plain"
            c["other"] = draw(gen.data_spec())
            if draw(st.integers(0, 3)) == 0:
                # traced on an input that has nothing but zeros
                c["data"] = {"kind": "zeros", "seed": 0}
            c["filters_traced"] = draw(st.booleans()) and c["fam"] in g.PAD_AN + g.PAD_SYN + g.STAT
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        dt = DT[case["dtype"]]
        w = case["wavelet"] if case["fam"] == "cwt" else WaveletTensorTuple.from_wavelet(wav(case["wavelet"]), dt)
        ts = [t.detach() for t in g.tensors(case)]
        axes = case["arr"]["axes"]
        ctx.interesting(g.nlevels(case) >= 1)
        names = []

        if case["filters_traced"]:
            def fn(*args):
                wv = WaveletTensorTuple(*args[-4:])
                return tuple(t for _, t in g.flat(case, g.build(case, wv, axes)(g.pack(case, list(args[:-4])))))
            extra = list(w)
        else:
            def fn(*args):
                return tuple(t for _, t in g.flat(case, g.build(case, w, axes)(g.pack(case, list(args)))))
            extra = []
        with torch.no_grad():
            traced = torch.jit.trace(fn, tuple([t.clone() for t in ts] + extra), strict=False, check_trace=False)
            inputs = [ts]
            for k in (1, 2):
                c2 = dict(case, data=case["other"])
                inputs.append([t.detach() for t in g.tensors(c2, salt=k)])
            for k, inp in enumerate(inputs):
                want = fn(*inp, *extra)
                have = traced(*inp, *extra)
                require(len(want) == len(have), "number of results")
                for i, (a, b) in enumerate(zip(want, have)):
                    require(a.dtype == b.dtype, f"result {i}: traced {b.dtype}, eager {a.dtype}")
                    r = np64(a)
                    close(b, r, g.tol_of(case, r, *[np64(t) for t in inp]), f"result {i} of the traced function on input {k}")
            if extra:
                # the filters are arguments of the traced function, not constants in it
                other = [-2.0 * f for f in extra]
                for a, b in zip(fn(*ts, *other), traced(*ts, *other)):
                    r = np64(a)
                    close(b, r, g.tol_of(case, r, *[np64(t) for t in ts]) * 2 ** (case["d"] * 5), "traced function with other filters")
                ctx.label("filters_traced")


# ------------------------------------------------------------------------ C33


def dense(m):
    return np64(m)


class C33(Prop):
    id, quick = "C33", 200
    rule = (
        "random boundary transform, packet or matrix constructor with a random (valid or not) value under the "
        "deprecated and the new keyword: DeprecationWarning, same result or same exception; both together: "
        "TypeError, whatever the values; non-trivial: always"
    )
    assumptions = ["the new keyword is decided by C08-C13, C18-C21"]

    def strategy(self):
        @st.composite
        def s(draw):
            fam = draw(st.sampled_from(g.MAT_AN + g.MAT_SYN + ["wp1", "wp2"] + ["a1", "s1", "a2", "s2"]))
            if fam in ("a1", "s1", "a2", "s2"):
                w = draw(st.sampled_from(["haar", "db2", "db3", "sym4"]))
                L = wav(w).dec_len
                c = {"fam": fam, "wavelet": w, "n": [L + 2 * draw(st.integers(0, 3)) for _ in range(2)], "d": int(fam[1])}
                if fam[1] == "2" and L > 4:
                    c["wavelet"], c["n"] = "db2", [4 + 2 * draw(st.integers(0, 2)) for _ in range(2)]
                c["dtype"] = draw(gen.dtypes())
            else:
                c = draw(g.cases([fam]))
                if fam in g.PACK:
                    c["mode"] = "boundary"
                    L = wav(c["wavelet"]).dec_len
                    if not (wav(c["wavelet"]).orthogonal and L <= 8):
                        c["wavelet"], L = "db2", 4
                    c["maxlevel"] = 1
                    c["n"] = [max(n % 24, L) for n in c["n"]]
                c["layout"] = "plain"
            c["value"] = draw(st.sampled_from(["qr", "gramschmidt", "gramschmidt", "bogus", None]))
            c["second"] = draw(st.sampled_from(["qr", "gramschmidt"]))
            return c

        return s()

    def call(self, case, kw):
        fam, w, d = case["fam"], case["wavelet"], case["d"]
        m = ptwt
        if fam in ("a1", "s1", "a2", "s2"):
            dt = DT[case["dtype"]]
            if fam[1] == "1":
                fn = ptwt.matmul_transform.construct_boundary_a if fam == "a1" else ptwt.matmul_transform.construct_boundary_s
                return [("matrix", fn(w, case["n"][0], dtype=dt, **kw))]
            from ptwt import matmul_transform_2 as m2

            fn = m2.construct_boundary_a2 if fam == "a2" else m2.construct_boundary_s2
            return [("matrix", fn(w, case["n"][0], case["n"][1], device="cpu", dtype=dt, **kw))]
        axes = case["arr"]["axes"]
        if fam in g.PACK:
            kw = dict(kw, mode="boundary", maxlevel=case["maxlevel"], **g.axes_kw(case, axes))
            if d == 2 and case["sep"]:
                kw["separable"] = True
            wp = PACKET[d](g.tensors(case)[0], w, **kw)
            return [("d", wp["d"]), ("a", wp["a"])]
        kw = dict(kw, **g.axes_kw(case, axes))
        if d == 2:
            kw["separable"] = case["sep"]
        if fam in g.MAT_AN:
            obj = g.DEC[d](w, case["level"], odd_coeff_padding_mode=case["odd"], **kw)
        else:
            obj = g.REC[d](w, **kw)
        return g.flat(case, obj(g.pack(case, g.tensors(case))))

    def outcome(self, case, kw, again=True):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            # torch and scipy add filters when they load some module for the first time
            before = {**state(), "warning filters": list(warnings.filters)}
            try:
                r = self.call(case, kw)
            except NotImplementedError as e:
                r = NotImplementedError
            except ValueError:
                r = ValueError
            after = {**state(), "warning filters": list(warnings.filters)}
        for k, v in before.items():
            if again and after[k] != v:
                return self.outcome(case, kw, again=False)
            require(after[k] == v, f"the call with {sorted(kw)} changed the {k}")
        return r, [x for x in rec if issubclass(x.category, DeprecationWarning) and "deprecated" in str(x.message)]

    def check(self, case, ctx):
        fam = case["fam"]
        old = "boundary_orthogonalization" if fam in g.PACK else "boundary"
        if fam == "s2" or fam == "a2":
            ctx.label(fam)
        ctx.label(f"value={case['value']}", fam)
        ctx.interesting()
        v = case["value"]
        new_r, new_w = self.outcome(case, {"orthogonalization": v})
        old_r, old_w = self.outcome(case, {old: v})
        mine = [x for x in old_w if f"`{old}`" in str(x.message)]
        require(len(mine) >= 1, f"{fam}: `{old}` gives no DeprecationWarning")
        require("orthogonalization" in str(mine[0].message), "the warning does not name the replacement")
        require(not [x for x in new_w if f"`{old}`" in str(x.message)], f"{fam}: the new keyword gives a DeprecationWarning")
        if isinstance(new_r, type) or isinstance(old_r, type):
            require(new_r is old_r, f"{fam}({v!r}): {new_r if isinstance(new_r, type) else 'accepted'} with the new keyword, {old_r if isinstance(old_r, type) else 'accepted'} with `{old}`")
        else:
            g.same_names(new_r, old_r)
            for (n, a), (_, b) in zip(new_r, old_r):
                require(a.dtype == b.dtype, f"{n}: dtype {b.dtype} with `{old}`")
                close(b, dense(a), 0.0, f"{fam} {n} with `{old}`")
        # the value given under the old name is not remembered
        for n, ((_, a), (_, b)) in enumerate(zip(self.outcome(case, {})[0], self.outcome(case, {"orthogonalization": "qr"})[0])):
            close(a, dense(b), 0.0, f"{fam} result {n} without the argument after a call with `{old}`={v!r}")
        for first, second in ((v, case["second"]), (case["second"], v)):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.call(case, {old: first, "orthogonalization": second})
            except TypeError:
                continue
            raise Violation(f"{fam}: `{old}`={first!r} and orthogonalization={second!r} together were accepted")


PROPS = [C23, C24, C25, C26, C27, C30, C31, C32, C33]
