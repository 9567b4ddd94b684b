"""C28 (sparse helpers) and C29 (losses of learnable wavelets)."""

from __future__ import annotations

import numpy as np
import ptwt.sparse_math as sm
import torch
from hypothesis import strategies as st
from ptwt.constants import WaveletTensorTuple
from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

from . import gen
from .cmp import close, maxabs, require
from .core import Prop, Violation
from .gen import DT, wav

# ------------------------------------------------------------------------ C28


def dense_of(spec, shape, dtype):
    """Random matrix with many zeros (possibly all, possibly whole rows)."""
    rng = np.random.default_rng(spec["seed"])
    a = rng.integers(-5, 6, shape).astype(np.float64)
    if spec["real"]:
        a = a + rng.standard_normal(shape)
    a = a * (rng.random(shape) < spec["fill"])
    if spec["seed"] % 3 == 0 and len(shape) == 2 and shape[0]:
        a[spec["seed"] % shape[0]] = 0
    return a.astype({"f32": np.float32, "f64": np.float64, "i64": np.int64}[dtype])


def sparse_of(a, style, seed):
    """COO tensor of a dense array: coalesced, with explicit zeros, or with split entries in random order."""
    t = torch.from_numpy(a.copy())
    if style == "coalesced" or a.size == 0:
        return t.to_sparse().coalesce()
    rng = np.random.default_rng(seed)
    if style == "explicit":
        idx = np.array(list(np.ndindex(*a.shape))).T
        return torch.sparse_coo_tensor(torch.from_numpy(idx), t.reshape(-1), size=a.shape).coalesce()
    idx = np.argwhere(a != 0)
    idx = np.concatenate([idx, idx])
    half = (a / 2 if a.dtype.kind == "f" else a // 2).astype(a.dtype)
    val = np.concatenate([half[a != 0], (a - half)[a != 0]])
    perm = rng.permutation(len(idx))
    return torch.sparse_coo_tensor(
        torch.from_numpy(np.ascontiguousarray(idx[perm].T)).long(), torch.from_numpy(val[perm].copy()), size=a.shape
    )


def conv_matrix(f, n, mode, stride=None):
    """Definition: the columns are the convolutions of the unit vectors."""
    L = len(f)
    full = np.stack([np.convolve(e, f) for e in np.eye(n)], 1)
    lo, m = {"full": (0, n + L - 1), "valid": (L - 1, n - L + 1)}.get(mode, ((L - 1) // 2, n))
    out = full[lo : lo + m]
    return out if stride is None else out[1 if mode == "sameshift" else 0 :: stride]


def conv2_matrix(f, n, mode, stride=None):
    """Columns are 2-D convolutions of unit images, images flattened column by column."""
    (h, w), (r, c) = f.shape, n
    cols = []
    if mode == "full":
        lo, m = (0, 0), (r + h - 1, c + w - 1)
    elif mode == "valid":
        lo, m = (h - 1, w - 1), (r - h + 1, c - w + 1)
    else:
        lo, m = ((h - 1) // 2, (w - 1) // 2), (r, c)
    for j in range(c):
        for i in range(r):
            full = np.zeros((r + h - 1, c + w - 1))
            full[i : i + h, j : j + w] = f
            out = full[lo[0] : lo[0] + m[0], lo[1] : lo[1] + m[1]]
            if stride is not None:
                s = 1 if mode == "sameshift" else 0
                out = out[s::stride, s::stride]
            cols.append(out.T.reshape(-1))
    return np.stack(cols, 1)


class C28(Prop):
    id, quick = "C28", 6000
    rule = (
        "random shapes (square or not, single rows and columns), fill (empty to full), COO style (coalesced, explicit "
        "zeros, split entries), offsets beyond the matrix, filters of any parity shorter or longer than the signal, "
        "modes, strides 1-4, dtypes; against dense numpy definitions; few entries in matrices of up to 2^31 rows and columns; non-trivial: non-zero data"
    )
    assumptions = ["numpy", "valid mode: filters at most as long as the signal"]
    MODES = ["full", "valid", "same", "sameshift"]

    def strategy(self):
        @st.composite
        def s(draw):
            k = draw(st.sampled_from(["kron", "kron", "cat", "diag", "replace", "conv", "conv2", "sconv", "sconv2", "bmm", "bad", "big"]))
            c = {"kind": k, "dtype": draw(gen.dtypes()), "seed": draw(st.integers(0, 2**32 - 1))}

            def mat():
                return {
                    "seed": draw(st.integers(0, 2**32 - 1)), "real": draw(st.booleans()),
                    "fill": draw(st.sampled_from([0.0, 0.3, 0.3, 0.7, 1.0])),
                    "style": draw(st.sampled_from(["coalesced", "explicit", "split"])),
                }

            def dim(hi=6):
                return draw(st.integers(1, hi))

            if k == "kron":
                c.update(a=mat(), b=mat(), sa=[dim(), dim()], sb=[dim(), dim()])
                if draw(st.integers(0, 4)) == 0:
                    c["dtype"], c["a"]["real"], c["b"]["real"] = "i64", False, False
            elif k == "cat":
                n = dim(8)
                c.update(a=mat(), n=n, new=n + draw(st.integers(0, 6)))
            elif k == "diag":
                c.update(len=draw(st.integers(1, 9)), off=draw(st.integers(-10, 10)), rows=dim(8), cols=dim(8))
            elif k == "replace":
                r, q = dim(8), dim(8)
                c.update(a=mat(), b=mat(), rows=r, cols=q, row=draw(st.integers(-r, r - 1)))
            elif k in ("conv", "sconv"):
                mode = draw(st.sampled_from(self.MODES))
                L, n = dim(9), draw(st.integers(1, 20))
                c.update(mode=mode, L=L, n=max(n, L) if mode == "valid" else n, stride=draw(st.sampled_from([2, 2, 1, 3, 4])))
            elif k in ("conv2", "sconv2"):
                mode = draw(st.sampled_from(self.MODES))
                f = [dim(4), dim(4)]
                n = [dim(7), dim(7)]
                if mode == "valid":
                    n = [max(a, b) for a, b in zip(n, f)]
                c.update(mode=mode, f=f, n=n, stride=draw(st.sampled_from([2, 2, 1, 3])), sparse=draw(st.booleans()))
            elif k == "big":
                # few entries in matrices so large that indices need all their bits
                size = st.sampled_from([2**12, 2**24, 2**24 + 1, 2**25 + 3, 2**30 + 1, 2**31 + 7])
                c.update(
                    what=draw(st.sampled_from(["kron", "kron", "cat", "cat", "diag"])), n=[draw(size) for _ in range(4)],
                    nnz=[draw(st.integers(1, 4)), draw(st.integers(1, 4))], more=draw(st.integers(1, 5)),
                )
            elif k == "bmm":
                c.update(a=mat(), m=dim(), n=dim(), b=dim(5), k=dim(5), is_sparse=draw(st.booleans()), flip=draw(st.booleans()))
            else:
                c.update(
                    what=draw(st.sampled_from(["conv", "conv2", "sconv", "sconv2", "cat_square", "cat_short", "cat_dense", "cat_3d", "row", "bmm"])),
                    mode=draw(st.sampled_from(["bogus", "Full", "", "reflect", "VALID"])), n=draw(st.integers(2, 6)), m=draw(st.integers(1, 4)),
                )
            return c

        return s()

    def out(self, t, want, case, what, exact):
        require(isinstance(t, torch.Tensor), f"{what}: not a tensor")
        dt = torch.int64 if case["dtype"] == "i64" else DT[case["dtype"]]
        tol = 0.0 if exact else (1e-12 if case["dtype"] == "f64" else 1e-4) * maxabs(want) * max(1, want.shape[0])
        close(t, want.astype(np.float64), tol, what, dt)

    def check(self, case, ctx):
        k = case["kind"]
        ctx.label(k, "dtype=" + case["dtype"])
        getattr(self, "do_" + k)(case, ctx)

    def do_kron(self, c, ctx):
        a, b = dense_of(c["a"], c["sa"], c["dtype"]), dense_of(c["b"], c["sb"], c["dtype"])
        ctx.interesting(a.any() and b.any())
        ctx.label("zero_factor" if not (a.any() and b.any()) else "nonzero")
        sa, sb = sparse_of(a, c["a"]["style"], c["seed"]), sparse_of(b, c["b"]["style"], c["seed"] + 1)
        r = sm.sparse_kron(sa, sb)
        require(r.is_sparse, "sparse_kron: not sparse")
        self.out(r, np.kron(a, b), c, "sparse_kron", False)
        # usable in sums with other matrices of the same dtype
        self.out(r + r, 2 * np.kron(a, b), c, "sparse_kron + sparse_kron", False)
        close(sa, a.astype(np.float64), 1e-6 * maxabs(a), "first factor afterwards")

    def do_cat(self, c, ctx):
        a = dense_of(c["a"], (c["n"], c["n"]), c["dtype"])
        want = np.eye(c["new"])
        want[: c["n"], : c["n"]] = a
        ctx.interesting(c["new"] > c["n"])
        self.out(sm.cat_sparse_identity_matrix(sparse_of(a, c["a"]["style"], c["seed"]), c["new"]), want, c, "cat_sparse_identity_matrix", False)

    def do_big(self, c, ctx):
        rng = np.random.default_rng(c["seed"])
        dt = DT[c["dtype"]]

        def entries(shape, k):
            out = {}
            for _ in range(k):
                # preferably in the last rows and columns
                ij = tuple(int(n - 1 - rng.integers(min(n, 5))) if rng.random() < 0.7 else int(rng.integers(n)) for n in shape)
                out[ij] = float(rng.integers(1, 9))
            return out

        def coo(e, shape):
            i = torch.tensor(sorted(e), dtype=torch.int64).T.reshape(2, -1)
            return torch.sparse_coo_tensor(i, torch.tensor([e[k] for k in sorted(e)], dtype=dt), size=shape)

        ctx.interesting(max(c["n"]) > 2**20)
        ctx.label("big=" + c["what"])
        n = c["n"]
        if c["what"] == "kron":
            n = [min(k, 2**15 - 5 + k % 7) for k in n]  # torch counts the elements of the product
            a, b = entries(n[:2], c["nnz"][0]), entries(n[2:], c["nnz"][1])
            r, shape = sm.sparse_kron(coo(a, n[:2]), coo(b, n[2:])), (n[0] * n[2], n[1] * n[3])
            want = {(i * n[2] + k, j * n[3] + m): x * y for (i, j), x in a.items() for (k, m), y in b.items()}
        elif c["what"] == "cat":
            a = entries([n[0], n[0]], c["nnz"][0])
            new = n[0] + c["more"]
            r, shape = sm.cat_sparse_identity_matrix(coo(a, [n[0], n[0]]), new), (new, new)
            want = {**a, **{(i, i): 1.0 for i in range(n[0], new)}}
        else:
            v = rng.integers(1, 9, c["nnz"][0]).astype(float)
            off = int((n[1] - 2) * (1 if c["seed"] % 2 else 0) - (n[0] - 2) * (0 if c["seed"] % 2 else 1))
            r, shape = sm.sparse_diag(torch.tensor(v, dtype=dt), off, n[0], n[1]), (n[0], n[1])
            want = {(i + max(0, -off), i + max(0, off)): x for i, x in enumerate(v) if i + max(0, -off) < n[0] and i + max(0, off) < n[1]}
        r = r.coalesce()
        require(tuple(r.shape) == tuple(shape), f"{c['what']}: shape {tuple(r.shape)}, expected {tuple(shape)}")
        require(r.dtype == dt, f"{c['what']}: {r.dtype}")
        got = {(int(i), int(j)): float(v) for (i, j), v in zip(r.indices().T.tolist(), r.values().tolist()) if v != 0}
        require(got == want, f"{c['what']}: entries {got}, expected {want}")

    def do_diag(self, c, ctx):
        v = np.random.default_rng(c["seed"]).standard_normal(c["len"])
        v[c["seed"] % c["len"]] = 0.0 if c["seed"] % 2 else 1.5
        t = torch.from_numpy(v).to(DT[c["dtype"]])
        want = np.zeros((c["rows"], c["cols"]))
        for i in range(c["len"]):
            r, q = i + max(0, -c["off"]), i + max(0, c["off"])
            if r < c["rows"] and q < c["cols"]:
                want[r, q] = float(t[i])
        ctx.interesting(bool(want.any()))
        self.out(sm.sparse_diag(t, c["off"], c["rows"], c["cols"]), want, c, "sparse_diag", True)

    def do_replace(self, c, ctx):
        a = dense_of(c["a"], (c["rows"], c["cols"]), c["dtype"])
        b = dense_of(c["b"], (1, c["cols"]), c["dtype"])
        want = a.copy()
        want[c["row"]] = b[0]
        ctx.interesting(bool(a.any()) or bool(b.any()))
        ctx.label("square" if c["rows"] == c["cols"] else "wide" if c["rows"] < c["cols"] else "tall")
        m = sparse_of(a, c["a"]["style"], c["seed"])
        r = sm.sparse_replace_row(m, c["row"], sparse_of(b, c["b"]["style"], c["seed"] + 1))
        self.out(r, want, c, "sparse_replace_row", False)
        close(m, a.astype(np.float64), 1e-6 * maxabs(a), "matrix afterwards")

    def filt(self, c, shape):
        f = np.random.default_rng(c["seed"]).standard_normal(shape)
        if c["seed"] % 4 == 0:
            f[np.random.default_rng(c["seed"] + 1).random(shape) < 0.4] = 0
        return torch.from_numpy(f).to(DT[c["dtype"]])

    def do_conv(self, c, ctx):
        f = self.filt(c, c["L"])
        ctx.interesting(bool((f != 0).any()))
        ctx.label("mode=" + c["mode"])
        self.out(sm.construct_conv_matrix(f, c["n"], mode=c["mode"]), conv_matrix(f.double().numpy(), c["n"], c["mode"]), c, "construct_conv_matrix", True)

    def do_sconv(self, c, ctx):
        f = self.filt(c, c["L"])
        ctx.interesting(bool((f != 0).any()))
        ctx.label("mode=" + c["mode"], f"stride={c['stride']}")
        want = conv_matrix(f.double().numpy(), c["n"], c["mode"], c["stride"])
        self.out(sm.construct_strided_conv_matrix(f, c["n"], c["stride"], mode=c["mode"]), want, c, "construct_strided_conv_matrix", True)
        x = np.random.default_rng(c["seed"] + 2).standard_normal((c["n"], 2))
        y = sm.construct_strided_conv_matrix(f, c["n"], c["stride"], mode=c["mode"]) @ torch.from_numpy(x).to(f.dtype)
        self.out(y, want @ x, c, "its product with a signal", False)

    def do_conv2(self, c, ctx):
        f = self.filt(c, c["f"])
        ctx.interesting(bool((f != 0).any()))
        ctx.label("mode=" + c["mode"])
        m = sm.construct_conv2d_matrix(f, *c["n"], mode=c["mode"], fully_sparse=c["sparse"])
        self.out(m, conv2_matrix(f.double().numpy(), c["n"], c["mode"]), c, "construct_conv2d_matrix", True)

    def do_sconv2(self, c, ctx):
        f = self.filt(c, c["f"])
        ctx.interesting(bool((f != 0).any()))
        ctx.label("mode=" + c["mode"], f"stride={c['stride']}")
        m = sm.construct_strided_conv2d_matrix(f, *c["n"], c["stride"], mode=c["mode"])
        self.out(m, conv2_matrix(f.double().numpy(), c["n"], c["mode"], c["stride"]), c, "construct_strided_conv2d_matrix", True)

    def do_bmm(self, c, ctx):
        a = dense_of(c["a"], (c["m"], c["n"]), c["dtype"])
        x = np.random.default_rng(c["seed"]).standard_normal((c["b"], c["n"], c["k"]))
        ctx.interesting(bool(a.any()))
        t = torch.from_numpy(x).to(DT[c["dtype"]])
        if c["flip"]:
            t = t.transpose(0, 2).contiguous().transpose(0, 2)
        m = sparse_of(a, c["a"]["style"], c["seed"]) if c["is_sparse"] else torch.from_numpy(a)
        self.out(sm.batch_mm(m, t), np.einsum("mn,bnk->bmk", a.astype(np.float64), x), dict(c, dtype=c["dtype"]), "batch_mm", False)

    def do_bad(self, c, ctx):
        ctx.interesting()
        ctx.label("bad=" + c["what"])
        f1, f2, n, m = torch.ones(2), torch.ones(2, 2), c["n"], c["m"]
        eye = torch.eye(n).to_sparse()
        calls = {
            "conv": lambda: sm.construct_conv_matrix(f1, n, mode=c["mode"]),
            "conv2": lambda: sm.construct_conv2d_matrix(f2, n, n, mode=c["mode"]),
            "sconv": lambda: sm.construct_strided_conv_matrix(f1, n, 2, mode=c["mode"]),
            "sconv2": lambda: sm.construct_strided_conv2d_matrix(f2, n, n, 2, mode=c["mode"]),
            "cat_square": lambda: sm.cat_sparse_identity_matrix(torch.ones(n, n + m).to_sparse(), 20),
            "cat_short": lambda: sm.cat_sparse_identity_matrix(eye, n - 1),
            "cat_3d": lambda: sm.cat_sparse_identity_matrix(torch.ones(n, n, 2).to_sparse(), n + m),
            "cat_dense": lambda: sm.cat_sparse_identity_matrix(torch.eye(n), n + m),
            "row": lambda: sm.sparse_replace_row(eye, 0, torch.ones(1, n + m).to_sparse()),
            "bmm": lambda: sm.batch_mm(torch.ones(3, n), torch.ones(2, n + m, 2)),
        }
        try:
            calls[c["what"]]()
        except ValueError:
            return
        raise Violation(f"{c['what']}: silently accepted")


# ------------------------------------------------------------------------ C29


class C29(Prop):
    id, quick = "C29", 3000
    rule = (
        "filter quadruples of equal length: pywt wavelets, perturbed pywt wavelets and random numbers (odd lengths too); "
        "losses against numpy polynomial products, zero on (bi)orthogonal wavelets, non-negative, gradients against "
        "central differences; non-trivial: every quadruple"
    )
    assumptions = ["numpy.convolve as polynomial product"]

    def strategy(self):
        @st.composite
        def s(draw):
            return {
                "kind": draw(st.sampled_from(["pywt", "perturbed", "random", "random"])),
                "wavelet": draw(gen.wavelets(100)), "half": draw(st.integers(1, 12)), "odd": draw(st.integers(0, 5)) == 0,
                "seed": draw(st.integers(0, 2**32 - 1)), "dtype": draw(gen.dtypes()),
                "cls": draw(st.sampled_from(["product", "orthogonal"])),
                "eps": draw(st.sampled_from([1e-6, 1e-3, 0.1, 1.0])),
            }

        return s()

    def filters(self, c):
        rng = np.random.default_rng(c["seed"])
        if c["kind"] == "random":
            L = 2 * c["half"] + c.get("odd", False)
            return [rng.standard_normal(L) / np.sqrt(L) for _ in range(4)]
        f = [np.array(x) for x in wav(c["wavelet"]).filter_bank]
        if c["kind"] == "perturbed":
            k = c["seed"] % 4
            f[k] = f[k] + c["eps"] * rng.standard_normal(len(f[k]))
        return f

    @staticmethod
    def losses(h0, h1, f0, f1):
        """The named identities, from polynomial products."""
        L = len(h0)
        sign = (-1.0) ** np.arange(L - 1, -1, -1)
        pr = np.convolve(h0, f0) + np.convolve(h1, f1)
        pr[L - 1] -= 2
        ac = np.convolve(sign * h0, f0) + np.convolve(sign * h1, f1)
        auto = np.array([np.dot(h0[2 * k :], h0[: L - 2 * k]) for k in range(L // 2 + 1)])
        auto[0] -= 1
        out = {
            "perfect_reconstruction_loss": np.sum(pr**2),
            "alias_cancellation_loss": np.sum(ac**2),
            "pf_alias_cancellation_loss": np.sum((f0 - sign * h1) ** 2) + np.sum((f1 + sign * h0) ** 2),
            "product_filter_loss": np.sum(pr**2) + np.sum(ac**2),
            "rec_lo_orthogonality_loss": np.sum(auto**2),
            "filt_bank_orthogonality_loss": np.sum((h0 - f0[::-1]) ** 2) + np.sum((h1 - f1[::-1]) ** 2),
        }
        return out

    def check(self, c, ctx):
        ctx.label(c["kind"], c["cls"], "dtype=" + c["dtype"])
        ctx.interesting()
        dt = DT[c["dtype"]]
        f = [x.astype(np.float32).astype(np.float64) if c["dtype"] == "f32" else x for x in self.filters(c)]
        cls = ProductFilter if c["cls"] == "product" else SoftOrthogonalWavelet
        mod = cls(*[torch.tensor(x, dtype=dt) for x in f])
        L = len(f[0])
        require(len(mod) == L, f"len() is {len(mod)}, not {L}")
        bank = mod.filter_bank
        require(isinstance(bank, WaveletTensorTuple), "filter_bank is not a WaveletTensorTuple")
        require(len(list(mod.parameters())) == 4, "four learnable filters expected")
        for x, b, own in zip(f, bank, (mod.dec_lo, mod.dec_hi, mod.rec_lo, mod.rec_hi)):
            require(b is own, "filter_bank does not hold the parameters in order")
            close(b, x, 0.0, "filter", dt)
        want = self.losses(*f)
        names = list(want) if c["cls"] == "orthogonal" else list(want)[:4]
        size = max(1.0, *[float(np.sum(np.abs(x))) for x in f]) ** 4 * L
        tol = (1e-12 if c["dtype"] == "f64" else 1e-4) * size
        w = wav(c["wavelet"])
        got = {}
        for n in names:
            v = getattr(mod, n)()
            v = v[0] if isinstance(v, tuple) else v
            got[n] = v
            require(v.dtype == dt and v.numel() == 1, f"{n}: {v.dtype}, {tuple(v.shape)}")
            val = float(v)
            require(val >= 0, f"{n} is negative: {val}")
            require(abs(val - want[n]) <= tol, f"{n} = {val!r}, polynomial products give {want[n]!r}")
            if c["kind"] == "pywt":
                eps = 1e-3 if c["wavelet"] == "dmey" else max(4 * L * gen.pr_error(c["wavelet"]) ** 2, 1e-14)
                zero = n in ("perfect_reconstruction_loss", "alias_cancellation_loss", "product_filter_loss")
                if w.orthogonal:
                    zero = zero or n in ("rec_lo_orthogonality_loss", "filt_bank_orthogonality_loss")
                if zero:
                    require(val <= eps + tol * (c["dtype"] == "f32"), f"{n} of {c['wavelet']} is {val!r}, not zero")
        total = mod.wavelet_loss()
        parts = ["product_filter_loss"] + (["filt_bank_orthogonality_loss"] if c["cls"] == "orthogonal" else [])
        require(abs(float(total) - sum(want[p] for p in parts)) <= 2 * tol, f"wavelet_loss = {float(total)!r}, its terms are {[want[p] for p in parts]}")
        if c["dtype"] != "f64":
            return
        # gradient of a random combination of the losses
        rng = np.random.default_rng(c["seed"] + 1)
        coef = rng.uniform(0.5, 1.5, len(names) + 1)
        qs = torch.autograd.grad(sum(float(k) * t.sum() for k, t in zip(coef, list(got.values()) + [total])), list(mod.parameters()))
        v = [rng.standard_normal(L) for _ in f]

        def value(h):
            ls = self.losses(*[x + h * d for x, d in zip(f, v)])
            return sum(k * ls[n] for k, n in zip(coef, names)) + coef[-1] * sum(ls[p] for p in parts)

        h = 1e-3
        d1, d2 = (value(h) - value(-h)) / (2 * h), (value(h / 2) - value(-h / 2)) / h
        num = (4 * d2 - d1) / 3
        have = sum(float((q * torch.from_numpy(d)).sum()) for q, d in zip(qs, v))
        scale = abs(num) + sum(float((q.abs() * torch.from_numpy(np.abs(d))).sum()) for q, d in zip(qs, v)) + size * 1e-2
        require(abs(have - num) <= 1e-5 * scale, f"gradient of the losses {have!r}, numerically {num!r}")
