"""C39: boundary matrices are built once and stay sparse."""

from __future__ import annotations

import torch
from hypothesis import strategies as st
from torch.overrides import TorchFunctionMode

from . import gen
from .cmp import require
from .core import Prop
from .gen import DT, wav
from .p_matrix import make_dec, make_rec, matrix_case, orth_wavelet, plan


class Count(TorchFunctionMode):
    """Counts the calls of torch functions."""

    def __init__(self):
        super().__init__()
        self.n, self.factorizations = 0, 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if getattr(func, "__name__", "") in ("linalg_qr", "qr", "linalg_svd", "linalg_inv", "linalg_solve"):
            self.factorizations += 1
        return func(*args, **(kwargs or {}))


class C39(Prop):
    id, quick = "C39", 350
    rule = (
        "boundary objects called two or three times with inputs of one size (other values and batch sizes): later calls "
        "factorise nothing and execute fewer torch functions than the call that built the matrices; 1-D matrices of up to 600 "
        "samples, and the operators made from them: the number of stored entries is linear in the length; "
        "non-trivial: at least one level, or more stored entries would fit than the bound allows"
    )
    assumptions = ["building the matrices needs at least one torch function", "a new object has to build its matrices"]

    def strategy(self):
        @st.composite
        def s(draw):
            if draw(st.integers(0, 2)) == 0:
                w = draw(orth_wavelet(12))
                L = wav(w).dec_len
                return {
                    "kind": "entries", "wavelet": w, "n": 8 * draw(st.integers(L, 75)), "level": draw(st.integers(1, 3)),
                    "orth": "qr" if L > 6 or draw(st.booleans()) else "gramschmidt", "dtype": draw(gen.dtypes()),
                }
            d = draw(st.sampled_from([1, 1, 2, 2, 3]))
            c = draw(matrix_case(d, small=True))
            if d == 2 and not c["sep"]:
                c["n"] = [min(k, 14) for k in c["n"]]
            c["kind"] = "once"
            # batch sizes of the calls, none: without a batch dimension
            c["calls"] = draw(st.lists(st.sampled_from([None, 1, 2, 5]), min_size=2, max_size=3))
            return c

        return s()

    def check(self, case, ctx):
        ctx.label(case["kind"], f"orth={case['orth']}")
        return getattr(self, case["kind"])(case, ctx)

    def once(self, case, ctx):
        d = case["d"]
        case = {**case, "arr": {"batch": [], "pos": list(range(d)), "axes": None}, "layout": "plain"}
        steps, _ = plan(case)
        ctx.interesting(len(steps) >= 1)
        ctx.label(f"d={d}", f"levels={len(steps)}")
        if not steps:
            return
        dec, rec = make_dec(case), make_rec(case)
        first = None
        for i, b in enumerate(case["calls"]):
            x = torch.linspace(-1, 1 + i, (b or 1) * _prod(case["n"]), dtype=DT[case["dtype"]])
            x = x.reshape(([] if b is None else [b]) + case["n"])
            with Count() as cd:
                c = dec(x)
            with Count() as cr:
                rec(c)
            if first is None:
                first = cd, cr
                continue
            for nm, a, z in (("analysis", first[0], cd), ("synthesis", first[1], cr)):
                require(z.factorizations == 0, f"call {i + 1} of the {nm} orthogonalises the boundary filters again")
                require(z.n < a.n, f"call {i + 1} of the {nm} executes {z.n} torch functions, the call that built the matrices {a.n}")

    def entries(self, case, ctx):
        import ptwt
        from ptwt.matmul_transform import construct_boundary_a, construct_boundary_s

        w, n, lev = case["wavelet"], case["n"], case["level"]
        L = wav(w).dec_len
        # the filters, and two corners in which the cut-off filters are mixed
        bound = n * L + 8 * L * L
        ctx.interesting(bound < n * n / 2)
        kw = {"orthogonalization": case["orth"], "dtype": DT[case["dtype"]]}
        for nm, f in (("analysis", construct_boundary_a), ("synthesis", construct_boundary_s)):
            k = f(w, n, **kw).coalesce().values().numel()
            require(k <= bound, f"the {nm} matrix for {n} samples stores {k} entries, expected at most {bound}")
        dec = ptwt.MatrixWavedec(w, lev, orthogonalization=case["orth"])
        rec = ptwt.MatrixWaverec(w, orthogonalization=case["orth"])
        rec(dec(torch.ones(n, dtype=DT[case["dtype"]])))
        # a row of the operator covers (2^level - 1) (L - 1) + 1 samples, more at the boundary
        rows = lev * n * (L * 2**lev) + lev * (8 * L * L * 2**lev)
        ctx.label("operator_bound" if rows < n * n / 2 else "operator_small")
        for nm in ("sparse_fwt_operator", "sparse_ifwt_operator"):
            op = getattr(dec if nm == "sparse_fwt_operator" else rec, nm)
            require(op.is_sparse, f"{nm} is not sparse")
            k = op.coalesce().values().numel()
            require(k <= rows, f"{nm} for {n} samples stores {k} entries, expected at most {rows}")


def _prod(v):
    p = 1
    for k in v:
        p *= k
    return p
