"""C44: no data of a call outlives its results."""

from __future__ import annotations

import gc
import os
import weakref

import torch
from hypothesis import strategies as st

from . import gen
from . import generic as g
from .cmp import require
from .core import Prop
from .p_generic import is_work
from .p_packets import PACKET

_frozen = None


def collect():
    """Collects garbage; objects from before the first check of this process are left out, that saves time."""
    global _frozen
    if _frozen != os.getpid():
        gc.collect()
        gc.freeze()
        _frozen = os.getpid()
    gc.collect()


def live():
    """Number and size of the tensors that exist."""
    ts = [o for o in gc.get_objects() if issubclass(type(o), torch.Tensor)]
    return len(ts), sum(t.numel() for t in ts if not t.is_sparse)


class C44(Prop):
    id, quick = "C44", 300
    rule = (
        "a transform, inverse, boundary object or packet tree is called several times with other data of the same "
        "size, with or without gradients (also differentiated), and once with arguments that are refused (wrong type, one tensor of another type or size, no axes); when the caller has dropped "
        "arguments and results, none of these tensors exists any more, and the number of tensors that exist does not grow with "
        "the number of calls; a tree that transforms new data drops the nodes of the old; non-trivial: a level on non-zero data"
    )
    assumptions = ["CPython: tensors without references are gone after a garbage collection", "objects keep their matrices, trees their nodes"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases())
            c["layout"] = draw(st.sampled_from(["plain", "plain", "view"]))
            c["grad"] = draw(st.sampled_from([False, False, True]))
            c["calls"] = [draw(gen.data_spec()) for _ in range(draw(st.integers(2, 3)))]
            c["fail"] = draw(st.sampled_from([None, "half", "dtype", "shape", "axis"]))
            c["tree"] = c["fam"] in ("wp1", "wp2") and draw(st.booleans())
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.interesting(g.nlevels(case) >= 1 and is_work(case, g.arrays(case)))
        (self.tree if case["tree"] else self.calls)(case, ctx)

    def arguments(self, case, data, wide=False):
        c = {**case, "data": data, "layout": "plain"}
        if wide and c["arr"]["batch"]:
            c["arr"] = {**c["arr"], "batch": [3 * c["arr"]["batch"][0], *c["arr"]["batch"][1:]]}
        ts = g.tensors(c)
        if case["layout"] == "view":
            ts = [torch.stack([t, t])[0] for t in ts]
        if case["grad"]:
            ts = [t.requires_grad_() if t.is_floating_point() and t.is_leaf else t for t in ts]
        return c, ts

    def refused(self, kind, ts):
        if kind == "half" or (kind == "dtype" and len(ts) == 1):
            return [t.to(torch.float16) for t in ts]
        if kind == "axis":
            return [torch.flatten(t)[0] if t.numel() else t.new_zeros(()) for t in ts]
        last = ts[-1].to(torch.float32 if ts[-1].dtype == torch.float64 else torch.float64)
        if kind == "shape":
            last = torch.cat([ts[-1]] * 2, -1) if ts[-1].dim() else ts[-1].clone()
        return ts[:-1] + [last]

    def calls(self, case, ctx):
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])
        counts = []
        datas = [case["data"]] + case["calls"]
        for i, data in enumerate(datas):
            # what is kept does not depend on the number of signals
            c, ts = self.arguments(case, data, i == len(datas) - 1)
            out = g.flat(c, f(g.pack(c, ts)))
            if case["grad"] and i % 2:
                ctx.label("differentiated")
                total = sum((t.abs() ** 2).sum() for _, t in out)
                if total.requires_grad:
                    total.backward()
                del total
            refs = [("argument", weakref.ref(t)) for t in ts] + [("result " + n, weakref.ref(t)) for n, t in out]
            del ts, out
            if case["fail"]:
                bad = self.refused(case["fail"], g.tensors(c))
                refs += [("refused argument", weakref.ref(t)) for t in bad]
                try:
                    f(g.pack(c, bad))
                except Exception:
                    pass
                del bad
            collect()
            for n, r in refs:
                require(r() is None, f"call {i + 1}: the {n} still exists when the caller has dropped arguments and results")
            del refs
            counts.append(live())
        for k in range(2, len(counts)):
            require(counts[k][0] <= counts[1][0], f"the number of tensors that exist grows with the calls: {[n for n, _ in counts]}")
            require(counts[k][1] <= counts[1][1], f"the size of the tensors that exist grows with the calls: {[n for _, n in counts]}")

    def tree(self, case, ctx):
        d = case["d"]
        kw = dict(g.axes_kw(case, case["arr"]["axes"]), mode=case["mode"])
        if case["mode"] == "boundary":
            kw["orthogonalization"] = case["orth"]
        if d == 2 and case["sep"]:
            kw["separable"] = True
        wp = PACKET[d](None, g.wavelet_of(case), **kw)
        keys = g.leaf_keys(case)
        ctx.label("tree")
        counts, old = [], []
        for i, data in enumerate([case["data"]] + case["calls"]):
            _, (x,) = self.arguments(case, data)
            wp.transform(x, case["maxlevel"])
            wp.initialize(keys)
            wp.reconstruct()
            collect()
            for n, r in old:
                require(r() is None, f"the {n} of the data transformed before still exists")
            old = [("input", weakref.ref(x))] + [(f"node '{k}'", weakref.ref(v)) for k, v in wp.data.items()]
            del x
            counts.append(live())
        for k in range(2, len(counts)):
            require(counts[k][0] <= counts[1][0], f"the number of tensors that exist grows with the calls: {[n for n, _ in counts]}")


PROPS = [C44]
