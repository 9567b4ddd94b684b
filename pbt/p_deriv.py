"""C40: derivatives of derivatives and forward-mode derivatives."""

from __future__ import annotations

import torch
from hypothesis import strategies as st
from ptwt import WaveletTensorTuple
from ptwt.wavelets_learnable import ProductFilter

from . import generic as g
from .cmp import close, maxabs, require
from .core import Prop
from .gen import wav
from .p_generic import inner, noise_like, run


class C40(Prop):
    id, quick = "C40", 1000
    rule = (
        "random transform or inverse T: the gradient of <T'T x, u> equals T'T u (computed with first-order gradients); the "
        "gradient of <T(f)'y, u> with respect to the filters f equals that of <y, T(f) u>; the forward-mode derivative of the "
        "padded, stationary and continuous transforms along v is T v; non-trivial: at least one level on non-zero data"
    )
    assumptions = ["torch autograd of elementary operations", "first derivatives are decided by C27", "relative accuracy 1e-8"]
    FILTER_FAMS = g.PAD_AN + g.PAD_SYN + g.STAT

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["penalty", "penalty", "filters", "forward"]))
            c = draw(g.cases(g.ALL if kind == "penalty" else self.FILTER_FAMS + ["cwt"] if kind == "forward" else self.FILTER_FAMS))
            c["dtype"], c["layout"], c["kind"] = "f64", "plain", kind
            c["rep"] = draw(st.sampled_from(["tuple", "learnable"]))
            c["data"]["kind"] = draw(st.sampled_from(["normal", "ints", "impulse", "ramp" if kind == "penalty" else "normal"]))
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.label(case["kind"])
        xs = [t.detach().clone() for t in g.tensors(case)]
        us = [t.detach().clone() for t in g.tensors(dict(case, data={"kind": "normal", "seed": case["data"]["seed"]}), salt=3)]
        ctx.interesting(g.nlevels(case) >= 1 and maxabs(*[x.numpy() for x in xs]) > 0)
        getattr(self, case["kind"])(case, xs, us)

    def agree(self, case, got, want, scale, what):
        for i, (a, b) in enumerate(zip(got, want)):
            b = torch.zeros_like(a) if b is None else b
            close(a, b.detach().numpy(), 1e-8 * g.growth(case) ** max(1, g.nlevels(case)) * scale + 1e-300, f"{what} {i}")

    def penalty(self, case, xs, us):
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])

        def energy_gradient(ts, graph):
            outs = g.flat(case, f(g.pack(case, ts)))
            e = sum((torch.abs(o) ** 2 if o.is_complex() else o * o).sum() for _, o in outs) / 2
            return torch.autograd.grad(e, ts, create_graph=graph, allow_unused=True)

        xs = [x.requires_grad_(True) for x in xs]
        # away from the kinks of abs at zero for complex results
        if case["fam"] == "cwt" and case["wavelet"].startswith(("cgau", "cmor", "shan", "fbsp")):
            return self.forward(case, [x.detach() for x in xs], us)
        qs = energy_gradient(xs, True)
        val = sum((q * u).sum() for q, u in zip(qs, us) if q is not None)
        require(val.requires_grad, "the gradient is cut off from the graph")
        got = torch.autograd.grad(val, xs, allow_unused=True)
        us = [u.requires_grad_(True) for u in us]
        want = energy_gradient(us, False)
        got = [torch.zeros_like(x) if a is None else a for a, x in zip(got, xs)]
        scale = maxabs(*[w.numpy() for w in want if w is not None], *[u.detach().numpy() for u in us])
        self.agree(case, got, want, scale, "second derivative of the energy, input")

    def filters(self, case, xs, us):
        if g.nlevels(case) == 0:
            return
        w0 = [torch.tensor(v, dtype=torch.float64) for v in wav(case["wavelet"]).filter_bank]
        if case["rep"] == "learnable":
            wv = ProductFilter(*w0)
            filt = list(wv.filter_bank)
        else:
            filt = [v.requires_grad_(True) for v in w0]
            wv = WaveletTensorTuple(*filt)
        xs = [x.requires_grad_(True) for x in xs]
        outs = run(case, xs, wv)
        ys = noise_like(outs, case["data"]["seed"])
        qs = torch.autograd.grad(inner(ys, outs), xs, create_graph=True, allow_unused=True)
        used = filt[:2] if case["fam"] in g.PAD_AN + ["swt"] else filt[2:]
        got = torch.autograd.grad(sum((q * u).sum() for q, u in zip(qs, us) if q is not None), used)
        want = torch.autograd.grad(inner(ys, run(case, us, wv)), used)
        scale = maxabs(*[w.numpy() for w in want]) + maxabs(*[u.numpy() for u in us]) * maxabs(*[y.numpy() for y in ys])
        self.agree(case, got, want, scale, "mixed second derivative, filter")

    def forward(self, case, xs, us):
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])

        def call(*ts):
            return tuple(t for _, t in g.flat(case, f(g.pack(case, list(ts)))))

        _, got = torch.func.jvp(call, tuple(xs), tuple(us))
        want = call(*us)
        require(len(got) == len(want), "number of results")
        self.agree(case, got, want, maxabs(*[w.numpy() for w in want], *[u.numpy() for u in us]), "forward-mode derivative, result")


PROPS = [C40]
