"""C41: everything happens on the device of the data."""

from __future__ import annotations

import torch
from hypothesis import strategies as st
from ptwt import WaveletTensorTuple

from . import gen
from . import generic as g
from .cmp import close, require
from .core import Prop, Violation
from .device import Pretend, WrongDevice, mark, marked
from .gen import DT
from .p_generic import is_work, np64


class C41(Prop):
    id, quick = "C41", 350
    rule = (
        "random transform or inverse, one object called with data on up to three devices in any order; the other "
        "devices are pretended by a torch function mode that marks tensors and refuses mixtures: all results are on the device "
        "of the data and equal those of the CPU; coefficients on two devices are refused; non-trivial: at least one level on "
        "non-zero data"
    )
    assumptions = ["operations that a real device allows are those the pretended device allows", "kernels of real devices are not decided"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases())
            c["order"] = draw(st.lists(st.sampled_from([0, 1, 1, 2]), min_size=1, max_size=3))
            c["order"][-1] = c["order"][-1] if any(c["order"]) else 1
            c["rep"] = draw(st.sampled_from(["name", "object", "tuple"])) if c["fam"] in g.PAD_AN + g.PAD_SYN + g.STAT else "name"
            c["mix"] = draw(st.integers(0, 10**6))
            c["pair"] = draw(st.sampled_from([[1, 0], [0, 1], [2, 1], [1, 2], [0, 2]]))
            if c["layout"] == "grad":
                c["layout"] = "plain"
            return c

        return s()

    def wavelet(self, case):
        w = case["wavelet"]
        if case["rep"] == "tuple":
            return WaveletTensorTuple.from_wavelet(gen.wav(w), DT[case["dtype"]])
        return gen.wavelet_arg(w, True) if case["rep"] == "object" else w

    def check(self, case, ctx):
        g.label(case, ctx)
        axes = case["arr"]["axes"]
        ref = g.flat(case, g.build(case, self.wavelet(case), axes)(g.pack(case, g.tensors(case))))
        ctx.interesting(is_work(case, g.arrays(case)))
        try:
            with Pretend():
                f = g.build(case, self.wavelet(case), axes)
                for second in case["order"]:
                    self.call(case, f, ref, second, ctx)
        except WrongDevice as e:
            raise Violation(f"on a second device: {e}") from e
        if case["fam"] in g.PAD_SYN + ["iswt"] + g.MAT_SYN:
            self.mixed(case, f, ctx)

    def call(self, case, f, ref, second, ctx):
        second = int(second)
        ctx.label("device %d" % second)
        ts = [t.clone() for t in g.tensors(case)] if second else g.tensors(case)
        if second:
            for t in ts:
                mark(t, second)
        got = g.flat(case, f(g.pack(case, ts)))
        where = f"device {second}" if second else "the CPU"
        g.same_names(ref, got)
        for (n, r), (_, t) in zip(ref, got):
            require(marked(t) == second, f"{n} is not on {where}, where the data is")
            plain = t.detach().clone()
            mark(plain, 0)
            close(plain, np64(r) if not r.is_complex() else r.detach().numpy(), g.tol_of(case, np64(r) if not r.is_complex() else r.detach().numpy()), f"{n} on {where}")

    def mixed(self, case, f, ctx):
        ts = [t.clone() for t in g.tensors(case)]
        if len(ts) < 2:
            return
        k = case["mix"] % len(ts)
        ctx.label("two devices")
        with Pretend():
            one, rest = case.get("pair", [1, 0] if case["mix"] % 2 == 0 else [0, 1])
            for i, t in enumerate(ts):
                mark(t, one if i == k else rest)
            try:
                f(g.pack(case, ts))
            except ValueError:
                return
            except WrongDevice as e:
                raise Violation(f"coefficients on two devices reach the computation instead of a ValueError ({e})") from e
        raise Violation("coefficients on two devices are accepted")
