"""C35, C36: independence of ambient state, copies of objects."""

from __future__ import annotations

import contextlib
import copy
import io
import json
import os
import pickle
import random
import struct
import subprocess
import sys
import threading
import warnings

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st

from . import gen, generic as g
from .cmp import as_np, close, maxabs, require
from .core import HarnessError, Prop, Violation, quiet
from .gen import DT, to_tensor, wav
from .p_matrix import C12, C13
from .p_misc import C28, C29
from .p_time import C16
from .p_generic import C33, is_work, np64, run
from .state import settings, state


# ------------------------------------------------------- a pristine process


class Pristine:
    """A process that never called the library: every request is served by a fresh fork of it."""

    def __init__(self):
        self.pid = os.getpid()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        child = os.fork()
        if child == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.out, self.inp = w1, r2

    @staticmethod
    def send(fd, data):
        data = struct.pack("<q", len(data)) + data
        while data:
            data = data[os.write(fd, data) :]

    @staticmethod
    def recv(fd):
        def exactly(n):
            parts = []
            while n:
                b = os.read(fd, min(n, 1 << 20))
                if not b:
                    return None
                parts.append(b)
                n -= len(b)
            return b"".join(parts)

        head = exactly(8)
        return None if head is None else exactly(struct.unpack("<q", head)[0])

    def serve(self, inp, out):
        import signal

        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        while True:
            req = self.recv(inp)
            if req is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    case = json.loads(req)
                    try:
                        res = ("ok", result_arrays(case))
                    except Exception as e:
                        res = ("error", f"{type(e).__name__}: {e}"[:400])
                    self.send(out, pickle.dumps(res))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, case):
        self.send(self.out, json.dumps(case).encode())
        data = self.recv(self.inp)
        if data is None:
            raise HarnessError("the reference process is gone")
        return pickle.loads(data)


_pristine = None
_first = None


def pristine(case):
    global _pristine
    if _pristine is None or _pristine.pid != os.getpid():
        _pristine = Pristine()
    return _pristine(case)


def result_arrays(case):
    with quiet():
        return [(n, t.dtype, np64(t)) for n, t in run(case, g.tensors(case))]


# ------------------------------------------------------------------------ C35


@contextlib.contextmanager
def default_dtype(dt):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


@contextlib.contextmanager
def seeded(k):
    torch.manual_seed(k)
    np.random.seed(k)
    random.seed(k)
    yield


@contextlib.contextmanager
def printed():
    old = np.get_printoptions()
    np.set_printoptions(precision=2)
    torch.set_printoptions(precision=1)
    try:
        yield
    finally:
        np.set_printoptions(**{k: v for k, v in old.items() if k != "override_repr"})
        torch.set_printoptions(profile="default")


AMBIENT = {
    "plain": contextlib.nullcontext,
    "default_f64": lambda: default_dtype(torch.float64),
    "default_f16": lambda: default_dtype(torch.float16),
    "default_bf16": lambda: default_dtype(torch.bfloat16),
    "no_grad": torch.no_grad,
    "inference": torch.inference_mode,
    "seed1": lambda: seeded(1),
    "seed2": lambda: seeded(2),
    "printoptions": printed,
}


@st.composite
def variant(draw, c):
    """A neighbour of a case: same wavelet, other data, dtype, arrangement or configuration."""
    v = dict(c)
    v["data"] = draw(gen.data_spec())
    if draw(st.booleans()) and c["fam"] != "cwt":
        v["dtype"] = "f32" if c["dtype"] == "f64" else "f64"
    if draw(st.booleans()) and c["fam"] != "cwt":
        v["arr"] = draw(gen.arrangement(c["d"], max_batch_dims=min(2, 5 - c["d"])))
    if "orth" in c and draw(st.booleans()) and wav(c["wavelet"]).dec_len <= 8:
        v["orth"] = "gramschmidt" if c["orth"] == "qr" else "qr"
    if "odd" in c and draw(st.booleans()):
        v["odd"] = draw(st.sampled_from(["zero", "constant", "symmetric"]))
    if c.get("mode") in gen.MODES and draw(st.booleans()):
        v["mode"] = draw(st.sampled_from(["zero", "constant", "symmetric"]))
    if c.get("level") and c["fam"] not in g.PAD_SYN + g.STAT and draw(st.booleans()):
        v["level"] = draw(st.integers(1, c["level"]))
    if c["fam"] == "cwt" and draw(st.booleans()):
        v["scales"] = [s + 0.5 for s in c["scales"]]
    return v


WITHIN = {p.id: p() for p in (C12, C13, C16, C28, C29, C33)}
WITHIN_AMBIENT = ["default_f64", "default_f64", "default_f16", "default_bf16", "printoptions"]


class C35(Prop):
    id, quick = "C35", 260
    rule = (
        "random transform, inverse or packet tree; a process that never called the library before gives the "
        "reference; in the checking process the call is repeated after calls with neighbouring arguments, under "
        "another default dtype, gradient mode or random seed, and concurrently in three threads; the matrices, "
        "operators, continuous transforms and filter losses are checked as in C12, C13, C16, C28, C29 there; "
        "non-trivial: at least one level on non-zero data"
    )
    assumptions = [
        "results of the same call in another process may differ by rounding (tolerance of the other properties)",
        "CPU, one intra-op thread",
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            if draw(st.integers(0, 60)) == 0:
                return {"import": draw(st.lists(st.sampled_from(["f64", "seed", "none"]), max_size=1))}
            if draw(st.integers(0, 2)) == 0:
                # the matrices, the loss terms and the operators: their own oracle, under another ambient state
                name = draw(st.sampled_from(["C12", "C13", "C16", "C28", "C29", "C29", "C33"]))
                return {"within": name, "case": draw(WITHIN[name].strategy()), "ambient": draw(st.sampled_from(WITHIN_AMBIENT))}
            c = draw(g.cases())
            c["near"] = [draw(variant(c)) for _ in range(draw(st.integers(0, 2)))]
            c["fail"] = draw(st.booleans())
            if c["fam"] != "cwt" and draw(st.booleans()):
                c["dtype"] = "f32"
            c["ambient"] = draw(st.lists(st.sampled_from(sorted(AMBIENT)), min_size=2, max_size=4, unique=True))
            if c["dtype"] == "f32" and "default_f64" not in c["ambient"]:
                c["ambient"].append("default_f64")
            c["threads"] = draw(st.integers(0, 3)) == 0
            return c

        return s()

    def reference(self, case):
        kind, ref = pristine({k: v for k, v in case.items() if k != "near"})
        if kind != "ok":
            raise Violation(f"the call fails in a fresh process: {ref}")
        return ref

    def same(self, case, got, ref, what):
        require([n for n, _ in got] == [n for n, _, _ in ref], f"{what}: results {[n for n, _ in got]}")
        scale = [a.detach().numpy() for a in self.inputs(case)]
        for (n, t), (_, dt, r) in zip(got, ref):
            close(t, r, g.tol_of(case, r, *scale), f"{n} ({what})", dt)

    def inputs(self, case):
        return g.tensors(case)

    def check(self, case, ctx):
        global _first
        if _first is None or _first[0] != os.getpid():
            _first = os.getpid(), settings()
        self.decide(case, ctx)
        for k, v in settings().items():
            require(v == _first[1][k], f"the {k} is not what it was before the first call in this process")

    def decide(self, case, ctx):
        if "import" in case:
            ctx.label("import")
            ctx.interesting()
            return self.importing()
        if "within" in case:
            ctx.label("within=" + case["within"], "ambient=" + case["ambient"])
            with AMBIENT[case["ambient"]]():
                before = state()
                try:
                    WITHIN[case["within"]].check(case["case"], ctx)
                except Violation as e:
                    raise Violation(f"under {case['ambient']}: {e}") from e
                after = state()
            for k, v in before.items():
                require(after[k] == v, f"the calls changed the {k}")
            return
        g.label(case, ctx)
        ref = self.reference(case)
        ctx.interesting(is_work(case, g.arrays(case)))
        for v in case["near"]:
            kind, vref = pristine(v)
            if kind != "ok":
                continue
            self.same(v, run(v, g.tensors(v)), vref, "neighbouring call")
            ctx.label("neighbour")
        if case["fail"]:
            try:
                run(case, [t.to(torch.float16) for t in g.tensors(case)])
            except Exception:
                ctx.label("after_failure")
        for nm in case["ambient"]:
            ctx.label("ambient=" + nm)
            with AMBIENT[nm]():
                ts = g.tensors(case)
                before = state()
                # torch and scipy add filters when they load some module for the first time
                for again in (True, False):
                    with warnings.catch_warnings():
                        warnings.filterwarnings("ignore", message="checking the warning filters")
                        filters = list(warnings.filters)
                        got = run(case, ts)
                        kept = filters == list(warnings.filters)
                    if kept:
                        break
                require(kept, "the call changed the warning filters")
                after = state()
            for k, v in before.items():
                require(after[k] == v, f"the call changed the {k}")
            self.same(case, got, ref, nm)
        if case["threads"]:
            self.concurrent(case, ref, ctx)

    def importing(self):
        """Importing the library leaves the settings alone, too."""
        code = (
            "import sys; sys.path[:0] = sys.argv[1:]\n"
            "import numpy, torch, pywt, typing_extensions, more_itertools, scipy.fft, scipy.signal\n"
            "from pbt.state import state\n"
            "a = state()\nimport ptwt, ptwt.wavelets_learnable\nb = state()\n"
            "print('CHANGED', [k for k in a if a[k] != b[k]])\n"
        )
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        src = os.path.dirname(os.path.dirname(os.path.abspath(ptwt.__file__)))
        r = subprocess.run(
            [sys.executable, "-B", "-c", code, here, src], capture_output=True, text=True, timeout=300, cwd="/"
        )
        out = [ln for ln in r.stdout.splitlines() if ln.startswith("CHANGED")]
        if not out:
            raise HarnessError("importing in a new process: " + r.stderr[-400:])
        require(out[0] == "CHANGED []", f"importing the library changed: {out[0][8:]}")

    def concurrent(self, case, ref, ctx):
        ctx.label("threads")
        todo = [(case, ref)]
        for v in case["near"]:
            kind, vref = pristine(v)
            if kind == "ok":
                todo.append((v, vref))
        todo = (todo * 3)[: max(3, len(todo))]
        start = threading.Barrier(len(todo))
        out = [None] * len(todo)

        def work(i):
            try:
                ts = g.tensors(todo[i][0])
                start.wait(timeout=60)
                out[i] = ("ok", run(todo[i][0], ts))
            except BaseException as e:
                out[i] = ("error", e)

        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(todo))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for (c, r), (kind, got) in zip(todo, out):
            if kind == "error":
                raise Violation(f"a call in a thread fails: {type(got).__name__}: {got}") from got
            self.same(c, got, r, "in a thread")


# ------------------------------------------------------------------------ C36


def torch_save(obj):
    buf = io.BytesIO()
    torch.save(obj, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


COPIES = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle": lambda o: pickle.loads(pickle.dumps(o)),
    "torch": torch_save,
}


def copy_with(how, obj):
    return obj.copy() if how == "method" else COPIES[how](obj)


class C36(Prop):
    id, quick = "C36", 700
    rule = (
        "boundary-transform objects (fresh or used), packet trees (partially read and edited), filter-bank tuples, "
        "learnable wavelets and coefficient containers are copied (copy, deepcopy, pickle, torch.save; state_dict "
        "for learnable wavelets): the copy gives the results of the original, and using or changing the copy leaves "
        "the original as it was; non-trivial: at least one level on non-zero data, or a learnable wavelet"
    )
    assumptions = ["a shallow copy may share tensors with the original", "tensors to be copied are leaves (deepcopy of torch)"]

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["matrix", "matrix", "packet", "packet", "coeffs", "bank", "bank", "continuous"]))
            if kind == "matrix":
                c = draw(g.cases(fams=g.MAT_AN + g.MAT_SYN))
                c["used"] = draw(st.booleans())
                c["other"] = draw(gen.data_spec())
            elif kind == "packet":
                c = draw(g.cases(fams=["wp1", "wp1", "wp2"]))
                c["reads"] = [draw(st.integers(0, 200)) for _ in range(draw(st.integers(0, 4)))]
                c["edits"] = [[draw(st.integers(0, 200)), draw(gen.data_spec())] for _ in range(draw(st.integers(0, 2)))]
            elif kind == "coeffs":
                c = draw(g.cases(fams=g.PAD_SYN + g.MAT_SYN + ["iswt"]))
            elif kind == "bank":
                c = draw(g.cases(fams=g.PAD_AN + g.PAD_SYN + ["swt", "iswt", "wp1", "wp2"]))
                c["bank"] = draw(st.sampled_from(["tuple", "product", "soft"]))
                if c.get("mode") == "boundary":
                    c["mode"], c["maxlevel"] = "zero", min(1, c["maxlevel"])
            else:
                c = {
                    "family": draw(st.sampled_from(["shan", "cmor"])), "b": draw(st.integers(6, 48)) / 16,
                    "c": draw(st.integers(6, 48)) / 16, "n": draw(st.integers(2, 60)), "data": draw(gen.data_spec()),
                    "scales": [draw(st.integers(2, 60)) / 4 for _ in range(draw(st.integers(1, 3)))],
                    "bound": draw(st.sampled_from([None, None, 6.0, 11.5])),
                }
            c["kind"] = kind
            if "layout" in c and c["layout"] == "grad":
                c["layout"] = "plain"
            hows = sorted(COPIES)
            if kind == "packet":
                hows.append("method")
            if kind in ("bank", "continuous"):
                hows.append("state")
            c["how"] = draw(st.sampled_from(hows))
            c["twice"] = draw(st.integers(0, 3)) == 0
            return c

        return s()

    def duplicate(self, case, obj):
        new = copy_with(case["how"], obj)
        if case["twice"]:
            new = copy_with(case["how"], new)
        require(type(new) is type(obj), f"{case['how']} gives a {type(new).__name__}")
        return new

    def check(self, case, ctx):
        ctx.label("kind=" + case["kind"], "how=" + case["how"])
        if case["kind"] in ("matrix", "coeffs", "bank", "packet"):
            g.label(case, ctx)
            ctx.interesting(is_work(case, g.arrays(case)))
        getattr(self, "check_" + case["kind"])(case, ctx)

    def equal(self, a, b, what):
        require([n for n, _ in a] == [n for n, _ in b], f"{what}: results {[n for n, _ in b]}, expected {[n for n, _ in a]}")
        for (n, t), (_, r) in zip(a, b):
            require(t.dtype == r.dtype and t.shape == r.shape, f"{n} ({what}): {r.dtype} {tuple(r.shape)}")
            require(torch.equal(t.detach(), r.detach()), f"{n} ({what}) differs by {maxabs(np64(t) - np64(r)):.3g}")

    def check_matrix(self, case, ctx):
        ts = g.tensors(case)
        arg = g.pack(case, ts)
        w = g.wavelet_of(case)
        want = g.flat(case, g.build(case, w, case["arr"]["axes"])(arg))
        obj = g.build(case, w, case["arr"]["axes"])
        if case["used"]:
            obj(g.pack(case, [to_tensor(a, case["dtype"]) for a in g.arrays(dict(case, data=case["other"]))]))
        new = self.duplicate(case, obj)
        op = "sparse_fwt_operator" if case["fam"] in g.MAT_AN else "sparse_ifwt_operator"

        def same_operator(when):
            if case["used"] and hasattr(type(obj), op):
                a, b = self.operator(obj, op), self.operator(new, op)
                require(type(a) is type(b) and (not isinstance(a, np.ndarray) or np.array_equal(a, b)), f"{op} of the copy differs {when}")

        same_operator("before its first use")
        self.equal(want, g.flat(case, new(arg)), "by the copy")
        same_operator("after use")
        # the copy may be used for anything else
        other = dict(case, dtype="f32" if case["dtype"] == "f64" else "f64")
        new(g.pack(other, g.tensors(other, layout=False)))
        self.equal(want, g.flat(case, obj(arg)), "by the original")

    def operator(self, obj, op):
        try:
            return getattr(obj, op).to_dense().numpy()
        except (ValueError, NotImplementedError) as e:
            return e

    def check_coeffs(self, case, ctx):
        arg = g.pack(case, g.tensors(case))
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])
        want = g.flat(case, f(arg))
        new = self.duplicate(case, arg)
        self.equal(want, g.flat(case, f(new)), "of the copy")

    def check_packet(self, case, ctx):
        d = case["d"]
        from .p_packets import CHARS, PACKET
        from itertools import product

        kw = {"mode": case["mode"], "maxlevel": case["maxlevel"]}
        if case["arr"]["axes"] is not None:
            kw["axis" if d == 1 else "axes"] = case["arr"]["axes"][0] if d == 1 else tuple(case["arr"]["axes"])
        if case["mode"] == "boundary":
            kw["orthogonalization"] = case["orth"]
        if d == 2 and case["sep"]:
            kw["separable"] = True
        t = g.tensors(case)[0]
        wp = PACKET[d](t, case["wavelet"], **kw)
        names = ["".join(p) for k in range(case["maxlevel"] + 1) for p in product(CHARS[d], repeat=k)]
        for i in case["reads"]:
            wp[names[i % len(names)]]
        for i, spec in case["edits"]:
            k = names[i % len(names)]
            wp[k] = to_tensor(gen.build_np(spec, wp[k].shape), case["dtype"])
        before = [(k, v.clone()) for k, v in sorted(wp.items())]
        new = self.duplicate(case, wp)
        self.equal(before, sorted(new.items()), "nodes of the copy")
        require(new.maxlevel == wp.maxlevel, f"depth {new.maxlevel} of the copy")
        # reading on, in both
        leaves = names[-(len(CHARS[d]) ** case["maxlevel"]) :]
        new.initialize(leaves)
        require(sorted(wp) == [k for k, _ in before], "reading from the copy adds nodes to the original")
        wp2 = copy.copy(wp)
        wp2.initialize(leaves)
        self.equal(sorted(wp2.items()), sorted(new.items()), "nodes of the copy, later")
        wp2.reconstruct()
        new.reconstruct()
        self.equal([("root", wp2[""])], [("root", new[""])], "reconstructed by the copy")
        if case["how"] in ("deepcopy", "pickle", "torch"):
            for v in list(new.values()):
                v.mul_(-2.0).add_(1.0)
            self.equal(before, sorted(wp.items()), "nodes of the original after changing those of the copy")
        new.transform(torch.zeros_like(t), case["maxlevel"])
        new.initialize(leaves)
        self.equal(before, sorted(wp.items()), "nodes of the original")

    def check_bank(self, case, ctx):
        from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet

        w = wav(case["wavelet"])
        kind = case["bank"]
        if kind == "tuple":
            bank = ptwt.WaveletTensorTuple.from_wavelet(w, DT[case["dtype"]])
            if case["how"] == "state":
                return
        else:
            cls = ProductFilter if kind == "product" else SoftOrthogonalWavelet
            bank = cls(*[torch.tensor(f, dtype=DT[case["dtype"]]) for f in w.filter_bank])
            ctx.interesting()
        ctx.label("bank=" + kind)
        want = run(case, g.tensors(case), wavelet=bank)
        if case["how"] == "state":
            new = cls(*[torch.full((w.dec_len,), 0.5, dtype=DT[case["dtype"]]) for _ in range(4)])
            new.load_state_dict(torch_save(bank.state_dict()))
        else:
            new = self.duplicate(case, bank)
        self.equal(want, run(case, g.tensors(case), wavelet=new), "with the copy")
        require((new.dec_len, new.rec_len) == (w.dec_len, w.rec_len) if kind == "tuple" else len(new) == len(bank), "length of the copy")
        if kind != "tuple":
            require(len(list(new.parameters())) == 4, "the copy has other parameters")
            a, b = float(bank.wavelet_loss()), float(new.wavelet_loss())
            require(a == b, f"loss {b} of the copy, {a} of the original")
            if case["how"] != "copy":
                with torch.no_grad():
                    for p in new.parameters():
                        p.mul_(3.0)
                require(float(bank.wavelet_loss()) == a, "changing the copy changes the loss of the original")
        self.equal(want, run(case, g.tensors(case), wavelet=bank), "with the original")

    def check_continuous(self, case, ctx):
        from ptwt.continuous_transform import _ComplexMorletWavelet, _ShannonWavelet

        cls = {"shan": _ShannonWavelet, "cmor": _ComplexMorletWavelet}[case["family"]]
        w = cls(f"{case['family']}1.0-1.0")
        with torch.no_grad():
            w.bandwidth_par.fill_(case["b"] ** 0.5)
            w.center_par.fill_(case["c"] ** 0.5)
        if case["bound"] and case["how"] != "state":
            w.lower_bound, w.upper_bound = -case["bound"], case["bound"] + 1
        x = torch.from_numpy(gen.build_np(case["data"], (case["n"],)))
        ctx.interesting(maxabs(x.numpy()) > 0)

        def f(wavelet):
            c, fr = ptwt.cwt(x, np.array(case["scales"]), wavelet)
            return [("coefficients", c), ("frequencies", torch.as_tensor(np.asarray(fr, dtype=float)))]

        want = f(w)
        if case["how"] == "state":
            # a state_dict holds the learnable parameters only
            new = cls(f"{case['family']}1.5-0.5")
            new.load_state_dict(torch_save(w.state_dict()))
        else:
            new = self.duplicate(case, w)
        self.equal(want, f(new), "with the copy")
        if case["how"] != "copy":
            with torch.no_grad():
                new.bandwidth_par.mul_(1.5)
        self.equal(want, f(w), "with the original")
