"""C42, C43: calls that fail half-way, calls that overlap in time."""

from __future__ import annotations

import ast
import copy
import dis
import functools
import os
import sys
import threading
import time

import ptwt
import torch
from hypothesis import strategies as st
from ptwt import WaveletTensorTuple
from torch.overrides import TorchFunctionMode

from . import gen
from . import generic as g
from .cmp import close, require
from .core import Prop, Violation
from .gen import DT, wav
from .p_ambient import variant
from .p_generic import is_work, np64
from .p_packets import PACKET
from .state import state

LIBRARY = os.path.dirname(os.path.abspath(ptwt.__file__)) + os.sep


# ------------------------------------------------------------- injected faults


class Interrupt(BaseException):
    """Like KeyboardInterrupt: may come where CPython looks for signals, at calls and at the end of a loop's body."""


class OutOfMemory(RuntimeError):
    """Like torch.OutOfMemoryError: may come from any torch function."""


class OpFault(TorchFunctionMode):
    """The k-th torch function fails; counts them without k."""

    def __init__(self, k=None):
        super().__init__()
        self.k, self.n, self.hit, self.places = k, 0, False, {}

    def __torch_function__(self, func, types, args=(), kwargs=None):
        # attributes and settings cannot run out of memory
        if not getattr(func, "__name__", "").startswith(("__get__", "__set__", "_set_", "set_", "_is_", "is_")):
            self.n += 1
            if self.k is None:
                self.places.setdefault(getattr(func, "__name__", ""), []).append(self.n - 1)
            if self.n - 1 == self.k:
                self.hit = True
                raise OutOfMemory("injected: out of memory")
        return func(*args, **(kwargs or {}))


@functools.cache
def guarded(path):
    """Lines where Python itself does not keep its promises when interrupted: entering and leaving a context manager or
    an exception handler."""
    lines = set()
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            lines.update(range(node.lineno, node.body[0].lineno))
            lines.add(node.lineno)
        elif isinstance(node, ast.Try):
            lines.add(node.lineno)
            for part in [node.finalbody] + [h.body for h in node.handlers]:
                if part:
                    lines.update(range(part[0].lineno, part[-1].end_lineno + 1))
        elif isinstance(node, ast.FunctionDef) and node.name in ("__enter__", "__exit__"):
            lines.update(range(node.lineno, node.end_lineno + 1))
    return lines


@functools.cache
def interruptible(code):
    """Lines of a function at which CPython looks for signals: it does when a call returns and when a loop goes on, but not
    between, say, two assignments of values that are there."""
    lines, line = {code.co_firstlineno}, None
    for op in dis.get_instructions(code):
        if op.starts_line is not None:
            line = op.starts_line
        if op.opname.startswith(("CALL", "JUMP_BACKWARD")) and "INTRINSIC" not in op.opname:
            lines.add(line)
    return lines


class LineFault:
    """An interrupt before the k-th line of the library that calls something; counts them without k."""

    def __init__(self, k=None):
        self.k, self.n, self.hit, self.places = k, 0, False, {}

    def local(self, frame, event, arg):
        line, code = frame.f_lineno, frame.f_code
        if event == "line" and line in interruptible(code) and line not in guarded(code.co_filename):
            self.n += 1
            if self.k is None:
                self.places.setdefault((code, line), []).append(self.n - 1)
            if self.n - 1 == self.k:
                self.hit = True
                raise Interrupt("injected")
        return self.local

    def call(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(LIBRARY) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)


class OuterFault(LineFault):
    """An interrupt before the k-th line of the functions and methods that the caller calls."""

    def call(self, frame, event, arg):
        code = frame.f_code.co_filename
        if code.startswith(LIBRARY):
            return self.local if not frame.f_back.f_code.co_filename.startswith(LIBRARY) else None


FAULTS = {"op": OpFault, "line": LineFault, "outer": OuterFault}


def snapshot(obj):
    """The values in an argument."""
    if isinstance(obj, torch.Tensor):
        return obj.detach().clone()
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [snapshot(v) for v in obj]
    return obj


def same_values(a, b):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and bool(torch.equal(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_values(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_values, a, b))
    return a is b or a == b


class C42(Prop):
    id, quick = "C42", 400
    rule = (
        "a call (function, boundary object with earlier calls of other sizes, packet tree) is made to fail at a random torch "
        "function (out of memory) or a random line of the library that calls something (interrupt); afterwards arguments and global settings are "
        "as before, and the same call, and further ones of the same object, give the result of an undisturbed run; "
        "non-trivial: the fault happened inside a call of at least one level on non-zero data"
    )
    assumptions = [
        "after an interrupted call of a packet tree the call is repeated or a new input is transformed",
        "the library may survive a failing torch function if its result is right",
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            kind = draw(st.sampled_from(["function", "cwt", "matrix", "matrix", "packet", "packet"]))
            fams = {"function": g.PAD_AN + g.PAD_SYN + g.STAT, "cwt": ["cwt"], "matrix": g.MAT_AN + g.MAT_SYN, "packet": ["wp1", "wp2"]}
            c = draw(g.cases(fams[kind]))
            c["kind"] = kind
            c["fault"] = draw(st.sampled_from(sorted(FAULTS)))
            c["at"] = draw(st.integers(0, 9999))
            c["again"] = draw(st.lists(st.integers(0, 9999), max_size=5))
            if c["layout"] == "grad":
                c["layout"] = "plain"
            if kind == "matrix":
                # earlier and later calls of the same object: other sizes, levels (synthesis) and precisions
                c["calls"] = [
                    {"n": [2 * draw(st.integers((k + 1) // 2, (k + 1) // 2 + 3)) for k in c["n"]], "dtype": draw(gen.dtypes())}
                    for _ in range(draw(st.integers(0, 2)))
                ]
                c["after"] = draw(st.integers(0, 2))
            if kind == "packet":
                c["reads"] = draw(st.lists(st.integers(0, 999), max_size=3))
                c["op"] = draw(st.sampled_from(["read", "read", "reconstruct", "transform", "initialize"]))
                c["key"] = draw(st.integers(0, 999))
            return c

        return s()

    def check(self, case, ctx):
        g.label(case, ctx)
        ctx.label(case["kind"], "fault=" + case["fault"])
        getattr(self, case["kind"])(case, ctx)
        if case["kind"] in ("function", "cwt"):
            for at in case.get("again", []):
                self.function({**case, "at": at}, ctx)

    def disturbed(self, case, count, call, args, ctx):
        """Run ``count`` undisturbed, then ``call`` with a fault; its result if it survived."""
        fault = FAULTS[case["fault"]]
        with fault() as f:
            count()
        if not f.n:
            return None
        at = case["at"]
        if at % 2:
            # any place in the code, then any of the times it is reached
            times = list(f.places.values())[at // 2 % len(f.places)]
            k = times[at // 2 // len(f.places) % len(times)]
        else:
            k = at * f.n // 10000
        old, env = snapshot(args), state()
        result = None
        try:
            with fault(k) as f:
                result = call()
        except (Interrupt, OutOfMemory):
            ctx.label("failed")
        except Exception as e:
            if not f.hit:
                raise
            ctx.label("failed as " + type(e).__name__)
        require(same_values(old, args), "a call that failed half-way changed its arguments")
        for key, v in state().items():
            require(env[key] == v, f"a call that failed half-way changed the {key}")
        if f.hit and g.nlevels(case) >= 1 and is_work(case, g.arrays(case)):
            ctx.interesting()
        return result

    def same(self, case, ref, got, what):
        g.same_names(ref, got)
        for (n, r), (_, t) in zip(ref, got):
            r = r.detach()
            close(t.detach(), r.numpy() if r.is_complex() else np64(r), 1e-3 * g.tol_of(case, r.numpy()), f"{n} {what}", t.dtype)
            require(t.dtype == r.dtype, f"{n} {what} has type {t.dtype}")

    def function(self, case, ctx):
        f = g.build(case, g.wavelet_of(case), case["arr"]["axes"])
        args = g.pack(case, g.tensors(case))
        ref = g.flat(case, f(args))
        got = self.disturbed(case, lambda: f(args), lambda: f(args), args, ctx)
        if got is not None:
            self.same(case, ref, g.flat(case, got), "of the call that survived a fault")
        self.same(case, ref, g.flat(case, f(args)), "after a call that failed half-way")

    cwt = function

    def matrix(self, case, ctx):
        def make():
            return g.build(case, g.wavelet_of(case), case["arr"]["axes"])

        subs = [{**case, **c} for c in case["calls"]]
        f = make()
        for c in subs:
            f(g.pack(c, g.tensors(c)))
        other = make()
        for c in subs:
            other(g.pack(c, g.tensors(c)))
        args = g.pack(case, g.tensors(case))
        got = self.disturbed(case, lambda: other(args), lambda: f(args), args, ctx)
        ref = g.flat(case, make()(args))
        if got is not None:
            self.same(case, ref, g.flat(case, got), "of the call that survived a fault")
        later = [case] + subs[::-1]
        later = later[case["after"] % len(later) :] + [case]
        for c in later:
            args = g.pack(c, g.tensors(c))
            ref = g.flat(c, make()(args))
            self.same(c, ref, g.flat(c, f(args)), "after a call that failed half-way")

    def packet(self, case, ctx):
        d = case["d"]
        x, y = g.tensors(case)[0], g.tensors(case, salt=1)[0]
        keys = [k for lv in range(1, case["maxlevel"] + 1) for k in g.leaf_keys({"d": d, "maxlevel": lv})]
        if not keys:
            return
        key = keys[case["key"] % len(keys)]
        kw = dict(g.axes_kw(case, case["arr"]["axes"]), mode=case["mode"])
        if case["mode"] == "boundary":
            kw["orthogonalization"] = case["orth"]
        if d == 2 and case["sep"]:
            kw["separable"] = True

        def tree():
            t = PACKET[d](x, g.wavelet_of(case), maxlevel=case["maxlevel"], **kw)
            for r in case["reads"]:
                t[keys[r % len(keys)]]
            if case["op"] == "reconstruct":
                t.initialize(g.leaf_keys(case))
            return t

        def op(t):
            if case["op"] == "read":
                t[key]
            elif case["op"] == "initialize":
                t.initialize([key] + keys[::-1])
            elif case["op"] == "transform":
                t.transform(y, case["maxlevel"])
            else:
                t.reconstruct()

        ctx.label("op=" + case["op"])
        ref, wp, other = tree(), tree(), tree()
        op(ref)
        self.disturbed(case, lambda: op(other), lambda: op(wp), [x, y], ctx)
        if case["op"] in ("read", "initialize"):
            # whatever is there already is right
            full = tree()
            full.initialize(keys)
            present = [k for k in wp.data if k]
            self.same(case, [(k, full[k]) for k in present], [(k, wp[k]) for k in present], "after a read that failed half-way")
        require(wp.maxlevel == ref.maxlevel, f"an operation that failed half-way left maxlevel {wp.maxlevel} for {ref.maxlevel}")
        if case["op"] == "reconstruct" and case["key"] % 2:
            # the same with other leaves
            for t in (ref, wp):
                for i, k in enumerate(g.leaf_keys(case)):
                    t[k] = (1 + i % 3) * t[k]
            op(ref)
        op(wp)
        self.same(case, [(k, ref[k]) for k in [""] + keys], [(k, wp[k]) for k in [""] + keys], "when repeating an operation that failed half-way")


# ------------------------------------------------------- generated schedules


class Schedule:
    """Runs tasks in threads of which one at a time is active; they change where a schedule says.

    ``slices`` are numbers of library lines: the active thread runs for that many lines, then the next one.  A thread
    that makes no progress (it waits for another one) does not stop the others.
    """

    STUCK = 0.5

    def __init__(self, tasks, slices):
        self.slices, self.pos, self.left = slices, 0, slices[0] if slices else 10**9
        self.alive = list(range(len(tasks)))
        self.active, self.switches, self.steps = 0, 0, 0
        self.cond = threading.Condition()
        self.out = [None] * len(tasks)
        self.threads = [threading.Thread(target=self.work, args=(i, t), daemon=True) for i, t in enumerate(tasks)]

    def turn(self, i):
        """Wait until it is the turn of thread i."""
        seen, since = self.steps, time.monotonic()
        while self.active != i and i in self.alive:
            self.cond.wait(0.05)
            if self.steps != seen:
                seen, since = self.steps, time.monotonic()
            elif time.monotonic() - since > self.STUCK:
                self.active = i

    def next(self):
        if self.alive:
            later = [j for j in self.alive if j > self.active]
            self.active = later[0] if later else self.alive[0]
            self.pos += 1
            self.left = self.slices[self.pos % len(self.slices)] if self.slices else 10**9
            self.cond.notify_all()

    def step(self, i):
        with self.cond:
            self.steps += 1
            self.turn(i)
            self.left -= 1
            if self.left <= 0:
                if len(self.alive) > 1:
                    self.switches += 1
                self.next()
                self.turn(i)

    def work(self, i, task):
        def local(frame, event, arg):
            if event == "line":
                self.step(i)
            return local

        def call(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(LIBRARY) else None

        with self.cond:
            self.turn(i)
        sys.settrace(call)
        try:
            self.out[i] = ("ok", task())
        except BaseException as e:
            self.out[i] = ("error", e)
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.remove(i)
                if self.active == i:
                    self.next()

    def run(self):
        for t in self.threads:
            t.start()
        for t in self.threads:
            t.join()
        return self.out


class C43(Prop):
    id, quick = "C43", 200
    rule = (
        "two or three calls (functions, or own boundary objects and packet trees; same or neighbouring arguments and other "
        "data; wavelet objects shared) overlap in threads that change at generated lines of the library: every result equals "
        "that of the call alone; non-trivial: the threads changed at least twice and each call computes a level on non-zero data"
    )
    assumptions = ["threads change between lines of the library only", "one object or tree is used by one thread at a time"]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(g.cases())
            if c["layout"] == "grad":
                c["layout"] = "plain"
            tasks = [c]
            for _ in range(draw(st.integers(1, 2))):
                t = copy.deepcopy(draw(variant(c)) if draw(st.booleans()) else c)
                t["data"] = draw(gen.data_spec())
                tasks.append(t)
            share = c["fam"] in g.PAD_AN + g.PAD_SYN + g.STAT
            return {
                "tasks": tasks,
                "share": draw(st.sampled_from(["name", "object", "tuple"])) if share else "name",
                "slices": draw(st.lists(st.one_of(st.integers(1, 4), st.integers(1, 40)), min_size=1, max_size=12)),
            }

        return s()

    def check(self, case, ctx):
        tasks = case["tasks"]
        g.label(tasks[0], ctx)
        ctx.label("wavelet=" + case["share"])
        shared = {}

        def call(c, ts):
            w = None
            if case["share"] != "name":
                key = (c["wavelet"], c["dtype"])
                if key not in shared:
                    o = wav(c["wavelet"])
                    shared[key] = o if case["share"] == "object" else WaveletTensorTuple.from_wavelet(o, DT[c["dtype"]])
                w = shared[key]
            f = g.build(c, g.wavelet_of(c) if w is None else w, c["arr"]["axes"])
            return g.flat(c, f(g.pack(c, ts)))

        alone = [call(c, g.tensors(c)) for c in tasks]
        inputs = [g.tensors(c) for c in tasks]
        s = Schedule([lambda c=c, ts=ts: call(c, ts) for c, ts in zip(tasks, inputs)], case["slices"])
        env = state()
        out = s.run()
        for key, v in state().items():
            require(env[key] == v, f"overlapping calls changed the {key}")
        ctx.label("switches>=10" if s.switches >= 10 else "switches<10")
        ctx.interesting(s.switches >= 2 and all(g.nlevels(c) >= 1 and is_work(c, g.arrays(c)) for c in tasks))
        for c, ref, (kind, got) in zip(tasks, alone, out):
            if kind == "error":
                raise Violation(f"a call that overlaps with others fails: {type(got).__name__}: {got}") from got
            g.same_names(ref, got)
            for (n, r), (_, t) in zip(ref, got):
                r, t = r.detach(), t.detach()
                require(t.dtype == r.dtype, f"{n} of overlapping calls has type {t.dtype}")
                close(t, r.numpy() if r.is_complex() else np64(r), 1e-3 * g.tol_of(c, r.numpy()), f"{n} of overlapping calls", t.dtype)


PROPS = [C42, C43]
