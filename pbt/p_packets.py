"""C18-C22: wavelet packets."""

from __future__ import annotations

import functools
from itertools import product

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st

from . import gen
from .cmp import as_np, close, maxabs, require
from .core import Prop, Violation, oracle
from .gen import DT, MODES, build_np, full_shape, rtol_for, to_tensor, wav
from .p_matrix import orth_wavelet

CHARS = {1: "ad", 2: "ahvd"}
PACKET = {1: ptwt.WaveletPacket, 2: ptwt.WaveletPacket2D}
FLIP = str.maketrans("hv", "vh")


def next_len(n, L, mode):
    """Length of the children of a node."""
    return (n + n % 2) // 2 if mode == "boundary" else (n + L - 1) // 2


def split_ok(n, L, mode, d):
    if mode == "boundary":
        # in one dimension odd inputs are padded before they are compared with the filter
        return (n + n % 2 if d == 1 else n) >= L
    return gen.step_ok(n, L, mode)


def depth_ok(ns, L, mode, cap):
    depth = 0
    ns = list(ns)
    while depth < cap and all(split_ok(n, L, mode, len(ns)) for n in ns):
        ns = [next_len(n, L, mode) for n in ns]
        depth += 1
    return depth


@st.composite
def packet_case(draw, d, custom=False, deep=0):
    mode = draw(st.sampled_from(MODES + ["boundary", "boundary"]))
    sep = draw(st.booleans()) if d == 2 else False
    orth = draw(st.sampled_from(["qr", "qr", "gramschmidt"])) if mode == "boundary" else "qr"
    if mode == "boundary":
        cap = {1: 12, 2: 8 if sep else 4}[d]
        if orth == "gramschmidt":
            cap = min(cap, 6)
        w = draw(orth_wavelet(cap, custom=custom))
    else:
        w = draw(gen.wavelets({1: 40, 2: 16}[d], custom=custom))
    L = wav(w).dec_len
    want = draw(st.sampled_from([1, 2, 2, 3, 3, 4] if d == 1 else [1, 1, 2, 2, 2, 3]))
    top = {1: 120, 2: 40 if (mode != "boundary" or sep) else 16}[d]
    if deep and draw(st.integers(0, 11)) == 11:
        # more levels than usual
        want = draw(st.integers(want, deep))
        top = max(top, 2 ** (want + 1)) if d == 1 or sep or mode != "boundary" else top
    if d == 2 and mode == "boundary" and orth == "gramschmidt" and not sep and w not in ("haar", "db1"):
        want, top = 1, 8  # slow
    ns = []
    for _ in range(d):
        lo = max(2, L)
        if want > (4 if d == 1 else 3) and mode != "boundary":
            lo = min(top, lo * 2 ** draw(st.integers(0, want)))
        if mode == "boundary":
            lo = min(top, lo * 2 ** (want - 1)) - draw(st.integers(0, 1))
        n = draw(st.integers(max(1, lo), max(lo + (2 if top == 8 else 6), min(top, lo + 20))))
        ns.append(n)
    if draw(st.integers(0, 29)) == 29 and (d == 1 or sep or mode != "boundary"):
        ns = [draw(st.integers(60, {1: 600, 2: 90}[d])) for _ in range(d)]
    ok = depth_ok(ns, L, mode, want)
    return {
        "d": d,
        "wavelet": w,
        "wobj": draw(st.booleans()),
        "mode": mode,
        "sep": sep,
        "orth": orth,
        "n": ns,
        "maxlevel": ok,
        "arr": draw(gen.widened(draw(gen.arrangement(d, max_batch_dims=2)), ns, 12000)),
        "omit": draw(st.booleans()),
        "data": draw(gen.data_spec()),
        "dtype": draw(gen.dtypes()),
        "layout": draw(gen.layouts()),
    }


def new_packet(case, data=None, maxlevel="case"):
    d = case["d"]
    kw = {"mode": case["mode"]}
    a = case["arr"]["axes"]
    if a is not None:
        kw["axis" if d == 1 else "axes"] = a[0] if d == 1 else tuple(a)
    if case["mode"] == "boundary":
        kw["orthogonalization"] = case["orth"]
    if d == 2 and case["sep"]:
        kw["separable"] = True
    if case.get("omit"):
        if kw["mode"] == "reflect":
            del kw["mode"]
        if kw.get("orthogonalization") == "qr":
            del kw["orthogonalization"]
    elif d == 2:
        kw["separable"] = case["sep"]
    if maxlevel != "omit":
        kw["maxlevel"] = case["maxlevel"] if maxlevel == "case" else maxlevel
    return PACKET[d](data, gen.wavelet_arg(case["wavelet"], case["wobj"]), **kw)


@functools.lru_cache(256)
def matrix_object(kind, w, pos, orth, sep, dtype, sizes):
    """One-level reference object: sees one size and dtype only, whatever its history."""
    w = wav(w)
    if len(pos) == 1:
        if kind == "dec":
            return ptwt.MatrixWavedec(w, 1, axis=pos[0], orthogonalization=orth)
        return ptwt.MatrixWaverec(w, axis=pos[0], orthogonalization=orth)
    if kind == "dec":
        return ptwt.MatrixWavedec2(w, 1, axes=pos, orthogonalization=orth, separable=sep)
    return ptwt.MatrixWaverec2(w, axes=pos, orthogonalization=orth, separable=sep)


def matrix_ref(kind, case, x):
    pos = tuple(case["arr"]["pos"])
    sizes = tuple(x.shape[p] for p in pos) + (x.ndim,)
    return matrix_object(kind, case["wavelet"], pos, case["orth"], case["sep"], case["dtype"], sizes)


def split_ref(case, x):
    """Children of a node by the reference: {char: array}."""
    d, w, pos = case["d"], wav(case["wavelet"]), tuple(case["arr"]["pos"])
    if case["mode"] != "boundary":
        with oracle():
            if d == 1:
                a, b = pywt.dwt(x, w, mode=case["mode"], axis=pos[0])
                return {"a": a, "d": b}
            a, (h, v, dd) = pywt.dwt2(x, w, mode=case["mode"], axes=pos)
            return {"a": a, "h": h, "v": v, "d": dd}
    t = torch.from_numpy(np.ascontiguousarray(x)).to(DT[case["dtype"]])
    if d == 1:
        c = matrix_ref("dec", case, x)(t)
        require(len(c) == 2, "one level of MatrixWavedec")
        return {"a": as_np(c[0]).astype(float), "d": as_np(c[1]).astype(float)}
    c = matrix_ref("dec", case, x)(t)
    require(len(c) == 2, "one level of MatrixWavedec2")
    vals = (c[0],) + tuple(c[1])
    return {k: as_np(v).astype(float) for k, v in zip("ahvd", vals)}


def join_ref(case, parts):
    """Parent of a complete set of children by the reference."""
    d, w, pos = case["d"], wav(case["wavelet"]), tuple(case["arr"]["pos"])
    if case["mode"] != "boundary":
        with oracle():
            if d == 1:
                return pywt.idwt(parts["a"], parts["d"], w, axis=pos[0])
            return pywt.idwt2((parts["a"], (parts["h"], parts["v"], parts["d"])), w, axes=pos)
    t = {k: torch.from_numpy(np.ascontiguousarray(v)).to(DT[case["dtype"]]) for k, v in parts.items()}
    if d == 1:
        r = matrix_ref("rec", case, parts["a"])([t["a"], t["d"]])
    else:
        r = matrix_ref("rec", case, parts["a"])(
            (t["a"], ptwt.WaveletDetailTuple2d(t["h"], t["v"], t["d"]))
        )
    return as_np(r).astype(float)


class Tree:
    """Lazy reference tree."""

    def __init__(self, case, x):
        self.case, self.nodes = case, {"": x}

    def __getitem__(self, key):
        if key not in self.nodes:
            parent = self[key[:-1]]
            for k, v in split_ref(self.case, parent).items():
                self.nodes[key[:-1] + k] = v
        return self.nodes[key]


def label_packet(case, ctx):
    ctx.label(
        f"mode={case['mode']}", f"depth={case['maxlevel']}", f"dtype={case['dtype']}",
        f"sep={case['sep']}", f"batch_dims={len(case['arr']['batch'])}",
    )
    if any(n % 2 for n in case["n"]):
        ctx.label("odd")


def node_tol(case, *arrays):
    base = 1e-9 if case["mode"] == "boundary" else rtol_for("f64")
    if case["dtype"] == "f32":
        base = 1e-3 if case["mode"] == "boundary" else rtol_for("f32") * 3
    return base * maxabs(*arrays) * gen.gain(case["wavelet"]) ** case["d"] + 1e-300


def shapes_case(draw, case):
    """Another input for the same object: other sizes, batch, dtype."""
    L, mode, d = wav(case["wavelet"]).dec_len, case["mode"], case["d"]
    ns = [max(1, n + draw(st.integers(-3, 4))) for n in case["n"]]
    if draw(st.integers(0, 2)) == 0:
        ns = ns[::-1]
    if draw(st.integers(0, 4)) == 0:
        ns = list(case["n"])
    ml = depth_ok(ns, L, mode, draw(st.integers(1, 3)))
    batch = list(case["arr"]["batch"])
    if batch and draw(st.booleans()):
        batch[0] = draw(st.integers(1, 3))
    return {"n": ns, "maxlevel": ml, "batch": batch, "dtype": draw(gen.dtypes()), "data": draw(gen.data_spec())}


def with_input(case, spec):
    c = dict(case)
    c.update({k: spec[k] for k in ("n", "maxlevel", "dtype", "data")})
    c["arr"] = dict(case["arr"], batch=spec["batch"])
    c["layout"] = "plain"
    return c


@st.composite
def keys(draw, d, maxlevel):
    n = draw(st.integers(0, maxlevel))
    if draw(st.booleans()):
        n = maxlevel
    return "".join(draw(st.sampled_from(CHARS[d])) for _ in range(n))


class NodeValues(Prop):
    d = 1
    rule = (
        "random wavelet, mode (five paddings and boundary), sizes, depth, batch, axes, dtype; a random history "
        "of earlier transforms, reads, partial initialisations and re-reads on one object; every read node is "
        "compared with pywt.dwt/dwt2 applied along its path (boundary: fresh one-level transforms); "
        "non-trivial: a node below the root was compared on non-zero data"
    )
    assumptions = [
        "pywt.dwt / dwt2 along the path equals pywt.WaveletPacket(2D)",
        "boundary mode: fresh one-level Matrix transforms (C08, C09) are the reference",
        "reflect/periodic: node lengths within torch's padding limits",
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            c = draw(packet_case(self.d, custom=True, deep={1: 7, 2: 6}[self.d]))
            c["default_depth"] = draw(st.integers(0, 5)) == 0
            if c["default_depth"]:
                L = wav(c["wavelet"]).dec_len
                ml = min(pywt.dwt_max_level(n, L) for n in c["n"])
                if ml <= depth_ok(c["n"], L, c["mode"], 6):
                    c["maxlevel"] = ml
                else:
                    c["default_depth"] = False
            c["ctor"] = draw(st.booleans())
            c["before"] = [shapes_case(draw, c) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
            c["via_transform"] = bool(c["before"])
            ops = []
            for _ in range(draw(st.integers(1, 8))):
                k = draw(st.integers(0, 5))
                if k == 0:
                    ops.append(["init", [draw(keys(self.d, c["maxlevel"])) for _ in range(draw(st.integers(1, 4)))]])
                elif k == 1:
                    ops.append(["level", draw(st.integers(0, c["maxlevel"])) if self.d == 1 else draw(st.integers(0, min(2, c["maxlevel"])))])
                else:
                    ops.append(["read", draw(keys(self.d, c["maxlevel"]))])
            c["ops"] = ops
            return c

        return s()

    def compare(self, case, tree, key, value, ctx, seen):
        ref = tree[key]
        scale = [tree[key[:i]] for i in range(len(key) + 1)]
        tol = node_tol(case, *scale)
        dt = DT[case["dtype"]]
        swap = key.translate(FLIP)
        if not (self.d == 2 and case["sep"] and case["mode"] != "boundary") or swap == key:
            close(value, ref, tol, f"node '{key}'", dt)
            return
        # separable trees: see known_findings.txt
        ref2 = tree[swap]
        tol = max(tol, node_tol(case, *[tree[swap[:i]] for i in range(len(key) + 1)]))
        if maxabs(ref - ref2) <= 2 * tol:
            close(value, ref, 3 * tol, f"node '{key}'", dt)
            return
        try:
            close(value, ref, tol, f"node '{key}'", dt)
            seen.add("pywt")
        except Violation as v:
            close(value, ref2, tol, f"node '{key}' (h and v exchanged)", dt)
            seen.add("swapped")
            ctx.known("packet2d-separable-hv-swapped", str(v))
        require(len(seen) < 2, "some nodes have h and v exchanged, others not")

    def check(self, case, ctx):
        d = self.d
        label_packet(case, ctx)
        x = build_np(case["data"], full_shape(case["arr"], case["n"]))
        t = to_tensor(x, case["dtype"], case["layout"])
        ml = None if case["default_depth"] else case["maxlevel"]
        seen = set()
        if case["via_transform"] or not case["ctor"]:
            wp = new_packet(case, None, "omit")
            for b in case["before"]:
                cb = with_input(case, b)
                xb = build_np(cb["data"], full_shape(cb["arr"], cb["n"]))
                wp.transform(to_tensor(xb, cb["dtype"]), cb["maxlevel"])
                tb = Tree(cb, xb)
                for key in {"a" * cb["maxlevel"], "d" * cb["maxlevel"]}:
                    self.compare(cb, tb, key, wp[key], ctx, seen)
            r = wp.transform(t, ml) if not case["default_depth"] else wp.transform(t)
            require(r is wp, "transform does not return the packet object")
        else:
            wp = new_packet(case, t, "omit" if case["default_depth"] else "case")
        require(wp.maxlevel == case["maxlevel"], f"depth {wp.maxlevel}, expected {case['maxlevel']}")
        tree = Tree(case, x)
        deep = 0
        for op, arg in case["ops"]:
            if op == "init":
                wp.initialize(arg if len(arg) != 2 else iter(arg))
                for key in arg:
                    require(key in wp, f"'{key}' is missing after initialize")
                continue
            if op == "level":
                ks = PACKET[d].get_level(arg, "natural")
            else:
                ks = [arg]
            for key in ks:
                deep = max(deep, len(key))
                self.compare(case, tree, key, wp[key], ctx, seen)
        ctx.interesting(deep >= 1 and maxabs(x) > 0)
        close(wp[""], x.astype(DT_NP[case["dtype"]]).astype(float), 0.0, "root after the reads", DT[case["dtype"]])


DT_NP = {"f32": np.float32, "f64": np.float64}


class C18(NodeValues):
    id, d, quick = "C18", 1, 2200


class C20(NodeValues):
    id, d, quick = "C20", 2, 800
    corpus = [
        {
            "d": 2, "wavelet": "db2", "wobj": False, "mode": "zero", "sep": True, "orth": "qr", "n": [8, 9],
            "maxlevel": 1, "arr": {"batch": [], "pos": [0, 1], "axes": None}, "data": {"kind": "normal", "seed": 5},
            "dtype": "f64", "layout": "plain", "default_depth": False, "ctor": True, "before": [],
            "via_transform": False, "ops": [["read", "h"], ["read", "v"]],
        }
    ]


class Reconstruct(Prop):
    d = 1
    rule = (
        "a tree as in the value checks; leaves are left alone, overwritten or deleted, inner nodes overwritten "
        "with garbage, then reconstruct() is compared with node-wise pywt synthesis (boundary: fresh one-level "
        "synthesis), including the inner nodes, a repeated call and the reuse of the object afterwards; "
        "non-trivial: depth at least one, non-zero data, no missing leaf"
    )
    assumptions = [
        "pywt.idwt / idwt2 node by node, trimmed to the size of the node, is the reference",
        "boundary mode: fresh one-level Matrix synthesis (C08, C09) is the reference",
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            d = self.d
            c = draw(packet_case(d, custom=True, deep={1: 6, 2: 0}[d]))
            if d == 2:
                c["maxlevel"] = min(c["maxlevel"], draw(st.sampled_from([2] * 19 + [3])))
            ml = c["maxlevel"]
            c["edits"] = []
            for _ in range(draw(st.sampled_from([0, 0, 1, 2, 4]))):
                c["edits"].append([draw(keys(d, ml)), draw(gen.data_spec())])
            c["missing"] = draw(st.integers(0, 4)) == 0
            c["drop"] = "".join(draw(st.sampled_from(CHARS[d])) for _ in range(ml))
            c["init"] = draw(st.sampled_from(["levels", "initialize", "read"]))
            c["after"] = shapes_case(draw, c) if draw(st.booleans()) else None
            if c["after"] and d == 2:
                c["after"]["maxlevel"] = min(2, c["after"]["maxlevel"])
            return c

        return s()

    def reference(self, case, tree, leaves, flip):
        """All nodes bottom-up from the leaves."""
        d, ml = self.d, case["maxlevel"]
        vals = dict(leaves)
        for level in reversed(range(ml)):
            for p in product(CHARS[d], repeat=level):
                node = "".join(p)
                parts = {c: vals[node + c] for c in CHARS[d]}
                if flip:
                    parts["h"], parts["v"] = parts["v"], parts["h"]
                r = join_ref(case, parts)
                if level:
                    key = node.translate(FLIP) if flip else node
                    r = r[tuple(slice(0, k) for k in tree[key].shape)]
                vals[node] = r
        return vals

    def check(self, case, ctx):
        d, ml = self.d, case["maxlevel"]
        label_packet(case, ctx)
        x = build_np(case["data"], full_shape(case["arr"], case["n"]))
        wp = new_packet(case, to_tensor(x, case["dtype"], case["layout"]))
        self.cycle(case, ctx, wp, x, case["edits"], case["missing"])
        if case["after"]:
            cb = with_input(case, case["after"])
            xb = build_np(cb["data"], full_shape(cb["arr"], cb["n"]))
            wp.transform(to_tensor(xb, cb["dtype"]), cb["maxlevel"])
            was = ctx.nontrivial
            self.cycle(cb, ctx, wp, xb, [], False)
            ctx.interesting(was)
            ctx.label("reused")
        del ml, d

    def cycle(self, case, ctx, wp, x, edits, missing):
        d, ml = self.d, case["maxlevel"]
        tree = Tree(case, x)
        leaves = PACKET[d].get_level(ml, "natural")
        if missing and ml:
            # nothing was expanded below the root yet, or one leaf was removed
            if case["init"] == "read":
                wp["a" * ml]
                drop = None if ml == 1 else "d" * ml
            else:
                wp.initialize(leaves)
                drop = case["drop"]
                del wp[drop]
            ctx.label("missing_leaf")
            if drop is None:
                return
            try:
                wp.reconstruct()
            except KeyError:
                return
            raise Violation(f"reconstruct() without the leaf '{drop}' did not raise KeyError")
        if case["init"] == "initialize":
            wp.initialize(leaves)
        elif case["init"] == "read":
            for k in reversed(leaves):
                wp[k]
        else:
            order = wp.get_level(ml)
            for k in order if d == 1 else [q for row in order for q in row]:
                wp[k]
        flip = d == 2 and case["sep"] and case["mode"] != "boundary"
        orig = {k: tree[k.translate(FLIP) if flip else k] for k in leaves}
        vals = dict(orig)
        for key, spec in edits:
            shape = tree[key.translate(FLIP) if flip else key].shape
            y = build_np(spec, shape)
            wp[key] = to_tensor(y, case["dtype"])
            if len(key) == ml and ml:
                vals[key] = y
                ctx.label("edited_leaf")
            else:
                ctx.label("edited_inner")
        if ml == 0:
            keep = as_np(wp[""]).copy()
            wp.reconstruct()
            require(np.array_equal(keep, as_np(wp[""])), "reconstruct() of depth 0 changed the root")
            return
        before = {k: as_np(wp[k]).copy() for k in leaves}
        require(wp.reconstruct() is wp, "reconstruct does not return the packet object")
        ctx.interesting(maxabs(x) > 0)
        self.compare(case, ctx, wp, tree, vals, flip)
        for k in leaves:
            require(np.array_equal(before[k], as_np(wp[k])), f"reconstruct() changed the leaf '{k}'")
        edited_leaf = any(len(k) == ml for k, _ in edits)
        if not edited_leaf:
            rec = as_np(wp[""]).astype(float)
            want = list(x.shape)
            for p in case["arr"]["pos"]:
                want[p] += want[p] % 2
            require(list(rec.shape) == want, f"root has shape {list(rec.shape)}, expected {want}")
            tol = node_tol(case, x, *orig.values()) * gen.gain(case["wavelet"]) ** d
            tol += 20 * d * ml * gen.pr_error(case["wavelet"]) * maxabs(x, *orig.values())
            close(torch.from_numpy(rec[tuple(slice(0, k) for k in x.shape)]), x, tol, "root")
        root = as_np(wp[""]).copy()
        wp.reconstruct()
        require(np.array_equal(root, as_np(wp[""])), "a second reconstruct() gives another root")

    def compare(self, case, ctx, wp, tree, vals, flip):
        d, ml = self.d, case["maxlevel"]

        def same(ref):
            tol = node_tol(case, tree[""], *ref.values()) * gen.gain(case["wavelet"]) ** d
            for level in range(ml):
                for p in product(CHARS[d], repeat=level):
                    node = "".join(p)
                    close(wp[node], ref[node], tol, f"node '{node}' after reconstruct()", DT[case["dtype"]])

        if not flip:
            same(self.reference(case, tree, vals, False))
            return
        try:
            same(self.reference(case, tree, vals, False))
        except Violation as v:
            same(self.reference(case, tree, vals, True))
            ctx.known("packet2d-separable-hv-swapped", str(v))


class C19(Reconstruct):
    id, d, quick = "C19", 1, 1500


class C21(Reconstruct):
    id, d, quick = "C21", 2, 700
    corpus = [
        {
            "d": 2, "wavelet": "db2", "wobj": False, "mode": "zero", "sep": True, "orth": "qr", "n": [8, 9],
            "maxlevel": 1, "arr": {"batch": [], "pos": [0, 1], "axes": None}, "data": {"kind": "normal", "seed": 5},
            "dtype": "f64", "layout": "plain", "edits": [["h", {"kind": "normal", "seed": 1}]], "missing": False,
            "drop": "a", "init": "initialize", "after": None,
        }
    ]


# ------------------------------------------------------------------ orders and keys


@functools.lru_cache(None)
def pywt_order(d, level, order):
    if d == 1:
        wp = pywt.WaveletPacket(np.zeros(2**level), "haar", maxlevel=level)
        return [n.path for n in wp.get_level(level, order)]
    wp = pywt.WaveletPacket2D(np.zeros((2**level, 2**level)), "haar", maxlevel=level)
    r = wp.get_level(level, order)
    if order == "natural":
        return [n.path for n in r]
    return [[n.path for n in row] for row in r]


@st.composite
def bad_key(draw, d):
    n = draw(st.integers(1, 4))
    return "".join(draw(st.sampled_from(CHARS[d] + "xhvAD ")) for _ in range(n))


class C22(Prop):
    id, quick = "C22", 1500
    rule = (
        "all levels of both orders against pywt (explicit cases: 1d to 9, 2d to 5) and random trees with random "
        "keys: default depth, errors before initialisation, for keys that are too deep, have other characters or "
        "whose root was removed, and values after failed reads; non-trivial: an error rule or order was decided"
    )
    assumptions = ["pywt.WaveletPacket(2D).get_level and pywt.dwt_max_level are the reference"]
    corpus = [{"kind": "order", "d": 1, "level": k, "order": o, "inst": False} for k in range(10) for o in ("freq", "natural")] + [
        {"kind": "order", "d": 2, "level": 0, "order": "natural", "inst": False}
    ] + [
        {"kind": "order", "d": 2, "level": k, "order": o, "inst": False} for k in range(1, 6) for o in ("freq", "natural")
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            d = draw(st.sampled_from([1, 2]))
            if draw(st.integers(0, 9)) == 0:
                return {
                    "kind": "order", "d": d, "level": draw(st.integers(1, 6 if d == 1 else 4)), "inst": draw(st.booleans()),
                    "order": draw(st.sampled_from(["freq", "natural", "default", "frequency", "", "NATURAL"])),
                }
            c = draw(packet_case(d, custom=True))
            c["kind"] = "keys"
            if draw(st.integers(0, 5)) == 0:
                c["maxlevel"] = 0  # a tree of the root only
            c["w2"] = draw(st.sampled_from(["haar", "db2", "db4", "sym8"]))
            c["n2"] = [draw(st.integers(1, 70)) for _ in range(d)]
            if draw(st.booleans()):
                c["n2"] = [draw(st.integers(1, 8)) * 2 ** draw(st.integers(0, 4)) + draw(st.integers(-1, 1)) for _ in range(d)]
                c["n2"] = [max(1, k) for k in c["n2"]]
            c["bad"] = [draw(bad_key(d)) for _ in range(draw(st.integers(1, 4)))]
            c["good"] = [draw(keys(d, c["maxlevel"])) for _ in range(2)]
            c["drop_root"] = draw(st.booleans())
            leaf = st.lists(st.sampled_from(CHARS[d]), min_size=c["maxlevel"], max_size=c["maxlevel"]).map("".join)
            c["gone"] = draw(st.lists(leaf, min_size=1, max_size=3, unique=True)) if c["maxlevel"] else []
            c["inner_too"] = draw(st.booleans())
            return c

        return s()

    def check(self, case, ctx):
        d = case["d"]
        cls = PACKET[d]
        if case["kind"] == "order":
            o, level = case["order"], case["level"]
            obj = cls(None, "haar") if case["inst"] else cls
            ctx.label(f"order={o}", f"d={d}")
            ctx.interesting()
            if o not in ("freq", "natural", "default"):
                try:
                    obj.get_level(level, o)
                except ValueError:
                    return
                raise Violation(f"unknown order {o!r} was accepted")
            got = obj.get_level(level) if o == "default" else obj.get_level(level, o)
            with oracle():
                # pywt lists no node at level 0
                want = pywt_order(d, level, "freq" if o == "default" else o) if level else [""]
            require(got == want, f"order {o}, level {level}: {str(got)[:200]}, expected {str(want)[:200]}")
            if d == 2:
                f = cls.get_freq_order if o != "natural" else cls.get_natural_order
                require(f(level) == want, f"{f.__name__}({level}) differs from get_level")
            # the caller owns the returned list
            for row in got if d == 2 and o != "natural" and level else []:
                row.reverse()
            got.append("x")
            again = obj.get_level(level) if o == "default" else obj.get_level(level, o)
            require(again == want, f"order {o}, level {level}, after changing an earlier result: {str(again)[:200]}")
            return
        label_packet(case, ctx)
        # default depth
        c2 = dict(case, n=case["n2"], wavelet=case["w2"], mode="zero")
        data2 = torch.zeros(full_shape(case["arr"], case["n2"]))
        with oracle():
            want = min(pywt.dwt_max_level(n, wav(case["w2"]).dec_len) for n in case["n2"])
        for p, nm in (
            (new_packet(c2, data2, "omit"), "constructor"),
            (new_packet(c2, None, "omit").transform(data2), "transform"),
            (new_packet(c2, data2, None), "constructor with None"),
        ):
            require(p.maxlevel == want, f"default depth ({nm}) {p.maxlevel}, expected {want}")
        if not case["maxlevel"]:
            ctx.label("depth=0")
            self.expect(new_packet(c2, None, "omit").transform(data2, 0), CHARS[d][0], KeyError, "transform with depth 0")
        # errors
        wp = new_packet(case, None, "omit")
        for key in [""] + case["bad"] + case["good"]:
            self.expect(wp, key, ValueError, "before transform")
        x = build_np(case["data"], full_shape(case["arr"], case["n"]))
        ml = case["maxlevel"]
        wp = new_packet(case, to_tensor(x, case["dtype"], case["layout"]))
        tree = Tree(case, x)
        flip = d == 2 and case["sep"] and case["mode"] != "boundary"

        def good(key):
            value = wp[key]
            cand = [key] + ([key.translate(FLIP)] if flip else [])
            errs = []
            for k in cand:
                try:
                    close(value, tree[k], node_tol(case, *[tree[k[:i]] for i in range(len(k) + 1)]), f"node '{key}'")
                    return
                except Violation as v:
                    errs.append(v)
            raise errs[0]

        for key in case["good"][:1]:
            good(key)
        for key in case["bad"]:
            have = set(wp.keys())
            if len(key) > ml and key not in have:
                self.expect(wp, key, KeyError, f"depth {ml}")
                ctx.label("too_deep")
            elif any(ch not in CHARS[d] for ch in key):
                self.expect(wp, key, ValueError, f"depth {ml}")
                ctx.label("bad_character")
            else:
                good(key)
            for k in wp.keys():
                require(set(k) <= set(CHARS[d]) and len(k) <= ml, f"the tree holds a node '{k}'")
            try:
                wp.initialize([key])
            except (KeyError, ValueError):
                pass
        for key in case["good"]:
            good(key)
        self.expect(wp, CHARS[d][0] * (ml + 1), KeyError, f"depth {ml}")
        ctx.interesting()
        if case.get("gone"):
            ctx.label(f"gone={len(case['gone'])}")
            leaves = cls.get_level(ml, "natural")
            if case["inner_too"]:
                full = new_packet(case, to_tensor(x, case["dtype"]))
                full.initialize(leaves)
            else:
                full = new_packet(case, to_tensor(x, case["dtype"]))
                for k in leaves:
                    full[k]
            for k in case["gone"]:
                del full[k]
            for _ in range(2):
                try:
                    full.reconstruct()
                except KeyError:
                    pass
                else:
                    raise Violation(f"reconstruct() without the leaves {case['gone']} did not raise KeyError")
                for k in case["gone"]:
                    require(k not in full, f"reconstruct() computed the missing leaf '{k}'")
        if case["drop_root"]:
            del wp[""]
            self.expect(wp, "", ValueError, "without root")

    def expect(self, wp, key, kind, when):
        try:
            wp[key]
        except kind:
            return
        except Exception as e:
            raise Violation(f"key {key!r} {when}: {type(e).__name__}, expected {kind.__name__}") from e
        raise Violation(f"key {key!r} {when} was accepted, expected {kind.__name__}")


# ------------------------------------------------------------------ histories


@functools.lru_cache(None)
def swapped_convention():
    """Which of h and v the separable padding-mode trees store first (see known_findings.txt)."""
    x = np.arange(64.0).reshape(8, 8) ** 1.5
    wp = ptwt.WaveletPacket2D(torch.from_numpy(x), "haar", mode="zero", separable=True, maxlevel=1)
    _, (h, v, _) = pywt.dwt2(x, "haar", mode="zero")
    return maxabs(as_np(wp["h"]) - h) > maxabs(as_np(wp["h"]) - v)


class C34(Prop):
    id, quick = "C34", 1500
    rule = (
        "random tree (one- or two-dimensional, any mode) and a random history of up to 14 operations: read, set, "
        "delete, initialise, membership, listing, keys beyond the depth, failing reads and transforms of "
        "new inputs, against a dictionary model with lazy expansion; "
        "non-trivial: a node was expanded after a node had been set or deleted"
    )
    assumptions = [
        "a node set by the user may be recomputed when a missing sibling is expanded (PyWavelets does the same)",
        "a node is expanded by pywt.dwt / dwt2 or by a one-level boundary transform (C08, C09)",
    ]

    def strategy(self):
        @st.composite
        def s(draw):
            d = draw(st.sampled_from([1, 1, 2]))
            c = draw(packet_case(d, custom=True, deep={1: 6, 2: 5}[d]))
            c["second"] = shapes_case(draw, c)
            ops = []
            for _ in range(draw(st.integers(3, 14))):
                kind = draw(
                    st.sampled_from(["read", "read", "read", "set", "set", "del", "init", "has", "list", "far", "bad", "transform", "same"])
                )
                key = draw(keys(d, max(1, c["maxlevel"])))
                if kind == "init":
                    arg = [draw(keys(d, 3)) for _ in range(draw(st.integers(0, 3)))]
                    arg = [arg, draw(st.sampled_from(["list", "generator"])), draw(st.sampled_from([None, None, "far", "bad"]))]
                elif kind == "set":
                    arg = [draw(st.integers(0, 50)), draw(gen.data_spec())]
                elif kind == "bad":
                    arg = draw(st.sampled_from("xhvADz "))
                elif kind == "far":
                    arg = draw(st.integers(1, 3))
                else:
                    arg = draw(st.integers(0, 50))
                ops.append([kind, key, arg])
            c["ops"] = ops
            return c

        return s()

    def check(self, case, ctx):
        label_packet(case, ctx)
        d = case["d"]
        first = {"n": case["n"], "maxlevel": case["maxlevel"], "batch": case["arr"]["batch"], "dtype": case["dtype"], "data": case["data"]}
        self.flip = d == 2 and case["sep"] and case["mode"] != "boundary" and swapped_convention()
        self.case, self.ctx, self.touched = case, ctx, False
        wp = new_packet(case, None, "omit")
        self.start(wp, first, case["layout"])
        for kind, key, arg in case["ops"]:
            key = key[: self.case["maxlevel"]]
            ctx.label(kind)
            getattr(self, kind)(wp, key, arg)
            require(len(wp) == len(self.model), f"the tree has {len(wp)} nodes after '{kind}', expected {len(self.model)}")
            require(set(wp.keys()) == set(self.model), f"the tree holds {sorted(wp)} after '{kind}', expected {sorted(self.model)}")
        for k, t in self.model.items():
            require(wp[k] is t, f"the node '{k}' was replaced")

    def start(self, wp, spec, layout="plain"):
        self.case = dict(with_input(self.case, spec), layout=layout)
        x = build_np(spec["data"], full_shape(self.case["arr"], self.case["n"]))
        t = to_tensor(x, self.case["dtype"], layout)
        require(wp.transform(t, self.case["maxlevel"]) is wp, "transform does not return the packet object")
        self.model, self.root = {"": t}, t
        require(wp[""] is t, "the root is not the input")

    def children(self, path):
        """Expected children of a present node."""
        parts = split_ref(self.case, as_np(self.model[path]).astype(float))
        if self.flip:
            parts["h"], parts["v"] = parts["v"], parts["h"]
        return parts

    def expand(self, wp, key):
        """Update the model after a successful read of a missing key."""
        k = len(key)
        while key[:k] not in self.model:
            k -= 1
        for i in range(k, len(key)):
            path = key[:i]
            parent = as_np(self.model[path]).astype(float)
            for ch, ref in self.children(path).items():
                child = path + ch
                require(child in wp, f"the node '{child}' is missing after reading '{key}'")
                value = wp[child]
                if child in self.model and value is self.model[child]:
                    continue
                close(value, ref, 2 * node_tol(self.case, parent), f"node '{child}'", DT[self.case["dtype"]])
                self.model[child] = value
        self.ctx.interesting(self.touched and k < len(key))

    def lost(self, key):
        """No ancestor of the key is present."""
        return not any(key[:i] in self.model for i in range(len(key) + 1))

    def read(self, wp, key, arg):
        if key in self.model:
            require(wp[key] is self.model[key], f"reading '{key}' twice gives different tensors")
        elif self.lost(key):
            expect(wp, key, ValueError, "without root")
        else:
            wp[key]
            self.expand(wp, key)

    def init(self, wp, key, arg):
        todo, form, tail = arg
        todo = [k[: self.case["maxlevel"]] for k in todo]
        todo = [k for k in todo if not self.lost(k)]
        kind = None
        keys_in = list(todo)
        if tail == "far":
            last = key + CHARS[self.case["d"]][0] * (self.case["maxlevel"] + 1 - len(key))
            if last not in self.model:
                keys_in, kind = keys_in + [last], KeyError
        elif tail == "bad" and len(key) < self.case["maxlevel"]:
            keys_in, kind = keys_in + [key + "x"], ValueError
        try:
            wp.initialize(keys_in if form == "list" else iter(keys_in))
        except Exception as e:
            if kind is None:
                raise
            require(isinstance(e, kind), f"initialize({keys_in}) raises {type(e).__name__} instead of {kind.__name__}")
            self.ctx.label("init-fails")
        else:
            require(kind is None, f"initialize({keys_in}) accepts a key that reading refuses")
        for k in todo:
            require(k in wp, f"'{k}' is missing after initialize")
            if k not in self.model:
                self.expand(wp, k)
        if tail == "bad" and kind:
            # the ancestors of the bad key may have been computed
            for k in sorted(set(wp.keys()) - set(self.model), key=len):
                if k not in self.model:
                    self.expand(wp, k)

    def set(self, wp, key, arg):
        # the shape of the present node is kept: siblings have to fit together
        here = sorted(k for k in self.model if len(k) <= self.case["maxlevel"])
        if not here:
            return
        key = here[arg[0] % len(here)]
        y = build_np(arg[1], tuple(self.model[key].shape))
        t = to_tensor(y, self.case["dtype"])
        wp[key] = t
        self.model[key] = t
        require(wp[key] is t, f"'{key}' does not return the tensor it was set to")
        self.touched = True

    def far(self, wp, key, arg):
        deep = key + CHARS[self.case["d"]][arg % 2] * (self.case["maxlevel"] - len(key) + arg)
        if deep not in self.model:
            expect(wp, deep, KeyError, f"depth {self.case['maxlevel']}")
        t = torch.zeros(3)
        wp[deep] = t
        self.model[deep] = t
        require(deep in wp and wp[deep] is t, f"'{deep}' does not return the tensor it was set to")

    def bad(self, wp, key, arg):
        if arg in CHARS[self.case["d"]] or len(key) >= self.case["maxlevel"]:
            return
        expect(wp, key + arg, ValueError, "unknown character")

    def has(self, wp, key, arg):
        require((key in wp) == (key in self.model), f"'{key}' in tree: {key in wp}")

    def list(self, wp, key, arg):
        for k in list(wp):
            require(wp[k] is self.model[k], f"the node '{k}' was replaced")

    def transform(self, wp, key, arg):
        if arg % 2:
            self.start(wp, self.case_second())
            self.touched = False

    def same(self, wp, key, arg):
        """The same tensor object again, with other values in it."""
        t = self.root
        with torch.no_grad():
            t.detach().mul_(-0.5).add_(0.125 * maxabs(as_np(t)))
        ml = self.case["maxlevel"]
        wp.transform(t, ml)
        require(wp.maxlevel == ml and wp[""] is t, "transform of the same tensor object")
        self.model = {"": t}

    def case_second(self):
        return self.case["second"]

    def __getattr__(self, name):
        if name == "del":
            return self.delete
        raise AttributeError(name)

    def delete(self, wp, key, arg):
        here = sorted(self.model)
        if not here:
            return
        key = here[arg % len(here)]
        if key == "" and arg % 8:
            return
        del wp[key]
        del self.model[key]
        require(key not in wp, f"'{key}' is there after its deletion")
        self.touched = True


def expect(wp, key, kind, when):
    before = set(wp.keys())
    try:
        wp[key]
    except kind:
        pass
    except Exception as e:
        raise Violation(f"key {key!r} {when}: {type(e).__name__}, expected {kind.__name__}") from e
    else:
        raise Violation(f"key {key!r} {when} was accepted, expected {kind.__name__}")
    require(set(wp.keys()) >= before, f"the failing read of {key!r} removed nodes")
