"""A second device that is only pretended.

There is no GPU here.  ``Pretend`` marks tensors as living on ``cuda:0`` or ``cuda:1`` while their data
stays in main memory: tensors made with ``device=cuda`` and results of operations on
marked tensors are marked, ``.device`` tells so, and what fails with a real second device
fails here, too: operations that mix marked with other tensors (of at least one axis) and
conversions of marked tensors to numpy.
"""

from __future__ import annotations

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._pytree import tree_flatten, tree_map

CPU = torch.device("cpu")
DEVICES = [CPU, torch.device("cuda", 0), torch.device("cuda", 1)]
MARK = "_pretended_device"


class WrongDevice(RuntimeError):
    pass


def marked(t):
    """Number of the device: 0 for the CPU, 1 for cuda:0, 2 for cuda:1."""
    return getattr(t, MARK, 0)


def mark(t, number=1):
    setattr(t, MARK, number)
    return t


def named(d):
    """Number of the device that an argument names."""
    d = torch.device(d)
    return 0 if d.type != "cuda" else 1 + (d.index or 0)


def is_device(d):
    return isinstance(d, torch.device) or (isinstance(d, str) and d.split(":")[0] in ("cuda", "cpu"))


# the other tensors may live elsewhere: indices, sources of copies, parts that are moved
LENIENT = {"__getitem__", "__setitem__", "copy_", "sparse_coo_tensor", "index_put_", "index_put", "to", "type_as", "tensor", "as_tensor", "where"}
ASKS = {"dim", "size", "stride", "numel", "is_contiguous", "__len__", "is_complex", "is_floating_point", "ndimension", "nelement", "__hash__", "is_coalesced"}


class Pretend(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", "")
        owner = getattr(func, "__self__", None)
        if name in ("__get__", "__set__", "__delete__"):
            prop = getattr(owner, "__name__", "")
            t = args[0]
            if name == "__get__" and marked(t):
                if prop == "device":
                    return DEVICES[marked(t)]
                if prop == "is_cuda":
                    return True
                if prop == "is_cpu":
                    return False
            r = func(*args, **kwargs)
            if isinstance(r, torch.Tensor) and marked(t) and r is not t:
                mark(r, marked(t))
            return r
        if name in ASKS:
            return func(*args, **kwargs)
        flat = [t for t in tree_flatten((args, kwargs))[0] if isinstance(t, torch.Tensor)]
        if name in ("numpy", "__array__", "tolist") and marked(args[0]):
            if name == "tolist":
                return func(*args, **kwargs)
            raise WrongDevice("can't convert cuda:0 device type tensor to numpy")
        if name == "get_device" and marked(args[0]):
            return marked(args[0]) - 1
        if name == "cuda":
            k = args[1] if len(args) > 1 else kwargs.get("device")
            return mark(args[0].clone(), 1 if k is None else 1 + k if isinstance(k, int) else named(k))
        if name == "cpu":
            return args[0].clone() if marked(args[0]) else func(*args, **kwargs)
        # where the result is asked to be
        target = None
        if kwargs.get("device") is not None:
            target = named(kwargs["device"])
            kwargs["device"] = CPU
        elif name == "to":
            if len(args) > 1 and is_device(args[1]):
                target = named(args[1])
                args = (args[0], CPU) + tuple(args[2:])
            elif len(args) > 1 and isinstance(args[1], torch.Tensor):
                target = marked(args[1])
            if target is not None and target != marked(args[0]):
                args = (args[0].clone(),) + tuple(args[1:])
        if target is None:
            big = [t for t in flat if t.dim() > 0]
            if name not in LENIENT and len({marked(t) for t in big}) > 1:
                raise WrongDevice(f"{name}: expected all tensors to be on the same device, but found several")
            if name == "__getitem__" and any(marked(t) not in (0, marked(args[0])) for t in flat):
                raise WrongDevice("indices should be either on cpu or on the same device as the indexed tensor")
            if name in ("tensor", "as_tensor"):
                data = args[0] if args else kwargs.get("data")
                target = marked(data)
            elif name == "type_as":
                target = marked(args[1])
            elif name == "__getitem__":
                target = marked(args[0])
            elif name == "sparse_coo_tensor":
                v = args[1] if len(args) > 1 else kwargs.get("values")
                target = marked(v)
            else:
                target = max((marked(t) for t in big or flat), default=0)
        elif name in ("as_tensor", "asarray") and any(marked(t) != target for t in flat):
            # moved to the other device: a copy
            args, kwargs = tree_map(lambda v: v.clone() if isinstance(v, torch.Tensor) else v, (args, kwargs))
        r = func(*args, **kwargs)
        inputs = {id(t) for t in flat}

        def set_mark(v):
            if isinstance(v, torch.Tensor) and id(v) not in inputs:
                if target:
                    mark(v, target)
                elif marked(v):
                    mark(v, 0)
            return v

        for v in tree_flatten(r)[0]:
            set_mark(v)
        return r
