"""All properties by id."""
import importlib

from .core import Prop

MODULES = ["p_conv", "p_matrix", "p_time", "p_packets", "p_generic", "p_misc", "p_ambient", "p_cross", "p_cost", "p_deriv", "p_device", "p_sched", "p_memory"]

PROPS = {}
for _m in MODULES:
    _mod = importlib.import_module(f".{_m}", __package__)
    for _c in vars(_mod).values():
        if isinstance(_c, type) and issubclass(_c, Prop) and _c.__module__ == _mod.__name__:
            if _c.id != "?":
                PROPS[_c.id] = _c
