"""Snapshots of the settings of the process that a call must leave alone."""

import gc
import locale
import logging
import os
import random
import sys

import numpy as np
import torch


def denormals_kept():
    """Whether the processor keeps denormal results (see torch.set_flush_denormal)."""
    return bool((torch.full((4,), 2.0**-1060, dtype=torch.float64) * 0.5 != 0).all()), bool(2.0**-1060 * 0.5 != 0)


def settings():
    return {
        "default dtype": torch.get_default_dtype(),
        "default device": str(torch.get_default_device()) if hasattr(torch, "get_default_device") else None,
        "gradient mode": (torch.is_grad_enabled(), torch.is_inference_mode_enabled()),
        "number of threads": torch.get_num_threads(),
        "deterministic mode": (torch.are_deterministic_algorithms_enabled(), torch.backends.cudnn.deterministic),
        "matrix multiplication precision": torch.get_float32_matmul_precision(),
        "oneDNN switch": torch.backends.mkldnn.enabled if hasattr(torch.backends.mkldnn, "enabled") else None,
        "always warn switch": torch.is_warn_always_enabled(),
        "sparse checks switch": torch.sparse.check_sparse_tensor_invariants.is_enabled(),
        "denormal handling": denormals_kept(),
        "numpy error handling": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "anomaly mode": torch.is_anomaly_enabled(),
        "garbage collector": gc.isenabled(),
        "locale": locale.setlocale(locale.LC_NUMERIC),
        "root logger": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        # torch itself sets a cache directory when it first loads its compiler
        "environment": {k: v for k, v in os.environ.items() if not k.startswith(("TORCH", "TRITON", "PYTORCH"))},
        "working directory": os.getcwd(),
    }


def state():
    """Settings, random states and what belongs to the current context."""
    n = np.random.get_state()
    return {
        **settings(),
        "torch random state": torch.get_rng_state().numpy().tobytes(),
        "numpy random state": (n[0], n[1].tobytes(), n[2:]),
        "python random state": random.getstate(),
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": (id(sys.stdout), id(sys.stderr)),
    }
