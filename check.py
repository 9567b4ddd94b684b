#!/usr/bin/env python3
"""Entry point of every check: ``check.py <ID>``, ``check.py --replay <file>``.

Re-executes itself with the interpreter and a fixed environment: one thread
per worker, no bytecode written into /repo, /repo/src first on the path.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PTWT_REPO", "/repo")
PY = "/opt/venv/bin/python"

if os.environ.get("PBT_CHILD") != "1":
    env = dict(os.environ)
    env.update(
        PBT_CHILD="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY="/tmp/ptwtpbt-hypothesis",
        PYTHONPATH=os.pathsep.join(
            [os.path.join(REPO, "src"), HERE, os.path.join(HERE, "vendor")]
        ),
    )
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

import json  # noqa: E402


def main(argv):
    import torch

    torch.set_num_threads(1)
    torch.set_num_interop_threads(1)
    import ptwt

    src = os.path.realpath(os.path.join(REPO, "src"))
    if not os.path.realpath(ptwt.__file__).startswith(src + os.sep):
        print(f"ptwt imported from {ptwt.__file__}, not from {src}", file=sys.stderr)
        return 2
    from pbt import core, registry

    if argv and argv[0] == "--list":
        print("\n".join(sorted(registry.PROPS)))
        return 0
    if argv and argv[0] == "--replay":
        pid = json.load(open(argv[1], encoding="utf-8"))["property"]
        return core.replay(registry.PROPS[pid](), argv[1])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    ids = [a for a in argv if not a.startswith("--")]
    return max([core.run_prop(registry.PROPS[i](), tier, seed) for i in ids], default=2)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
