#!/usr/bin/env python3
"""check.py <PROPERTY> quick|thorough [--replay FILE]

Decides one property: generates behaviours, drives the real planner through
them, and has TLC judge every recorded behaviour against the TLA+
specification.  Exit 0: held on everything explored.  Exit 1: VIOLATION.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("_VERIF_BOOT") != "1":
    env = dict(os.environ)
    env.update(
        _VERIF_BOOT="1",
        HOME="/root",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TZ="UTC",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=os.pathsep.join([os.path.join(HERE, "stubs"), REPO, HERE]),
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        PROJ_NETWORK="OFF",
        MPLCONFIGDIR="/tmp",
    )
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

from harness.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
