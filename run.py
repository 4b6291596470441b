"""Entry point of every check: `python run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]`.

Exit codes: 0 the property held on everything explored; 1 a violation (a VIOLATION line is printed);
2 an error of the harness itself; 3 inconclusive (a budget ran out before the search finished).
"""

import os
import shutil
import sys
import tempfile

PYTHON = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

FIXED_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "VLIB_BOOTSTRAPPED": "1",
}


def bootstrap() -> int:
    """Run this script again in a clean environment with a private scratch folder, then clean up."""
    import subprocess

    scratch = tempfile.mkdtemp(prefix="qldpc-verif-")
    env = dict(os.environ)
    env.update(FIXED_ENV)
    env["VLIB_SCRATCH"] = scratch
    env["HOME"] = os.path.join(scratch, "home")
    env["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
    env["TMPDIR"] = os.path.join(scratch, "tmp")
    env.pop("PYTHONPATH", None)
    for key in ("HOME", "XDG_CACHE_HOME", "TMPDIR"):
        os.makedirs(env[key], exist_ok=True)
    try:
        return subprocess.call([PYTHON, os.path.abspath(__file__), *sys.argv[1:]], env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if os.environ.get("VLIB_BOOTSTRAPPED") != "1":
        sys.exit(bootstrap())
    sys.path.insert(0, HERE)
    from vlib import core

    sys.exit(core.main(sys.argv[1:]))
