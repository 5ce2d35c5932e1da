"""Import the code under test under the simulator's control.

Everything that could be nondeterministic in the process is pinned here; the per-run seams (entropy, global
random state, events, callbacks) are set by core.run_plan before each run.
"""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)          # where evidence and replays go (tools/bug.py sends them to a scratch folder)
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

ENVIRON = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
    "SDL_AUDIODRIVER": "dummy", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "PYGAME_HIDE_SUPPORT_PROMPT": "1", "XDG_RUNTIME_DIR": "/tmp", "PYTHONWARNINGS": "ignore",
}


def clean_environ(hashseed="0"):
    e = {k: v for k, v in os.environ.items() if k not in ("OFFSCREEN_RENDERING", "PYTHONPATH", "SDL_VIDEODRIVER")}
    e.update(ENVIRON)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONPATH"] = REPO + os.pathsep + VERIF
    e["VERIF_BOOTED"] = "1"
    return e


def reexec_if_needed():
    """Start over in the pinned interpreter and environment."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    os.execve(PYTHON, [PYTHON, "-B"] + ["-m", "dst.run"] + sys.argv[1:], clean_environ())


def load():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.ERROR)
    import numpy as np
    np.seterr(all="ignore")
    import highway_env
    import highway_env.envs  # noqa
    here = os.path.realpath(os.path.dirname(highway_env.__file__))
    if here != os.path.realpath(os.path.join(REPO, "highway_env")):
        raise RuntimeError("highway_env imported from %s instead of %s" % (here, REPO))
    # Modules the environments import on demand: load them before forking
    import highway_env.vehicle.behavior, highway_env.vehicle.uncertainty.prediction  # noqa
    import highway_env.vehicle.uncertainty.estimation, highway_env.interval  # noqa
    import pandas, gym, pygame  # noqa
