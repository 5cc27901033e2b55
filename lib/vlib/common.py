import os, sys, time
VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = min(8, os.cpu_count() or 1)
T0 = time.time()


class ToolError(Exception):
    """Something other than the code under test went wrong: exit 2."""


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)
