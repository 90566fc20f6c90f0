"""Interpreter setup: the OpShin environment's Python, with the z3 package of
the verification venv appended *after* it, and /repo first so that the code
checked is always /repo's current working tree."""
import sys, os

REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10**6)
    if VT not in sys.path:
        sys.path.append(VT)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings, logging

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import opshin

    f = os.path.realpath(opshin.__file__)
    assert f.startswith(os.path.realpath(REPO) + "/"), f"wrong opshin: {f}"


setup()
