"""Paths, the implementation under test, and constants of the JSON encoding."""
import contextlib
import io
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"   # never trust a stale .pyc
if REPO not in sys.path:
    sys.path.insert(0, REPO)

INF = 10**9
NONE = -999999999


class Skip(Exception):
    """The input lies outside what the specification can express."""


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def num(x):
    """an integer, or INF / -INF"""
    if x == float("inf"):
        return INF
    if x == float("-inf"):
        return -INF
    r = int(round(x))
    if abs(r - x) > 1e-9:
        raise Skip(f"not an integer: {x}")
    return r


def scaled(x, k):
    if x in (float("inf"), float("-inf")):
        return num(x)
    r = int(round(x * k))
    if abs(r - x * k) > 1e-6:
        raise Skip(f"not a multiple of 1/{k}: {x}")
    return r
