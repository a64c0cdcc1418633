"""Process set-up that has to happen before `deep` is imported.

- selects the tree under test (VERIF_REPO, default /repo) and makes sure `deep` really comes from it
- makes hypothesis importable from the tooling venv without shadowing anything the code under test imports
- installs the virtual clock hook (time.time / time.time_ns) so that a case never depends on wall-clock time
"""
import glob
import logging
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src")
DEEP_DIR = os.path.join(SRC, "deep") + os.sep

sys.dont_write_bytecode = True

_real_time = time.time
_real_time_ns = time.time_ns


class _ClockHook:
    """Indirection that lets a case own the wall clock; None means the real clock."""

    def __init__(self):
        self.ns = None  # callable returning ns

    def time_ns(self):
        c = self.ns
        return _real_time_ns() if c is None else c()

    def time(self):
        c = self.ns
        return _real_time() if c is None else c() / 1e9


CLOCK = _ClockHook()


def _time_ns():
    return CLOCK.time_ns()


def _time():
    return CLOCK.time()


def install_clock():
    time.time_ns = _time_ns
    time.time = _time


def setup(import_deep=True, clock=True):
    for k in [k for k in os.environ if k.startswith("DEEP_")]:
        del os.environ[k]
    sys.path.insert(0, SRC)
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(os.path.join(tools, "hypothesis")):
            sys.path.append(tools)
        else:
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                sys.path.extend(glob.glob("/opt/veriftools/wheels/" + pat)[:1])
    import hypothesis  # noqa: F401
    if clock:
        install_clock()
    logging.getLogger("deep").addHandler(logging.NullHandler())
    logging.getLogger("deep").propagate = False
    logging.getLogger("deep").setLevel(logging.CRITICAL + 1)
    logging.getLogger().addHandler(logging.NullHandler())
    logging.raiseExceptions = False
    if import_deep:
        import deep
        if not os.path.abspath(deep.__file__).startswith(DEEP_DIR):
            raise RuntimeError("deep was imported from %s, not from %s" % (deep.__file__, DEEP_DIR))
