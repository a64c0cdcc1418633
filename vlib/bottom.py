"""Runs code in a fresh thread whose bottom frames hold no data of the harness (they show up in captured stacks)."""
import threading

from . import boot

FILE = boot.VERIF + "/vlib/driver"
_JOB = []
_GATE = []


def bottom():
    # (the data of the thread itself changes until start() has returned)
    _GATE.pop().acquire()
    exec(*_JOB.pop())


def compile_driver(src):
    return compile(src, FILE, "exec")


def start_in_thread(code, g):
    """Start a driver module in a new thread."""
    _JOB.append((code, g))
    gate = threading.Lock()
    gate.acquire()
    _GATE.append(gate)
    t = threading.Thread(target=bottom)
    t.start()
    gate.release()
    return t


def run_in_thread(code, g):
    """Execute a driver module in a new thread; what it does not catch itself is returned."""
    start_in_thread(code, g).join()
