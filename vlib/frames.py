"""Real frame objects of a chosen file, function, line and locals (for events the harness makes up)."""
import sys

_CODE = {}


def make_frame(filename, fn, line, names=("a", "b"), values=(1, "text"), g=None):
    """A frame of function `fn` of `filename` at `line`, with the given locals."""
    key = (filename, fn, line, tuple(names))
    if key not in _CODE:
        head = "def %s(%s):" % (fn, ", ".join(names))
        src = "\n" * (line - 2) + head + "\n return sys._getframe()\n" if line >= 2 else head + " return sys._getframe()\n"
        _CODE[key] = compile(src, filename, "exec")
    ns = dict(g or {"__name__": "app_module"})
    ns["sys"] = sys
    exec(_CODE[key], ns)
    frame = ns[fn](*values)
    assert frame.f_lineno == line
    return frame


class Tasks:
    """A task handler whose tasks are run by the harness, first accepted first started."""

    def __init__(self):
        import threading
        self.queue, self.futures = [], []
        self.lock = threading.Lock()

    def submit_task(self, task, *args):
        from concurrent.futures import Future
        f = Future()
        with self.lock:
            self.queue.append((f, task, args))
            self.futures.append(f)
        return f

    def run_one(self):
        with self.lock:
            if not self.queue:
                return False
            f, task, args = self.queue.pop(0)
        f.set_running_or_notify_cancel()
        try:
            f.set_result(task(*args))
        except BaseException as e:  # noqa: B902
            f.set_exception(e)
        return True

    def worker(self, budget):
        def work():
            for _ in range(budget):
                if not self.run_one():
                    break
        return work

    def drain(self):
        while self.run_one():
            pass

    def flush(self):
        self.drain()

    def reopen(self):
        pass
