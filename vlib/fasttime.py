"""A clock that runs faster, for waits of the agent that are limited: a limit of ten minutes ends after some seconds."""
import contextlib
import threading
import time


@contextlib.contextmanager
def fast_time(k):
    """While this is active, waits with a limit and sleeps are k times shorter, and clocks run k times as fast, in this process."""
    wait, join, sleep = threading.Condition.wait, threading.Thread.join, time.sleep
    clocks = {n: getattr(time, n) for n in ("monotonic", "perf_counter", "time", "monotonic_ns", "perf_counter_ns", "time_ns")}
    bound = threading._time
    start = {n: c() for n, c in clocks.items()}

    def scaled(n):
        def clock():
            return start[n] + (clocks[n]() - start[n]) * k
        return clock

    def limit(timeout):
        return timeout / k if timeout is not None and timeout > 0 else timeout

    threading.Condition.wait = lambda self, timeout=None: wait(self, limit(timeout))
    threading.Thread.join = lambda self, timeout=None: join(self, limit(timeout))
    time.sleep = lambda seconds: sleep(seconds / k)
    for n in clocks:
        setattr(time, n, scaled(n))
    threading._time = scaled("monotonic")
    try:
        yield
    finally:
        threading.Condition.wait, threading.Thread.join, time.sleep = wait, join, sleep
        for n, c in clocks.items():
            setattr(time, n, c)
        threading._time = bound
