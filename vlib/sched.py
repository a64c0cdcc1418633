"""Runs N callables under one owned schedule: pre-emption at traced lines/opcodes of the code under test.

Exactly one thread runs at a time. A schedule is {"order": [...], "pre": [[step, thread], ...]}: the order gives who
runs next when a thread ends, `pre` forces a switch to `thread` when the global step counter reaches `step`; `own` has
[thread, step, to]: a switch when that thread has done that many steps of its own.
A thread that blocks on a lock held by a suspended thread is detected by lack of progress and another one is resumed,
so locks in the code under test never dead-lock the harness; this only influences which schedule is explored.
"""
import sys
import threading
import time

from . import boot

_mono = time.monotonic
# opcode events are enabled by the first settrace() after some frame asked for them: ask here, so that the first schedule of a process
# has the same steps as the later ones (and as its replay)
sys._getframe().f_trace_opcodes = True


class Sched:
    def __init__(self, fns, schedule, opcodes=(), prefix=None, max_wait=30.0, extra_files=()):
        self.fns = fns
        self.prefix = prefix or boot.DEEP_DIR
        self.opcodes = tuple(opcodes)
        self.extra = tuple(extra_files)
        self.n = len(fns)
        order = [i % self.n for i in (schedule.get("order") or range(self.n))]
        self.order = list(dict.fromkeys(order)) + [i for i in range(self.n) if i not in order]
        self.pre = sorted([(int(s), int(t) % self.n) for s, t in schedule.get("pre", [])])
        self.own = {(int(i) % self.n, int(s)): int(t) % self.n for i, s, t in schedule.get("own", [])}
        self.count = [0] * self.n
        self.go = [threading.Semaphore(0) for _ in fns]
        self.state = ["new"] * self.n  # new, running, paused, blocked, done
        self.mu = threading.Lock()
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.errors = [None] * self.n
        self.results = [None] * self.n
        self.done_evt = threading.Event()
        self.max_wait = max_wait
        self.blocked_seen = 0
        self.cv = threading.Condition(self.mu)

    def _tracer(self, idx):
        pre = self.prefix

        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self._step(idx)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(pre) or fn in self.extra:
                if self.opcodes and any(fn.endswith(o) for o in self.opcodes):
                    frame.f_trace_opcodes = True
                self._step(idx)
                return local
            return None

        return glob

    def _step(self, idx):
        wait = False
        with self.mu:
            self.steps += 1
            self.count[idx] += 1
            own = self.own.pop((idx, self.count[idx]), None)
            if self.cur != idx:
                # we were blocked in a lock while another thread was given the turn: wait for our turn
                self.state[idx] = "paused"
                wait = True
            elif self.pre and self.steps >= self.pre[0][0]:
                _, t = self.pre.pop(0)
                if t != idx and self.state[t] in ("paused", "new"):
                    self.state[idx] = "paused"
                    self._give(t)
                    self.switches += 1
                    wait = True
            elif own is not None and own != idx and self.state[own] in ("paused", "new"):
                self.state[idx] = "paused"
                self._give(own)
                self.switches += 1
                wait = True
        if wait:
            self.go[idx].acquire()

    def _give(self, t):
        self.cur = t
        self.state[t] = "running"
        self.go[t].release()

    def _next(self):
        for t in self.order:
            if self.state[t] in ("paused", "new"):
                return t
        return None

    def _body(self, idx):
        self.go[idx].acquire()
        sys.settrace(self._tracer(idx))
        try:
            self.results[idx] = self.fns[idx]()
        except BaseException as e:  # noqa: B902
            self.errors[idx] = e
        finally:
            sys.settrace(None)
            with self.mu:
                self.state[idx] = "done"
                self.steps += 1
                if self.cur == idx:
                    t = self._next()
                    if t is not None:
                        self._give(t)
                    else:
                        self.cur = None
                if all(s == "done" for s in self.state):
                    self.done_evt.set()

    def run(self):
        """Run everything; returns False when the threads did not all finish (dead-lock in the code under test)."""
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        with self.mu:
            self._give(self.order[0])
        last, last_t, start = -1, _mono(), _mono()
        while not self.done_evt.wait(0.004):
            with self.mu:
                now = _mono()
                if self.steps != last:
                    last, last_t = self.steps, now
                elif now - last_t > 0.025:
                    # no progress: the current thread is blocked on something; let another one run
                    t = self._next()
                    if t is not None:
                        if self.cur is not None:
                            self.state[self.cur] = "blocked"
                        self.blocked_seen += 1
                        self._give(t)
                        last_t = now
                    elif self.cur is not None and self.state[self.cur] == "done":
                        blocked = [i for i, s in enumerate(self.state) if s == "blocked"]
                        if blocked:
                            self.cur = blocked[0]
                            self.state[blocked[0]] = "running"
                        last_t = now
                    elif self.cur is None:
                        blocked = [i for i, s in enumerate(self.state) if s == "blocked"]
                        if blocked:
                            self.cur = blocked[0]
                            self.state[blocked[0]] = "running"
                        last_t = now
                if now - start > self.max_wait:
                    return False
        for t in ths:
            t.join(5)
        return True


def schedules(st, nthreads, max_step, max_pre=4):
    return st.fixed_dictionaries({
        "order": st.permutations(list(range(nthreads))),
        "pre": st.lists(st.tuples(st.integers(1, max_step), st.integers(0, nthreads - 1)).map(list),
                        max_size=max_pre),
    })


def spread(st, nthreads, gap, min_pre=1, max_pre=6):
    """Schedules whose switches are a generated number of steps apart (so that they do not bunch at the start)."""
    def absolute(d):
        at, pre = 0, []
        for delta, t in d["gaps"]:
            at += delta
            pre.append([at, t])
        return {"order": d["order"], "pre": pre}
    return st.fixed_dictionaries({
        "order": st.permutations(list(range(nthreads))),
        "gaps": st.lists(st.tuples(st.one_of(st.integers(1, 20), st.integers(1, gap), st.integers(1, gap)), st.integers(0, nthreads - 1)).map(list),
                         min_size=min_pre, max_size=max_pre)}).map(absolute)
