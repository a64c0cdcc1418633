"""C09 Delivery runs off the application thread, exactly once, and flush really drains."""
import collections
import threading
import time

from hypothesis import strategies as st

from vlib import recplugin, sched, world
from vlib.core import HarnessError, InjectedBaseFault, InjectedFault, Part, agent_must_not_raise, check
from vlib.fasttime import fast_time
from vlib.service import FakeChannel, FakeGrpc
from vlib.world import wait_until

META = {"assumptions": [
    "a snapshot is accepted when push_snapshot returns; what is handed over while a flush is closing may be accepted (then the flush waits "
    "for it) or refused",
    "refusing is raising out of submit_task / push_snapshot (any exception)",
    "a flush from inside a task is not generated",
    "the conversion of a snapshot is observed by the reads of its content",
    "a task may take any time; quick runs use tasks of up to 20 minutes, on a clock that runs faster while flush waits",
]}


_ME = threading.local()
_COUNT = iter(range(1, 10 ** 9))


def me():
    """A number of this thread that is never used again (unlike thread idents)."""
    if not hasattr(_ME, "n"):
        _ME.n = next(_COUNT)
    return _ME.n


class Journal:
    """A total order of what happened."""

    def __init__(self):
        self.lock = threading.Lock()
        self.items = []

    def add(self, *what):
        with self.lock:
            self.items.append(what)
            return len(self.items)

    def at(self, *what):
        with self.lock:
            return next((i for i, w in enumerate(self.items) if w == what), None)


KINDS = ["ok", "ok", "ok", "send-error", "send-base", "send-rpc", "convert-none", "convert-raise", "convert-base", "slow", "queue"]


class Delivery:
    """The delivery of the agent, a recording channel and snapshots that know who reads them."""

    def __init__(self):
        from deep.push import PushService
        from deep.task import TaskHandler
        self.j = Journal()
        self.app = set()
        self.kind = {}
        self.read_by = {}
        self.sent = collections.Counter()
        self.sent_by = {}
        self.problems = []
        self.gate = threading.Event()
        self.gate.set()
        self.hold = False
        self.tasks = TaskHandler()
        self.push = PushService(FakeGrpc(self.handler), self.tasks)
        self.n = 0
        self.lock = threading.Lock()

    def handler(self, method, request, md):
        from deepproto.proto.tracepoint.v1 import tracepoint_pb2
        key = request.tracepoint.ID
        with self.lock:
            self.sent[key] += 1
            self.sent_by[key] = me()
        kind = self.kind.get(key)
        if kind == "slow":
            time.sleep(0.003)
        if kind == "queue" or self.hold:
            self.gate.wait(20)
        self.j.add("done", key)
        if kind == "send-error":
            raise InjectedFault("cannot send")
        if kind == "send-base":
            raise InjectedBaseFault("cannot send")
        if kind == "send-rpc":
            import grpc
            raise grpc.RpcError()
        return tracepoint_pb2.SnapshotResponse()

    def snapshot(self, kind):
        from deep.api.resource import Resource
        from deep.api.tracepoint import EventSnapshot
        from deep.api.tracepoint.tracepoint_config import TracePointConfig
        with self.lock:
            self.n += 1
            key = "s%d" % self.n
        self.kind[key] = kind
        d = self

        class Watched(EventSnapshot):
            @property
            def frames(self):
                d.read_by.setdefault(key, set()).add(me())
                if kind == "convert-raise":
                    d.j.add("done", key)
                    raise InjectedFault("cannot convert")
                if kind == "convert-base":
                    d.j.add("done", key)
                    raise InjectedBaseFault("cannot convert")
                return []

            @property
            def tracepoint(self):
                if kind == "convert-none":
                    d.read_by.setdefault(key, set()).add(me())
                    d.j.add("done", key)
                    return None
                return self._tracepoint
        return key, Watched(TracePointConfig(key, "prog.py", 1, {}, [], []), world.T0, Resource.get_empty(), [], {})

    def hand_over(self, kind):
        """Returns the key when it is accepted."""
        self.app.add(me())
        key, s = self.snapshot(kind)
        self.j.add("try", key)
        try:
            self.push.push_snapshot(s)
        except BaseException as e:  # noqa: B902
            self.j.add("refused", key)
            if isinstance(e, (InjectedFault, InjectedBaseFault)):
                self.problems.append("the failure to deliver %s is raised into the application" % kind)
            return None
        self.j.add("accepted", key)
        return key

    def submit(self, how):
        """A task of the agent that is not a snapshot (configuration updates are delivered this way)."""
        self.app.add(me())
        with self.lock:
            self.n += 1
            key = "t%d" % self.n
        self.kind[key] = how

        def task(k):
            with self.lock:
                self.sent[k] += 1
                self.sent_by[k] = me()
            if how == "slow":
                time.sleep(0.003)
            if how == "queue" or self.hold:
                self.gate.wait(20)
            self.j.add("done", k)
            if how == "raise":
                raise InjectedFault("task")
            if how == "base":
                raise InjectedBaseFault("task")
        self.j.add("try", key)
        try:
            f = self.tasks.submit_task(task, key)
        except BaseException:  # noqa: B902
            self.j.add("refused", key)
            return None
        check(f is not None, "submit_task returned nothing", sig="future")
        self.j.add("accepted", key)
        return key

    def flush(self, name):
        self.app.add(me())
        self.j.add("flush-start", name)
        try:
            self.tasks.flush()
        except BaseException as e:  # noqa: B902
            self.problems.append("flush raised %s: %s" % (type(e).__name__, e))
        self.j.add("flush-end", name)

    def judge(self, flushes, reopened=False):
        j = self.j
        check(not self.problems, "%s", self.problems[:2], sig="raised")
        keys = [w[1] for w in j.items if w[0] == "try"]
        accepted = {w[1] for w in j.items if w[0] == "accepted"}
        ok = wait_until(lambda: all(j.at("done", k) is not None for k in accepted), 15)
        check(ok, "accepted, but never processed: %s", [(k, self.kind[k]) for k in accepted if j.at("done", k) is None], sig="lost")
        for k in keys:
            kind = self.kind[k]
            if k in accepted:
                if not kind.startswith("convert"):
                    check(self.sent[k] == 1, "%s (%s) was sent %d times", k, kind, self.sent[k], sig="once")
                check(self.sent_by.get(k) not in self.app, "%s (%s) was sent on an application thread", k, kind, sig="thread")
                check(not self.read_by.get(k, set()) & self.app, "%s (%s) was converted on an application thread", k, kind, sig="thread")
            else:
                check(self.sent[k] == 0 and j.at("done", k) is None, "%s (%s) was refused, and processed", k, kind, sig="refused")
        for f in flushes:
            a, b = j.at("flush-start", f), j.at("flush-end", f)
            if b is None:
                raise HarnessError("flush has not ended")
            for k in accepted:
                if not reopened and j.at("try", k) < b:
                    # handed over before closing (then the flush waits for it) or after it (then it is refused): there is no third
                    check(j.at("done", k) < b, "flush returned before %s (%s) was processed, and it was not refused", k, self.kind[k], sig="drain")
                if j.at("accepted", k) < a:
                    check(j.at("done", k) < b, "flush returned before %s (%s), accepted earlier, was processed", k, self.kind[k], sig="drain")
        return accepted, keys


def run_history(case):
    d = Delivery()
    flushes, opened, closed_tries = [], True, 0
    threads = []
    try:
        for i, op in enumerate(case["ops"]):
            if op[0] in ("push", "task"):
                call = d.hand_over if op[0] == "push" else d.submit
                if op[1] == "queue":
                    d.gate.clear()
                if len(op) > 2 and op[2]:
                    box = []
                    t = threading.Thread(target=lambda: box.append(call(op[1])))
                    t.start()
                    t.join()
                    key = box[0]
                else:
                    key = call(op[1])
                if opened:
                    check(key is not None, "%s was refused, but nothing was closed", op, sig="refused-open")
                else:
                    closed_tries += 1
                    check(key is None, "%s was accepted after closing", op, sig="accepted-closed")
            elif op[0] == "burst":
                # more than the workers can take
                d.gate.clear()
                for k in range(op[1]):
                    key = (d.hand_over if k % 3 else d.submit)("queue" if k < 2 else "ok")
                    check((key is not None) == opened, "number %d of many was %s", k, "refused" if opened else "accepted after closing",
                          sig="refused-open" if opened else "accepted-closed")
            elif op[0] == "flush":
                name = "f%d" % i
                flushes.append(name)
                opened = False
                if not d.gate.is_set():
                    # somebody waits for the service; let the flush wait for it too
                    t = threading.Timer(0.004, d.gate.set)
                    t.start()
                    threads.append(t)
                d.flush(name)
            elif op[0] == "flushes":
                ts = []
                for k in range(op[1]):
                    name = "f%d-%d" % (i, k)
                    flushes.append(name)
                    ts.append(threading.Thread(target=d.flush, args=(name,)))
                opened = False
                for t in ts:
                    t.start()
                d.gate.set()
                for t in ts:
                    t.join()
            elif op[0] == "reopen":
                d.tasks.reopen()
                opened = True
        d.gate.set()
        accepted, keys = d.judge(flushes, ["reopen"] in case["ops"])
        return {"nontrivial": bool(accepted and flushes), "labels": sorted({d.kind[k] for k in accepted}) + (["closed"] if closed_tries else []),
                "observed": {"accepted": len(accepted), "refused": len(keys) - len(accepted), "flushes": len(flushes)}}
    finally:
        d.gate.set()
        for t in threads:
            t.join()
        d.tasks.flush()
        stop_pool(d.tasks)


def stop_pool(tasks):
    """Ends the idle worker threads of a handler that is not used any more (harness hygiene)."""
    pool = getattr(tasks, "_pool", None)
    if pool is not None and hasattr(pool, "shutdown"):
        pool.shutdown(wait=False)


TASKS = ["ok", "raise", "base", "slow", "queue"]


def histories():
    push = st.tuples(st.just("push"), st.sampled_from(KINDS), st.booleans()).map(list)
    task = st.tuples(st.just("task"), st.sampled_from(TASKS), st.booleans()).map(list)
    return st.fixed_dictionaries({"ops": st.lists(st.one_of(push, push, push, task, st.just(["flush"]), st.just(["flushes", 2]), st.just(["reopen"]),
                                                            st.sampled_from([["burst", 25], ["burst", 70], ["burst", 120]])),
                                                  min_size=3, max_size=16)})


def run_schedule(case):
    """Threads that hand over, threads that flush, under one owned schedule; the workers run freely or wait for the gate."""
    d = Delivery()
    if case["gated"]:
        d.gate.clear()
    d.hold = case.get("hold", False)
    try:
        def producer(ops):
            def work():
                for op in ops:
                    (d.hand_over if op[0] == "push" else d.submit)(op[1])
            return work

        fns = [producer(p) for p in case["producers"]] + [lambda k=k: d.flush("f%d" % k) for k in range(case["flushes"])] + [d.gate.set]
        s = sched.Sched(fns, case["sched"], opcodes=("deep/task/__init__.py", "push/push_service.py"))
        check(s.run(), "handing over and flushing does not end (dead-lock)", sig="dead-lock")
        for e in s.errors:
            if e is not None:
                check(False, "a thread failed: %s", world.fmt_exc(e), sig="raised")
        # everything is closed now
        late = d.hand_over("ok")
        check(late is None, "a snapshot was accepted after closing", sig="accepted-closed")
        # what was accepted after a flush has returned (there may be several flushes)
        ends = [d.j.at("flush-end", "f%d" % k) for k in range(case["flushes"])]
        for w in list(d.j.items):
            if w[0] == "try" and d.j.at(*w) > min(ends):
                check(d.j.at("accepted", w[1]) is None, "%s was accepted after a flush had closed", w[1], sig="accepted-closed")
        accepted, keys = d.judge(["f%d" % k for k in range(case["flushes"])])
        return {"nontrivial": bool(s.switches and accepted), "labels": (["refused"] if len(keys) - len(accepted) > 1 else []) + (["switched"] if s.switches else []),
                "observed": {"steps": s.steps, "switches": s.switches, "accepted": len(accepted), "refused": len(keys) - len(accepted)}}
    finally:
        d.gate.set()
        d.tasks.flush()
        stop_pool(d.tasks)


def schedules():
    op = st.one_of(st.tuples(st.just("push"), st.sampled_from(KINDS)), st.tuples(st.just("task"), st.sampled_from(TASKS))).map(list)
    return st.tuples(st.lists(st.lists(op, min_size=1, max_size=4), min_size=1, max_size=3), st.integers(1, 2)).flatmap(
        lambda pf: st.fixed_dictionaries({"producers": st.just(pf[0]), "flushes": st.just(pf[1]), "gated": st.booleans(), "hold": st.booleans(),
                                          "sched": sched.spread(st, len(pf[0]) + pf[1] + 1, 250, 1, 6)}))


def each_switch(tier):
    """One thread hands over, one flushes: the flush runs at each step of the other, and the other way round; and two threads that hand over."""
    for op in (["push", "ok"], ["task", "ok"], ["push", "send-error"]):
        for first in (0, 1):
            for step in range(1, 140 if tier == "quick" else 260):
                yield {"producers": [[op]], "flushes": 1, "gated": True, "hold": True,
                       "sched": {"order": [first, 1 - first, 2], "pre": [[step, 1 - first]]}}
    # two hand over, one at each step of the other: the flush waits for both (the second ends when the first has ended long ago)
    for a, b in ((["push", "ok"], ["push", "queue"]), (["task", "ok"], ["task", "queue"]), (["push", "send-error"], ["task", "queue"])):
        for step in range(1, 100 if tier == "quick" else 200):
            yield {"producers": [[a], [b]], "flushes": 1, "gated": True, "hold": False, "sched": {"order": [0, 1, 2, 3], "pre": [[step, 1]]}}


def run_slow(case):
    """A task that takes long: flush waits for it. Its clock runs fast, so that a limit of its wait ends in time."""
    d = Delivery()
    kind = {}
    try:
        real_sleep = time.sleep

        def work(sec, fails):
            real_sleep(sec)
            d.j.add("done", "long")
            if fails:
                raise InjectedFault("slow and failing")
        d.j.add("try", "long")
        d.tasks.submit_task(work, case["seconds"], case["fails"])
        d.j.add("accepted", "long")
        d.kind["long"] = "task"
        d.sent["long"] = 1
        for k in case["others"]:
            kind[d.hand_over(k)] = k
        with fast_time(case["fast"]):
            d.flush("f")
        check(d.j.at("done", "long") is not None, "flush returned before a task of %s seconds has ended", case["seconds"] * case["fast"], sig="drain")
        d.judge(["f"])
        return {"nontrivial": True, "observed": {"seconds": case["seconds"]}}
    finally:
        stop_pool(d.tasks)


# --- the whole agent -------------------------------------------------------------------------------------------------------

APP = '''def target(n):
    a = n
    return a


def work(n):
    for i in range(n):
        target(i)
'''
FILE = "/app/x/prog.py"


def run_agent(case):
    import deep
    from deepproto.proto.poll.v1 import poll_pb2
    from deepproto.proto.tracepoint.v1 import tracepoint_pb2
    ns = {"__name__": "app_module"}
    exec(compile(APP, FILE, "exec"), ns)
    lock = threading.Lock()
    got, by, app = [], set(), set()

    def handler(method, request, md):
        if method == "poll":
            return poll_pb2.PollResponse(response_type=0)
        with lock:
            got.append((request.ID, request.tracepoint.ID))
            by.add(me())
            n = len(got)
        if case["delay"]:
            time.sleep(case["delay"] / 1000)
        if case["fail"] and n % case["fail"] == 0:
            raise (InjectedFault if n % 2 else InjectedBaseFault)("cannot send")
        return tracepoint_pb2.SnapshotResponse()

    agent = deep.start({"SERVICE_URL": "127.0.0.1:1", "SERVICE_SECURE": "False", "POLL_TIMER": 1000, "LOGGING_CONF": None,
                        "PLUGINS": ["vlib.recplugin.RecordingLogger"], "PLUGIN_PYTHONPLUGIN": "False"})
    try:
        agent.grpc.channel = FakeChannel(handler)
        for i in range(case["tps"]):
            agent.register_tracepoint("prog.py", 2, {"fire_count": "-1", "fire_period": "0", "log_msg": "tp"})

        probes = []

        def active():
            del recplugin.LOGS[:]
            t = threading.Thread(target=ns["target"], args=(1,))
            t.start()
            t.join()
            probes.append(len(recplugin.LOGS))
            return len(recplugin.LOGS) == case["tps"]
        check(wait_until(active, 10), "the tracepoints do not act", sig="active")
        settled = sum(probes)
        check(wait_until(lambda: len(got) >= settled, 10), "%d of %d snapshots were sent", len(got), settled, sig="lost")
        del recplugin.LOGS[:]

        def application():
            with lock:
                app.add(me())
            ns["work"](case["hits"])
        threads = [threading.Thread(target=application) for _ in range(case["threads"])]
        for t in threads:
            t.start()
        if not case["during"]:
            for t in threads:
                t.join()
        with agent_must_not_raise("shutdown"):
            agent.shutdown()
        drained = len(got)
        for t in threads:
            t.join()
        logs = len(recplugin.LOGS)
        want = case["tps"] * case["hits"] * case["threads"]
        if not case["during"]:
            check(logs == want, "%d hits were processed, %d are due", logs, want, sig="hits")
            check(drained - settled == want, "shutdown returned with %d of %d snapshots sent", drained - settled, want, sig="drain")
        time.sleep(0.002)
        check(case["during"] or len(got) == drained, "a snapshot was sent after shutdown", sig="after")
        ids = [g[0] for g in got]
        check(len(ids) == len(set(ids)), "a snapshot was sent twice", sig="once")
        check(not app & by, "snapshots were sent on application threads", sig="thread")
        return {"nontrivial": drained > settled, "labels": ["during"] if case["during"] else [], "observed": {"sent": drained - settled, "hits": logs}}
    finally:
        agent.shutdown()


def agents():
    return st.fixed_dictionaries({"tps": st.integers(1, 3), "hits": st.integers(1, 12), "threads": st.integers(1, 4), "delay": st.sampled_from([0, 0, 1, 4]),
                                  "fail": st.sampled_from([0, 0, 2, 3]), "during": st.sampled_from([False, False, False, True])})


PARTS = [
    Part("history", run_history, histories, quick=1600, thorough=24000, shards=2, thorough_shards=6,
         rule="something was accepted and flushed"),
    Part("schedule", run_schedule, schedules, quick=900, thorough=14000, shards=3, thorough_shards=8, exhaustive_cases=each_switch,
         rule="threads were switched inside the agent and something was accepted"),
    Part("slow", run_slow, cases=[{"seconds": 6, "fast": 200, "fails": False, "others": ["ok", "send-error"]},
                                  {"seconds": 5, "fast": 200, "fails": True, "others": ["ok"]}, {"seconds": 11, "fast": 1, "fails": False, "others": ["ok"]}], shards=1,
         rule="always", exhaustive_cases=lambda tier: [{"seconds": 65, "fast": 200, "fails": False, "others": ["ok", "convert-raise"]}] if tier == "thorough" else []),
    Part("agent", run_agent, agents, quick=120, thorough=2000, shards=2, thorough_shards=8, case_timeout=90, rule="snapshots were sent by the shutdown or before"),
]
