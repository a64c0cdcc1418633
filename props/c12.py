"""C12 Installed tracepoints converge to the service's latest configuration."""
import collections
import threading
import time
import zlib

from hypothesis import strategies as st

from vlib import authlab, recplugin, sched, world
from vlib.core import HarnessError, InjectedFault, Part, agent_must_not_raise, check
from vlib.frames import Tasks, make_frame
from vlib.service import FakeGrpc, Service
from vlib.world import World, wait_until

META = {"assumptions": [
    "which tracepoints are installed is observed by what the agent does at events of every location of the universe",
    "the configuration the service sent most recently is the last UPDATE answer the agent received and could read; answers of an unknown type, answers that "
    "are not a PollResponse and errors are not configurations",
    "the agent polls from one thread at a time",
    "before activity settles, a poll may report the hash of any configuration received since it last settled (or of the one before); after it, only that of the "
    "configuration in force",
]}

FILE = "/app/x/prog.py"
PLACES = [("line", 2), ("line", 3), ("method", "run"), ("method", "stop")]


def tp_of(name, t):
    """A tracepoint whose log message is its identity: [place, version, id]."""
    place = PLACES[t[0] % len(PLACES)]
    args = {"log_msg": "%s@%s@v%s" % (name, t[0] % len(PLACES), t[1]), "snapshot": "no_collect", "fire_count": "-1", "fire_period": "0"}
    if place[0] == "method":
        args["method_name"] = place[1]
    return {"id": name, "path": "prog.py", "line": place[1] if place[0] == "line" else 1, "args": args}


def message(s):
    return "[deep] " + s["args"]["log_msg"]


def config_of(ts, bad=()):
    """The tracepoints of an answer, with some between them that cannot be interpreted."""
    specs, protos = [], []
    used = set()
    for i, t in enumerate(ts):
        name = "s%d" % (t[2] % 5)
        if name in used:
            continue
        used.add(name)
        s = tp_of(name, t)
        specs.append(s)
        protos.append(world.to_proto(s))
    for b in bad:
        p = world.to_proto(tp_of("bad%d" % b, [b, 0, 0]))
        if b % 2:
            p.args["stage"] = "no_such_stage"
        else:
            p.metrics.add(name="m", type=77)
            p.args["log_msg"] = ""
            p.args["stage"] = "unknown"
        protos.insert(b % (len(protos) + 1), p)
    return specs, protos


def response(kind, hash_, protos, raw=False):
    from deepproto.proto.poll.v1 import poll_pb2
    R = poll_pb2.PollResponse
    T = poll_pb2.ResponseType
    if kind == "update":
        # the clock of the service is its own, and need not go forward
        now = time.time_ns()
        ts = (now, now - 3600 * 10 ** 9, now + 3600 * 10 ** 9, 0, now + 1)[zlib.crc32(hash_.encode("utf-8")) % 5]
        return R(ts_nanos=ts, current_hash=hash_, response=protos, response_type=T.UPDATE)
    if kind == "same":
        return R(ts_nanos=1, current_hash=hash_, response_type=T.NO_CHANGE)
    if kind == "same-with-config":
        return R(ts_nanos=1, current_hash=hash_, response=protos, response_type=T.NO_CHANGE)
    if kind == "unknown":
        return R(ts_nanos=1, current_hash=hash_, response=protos, response_type=7)
    if kind == "garbage":
        if raw:
            return b"\xff\xff\xffnot a message"
        raise ValueError("cannot read the answer")
    if kind == "base-error" and not raw:
        raise GeneratorExit("the poll fails")
    raise InjectedFault("the poll fails")


KINDS = ["update", "update", "update", "update", "same", "same-with-config", "unknown", "garbage", "error", "base-error"]


def acted(handler, rec):
    """What acts at every location."""
    out = []
    for kind, at in PLACES:
        mark = rec.mark()
        if kind == "line":
            handler.trace_call(make_frame(FILE, "other", at), "line", None)
        else:
            handler.trace_call(make_frame(FILE, at, 1), "call", None)
        out += [i["msg"] for i in rec.since(mark) if i["kind"] == "log"]
    # elsewhere nothing acts
    mark = rec.mark()
    handler.trace_call(make_frame(FILE, "other", 9), "line", None)
    check(not rec.since(mark), "an action at a location without tracepoint: %s", rec.since(mark), sig="elsewhere")
    return collections.Counter(out)


class InMemory:
    """Poll, configuration and trigger handler with tasks that the harness runs."""

    def __init__(self):
        from deep.api.deep import Deep
        from deep.poll import LongPoll
        self.w = World()
        self.tasks = Tasks()
        self.deep = Deep(self.w.config)
        self.w.config.set_task_handler(self.tasks)
        self.poll = LongPoll(self.w.config, FakeGrpc(self.answer))
        self.next = None
        self.specs = []            # of the last good answer
        self.hash = ""
        self.allowed = {""}        # hashes that a poll may report
        self.code = {}
        self.reported = []
        self.n = 0

    def answer(self, method, request, metadata):
        if method != "poll":
            raise HarnessError("unexpected call %s" % method)
        self.reported.append(request.current_hash)
        check(request.current_hash in self.allowed, "a poll reports hash %r; the configurations received have %s", request.current_hash, sorted(self.allowed),
              sig="hash")
        kind, hash_, protos = self.next
        return response(kind, hash_, protos)

    def do_poll(self, op, contained=False):
        kind, ts, h, bad = op
        self.n += 1
        specs, protos = config_of(ts, bad)
        hash_ = {"new": "hash-%d" % self.n, "old": self.hash, "empty": ""}[h]
        self.next = (kind, hash_, protos)
        try:
            self.poll.poll()
        except AssertionError:
            raise
        except BaseException as e:  # noqa: B902
            check(kind in ("garbage", "error", "base-error"), "reading a good answer failed: %s", world.fmt_exc(e), sig="poll")
        if kind == "update":
            self.specs, self.hash = specs, hash_
            self.allowed.add(hash_)

    def register(self, t, n):
        s = tp_of("code%d" % n, t)
        h = self.deep.register_tracepoint(s["path"], s["line"], s["args"])
        self.code[n] = (h, s)

    def unregister(self, n):
        if self.code:
            k = sorted(self.code)[n % len(self.code)]
            h, _ = self.code.pop(k)
            h.unregister()

    def settled(self):
        self.tasks.drain()
        exp = collections.Counter([message(s) for s in self.specs] + [message(s) for _, s in self.code.values()])
        got = acted(self.w.handler, self.w.rec)
        check(got == exp, "settled, but missing %s and still installed %s", dict(exp - got), dict(got - exp), sig="installed")
        self.allowed = {self.hash}
        return sum(exp.values())

    def close(self):
        self.w.close()


def run_history(case):
    m = InMemory()
    try:
        updates = fails = n = 0
        for op in case["ops"]:
            k = op[0]
            if k == "poll":
                m.do_poll(op[1:])
                updates += op[1] == "update"
                fails += op[1] not in ("update", "same")
            elif k == "reg":
                n += 1
                m.register(op[1], n)
            elif k == "unreg":
                m.unregister(op[1])
            elif k == "work":
                for _ in range(op[1]):
                    m.tasks.run_one()
            elif k == "settle":
                m.settled()
        total = m.settled()
        return {"nontrivial": updates >= 2 and (fails or n), "labels": (["fails"] if fails else []) + (["code"] if n else []) + (["installed"] if total else []),
                "observed": {"installed": total, "polls": m.n}}
    finally:
        m.close()


def ops():
    tp = st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, 4)).map(list)
    poll = st.tuples(st.just("poll"), st.sampled_from(KINDS), st.lists(tp, max_size=4), st.sampled_from(["new", "new", "new", "old", "empty"]),
                     st.lists(st.integers(0, 3), max_size=2)).map(list)
    return poll, tp


def histories():
    poll, tp = ops()
    return st.fixed_dictionaries({"ops": st.lists(st.one_of(
        poll, poll, poll, st.tuples(st.just("reg"), tp).map(list), st.tuples(st.just("unreg"), st.integers(0, 9)).map(list),
        st.tuples(st.just("work"), st.integers(1, 3)).map(list), st.just(["settle"])), min_size=3, max_size=20)})


def run_schedule(case):
    """Polls, registrations and the background workers under one owned schedule."""
    m = InMemory()
    try:
        box = {}
        counter = iter(range(1, 1000))

        def poller():
            for op in case["polls"]:
                m.do_poll(op[1:])

        def app(name, todo):
            def work():
                mine = []
                for op in todo:
                    if op[0] == "reg":
                        s = tp_of("%s%d" % (name, next(counter)), op[1])
                        mine.append((m.deep.register_tracepoint(s["path"], s["line"], s["args"]), s))
                    elif mine:
                        h, s = mine.pop(op[1] % len(mine))
                        h.unregister()
                box[name] = mine
            return work

        fns = [poller, app("A", case["a"]), app("B", case["b"]), m.tasks.worker(case["budget"]), m.tasks.worker(case["budget"])]
        codes = ("config/tracepoint_config.py", "poll/poll.py") if case["fine"] else ()
        s = sched.Sched(fns, case["sched"], opcodes=codes)
        check(s.run(), "polling and registering does not end (dead-lock)", sig="dead-lock")
        for e in s.errors:
            if isinstance(e, AssertionError):
                raise e
            check(e is None, "a thread failed: %s", e is not None and world.fmt_exc(e), sig="raised")
        left = len(m.tasks.queue)
        r = sched.Sched([m.tasks.worker(99), m.tasks.worker(99)], case["rest"], opcodes=codes + ("processor/trigger_handler.py",))
        check(r.run(), "installing does not end (dead-lock)", sig="dead-lock")
        i = 0
        for mine in box.values():
            for h, spec in mine:
                m.code["x%d" % i] = (h, spec)
                i += 1
        total = m.settled()
        m.do_poll(["same", [], "old", []])
        m.settled()
        return {"nontrivial": s.switches + r.switches > 0 and len(case["polls"]) + i > 1, "labels": (["switched"] if s.switches else [])
                + (["late"] if left > 1 else []), "observed": {"installed": total, "switches": s.switches + r.switches, "steps": s.steps}}
    finally:
        m.close()


def schedules():
    poll, tp = ops()
    op = st.one_of(st.tuples(st.just("reg"), tp), st.tuples(st.just("reg"), tp), st.tuples(st.just("unreg"), st.integers(0, 3))).map(list)
    return st.fixed_dictionaries({
        "polls": st.lists(poll, min_size=1, max_size=4), "a": st.lists(op, max_size=3), "b": st.lists(op, max_size=2), "budget": st.integers(1, 5),
        "fine": st.booleans(), "sched": sched.spread(st, 5, 400, 1, 7), "rest": sched.spread(st, 2, 300, 1, 4)})


def each_switch(tier):
    """One switch, at each step: polls, registrations and workers (0: poller, 1: the application, 3 and 4: workers)."""
    up = lambda h, *names: ["poll", "update", [[i, h, n] for i, n in enumerate(names)], "new", []]  # noqa: E731
    fine = tier == "thorough"
    variants = [{"polls": [up(0, 0)], "a": [["reg", [1, 0, 0]]]}, {"polls": [up(0, 0), up(1, 0, 1)], "a": []},
                {"polls": [up(0, 0)], "a": [["reg", [0, 0, 0]], ["unreg", 0]]}]
    rest = {"order": [0, 1], "pre": []}
    for n, v in enumerate(variants):
        for order in ([0, 1, 3, 4, 2], [1, 0, 3, 4, 2]):
            for to in (0, 1, 3, 4):
                for step in range(1, 1200 if fine else 170, 1 if fine else 2):
                    yield {**v, "b": [], "budget": 3, "fine": fine, "sched": {"order": order, "pre": [[step, to]]}, "rest": rest}
        # the workers begin when all is done
        for step in range(1, 900 if fine else 200, 1 if fine else 2):
            yield {**v, "b": [], "budget": 0, "fine": fine, "sched": {"order": [0, 1, 2, 3, 4], "pre": []}, "rest": {"order": [0, 1], "pre": [[step, 1]]}}


# --- the whole agent against a service on the loopback interface -------------------------------------------------------

APP = '''def other():
    a = 1
    b = 2


def run():
    return 1


def stop():
    return 2


def visit():
    other()
    run()
    stop()
'''
_APP = {"__name__": "app_module"}
exec(compile(APP, FILE, "exec"), _APP)
_SERVICE = []


def visit():
    """What acts when an application thread passes every location."""
    del recplugin.LOGS[:]
    t = threading.Thread(target=_APP["visit"])
    t.start()
    t.join()
    return collections.Counter(m for m, _ in recplugin.LOGS)


class Script:
    """The service: scripted answers, then 'no change'."""

    def __init__(self):
        self.cv = threading.Condition()
        self.todo, self.specs, self.hash, self.allowed = [], [], "", {""}
        self.problems, self.polls, self.idle = [], 0, 0

    def add(self, answers):
        with self.cv:
            self.todo += answers
            self.idle = 0

    def on_poll(self, request, n):
        with self.cv:
            self.polls += 1
            if request.current_hash not in self.allowed:
                self.problems.append("a poll reports hash %r; the configurations received have %s" % (request.current_hash, sorted(self.allowed)))
            self.cv.notify_all()
            if not self.todo:
                self.idle += 1
                if self.idle > 1 and request.current_hash != self.hash:
                    self.problems.append("settled, but a poll reports hash %r instead of %r" % (request.current_hash, self.hash))
                return response("same", request.current_hash, [])
            kind, ts, h, bad = self.todo.pop(0)
            self.idle = 0
            specs, protos = config_of(ts, bad)
            hash_ = {"new": "hash-%d" % self.polls, "old": self.hash, "empty": ""}[h]
            if kind == "update":
                self.specs, self.hash = specs, hash_
                self.allowed.add(hash_)
            return response(kind, hash_, protos, raw=True)

    def settle(self, timeout=15):
        with self.cv:
            self.idle = 0
            return self.cv.wait_for(lambda: not self.todo and self.idle >= 2, timeout)


def run_agent(case):
    import deep
    from deep.api.deep import Deep  # noqa: F401
    script = Script()
    svc = Service(on_poll=script.on_poll)
    agent, started = None, False
    # the first polls may fail before they are sent, as there is no metadata for them
    fails = case.get("auth", [])
    authlab.reset([["raise", k] for k in fails] + [["give", [["k", "v"]]]])
    code, n = {}, 0
    try:
        script.add(case["first"])
        agent = deep.start({"SERVICE_URL": svc.url, "SERVICE_SECURE": "False", "POLL_TIMER": 0.02, "PLUGINS": ["vlib.recplugin.RecordingLogger"],
                            "LOGGING_CONF": None, "PLUGIN_PYTHONPLUGIN": "False",
                            **({"SERVICE_AUTH_PROVIDER": "vlib.authlab.Scripted"} if fails else {})})
        started = True
        settles = restarts = 0

        def settle():
            check(script.settle(), "the agent does not poll any more (%d polls)", script.polls, sig="polling")
            exp = collections.Counter([message(s) for s in script.specs] + [message(s) for _, s in code.values()])
            got = collections.Counter()

            def same():
                got.clear()
                got.update(visit())
                return got == exp
            ok = wait_until(same, 5)
            check(ok, "settled, but missing %s and still installed %s", dict(exp - got), dict(got - exp), sig="installed")
            check(script.settle(), "the agent does not poll any more (%d polls)", script.polls, sig="polling")
            check(same(), "was settled, but now missing %s and installed %s", dict(exp - got), dict(got - exp), sig="installed")
            with script.cv:
                check(not script.problems, "%s", script.problems[:2], sig="hash")
                script.allowed = {script.hash}

        for op in case["ops"]:
            if op[0] == "answers" and started:
                script.add(op[1])
            elif op[0] == "reg":
                n += 1
                s = tp_of("code%d" % n, op[1])
                with agent_must_not_raise("register_tracepoint"):
                    code[n] = (agent.register_tracepoint(s["path"], s["line"], s["args"]), s)
            elif op[0] == "unreg" and code:
                k = sorted(code)[op[1] % len(code)]
                h, _ = code.pop(k)
                with agent_must_not_raise("unregister"):
                    h.unregister()
            elif op[0] == "settle" and started:
                settle()
                settles += 1
            elif op[0] == "restart":
                if started:
                    check(script.settle(), "the agent does not poll any more", sig="polling")
                    with agent_must_not_raise("shutdown"):
                        agent.shutdown()
                    started = False
                    check(not visit(), "acting after shutdown", sig="after-shutdown")
                else:
                    with agent_must_not_raise("start"):
                        agent.start()
                    started = True
                    restarts += 1
        if not started:
            agent.start()
            started = True
            restarts += 1
        settle()
        return {"nontrivial": bool(script.specs or code), "labels": (["restart"] if restarts else []) + (["code"] if code else []),
                "observed": {"polls": script.polls, "installed": len(script.specs) + len(code)}}
    finally:
        if agent is not None:
            agent.shutdown()
        svc.close()


def agents():
    tp = st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, 4)).map(list)
    answer = st.tuples(st.sampled_from(KINDS), st.lists(tp, max_size=4), st.sampled_from(["new", "new", "new", "old", "empty"]),
                       st.lists(st.integers(0, 3), max_size=2)).map(list)
    op = st.one_of(st.tuples(st.just("answers"), st.lists(answer, min_size=1, max_size=4)), st.tuples(st.just("reg"), tp),
                   st.tuples(st.just("unreg"), st.integers(0, 5)), st.just(("settle",)), st.just(("restart",))).map(list)
    return st.fixed_dictionaries({"first": st.lists(answer, max_size=2), "ops": st.lists(op, min_size=4, max_size=9),
                                  "auth": st.one_of(st.just([]), st.lists(st.sampled_from(["base", "error", "key"]), min_size=1, max_size=4))})


PARTS = [
    Part("history", run_history, histories, quick=4000, thorough=50000, shards=2, thorough_shards=8,
         rule="at least two updates and a registration or an answer that is no configuration"),
    Part("schedule", run_schedule, schedules, exhaustive_cases=each_switch, quick=1800, thorough=30000, shards=4, thorough_shards=8,
         rule="threads were switched inside the agent"),
    Part("agent", run_agent, agents, quick=270, thorough=2500, shards=3, thorough_shards=8, case_timeout=90,
         rule="some tracepoint is installed at the end"),
]
