"""C13 Registering a tracepoint in code returns a handle that removes exactly it."""
NO_PRELOAD = True
import collections
import gc
import threading

from hypothesis import strategies as st

from vlib import agentlab, recplugin, sched, world
from vlib.core import Part, agent_must_not_raise, check
from vlib.frames import Tasks, make_frame
from vlib.model import Tracepoint
from vlib.world import T0, World

META = {"assumptions": [
    "which tracepoints are active is observed by what the agent does at an event of their location",
    "a registration is a new tracepoint, with its own limits, however similar it is to another one",
    "the list and dictionary objects given belong to the caller: what is done to them later does not change the tracepoint",
    "unregistering a handle that is no longer installed may log, but does not raise",
]}

FILE = "/app/x/prog.py"
PLACES = [("line", 2), ("line", 3), ("method", "run"), ("method", "stop")]
VALUES = (3, "text")


def event(place):
    kind, at = place
    if kind == "line":
        return make_frame(FILE, "other", at, values=VALUES), "line"
    return make_frame(FILE, at, 1, values=VALUES), "call"


def args_of(t, place):
    a = dict(t["args"])
    if place[0] == "method":
        a["method_name"] = place[1]
    return a


def spec_of(t, tag):
    place = PLACES[t["place"] % len(PLACES)]
    s = {"id": tag, "path": "prog.py", "line": place[1] if place[0] == "line" else 1, "args": args_of(t, place), "watches": list(t.get("watches", []))}
    if t.get("metrics"):
        s["metrics"] = [dict(m) for m in t["metrics"]]
    return s


def outputs(tp, ts, frame):
    """What an active tracepoint does at its event; counts against its limits."""
    s = tp.spec
    out = []
    for act in tp.actions:
        if not act.allowed(ts) or not tp.condition_holds(frame):
            continue
        act.fire(ts)
        if act.kind == "snap":
            out.append(("snap", s["path"], s["line"], tuple(sorted(s["args"].items())), tuple(s["watches"])))
        if act.kind == "log" or act.kind == "snap" and tp.log is not None:
            out.append(("log", "[deep] " + tp.log.replace("{a}", "3")))
        if act.kind == "metric":
            for m in s["metrics"]:
                out.append(("metric", m["name"], m["type"].lower(), m.get("ns") or "deep", tuple(sorted((lb["key"], str(lb["static"])) for lb in m["labels"])),
                            3.0 if m.get("expr") else 1.0))
        if act.kind == "span":
            out.append(("span",))
    return out


def seen(items):
    from deep.push import convert_snapshot
    out, ids = [], []
    for i in items:
        if i["kind"] == "snap":
            p = convert_snapshot(i["snapshot"])
            t = p.tracepoint
            out.append(("snap", t.path, t.line_number, tuple(sorted(dict(t.args).items())), tuple(t.watches)))
            ids.append(t.ID)
            exprs = [r.expression for r in p.watches if r.source == 0]
            check(exprs == list(t.watches), "the snapshot has watches %s, the tracepoint %s", exprs, list(t.watches), sig="watches")
        elif i["kind"] == "log":
            out.append(("log", i["msg"]))
        elif i["kind"] == "metric":
            out.append(("metric", i["name"], i["op"], i["namespace"], tuple(sorted((k, str(v)) for k, v in i["labels"].items())), float(i["value"])))
        elif i["kind"] == "open":
            out.append(("span",))
    check(len(ids) == len(set(ids)), "two tracepoints share the id: %s", ids, sig="ids")
    return out


class Shared:
    """The agent, the handles and the model of what is installed."""

    def __init__(self, tasks=None):
        from deep.api.deep import Deep
        self.w = World()
        self.deep = Deep(self.w.config)
        self.tasks = tasks or self.w.tasks
        self.w.config.set_task_handler(self.tasks)
        self.handles, self.models, self.live = [], [], {}
        self.service = []
        self.n = 0

    def register(self, t, how="keywords"):
        self.n += 1
        s = spec_of(t, "code%d" % self.n)
        args, watches, metrics = dict(s["args"]), list(s["watches"]), world.to_definitions(s)
        with agent_must_not_raise("register_tracepoint"):
            if how == "short" and not watches and not metrics:
                h = self.deep.register_tracepoint(s["path"], s["line"], args)
            elif how == "positional":
                h = self.deep.register_tracepoint(s["path"], s["line"], args, watches, metrics)
            else:
                h = self.deep.register_tracepoint(s["path"], s["line"], args=args, watches=watches, metrics=metrics)
        check(h is not None and hasattr(h, "unregister"), "register_tracepoint returned %r", h, sig="handle")
        # these are ours
        args.clear()
        args["condition"] = "False"
        watches.append("later")
        del metrics[:]
        self.handles.append(h)
        self.models.append(Tracepoint(s))
        self.live[len(self.handles) - 1] = True
        return len(self.handles) - 1

    def unregister(self, i):
        if not self.handles:
            return
        i %= len(self.handles)
        with agent_must_not_raise("unregister"):
            self.handles[i].unregister()
        self.live[i] = False

    def update(self, ts):
        from deep.grpc import convert_response
        specs = [spec_of(t, "svc-%d-%d" % (self.n, k)) for k, t in enumerate(ts)]
        self.n += 1
        self.w.config.tracepoints.update_new_config(self.n, "h%d" % self.n, convert_response([world.to_proto(s) for s in specs]))
        self.service = [Tracepoint(s) for s in specs]

    def hit(self, place):
        frame, ev = event(place)
        self.w.now += 200_000_000
        exp = collections.Counter()
        for tp in self.service + [m for i, m in enumerate(self.models) if self.live[i]]:
            if tp.at(frame, ev):
                exp.update(outputs(tp, self.w.now, frame))
        mark = self.w.rec.mark()
        self.w.handler.trace_call(frame, ev, None)
        items = self.w.rec.since(mark)
        if True in [i["kind"] == "open" for i in items]:
            # let the spans of this frame end
            self.w.handler.trace_call(frame, "return", None)
        got = collections.Counter(seen(items))
        check(got == exp, "at %s: missing %s, unexpected %s", place, dict(exp - got), dict(got - exp), sig="active")
        return sum(exp.values())

    def close(self):
        self.w.close()


def run_history(case):
    sh = Shared()
    try:
        acted = 0
        removed_twice = 0
        for op in case["ops"]:
            k = op[0]
            if k == "reg":
                sh.register(op[1], op[2])
            elif k == "unreg":
                if sh.handles and not sh.live[op[1] % len(sh.handles)]:
                    removed_twice += 1
                sh.unregister(op[1])
            elif k == "service":
                sh.update(op[1])
            elif k == "nochange":
                sh.w.config.tracepoints.update_no_change(sh.n)
            elif k == "forget" and sh.handles:
                # the application does not keep its handle
                sh.handles[op[1] % len(sh.handles)] = _Forgotten()
                gc.collect() if op[1] % 7 == 0 else None
            elif k == "hit":
                acted += sh.hit(PLACES[op[1] % len(PLACES)])
        for p in PLACES:
            acted += sh.hit(p)
        gone = sum(not v for v in sh.live.values())
        return {"nontrivial": bool(acted and gone), "labels": (["removed"] if gone else []) + (["twice"] if removed_twice else [])
                + (["service"] if sh.service else []), "observed": {"acted": acted, "registered": len(sh.handles), "removed": gone}}
    finally:
        sh.close()


class _Forgotten:
    def unregister(self):
        pass


def run_forget_safe(case):
    # unregistering a forgotten handle is not possible: those operations are dropped
    ops, gone, n = [], set(), 0
    for op in case["ops"]:
        if op[0] == "reg":
            n += 1
        if op[0] == "forget" and n:
            gone.add(op[1] % n)
        if op[0] == "unreg" and n and op[1] % n in gone:
            continue
        ops.append(op)
    return run_history({"ops": ops})


def tp_spec(limits=True):
    metric = st.fixed_dictionaries({"name": st.sampled_from(["m1", "m2"]), "type": st.sampled_from(["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]),
                                    "labels": st.sampled_from([[], [{"key": "k", "static": "s"}], [{"key": "k", "static": 3}]])},
                                   optional={"expr": st.just("a"), "ns": st.sampled_from(["ns1", "ns2"])})
    opt = {"log_msg": st.sampled_from(["one", "two {a}"]), "snapshot": st.sampled_from(["collect", "no_collect"]), "span": st.just("line"),
           "condition": st.sampled_from(["a == 3", "a > 1", "True", "a == 4"]), "frame_type": st.sampled_from(["all_frame", "no_frame"])}
    if limits:
        opt["fire_count"] = st.sampled_from(["-1", "-1", "1", "2"])
        opt["fire_period"] = st.sampled_from(["0", "0", "300"])
    args = st.fixed_dictionaries({}, optional=opt)
    if not limits:
        args = args.map(lambda a: dict(a, fire_count="-1", fire_period="0"))
    return st.fixed_dictionaries({"place": st.sampled_from([0, 0, 0, 1, 2, 2, 3]), "args": args},
                                 optional={"watches": st.lists(st.sampled_from(["a", "b", "nope"]), max_size=2), "metrics": st.lists(metric, min_size=1, max_size=2)})


def histories():
    # few distinct tracepoints, so that registrations often agree in everything
    def ops(pool):
        tp = st.sampled_from(pool)
        return st.lists(st.one_of(
            st.tuples(st.just("reg"), tp, st.sampled_from(["keywords", "positional", "short"])),
            st.tuples(st.just("reg"), tp, st.sampled_from(["keywords", "positional", "short"])),
            st.tuples(st.just("unreg"), st.integers(0, 20)), st.tuples(st.just("unreg"), st.integers(0, 20)),
            st.tuples(st.just("service"), st.lists(tp, max_size=3)), st.tuples(st.just("nochange")), st.tuples(st.just("forget"), st.integers(0, 20)),
            st.tuples(st.just("hit"), st.integers(0, 3)), st.tuples(st.just("hit"), st.integers(0, 3))).map(list), min_size=4, max_size=24)
    return st.lists(tp_spec(), min_size=1, max_size=4).flatmap(lambda pool: st.fixed_dictionaries({"ops": ops(pool)}))


def run_schedule(case):
    """Threads that register and unregister, a service that answers, and two background workers under one owned schedule."""
    tasks = Tasks()
    sh = Shared(tasks)
    try:
        for t in case["first"]:
            sh.register(t)
        tasks.drain()
        pool = case["pool"]
        results = {}

        def app(name, ops):
            mine = []

            def work():
                for op in ops:
                    if op[0] == "reg":
                        s = spec_of(pool[op[1] % len(pool)], "%s-%d" % (name, len(mine)))
                        h = sh.deep.register_tracepoint(s["path"], s["line"], s["args"], s["watches"], world.to_definitions(s))
                        mine.append([h, s, True])
                    elif op[0] == "unreg" and mine:
                        e = mine[op[1] % len(mine)]
                        e[0].unregister()
                        e[2] = False
                    elif op[0] == "first" and sh.handles:
                        # several threads may unregister the same handle
                        i = op[1] % len(sh.handles)
                        sh.handles[i].unregister()
                        sh.live[i] = False
                results[name] = mine
            return work

        def service():
            for ts in case["service"]:
                sh.update([pool[i % len(pool)] for i in ts])

        fns = [app("A", case["a"]), app("B", case["b"]), service, tasks.worker(case["budget"]), tasks.worker(case["budget"])]
        s = sched.Sched(fns, case["sched"], opcodes=("config/tracepoint_config.py",))
        check(s.run(), "registering, unregistering and updating does not end (dead-lock)", sig="dead-lock")
        for e in s.errors:
            if e is not None:
                check(False, "a thread failed: %s", world.fmt_exc(e), sig="raised")
        rest = sched.Sched([tasks.worker(99), tasks.worker(99)], case["rest"], opcodes=("config/tracepoint_config.py", "processor/trigger_handler.py"))
        check(rest.run(), "updating does not end (dead-lock)", sig="dead-lock")
        tasks.drain()
        for mine in results.values():
            for h, spec, live in mine:
                sh.handles.append(h)
                sh.models.append(Tracepoint(spec))
                sh.live[len(sh.handles) - 1] = live
        acted = sum(sh.hit(p) for p in PLACES)
        # and all of them can still be removed
        for i in range(len(sh.handles)):
            sh.unregister(i)
        tasks.drain()
        acted += sum(sh.hit(p) for p in PLACES)
        return {"nontrivial": acted > 0 and s.switches + rest.switches > 0, "labels": ["switched"] if s.switches else [],
                "observed": {"steps": s.steps, "rest_steps": rest.steps, "switches": s.switches + rest.switches, "acted": acted}}
    finally:
        sh.close()


def schedules():
    op = st.one_of(st.tuples(st.just("reg"), st.integers(0, 3)), st.tuples(st.just("reg"), st.integers(0, 3)),
                   st.tuples(st.just("unreg"), st.integers(0, 3)), st.tuples(st.just("first"), st.integers(0, 3))).map(list)
    return st.fixed_dictionaries({
        "pool": st.lists(tp_spec(False), min_size=1, max_size=3), "first": st.lists(tp_spec(False), max_size=2),
        "a": st.lists(op, min_size=1, max_size=4), "b": st.lists(op, max_size=3),
        "service": st.lists(st.lists(st.integers(0, 3), max_size=2), max_size=2), "budget": st.integers(1, 4),
        "sched": sched.spread(st, 5, 500, 2, 7), "rest": sched.spread(st, 2, 400, 1, 4)})


def each_switch(tier):
    """One switch, at each step (0 and 1: the application, 2: the service, 3 and 4: workers)."""
    args = {"snapshot": "no_collect", "fire_count": "-1", "fire_period": "0"}
    # two that agree in everything, and one at another place
    pool = [{"place": 0, "args": dict(args, log_msg="one")}, {"place": 0, "args": dict(args, log_msg="one")}, {"place": 1, "args": dict(args, log_msg="two {a}")}]
    rest = {"order": [0, 1], "pre": []}
    thorough = tier == "thorough"
    for first, a, b, service in ((0, [["reg", 0]], [["reg", 1]], []), (1, [["reg", 2]], [["first", 0]], []), (0, [["reg", 0], ["unreg", 0]], [], [[1]]),
                                 (1, [["first", 0]], [["first", 0]], [[1]]), (1, [["first", 0]], [], [[0]])):
        v = {"pool": pool, "first": pool[:first], "a": a, "b": b, "service": service, "budget": 2, "rest": rest}
        for to in (1, 2, 3):
            for step in range(1, 800 if thorough else 300, 1 if thorough else 3):
                yield {**v, "sched": {"order": [0, 3, 1, 2, 4], "pre": [[step, to]]}}
        for step in range(1, 1500 if thorough else 600, 1 if thorough else 4):
            yield {**v, "budget": 0, "sched": {"order": [0, 1, 2, 3, 4], "pre": []}, "rest": {"order": [0, 1], "pre": [[step, 1]]}}


# --- handles across the life of an agent -----------------------------------------------------------------------------------------

APP = {"__name__": "app_module"}
exec(compile("def other():\n    a = 3\n    return a\n\n\ndef run():\n    return 1\n\n\ndef stop():\n    return 2\n\n\n"
             "def visit():\n    other()\n    run()\n    stop()\n", FILE, "exec"), APP)


def visit():
    """What acts when a new application thread passes every location."""
    del recplugin.LOGS[:]
    t = threading.Thread(target=APP["visit"])
    t.start()
    t.join()
    return collections.Counter(m for m, _ in recplugin.LOGS)


def run_restart(case):
    """Registrations and removals before, while and after the agent runs, which is stopped and started again."""
    from deep.api.deep import Deep
    from deep.config import ConfigService
    from deepproto.proto.poll.v1 import poll_pb2
    answers = []

    def on_poll(request, n):
        if not answers:
            return None
        k, specs = answers.pop(0)
        return poll_pb2.PollResponse(ts_nanos=k, current_hash="h%d" % k, response_type=poll_pb2.ResponseType.UPDATE,
                                     response=[world.to_proto(s) for s in specs])

    net = agentlab.NET[0] = agentlab.Net(on_poll)
    agent = Deep(ConfigService({"SERVICE_URL": "lab:1", "SERVICE_SECURE": "False", "POLL_TIMER": 0.003, "PLUGINS": ["vlib.recplugin.RecordingLogger"],
                                "LOGGING_CONF": None, "PLUGIN_PYTHONPLUGIN": "False"}))
    handles, running, service, acted, stops, away = [], False, [], 0, 0, 0

    def spec(t, name):
        place = PLACES[t[0] % len(PLACES)]
        args = {"log_msg": t[1], "snapshot": "no_collect", "fire_count": "-1", "fire_period": "0"}
        if place[0] == "method":
            args["method_name"] = place[1]
        return {"id": name, "path": "prog.py", "line": place[1] if place[0] == "line" else 1, "args": args}

    def settle():
        exp = collections.Counter("[deep] " + s["args"]["log_msg"] for s in service + [s for _, s, live in handles if live])
        got = collections.Counter()

        def same():
            got.clear()
            got.update(visit())
            return got == exp
        mark = len(net.polls)
        check(world.wait_until(lambda: not answers and len(net.polls) > mark + 1, 10), "the agent does not poll", sig="polling")
        check(world.wait_until(same, 3), "missing %s and still installed %s", dict(exp - got), dict(got - exp), sig="active")
        return sum(exp.values())

    try:
        for op in case["ops"] + [["up"]]:
            k = op[0]
            if k == "reg":
                s = spec(op[1], "")
                with agent_must_not_raise("register_tracepoint"):
                    handles.append([agent.register_tracepoint(s["path"], s["line"], s["args"]), s, True])
                away += not running
            elif k == "unreg" and handles:
                e = handles[op[1] % len(handles)]
                with agent_must_not_raise("unregister"):
                    e[0].unregister()
                e[2] = False
                away += not running
            elif k == "service" and running:
                service = [spec(t, "svc%d" % i) for i, t in enumerate(op[1])]
                answers.append((len(net.polls) + 1, service))
            elif k in ("toggle", "up"):
                if not running:
                    with agent_must_not_raise("start"):
                        agent.start()
                    running = True
                elif k == "toggle":
                    settle()
                    with agent_must_not_raise("shutdown"):
                        agent.shutdown()
                    running = False
                    stops += 1
            elif k == "hit":
                if running:
                    acted += settle()
                else:
                    got = visit()
                    check(not got, "acting while the agent is not running: %s", dict(got), sig="stopped")
        acted += settle()
        # every handle removes its own
        for e in handles:
            with agent_must_not_raise("unregister"):
                e[0].unregister()
            e[2] = False
        settle()
        return {"nontrivial": bool(acted and away), "labels": (["restarted"] if stops else []) + (["while-stopped"] if away else []) + (["service"] if service else []),
                "observed": {"acted": acted, "registered": len(handles), "stops": stops, "while_stopped": away}}
    finally:
        agent.shutdown()
        agentlab.NET[0] = None


def restarts():
    tp = st.tuples(st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from(["one", "one", "two", "three"])).map(list)
    op = st.one_of(st.tuples(st.just("reg"), tp), st.tuples(st.just("reg"), tp), st.tuples(st.just("unreg"), st.integers(0, 9)), st.tuples(st.just("unreg"), st.integers(0, 9)),
                   st.tuples(st.just("toggle")), st.tuples(st.just("toggle")), st.tuples(st.just("service"), st.lists(tp, max_size=2)), st.tuples(st.just("hit"))).map(list)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=4, max_size=14)})


PARTS = [
    Part("restart", run_restart, restarts, quick=300, thorough=6000, shards=3, thorough_shards=8, setup=agentlab.install, case_timeout=90,
         rule="some tracepoint acts, and a handle was registered or unregistered while the agent was not running"),
    Part("history", run_forget_safe, histories, quick=3000, thorough=40000, shards=4, thorough_shards=8,
         rule="a history in which some tracepoint acts and some handle was unregistered"),
    Part("schedule", run_schedule, schedules, exhaustive_cases=each_switch, quick=1200, thorough=16000, shards=4, thorough_shards=8,
         rule="threads were switched inside the agent and some tracepoint acts afterwards"),
]
