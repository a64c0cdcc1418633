"""C14 Lifecycle: hooks installed once, restored exactly; shutdown always completes."""
NO_PRELOAD = True
import functools
import os
import queue
import sys
import threading
import time

from hypothesis import strategies as st

from vlib import agentlab, labplugins, world
from vlib.agentlab import Net, me
from vlib.core import HarnessError, InjectedBaseFault, InjectedFault, Part, Violation, agent_must_not_raise, check
from vlib.fasttime import fast_time
from vlib.world import wait_until

META = {"assumptions": [
    "calls of the service and plugins end (they may fail and take time): a call that never returns is not generated",
    "the application does not replace the trace functions while the agent runs with tracing enabled (except around a repeated start)",
    "a thread other than the one that calls shutdown can only be restored when it runs: its own trace function is looked at after it has called a function",
    "two agents are shut down in the reverse order of their start",
    "KeyboardInterrupt during start or shutdown is for the application and not generated",
]}

APP = '''def target(n):
    a = n
    return a


def outer(call):
    b = 1
    call()
    return b


def noop():
    return None
'''
FILE = "/app/x/prog.py"


def setup():
    agentlab.install()
    import deep
    from vlib import boot
    if not os.path.abspath(deep.__file__).startswith(boot.DEEP_DIR):
        raise HarnessError("deep was imported from %s" % deep.__file__)


class Hook:
    def __call__(self, frame, event, arg):
        return None

    def method(self, frame, event, arg):
        return None


def make_hooks():
    """Trace functions an application (or a debugger) can have: a function, a method, an object, a partial."""
    def fn(frame, event, arg):
        return None
    h = Hook()
    return [None, fn, h.method, Hook(), functools.partial(Hook.method, Hook())]


class Worker:
    """A thread that does what it is told."""

    def __init__(self):
        self.q, self.a = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.a.put((f(), None))
            except BaseException as e:  # noqa: B902
                self.a.put((None, e))

    def do(self, f):
        self.q.put(f)
        r, e = self.a.get(timeout=60)
        if e is not None:
            raise e
        return r

    def end(self):
        self.q.put(None)
        self.t.join()


def fault(kind):
    if kind == "exc":
        raise InjectedFault("service")
    if kind == "base":
        raise InjectedBaseFault("service")
    if kind == "rpc":
        import grpc
        raise grpc.RpcError()
    if kind == "exit":
        raise SystemExit(1)
    if kind == "slow":
        time.sleep(0.004)


class Life:
    """One agent and what has to be true of it."""

    def __init__(self, case):
        self.case = case
        self.rec = world.Recorder()
        labplugins.reset(self.rec)
        labplugins.TABLE["Main"] = {"roles": ["log", "span", "metric", "decorate"], "order": -5,
                                    "faults": {"shutdown": [case["plugins"][0], None]} if case["plugins"] and case["plugins"][0] else {}}
        if case.get("span_fault"):
            labplugins.TABLE["Main"]["faults"] = dict(labplugins.TABLE["Main"]["faults"], close=[case["span_fault"], None])
        for i, k in enumerate(case["plugins"][1:]):
            labplugins.TABLE["Pl%d" % i] = {"roles": [["decorate"], ["resource"], ["metric"], []][i % 4], "order": i,
                                           "faults": {"shutdown": [k, None]} if k else {}, **({"active": "early"} if case.get("early") else {})}
        self.gate = threading.Event()
        self.gate.set()
        self.sent = []

        def on_poll(request, n):
            fault(case["poll"])

        def on_send(request, n):
            if not self.gate.is_set():
                self.gate.wait(20)
            self.sent.append(request.ID)
            fault(case["send"])
        self.net = agentlab.NET[0] = Net(on_poll, on_send)
        if case["close"]:
            self.net.on_close = lambda c: fault(case["close"])
        self.ns = {"__name__": "app_module"}
        exec(compile(APP, FILE, "exec"), self.ns)
        custom = {"SERVICE_URL": "fake:1", "SERVICE_SECURE": "False", "POLL_TIMER": case["timer"], "LOGGING_CONF": None, "APP_ROOT": "/app",
                  "PLUGINS": labplugins.names(), "PLUGIN_PYTHONPLUGIN": "False"}
        no_trace = case["no_trace"]
        self.env = {}
        self.disabled = False
        if no_trace is not None:
            how, value = no_trace
            self.disabled = NO_TRACE_VALUES[value]
            if how == "env":
                self.env["DEEP_NO_TRACE"] = str(value)
            elif how == "call":
                custom["NO_TRACE"] = lambda: value
            else:
                custom["NO_TRACE"] = value
        os.environ.update(self.env)
        from deep.api import Deep
        from deep.config import ConfigService
        self.config = ConfigService(custom)
        self.agent = Deep(self.config)
        self.running = False
        self.run = 0
        self.registered = 0

    # --- what the agent does
    def mark(self):
        return len(self.rec.items)

    def actions(self, since, ops=("log", "create_span", "counter", "decorate")):
        return [i for i in self.rec.items[since:] if i["kind"] == "call" and i["op"] in ops]

    def hit(self):
        """Returns the number of times the tracepoint acted on this thread while the target ran."""
        m = self.mark()
        self.ns["target"](1)
        mine = self.rec.me()
        return len([a for a in self.actions(m, ("log",)) if a["thread"] == mine])

    def end(self):
        for k in self.env:
            os.environ.pop(k, None)
        self.gate.set()


NO_TRACE_VALUES = {True: True, "True": True, "true": True, "1": True, "yes": True, False: False, "False": False, "false": False, "0": False, "": False}


def both():
    return sys.gettrace(), threading.gettrace()


def run_history(case):
    """The whole history runs on a thread of its own, which is the application's main thread."""
    box = []

    def main():
        try:
            box.append((history(case), None))
        except BaseException as e:  # noqa: B902
            box.append((None, e))
        finally:
            sys.settrace(None)
    before = threading.gettrace()
    t = threading.Thread(target=main)
    t.start()
    t.join()
    threading.settrace(before)
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


def same(got, want):
    return got[0] is want[0] and got[1] is want[1]


def history(case):
    hooks = make_hooks()
    life = Life(case)
    agent, net = life.agent, life.net
    workers = {}         # name -> (worker, run in which it was created or None)
    labels = set()
    started_by = None    # "main" or "thread"
    before = (None, None)   # the hooks of this thread and of threading, before the start
    lazy = False         # shut down by another thread: this thread's hook is restored when it runs
    runs = shutdowns = 0
    uid = 0
    current = [None, None]
    starters = set()     # threads that called start (they poll once)
    faulted = bool(case["send"] or case["poll"] or case["close"] or any(case["plugins"]))

    def hooks_are(what, want=None):
        w = want if want is not None else before
        got = both()
        check(same(got, w), "%s: the trace functions are %s, they were %s before the start", what, got, w, sig="hooks")

    def expect_hooks_untouched(what):
        check(same(both(), tuple(current)), "%s: tracing is disabled, but the trace functions changed from %s to %s", what, tuple(current), both(),
              sig="disabled")

    def start(how):
        if how == "thread":
            w = Worker()
            try:
                starters.add(w.do(me))
                w.do(agent.start)
            finally:
                w.end()
        else:
            starters.add(me())
            agent.start()

    def on_thread(f):
        out = []

        def g():
            try:
                out.append(f())
            except BaseException as e:  # noqa: B902
                out.append(e)
        t = threading.Thread(target=g)
        t.start()
        t.join()
        if isinstance(out[0], BaseException):
            raise out[0]
        return out[0]

    def acts(where):
        """True / False / None (may)."""
        if not life.running or life.disabled:
            return False
        if where == "main":
            return started_by == "main"
        if where == "new":
            return True
        created = workers[where][1]
        if created is None:
            return False
        return True if created == runs else None

    def do_hit(where):
        if where == "main":
            return life.hit()
        if where == "new":
            return on_thread(life.hit)
        return workers[where][0].do(life.hit)

    try:
        for op in case["ops"]:
            kind = op[0]
            if kind == "hooks":
                if life.running and not life.disabled:
                    continue
                if lazy:
                    life.ns["noop"]()
                    lazy = False
                    hooks_are("after another thread has shut down")
                sys.settrace(hooks[op[1]])
                threading.settrace(hooks[op[2]])
                current[:] = both()
            elif kind == "start":
                was = life.running
                if was:
                    m = life.mark()
                    opened, polled = len(net.channels), len([t for t in net.poll_threads if t == me()])
                    hold = both()
                    if not life.disabled and op[2]:
                        # a debugger is attached; a repeated start does nothing
                        sys.settrace(hooks[1])
                        threading.settrace(hooks[2])
                    want = both()
                    with agent_must_not_raise("start"):
                        start("main")
                    check(same(both(), want), "a repeated start changed the trace functions from %s to %s", want, both(), sig="repeat")
                    sys.settrace(hold[0])
                    threading.settrace(hold[1])
                    made = [i for i in life.rec.items[m:] if i["kind"] == "construct" or (i["kind"] == "call" and i["op"] == "resource")]
                    check(not made, "a repeated start loads plugins: %s", made[:2], sig="repeat")
                    check(len(net.channels) == opened, "a repeated start connects again", sig="repeat")
                    check(len([t for t in net.poll_threads if t == me()]) == polled, "a repeated start polls", sig="repeat")
                    labels.add("repeat")
                    continue
                if lazy:
                    life.ns["noop"]()
                    lazy = False
                before = both()
                current[:] = before
                del labplugins.LIVE[:]
                labplugins.LATER[0] = False
                with agent_must_not_raise("start"):
                    start(op[1])
                labplugins.LATER[0] = True
                runs += 1
                life.running = True
                started_by = op[1]
                check(agent.started is True, "started is %s after start", agent.started, sig="started")
                if life.disabled:
                    expect_hooks_untouched("start")
                elif started_by == "main":
                    got = both()
                    check(got[0] is not None and got[0] is not before[0], "the trace function is not installed", sig="install")
                    check(got[1] is not None and got[1] is not before[1], "the trace function for new threads is not installed", sig="install")
                else:
                    check(sys.gettrace() is before[0], "start on another thread changed the trace function of this thread", sig="install")
                if not life.registered:
                    life.registered = 1
                    agent.register_tracepoint("prog.py", 2, {"fire_count": "-1", "fire_period": "0", "log_msg": "tp", "span": "line"})
                    agent.register_tracepoint("prog.py", -1, {"fire_count": "-1", "fire_period": "0", "snapshot": "no_collect", "method_name": "outer", "span": "method"})
                if not life.disabled:
                    check(wait_until(lambda: do_hit("new") == 1, 10), "the tracepoints do not act after start number %d", runs, sig="active")
            elif kind == "shutdown":
                was = life.running
                hold = both()
                names = [p.tag for p in labplugins.LIVE]
                m = life.mark()
                pend = 0
                if was and not life.disabled and op[2]:
                    life.gate.clear()
                    for _ in range(op[2]):
                        pend += do_hit("new")
                    threading.Timer(0.004, life.gate.set).start()
                due = len(life.actions(0, ("log",)))
                polling = set(net.poll_threads) - starters
                if op[1] == "inside" and was and not life.disabled and started_by == "main":
                    labels.add("inside")
                    m2 = life.mark()
                    with agent_must_not_raise("shutdown"):
                        life.ns["outer"](agent.shutdown)
                    opened = [i["serial"] for i in life.actions(m2, ("create_span",))]
                    closed = [i["serial"] for i in life.actions(m2, ("close",))]
                    check(len(opened) == 1 and closed == opened, "shutdown inside a method: spans %s opened and %s closed", opened, closed, sig="pending")
                elif op[1] == "thread":
                    with agent_must_not_raise("shutdown"):
                        on_thread(agent.shutdown)
                    lazy = was and not life.disabled and started_by == "main"
                else:
                    with agent_must_not_raise("shutdown"):
                        agent.shutdown()
                polls, still = len(net.polls), net.polls_open
                check(not was or not still, "shutdown returned while a poll was going on", sig="polling")
                check(agent.started is False, "started is %s after shutdown", agent.started, sig="started")
                if was:
                    shutdowns += 1
                    life.running = False
                    sends = len(life.sent)
                    # the hooks
                    if life.disabled:
                        expect_hooks_untouched("shutdown")
                    elif lazy:
                        check(threading.gettrace() is before[1], "the trace function for new threads is %s, it was %s", threading.gettrace(), before[1],
                              sig="hooks")
                        life.ns["noop"]()
                        hooks_are("shutdown on another thread, this thread has run since")
                        lazy = False
                    else:
                        hooks_are("shutdown")
                    # delivery
                    check(sends == due, "shutdown returned when %d of %d snapshots were sent", sends, due, sig="drain")
                    # plugins
                    down = [i["plugin"] for i in life.rec.items[m:] if i["kind"] == "call" and i["op"] == "shutdown"]
                    check(sorted(down) == sorted(names), "the plugins %s were shut down, loaded are %s", down, names, sig="plugins")
                    # polling
                    ok = wait_until(lambda: not agentlab.in_agent_code(), 2)
                    check(ok, "a thread of the agent is still running after shutdown: %s", agentlab.in_agent_code()[:1], sig="polling")
                    time.sleep(0.012 if case["timer"] < 1 else 0)
                    check(len(net.polls) == polls, "the agent polls after shutdown", sig="polling")
                    check(len(polling) <= runs, "%d threads are polling, after %d starts", len(polling), runs, sig="polling")
                    del labplugins.LIVE[:]
                else:
                    labels.add("idle-shutdown")
                    check(not life.rec.items[m:], "shutdown when not started: %s", life.rec.items[m:][:2], sig="idle")
                    if not lazy:
                        hooks_are("shutdown when not started", hold)
            elif kind == "hit":
                where = op[1]
                if where not in ("main", "new") and where not in workers:
                    continue
                if not life.running:
                    m, polls, sends = life.mark(), len(net.polls), len(net.sends)
                n = do_hit(where)
                want = acts(where)
                check(want is None and n <= 1 or n == int(bool(want)), "on %s the tracepoint acted %d times, expected is %s (running: %s, tracing disabled: %s)",
                      where, n, want, life.running, life.disabled, sig="acts")
                if not life.running:
                    check(not life.rec.items[m:] and len(net.polls) == polls and len(net.sends) == sends, "the agent acts after shutdown: %s",
                          life.rec.items[m:][:2], sig="after")
                    labels.add("hit-stopped")
            elif kind == "worker":
                if len(workers) < 3:
                    workers["w%d" % len(workers)] = (Worker(), runs if life.running and not life.disabled else None)
            elif kind == "register":
                m = life.mark()
                try:
                    agent.register_tracepoint("prog.py", 900 + uid, {"log_msg": "never"}).unregister()
                except BaseException as e:  # noqa: B902
                    if life.running:
                        raise Violation("register_tracepoint raised %s while running" % type(e).__name__, "register") from None
                uid += 1
                if not life.running:
                    check(not life.actions(m), "registering a tracepoint when not running acts", sig="after")
            elif kind == "wait":
                if life.running and case["timer"] < 1:
                    n = len(net.polls)
                    check(wait_until(lambda: len(net.polls) >= n + 2, 10), "the agent does not poll (interval %s, start number %d)", case["timer"], runs,
                          sig="polls")
            elif kind == "bad-start":
                if life.running:
                    continue
                if lazy:
                    life.ns["noop"]()
                    lazy = False
                want = both()
                net.fail_open = 1
                try:
                    agent.start()
                    raised = False
                except Exception:
                    raised = True
                net.fail_open = 0
                agent.shutdown()
                check(same(both(), want), "the start failed (%s), then shutdown: the trace functions are %s, before %s", raised, both(), want, sig="bad-start")
                check(not agent.started, "started after a failed start and a shutdown", sig="started")
                del labplugins.LIVE[:]
                labels.add("bad-start")
            if life.disabled and kind != "hooks":
                expect_hooks_untouched(kind)
        if life.running:
            with agent_must_not_raise("shutdown"):
                agent.shutdown()
            life.running = False
            shutdowns += 1
            if life.disabled:
                expect_hooks_untouched("shutdown")
            elif started_by == "main":
                hooks_are("shutdown at the end")
        # nothing happens any more
        m, polls, sends = life.mark(), len(net.polls), len(net.sends)
        for w in ["main", "new"] + list(workers):
            do_hit(w)
        if case["timer"] < 1:
            time.sleep(0.01)
        check(not life.rec.items[m:] and len(net.polls) == polls and len(net.sends) == sends, "the agent acts after shutdown: %s, %d polls, %d sends",
              life.rec.items[m:][:2], len(net.polls) - polls, len(net.sends) - sends, sig="after")
        return {"nontrivial": bool(shutdowns and (runs > 1 or faulted or life.disabled or len(labels) > 1 or any(before))),
                "labels": sorted(labels) + (["disabled"] if life.disabled else []) + (["faults"] if faulted else []) + (["restarted"] if runs > 1 else [])
                + (["prior-hook"] if any(before) else []),
                "observed": {"runs": runs, "shutdowns": shutdowns, "sent": len(life.sent), "polls": len(net.polls)}}
    finally:
        life.gate.set()
        try:
            agent.shutdown()
        except BaseException:  # noqa: B902
            pass
        sys.settrace(None)
        threading.settrace(None)
        for w, _ in workers.values():
            w.end()
        life.end()
        pool = getattr(agent.task_handler, "_pool", None)
        if pool is not None:
            pool.shutdown(wait=False)


FAULT = st.sampled_from([None, None, "exc", "base", "exit"])


def configs(ops, **kw):
    d = {"ops": ops,
         "plugins": st.lists(FAULT, min_size=1, max_size=4),
         "poll": st.sampled_from([None, None, "exc", "base", "rpc", "slow"]),
         "send": st.sampled_from([None, None, "exc", "base", "rpc", "slow"]),
         "close": st.sampled_from([None, None, None, "exc", "base"]),
         "span_fault": st.sampled_from([None, None, "exc", "base"]),
         "early": st.booleans(),
         "timer": st.sampled_from([0.003, 0.003, 1000]),
         "no_trace": st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(["code", "env", "call"]), st.sampled_from(list(NO_TRACE_VALUES)))
                               .map(list))}
    d.update(kw)
    return st.fixed_dictionaries(d)


def op():
    return st.one_of(
        st.tuples(st.just("hooks"), st.integers(0, 4), st.integers(0, 4)),
        st.tuples(st.just("start"), st.sampled_from(["main", "main", "main", "thread"]), st.booleans()),
        st.tuples(st.just("start"), st.just("main"), st.booleans()),
        st.tuples(st.just("shutdown"), st.sampled_from(["main", "main", "thread", "inside"]), st.integers(0, 3)),
        st.tuples(st.just("shutdown"), st.just("main"), st.integers(0, 3)),
        st.tuples(st.just("hit"), st.sampled_from(["main", "new", "w0", "w1", "w2"])),
        st.tuples(st.just("hit"), st.sampled_from(["main", "new", "w0"])),
        st.just(["worker"]), st.just(["register"]), st.just(["wait"]), st.just(["bad-start"])).map(list)


def histories():
    first = st.tuples(st.just("hooks"), st.sampled_from([0, 0, 1, 2, 3, 4]), st.sampled_from([0, 0, 1, 2, 3, 4])).map(list)
    return st.tuples(first, st.lists(op(), min_size=3, max_size=14)).flatmap(lambda fo: configs(st.just(
        [fo[0]] + ([["start", "main", False]] if fo[1][0][0] not in ("hooks", "worker", "start", "shutdown", "bad-start") else []) + fo[1])))


# --- threads that are busy while the agent is shut down -------------------------------------------------------------------------

def run_busy(case):
    life = Life(dict(case, no_trace=None, timer=0.003 if case["fast"] else 1000))
    rec, agent = life.rec, life.agent
    saved = sys.getswitchinterval()
    stop = threading.Event()
    errors = []
    threads = []

    def work():
        try:
            for _ in range(400):
                if stop.is_set():
                    break
                rec.add("begin")
                life.ns["target"](1)
                life.ns["outer"](life.ns["noop"])
                rec.add("end")
        except BaseException as e:  # noqa: B902
            errors.append(e)
    before = both()
    try:
        agent.start()
        agent.register_tracepoint("prog.py", 2, {"fire_count": "-1", "fire_period": "0", "log_msg": "tp", "span": "line"})
        agent.register_tracepoint("prog.py", -1, {"fire_count": "-1", "fire_period": "0", "snapshot": "no_collect", "method_name": "outer", "span": "method"})
        check(wait_until(lambda: life.hit() == 1, 10), "the tracepoints do not act", sig="active")
        sys.setswitchinterval(case["switch"] / 1e6)
        threads = [threading.Thread(target=work) for _ in range(case["threads"])]
        for t in threads:
            t.start()
        time.sleep(case["after"] / 1000)
        with agent_must_not_raise("shutdown"):
            agent.shutdown()
        check(not life.net.polls_open, "shutdown returned while a poll was going on", sig="polling")
        rec.add("returned")
        sent = len(life.sent)
        m = life.mark()
        wait_until(lambda: len([i for i in rec.items[m:] if i["kind"] == "end"]) > 3 * case["threads"], 0.3)
        stop.set()
        for t in threads:
            t.join()
        sys.setswitchinterval(saved)
        check(same(both(), before), "the trace functions are %s, they were %s", both(), before, sig="hooks")
        check(not errors, "the application failed: %s", [world.fmt_exc(e) for e in errors[:1]], sig="raised")
        returned = next(n for n, i in enumerate(rec.items) if i["kind"] == "returned")
        began, opened, closed = {}, [], []
        for n, i in enumerate(rec.items):
            if i["kind"] == "begin":
                began[i["thread"]] = n
            if i["kind"] == "call" and i["op"] in ("log", "create_span", "decorate", "counter"):
                check(began.get(i["thread"], -1) < returned, "%s: %s, for code that ran after shutdown had returned", i["op"], i, sig="after")
        check(len(life.sent) == sent, "%d snapshots were sent after shutdown", len(life.sent) - sent, sig="after")
        acted = len([i for i in rec.items if i["kind"] == "call" and i["op"] == "log"])
        return {"nontrivial": acted > 1, "labels": ["acted"] if acted > 1 else [], "observed": {"acted": acted, "sent": sent}}
    finally:
        sys.setswitchinterval(saved)
        stop.set()
        for t in threads:
            t.join()
        agent.shutdown()
        sys.settrace(None)
        threading.settrace(None)
        life.end()
        pool = getattr(agent.task_handler, "_pool", None)
        if pool is not None:
            pool.shutdown(wait=False)


def busy():
    return st.fixed_dictionaries({"threads": st.integers(1, 4), "switch": st.sampled_from([1, 5, 50, 300]), "after": st.integers(0, 6), "fast": st.booleans(),
                                  "plugins": st.lists(FAULT, min_size=1, max_size=2), "poll": st.sampled_from([None, "exc", "slow"]),
                                  "send": st.sampled_from([None, "exc", "base", "slow"]), "close": st.sampled_from([None, "exc"]), "span_fault": st.none()})


# --- agents within agents ----------------------------------------------------------------------------------------------------

def run_nested(case):
    box = []

    def main():
        try:
            box.append((nested(case), None))
        except BaseException as e:  # noqa: B902
            box.append((None, e))
        finally:
            sys.settrace(None)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    threading.settrace(None)
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


def nested(case):
    hooks = make_hooks()
    sys.settrace(hooks[case["sys"]])
    threading.settrace(hooks[case["thread"]])
    stack, most = [], 0
    try:
        for i, o in enumerate(case["ops"]):
            if o == "start" and len(stack) < 3:
                was = both()
                life = Life(dict(case, plugins=[case["fault"]], poll=None, send=None, close=None, timer=1000, no_trace=None))
                stack.append((life, was))
                life.agent.start()
                life.agent.register_tracepoint("prog.py", 2, {"fire_count": "-1", "fire_period": "0", "log_msg": "tp"})
                check(wait_until(lambda: life.hit() == 1, 10), "agent %d does not act", i, sig="active")
                most = max(most, len(stack))
            elif o == "shutdown" and stack:
                life, was = stack.pop()
                life.agent.shutdown()
                check(same(both(), was), "the trace functions are %s, they were %s before the start of agent %d", both(), was, i, sig="hooks")
                check(life.hit() == 0, "an agent acts after its shutdown", sig="after")
                if stack:
                    check(stack[-1][0].hit() == 1, "the agent started before does not act any more", sig="nested")
        return {"nontrivial": most > 1, "labels": ["depth%d" % most]}
    finally:
        while stack:
            stack.pop()[0].agent.shutdown()


def nests():
    return st.fixed_dictionaries({"sys": st.integers(0, 4), "thread": st.integers(0, 4), "fault": FAULT,
                                  "ops": st.lists(st.sampled_from(["start", "start", "shutdown"]), min_size=2, max_size=9)})


# --- a real service ------------------------------------------------------------------------------------------------------------

def run_service(case):
    """As the application does it: deep.start on a real connection; the service fails or goes away before the shutdown."""
    import deep
    from vlib.service import Service
    import grpc
    rec = world.Recorder()
    labplugins.reset(rec)
    labplugins.TABLE["Main"] = {"roles": ["log", "decorate"], "order": -5, "faults": {"shutdown": [case["fault"], None]} if case["fault"] else {}}
    labplugins.TABLE["Other"] = {"roles": ["resource"], "order": 1}

    def on_send(request, n):
        if case["send"]:
            raise InjectedFault("send")

    def on_poll(request, n):
        if case["poll"] and n > 1:
            raise InjectedFault("poll")
    agentlab.NET[0] = None
    saved = grpc.insecure_channel
    grpc.insecure_channel = REAL[0]
    svc = Service(on_poll, on_send)
    ns = {"__name__": "app_module"}
    exec(compile(APP, FILE, "exec"), ns)
    before = both()
    agent = None
    try:
        agent = deep.start({"SERVICE_URL": svc.url, "SERVICE_SECURE": "False", "POLL_TIMER": case["timer"], "LOGGING_CONF": None, "PLUGINS": labplugins.names(),
                            "PLUGIN_PYTHONPLUGIN": "False"})
        check(agent.started, "not started", sig="started")
        reg = agent.register_tracepoint("prog.py", 2, {"fire_count": "-1", "fire_period": "0", "log_msg": "tp"})
        logs = lambda: len([i for i in rec.items if i["kind"] == "call" and i["op"] == "log"])  # noqa: E731

        def probe():
            n = logs()
            ns["target"](1)
            return logs() == n + 1
        check(wait_until(probe, 10), "the tracepoint does not act", sig="active")
        if case["down"] == "before":
            svc.close()
        for _ in range(case["hits"]):
            ns["target"](1)
        if case["down"] == "during":
            threading.Timer(0.002, svc.close).start()
        m = len(rec.items)
        with agent_must_not_raise("shutdown"):
            agent.shutdown()
        check(both() == before, "the trace functions are %s, they were %s", both(), before, sig="hooks")
        down = [i["plugin"] for i in rec.items[m:] if i["kind"] == "call" and i["op"] == "shutdown"]
        check(sorted(down) == ["Main", "Other"], "plugins shut down: %s", down, sig="plugins")
        if case["down"] is None:
            ids = [r.ID for r, _ in svc.snapshots]
            check(len(ids) == logs() and len(set(ids)) == len(ids), "%d of %d snapshots were sent when shutdown returned", len(set(ids)), logs(), sig="drain")
        ok = wait_until(lambda: not agentlab.in_agent_code(), 2)
        check(ok, "a thread of the agent is still running after shutdown: %s", agentlab.in_agent_code()[:1], sig="polling")
        polls, n = len(svc.polls), logs()
        ns["target"](1)
        t = threading.Thread(target=ns["target"], args=(1,))
        t.start()
        t.join()
        time.sleep(case["timer"] * 2 if case["timer"] < 1 else 0)
        check(logs() == n and len(svc.polls) == polls, "the agent acts after shutdown", sig="after")
        with agent_must_not_raise("unregister"):
            reg.unregister()
        return {"nontrivial": True, "labels": ["down-%s" % case["down"]], "observed": {"sent": len(svc.snapshots), "polls": polls}}
    finally:
        grpc.insecure_channel = saved
        if agent is not None:
            agent.shutdown()
        sys.settrace(None)
        threading.settrace(None)
        if case["down"] is None:
            svc.close()


def run_slow(case):
    """A shutdown while deliveries and a poll take long; the clock runs fast, so that a limit of a wait ends in time."""
    from deep.api.deep import Deep
    from deep.config import ConfigService
    rec = world.Recorder()
    labplugins.reset(rec)
    labplugins.TABLE["Main"] = {"roles": ["log"], "order": 0}
    ns = {"__name__": "app_module"}
    exec(compile("def target(n):\n    a = n\n    return a\n", FILE, "exec"), ns)
    real_sleep, before = time.sleep, (sys.gettrace(), threading.gettrace())
    ended, polling = [], []

    def on_send(request, n):
        if n == 1 and case["send"]:
            real_sleep(case["send"])
        ended.append(request.ID)
        if case["fails"]:
            raise InjectedFault("send")

    def on_poll(request, n):
        if n == 2 and case["poll"]:
            polling.append(n)
            real_sleep(case["poll"])

    net = agentlab.NET[0] = Net(on_poll, on_send)
    agent = Deep(ConfigService({"SERVICE_URL": "lab:1", "SERVICE_SECURE": "False", "POLL_TIMER": 0.003, "PLUGINS": labplugins.names(), "LOGGING_CONF": None,
                                "PLUGIN_PYTHONPLUGIN": "False"}))
    try:
        agent.start()
        agent.register_tracepoint("prog.py", 2, {"fire_count": "-1", "fire_period": "0", "log_msg": "tp"})

        def hits():
            return len([i for i in rec.items if i["kind"] == "call" and i["op"] == "log"])

        def probe():
            ns["target"](1)
            return hits()
        check(wait_until(probe, 10), "the tracepoint does not act", sig="active")
        for _ in range(case["hits"]):
            ns["target"](1)
        if case["poll"]:
            check(wait_until(lambda: polling, 10), "the agent does not poll", sig="polling")
        with fast_time(200), agent_must_not_raise("shutdown"):
            agent.shutdown()
        check((sys.gettrace(), threading.gettrace()) == before, "the trace functions are %s", (sys.gettrace(), threading.gettrace()), sig="hooks")
        check(len(ended) == hits(), "shutdown returned when %d of %d snapshots were delivered", len(ended), hits(), sig="drain")
        check(not net.polls_open, "shutdown returned while a poll was going on", sig="polling")
        down = [i["plugin"] for i in rec.items if i["kind"] == "call" and i["op"] == "shutdown"]
        check(down == ["Main"], "plugins shut down: %s", down, sig="plugins")
        polls = len(net.polls)
        ns["target"](1)
        real_sleep(0.03)
        check(len(net.polls) == polls and len(ended) == hits(), "the agent acts after shutdown", sig="after")
        return {"nontrivial": True, "observed": {"sent": len(ended)}}
    finally:
        agent.shutdown()
        agentlab.NET[0] = None
        sys.settrace(None)
        threading.settrace(None)


SLOW = [{"send": 5, "poll": 0, "fails": False, "hits": 2}, {"send": 0, "poll": 5, "fails": True, "hits": 3}]

REAL = []


def setup_service():
    import grpc
    REAL.append(grpc.insecure_channel)
    setup()


def services():
    return st.fixed_dictionaries({"send": st.booleans(), "poll": st.booleans(), "fault": FAULT, "hits": st.integers(0, 8),
                                  "down": st.sampled_from([None, None, "before", "during"]), "timer": st.sampled_from([0.01, 1000])})


PARTS = [
    Part("history", run_history, histories, quick=1400, thorough=16000, shards=4, thorough_shards=8, setup=setup, case_timeout=90,
         rule="a shutdown of an agent that was started again, had faults, prior trace functions or tracing disabled"),
    Part("busy", run_busy, busy, quick=160, thorough=3000, shards=2, thorough_shards=6, setup=setup, case_timeout=90,
         rule="tracepoints acted on other threads before the shutdown"),
    Part("nested", run_nested, nests, quick=120, thorough=2000, shards=1, thorough_shards=3, setup=setup, rule="an agent was started within another"),
    Part("slow", run_slow, cases=SLOW, shards=1, setup=setup, rule="always",
         exhaustive_cases=lambda tier: [{"send": 40, "poll": 0, "fails": True, "hits": 0}, {"send": 4, "poll": 30, "fails": False, "hits": 9}]
         if tier == "thorough" else []),
    Part("service", run_service, services, quick=40, thorough=600, shards=2, thorough_shards=6, setup=setup_service, case_timeout=90, rule="always"),
]
