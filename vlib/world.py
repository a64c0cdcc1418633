"""The agent under test with recording stand-ins for everything it talks to."""
import contextlib
import sys
import threading
import time

from . import boot
from .core import HarnessError, fmt_exc

T0 = 1_700_000_000_000_000_000


class Recorder:
    """What the agent did, in order, with the thread that did it."""

    def __init__(self):
        self.items = []
        self.lock = threading.Lock()
        self.per_thread = {}
        self.tokens = 0
        self.local = threading.local()

    def me(self):
        """A number of this thread that is never used again (unlike thread idents)."""
        t = getattr(self.local, "token", None)
        if t is None:
            with self.lock:
                self.tokens += 1
                t = self.local.token = self.tokens
        return t

    def add(self, kind, **data):
        t = self.me()
        data["kind"] = kind
        data["thread"] = t
        if boot.CLOCK.ns is not None:
            data["now"] = boot.CLOCK.ns()
        with self.lock:
            data["seq"] = len(self.items)
            self.items.append(data)
            self.per_thread.setdefault(t, []).append(data)

    def mark(self):
        return len(self.per_thread.get(self.me(), ()))

    def since(self, mark):
        return list(self.per_thread.get(self.me(), ())[mark:])

    def of(self, *kinds):
        return [i for i in self.items if i["kind"] in kinds]


class InlineTasks:
    """A task handler that runs tasks at once (used where delivery is not the subject)."""

    def submit_task(self, task, *args):
        from concurrent.futures import Future
        f = Future()
        try:
            f.set_result(task(*args))
        except BaseException as e:  # noqa: B902
            f.set_exception(e)
        return f

    def flush(self):
        pass

    def reopen(self):
        pass


def plugin_classes():
    """Recording plugins, built on the plugin API of the tree under test."""
    from deep.api.attributes import BoundedAttributes
    from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger  # noqa: F401
    from deep.api.plugin.metric import MetricProcessor
    from deep.api.plugin.span import Span, SpanProcessor
    from deep.api.resource import Resource

    class Base:
        """faults: callable(plugin name, operation) that may raise."""

        def setup(self, rec, tag, fault=None, order=0):
            self.rec, self.tag, self.fault, self._order = rec, tag, fault, order
            return self

        def _f(self, op):
            if self.fault is not None:
                self.fault(self.tag, op)

        def order(self):
            return self._order

        def shutdown(self):
            self.rec.add("plugin-shutdown", plugin=self.tag)
            self._f("shutdown")

    class RecLogger(Base, TracepointLogger):
        def log_tracepoint(self, log_msg, tp_id, ctx_id):
            self.rec.add("log", plugin=self.tag, msg=log_msg, tp=tp_id, ctx=ctx_id)
            self._f("log_tracepoint")

    class RecSpan(Span):
        def __init__(self, proc, serial, name, ctx, tp):
            self.proc, self.serial, self._name, self.ctx, self.tp = proc, serial, name, ctx, tp

        @property
        def name(self):
            return self._name

        @property
        def trace_id(self):
            return "t%d" % self.serial

        @property
        def span_id(self):
            return "s%d" % self.serial

        def add_attribute(self, key, value):
            self.proc.rec.add("span-attr", plugin=self.proc.tag, serial=self.serial, key=key, value=value)

        def add_event(self, name, attributes=None):
            self.proc.rec.add("span-event", plugin=self.proc.tag, serial=self.serial, name=name)

        def close(self):
            self.proc.rec.add("close", plugin=self.proc.tag, serial=self.serial, tp=self.tp)
            self.proc._f("close")

    class RecSpans(Base, SpanProcessor):
        count = 0

        def create_span(self, name, context_id, tracepoint_id):
            self.rec.add("open-try", plugin=self.tag, tp=tracepoint_id)
            self._f("create_span")
            with self.rec.lock:
                self.count += 1
                serial = self.count
            span = RecSpan(self, serial, name, context_id, tracepoint_id)
            self.rec.add("open", plugin=self.tag, serial=serial, name=name, ctx=context_id, tp=tracepoint_id)
            return span

        def current_span(self):
            self._f("current_span")
            return None

    class RecMetrics(Base, MetricProcessor):
        def _m(self, op, name, labels, namespace, help_string, unit, value):
            self.rec.add("metric", plugin=self.tag, op=op, name=name, labels=dict(labels), namespace=namespace,
                         help=help_string, unit=unit, value=value)
            if getattr(self, "spoil", False):
                labels.clear()
            self._f(op)

        def counter(self, name, labels, namespace, help_string, unit, value):
            self._m("counter", name, labels, namespace, help_string, unit, value)

        def gauge(self, name, labels, namespace, help_string, unit, value):
            self._m("gauge", name, labels, namespace, help_string, unit, value)

        def histogram(self, name, labels, namespace, help_string, unit, value):
            self._m("histogram", name, labels, namespace, help_string, unit, value)

        def summary(self, name, labels, namespace, help_string, unit, value):
            self._m("summary", name, labels, namespace, help_string, unit, value)

    class RecDecorator(Base, SnapshotDecorator):
        attributes = None

        def decorate(self, snapshot_id, context):
            self.rec.add("decorate", plugin=self.tag, snapshot=snapshot_id)
            self._f("decorate")
            attrs = self.attributes if self.attributes is not None else {"deco.%s" % self.tag: "on"}
            return BoundedAttributes(attributes=attrs)

    class RecResource(Base, ResourceProvider):
        attributes = None

        def resource(self):
            self._f("resource")
            return Resource(self.attributes or {"res.%s" % self.tag: "on"})

    return {"log": RecLogger, "span": RecSpans, "metric": RecMetrics, "decorator": RecDecorator,
            "resource": RecResource}


class RecordingPush:
    """Stands in for PushService."""

    def __init__(self, rec, fault=None):
        self.rec = rec
        self.fault = fault

    def push_snapshot(self, snapshot):
        self.rec.add("snap", tp=snapshot.tracepoint.id, snapshot=snapshot, watches=list(snapshot.watches))
        if self.fault is not None:
            self.fault("push", "push_snapshot")


def to_proto(spec):
    """A tracepoint of the service from its JSON spec."""
    from deepproto.proto.tracepoint.v1 import tracepoint_pb2 as tp
    metrics = []
    for m in spec.get("metrics", []):
        labels = []
        for lb in m.get("labels", []):
            le = tp.LabelExpression(key=lb["key"])
            if lb.get("expr") is not None:
                le.expression = lb["expr"]
            st = lb.get("static")
            if st is not None:
                if isinstance(st, bool):
                    le.static.bool_value = st
                elif isinstance(st, int):
                    le.static.int_value = st
                elif isinstance(st, float):
                    le.static.double_value = st
                else:
                    le.static.string_value = st
            labels.append(le)
        kw = {"name": m["name"], "type": tp.MetricType.Value(m["type"]), "labelExpressions": labels}
        for k, pk in (("expr", "expression"), ("ns", "namespace"), ("help", "help"), ("unit", "unit")):
            if m.get(k) is not None:
                kw[pk] = m[k]
        metrics.append(tp.Metric(**kw))
    return tp.TracePointConfig(ID=spec["id"], path=spec["path"], line_number=spec["line"], args=spec["args"],
                               watches=spec.get("watches", []), metrics=metrics)


def to_definitions(spec):
    from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
    return [MetricDefinition(m["name"], m["type"], [LabelExpression(lb["key"], lb.get("static"), lb.get("expr"))
                                                    for lb in m.get("labels", [])],
                             m.get("expr"), m.get("ns"), m.get("help"), m.get("unit"))
            for m in spec.get("metrics", [])]


class World:
    """One agent: config, trigger handler and recording plugins."""

    def __init__(self, custom=None, logger=1, spans=1, metrics=1, decorators=0, resource=None, fault=None, push=None,
                 use_push=None):
        from deep.api.resource import Resource
        from deep.config import ConfigService
        from deep.config.tracepoint_config import TracepointConfigService
        from deep.processor.trigger_handler import TriggerHandler
        self.rec = Recorder()
        self.now = T0
        self._mine = threading.local()
        boot.CLOCK.ns = lambda: getattr(self._mine, "now", self.now)
        boot.CLOCK.advance = self.advance
        self.config = ConfigService(dict(custom or {}), tracepoints=TracepointConfigService())
        self.config.resource = resource or Resource.get_empty()
        pc = plugin_classes()
        self.plugins = []
        for kind, n in (("log", logger), ("span", spans), ("metric", metrics), ("decorator", decorators)):
            for i in range(n):
                p = pc[kind](config=self.config).setup(self.rec, "%s%d" % (kind, i), fault)
                self.plugins.append(p)
        self.config.plugins = list(self.plugins)
        self.push = use_push or RecordingPush(self.rec, push)
        self.tasks = InlineTasks()
        self.config.set_task_handler(self.tasks)
        self.handler = TriggerHandler(self.config, self.push)
        self.hash = 0
        self.custom = []

    def tick(self, ns=1_000_000):
        """A new time, that no other thread sees: it identifies one event. (For one thread, `now` does.)"""
        with self.rec.lock:
            self.now += ns
            self._mine.now = self.now
        return self._mine.now

    def advance(self, ns):
        """Time passes."""
        self.now += ns

    def close(self):
        boot.CLOCK.ns = boot.CLOCK.advance = None

    def install(self, specs):
        """Install specs: those of the service in one response, those in code one by one. Fills spec["rid"]."""
        from deep.grpc import convert_response
        service = [s for s in specs if s.get("via", "service") == "service"]
        self.hash += 1
        self.config.tracepoints.update_new_config(self.now // 1000000, "h%d" % self.hash,
                                                  convert_response([to_proto(s) for s in service]))
        for s in service:
            s["rid"] = s["id"]
        for s in specs:
            if s.get("via") == "custom":
                s["rid"] = self.config.tracepoints.add_custom(s["path"], s["line"], dict(s["args"]),
                                                              list(s.get("watches", [])), to_definitions(s))
                self.custom.append(s["rid"])


    def uninstall(self):
        """The service removes its tracepoints and those made in code are unregistered (to bound the cost of a case)."""
        self.install([])
        for rid in self.custom:
            self.config.tracepoints.remove_custom(rid)


HARNESS_DIR = boot.VERIF + "/"


class Tracer:
    """Forwards trace events to the handler as CPython would, and shows each event to an observer.

    before(frame, event, arg) is called first (to compute what is expected from the untouched frame), then the agent,
    then after(frame, event, arg, token, items) with what the agent did during the event on this thread.
    """

    def __init__(self, world, before=None, after=None, keep_all=True, serial=True):
        self.world = world
        self.before = before
        self.after = after
        self.raised = []
        self.errors = []
        self.events = 0
        self.keep_all = keep_all
        self.untraced_frames = 0
        # a thread of the program and the one that starts it run at the same time: one event is looked at at a time
        # (not if the observers hand the turn to another thread)
        self.lock = threading.RLock() if serial else contextlib.nullcontext()

    def _one(self, fn, frame, event, arg):
        """Returns (result of the agent's trace function)."""
        with self.lock:
            return self._one_locked(fn, frame, event, arg)

    def _one_locked(self, fn, frame, event, arg):
        self.events += 1
        tok = None
        try:
            if self.before is not None:
                tok = self.before(frame, event, arg)
        except BaseException as e:  # noqa: B902
            self.errors.append(e)
        mark = self.world.rec.mark()
        r = None
        if fn is not None:
            try:
                r = fn(frame, event, arg)
            except BaseException as e:  # noqa: B902
                self.raised.append((event, frame.f_code.co_filename, frame.f_lineno, e))
        try:
            if self.after is not None:
                self.after(frame, event, arg, tok, self.world.rec.since(mark))
        except BaseException as e:  # noqa: B902
            self.errors.append(e)
        return r

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(HARNESS_DIR):
            return None
        state = [self._one(self.world.handler.trace_call, frame, event, arg)]
        if state[0] is None:
            self.untraced_frames += 1

        def local(frame, event, arg):
            r = self._one(state[0], frame, event, arg)
            if r is not None:
                state[0] = r
            return local

        return local

    def start(self):
        sys.settrace(self.trace)
        threading.settrace(self.trace)

    def stop(self):
        sys.settrace(None)
        threading.settrace(None)

    def run(self, instance, extra=None):
        box = instance.run_main_thread_safe(self.start, self.stop)
        for e in self.errors:
            if isinstance(e, AssertionError):
                raise e
            raise HarnessError(fmt_exc(e)) from e
        return box


def wait_until(cond, timeout=10.0):
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        if cond():
            return True
        time.sleep(0.002)
    return bool(cond())
