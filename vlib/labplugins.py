"""Plugins that the agent loads by name: vlib.labplugins.<name>, as described in TABLE[name].

{"roles": [...], "order": n | "exc" | ..., "construct": "ok" | "exc" | "base", "active": True | False | "early" | "exc", "name": None | text, "class_name": text,
 "faults": {operation: [kind, calls]}}   calls: None (every call) or the numbers (from 0) of the calls that fail
"""
from vlib.core import InjectedBaseFault, InjectedFault

TABLE = {}
REC = [None]
LIVE = []
LATER = [False]  # plugins that are active "early" are active until this is set

ROLES = ["resource", "decorate", "log", "span", "metric"]
GARBAGE = {"none": None, "int": 5, "text": "text", "dict": {"a": "b"}, "list": [1], "object": object()}


class Weird:
    """An object that answers nothing."""

    def __getattribute__(self, name):
        raise InjectedFault("weird")


def reset(rec):
    TABLE.clear()
    del LIVE[:]
    LATER[0] = False
    REC[0] = rec


def fail(kind):
    if kind == "exc":
        raise InjectedFault("plugin")
    if kind == "base":
        raise InjectedBaseFault("plugin")
    if kind == "exit":
        raise SystemExit(3)
    if kind == "stop":
        raise StopIteration()
    if kind == "gen-exit":
        raise GeneratorExit()
    raise KeyError(kind)


def __getattr__(name):
    spec = TABLE.get(name)
    if spec is None:
        raise AttributeError(name)
    if spec.get("missing"):
        fail(spec["missing"])
    return build(name, spec)


def build(tag, spec):
    from deep.api.attributes import BoundedAttributes
    from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger
    from deep.api.plugin.metric import MetricProcessor
    from deep.api.plugin.span import Span, SpanProcessor
    from deep.api.resource import Resource
    rec = REC[0]
    bases = [{"resource": ResourceProvider, "decorate": SnapshotDecorator, "log": TracepointLogger, "span": SpanProcessor, "metric": MetricProcessor}[r]
             for r in spec["roles"]]
    calls = {}

    def called(op, **data):
        """Records the call; raises, or returns ["garbage", value], when the description says so."""
        n = calls[op] = calls.get(op, -1) + 1
        fault = spec.get("faults", {}).get(op)
        hit = fault is not None and (fault[1] is None or n in fault[1])
        rec.add("call", plugin=tag, op=op, n=n, fault=fault[0] if hit else None, **data)
        if hit:
            if fault[0] == "weird":
                return Weird()
            if fault[0].startswith("garbage:"):
                return GARBAGE[fault[0][8:]]
            fail(fault[0])
        return called

    def init(self, config=None):
        rec.add("construct", plugin=tag)
        if spec.get("construct", "ok") != "ok":
            fail(spec["construct"])
        Plugin.__init__(self, spec.get("name"), config)
        self.tag = tag
        LIVE.append(self)

    def order(self):
        o = spec.get("order", 0)
        if isinstance(o, str):
            fail(o)
        return o

    def is_active(self):
        a = spec["active"]
        if a == "early":
            return not LATER[0]
        if isinstance(a, str):
            fail(a)
        return a

    class LabSpan(Span):
        def __init__(self, serial, tp, ctx):
            self.serial, self.tp, self.ctx = serial, tp, ctx

        name = property(lambda self: "n")
        trace_id = property(lambda self: "t")
        span_id = property(lambda self: "s")

        def add_attribute(self, key, value):
            pass

        def add_event(self, name, attributes=None):
            pass

        def close(self):
            called("close", serial=self.serial, tp=self.tp)

    # a plugin may well give the same resource each time it is asked
    given = Resource(*spec["gives"]) if "gives" in spec else None

    def resource(self):
        r = called("resource")
        return (Resource({"res.%s" % tag: tag}) if given is None else given) if r is called else r

    def decorate(self, snapshot_id, context):
        r = called("decorate", snapshot=snapshot_id)
        return BoundedAttributes(attributes={"deco.%s" % tag: tag}) if r is called else r

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        called("log", msg=log_msg, tp=tp_id)

    def create_span(self, name, context_id, tracepoint_id):
        serial = len(rec.items)
        r = called("create_span", serial=serial, tp=tracepoint_id, name=name)
        return LabSpan(serial, tracepoint_id, context_id) if r is called else r

    def metric(op):
        def record(self, name, labels, namespace, help_string, unit, value):
            called(op, name=name, value=value)
        return record

    body = {"__init__": init, "order": order, "shutdown": lambda self: called("shutdown") and None}
    if "active" in spec:
        body["is_active"] = is_active
    for role in spec["roles"]:
        if role == "resource":
            body["resource"] = resource
        if role == "decorate":
            body["decorate"] = decorate
        if role == "log":
            body["log_tracepoint"] = log_tracepoint
        if role == "span":
            body["create_span"] = create_span
            body["current_span"] = lambda self: None
        if role == "metric":
            body.update({op: metric(op) for op in ("counter", "gauge", "histogram", "summary")})
    spec["given"] = given
    return type(Plugin)(spec.get("class_name", tag), tuple(bases) or (Plugin,), body)


def names():
    """The names to configure."""
    return ["vlib.labplugins.%s" % n for n in TABLE]
