"""A reference model of what tracepoints must do at each trace event.

Written from the property statements and the documentation, not from the agent. It is given the paused frame and says
which actions are due; what is compared (counts, contents, text) is up to the property.
"""
import dis
import inspect
import os

GEN_FLAGS = inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR
TRUE_TEXT = ("yes", "true", "t", "1", "y")


def to_int(v, default):
    try:
        return int(v)
    except (ValueError, TypeError, OverflowError):
        return default


class Failed:
    """The result of an expression that raised."""

    def __init__(self, exc):
        self.exc = exc

    def text(self):
        try:
            return str.__str__(str(self.exc))
        except BaseException:  # noqa: B902
            return None


def evaluate(expr, frame):
    loc = dict(frame.f_locals)
    scope = dict(frame.f_globals)
    scope.update(loc)
    try:
        return eval(expr, scope, loc)
    except BaseException as e:  # noqa: B902
        return Failed(e)


def is_start(frame):
    """Is a 'call' event the entry of a function, rather than a generator that continues?"""
    if frame.f_lasti < 0 or not frame.f_code.co_flags & GEN_FLAGS:
        return True
    op = frame.f_code.co_code[frame.f_lasti]
    if dis.opname[op].startswith("RESUME"):
        return frame.f_code.co_code[frame.f_lasti + 1] & 3 == 0
    if dis.opname[op].startswith("INSTRUMENTED"):
        return False
    return False


class Action:
    """One action of a tracepoint: its kind and limits."""

    def __init__(self, spec, kind):
        a = spec["args"]
        self.spec, self.kind = spec, kind
        self.count = to_int(a.get("fire_count", 1), 1)
        self.period = to_int(a.get("fire_period", 1000), 1000) * 1_000_000
        self.w0 = to_int(a.get("window_start", 0), 0)
        self.w1 = to_int(a.get("window_end", 0), 0)
        self.fired = 0
        self.last = None

    def allowed(self, ts):
        if self.count != -1 and self.fired >= self.count:
            return False
        ms = ts // 1_000_000
        if self.w0 > 0 and ms < self.w0:
            return False
        if self.w1 > 0 and ms > self.w1:
            return False
        if self.last is not None and self.period > 0 and ts - self.last < self.period:
            return False
        return True

    def fire(self, ts):
        self.fired += 1
        self.last = ts


LINE_STAGES = ("line_start", "line_end", "line_capture")
METHOD_STAGES = ("method_start", "method_end", "method_capture")


class Tracepoint:
    def __init__(self, spec):
        self.spec = spec
        a = spec["args"]
        stage = "method_start" if "method_name" in a or a.get("span") == "method" else "line_start"
        stage = a.get("stage", stage)
        self.stage = stage
        self.valid = stage in LINE_STAGES or stage in METHOD_STAGES
        self.method = a.get("method_name") if stage in METHOD_STAGES else None
        self.is_line = stage in LINE_STAGES
        self.nameless = not self.is_line and self.method is None
        self.deferred = stage in ("line_capture", "method_capture")
        self.condition = a.get("condition")
        self.watches = list(spec.get("watches", []))
        self.log = a.get("log_msg")
        collect = a.get("snapshot") != "no_collect"
        kinds = []
        if collect:
            kinds.append("snap")
        elif self.log is not None:
            kinds.append("log")
        if spec.get("metrics"):
            kinds.append("metric")
        if "span" in a:
            kinds.append("span")
        self.actions = [Action(spec, k) for k in kinds] if self.valid else []

    def at(self, frame, event):
        """True / False / None (not specified)."""
        if not self.valid:
            return False
        if os.path.basename(frame.f_code.co_filename) != self.spec["path"]:
            return False
        if self.is_line:
            return event == "line" and frame.f_lineno == self.spec["line"]
        if event != "call":
            return False
        if self.nameless:
            return None
        if frame.f_code.co_name != self.method:
            return False
        return True if is_start(frame) else None

    def condition_holds(self, frame):
        if self.condition is None or not self.condition.strip():
            return True
        r = evaluate(self.condition, frame)
        if type(r) is Failed:
            return False
        try:
            return str(r).strip().lower() in TRUE_TEXT
        except BaseException:  # noqa: B902
            return False


class Model:
    def __init__(self, specs, spans=1, metrics=1):
        self.tps = [Tracepoint(s) for s in specs]
        self.spans, self.metrics = spans, metrics

    def due(self, frame, event, ts):
        """[(tracepoint, action)] that must be performed at this event; None entries are unspecified tracepoints."""
        out, unknown = [], []
        for tp in self.tps:
            at = tp.at(frame, event)
            if at is False:
                continue
            if at is None:
                unknown.append(tp)
                continue
            for act in tp.actions:
                if act.kind == "span" and not self.spans or act.kind == "metric" and not self.metrics:
                    continue
                if act.allowed(ts) and tp.condition_holds(frame):
                    act.fire(ts)
                    out.append((tp, act))
        return out, unknown
