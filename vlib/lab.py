"""One function with chosen local variables, paused at one line under the agent."""
from . import bottom
from .world import Tracer
from .core import HarnessError, check, fmt_exc

FILE = "/app/x/prog.py"
DRIVER = bottom.compile_driver("""
start()
try:
    for h in range(hits):
        each(h)
        if h == 0 or module:
            exec(code, g)
        if not module:
            g['enter'](V)
except BaseException as e:
    failed(e)
finally:
    stop()
""")
STYLES = ["function", "method", "module", "class", "closure", "gen"]


def source(names, style):
    """Source text, tracepoint line, and the name of the function that is entered."""
    asg = ["%s = V[%d]" % (n, i) for i, n in enumerate(names)]
    if style == "module":
        body = ["LINE0 = 1"] + asg + ["pass"]
        return "\n".join(body) + "\n", len(body), "<module>"
    if style == "class":
        body = ["class Body:"] + ["    " + a for a in asg] + ["    pass", "", "def enter(V): pass"]
        return "\n".join(body) + "\n", len(asg) + 2, "Body"
    if style == "closure":
        use = ", ".join(names) or "None"
        body = ["def enter(V):"] + ["    " + a for a in asg] + ["    def target():", "        pass", "        return (%s,)" % use,
                                                                 "    return target()"]
        return "\n".join(body) + "\n", len(asg) + 3, "target"
    if style == "method":
        body = ["class Owner:", "    def target(self, V):"] + ["        " + a for a in asg] + ["        pass", "        return 1",
                                                                                              "def enter(V): return Owner().target(V)"]
        return "\n".join(body) + "\n", len(asg) + 3, "target"
    if style == "gen":
        body = ["def target(V):"] + ["    " + a for a in asg] + ["    pass", "    yield 1",
                                                                  "def enter(V): return list(target(V))"]
        return "\n".join(body) + "\n", len(asg) + 2, "target"
    body = ["def target(V):"] + ["    " + a for a in asg] + ["    pass", "    return 1", "def enter(V): return target(V)"]
    return "\n".join(body) + "\n", len(asg) + 2, "target"


class Lab:
    def __init__(self, names, values, style="function", hits=1, extra=None):
        self.names, self.values, self.style, self.hits = list(names), list(values), style, hits
        self.src, self.line, self.fn = source(self.names, style)
        self.code = compile(self.src, FILE, "exec")
        self.extra = dict(extra or {})
        self.g = {"__name__": "app_module", "V": self.values, **self.extra}

    def run(self, world, before=None, after=None, each=None):
        """before/after are called for events of the target frame at the tracepoint line only."""
        def b(frame, event, arg):
            if before and frame.f_code.co_filename == FILE and event == "line" and frame.f_lineno == self.line:
                return (before(frame),)

        def a(frame, event, arg, tok, items):
            if tok is not None and after:
                after(frame, tok[0], items)

        tr = Tracer(world, b, a)
        err = []
        bottom.run_in_thread(DRIVER, {
            "__name__": "driver", "each": each or (lambda h: None), "hits": self.hits, "code": self.code, "g": self.g,
            "module": self.style in ("module", "class"), "start": tr.start, "stop": tr.stop, "failed": err.append, "V": self.values})
        for e in tr.errors:
            if isinstance(e, AssertionError):
                raise e
            raise HarnessError(fmt_exc(e)) from e
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        if err:
            raise HarnessError("lab program failed: %r" % err[0]) from err[0]
        return tr
