LIB = r'''
import logging, os, sys, threading, time
sys.dont_write_bytecode = True
logging.getLogger("deep").addHandler(logging.NullHandler())
logging.getLogger("deep").propagate = False
from deep.config import ConfigService
from deep.processor.trigger_handler import TriggerHandler
from deep.api.tracepoint.trigger import build_trigger
from deep.api.tracepoint.tracepoint_config import MetricDefinition, LabelExpression
from deep.api.resource import Resource
from deep.api.attributes import BoundedAttributes
from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor
from deep.push import convert_snapshot
from deep.task import TaskHandler


class Push:
    def __init__(self):
        self.snapshots = []

    def push_snapshot(self, snapshot):
        self.snapshots.append(snapshot)


class Logger(TracepointLogger):
    def __init__(self, config=None):
        super().__init__(config=config)
        self.lines = []

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        self.lines.append((log_msg, tp_id, ctx_id))


class Metrics(MetricProcessor):
    def __init__(self, config=None):
        super().__init__(config=config)
        self.calls = []

    def counter(self, *args):
        self.calls.append(("counter",) + args)

    def gauge(self, *args):
        self.calls.append(("gauge",) + args)

    def histogram(self, *args):
        self.calls.append(("histogram",) + args)

    def summary(self, *args):
        self.calls.append(("summary",) + args)

    def clear(self):
        pass


def agent(*tps, custom=None, plugins=()):
    cfg = ConfigService(dict(custom or {"APP_ROOT": "/demo"}))
    cfg.resource = Resource.create()
    cfg.plugins = list(plugins)
    push = Push()
    h = TriggerHandler(cfg, push)
    h.new_config([t for t in tps if t is not None])
    return h, push, cfg


def tp(line, args=None, watches=(), metrics=(), id="tp", path="prog.py"):
    return build_trigger(id, path, line, dict({"fire_count": "-1", "fire_period": "0"}, **(args or {})), list(watches), list(metrics))


def program(src, name="prog.py"):
    ns = {"__name__": "prog"}
    exec(compile(src, "/demo/" + name, "exec"), ns)
    return ns


def run(h, fn, *args):
    sys.settrace(h.trace_call)
    try:
        return fn(*args)
    finally:
        sys.settrace(None)


def var(snapshot, name, frame=0):
    vid = [v for v in snapshot.frames[frame].variables if v.name == name][0]
    return snapshot.var_lookup[vid.vid]

'''

PLANTS = [
    dict(id="c01-wrapped-type", property="C01",
         needs="An object of the program that does something when an attribute it does not have is read (__getattr__ of a lazy object, a mock).",
         breaks="The type of a value is looked up through its __wrapped__ attribute, so collecting it runs __getattr__ of the program.",
         edits=[("src/deep/processor/variable_processor.py", "    variable_type = type(node.value)\n",
                 "    # report what a decorator wraps\n    try:\n        variable_type = type(getattr(node.value, '__wrapped__', node.value))\n"
                 "    except BaseException:\n        variable_type = type(node.value)\n")],
         demo=r'''
ns = program("""class Lazy:
    loads = 0
    def __getattr__(self, name):
        Lazy.loads += 1
        raise AttributeError(name)
def main():
    p = Lazy()
    x = 1
    return Lazy.loads
""")
plain = ns["main"]()
h, push, _ = agent(tp(8))
traced = run(h, ns["main"])
assert plain == traced, (plain, traced)
'''),
    dict(id="c09-back-pressure", property="C09",
         needs="More than 40 snapshots waiting for delivery (a slow service and a busy location).",
         breaks="When many snapshots are waiting the next one is converted and sent on the thread that hit the tracepoint.",
         edits=[("src/deep/push/push_service.py", "from deep.utils import snapshot", "from deep.task import TaskHandler\nfrom deep.utils import snapshot"),
               ("src/deep/push/push_service.py", "        task = self.task_handler.submit_task(self._push_task, snapshot)\n        task.add_done",
                 "        if isinstance(self.task_handler, TaskHandler) and len(self.task_handler._pending) > 40:\n            # too many are waiting: slow down the producer\n"
                 "            return self._push_task(snapshot)\n"
                 "        future = self.task_handler.submit_task(self._push_task, snapshot)\n        future.add_done")],
         demo=r'''
import deep.push.push_service as ps
seen = []
gate = threading.Event()
class Stub:
    def __init__(self, channel):
        pass
    def send(self, msg, metadata=None):
        seen.append(threading.get_ident())
        if threading.get_ident() != main_id:
            gate.wait(20)
ps.SnapshotServiceStub = Stub
main_id = threading.get_ident()
class Grpc:
    channel = None
    def metadata(self):
        return []
handler = TaskHandler()
push = ps.PushService(Grpc(), handler)
ns = program("""def main():
    for i in range(60):
        x = i
    return x
""")
h, p, _ = agent(tp(3))
run(h, ns["main"])
for s in p.snapshots:
    push.push_snapshot(s)
gate.set()
handler.flush()
assert len(seen) == 60 and main_id not in seen
'''),
    dict(id="c10-metric-condition", property="C10",
         needs="A tracepoint with a condition, metrics and snapshot=no_collect at a hit that the condition rejects.",
         breaks="A metric of a tracepoint that does not collect ignores the condition.",
         edits=[("src/deep/api/tracepoint/trigger.py",
                 "        return None\n\n    condition = args[CONDITION] if CONDITION in args else None\n    return LocationAction(tp_id, condition, {\n        'metrics': metrics,",
                 "        return None\n\n    condition = args[CONDITION] if CONDITION in args and args.get(SNAPSHOT) != NO_COLLECT else None\n    return LocationAction(tp_id, condition, {\n        'metrics': metrics,")],
         demo=r'''
ns = program("""def main():
    for i in range(4):
        x = i
    return x
""")
m = Metrics()
h, push, _ = agent(tp(3, {"condition": "i == 2", "snapshot": "no_collect"}, metrics=[MetricDefinition("m", "COUNTER", [])]), plugins=[m])
run(h, ns["main"])
assert len(m.calls) == 1, m.calls
'''),
    dict(id="c12-same-hash", property="C12",
         needs="An UPDATE whose hash equals the hash the agent has (e.g. a service that does not set the hash) with other tracepoints.",
         breaks="An update with the hash that is installed is treated as no change, so an older configuration stays in force.",
         edits=[("src/deep/poll/poll.py",
                 "            self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,\n                                                      convert_response(response.response))\n",
                 "            if response.current_hash != self.config.tracepoints.current_hash:\n"
                 "                self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,\n                                                          convert_response(response.response))\n")],
         demo=r'''
import deep.poll.poll as pp
from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig
answers = []
class Stub:
    def __init__(self, channel):
        pass
    def poll(self, req, metadata=None):
        return answers.pop(0)
pp.PollConfigStub = Stub
class Grpc:
    channel = None
    def metadata(self):
        return []
cfg = ConfigService({"APP_ROOT": "/demo"})
cfg.resource = Resource.create()
poll = pp.LongPoll(cfg, Grpc())
for name in "ab":
    answers.append(PollResponse(ts_nanos=1, current_hash="", response_type=ResponseType.UPDATE,
                                response=[TracePointConfig(ID=name, path="prog.py", line_number=3)]))
    poll.poll()
answers.append(PollResponse(ts_nanos=1, current_hash="h", response_type=ResponseType.UPDATE,
                            response=[TracePointConfig(ID="c", path="prog.py", line_number=3)]))
poll.poll()
answers.append(PollResponse(ts_nanos=1, current_hash="h", response_type=ResponseType.UPDATE,
                            response=[TracePointConfig(ID="d", path="prog.py", line_number=3)]))
poll.poll()
ids = [a.id for t in cfg.tracepoints.current_config for a in t.actions]
assert ids == ["d"], ids
'''),
    dict(id="c13-unregister-stopped", property="C13",
         needs="A handle that is unregistered while the agent is shut down, before it is started again.",
         breaks="Unregistering while the agent is stopped does nothing: the tracepoint is active again after a restart.",
         edits=[("src/deep/api/deep.py", "        self.__tpServ.remove_custom(self.__id)\n",
                 "        if self.__tpServ._task_handler._open:\n            self.__tpServ.remove_custom(self.__id)\n")],
         demo=r'''
from deep.api.deep import TracepointRegistration
cfg = ConfigService({"APP_ROOT": "/demo"})
tasks = TaskHandler()
cfg.set_task_handler(tasks)
seen = []
class L:
    def config_change(self, ts, old_hash, current_hash, old_config, new_config):
        seen.append(len(new_config))
cfg.add_listener(L())
reg = TracepointRegistration(cfg.tracepoints.add_custom("prog.py", 3, {}, [], []), cfg.tracepoints)
tasks.flush()
reg.unregister()
tasks.reopen()
cfg.tracepoints.refresh()
tasks.flush()
assert seen[-1] == 0, seen
'''),
    dict(id="c14-all-threads", property="C14",
         needs="A thread that was running before start with a trace function of its own (a debugger, coverage).",
         breaks="start replaces the trace function of every running thread; shutdown cannot put them back.",
         edits=[("src/deep/processor/trigger_handler.py", "        sys.settrace(self.trace_call)\n        threading.settrace(self.trace_call)\n",
                 "        sys.settrace(self.trace_call)\n        getattr(threading, 'settrace_all_threads', threading.settrace)(self.trace_call)\n")],
         demo=r'''
def mine(frame, event, arg):
    return None
ready, go = threading.Event(), threading.Event()
got = []
def other():
    sys.settrace(mine)
    ready.set()
    go.wait(20)
    len([1])
    got.append(sys.gettrace())
t = threading.Thread(target=other)
t.start()
ready.wait(20)
cfg = ConfigService({"APP_ROOT": "/demo"})
h = TriggerHandler(cfg, Push())
h.start()
h.shutdown()
go.set()
t.join()
assert got == [mine], got
'''),
    dict(id="c20-same-name", property="C20",
         needs="Two active plugins whose classes have the same name (from different modules).",
         breaks="A plugin with the name of a plugin that is loaded already is skipped.",
         edits=[("src/deep/api/plugin/__init__.py", "            if not plugin_instance.is_active():\n",
                 "            if not plugin_instance.is_active() or plugin_instance.name in [pl.name for _, pl in loaded]:\n")],
         demo=r'''
import types
from deep.api.plugin import load_plugins
for mod in ("pa", "pb"):
    m = types.ModuleType(mod)
    m.Extra = type("Extra", (Plugin,), {"__module__": mod})
    sys.modules[mod] = m
cfg = ConfigService({"APP_ROOT": "/demo"})
loaded = [type(p).__module__ for p in load_plugins(cfg, ["pa.Extra", "pb.Extra"])]
assert "pa" in loaded and "pb" in loaded, loaded
'''),
]
