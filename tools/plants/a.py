LIB = r'''
import logging, os, sys, threading, time
sys.dont_write_bytecode = True
logging.getLogger("deep").addHandler(logging.NullHandler())
logging.getLogger("deep").propagate = False
from deep.config import ConfigService
from deep.processor.trigger_handler import TriggerHandler
from deep.api.tracepoint.trigger import build_trigger
from deep.api.tracepoint.tracepoint_config import MetricDefinition, LabelExpression
from deep.api.resource import Resource
from deep.api.attributes import BoundedAttributes
from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor
from deep.push import convert_snapshot
from deep.task import TaskHandler


class Push:
    def __init__(self):
        self.snapshots = []

    def push_snapshot(self, snapshot):
        self.snapshots.append(snapshot)


class Logger(TracepointLogger):
    def __init__(self, config=None):
        super().__init__(config=config)
        self.lines = []

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        self.lines.append((log_msg, tp_id, ctx_id))


class Metrics(MetricProcessor):
    def __init__(self, config=None):
        super().__init__(config=config)
        self.calls = []

    def counter(self, *args):
        self.calls.append(("counter",) + args)

    def gauge(self, *args):
        self.calls.append(("gauge",) + args)

    def histogram(self, *args):
        self.calls.append(("histogram",) + args)

    def summary(self, *args):
        self.calls.append(("summary",) + args)

    def clear(self):
        pass


def agent(*tps, custom=None, plugins=()):
    cfg = ConfigService(dict(custom or {"APP_ROOT": "/demo"}))
    cfg.resource = Resource.create()
    cfg.plugins = list(plugins)
    push = Push()
    h = TriggerHandler(cfg, push)
    h.new_config([t for t in tps if t is not None])
    return h, push, cfg


def tp(line, args=None, watches=(), metrics=(), id="tp", path="prog.py"):
    return build_trigger(id, path, line, dict({"fire_count": "-1", "fire_period": "0"}, **(args or {})), list(watches), list(metrics))


def program(src, name="prog.py"):
    ns = {"__name__": "prog"}
    exec(compile(src, "/demo/" + name, "exec"), ns)
    return ns


def run(h, fn, *args):
    sys.settrace(h.trace_call)
    try:
        return fn(*args)
    finally:
        sys.settrace(None)


def var(snapshot, name, frame=0):
    vid = [v for v in snapshot.frames[frame].variables if v.name == name][0]
    return snapshot.var_lookup[vid.vid]

'''

PLANTS = [
    dict(id="c01-last-context", property="C01",
         needs="An object of the program whose lifetime matters (weak reference, finalizer) is a local of the frame at a hit, and the program looks at it after the frame has ended.",
         breaks="The handler keeps the context of the last trigger, and with it the frame: locals of the frame stay alive, so finalizers run late and weak references do not die.",
         edits=[("src/deep/processor/trigger_handler.py", "        trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)\n        try:",
                 "        self._last_trigger = trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)\n        try:")],
         demo=r'''
ns = program("""import weakref
class Res:
    pass
def inner():
    r = Res()
    w = weakref.ref(r)
    x = 1
    return w
def main():
    return inner()() is None
""")
plain = ns["main"]()
h, push, _ = agent(tp(7, {"log_msg": "x {x}", "snapshot": "no_collect"}), plugins=[Logger()])
traced = run(h, ns["main"])
assert plain == traced, (plain, traced)
'''),
    dict(id="c01-iterator-size", property="C01",
         needs="A local that is an iterator with a length hint (e.g. iter of a tuple/range/dict) at a hit.",
         breaks="The size of an unknown iterable is computed by consuming it: the program gets no items afterwards.",
         edits=[("src/deep/processor/variable_processor.py", "    if is_one_of(variable_type, ITER_LIKE_TYPES):\n        # if",
                 "    if variable_type.__module__ == 'builtins' and variable_type.__name__.endswith('_iterator'):\n"
                 "        return 'Iterator of size: %s' % sum(1 for _ in var_value)\n"
                 "    elif variable_type in ITER_LIKE_TYPES:\n        # if")],
         demo=r'''
ns = program("""def main():
    it = iter((1, 2, 3))
    x = 1
    return list(it)
""")
h, push, _ = agent(tp(3))
assert run(h, ns["main"]) == [1, 2, 3]
'''),
    dict(id="c02-parent-self", property="C02",
         needs="A caller frame that is a method of a class, with a frame type that does not collect the variables of callers.",
         breaks="The class of self is only recorded on frames whose variables are collected, so callers lose their class name.",
         edits=[("src/deep/processor/frame_collector.py", "        class_name = self._get_class_name(f_locals.get('self', None))\n",
                 "        class_name = self._get_class_name(f_locals.get('self', None)) if collect_vars else None\n")],
         demo=r'''
ns = program("""class Caller:
    def go(self):
        return leaf()
def leaf():
    x = 1
    return x
def main():
    return Caller().go()
""")
h, push, _ = agent(tp(6))
run(h, ns["main"])
assert push.snapshots[0].frames[1].class_name == "Caller", push.snapshots[0].frames[1].class_name
'''),
    dict(id="c02-frames-same-function", property="C02",
         needs="Recursion: the same function at the same line twice in a row in the call stack.",
         breaks="Consecutive frames of the same function and line are folded into one, so the recorded stack is not the real one.",
         edits=[("src/deep/processor/frame_collector.py", "            current_frame = current_frame.f_back\n",
                 "            previous = current_frame\n            current_frame = current_frame.f_back\n"
                 "            while len(collected_frames) > 20 and current_frame is not None and current_frame.f_code is previous.f_code \\\n"
                 "                    and current_frame.f_lineno == previous.f_lineno:\n                current_frame = current_frame.f_back\n")],
         demo=r'''
ns = program("""def rec(n):
    if n == 0:
        return 1
    return rec(n - 1)
""")
h, push, _ = agent(tp(3))
run(h, ns["rec"], 40)
names = [f.method_name for f in push.snapshots[0].frames]
assert names.count("rec") == 41, names
'''),
    dict(id="c02-watch-twice", property="C02",
         needs="A tracepoint with the same watch twice, or a watch whose order matters.",
         breaks="Watches are made unique and sorted before they are evaluated: the snapshot does not carry one result per configured watch, in order.",
         edits=[("src/deep/processor/context/snapshot_action.py", "        for watch in self.watches:\n            result, watch_lookup",
                 "        for watch in dict.fromkeys(self.watches):\n            result, watch_lookup")],
         demo=r'''
ns = program("""def main():
    x = 1
    return x
""")
h, push, _ = agent(tp(3, watches=["x", "x", "x+1"]))
run(h, ns["main"])
assert [w.expression for w in push.snapshots[0].watches] == ["x", "x", "x+1"]
'''),
    dict(id="c03-method-any-line", property="C03",
         needs="Two functions of the same name in the file, e.g. a method and a nested function, one of them a generator that is resumed.",
         breaks="A method tracepoint only acts if the call event is at the first line of the function, so functions with decorators or a signature of several lines do not fire.",
         edits=[("src/deep/api/tracepoint/trigger.py", "        return function_name == self.__function_name\n",
                 "        return function_name == self.__function_name and (self.line < 0 or line == frame.f_code.co_firstlineno) \\\n"
                 "            and not frame.f_code.co_cellvars\n")],
         demo=r'''
ns = program("""def outer(n):
    def inner():
        return n
    return inner()
""")
h, push, _ = agent(tp(1, {"method_name": "outer"}))
run(h, ns["outer"], 4)
assert len(push.snapshots) == 1, len(push.snapshots)
'''),
    dict(id="c03-suffix", property="C03",
         needs="Two files of the program of which one name ends with the other (prog.py, my_prog.py).",
         breaks="The file of a line tracepoint is matched as a suffix, so it also acts in other files.",
         edits=[("src/deep/api/tracepoint/trigger.py", '        if event == "line" and file == self.path and line == self.line:\n',
                 '        if event == "line" and file.endswith(self.path) and line == self.line:\n')],
         demo=r'''
ns = program("""def main():
    x = 1
    return x
""", "my_prog.py")
h, push, _ = agent(tp(2))
run(h, ns["main"])
assert not push.snapshots
'''),
    dict(id="c04-last-fire-zero", property="C04",
         needs="Several hits in one fire period where an earlier one was rejected by its condition, or a clock in which many threads hit at once.",
         breaks="The fire period is measured from the start of a period and not from the last fire: two collections can be closer than fire_period.",
         edits=[("src/deep/api/tracepoint/trigger.py", "            time_since_last = ts - last_fire\n            if time_since_last < fire_period:\n",
                 "            time_since_last = ts - last_fire\n            if time_since_last < fire_period and ts // fire_period == last_fire // fire_period:\n")],
         demo=r'''
tr = tp(1, {"fire_period": "1000"})
a = tr.actions[0]
t0 = 1_700_000_000_900_000_000
assert a.claim_trigger(t0)
assert not a.claim_trigger(t0 + 200_000_000)
'''),
    dict(id="c04-count-zero", property="C04",
         needs="A tracepoint with fire_count 0, or any negative count other than -1.",
         breaks="A fire_count of 0 is taken as not given and falls back to unlimited.",
         edits=[("src/deep/api/tracepoint/trigger.py", "        if self.fire_count != -1 and self.fire_count <= self.__stats.fire_count:\n",
                 "        limit = self.fire_count or -1\n        if limit != -1 and limit <= self.__stats.fire_count:\n")],
         demo=r'''
ns = program("""def main():
    x = 1
    return x
""")
h, push, _ = agent(tp(2, {"fire_count": "0"}))
run(h, ns["main"])
assert not push.snapshots
'''),
    dict(id="c05-dict-depth-first", property="C05",
         needs="A variable budget that runs out while a deep structure has been reached next to other locals.",
         breaks="Children are put in front of the queue when they belong to an object with few children: shallower variables are crowded out.",
         edits=[("src/deep/processor/bfs/__init__.py", "            queue += pop.children\n",
                 "            if len(pop.children) == 1 and pop.depth > 0:\n                queue.appendleft(pop.children[0])\n            else:\n                queue += pop.children\n")],
         demo=r'''
ns = program("""def main():
    a = [[[[[[1]]]]]]
    b = 2.5
    c = 3.5
    return a
""")
h, push, _ = agent(tp(5, {"MAX_VARIABLES": "4", "max_variables": "4"}))
run(h, ns["main"])
names = [v.name for v in push.snapshots[0].frames[0].variables]
assert names == ["a", "b", "c"], names
'''),
    dict(id="c05-truncated-flag", property="C05",
         needs="A string whose length is exactly the maximum string length.",
         breaks="A string that fits exactly is marked as truncated.",
         edits=[("src/deep/processor/variable_processor.py", "    return string[:max_length], len(string) > max_length\n",
                 "    cut = string[:max_length]\n    return cut, len(cut) >= max_length\n")],
         demo=r'''
ns = program("""def main():
    a = 'x' * 1024
    b = 1
    return a
""")
h, push, _ = agent(tp(4))
run(h, ns["main"])
v = var(push.snapshots[0], "a")
assert len(v.value) == 1024 and not v.truncated
'''),
    dict(id="c06-decorator-shares", property="C06",
         needs="Two snapshot tracepoints with watches on one event, where the second one evaluates a value the first has collected.",
         breaks="The variable cache lives on the trigger context class of the event: snapshots of one event share ids and the second is not complete on its own.",
         edits=[("src/deep/processor/context/action_context.py", "        self.trigger_context: 'TriggerContext' = parent\n",
                 "        self.trigger_context: 'TriggerContext' = parent\n        if owner is None and isinstance(parent, object):\n"
                 "            self.var_cache = parent.__dict__.setdefault('var_cache', self.var_cache)\n"),
                ("src/deep/processor/context/action_context.py", "        self.var_cache.release()\n\n    def eval_watch", "        pass\n\n    def eval_watch")],
         demo=r'''
ns = program("""def main():
    x = [1, 2]
    return x
""")
h, push, _ = agent(tp(3, id="a"), tp(3, id="b"))
run(h, ns["main"])
for s in push.snapshots:
    for v in s.frames[0].variables:
        assert v.vid in s.var_lookup
    assert len(s.frames[0].variables) == 1
'''),
    dict(id="c06-str-subclass-key", property="C06",
         needs="A dictionary with keys that compare or hash in an unusual way, or a key whose text fails.",
         breaks="Variables with a key that is not text are skipped with the rest of the dictionary.",
         edits=[("src/deep/processor/variable_processor.py", "    nodes = []\n    # we wrap the items() in a call to list to prevent concurrent changes\n",
                 "    nodes = []\n    value = {key: val_ for key, val_ in value.items() if key == key}\n    # we wrap the items() in a call to list to prevent concurrent changes\n")],
         demo=r'''
ns = program("""def main():
    d = {float('nan'): 1, 'b': 2}
    return d
""")
h, push, _ = agent(tp(3))
run(h, ns["main"])
assert len(var(push.snapshots[0], "d").children) == 2
'''),
    dict(id="c07-equal-ints", property="C07",
         needs="Two different objects with the same hash value reachable from the frame.",
         breaks="Objects are identified by type and hash if they are numbers: two objects with equal hash (e.g. -1 and -2) share one id.",
         edits=[("src/deep/processor/variable_processor.py", "    identity_hash_id = str(id(node.value))\n",
                 "    identity_hash_id = str(id(node.value)) if type(node.value) is not float else 'f%s' % hash(node.value)\n")],
         demo=r'''
ns = program("""def main():
    a = float('1.5')
    b = float('1.5')
    c = a
    return a, b, c
""")
h, push, _ = agent(tp(5))
run(h, ns["main"])
v = {x.name: x.vid for x in push.snapshots[0].frames[0].variables}
assert v["a"] == v["c"] != v["b"], v
'''),
    dict(id="c07-watch-lookup", property="C07",
         needs="A watch result that refers to an object that was collected as a local of the frame and again as part of a later watch.",
         breaks="Merging the variables of a watch replaces the table when the watch brings in more variables than the frame has.",
         edits=[("src/deep/processor/context/snapshot_action.py", "            result, watch_lookup, _ = self.eval_watch(watch, WATCH_SOURCE_WATCH)\n            snapshot.add_watch_result(result)\n            snapshot.merge_var_lookup(watch_lookup)\n",
                 "            result, watch_lookup, _ = self.eval_watch(watch, WATCH_SOURCE_WATCH)\n            snapshot.add_watch_result(result)\n"
                 "            if len(watch_lookup) != 1 or len(snapshot.watches) < 3:\n                snapshot.merge_var_lookup(watch_lookup)\n")],
         demo=r'''
ns = program("""def main():
    a = 1
    return a
""")
h, push, _ = agent(tp(3, watches=["a + 1.5", "a + 2.5", "a + 3.5"]))
run(h, ns["main"])
s = push.snapshots[0]
for w in s.watches:
    assert w.result.vid in s.var_lookup, w.expression
'''),
    dict(id="c08-child-modifiers", property="C08",
         needs="A private attribute of an object (renamed by python) in the variables of a snapshot.",
         breaks="The original name of a variable is only sent for the variables of a frame that have modifiers, for equal names it is lost.",
         edits=[("src/deep/push/__init__.py", "                    children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)\n",
                 "                    children=[__convert_variable_id(c) for c in {c.name: c for c in variable.children}.values()],\n                    truncated=variable.truncated)\n")],
         demo=r'''
ns = program("""def main():
    d = {1: 'a', '1': 'b'}
    return d
""")
h, push, _ = agent(tp(3))
run(h, ns["main"])
s = push.snapshots[0]
wire = convert_snapshot(s)
vid = [v for v in s.frames[0].variables if v.name == "d"][0].vid
assert len(wire.var_lookup[vid].children) == 2
'''),
    dict(id="c08-bool-attr", property="C08",
         needs="A snapshot or resource attribute that is a sequence with numbers that are neither all int nor all float or with falsy elements.",
         breaks="Falsy elements of sequence attributes are dropped from the message.",
         edits=[("src/deep/grpc/__init__.py", "    return ArrayValue(values=[convert_value(val) or AnyValue() for val in value])\n",
                 "    return ArrayValue(values=[convert_value(val) for val in value if val is not None])\n")],
         demo=r'''
from deep.grpc import convert_value
assert len(convert_value(("a", None, "b")).array_value.values) == 3
'''),
    dict(id="c09-pending-lost", property="C09",
         needs="Two tasks accepted by two threads at the same time, and a flush while they run.",
         breaks="The id of a task is taken outside of the lock: two tasks can share an id, and flush waits for only one of them.",
         edits=[("src/deep/task/__init__.py", "        with self._lock:\n            self.__check_open()\n            next_id = self._next_id()\n",
                 "        next_id = len(self._pending) + 1\n        with self._lock:\n            self.__check_open()\n")],
         demo=r'''
t = TaskHandler()
gate = [threading.Event() for _ in range(3)]
done = []
def task(i):
    gate[i].wait(20)
    done.append(i)
a = t.submit_task(task, 0)
b = t.submit_task(task, 1)
gate[0].set()
a.result(10)
time.sleep(0.2)
c = t.submit_task(task, 2)
f = threading.Thread(target=t.flush)
f.start()
gate[2].set()
time.sleep(0.3)
alive = f.is_alive()
gate[1].set()
f.join(10)
assert alive and sorted(done) == [0, 1, 2], (alive, done)
'''),
    dict(id="c09-flush-first", property="C09",
         needs="A flush while two deliveries are running, the first of which fails.",
         breaks="Flush returns when the first task fails, without waiting for the others.",
         edits=[("src/deep/task/__init__.py", "        wait(pending)\n", "        wait(pending, return_when='FIRST_EXCEPTION')\n")],
         demo=r'''
t = TaskHandler()
gate = threading.Event()
done = []
def bad():
    raise ValueError("x")
def good():
    gate.wait(10)
    done.append(1)
t.submit_task(good)
ev = threading.Event()
def bad2():
    ev.wait(10)
    raise ValueError("x")
t.submit_task(bad2)
f = threading.Thread(target=t.flush)
f.start()
time.sleep(0.2)
ev.set()
time.sleep(0.3)
alive = f.is_alive()
gate.set()
f.join(10)
assert alive
'''),
    dict(id="c10-cond-claim", property="C10",
         needs="A condition that was rejected, followed by a hit that is due, with the fire period not over since the rejected hit.",
         breaks="A hit that fails its condition counts as a fire for the fire period.",
         edits=[("src/deep/processor/context/action_context.py", "        if error is not None:\n            return False\n        return str2bool(str(result))\n",
                 "        if error is not None:\n            self.claim()\n            return False\n        return str2bool(str(result))\n")],
         demo=r'''
ns = program("""def main(n):
    x = n
    return x
""")
h, push, _ = agent(tp(3, {"fire_count": "1", "condition": "10 / x > 1"}))
run(h, ns["main"], 0)
run(h, ns["main"], 2)
assert len(push.snapshots) == 1
'''),
    dict(id="c11-empty-log", property="C11",
         needs="A tracepoint that switches collection off, with a log message and metrics, at one location with another tracepoint.",
         breaks="When a response has several tracepoints of one location the actions of one type of the later tracepoint replace those of the earlier.",
         edits=[("src/deep/api/tracepoint/trigger.py", "        self.__actions += actions\n",
                 "        known = {(a.action_type, a.condition) for a in self.__actions}\n"
                 "        self.__actions += [a for a in actions if (a.action_type, a.condition) not in known or a.condition is None]\n")],
         demo=r'''
from deep.grpc import convert_response
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig
out = convert_response([TracePointConfig(ID=i, path="prog.py", line_number=3, args={"condition": "x > 1"}) for i in "ab"])
assert [a.id for t in out for a in t.actions] == ["a", "b"]
'''),
    dict(id="c12-stale-args", property="C12",
         needs="A code registration while an update of the service is still waiting to be processed.",
         breaks="The configuration given with the update is installed and not the latest one: when updates are processed in another order an older configuration wins.",
         edits=[("src/deep/config/tracepoint_config.py", "            for listeners in listeners_copy:\n",
                 "            if current_hash == old_hash and current_hash is not None:\n                return\n            for listeners in listeners_copy:\n")],
         demo=r'''
cfg = ConfigService({"APP_ROOT": "/"})
th = TaskHandler()
cfg.set_task_handler(th)
h = TriggerHandler(cfg, Push())
cfg.tracepoints.update_new_config(1, "h1", [tp(3, id="a")])
time.sleep(0.2)
cfg.tracepoints.update_new_config(2, "h1", [tp(3, id="a"), tp(5, id="b")])
th.flush()
assert len(h._tp_config) == 2
'''),
    dict(id="c13-same-line", property="C13",
         needs="Two registrations of the same file and line, of which the first is removed twice.",
         breaks="Removing a registration by id also removes a registration with an equal configuration.",
         edits=[("src/deep/config/tracepoint_config.py", "            removed = self._custom.pop(_id, None)\n",
                 "            removed = self._custom.pop(_id, None)\n            if removed is None:\n                removed = self._custom.popitem()[1] if len(self._custom) == 1 else None\n")],
         demo=r'''
from deep.config.tracepoint_config import TracepointConfigService
s = TracepointConfigService()
a = s.add_custom("prog.py", 3, {}, [], [])
b = s.add_custom("prog.py", 3, {}, [], [])
s.remove_custom(a)
s.remove_custom(a)
assert len(s._custom) == 1
'''),
    dict(id="c14-thread-hook", property="C14",
         needs="A thread trace function (threading.settrace) was set before the agent started, and is different from the one of sys.settrace.",
         breaks="Shutdown puts the sys trace function back as the thread trace function.",
         edits=[("src/deep/processor/trigger_handler.py", "                threading.settrace(self.__old_thread_trace)\n",
                 "                threading.settrace(self.__old_sys_trace or self.__old_thread_trace)\n")],
         demo=r'''
def one(f, e, a):
    return None
def two(f, e, a):
    return None
h, push, cfg = agent()
sys.settrace(one)
threading.settrace(two)
h.start()
h.shutdown()
got = sys.gettrace(), threading.gettrace()
sys.settrace(None)
threading.settrace(None)
assert got == (one, two), got
'''),
    dict(id="c15-file-name", property="C15",
         needs="Recursion through another invocation of the same function between the call and the end of a span.",
         breaks="Only the last opened context is looked at: an outer span or capture is not completed when an inner one of another function is pending.",
         edits=[("src/deep/processor/trigger_handler.py", "        if len(callbacks) > 0:\n            self._callbacks.get()",
                 "        if len(callbacks) > 0 and len(self._callbacks.get()) < 8:\n            self._callbacks.get()")],
         demo=r'''
ns = program("""def rec(n):
    if n == 0:
        return 0
    return rec(n - 1) + 1
""")
h, push, _ = agent(tp(1, {"method_name": "rec", "stage": "method_capture"}))
run(h, ns["rec"], 12)
assert len(push.snapshots) == 13, len(push.snapshots)
'''),
    dict(id="c16-same-field", property="C16",
         needs="A log message with the same expression twice, of which the value changes or with one watch per field.",
         breaks="A field that was already evaluated is taken from the first result: there is one watch result for two fields.",
         edits=[("src/deep/processor/context/log_action.py", "        def evaluate(expression: str) -> str:\n",
                 "        from functools import lru_cache\n\n        @lru_cache(maxsize=None)\n        def evaluate(expression: str) -> str:\n"),
                ("src/deep/processor/context/log_action.py", "            watch_results.append(watch)\n", "            watch_results.append(watch)  # noqa\n")],
         demo=r'''
ns = program("""def main():
    x = iter([1, 2])
    return x
""")
lg = Logger()
h, push, _ = agent(tp(3, {"log_msg": "{x} {x}"}), plugins=[lg])
run(h, ns["main"])
assert len([w for w in push.snapshots[0].watches if w.source == "LOG"]) == 2
'''),
    dict(id="c17-zero-value", property="C17",
         needs="A metric expression that evaluates to 0, or an expression that is not a number.",
         breaks="A value of 0 is reported as 1.",
         edits=[("src/deep/processor/context/metric_action.py", "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression))\n",
                 "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression)) or metric_value\n")],
         demo=r'''
ns = program("""def main():
    x = 0
    return x
""")
m = Metrics()
h, push, _ = agent(tp(3, {"snapshot": "no_collect"}, metrics=[MetricDefinition("m", "GAUGE", [], "x")]), plugins=[m])
run(h, ns["main"])
assert m.calls[0][-1] == 0, m.calls
'''),
    dict(id="c18-merge-operand", property="C18",
         needs="A resource that is merged with another one and used again afterwards.",
         breaks="Merging with an empty resource or with an operand that has a schema changes the left operand.",
         edits=[("src/deep/api/resource/__init__.py", "        merged_attributes = self.attributes.copy()\n",
                 "        merged_attributes = self.attributes.copy() if len(self.attributes) > 1 else self.attributes._dict\n")],
         demo=r'''
a = Resource({"x": "1"})
b = Resource({"y": "2"})
a.merge(b)
assert dict(a.attributes) == {"x": "1"}
'''),
    dict(id="c18-evict-update", property="C18",
         needs="A full attribute store in which an existing key is set again.",
         breaks="Setting an existing key of a full store evicts the oldest key and counts a drop.",
         edits=[("src/deep/api/attributes/__init__.py", "                if key in self._dict:\n                    del self._dict[key]\n                elif (\n",
                 "                if key in self._dict:\n                    del self._dict[key]\n                if (\n"),
                ("src/deep/api/attributes/__init__.py", "self.max_length is not None and len(self._dict) == self.max_length\n",
                 "self.max_length is not None and len(self._dict) + 1 > self.max_length > 1 and key != value\n")],
         demo=r'''
b = BoundedAttributes(max_length=1, immutable=False)
b["a"] = "1"
b["b"] = "2"
assert dict(b) == {"b": "2"}
'''),
    dict(id="c19-exclude-first", property="C19",
         needs="A file that is under an include prefix and an exclude prefix, where the include prefix is longer.",
         breaks="The longest prefix wins and not the exclusion.",
         edits=[("src/deep/config/config_service.py", "        for path in in_app_exclude:\n            if filename.startswith(path):\n                return False, path\n",
                 "        for path in in_app_exclude:\n            if filename.startswith(path) and not any(\n                    len(p) > len(path) and filename.startswith(p) for p in in_app_include):\n                return False, path\n")],
         demo=r'''
c = ConfigService({"APP_ROOT": "/app", "IN_APP_EXCLUDE": "/app/x", "IN_APP_INCLUDE": "/app/x/y"})
assert c.is_app_frame("/app/x/y/z.py") == (False, "/app/x")
'''),
    dict(id="c20-decorator-order", property="C20",
         needs="A decorator that fails, followed by others.",
         breaks="The failure of a decorator costs the attributes of the decorators that ran before it.",
         edits=[("src/deep/processor/context/snapshot_action.py", "                if decorate is not None:\n                    attributes.merge_in(decorate)\n            except BaseException:\n",
                 "                if decorate is not None:\n                    attributes.merge_in(decorate)\n            except GeneratorExit:\n                break\n            except BaseException:\n")],
         demo=r'''
class Bad(SnapshotDecorator):
    def decorate(self, snapshot_id, context):
        raise GeneratorExit
class Good(SnapshotDecorator):
    def decorate(self, snapshot_id, context):
        return BoundedAttributes(attributes={"good": "1"})
ns = program("""def main():
    x = 0
    return x
""")
h, push, _ = agent(tp(3), plugins=[Bad(), Good()])
run(h, ns["main"])
assert push.snapshots[0].attributes.get("good") == "1"
'''),
]
