"""C20 Plugins are optional: ordered, skipped when inactive, isolated when faulty."""
NO_PRELOAD = True
import collections
import json
import os
import subprocess
import sys
import threading

from hypothesis import strategies as st

from vlib import agentlab, boot, labplugins, world
from vlib.agentlab import Net
from vlib.core import HarnessError, InjectedBaseFault, InjectedFault, Part, agent_must_not_raise, check
from vlib.world import wait_until

META = {"assumptions": [
    "plugins of the same order can come in any sequence",
    "a plugin whose is_active or order fails can be loaded or not; the others are loaded",
    "a plugin is not configured twice; the name of a plugin does not fail; an order that cannot be compared is not generated",
    "only the first tracepoint logger is used (C17); it may or may not be replaced by the next when it fails",
    "failing includes returning something that is not a resource, attributes or a span",
    "plugins do not fail with KeyboardInterrupt",
]}

BUILTIN = {"OTelPlugin": "deep.api.plugin.otel", "PythonPlugin": "deep.api.plugin.python", "PrometheusPlugin": "deep.api.plugin.metric.prometheus_metrics",
           "OTelMetrics": "deep.api.plugin.metric.otel_metrics"}
OFF = ["False", "false", False, "0", "no", "F", "off"]
ON = ["True", "true", True, "1", "yes", "t"]


def setup():
    agentlab.install()
    import deep
    if not os.path.abspath(deep.__file__).startswith(boot.DEEP_DIR):
        raise HarnessError("deep was imported from %s" % deep.__file__)
    sys.meta_path.insert(0, Broken())


class Broken:
    """Modules `vlibbroken.<kind>_<n>` that fail while they are imported."""

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name == "vlibbroken":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        if name.startswith("vlibbroken."):
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if module.__name__ == "vlibbroken":
            module.__path__ = []
            return
        kind = module.__name__.split(".")[1].split("_")[0]
        if kind == "syntax":
            exec("def (", module.__dict__)
        if kind == "importerror":
            raise ImportError("a dependency")
        if kind == "notenabled":
            from deep.api.plugin import DidNotEnable
            raise DidNotEnable("a dependency")
        if kind == "exit":
            raise SystemExit(2)
        if kind == "base":
            raise InjectedBaseFault("import")
        if kind == "exc":
            raise InjectedFault("import")


# --- loading ---------------------------------------------------------------------------------------------------------------------

def run_load(case):
    rec = world.Recorder()
    labplugins.reset(rec)
    custom, env, names = {}, {}, []
    want, maybe, orders = [], set(), {}
    for i, p in enumerate(case["plugins"]):
        tag = "Plug%d" % i
        kind = p["kind"]
        if kind == "broken-name":
            names.append(["nodots", "", ".", "vlib.labplugins.", "no.such.module.X", "vlib.labplugins.NoSuchClass", "os.path", "math.pi", "json.dumps", 5, None]
                         [p["n"] % 11])
            continue
        if kind == "broken-module":
            names.append("vlibbroken.%s_%d.%s" % (["syntax", "importerror", "notenabled", "exit", "base", "exc"][p["n"] % 6], i, tag))
            continue
        spec = labplugins.TABLE[tag] = {"roles": p["roles"], "order": p["order"]}
        names.append("vlib.labplugins.%s" % tag)
        orders[tag] = p["order"] or 0
        key = "PLUGIN_%s" % tag.upper()
        if p["named"] == 2 and kind not in ("on", "off"):
            # plugins of different modules can have one name
            spec["class_name"] = "Extra"
            key = None
        elif p["named"]:
            spec["name"] = "given_%d" % i
            key = "PLUGIN_GIVEN_%d" % i
        if kind == "ok":
            want.append(tag)
        elif kind == "on":
            (custom if p["via"] else env)[key] = ON[p["n"] % len(ON)]
            want.append(tag)
        elif kind == "off":
            (custom if p["via"] else env)[key] = OFF[p["n"] % len(OFF)]
        elif kind == "construct":
            spec["construct"] = ["exc", "base", "exit", "stop"][p["n"] % 4]
        elif kind == "inactive":
            spec["active"] = False
        elif kind == "active-fails":
            spec["active"] = ["exc", "base"][p["n"] % 2]
            maybe.add(tag)
        elif kind == "order-fails":
            spec["order"] = ["exc", "base"][p["n"] % 2]
            maybe.add(tag)
    for b in BUILTIN:
        if b in case["off"]:
            (custom if case["off_via"] else env)["PLUGIN_%s" % b.upper()] = "False"
        else:
            want.append(b)
            orders[b] = 0
    env = {"DEEP_" + k: str(v) for k, v in env.items()}
    from deep.api.plugin import load_plugins
    from deep.config import ConfigService
    try:
        os.environ.update(env)
        with agent_must_not_raise("load_plugins"):
            loaded = load_plugins(ConfigService(custom), names)
    finally:
        for k in env:
            os.environ.pop(k, None)
    got = [getattr(p, "tag", type(p).__name__) for p in loaded]
    count = collections.Counter(got)
    for w in want:
        check(count[w] == 1, "plugin %s is loaded %d times, loaded are %s", w, count[w], got, sig="load:%s" % ("builtin" if w in BUILTIN else "custom"))
    extra = [g for g in got if g not in want and g not in maybe]
    check(not extra, "plugins that are switched off or fail are loaded: %s", extra, sig="extra")
    seq = [orders[g] for g in got if g in orders and g not in maybe]
    check(seq == sorted(seq), "the plugins %s are in the order %s", got, seq, sig="order")
    kinds = {p["kind"] for p in case["plugins"]}
    return {"nontrivial": bool(kinds - {"ok", "on"}) or len(set(seq)) > 1, "labels": sorted(kinds), "observed": {"loaded": got, "orders": seq}}


KINDS = ["ok", "ok", "ok", "on", "off", "construct", "inactive", "active-fails", "order-fails", "broken-name", "broken-module"]


def loads():
    p = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "n": st.integers(0, 30), "named": st.integers(0, 2), "via": st.booleans(),
                               "roles": st.lists(st.sampled_from(labplugins.ROLES), max_size=3, unique=True), "order": st.one_of(st.integers(-5, 5), st.integers(-5, 5), st.sampled_from([None, 0.5, -0.5, 10 ** 12, -10 ** 12]))})
    return st.fixed_dictionaries({"plugins": st.lists(p, max_size=8), "off": st.lists(st.sampled_from(sorted(BUILTIN)), max_size=4, unique=True),
                                  "off_via": st.booleans()})


# --- missing dependencies (a fresh interpreter for each) ------------------------------------------------------------------------------

SCRIPT = r'''
import json, sys, os
case = json.loads(sys.argv[1])
sys.path.insert(0, case["src"])
class Missing:
    def find_spec(self, name, path=None, target=None):
        for m in case["missing"]:
            if name == m or name.startswith(m + "."):
                if case["how"] == "absent" or case["how"] == "empty" and name != m:
                    raise ModuleNotFoundError("No module named " + name, name=name)
                import importlib.machinery
                return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        if case["how"] == "empty":
            module.__path__ = []
            return
        if case["how"] == "exit":
            raise SystemExit(3)
        raise {"error": RuntimeError, "base": BaseException, "importerror": ImportError}[case["how"]]("broken")
sys.meta_path.insert(0, Missing())
import logging
logging.getLogger("deep").addHandler(logging.NullHandler())
logging.getLogger("deep").propagate = False
import deep
from deep.api.plugin import load_plugins
from deep.config import ConfigService
out = {"loaded": [type(p).__name__ for p in load_plugins(ConfigService({}))]}
agent = deep.start({"SERVICE_URL": "127.0.0.1:1", "SERVICE_SECURE": "False", "POLL_TIMER": 1000, "NO_TRACE": True})
out["started"] = agent.started
out["plugins"] = [type(p).__name__ for p in agent.config.plugins]
out["version"] = agent.config.resource.attributes.get("python_version") is not None
agent.shutdown()
print("RESULT" + json.dumps(out))
sys.stdout.flush()
os._exit(0)
'''


def run_deps(case):
    missing = case["missing"]
    r = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps({"src": boot.SRC, "missing": missing, "how": case["how"]})], capture_output=True, text=True,
                       timeout=100, cwd="/")
    lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
    check(lines, "with %s %s the agent does not start: %s", missing, case["how"], r.stderr[-1500:], sig="start")
    out = json.loads(lines[0][6:])
    want = {"PythonPlugin"}
    if "prometheus_client" not in missing:
        want.add("PrometheusPlugin")
    if "opentelemetry" not in missing:
        if "opentelemetry.sdk" not in missing and "opentelemetry.trace" not in missing:
            want.add("OTelPlugin")
        if "opentelemetry.metrics" not in missing:
            want.add("OTelMetrics")
    if "opentelemetry.metrics" in missing:
        want.discard("OTelPlugin")    # the sdk needs it; whatever it does
    for what in ("loaded", "plugins"):
        got = [g for g in out[what] if not (g == "OTelPlugin" and "opentelemetry.metrics" in missing)]
        check(sorted(got) == sorted(want), "with %s %s the plugins are %s, expected %s", missing, case["how"], got, sorted(want), sig="deps")
    check(out["started"] and out["version"], "the agent with %s %s: %s", missing, case["how"], out, sig="start")
    return {"nontrivial": bool(missing), "labels": [case["how"]], "observed": out}


def deps_cases(tier):
    sets = [[], ["prometheus_client"], ["opentelemetry"], ["opentelemetry.sdk"], ["prometheus_client", "opentelemetry"], ["opentelemetry.metrics"],
            ["opentelemetry.trace"], ["prometheus_client", "opentelemetry.sdk"]]
    hows = ["absent", "error", "importerror", "base", "exit", "empty"]
    for i, m in enumerate(sets):
        for j, h in enumerate(hows):
            if h == "empty" and m in (["opentelemetry.metrics"], ["opentelemetry.trace"]):
                continue
            if tier == "thorough" or h == "absent" or (i + j) % 3 == 0 and m:
                yield {"missing": m, "how": h}


# --- faulty callbacks ------------------------------------------------------------------------------------------------------------------

APP = '''def target(n):
    a = n
    b = a + 1
    return b


def outer(n):
    c = target(n)
    return c
'''
FILE = "/app/x/prog.py"
METRICS = ["counter", "gauge", "histogram", "summary"]


class Sabotage:
    """Makes what the built-in plugins rely on fail."""

    def __init__(self, what):
        self.what = what
        self.undo = []

    def patch(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        def broken(*a, **k):
            raise (InjectedFault if self.what["kind"] == "exc" else InjectedBaseFault)("library")
        import platform
        import opentelemetry.trace
        import prometheus_client
        for w in self.what["set"]:
            if w == "otel-provider":
                self.patch(opentelemetry.trace, "get_tracer_provider", broken)
            if w == "otel-tracer":
                self.patch(opentelemetry.trace, "get_tracer", broken)
            if w == "otel-current":
                self.patch(opentelemetry.trace, "get_current_span", broken)
            if w == "platform":
                self.patch(platform, "python_version", broken)
            if w == "prom-unregister":
                self.patch(prometheus_client.REGISTRY, "unregister", broken)
        return self

    def __exit__(self, *a):
        for obj, name, value in reversed(self.undo):
            setattr(obj, name, value)
        import prometheus_client
        for c in [c for c in list(prometheus_client.REGISTRY._collector_to_names) if any("vlibm" in n for n in prometheus_client.REGISTRY._collector_to_names[c])]:
            prometheus_client.REGISTRY.unregister(c)


SERIAL = [0]


def run_agent(case):
    from deep.api import Deep
    from deep.config import ConfigService
    from deep.config.tracepoint_config import ConfigUpdateListener
    installed = threading.Event()

    class Listener(ConfigUpdateListener):
        def config_change(self, ts, old_hash, current_hash, old_config, new_config):
            if len(new_config) == 3:
                installed.set()
    rec = world.Recorder()
    labplugins.reset(rec)
    for i, p in enumerate(case["plugins"]):
        labplugins.TABLE["Plug%d" % i] = {"roles": p["roles"], "order": p["order"], "faults": p["faults"]}
    specs = dict(labplugins.TABLE)
    SERIAL[0] += 1
    metrics = [{"name": "vlibm%d_%s" % (SERIAL[0], m), "type": m.upper(), "expr": "n", "ns": "ns", "help": "help", "unit": "unit"} for m in METRICS]
    args = {"fire_count": "-1", "fire_period": "0"}
    tps = [world.to_proto(t) for t in (
        {"id": "T1", "path": "prog.py", "line": 2, "args": dict(args, log_msg="tp {n}", span="line"), "watches": ["n"], "metrics": metrics},
        {"id": "T2", "path": "prog.py", "line": 0, "args": dict(args, method_name="outer", span="method")},
        {"id": "T3", "path": "prog.py", "line": 3, "args": dict(args, snapshot="no_collect", log_msg="plain {a}")})]

    def on_poll(request, n):
        from deepproto.proto.poll.v1 import poll_pb2
        return poll_pb2.PollResponse(ts_nanos=1, current_hash="h", response_type=poll_pb2.ResponseType.UPDATE, response=tps)
    net = agentlab.NET[0] = Net(on_poll)
    ns = {"__name__": "app_module"}
    exec(compile(APP, FILE, "exec"), ns)
    custom = {"SERVICE_URL": "fake:1", "SERVICE_SECURE": "False", "POLL_TIMER": 1000, "LOGGING_CONF": None, "APP_ROOT": "/app", "PLUGINS": labplugins.names()}
    builtin = [b for b in BUILTIN if b not in case["off"]]
    for b in case["off"]:
        custom["PLUGIN_%s" % b.upper()] = False
    results, before = [], (sys.gettrace(), threading.gettrace())
    agent = None
    with Sabotage(case["sabotage"]):
        try:
            with agent_must_not_raise("start"):
                config = ConfigService(custom)
                agent = Deep(config)
                config.add_listener(Listener())
                agent.start()
            check(agent.started is True, "the agent is not started", sig="start")
            got = sorted(type(p).__name__ for p in agent.config.plugins)
            check(got == sorted(builtin + list(specs)), "the plugins are %s", got, sig="load")
            order = [specs[type(p).__name__]["order"] if type(p).__name__ in specs else 0 for p in agent.config.plugins]
            check(order == sorted(order), "the order of the plugins is %s", order, sig="order")
            # the resource, as the service gets it
            keys = {a.key for a in net.polls[0].resource.attributes} if net.polls else None
            check(keys is not None, "the agent did not poll", sig="start")
            judge_resource(keys, specs, case, builtin, "poll request")
            check(installed.wait(10), "the tracepoints of the service are not installed", sig="installed")
            marks = []
            spans = len(SPANS.started), len(SPANS.ended)
            for n in range(case["hits"]):
                marks.append(len(rec.items))
                results.append(ns["outer"](n))
            marks.append(len(rec.items))
            check(results == [n + 1 for n in range(case["hits"])], "the application computes %s", results, sig="app")
            due = 2 * case["hits"]
            ok = wait_until(lambda: len(net.sends) >= due, 10)
            check(ok, "%d of %d snapshots were delivered", len(net.sends), due, sig="delivered")
            judge_builtin(case, builtin, spans)
            m = len(rec.items)
            with agent_must_not_raise("shutdown"):
                agent.shutdown()
            judge(case, specs, builtin, rec, net, marks, m)
        finally:
            if agent is not None:
                try:
                    agent.shutdown()
                except BaseException:  # noqa: B902
                    pass
            sys.settrace(before[0])
            threading.settrace(before[1])
            pool = getattr(getattr(agent, "task_handler", None), "_pool", None)
            if pool is not None:
                pool.shutdown(wait=False)
    failed = [i for i in rec.items if i["kind"] == "call" and i["fault"]]
    return {"nontrivial": bool(failed or case["sabotage"]["set"]), "labels": sorted({"%s:%s" % (i["op"], i["fault"].split(":")[0]) for i in failed}) +
            sorted(case["sabotage"]["set"]), "observed": {"failed calls": len(failed), "calls": len(rec.items)}}


def judge_resource(keys, specs, case, builtin, what):
    for tag, s in specs.items():
        if "resource" not in s["roles"]:
            continue
        bad = s["faults"].get("resource") is not None
        check(("res.%s" % tag in keys) == (not bad), "%s: the resource of %s is %s (it fails: %s)", what, tag, "there" if bad else "not there", bad, sig="resource")
    if "PythonPlugin" in builtin and "platform" not in case["sabotage"]["set"]:
        check("python_version" in keys, "%s: python_version is missing: %s", what, sorted(keys), sig="resource")
    if "OTelPlugin" in builtin and "otel-provider" not in case["sabotage"]["set"]:
        check("otel.res" in keys, "%s: the otel resource is missing: %s", what, sorted(keys), sig="resource")
    check("service.name" in keys and "telemetry.sdk.language" in keys, "%s: the default resource is missing: %s", what, sorted(keys), sig="resource")


class Spans:
    """What the OpenTelemetry SDK sees."""
    started, ended = [], []

    def on_start(self, span, parent_context=None):
        self.started.append(span.name)

    def on_end(self, span):
        self.ended.append(span.name)

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=0):
        return True

    def _on_ending(self, span):
        pass


SPANS = Spans()


def judge_builtin(case, builtin, before):
    """The plugins of the agent itself run whatever the others do."""
    broken = set(case["sabotage"]["set"])
    hits = case["hits"]
    if "OTelPlugin" in builtin and not broken & {"otel-tracer", "otel-current", "otel-provider"}:
        n = len(SPANS.started) - before[0], len(SPANS.ended) - before[1]
        check(n == (2 * hits, 2 * hits), "OTelPlugin: %s spans are started and ended, expected %d", n, 2 * hits, sig="builtin")
    if "PrometheusPlugin" in builtin:
        import prometheus_client
        get = lambda m, suffix: prometheus_client.REGISTRY.get_sample_value("ns_vlibm%d_%s_unit%s" % (SERIAL[0], m, suffix))  # noqa: E731
        got = [get("counter", "_total"), get("histogram", "_count"), get("summary", "_sum")]
        total = sum(range(hits))
        check(got == [total, hits, total], "PrometheusPlugin: counter, histogram count and summary are %s, expected %s", got, [total, hits, total], sig="builtin")


def judge(case, specs, builtin, rec, net, marks, m):
    having = lambda role: [t for t, s in specs.items() if role in s["roles"]]  # noqa: E731
    calls = [i for i in rec.items if i["kind"] == "call"]
    sends = collections.Counter(r.tracepoint.ID for r in net.sends)
    check(sends == {"T1": case["hits"], "T2": case["hits"]} if case["hits"] else not sends, "snapshots are delivered: %s for %d hits", dict(sends), case["hits"],
          sig="delivered")
    # decorations
    for r in net.sends:
        sid = r.ID.hex()
        keys = {a.key for a in r.attributes}
        for tag in having("decorate"):
            mine = [c for c in calls if c["op"] == "decorate" and c["plugin"] == tag and c["snapshot"] == sid]
            check(len(mine) == 1, "%s decorates the snapshot of %s %d times", tag, r.tracepoint.ID, len(mine), sig="decorate")
            bad = mine[0]["fault"] is not None
            check(("deco.%s" % tag in keys) == (not bad), "the decoration of %s is %s: %s", tag, "there, but it failed" if bad else "missing", sorted(keys),
                  sig="decorate")
        check("context" in keys and "tracepoint" in keys, "the attributes of the snapshot: %s", sorted(keys), sig="decorate")
        if "PythonPlugin" in builtin:
            check("thread_name" in keys, "thread_name is missing: %s", sorted(keys), sig="decorate")
        judge_resource({a.key for a in r.resource}, specs, case, builtin, "snapshot")
        if r.tracepoint.ID == "T1":
            check(r.log_msg.startswith("[deep] tp "), "the log message of the snapshot is %r", r.log_msg, sig="log-text")
            check(len(r.watches) == 2, "the snapshot has %d watches", len(r.watches), sig="watches")
    # calls of each hit
    loggers = having("log")
    low = min([specs[t]["order"] for t in loggers] + ([0] if "PythonPlugin" in builtin else []), default=None)
    first = [t for t in loggers if specs[t]["order"] == low]
    first_builtin = "PythonPlugin" in builtin and low == 0
    for h in range(case["hits"]):
        part = [i for i in rec.items[marks[h]:marks[h + 1]] if i["kind"] == "call"]
        for tag in having("metric"):
            for op in METRICS:
                mine = [c for c in part if c["plugin"] == tag and c["op"] == op]
                check(len(mine) == 1 and mine[0]["value"] == h, "hit %d: %s records %s %d times", h, tag, op, len(mine), sig="metric")
        for tag in having("span"):
            made = [c for c in part if c["plugin"] == tag and c["op"] == "create_span"]
            check(sorted(c["tp"] for c in made) == ["T1", "T2"], "hit %d: %s creates spans for %s", h, tag, [c["tp"] for c in made], sig="span")
            good = [c["serial"] for c in made if c["fault"] is None]
            closed = [c["serial"] for c in part if c["plugin"] == tag and c["op"] == "close"]
            check(sorted(good) == sorted(closed), "hit %d: of the spans %s of %s are closed %s", h, good, tag, closed, sig="close")
        logs = collections.Counter((c["plugin"], c["tp"]) for c in part if c["op"] == "log")
        check(all(n == 1 for n in logs.values()), "hit %d: logged %s", h, logs, sig="log")
        if len(first) == 1 and not first_builtin:
            for tp in ("T1", "T3"):
                check(logs[(first[0], tp)] == 1, "hit %d: the logger %s is not called for %s: %s", h, first[0], tp, dict(logs), sig="log")
        elif first and not first_builtin:
            for tp in ("T1", "T3"):
                check(sum(logs[(t, tp)] for t in first) >= 1, "hit %d: no logger is called for %s: %s", h, tp, dict(logs), sig="log")
    # shutdown
    down = collections.Counter(c["plugin"] for c in calls if c["op"] == "shutdown")
    check(down == {t: 1 for t in specs}, "the plugins shut down are %s of %s", dict(down), sorted(specs), sig="shutdown")
    check(all(i["kind"] == "call" and i["op"] == "shutdown" for i in rec.items[m:]), "during shutdown: %s", rec.items[m:][:3], sig="shutdown")


def setup_agent():
    setup()
    from opentelemetry import trace
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    provider = TracerProvider(resource=Resource({"otel.res": "x"}))
    provider.add_span_processor(SPANS)
    trace.set_tracer_provider(provider)


def agents():
    exc = st.sampled_from(["exc", "exc", "base", "exit", "stop", "gen-exit"])
    when = st.one_of(st.none(), st.none(), st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True))
    garbage = st.sampled_from(["garbage:int", "garbage:text", "garbage:dict", "garbage:list", "garbage:object", "weird"])
    ops = {"resource": ["resource"], "decorate": ["decorate"], "log": ["log"], "span": ["create_span", "close"], "metric": METRICS}

    def plugin(roles):
        mine = [o for r in roles for o in ops[r]] + ["shutdown"]

        def fault(o):
            kinds = exc
            if o in ("decorate", "create_span", "resource"):
                kinds = st.one_of(exc, exc, garbage, st.just("garbage:none"))
            return st.tuples(kinds, when).map(list)
        faults = st.lists(st.sampled_from(mine), max_size=3, unique=True).flatmap(lambda os: st.fixed_dictionaries({o: fault(o) for o in os}))
        return st.fixed_dictionaries({"roles": st.just(roles), "order": st.integers(-3, 3), "faults": faults})

    def fix(case):
        # the resource is asked for once
        for p in case["plugins"]:
            if "resource" in p["faults"]:
                p["faults"]["resource"][1] = None
        return case
    roles = st.one_of(st.sampled_from([[r] for r in labplugins.ROLES]), st.lists(st.sampled_from(labplugins.ROLES), max_size=5, unique=True))
    sabotage = st.fixed_dictionaries({"kind": st.sampled_from(["exc", "base"]), "set": st.lists(st.sampled_from(
        ["otel-provider", "otel-tracer", "otel-current", "platform", "prom-unregister"]), max_size=2, unique=True)})
    return st.fixed_dictionaries({"plugins": st.lists(roles.flatmap(plugin), min_size=1, max_size=6), "off": st.lists(st.sampled_from(sorted(BUILTIN)), max_size=4,
                                                                                                                   unique=True),
                                  "sabotage": sabotage, "hits": st.integers(1, 4)}).map(fix)


PARTS = [
    Part("load", run_load, loads, quick=3000, thorough=60000, shards=1, thorough_shards=4, setup=setup, rule="some plugin is skipped, or the orders differ"),
    Part("deps", run_deps, exhaustive_cases=deps_cases, shards=2, thorough_shards=4, setup=setup, rule="a dependency is missing"),
    Part("agent", run_agent, agents, quick=900, thorough=16000, shards=4, thorough_shards=8, setup=setup_agent, rule="a callback of a plugin failed"),
]
