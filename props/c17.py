"""C17 Metric tracepoints report each defined metric with the right type, labels and value."""
import collections
import itertools
import math

from hypothesis import strategies as st

from vlib import crossing, lab, progs, tps
from vlib.core import InjectedBaseFault, InjectedFault, Part, check, pair
from vlib.model import Failed, Model, evaluate
from vlib.world import Tracer, World, plugin_classes

META = {"assumptions": [
    "numbers written as text or bytes, complex numbers, integers too large for a float and objects that can be converted to "
    "a number may be read as the number or as not numeric",
    "a label without a static value or expression may have any value",
    "the text of a label whose expression fails is not asserted, only that the label is there and is text",
    "Prometheus: one definition per metric name; whether a gauge adds or sets is not asserted (a gauge is hit once)",
]}

TYPES = ["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]


class Floaty:
    def __float__(self):
        return 6.5


class BadFloat:
    def __float__(self):
        raise KeyboardInterrupt("float")

    def __str__(self):
        raise SystemExit("str")


class MyInt(int):
    pass


class MyFloat(float):
    pass


def values():
    from decimal import Decimal
    from fractions import Fraction
    return [0, 1, -3, 2.5, True, False, float("nan"), float("inf"), -0.0, 10 ** 400, Decimal("1.25"), Fraction(1, 4), 3 + 0j,
            "7", "text", b"9", None, [1], {}, (), Floaty(), BadFloat(), MyInt(41), MyFloat(0.125), object, 1e-320, 2 ** 53 + 1,
            {"k": 5}, "", lambda: 3, "br{a}ce", "héé"]


NVALUES = 32
OPEN = (str, bytes, complex, Floaty)


def number(r):
    """Set of accepted values; None means any."""
    from decimal import Decimal
    from fractions import Fraction
    if type(r) is Failed:
        return [1.0]
    if isinstance(r, OPEN):
        try:
            return [1.0, float(r)]
        except BaseException:  # noqa: B902
            return [1.0] if not isinstance(r, complex) else None
    if isinstance(r, (bool, int, float, Decimal, Fraction)):
        try:
            return [float(r)]
        except OverflowError:
            return None
    return [1.0]


def same(a, b):
    if not isinstance(a, (int, float)):
        return False
    return a == b or (math.isnan(a) and math.isnan(b))


EXPRS = ["v0", "v1", "v2", "v0 + v1", "len(v2)", "nope", "1/0", "v0 * 2", "G0", "obj.n", "obj.boom(ValueError)",
         "obj.boom(KeyboardInterrupt)", "3", "2.75", "'x'", "sum([1, 2])", "[v for v in (v0,)][0]", "x =", "len('abc')", "v0 == v1",
         "max(v0, v1)", "-v0", "True", "obj", "{'a': v0}['a']", "", "float('nan')", "(lambda: v1)()", "shared.append(1) or 5"]


class Thing:
    n = 12

    def boom(self, kind):
        raise kind("boom")

    def __str__(self):
        return "thing!"


def metric():
    label = st.one_of(
        st.fixed_dictionaries({"static": st.sampled_from(["s", 3, 2.5, True, False, "", "0", 0, "é"])}),
        st.fixed_dictionaries({"expr": st.sampled_from([e for e in EXPRS if e and "shared" not in e])}),
        st.fixed_dictionaries({}))
    return st.fixed_dictionaries({
        "name": st.sampled_from(["m1", "m2", "m3", "a b", "é"]), "type": st.sampled_from(TYPES),
        "labels": st.lists(label, max_size=3)}, optional={
        "expr": st.sampled_from(EXPRS), "ns": st.sampled_from(["ns", "", "other", "Deep"]),
        "help": st.sampled_from(["help me", ""]), "unit": st.sampled_from(["ms", ""])})


def expect(m, res, via):
    """Expected call of one definition: (op, name, namespace, help, unit, accepted values, labels)."""
    e = m.get("expr")
    accepted = [1.0] if not e else number(res[e])
    labels = {}
    for i, lb in enumerate(m["labels"]):
        key = "l%d" % i
        if lb.get("expr"):
            r = res[lb["expr"]]
            if type(r) is Failed:
                labels[key] = ("text",)
            else:
                try:
                    labels[key] = ("is", str(r))
                except BaseException:  # noqa: B902
                    labels[key] = ("text",)
        elif lb.get("static") is not None:
            labels[key] = ("is", lb["static"])
        else:
            labels[key] = ("any",)
    return {"op": m["type"].lower(), "name": m["name"], "ns": m.get("ns") or "deep", "help": m.get("help") or "",
            "unit": m.get("unit") or "", "values": accepted, "labels": labels}


def agrees(exp, got):
    if (got["op"], got["name"], got["namespace"], got["help"] or "", got["unit"] or "") != \
            (exp["op"], exp["name"], exp["ns"], exp["help"], exp["unit"]):
        return False
    if exp["values"] is not None and not any(same(got["value"], v) for v in exp["values"]):
        return False
    if type(got["value"]) not in (int, float):
        return False
    if set(got["labels"]) != set(exp["labels"]):
        return False
    for k, rule in exp["labels"].items():
        v = got["labels"][k]
        if rule[0] == "text" and type(v) is not str:
            return False
        if rule[0] == "is" and not (v == rule[1] and type(v) is type(rule[1])):
            return False
    return True


def match_calls(exps, gots, what):
    alone, left = pair(exps, gots, agrees)
    check(not alone, "%s: expected %r, the processor received %r", what, alone[:1], [
        {k: g[k] for k in ("op", "name", "labels", "namespace", "help", "unit", "value")} for g in gots], sig="call")
    check(not left, "%s: unexpected calls %r", what, left, sig="extra-call")


def with_keys(metrics):
    return [dict(m, labels=[dict(lb, key="l%d" % i) for i, lb in enumerate(m["labels"])]) for m in metrics]


def run_lab(case):
    pool = values()
    vals = [pool[i % len(pool)] for i in case["seed"]] + [Thing()]
    shared = []
    lb = lab.Lab(["v0", "v1", "v2", "obj"], vals, case["style"], hits=len(case["hits"]), extra={"G0": 77, "shared": shared})
    specs = []
    for i, t in enumerate(case["tps"]):
        a = {"fire_count": t["count"], "fire_period": "0", "snapshot": "collect" if t["snap"] else "no_collect"}
        if t["log"]:
            a["log_msg"] = "m"
        specs.append({"id": "tp%d" % i, "path": "prog.py", "line": lb.line, "args": a, "via": t["via"], "watches": [],
                      "metrics": with_keys(t["metrics"])})
    left = {i: (math.inf if t["count"] == "-1" else int(t["count"])) for i, t in enumerate(case["tps"])}
    snaps_left = dict(left)

    def fault(tag, op):
        kind = dict(case["faults"]).get(tag)
        if kind == "Exception":
            raise InjectedFault("%s %s" % (tag, op))
        if kind == "BaseException":
            raise InjectedBaseFault("%s %s" % (tag, op))
    w = World(metrics=0, spans=0, fault=fault)
    pc = plugin_classes()
    procs = [pc["metric"](config=w.config).setup(w.rec, "m%d" % i, fault) for i in range(3)]
    procs[0].spoil = case["spoil"]
    try:
        w.install(specs)
        stats = collections.Counter()

        def before(frame):
            del shared[:]
            res = {}
            for s in specs:
                for m in s["metrics"]:
                    for e in [m.get("expr")] + [x.get("expr") for x in m["labels"]]:
                        if e and e not in res:
                            res[e] = evaluate(e, frame)
            del shared[:]
            return res

        def after(frame, res, items):
            active = case["hits"][stats["hit"]]
            stats["hit"] += 1
            exps, n_snaps, n_shared = [], 0, 0
            for i, s in enumerate(specs):
                if snaps_left[i] > 0 and case["tps"][i]["snap"]:
                    snaps_left[i] -= 1
                    n_snaps += 1
                if not active or left[i] <= 0:
                    stats["silent"] += 1
                    continue
                left[i] -= 1
                exps += [expect(m, res, s["via"]) for m in s["metrics"]]
                n_shared += sum((m.get("expr") or "").startswith("shared") for m in s["metrics"])
            for p in range(3):
                got = [x for x in items if x["kind"] == "metric" and x["plugin"] == "m%d" % p]
                match_calls(exps if p in active else [], got, "hit %d, processor %d of %s" % (stats["hit"], p, active))
            check(len(shared) == n_shared, "a metric expression was evaluated %d times, expected %d", len(shared), n_shared,
                  sig="evaluations")
            stats["calls"] += len(exps) * len(active)
            got = len([x for x in items if x["kind"] == "snap"])
            check(got == n_snaps, "%d snapshots, expected %d", got, n_snaps, sig="snap")

        def each(h):
            w.config.plugins = w.plugins[:1] + [procs[p] for p in case["hits"][h]] + w.plugins[1:]
            w.now += 5_000_000
        lb.run(w, before, after, each)
        return {"nontrivial": stats["calls"] >= 2 and (stats["silent"] > 0 or len(case["hits"]) > 1),
                "labels": ["faults"] * bool(case["faults"]) + ["calls"] * bool(stats["calls"]), "observed": dict(stats)}
    finally:
        w.close()


def lab_cases():
    tp = st.fixed_dictionaries({
        "count": st.sampled_from(["1", "2", "-1", "3"]), "snap": st.booleans(), "log": st.booleans(),
        "via": st.sampled_from(["service", "custom"]), "metrics": st.lists(metric(), min_size=1, max_size=4)})
    return st.fixed_dictionaries({
        "seed": st.lists(st.integers(0, NVALUES - 1), min_size=3, max_size=3), "style": st.sampled_from(lab.STYLES[:2] + lab.STYLES[4:]),
        "tps": st.lists(tp, min_size=1, max_size=3), "spoil": st.booleans(),
        "hits": st.lists(st.sampled_from([[], [0], [1], [0, 1], [0, 1, 2], [2, 0], [1, 2], []]), min_size=1, max_size=5),
        "faults": st.lists(st.tuples(st.sampled_from(["m0", "m1"]), st.sampled_from(["Exception", "BaseException"])).map(list),
                           max_size=2)})


# -- programs --------------------------------------------------------------------------------------------------------
def run_program(case):
    program = progs.Program(case["prog"])
    lines, fns = tps.executed_lines(program)
    specs = tps.resolve(case["tps"], lines, fns)
    for s, ms in zip(specs, case["metrics"]):
        s["metrics"] = with_keys(ms)
        for i, m in enumerate(s["metrics"]):
            m["name"] = "%s_%d" % (s["id"], i)
    specs = specs[:len(case["metrics"])]
    w = World(metrics=2)
    try:
        w.install(specs)
        model = Model(specs)
        stats = collections.Counter()

        def before(frame, event, arg):
            due, unknown = model.due(frame, event, w.now)
            exps = []
            for tp, act in due:
                if act.kind == "metric":
                    res = {}
                    for m in tp.spec["metrics"]:
                        for e in [m.get("expr")] + [x.get("expr") for x in m["labels"]]:
                            if e:
                                res[e] = evaluate(e, frame)
                    exps += [expect(m, res, "service") for m in tp.spec["metrics"]]
            return exps, {tp.spec["id"] for tp in unknown}, unknown

        def after(frame, event, arg, tok, items):
            exps, unknown, tps_ = tok
            for p in ("metric0", "metric1"):
                got = [x for x in items if x["kind"] == "metric" and x["plugin"] == p]
                for tp in tps_:
                    if any(x["name"].split("_")[0] == tp.spec["id"] for x in got) and p == "metric0":
                        [a.fire(w.now) for a in tp.actions if a.kind == "metric"]
                got = [x for x in got if x["name"].split("_")[0] not in unknown]
                match_calls(exps, got, "event %s at %s#%s" % (event, frame.f_code.co_filename, frame.f_lineno))
            stats["calls"] += len(exps)
        tr = Tracer(w, before, after)
        tr.run(program.instantiate())
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        return {"nontrivial": stats["calls"] >= 2, "labels": ["calls" if stats["calls"] else "none"],
                "observed": dict(stats)}
    finally:
        w.close()


PEXPR = ["v0", "v1", "a", "b", "len(v1)", "v0 + 1", "a * 2.5", "nope", "v3['k']", "1/0", "True", "G0", "v2", "sum(q for q in (a, 1))"]


def program_cases():
    label = st.one_of(st.fixed_dictionaries({"static": st.sampled_from(["s", 3])}),
                      st.fixed_dictionaries({"expr": st.sampled_from(PEXPR)}))
    m = st.fixed_dictionaries({"type": st.sampled_from(TYPES), "labels": st.lists(label, max_size=2)},
                              optional={"expr": st.sampled_from(PEXPR), "ns": st.sampled_from(["ns"])})
    return st.fixed_dictionaries({
        "prog": progs.strategy(st),
        "tps": st.lists(tps.spec(st, watches=False, metrics=False, spans=False, log=True, conds=tps.CONDS, limits=True,
                                 stages=("line_start", "line_end", "method_start")), min_size=4, max_size=4),
        "metrics": st.lists(st.lists(m, min_size=1, max_size=3), min_size=2, max_size=4)})


# -- the built-in processors ------------------------------------------------------------------------------------------
_serial = itertools.count()
_reader = []


BUILTIN_EXPR = [None, "v0", "v1", "2", "0.5", "nope", "v0 * 3", "seq[0]", "-seq[0]", "v0 - 50", "seq[0] * 0"]


def each_builtin(tier):
    for t in TYPES:
        for i, e in enumerate(BUILTIN_EXPR):
            for labels in ([], [{"static": ""}, {"expr": "v1"}]):
                yield {"v0": 4, "v1": 3, "defs": [{"type": t, "labels": labels, "expr": e, "unit": ["", "ms"][i % 2]}], "hits": 3,
                       "via": ["service", "custom"][i % 2], "same_name": False, "seq": [7, 0.125, 1, 2]}


def defs():
    label = st.one_of(st.fixed_dictionaries({"static": st.sampled_from(["s", "3", ""])}),
                      st.fixed_dictionaries({"expr": st.sampled_from(["v0", "'x'", "v1", "nope"])}))
    return st.lists(st.fixed_dictionaries({
        "type": st.sampled_from(TYPES), "labels": st.lists(label, max_size=2),
        "expr": st.sampled_from(BUILTIN_EXPR)}, optional={"ns": st.sampled_from(["ns", "other"]),
        "help": st.sampled_from(["help me", ""]), "unit": st.sampled_from(["ms", ""])}), min_size=1, max_size=4)


def builtin_cases():
    return st.fixed_dictionaries({
        "v0": st.sampled_from([0, 1, 4, 2.5, 100]), "v1": st.sampled_from([3, 0.25]), "defs": defs(),
        "hits": st.integers(1, 4), "via": st.sampled_from(["service", "custom"]), "same_name": st.booleans()},
        # what seq[0] is at each of the hits
        optional={"seq": st.lists(st.sampled_from([0, 1, 2.5, 7, -3, 0.125]), min_size=4, max_size=4)})


def run_builtin(case, plugin, read):
    n = next(_serial)
    metrics = with_keys(case["defs"])
    for i, m in enumerate(metrics):
        # the same name in two namespaces is two metrics
        m["name"] = "m%d" % n if case["same_name"] else "m%d_%d" % (n, i)
    ids = [(m.get("ns", "deep"), m["name"]) for m in metrics]
    metrics = [m for i, m in enumerate(metrics) if ids.index(ids[i]) == i]
    hits = case["hits"]
    if any(m["type"] == "GAUGE" for m in metrics):
        hits = 1
    steps = case.get("seq", [1, 2, 3, 4])
    seq = [0]
    lb = lab.Lab(["v0", "v1"], [case["v0"], case["v1"]], "function", hits=hits, extra={"seq": seq})
    # a counter only goes up (and the SDK of OpenTelemetry takes no negative value for its histograms)
    for m in metrics:
        ex = m.get("expr") or ""
        if (m["type"] == "COUNTER" or (read is read_otel and m["type"] != "GAUGE")) and ("-" in ex or ("seq" in ex and min(steps) < 0)):
            m["expr"] = "v0"
    spec = {"id": "tp", "path": "prog.py", "line": lb.line, "via": case["via"], "metrics": metrics,
            "args": {"fire_count": "-1", "fire_period": "0", "snapshot": "no_collect"}}
    w = World(metrics=0)
    try:
        p = plugin(w.config)
        w.config.plugins = w.plugins + [p]
        w.install([spec])
        hist = []

        def before(frame):
            seq[0] = steps[len(hist)]
            res = {e: evaluate(e, frame) for m in metrics for e in [m.get("expr")] + [x.get("expr") for x in m["labels"]] if e}
            hist.append([expect(m, res, case["via"]) for m in metrics])
        lb.run(w, before)
        exps = hist[-1]
        for i, e in enumerate(exps):
            if any(rule[0] != "is" for rule in e["labels"].values()):
                continue
            read(e, {k: r[1] for k, r in e["labels"].items()}, sum(h[i]["values"][0] for h in hist), hits)
        return {"nontrivial": True, "labels": sorted({e["op"] for e in exps}), "observed": {"metrics": len(exps)}}
    finally:
        p.shutdown()
        w.close()


def read_prometheus(e, labels, value, hits):
    from prometheus_client import REGISTRY
    full = "%s_%s" % (e["ns"], e["name"]) + ("_" + e["unit"] if e["unit"] else "")
    fam = {f.name: f for f in REGISTRY.collect()}
    check(full in fam, "no prometheus metric %r, only %r", full, [k for k in fam if e["name"] in k], sig="prom-name")
    f = fam[full]
    check(f.type == e["op"], "%s is a %s, expected %s", full, f.type, e["op"], sig="prom-type")
    check(f.documentation == e["help"], "help of %s is %r, expected %r", full, f.documentation, e["help"], sig="prom-help")
    lab_ = {k: str(v) for k, v in labels.items()}
    if e["op"] == "counter":
        want = {"_total": value}
    elif e["op"] == "gauge":
        want = {"": value}
    else:
        want = {"_count": hits, "_sum": value}
    for suffix, v in want.items():
        got = REGISTRY.get_sample_value(full + suffix, lab_)
        check(got is not None and abs(got - v) < 1e-9, "%s%s%r is %r, expected %r", full, suffix, lab_, got, v, sig="prom-value")


def run_prometheus(case):
    from deep.api.plugin.metric.prometheus_metrics import PrometheusPlugin
    return run_builtin(case, lambda c: PrometheusPlugin(config=c), read_prometheus)


def read_otel(e, labels, value, hits):
    data = _reader[0].get_metrics_data()
    full = "%s_%s" % (e["ns"], e["name"])
    found = [m for r in (data.resource_metrics if data else ()) for s in r.scope_metrics for m in s.metrics if m.name == full]
    check(len(found) == 1, "%d OTel metrics %r", len(found), full, sig="otel-name")
    m = found[0]
    check((m.unit or "") == e["unit"] and (m.description or "") == e["help"], "OTel unit %r help %r, expected %r %r", m.unit,
          m.description, e["unit"], e["help"], sig="otel-meta")
    kind = type(m.data).__name__
    if e["op"] == "counter":
        check(kind == "Sum" and m.data.is_monotonic, "%s is %s", full, kind, sig="otel-type")
    elif e["op"] == "gauge":
        check((kind == "Sum" and not m.data.is_monotonic) or kind == "Gauge", "%s is %s", full, kind, sig="otel-type")
    else:
        check(kind == "Histogram", "%s is %s", full, kind, sig="otel-type")
    pts = [p for p in m.data.data_points if dict(p.attributes) == labels]
    check(len(pts) == 1, "no data point %r, only %r", labels, [dict(p.attributes) for p in m.data.data_points], sig="otel-labels")
    if kind == "Histogram":
        check(pts[0].count == hits and abs(pts[0].sum - value) < 1e-9, "%s: count %r sum %r, expected %r: %r", full,
              pts[0].count, pts[0].sum, hits, value, sig="otel-value")
    else:
        check(abs(pts[0].value - value) < 1e-9, "%s: %r, expected %r", full, pts[0].value, value, sig="otel-value")


def setup_otel():
    from opentelemetry import metrics
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    _reader.append(InMemoryMetricReader())
    metrics.set_meter_provider(MeterProvider([_reader[0]]))


def run_otel(case):
    from deep.api.plugin.metric.otel_metrics import OTelMetrics
    return run_builtin(case, lambda c: OTelMetrics(config=c), read_otel)


PARTS = [
    Part("lab", run_lab, lab_cases, quick=2000, thorough=30000, shards=3, thorough_shards=8,
         rule="at least two processor calls, and several hits or a hit without any processor"),
    Part("crossing", crossing.run, crossing.cases("metric"), quick=500, thorough=8000, shards=2, thorough_shards=8,
         exhaustive_cases=crossing.each_switch([{"snap": False, "metrics": [{"expr": "num + 1", "label": "tag"}]}], 340, 1),
         rule="the threads were switched inside the agent"),
    Part("program", run_program, program_cases, quick=500, thorough=8000, shards=2, thorough_shards=8,
         rule="at least two metrics reported in the run"),
    Part("prometheus", run_prometheus, builtin_cases, quick=300, thorough=2000, exhaustive_cases=each_builtin, rule="every case reports metrics"),
    Part("otel", run_otel, builtin_cases, quick=250, thorough=600, setup=setup_otel, exhaustive_cases=each_builtin, rule="every case reports metrics"),
]
