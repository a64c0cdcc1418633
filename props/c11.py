"""C11 Tracepoint configuration is interpreted as documented, one tracepoint at a time."""
import collections
import itertools
import random

from hypothesis import strategies as st

from vlib import bottom, world
from vlib.core import HarnessError, Part, check
from vlib.model import Model, evaluate
from vlib.world import Tracer, World

META = {"assumptions": [
    "method tracepoints without a method name, and spans that are neither 'line' nor 'method', are generated, but only their effect on the other "
    "tracepoints is asserted",
    "what a tracepoint that cannot be interpreted does itself, and whether registering it in code raises, is not asserted",
    "the end and capture stages act where the start stages do; a capture is delivered later (when: C15)",
    "a collecting tracepoint with a log message logs as part of its collection (one limit); with snapshot=no_collect the log has its own",
]}

FILE = "/app/x/prog.py"
SRC = '''def first(a, b):
    v0 = a + b
    v1 = [a, b]
    return v0


def second(a):
    r = first(a, 1)
    if a == 2:
        raise KeyError(a)
    return r * 2


class Thing:
    def __init__(self):
        self.k = 1

    def act(self, a):
        w = self.k + a
        return w


def drive():
    t = Thing()
    for i in range(5):
        first(i, i)
        try:
            second(i)
        except KeyError:
            pass
        t.act(i)
'''
NS = {"__name__": "app_module"}
CODE = compile(SRC, FILE, "exec")
exec(CODE, NS)
LINES = [2, 3, 4, 8, 10, 11, 16, 19, 26]
METHODS = ["first", "second", "act", "drive", "__init__"]
BAD_METRIC = 99
EXPRS = {"a": None, "v0": None, "nope": None, "1/0": None, "len(v1)": None, "b + 1": None, "i": None}
CONDS = ["a > 1", "True", "False", "nope", "a % 2 == 0", "1 /", "i != 3", ""]
DRIVER = bottom.compile_driver('''
try:
    start()
    drive()
except BaseException as e:
    failed(e)
finally:
    stop()
''')


def number(r):
    try:
        return float(r)
    except BaseException:  # noqa: B902
        return 1.0


def text_of(template, frame):
    """The message for the few templates used here ({name} fields that exist or not); None: not asserted."""
    import string
    out = "[deep] "
    for lit, field, spec, conv in string.Formatter().parse(template):
        out += lit
        if field is not None:
            r = evaluate(field, frame)
            t = r.text() if hasattr(r, "exc") else str(r)
            if t is None:
                return None
            out += t
    return out


def metric_calls(spec, frame):
    out = []
    for m in spec.get("metrics", []):
        k = int(m["name"].rsplit("_", 1)[1])
        labels = []
        for lb in m.get("labels", []):
            if lb.get("expr") is not None:
                r = evaluate(lb["expr"], frame)
                labels.append((lb["key"], None if hasattr(r, "exc") else str(r)))
            else:
                labels.append((lb["key"], str(lb["static"])))
        value = 1.0
        if m.get("expr"):
            r = evaluate(m["expr"], frame)
            value = 1.0 if hasattr(r, "exc") else number(r)
        out.append(("metric", spec["id"], k, m["type"].lower(), m.get("ns") or "deep", m.get("help") or None, m.get("unit") or None,
                    tuple(sorted(labels)), value))
    return out


class Trial:
    """Installs the tracepoints, runs the program and compares everything the agent does."""

    def __init__(self, case):
        self.case = case
        self.specs, self.bad = [], []
        for i, t in enumerate(case["tps"]):
            s = {"id": "tp%d" % i, "path": t.get("path", "prog.py"), "line": t["line"], "args": dict(t["args"]), "via": t.get("via", "service"),
                 "watches": list(t.get("watches", []))}
            if t.get("metrics"):
                # with "same", all the metrics of the tracepoint have one name (and its labels), but are metrics of their own
                s["metrics"] = [dict(m, name="m_%s_%d" % (s["id"], 0 if t.get("same") else k),
                                     labels=t["metrics"][0 if t.get("same") else k]["labels"]) for k, m in enumerate(t["metrics"])]
            (self.bad if t.get("bad") else self.specs).append(s)
            if t.get("bad"):
                s["bad"] = t["bad"]
        self.all = sorted(self.specs + self.bad, key=lambda s: int(s["id"][2:]))

    def install(self, w):
        from deep.grpc import convert_response
        service = []
        for s in self.all:
            if s["via"] != "service":
                continue
            p = world.to_proto(s)
            bad = s.get("bad")
            if bad == "metric-type":
                p.metrics.add(name="x", type=BAD_METRIC)
            elif bad == "stage":
                p.args["stage"] = "no_such_stage"
            elif bad == "empty":
                p = type(p)(ID=s["id"])
            elif bad == "numbers":
                for k in ("fire_count", "fire_period", "window_start", "window_end"):
                    p.args[k] = "9" * 5000 if k != "window_start" else "\udce9".encode("utf-8", "replace").decode()
            elif bad == "limits":
                for k in ("MAX_VARIABLES", "MAX_VAR_DEPTH", "MAX_STRING_LENGTH", "MAX_COLLECTION_SIZE", "MAX_TP_PROCESS_TIME", "frame_type", "stack_type"):
                    p.args[k] = "no number"
            elif bad == "nul":
                p.args["condition"] = "a\0b"
                p.args["log_msg"] = "{a\0b} {"
                p.watches.append("a\0b")
            elif bad == "label":
                m = p.metrics.add(name="m_bad", type=0)
                m.labelExpressions.add(key="k").static.array_value.values.add().string_value = "x"
                m.labelExpressions.add(key="k")
                m.labelExpressions.add()
            elif bad == "location":
                p.args["method_name"] = ""
                p.line_number = 4294967295
            service.append(p)
        w.config.tracepoints.update_new_config(1, "h1", convert_response(service))
        for s in self.all:
            if s["via"] == "service":
                s["rid"] = s["id"]
                continue
            args, watches, metrics, path = dict(s["args"]), list(s["watches"]), world.to_definitions(s), s["path"]
            bad = s.get("bad")
            if bad == "stage":
                args["stage"] = "no_such_stage"
            elif bad == "metric-type":
                metrics = metrics + [None, 7]
            elif bad == "empty":
                args, watches, metrics = None, None, None
            elif bad == "numbers":
                args.update(fire_count=None, fire_period=[], window_start={}, window_end=object)
            elif bad == "nul":
                args.update(condition="a\0b", log_msg="{a\0b} {")
            elif bad == "label":
                metrics = metrics + [type(m)("m_bad", "NO_TYPE", [None]) for m in metrics]
            elif bad == "limits":
                args.update(stage=3, snapshot=4, span=5, MAX_VARIABLES=None)
            elif bad == "location":
                path = None
            try:
                s["rid"] = w.config.tracepoints.add_custom(path, s["line"], args, watches, metrics)
            except Exception:
                if not bad:
                    raise
                s["rid"] = "?"

    def run(self):
        from deep.push import convert_snapshot
        w = World(custom=self.case.get("config"))
        ids, model = {}, None
        try:
            self.install(w)
            ids = {s["rid"]: s["id"] for s in self.all}
            model = Model(self.specs)
            silent = {s["id"] for s in self.bad} | {tp.spec["id"] for tp in model.tps if tp.nameless or tp.spec["args"].get("span") == "other"}
            by = {s["id"]: s for s in self.specs}
            deferred = collections.Counter()
            stats = collections.Counter()
            snaps = []

            def before(frame, event, arg):
                w.now += self.case["step"] * 1_000_000
                due, _ = model.due(frame, event, w.now)
                exp = collections.Counter()
                for tp, act in due:
                    sid = tp.spec["id"]
                    if sid in silent:
                        continue
                    stats[act.kind] += 1
                    if act.kind == "snap":
                        if tp.deferred:
                            deferred[sid] += 1
                        else:
                            exp[("snap", sid)] += 1
                    if act.kind == "log" or act.kind == "snap" and tp.log is not None:
                        exp[("log", sid, text_of(tp.log, frame))] += 1
                    if act.kind == "metric":
                        for c in metric_calls(tp.spec, frame):
                            exp[c] += 1
                    if act.kind == "span":
                        exp[("span", sid)] += 1
                return exp

            def after(frame, event, arg, exp, items):
                got = collections.Counter()
                for i in items:
                    if i["kind"] == "metric" and i["name"] == "m_bad":
                        continue
                    if i["kind"] == "metric":
                        sid, k = i["name"][2:].rsplit("_", 1) if i["name"].startswith("m_") else ("?", "0")
                        if sid in silent:
                            continue
                        defs = {lb["key"]: lb for lb in by.get(sid, {}).get("metrics", [{}])[int(k)].get("labels", [])} if sid in by else {}
                        labels = []
                        for key, v in i["labels"].items():
                            lb = defs.get(key, {})
                            failed = lb.get("expr") is not None and hasattr(evaluate(lb["expr"], frame), "exc")
                            labels.append((key, None if failed else str(v)))
                        got[("metric", sid, int(k), i["op"], i["namespace"], i["help"] or None, i["unit"] or None, tuple(sorted(labels)),
                             number(i["value"]))] += 1
                    elif i["kind"] in ("snap", "log", "open"):
                        sid = ids.get(i["tp"], i["tp"])
                        if sid in silent:
                            continue
                        if i["kind"] == "snap":
                            snaps.append((sid, i["snapshot"]))
                            if by.get(sid, {}).get("args", {}).get("stage", "").endswith("capture"):
                                continue
                            got[("snap", sid)] += 1
                        elif i["kind"] == "log":
                            got[("log", sid, i["msg"])] += 1
                        else:
                            got[("span", sid)] += 1
                check(got == exp, "at %s#%d (%s): the tracepoints %s ask for %s, but the agent did %s", frame.f_code.co_name, frame.f_lineno, event,
                      [s for s in self.all], dict(exp - got) or "nothing more", dict(got - exp) or "nothing of it", sig="actions")
                stats["events"] += 1

            tr = Tracer(w, before, after)
            failed = []
            bottom.run_in_thread(DRIVER, {"__name__": "driver", "start": tr.start, "stop": tr.stop, "drive": NS["drive"], "failed": failed.append})
            for e in tr.errors:
                if isinstance(e, AssertionError):
                    raise e
                raise HarnessError(world.fmt_exc(e)) from e
            if failed:
                raise HarnessError("program failed: %r" % failed[0])
            check(not tr.raised, "the agent raised into the program: %r", tr.raised[:1], sig="raised")
            got = collections.Counter(sid for sid, _ in snaps)
            for sid, n in deferred.items():
                check(got[sid] == n, "capture tracepoint %s should deliver %d snapshots, delivered %d", by.get(sid), n, got[sid], sig="capture")
            for sid, snap in snaps:
                if sid not in by:
                    check(False, "a snapshot for unknown tracepoint %s", sid, sig="unknown")
                self.describe(by[sid], convert_snapshot(snap))
            return {"nontrivial": bool(stats["snap"] or stats["log"] or stats["metric"] or stats["span"]),
                    "labels": [k for k in ("snap", "log", "metric", "span") if stats[k]] + (["bad"] if self.bad else [])
                    + (["shared"] if len({(s["line"], s["args"].get("method_name")) for s in self.specs}) < len(self.specs) else []),
                    "observed": dict(stats)}
        finally:
            w.close()

    def describe(self, s, p):
        check(p is not None, "the snapshot of %s cannot be converted", s, sig="convert")
        t = p.tracepoint
        have = (t.ID, t.path, t.line_number, dict(t.args), list(t.watches))
        want = (s["rid"], s["path"], s["line"], s["args"], s["watches"])
        check(have == want, "the snapshot names tracepoint %s, configured is %s", have, want, sig="tracepoint")
        plain = [wr.expression for wr in p.watches if wr.source == 0]
        check(plain == s["watches"], "the watches of %s are reported as %s", s, plain, sig="watches")
        kind = s["args"].get("frame_type", "single_frame")
        app = [f for f in p.frames if f.file_name == FILE]
        if s["args"].get("stage", "").endswith("capture"):
            return
        with_vars = [bool(f.variables) for f in app]
        if kind == "no_frame":
            check(not any(bool(f.variables) for f in p.frames), "no_frame, but frames carry variables", sig="frame-type")
        elif kind == "all_frame":
            check(app[0].method_name in ("__init__", "drive") or all(with_vars), "all_frame, but not every frame carries variables: %s", with_vars, sig="frame-type")
        else:
            check(not any(bool(f.variables) for f in p.frames[1:]), "single_frame, but other frames carry variables", sig="frame-type")


def run_trial(case):
    return Trial(case).run()


# ends of the time window, around the time that the program runs for (and two that are no bound)
WINDOWS = ["0", "x"] + [str(world.T0 // 1_000_000 + ms) for ms in (-5, 2, 10, 40, 300, 2000, 10 ** 7)]
STAGES = ["line_start", "line_end", "line_capture", "method_start", "method_end", "method_capture"]


def table(tier):
    """Every combination of the arguments that decide kind and place; the other arguments vary with the row."""
    rows = itertools.product([None, "first", "act", "missing"], [None] + STAGES, [None, "line", "method"], [None, "collect", "no_collect"],
                             [None, "n={a} {nope}", ""], [0, 1, 2], ["service", "custom"])
    rnd = random.Random(5)
    for n, (method, stage, span, snap, log, nm, via) in enumerate(rows):
        a = {}
        for k, v in (("method_name", method), ("stage", stage), ("span", span), ("snapshot", snap), ("log_msg", log)):
            if v is not None:
                a[k] = v
        if rnd.random() < .7:
            a["fire_count"] = rnd.choice(["-1", "1", "2", "3", "0", "x"])
        if rnd.random() < .7:
            a["fire_period"] = rnd.choice(["0", "1", "250", "1000", "y"])
        if rnd.random() < .2:
            a["window_start"] = rnd.choice(WINDOWS)
        if rnd.random() < .2:
            a["window_end"] = rnd.choice(WINDOWS)
        if rnd.random() < .4:
            a["condition"] = rnd.choice(CONDS)
        if rnd.random() < .5:
            a["frame_type"] = rnd.choice(["single_frame", "all_frame", "no_frame"])
        if rnd.random() < .3:
            a["stack_type"] = rnd.choice(["stack", "frame"])
        if rnd.random() < .2:
            a["unknown_arg"] = "x"
        ms = [{"type": rnd.choice(["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]), "labels": rnd.choice(LABELS), "expr": rnd.choice([None, "a", "nope", "'3'"]),
               "ns": rnd.choice([None, "ns"]), "help": rnd.choice([None, "h"]), "unit": rnd.choice([None, "ms"])} for _ in range(nm)]
        t = {"line": rnd.choice(LINES), "args": a, "via": via, "metrics": ms, "same": rnd.random() < .3, "watches": rnd.choice([[], ["a"], ["v0", "nope", "a"]])}
        yield {"tps": [t], "step": rnd.choice([1, 50, 400])}


LABELS = [[], [{"key": "k", "static": "s"}], [{"key": "k", "expr": "a"}, {"key": "l", "static": 3}], [{"key": "q", "expr": "nope"}]]


def responses():
    metric = st.fixed_dictionaries({"type": st.sampled_from(["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]), "labels": st.sampled_from(LABELS)},
                                   optional={"expr": st.sampled_from(["a", "v0 * 2", "nope", "'x'", "2.5"]), "ns": st.just("ns"),
                                             "help": st.just("h"), "unit": st.just("ms")})
    args = st.fixed_dictionaries({}, optional={
        "method_name": st.sampled_from(METHODS + ["missing"]), "stage": st.sampled_from(STAGES),
        "span": st.sampled_from(["line", "method", "other"]), "snapshot": st.sampled_from(["collect", "no_collect", "other"]),
        "log_msg": st.sampled_from(["n={a}", "plain", "{nope} {i}", "{{x}} {b}"]), "condition": st.sampled_from(CONDS),
        "fire_count": st.sampled_from(["-1", "-1", "1", "2", "3"]), "fire_period": st.sampled_from(["0", "0", "10", "300", "5000"]),
        "window_start": st.sampled_from(WINDOWS), "window_end": st.sampled_from(WINDOWS),
        "frame_type": st.sampled_from(["single_frame", "all_frame", "no_frame"]), "stack_type": st.sampled_from(["stack", "frame"])})
    good = st.fixed_dictionaries({"line": st.sampled_from(LINES), "args": args, "via": st.sampled_from(["service", "service", "custom"])},
                                 optional={"watches": st.lists(st.sampled_from(sorted(EXPRS)), max_size=3), "metrics": st.lists(metric, max_size=3), "same": st.booleans(),
                                           "path": st.sampled_from(["prog.py", "prog.py", "other.py", ""])})
    bad = st.builds(lambda t, b: dict(t, bad=b), good,
                    st.sampled_from(["metric-type", "stage", "empty", "numbers", "limits", "nul", "location", "label"]))
    return st.fixed_dictionaries({
        "tps": st.lists(st.one_of(good, good, good, bad), min_size=2, max_size=8), "step": st.sampled_from([1, 20, 400])})


PARTS = [
    Part("table", run_trial, exhaustive_cases=table, shards=4, thorough_shards=8, thorough_budget=1500,
         rule="some action was due in the run of the program"),
    Part("responses", run_trial, responses, quick=6000, thorough=60000, shards=4, thorough_shards=8,
         rule="some action was due in the run of the program"),
]
