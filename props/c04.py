"""C04 Rate limiting: fire_count, fire_period and time window are never exceeded."""
import collections
import threading
import time

from hypothesis import strategies as st

from vlib import bottom, sched
from vlib.core import HarnessError, InjectedBaseFault, InjectedFault, Part, check
from vlib.world import T0, World

META = {"assumptions": [
    "the time of a hit is what time.time_ns shows when the event is handled; the window is in milliseconds since the epoch and includes both ends "
    "(within the last millisecond either answer is accepted), zero or an unparsable number means no bound",
    "if the clock runs backwards to before the last collection, either answer is accepted",
    "when a tracepoint is removed and installed again, or changed, it is a new one",
    "each action of a tracepoint (snapshot, metric, span, separate log) has its own limits; the log of a collecting tracepoint is part of its snapshot",
]}

FILE = "/app/x/prog.py"
SRC = '''def target(go, x):
    v0 = x
    v1 = [x]
    return v1
'''
NS = {}
exec(compile(SRC, FILE, "exec"), NS)
LINE = 3
BASE_MS = T0 // 1_000_000
KINDS = ("snap", "log", "metric", "span")


def number(v, default):
    try:
        return int(v)
    except (ValueError, TypeError, OverflowError):
        return default


class Limiter:
    """What one action may and must do."""

    def __init__(self, tp, kind, args):
        self.tp, self.kind = tp, kind
        self.count = number(args.get("fire_count", 1), 1)
        self.period = number(args.get("fire_period", 1000), 1000) * 1_000_000
        self.w0 = number(args.get("window_start", 0), 0)
        self.w1 = number(args.get("window_end", 0), 0)
        self.times = []

    def verdict(self, ts):
        """True: must collect, False: must not, None: either."""
        if self.count != -1 and len(self.times) >= self.count:
            return False
        if self.w0 > 0 and ts < self.w0 * 1_000_000:
            return False
        if self.w1 > 0 and ts >= (self.w1 + 1) * 1_000_000:
            return False
        if self.period > 0 and any(abs(ts - t) < self.period for t in self.times):
            return False
        if self.period > 0 and self.times and ts < self.times[-1]:
            return None
        if self.w1 > 0 and ts > self.w1 * 1_000_000:
            return None
        return True


def spec_of(i, t):
    a = {k: v for k, v in t["args"].items()}
    for k in ("window_start", "window_end"):
        if isinstance(a.get(k), list):
            # relative to the start of the history, in ms
            a[k] = str(BASE_MS + a[k][0])
    s = {"id": "tp%d" % i, "path": "prog.py", "line": LINE, "args": a, "via": t.get("via", "service"), "watches": t.get("watches", [])}
    if s["via"] == "service":
        for k, v in a.items():
            a[k] = str(v)
    if t["place"] == "method":
        a["method_name"] = "target"
        s["line"] = 1
    if t.get("cond"):
        a["condition"] = t["cond"]
    if t.get("metric"):
        s["metrics"] = [{"name": "m", "type": "COUNTER", "ns": "NS" + s["id"]}]
    return s


def kinds_of(s):
    out = []
    if s["args"].get("snapshot") != "no_collect":
        out.append("snap")
    elif "log_msg" in s["args"]:
        out.append("log")
    if s.get("metrics"):
        out.append("metric")
    if "span" in s["args"]:
        out.append("span")
    return out


def observed(items, ids):
    out = collections.Counter()
    for i in items:
        if i["kind"] in ("snap", "log", "metric", "open-try"):
            k = "span" if i["kind"] == "open-try" else i["kind"]
            out[name_of(ids, i, k), k] += 1
    return out


def name_of(ids, i, k):
    key = i["namespace"] if k == "metric" else i["tp"]
    return ids.get(key, "unknown " + str(key))


def name_ids(specs):
    ids = {s["rid"]: s["id"] for s in specs}
    for s in specs:
        ids["NS" + s["id"]] = s["id"]
    return ids


DRIVER = bottom.compile_driver('''
try:
    sys.settrace(trace)
    while True:
        call = step()
        if call is None:
            break
        target(*call)
except BaseException as e:
    failed(e)
finally:
    sys.settrace(None)
''')


def run_history(case):
    """One thread; every operation is a hit at a chosen time or an update of the configuration."""
    import sys
    specs = [spec_of(i, t) for i, t in enumerate(case["tps"])]
    fault = None
    if case.get("fault"):
        kind = InjectedBaseFault if case["fault"] == "base" else InjectedFault

        def fault(tag, op):
            raise kind("injected")
    w = World({"APP_ROOT": "/app"}, decorators=1, fault=fault, push=fault)
    stats = collections.Counter()
    try:
        service = [s for s in specs if s["via"] == "service"]
        active = [s for s in specs if s["via"] == "custom"] + service
        w.install(specs)
        limits = {(s["id"], k): Limiter(s["id"], k, s["args"]) for s in specs for k in kinds_of(s)}
        ids = name_ids(specs)
        extra = [0]
        ops = list(case["ops"])
        state = {"mark": w.rec.mark(), "hit": None}
        failed = []

        def judge():
            if state["hit"] is None:
                return
            ts, go = state["hit"]
            got = observed(w.rec.since(state["mark"]), ids)
            for (tp, kind), lim in limits.items():
                s = next(s for s in specs if s["id"] == tp)
                if s not in active:
                    continue
                v = lim.verdict(ts)
                cond = s["args"].get("condition")
                if cond is not None and not {"go": go, "go == 1": go == 1, "nope": False}[cond]:
                    v = False
                n = got.pop((tp, kind), 0)
                at = "%s of %s (%s) at %+d us, it collected at %s" % (kind, tp, s["args"], (ts - T0) // 1000,
                                                                     [(t - T0) // 1000 for t in lim.times])
                check(n <= 1, "%d times %s in one hit", n, at, sig="twice")
                if v is False:
                    check(n == 0, "no collection is allowed: %s", at, sig="exceeded")
                    stats["refused"] += 1
                if v is True:
                    check(n == 1, "a collection is due: %s", at, sig="missing")
                if n:
                    lim.times.append(ts)
                    stats["collected"] += 1
                    if len(lim.times) > 1:
                        stats["again"] += 1
            got = {k: n for k, n in got.items() if k[1] != "log" or (k[0], "snap") not in limits}
            check(not {k: n for k, n in got.items() if any(s["id"] == k[0] for s in active)}, "unexpected actions %s", dict(got), sig="unexpected")

        def step():
            judge()
            state["hit"] = None
            while ops:
                op = ops.pop(0)
                if op[0] == "hit":
                    base = {"last": max([t for m in limits.values() for t in m.times] or [T0]), "now": w.now, "start": T0,
                            "due": max([lm.times[-1] + max(lm.period, 0) for lm in limits.values() if lm.times] or [T0])}[op[1]]
                    w.now = base + op[2] * 1000
                    state["hit"] = (w.now, op[3])
                    state["mark"] = w.rec.mark()
                    return op[3], 5
                if op[0] == "resend":
                    w.install(service)
                    stats["resend"] += 1
                elif op[0] == "add":
                    extra[0] += 1
                    s = spec_of(100 + extra[0], {"args": {"fire_count": "-1", "fire_period": "0"}, "place": op[1], "via": op[2]})
                    if op[2] == "service":
                        service.insert(0 if op[3] else len(service), s)
                        w.install(service)
                    else:
                        w.install(service + [s])
                    ids.update(name_ids([s]))
                    stats["resend"] += 1
                elif op[0] == "remove":
                    gone = [s for s in service if s["id"].startswith("tp10")][:1] if not op[1] else service[:1]
                    for s in gone:
                        service.remove(s)
                        if s in active:
                            active.remove(s)
                    w.install(service)
                elif op[0] == "reorder":
                    service.reverse()
                    w.install(service)
                    stats["resend"] += 1
            return None

        step_safe = Safe(step)
        bottom.run_in_thread(DRIVER, {"__name__": "driver", "sys": sys, "trace": w.handler.trace_call, "step": step_safe, "target": NS["target"],
                                      "failed": failed.append})
        if step_safe.error is not None:
            raise step_safe.error
        for e in failed:
            check(False, "the handler raised into the application: %r", e, sig="raised")
        return {"nontrivial": stats["collected"] > 0 and stats["refused"] > 0, "labels": [k for k, v in stats.items() if v], "observed": dict(stats)}
    finally:
        w.close()


class Safe:
    """Keeps the harness's own errors apart from those of the handler."""

    def __init__(self, fn):
        self.fn, self.error = fn, None

    def __call__(self):
        try:
            return self.fn()
        except BaseException as e:  # noqa: B902
            self.error = e
            return None


def limit_args(window=True):
    opt = {"fire_count": st.sampled_from(["-1", "3", "2", "5", "-1", "3", "2", "-1", "1", None, "0", "x", "", "-2", "1.5", "none", None]),
           "fire_period": st.sampled_from(["0", "1", "2", "1000", "x", "", "-5", "500", "2", "1", None, "60000", None, "1e3"])}
    if window:
        edge = st.one_of(st.none(), st.sampled_from(["0", "x", "", None]), st.sampled_from([-5, -1, 0, 1, 3, 10, 2000, 10 ** 7]).map(lambda v: [v]))
        opt["window_start"] = edge
        opt["window_end"] = edge
    need = {k: opt.pop(k) for k in ("fire_count", "fire_period")}
    return st.fixed_dictionaries(need, optional=opt).map(lambda a: {k: v for k, v in a.items() if v is not None})


def tp_st(window=True):
    def merge(t):
        a = dict(t.pop("limits"))
        a.update(t.pop("more"))
        t["args"] = a
        return t
    return st.fixed_dictionaries(
        {"limits": limit_args(window), "place": st.sampled_from(["line", "line", "method"]),
         "more": st.fixed_dictionaries({}, optional={
             "snapshot": st.sampled_from(["no_collect", "collect"]), "log_msg": st.just("msg {x}"), "span": st.just("line"),
             "stage": st.just("line_capture")})},
        optional={"via": st.sampled_from(["service", "service", "custom"]), "cond": st.sampled_from(["go", "go == 1", "go", "go", "go", "nope"]),
                  "metric": st.just(True), "watches": st.just(["x"])}).map(merge).map(fix)


def fix(t):
    a = dict(t["args"])
    if t["place"] == "method":
        a.pop("stage", None)
        if "span" in a:
            a["span"] = "method"
    elif "stage" not in a:
        pass
    return {**t, "args": a}


def history_cases():
    us = st.one_of(st.sampled_from([0, 1, 999, 1000, 1001, 1999, 2000, 2001, 499_999, 500_000, 500_001, 999_999, 1_000_000, 1_000_001, 59_999_999,
                                    60_000_000, 3000, 10_000_000]), st.integers(0, 3_000_000), st.sampled_from([-1, -1000, -5000, -2_000_000]))
    hit = st.tuples(st.just("hit"), st.sampled_from(["last", "now", "now", "now"]), us, st.sampled_from([1, 1, 1, 0])).map(list)
    due = st.tuples(st.just("hit"), st.just("due"), st.sampled_from([0, 0, 1, -1, 5, 999, -1000, 1000]), st.just(1)).map(list)
    first = st.tuples(st.just("hit"), st.just("start"), st.sampled_from([-6000, -5000, -1000, -999, -1, 0, 1, 1000, 3000, 3001, 9999, 10000, 10999, 11000]),
                      st.just(1)).map(list)
    op = st.one_of([hit] * 5 + [due] * 4 + [first, st.just(["resend"]), st.just(["reorder"]),
                                st.tuples(st.just("add"), st.sampled_from(["line", "method"]), st.sampled_from(["service", "custom"]), st.booleans()).map(list),
                                st.tuples(st.just("remove"), st.sampled_from([False, False, True])).map(list)])
    return st.fixed_dictionaries({"tps": st.lists(tp_st(), min_size=1, max_size=4), "ops": st.lists(op, min_size=6, max_size=40)},
                                 optional={"fault": st.sampled_from(["plain", "base"])})


# -- schedules: threads that reach the location together, switched inside the handler ----------------------------------
FRAMES = []


def frames(n):
    """Paused frames of the target, one for each thread."""
    src = "def target(go, x):\n    v0 = x\n    yield 1\n"
    while len(FRAMES) < n:
        ns = {}
        exec(compile(src, FILE, "exec"), ns)
        g = ns["target"](1, 5)
        FRAMES.append((g, next(g)))
    return [g for g, _ in FRAMES]


def run_schedule(case):
    specs = []
    for i, t in enumerate(case["tps"]):
        s = spec_of(i, dict(t, place="line"))
        specs.append(s)
    w = World({"APP_ROOT": "/app"}, decorators=1)
    try:
        w.install(specs)
        ids = name_ids(specs)
        gens = frames(4)
        logs = []
        hits = []

        def hitter(i):
            def go():
                for t in case["hits"][i]:
                    w._mine.now = T0 + t * 1000
                    hits.append(w._mine.now)
                    w.handler.trace_call(gens[i].gi_frame, "line", None)
            return go

        def updater():
            for _ in range(case["updates"]):
                w._mine.now = T0
                w.install([s for s in specs if s["via"] == "service"])
        fns = [hitter(i) for i in range(len(case["hits"]))] + ([updater] if case["updates"] else [])
        sc = sched.Sched(fns, case["schedule"], opcodes=("tracepoint/trigger.py", "tracepoint_config.py", "action_context.py", "trigger_handler.py"))
        if not sc.run():
            raise HarnessError("threads did not finish")
        for e in sc.errors:
            if e is not None:
                raise e
        mine = collections.defaultdict(list)
        for i in w.rec.items:
            if i["kind"] in ("snap", "log", "metric", "open-try"):
                k = "span" if i["kind"] == "open-try" else i["kind"]
                mine[name_of(ids, i, k), k].append(i["now"])
        total = 0
        for s in specs:
            for k in kinds_of(s):
                times = sorted(mine.get((s["id"], k), []))
                lim = Limiter(s["id"], k, s["args"])
                what = "%s of %s (%s) hit at %s us collected at %s us" % (k, s["id"], s["args"], sorted((h - T0) // 1000 for h in hits),
                                                                          [(t - T0) // 1000 for t in times])
                total += len(times)
                if lim.count != -1:
                    check(len(times) <= max(lim.count, 0), "too many: %s", what, sig="exceeded")
                if lim.period > 0:
                    check(all(b - a >= lim.period for a, b in zip(times, times[1:])), "too close: %s", what, sig="exceeded")
                    if lim.count > 0 or lim.count == -1:
                        check(len(times) > 0, "nothing collected: %s", what, sig="missing")
                else:
                    want = len(hits) if lim.count == -1 else min(max(lim.count, 0), len(hits))
                    check(len(times) == want, "%d are due: %s", want, what, sig="missing")
        del logs
        return {"nontrivial": sc.switches > 0 and len(hits) > 1, "labels": ["switched"] if sc.switches else [],
                "observed": {"collections": total, "hits": len(hits), "switches": sc.switches}}
    finally:
        w.close()


def schedule_cases():
    tp = tp_st(window=False).map(lambda t: {**{k: v for k, v in t.items() if k != "cond"}, "args": {
        k: "line" if k == "span" else v for k, v in t["args"].items() if k != "stage"}})
    times = st.lists(st.sampled_from([0, 1, 500, 1000, 2000, 999_999, 1_000_000, 2_000_000]), min_size=1, max_size=2)
    return st.fixed_dictionaries({"tps": st.lists(tp, min_size=1, max_size=2), "hits": st.lists(times, min_size=2, max_size=3),
                                  "updates": st.sampled_from([0, 0, 0, 1, 2]), "schedule": sched.schedules(st, 4, 2500, 5)})


def each_switch(tier):
    """Two threads hit together: the second runs from each step of the first."""
    limits = [{"fire_count": "1", "fire_period": "0"}, {"fire_count": "-1", "fire_period": "1000"}]
    thorough = tier == "thorough"
    for n, (t, steps, stride) in enumerate([({"args": {"snapshot": "no_collect", "log_msg": "msg {x}"}}, 620, 1), ({"args": {"snapshot": "no_collect"}, "metric": True}, 520, 1),
                                            ({"args": {"snapshot": "no_collect", "span": "line"}}, 900, 3), ({"args": {}}, 2400, 5)]):
        for lim in limits if thorough else limits[n % 2:][:1] + limits[:1 - n % 2]:
            for via in ("service", "custom") if thorough else ("service",):
                for step in range(1, steps, 1 if thorough else stride):
                    yield {"tps": [{**t, "args": {**lim, **t["args"]}, "via": via}], "hits": [[0], [0]], "updates": 0, "schedule": {"order": [0, 1], "pre": [[step, 1]]}}
    # a new config arrives: while the first thread is on its way to the limit, which the second one then meets with the new config; and a hit
    # at each step of the installation
    for n, t in enumerate([{"args": {"snapshot": "no_collect", "log_msg": "msg {x}"}}, {"args": {}}, {"args": {"snapshot": "no_collect"}, "metric": True}]):
        for m, lim in enumerate(limits):
            if not thorough and (n + m) % 2:
                continue
            base = {"tps": [{**t, "args": {**lim, **t["args"]}}], "hits": [[0], [0]], "updates": 1}
            for s1 in range(80, 640, 40) if thorough else (140, 520):
                for s2 in range(max(s1 + 1, 420), 1400 if thorough else 860, 3 if thorough else 9):
                    yield {**base, "schedule": {"order": [0, 1, 2], "own": [[0, s1, 2], [0, s2, 1]]}}
            for s in range(1, 3000, 2 if thorough else 19):
                yield {**base, "schedule": {"order": [2, 0, 1], "own": [[2, s, 0]]}}


# -- live: real threads under the real hooks, with slow collections ----------------------------------------------------
LIVE_SRC = '''def target(go, x):
    v0 = x
    v1 = [x]
    return v1
def work(n, wait):
    wait()
    for i in range(n):
        target(1, i)
'''


def run_live(case):
    specs = [spec_of(i, dict(t, place=t["place"])) for i, t in enumerate(case["tps"])]

    def slow(tag, op):
        if op in ("decorate", "log_tracepoint", "counter", "create_span"):
            time.sleep(case["slow"] / 1000.0)
    w = World({"APP_ROOT": "/app"}, decorators=1, fault=slow)
    ns = {}
    exec(compile(LIVE_SRC, FILE, "exec"), ns)
    try:
        w.install(specs)
        ids = name_ids(specs)
        barrier = threading.Barrier(case["n"])
        errors = []

        def body():
            try:
                ns["work"](case["hits"], barrier.wait)
            except BaseException as e:  # noqa: B902
                errors.append(e)
        w.handler.start()
        try:
            ths = [threading.Thread(target=body) for _ in range(case["n"])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        finally:
            w.handler.shutdown()
        check(not errors, "raised into the application: %r", errors[:1], sig="raised")
        got = observed(w.rec.items, ids)
        hits = case["n"] * case["hits"]
        for s in specs:
            for k in kinds_of(s):
                lim = Limiter(s["id"], k, s["args"])
                n = got.get((s["id"], k), 0)
                # the clock stands still
                want = hits if lim.count == -1 else min(max(lim.count, 0), hits)
                if lim.period > 0:
                    want = min(want, 1)
                check(n == want, "%s of %s (%s): %d hits of %d threads, %d collections, %d are due", k, s["id"], s["args"], hits, case["n"], n, want,
                      sig="live")
        return {"nontrivial": bool(got), "observed": {str(k): v for k, v in got.items()}}
    finally:
        w.close()


def live_cases():
    tp = tp_st(window=False).map(lambda t: {k: v for k, v in t.items() if k != "cond"})
    return st.fixed_dictionaries({"tps": st.lists(tp, min_size=1, max_size=2), "n": st.integers(2, 4), "hits": st.integers(1, 5),
                                  "slow": st.sampled_from([0, 1, 3])})


PARTS = [
    Part("history", run_history, history_cases, quick=2500, thorough=40000, shards=4, thorough_shards=8,
         rule="some hit was collected and some hit was refused"),
    Part("schedule", run_schedule, schedule_cases, exhaustive_cases=each_switch, quick=500, thorough=8000, shards=4, thorough_shards=8,
         rule="at least two hits and a switch inside the handler"),
    Part("live", run_live, live_cases, quick=60, thorough=600, shards=1, thorough_shards=4,
         rule="real threads; something was collected"),
]
