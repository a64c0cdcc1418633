"""Threads that hit the same tracepoints at the same time, switched at any line of the agent: what each hit does has to be what it does alone.

Each thread has a paused frame of its own (own file of the same name, globals, locals and self), the handler is given the events of these frames
under one owned schedule, and everything the agent does is attributed to the hit by the thread that did it and the time of the hit.
"""
import collections

from hypothesis import strategies as st

from . import sched, snapref
from .core import HarnessError, check
from .world import T0, World

DIRS = ["/app/t0/x", "/app/t1", "/lib/t2"]
CFG = {"APP_ROOT": "/app/t0", "IN_APP_INCLUDE": "/app/t1,/other", "IN_APP_EXCLUDE": "/none"}
SRC = """class Own%(k)d:
    def __init__(self):
        self.mine = 'own%(k)d'
    def target(self, tag, num, data, shared):
        local = [tag, num]
        _text = tag * 3
        yield num
"""
LINE = 7
SHARED = ["shared", {"k": (1, 2)}]


def frame_of(k, num):
    ns = {"__name__": "mod%d" % k, "G": "glob%d" % k, "limit": k * 10}
    exec(compile(SRC % {"k": k}, DIRS[k] + "/prog.py", "exec"), ns)
    gen = ns["Own%d" % k]().target("tag%d" % k, num, {"key%d" % k: ["value%d" % k, num], "deep": {"a": {"b": [k] * 3}}}, SHARED)
    next(gen)
    return gen


EXPRS = {"tag": lambda k, n: "tag%d" % k, "G": lambda k, n: "glob%d" % k, "num + 1": lambda k, n: n + 1, "local[0]": lambda k, n: "tag%d" % k,
         "self.mine": lambda k, n: "own%d" % k, "num * limit": lambda k, n: n * k * 10, "nope": None, "data['key%d' % (limit // 10)][0]": lambda k, n: "value%d" % k,
         "[x for x in local][1]": lambda k, n: n, "__name__": lambda k, n: "mod%d" % k}
CONDS = {"num % 2 == 0": lambda k, n: n % 2 == 0, "limit == 10": lambda k, n: k == 1, "tag == 'tag0'": lambda k, n: k == 0, "nope > 1": lambda k, n: False,
         "True": lambda k, n: True}


def value_of(expr, k, n):
    f = EXPRS[expr]
    return "name 'nope' is not defined" if f is None else str(f(k, n))


def spec_of(i, t):
    args = {"fire_count": "-1", "fire_period": "0"}
    if t.get("cond"):
        args["condition"] = t["cond"]
    if "log" in t:
        args["log_msg"] = "m%d " % i + " ".join("{%s}" % e for e in t["log"])
    if not t.get("snap", True):
        args["snapshot"] = "no_collect"
    if t.get("frame_type"):
        args["frame_type"] = t["frame_type"]
    if t.get("span"):
        args["span"] = "line"
    metrics = [{"name": "metric%d_%d" % (i, j), "type": "GAUGE", "expr": m["expr"], "labels": [{"key": "by", "expr": m["label"]}, {"key": "static", "static": "s"}]}
               for j, m in enumerate(t.get("metrics", []))]
    return {"id": "tp%d" % i, "path": "prog.py", "line": LINE, "args": args, "watches": list(t.get("watches", [])), "metrics": metrics,
            "log_fields": list(t.get("log", []))}


def run(case):
    specs = [spec_of(i, t) for i, t in enumerate(case["tps"])]
    w = World(dict(CFG))
    stats = collections.Counter()
    try:
        w.install(specs)
        hits = {}
        refs = {}
        gens = []
        for k, nums in enumerate(case["hits"]):
            mine = []
            for j, num in enumerate(nums):
                now = T0 + (1 + j) * 1_000_000 + k * 1000
                gen = frame_of(k, num)
                mine.append((now, gen))
                hits[now] = (k, num)
                refs[now] = {s["id"]: r for s, r in zip(specs, snapref.Ref.many(gen.gi_frame, specs, CFG, now=now))}
            gens.append(mine)
        tokens = {}

        def hitter(k):
            def go():
                tokens[k] = w.rec.me()
                for now, gen in gens[k]:
                    w._mine.now = now
                    w.handler.trace_call(gen.gi_frame, "line", None)
            return go
        sc = sched.Sched([hitter(k) for k in range(len(gens))], case["schedule"], opcodes=case.get("opcodes", ()))
        if not sc.run():
            raise HarnessError("threads did not finish")
        for e in sc.errors:
            if e is not None:
                check(False, "raised into the application: %r", e, sig="raised")
        by_hit = collections.defaultdict(list)
        for i in w.rec.items:
            k = next((k for k, t in tokens.items() if t == i["thread"]), None)
            hit = hits.get(i.get("now"))
            check(k is not None and hit is not None and hit[0] == k, "something is done outside a hit, or on the thread of another: %s", i, sig="thread")
            by_hit[i["now"]].append(i)
        contexts = {}
        for now, (k, num) in hits.items():
            items = by_hit[now]
            what = "the hit of thread %d (num %d) while another thread hits" % (k, num)
            ctxs = set()
            for i, (t, s) in enumerate(zip(case["tps"], specs)):
                due = CONDS[t["cond"]](k, num) if t.get("cond") else True
                snaps = [x["snapshot"] for x in items if x["kind"] == "snap" and x["tp"] == s["id"]]
                logs = [x for x in items if x["kind"] == "log" and x["tp"] == s["id"]]
                metrics = [x for x in items if x["kind"] == "metric" and x["name"].startswith("metric%d_" % i)]
                spans = [x for x in items if x["kind"] == "open" and x["tp"] == s["id"]]
                want = bool(due and t.get("snap", True))
                check(len(snaps) == want, "%s: %d snapshots of %s (condition %r), %d due", what, len(snaps), s["id"], t.get("cond"), want, sig="due")
                text = "[deep] m%d " % i + " ".join(value_of(e, k, num) for e in t.get("log", []))
                for snap in snaps:
                    snapref.compare(refs[now][s["id"]], snap)
                    stats["snapshots"] += 1
                    for e, r in zip(t.get("watches", []), snap.watches):
                        got = r.error if r.error is not None else snap.var_lookup[r.result.vid].value if r.result.vid in snap.var_lookup else None
                        check(got == value_of(e, k, num), "%s: watch %r of %s is %r, expected %r", what, e, s["id"], got, value_of(e, k, num), sig="watch")
                    if "log" in t:
                        check(snap.log_msg == text, "%s: the log of the snapshot of %s is %r, expected %r", what, s["id"], snap.log_msg, text, sig="log")
                    ctxs.add(snap.attributes.get("context"))
                want = bool(due and "log" in t)
                check(len(logs) == want, "%s: %d log messages of %s (condition %r), %d due", what, len(logs), s["id"], t.get("cond"), want, sig="due")
                for x in logs:
                    check(x["msg"] == text, "%s: %s logs %r, expected %r", what, s["id"], x["msg"], text, sig="log")
                    ctxs.add(x["ctx"])
                    stats["logs"] += 1
                names = ["metric%d_%d" % (i, j) for j in range(len(t.get("metrics", [])))] if due else []
                check(sorted(x["name"] for x in metrics) == names, "%s: metrics %s of %s, due are %s", what, [x["name"] for x in metrics], s["id"], names, sig="due")
                for x in metrics:
                    m = t["metrics"][int(x["name"].rsplit("_", 1)[1])]
                    value = EXPRS[m["expr"]](k, num)
                    labels = {"by": value_of(m["label"], k, num), "static": "s"}
                    check(x["value"] == float(value) and (x["labels"] == labels or m["label"] == "nope"), "%s: %s is reported with %r %s, expected %r %s", what,
                          x["name"], x["value"], x["labels"], value, labels, sig="metric")
                    stats["metrics"] += 1
                want = bool(due and t.get("span"))
                check(len(spans) == want, "%s: %d spans of %s, %d due", what, len(spans), s["id"], want, sig="due")
                for x in spans:
                    ctxs.add(x["ctx"])
            check(len(ctxs) <= 1, "%s has several context ids: %s", what, ctxs, sig="context")
            for c in ctxs:
                check(c not in contexts, "%s has the context id of another hit", what, sig="context")
                contexts[c] = now
        return {"nontrivial": sc.switches > 0 and sum(stats.values()) > 1, "labels": sorted(stats), "observed": dict(stats, steps=sc.steps, switches=sc.switches)}
    finally:
        w.close()


def tp(kinds):
    expr = st.sampled_from(sorted(EXPRS))
    number = st.sampled_from(["num + 1", "num * limit", "[x for x in local][1]"])
    opt = {"cond": st.sampled_from(sorted(CONDS)), "frame_type": st.sampled_from(["all_frame", "no_frame"])}
    req = {}
    if "snap" in kinds:
        req["watches"] = st.lists(expr, max_size=3, unique=True)
    if "log" in kinds:
        req["log"] = st.lists(expr, min_size=1, max_size=3)
        req["snap"] = st.booleans()
    if "metric" in kinds:
        req["metrics"] = st.lists(st.fixed_dictionaries({"expr": number, "label": expr}), min_size=1, max_size=2)
        req["snap"] = st.just(False)
    if "cond" in kinds:
        req["cond"] = opt.pop("cond")
        req["snap"] = st.booleans()
        req["log"] = st.lists(expr, min_size=1, max_size=1)
        req["watches"] = st.lists(expr, max_size=2, unique=True)
    if "snap" in kinds:
        opt["span"] = st.just(True)
    return st.fixed_dictionaries(req, optional=opt)


def cases(*kinds, steps=1200):
    return lambda: st.fixed_dictionaries({
        "tps": st.lists(tp(kinds), min_size=1, max_size=2), "hits": st.lists(st.lists(st.integers(0, 5), min_size=1, max_size=2), min_size=2, max_size=3),
        "schedule": st.one_of(sched.schedules(st, 3, steps, 5), sched.spread(st, 3, steps // 6))})


def each_switch(of, steps, stride):
    """The second thread hits at each step of the first."""
    def make(tier):
        for step in range(1, steps, 1 if tier == "thorough" else stride):
            yield {"tps": of, "hits": [[2], [3]], "schedule": {"order": [0, 1], "pre": [[step, 1]]}}
            if tier == "thorough":
                yield {"tps": of, "hits": [[3], [2], [4]], "schedule": {"order": [0, 1, 2], "pre": [[step, 1], [step + 50, 2]]}}
    return make
