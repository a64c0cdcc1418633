"""C03 Trigger placement."""
import collections
import copy
import linecache
import os
import sys
import threading

from hypothesis import strategies as st

from vlib import progs, tps
from vlib.core import Part, check
from vlib.model import Model
from vlib.world import Tracer, World

META = {"assumptions": [
    "a tracepoint names a source file by its file name (the last part of the path)",
    "the resumption of a generator is also a 'call' event for Python; whether it counts as entering is not asserted",
    "method tracepoints without a method name are generated, but only their effect on the others is asserted",
    "frames entered while no tracepoint was installed are not traced later",
]}

ACT = {"snap": "snap", "log": "log", "metric": "metric", "open": "span"}


def observed(items):
    """(tracepoint, kind) of each action seen; metrics carry the id of the tracepoint in their name."""
    out = collections.Counter()
    for i in items:
        if i["kind"] in ("snap", "log", "open"):
            out[(i["tp"], ACT[i["kind"]])] += 1
        elif i["kind"] == "metric":
            out[(i["ns"] if "ns" in i else i["namespace"], "metric")] += 1
    return out


def prepare(case, program, unlimited=True):
    lines, fns = tps.executed_lines(program)
    abstract = list(case["tps"])
    if "crowd" in case:
        # many at one place
        i, n, via = case["crowd"]
        abstract += [copy.deepcopy({**abstract[i % len(abstract)], "via": via}) for _ in range(n)]
    specs = tps.resolve(abstract, lines, fns, unlimited=unlimited, keep_stage=case.get("raw_stage", False))
    for s in specs:
        # deferred snapshots are sent at another event (C15); here only where the action starts matters
        if s["args"].get("stage", "").endswith("capture"):
            s["args"]["stage"] = s["args"]["stage"].replace("capture", "start")
        s["metrics"] = [dict(m, ns="NS" + s["id"]) for m in s.get("metrics", [])][:1]
    return specs


def name_maps(specs):
    to_rid = {s["rid"]: s["id"] for s in specs}
    for s in specs:
        to_rid["NS" + s["id"]] = s["id"]
    return to_rid


def expand(due):
    """Actions -> observable (tracepoint id, kind) counts. A collecting tracepoint with a log message also logs."""
    exp = collections.Counter()
    for tp, act in due:
        exp[(tp.spec["id"], act.kind)] += 1
        if act.kind == "snap" and tp.log is not None:
            exp[(tp.spec["id"], "log")] += 1
    return exp


def run_events(case):
    program = progs.Program(case["prog"])
    specs = prepare(case, program)
    w = World()
    try:
        # one that never matches, so that functions are traced while the others are removed
        keep = {"id": "keep", "path": "nothing.py", "line": 1, "args": {}}
        w.install([keep] + specs)
        model = Model(specs)
        every = list(model.tps)
        ids = name_maps(specs)
        hits = collections.Counter()
        stats = collections.Counter()
        updates = {e: mask for e, mask in case.get("updates", [])}

        def update(mask):
            """From now on only the tracepoints of the mask are installed."""
            on = [s for i, s in enumerate(specs) if mask >> (i % 12) & 1]
            for s in specs:
                if s.get("via") == "custom":
                    w.config.tracepoints.remove_custom(s["rid"])
            w.install([keep] + on)
            ids.update(name_maps(on))
            model.tps = [tp for tp in every if any(tp.spec is s for s in on)]
            stats["updates"] += 1

        def before(frame, event, arg):
            # (the threads of a program are waited for in library code, whose events come in any order)
            if frame.f_code.co_filename.startswith("/app/"):
                stats["app"] += 1
                if stats["app"] in updates:
                    update(updates[stats["app"]])
            return model.due(frame, event, w.now)

        def after(frame, event, arg, tok, items):
            due, unknown = tok
            exp = expand(due)
            got = collections.Counter()
            for (tp, kind), n in observed(items).items():
                got[(ids.get(tp, tp), kind)] += n
            for tp in unknown:
                for k in [k for k in got if k[0] == tp.spec["id"]]:
                    del got[k]
            where = "%s#%s %s() event %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno,
                                             frame.f_code.co_name, event)
            check(got == exp, "at %s expected actions %s but saw %s", where, dict(exp), dict(got),
                  sig="placement")
            stats["events"] += 1
            for k in exp:
                hits[k] += 1

        tr = Tracer(w, before, after)
        tr.run(program.instantiate())
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1])
        return {"nontrivial": len(hits) >= 2 and stats["events"] > 30,
                "labels": ["hit" if hits else "nohit"] + sorted({k[1] for k in hits})
                + (["updated"] if stats["updates"] else []) + (["shared-location"] if len({(s["path"], s["line"]) for s in specs}) < len(specs) else []),
                "observed": {"events": stats["events"], "actions": sum(hits.values())}}
    finally:
        w.close()


def run_live(case):
    """The real hooks: reference recording of one run against the actions of another run of the same program."""
    program = progs.Program(case["prog"])
    specs = prepare(case, program)
    ref = []
    together = set()
    model = Model(specs)

    def rec(frame, event, arg):
        if frame.f_code.co_filename.startswith("/app/"):
            due, unknown = model.due(frame, event, 0)
            for k, n in sorted(expand(due).items()):
                ref.extend([k] * n)
            ids = {tp.spec["id"] for tp, _ in due}
            together.update((a, b) for a in ids for b in ids)
        return rec

    unknown_ids = {tp.spec["id"] for tp in model.tps if tp.nameless or tps.leaves_generators(program)}

    def start():
        sys.settrace(rec)
        threading.settrace(rec)

    def stop():
        sys.settrace(None)
        threading.settrace(None)

    b1 = program.instantiate().run_main_thread_safe(start, stop)
    w = World()
    try:
        w.install(specs)
        ids = name_maps(specs)
        b2 = program.instantiate().run_main_thread_safe(w.handler.start, w.handler.shutdown)
        got = []
        for i in w.rec.items:
            if i["kind"] in ACT:
                key = i.get("tp") or i.get("namespace")
                got.append((ids.get(key, key), ACT[i["kind"]]))
        # order inside one event is free: compare the sequences of each (tracepoint, kind) and of the kinds apart
        want = [k for k in ref if k[0] not in unknown_ids]
        have = [k for k in got if k[0] not in unknown_ids]
        check(collections.Counter(want) == collections.Counter(have),
              "the run should act %s, but did %s", dict(collections.Counter(want)), dict(collections.Counter(have)),
              sig="live")
        for kind in ("snap", "log", "metric", "span"):
            sw = [k for k in ref if k[1] == kind and k[0] not in unknown_ids]
            sh = [k for k in got if k[1] == kind and k[0] not in unknown_ids]
            one = {k[0] for k in sw}
            for a in one:
                for b in one:
                    if a < b and (a, b) not in together:
                        check([k for k in sw if k[0] in (a, b)] == [k for k in sh if k[0] in (a, b)],
                              "order of %s and %s (%s) differs", a, b, kind, sig="live-order")
        check(b1["r"] == b2["r"], "the program behaves differently: %s / %s", b1["r"], b2["r"])
        return {"nontrivial": len(want) >= 2, "labels": ["acts" if want else "silent"],
                "observed": {"actions": len(want)}}
    finally:
        w.close()


def run_synthetic(case):
    """Events of hand-made frames: every event kind x file x line x function against every location."""
    specs = []
    for i, t in enumerate(case["tps"]):
        a = {"fire_count": "-1", "fire_period": "0"}
        if t["m"] is not None:
            a["method_name"] = t["m"]
        if t.get("stage"):
            a["stage"] = t["stage"]
        specs.append({"id": "tp%d" % i, "path": t["p"], "line": t["l"], "args": a, "via": t["via"]})
    w = World()
    try:
        w.install(specs)
        model = Model(specs)
        ids = {s["rid"]: s["id"] for s in specs}
        acted = 0
        for ev in case["events"]:
            frame = make_frame(ev["file"], ev["fn"], ev["line"])
            due, undecided = model.due(frame, ev["ev"], w.now)
            exp = expand(due)
            mark = w.rec.mark()
            arg = {"exception": (ValueError, ValueError("x"), None), "return": 3}.get(ev["ev"])
            w.handler.trace_call(frame, ev["ev"], arg)
            got = collections.Counter({(ids.get(t, t), k): n for (t, k), n in observed(w.rec.since(mark)).items()})
            # a method tracepoint without a name may act where a function of the file is entered
            unknown = {tp.spec["id"] for tp in undecided}
            got = collections.Counter({k: n for k, n in got.items() if k[0] not in unknown})
            exp = collections.Counter({k: n for k, n in exp.items() if k[0] not in unknown})
            check(got == exp, "event %s: expected %s, saw %s", ev, dict(exp), dict(got), sig="synthetic")
            acted += sum(exp.values())
        return {"nontrivial": acted > 0, "labels": ["acted" if acted else "silent"]}
    finally:
        w.close()


_FRAMES = {}


def make_frame(filename, fn, line):
    """A real frame object of the given file, function (or the module itself) and line; its source can be looked up."""
    key = (filename, fn, line)
    if fn == "<module>":
        src = "\n" * (line - 1) + "FRAME = sys._getframe()\n"
    elif line >= 2:
        src = "\n" * (line - 2) + "def %s():\n return sys._getframe()\n" % fn
    else:
        src = "def %s(): return sys._getframe()\n" % fn
    if key not in _FRAMES:
        g = {"sys": sys}
        exec(compile(src, filename, "exec"), g)
        _FRAMES[key] = g["FRAME"] if fn == "<module>" else g[fn]()
    linecache.cache[filename] = (len(src), None, src.splitlines(True), filename)
    assert _FRAMES[key].f_lineno == line
    return _FRAMES[key]


PATHS = ["prog.py", "other.py", "rog.py", "prog.pyc", "Prog.py", "__init__.py", "p.py", "", "prog.py", "other.py", "prog.py ", "x\\prog.py", "proĝ.py"]
FILES = ["/app/x/prog.py", "/app/y/prog.py", "prog.py", "/app/x/other.py", "/app/prog.py/other.py", "/app/__init__.py",
         "/app/rog.py", "/app/x/Prog.py", "/app/x/prog.pyc", "<string>", "p.py", "/app/x\\prog.py", "x\\prog.py", "/app/prog.py ", "/app/proĝ.py"]
FNS = ["run", "runs", "Run", "main", "prog", "<module>", "run", "main", "_run", "__run", "run_", "rün"]


def synthetic():
    tp = st.fixed_dictionaries({"p": st.sampled_from(PATHS), "l": st.sampled_from([1, 2, 2, 11]),
                                "m": st.one_of(st.none(), st.sampled_from(FNS + [""])),
                                "via": st.sampled_from(["service", "custom"]),
                                "stage": st.sampled_from([None, None, "line_start", "line_end", "method_start", "method_end"])})
    ev = st.fixed_dictionaries({"file": st.sampled_from(FILES), "fn": st.sampled_from(FNS),
                                "line": st.sampled_from([1, 2, 2, 11]),
                                "ev": st.sampled_from(["line", "line", "call", "call", "return", "exception", "opcode"])})
    return st.fixed_dictionaries({"tps": st.lists(tp, min_size=2, max_size=6),
                                  "events": st.lists(ev, min_size=20, max_size=60)})


def cases(gens=True):
    return st.fixed_dictionaries({
        "prog": progs.strategy(st, gens=gens),
        "tps": st.lists(tps.spec(st, limits=False, watches=False), min_size=1, max_size=6)},
        optional={"raw_stage": st.booleans(),
                  "crowd": st.tuples(st.integers(0, 5), st.sampled_from([2, 5, 12]), st.sampled_from(["service", "custom"])).map(list),
                  "updates": st.lists(st.tuples(st.integers(2, 150), st.integers(0, 4095)).map(list), min_size=1, max_size=4)})


PARTS = [
    Part("events", run_events, cases, quick=1000, thorough=12000, shards=4, thorough_shards=8,
         rule="at least two kinds of action at the events of a program with more than 30 events"),
    Part("live", run_live, lambda: st.one_of(cases(), cases(False), cases(False)), quick=400, thorough=5000, shards=2, thorough_shards=8,
         rule="at least two actions in the run"),
    Part("synthetic", run_synthetic, synthetic, quick=800, thorough=12000, shards=2, thorough_shards=8,
         rule="some event matches a location"),
]
