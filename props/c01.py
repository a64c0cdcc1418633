"""C01 Host transparency: the agent never changes what the host program does."""
import collections
import gc
import logging
import random
import sys
import threading
import types
import warnings
import weakref

from hypothesis import strategies as st

from vlib import bottom, progs, tps, values
from vlib.core import HarnessError, InjectedBaseFault, InjectedFault, Part, check, safe_str
from vlib.hosts import process_cases, run_process
from vlib.world import Tracer, World

META = {"assumptions": [
    "expressions have no side effects (no consuming of iterators, no insertion into default dicts), and the text of a value can be built without changing it "
    "(mocks record that their text is read)",
    "the host does not inspect its own stack, reference counts or the number of threads, and does not replace the trace function inside a traced function",
    "a KeyboardInterrupt or other asynchronous exception that hits while agent code runs belongs to the application and is not asserted",
    "warnings that are shown because the agent reads a value are out of scope",
]}

EXPRS = tps.EXPRS + ["(v0 := 99)", "(fresh := v1)", "[y := v0, y]", "V", "V[0]", "(V[0], V[1])", "{1: V[2]}", "globals().keys()", "locals()",
                     "v0 is V[0]", "(yield)", "await v0", "lambda: v0", "*v1", "v0; v1", "\x00", "__import__('nope')", "open('/nope')",
                     "().__class__", "type(v0)(3)", "v0.nope.nope", "vars()", "dir()", "[v0] * 10**9 if False else 1", "~v0", "not v3"]
CONDS = tps.CONDS + ["V[0]", "V[1] == V[2]", "(v1 := None)", "not V[0]", "V[0] < V[1]", "(yield)", "\x00"]
LOGS = tps.LOGS + ["{V[0]} {V[1]}", "{V}", "{v0:{a}}", "{v0.x} {v1!s}", "{(v0 := 5)}", "{", "}", "{}", "{0}", "{v0", "%s %d {v0}", "{v0!z}", "{a.b.c}"]
NV = 4
LEAVES = [n for n in sorted(values.LEAVES) if n not in ("mock", "mock2", "ddict", "local", "thread", "environ", "future")]
ITERATORS = {"generator", "list_iterator", "list_reverseiterator", "dict_keyiterator", "map", "zip", "filter", "enumerate", "count", "_tee", "set_iterator",
             "tuple_iterator", "range_iterator", "str_ascii_iterator", "str_iterator"}


# -- what is compared ------------------------------------------------------------------------------------------------------
def drained(v):
    """The state of a value, iterators are used up."""
    t = type(v)
    name = type.__dict__["__name__"].__get__(t)
    if name in ITERATORS and t.__module__ in ("builtins", "itertools"):
        out = []
        try:
            for _ in range(4):
                out.append(progs.show(next(v)))
        except BaseException as e:  # noqa: B902
            out.append(type(e).__name__)
        return name + repr(out)
    if progs.is_a(v, dict):
        return name + repr([(progs.show(k), progs.show(x)) for k, x in list(dict.items(v))[:40]])
    if progs.is_a(v, list):
        return name + repr([progs.show(x) for x in list.__iter__(v)][:40])
    if progs.is_a(v, set):
        return name + str(set.__len__(v))
    if name == "StringIO" and not v.closed:
        return name + repr((v.tell(), v.getvalue()))
    return progs.show(v)


def run_once(program, graph, start=None, stop=None):
    objs = values.build(graph)
    vals = [objs[i % len(objs)] for i in range(NV)]
    inst = program.instantiate(vals)
    random.seed(77)
    with warnings.catch_warnings(record=True):
        box = inst.run_main_thread_safe(start, stop)
        data = {"result": box["r"], "output": list(inst.out), "random": random.random()}
        for f, g in inst.mods.items():
            data["globals of " + f] = sorted("%s=%s" % (k, progs.show(v)) for k, v in g.items() if k not in ("V", "OUT", "F", "T", "thread", "__builtins__"))
            data["names of " + f] = sorted(map(str, g))
        data["values"] = [drained(v) for v in vals]
    return data, box


def same(want, got, what):
    for k in want:
        if want[k] != got[k]:
            if isinstance(want[k], list):
                n = next((i for i, (a, b) in enumerate(zip(want[k], got[k])) if a != b), min(len(want[k]), len(got[k])))
                check(False, "%s: %s differs at %d: without the agent %s, with it %s", what, k, n, want[k][n:n + 2], got[k][n:n + 2], sig="differs")
            check(False, "%s: %s differs: without the agent %s, with it %s", what, k, want[k], got[k], sig="differs")


class BadHandler(logging.Handler):
    """A log handler of the application."""

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        self.n = 0

    def emit(self, record):
        self.n += 1
        record.getMessage()
        if self.kind == "raise":
            raise InjectedFault("log handler")
        if self.kind == "base":
            raise InjectedBaseFault("log handler")


class DeepLog:
    """Enables the agent's logger for one run."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        if self.kind:
            lg = logging.getLogger("deep")
            self.state = (lg.level, list(lg.handlers))
            lg.setLevel(logging.DEBUG)
            self.handler = BadHandler(self.kind)
            lg.addHandler(self.handler)

    def __exit__(self, *a):
        if self.kind:
            lg = logging.getLogger("deep")
            lg.setLevel(self.state[0])
            lg.removeHandler(self.handler)


FAULTS = {"E": InjectedFault, "B": InjectedBaseFault, "K": KeyboardInterrupt, "S": SystemExit, "R": RecursionError, "I": StopIteration, "G": GeneratorExit}
OPS = ["log_tracepoint", "create_span", "close", "counter", "gauge", "histogram", "summary", "decorate", "push_snapshot"]


def injector(faults):
    def fault(tag, op):
        if faults and op in faults:
            raise FAULTS[faults[op]]("injected into %s" % op)
    return fault


def raising(kind):
    def fn(*a):
        raise FAULTS[kind]("injected into the configuration")
    return fn


def configuration(cfg):
    out = {"APP_ROOT": "/app"}
    for k, v in (cfg or {}).items():
        out[k] = raising(v[1]) if isinstance(v, list) and v[:1] == ["raise"] else v
    return out


# -- programs: whole programs under the real hooks --------------------------------------------------------------------------
def defuse(prog):
    """Finalisers of suspended generators must not be observable: when they run is a known finding (see `lifetimes`)."""
    def has_yield(body):
        return any(isinstance(x, list) and (x[:1] in (["yield"], ["yfrom"]) or has_yield(x)) for x in body)

    def walk(x):
        if not isinstance(x, list):
            return x
        if x[:1] == ["try"] and len(x) == 5 and x[4] is not None and has_yield(x[1:4]):
            handlers = x[2] or [["Exception", [["pass"]]]]
            return ["try", walk(x[1]), walk(handlers), walk(x[3]), None]
        return [walk(i) for i in x]
    return {**prog, "funcs": [{**f, "body": walk(f["body"])} for f in prog["funcs"]]}


def reference_lines(program, graph):
    """How often each line of the program is reached, in a run without the agent."""
    seen = collections.Counter()

    def tr(frame, event, arg):
        fn = frame.f_code.co_filename
        if fn in progs.FILES:
            if event == "line":
                seen[fn.rsplit("/", 1)[1], frame.f_lineno] += 1
            return tr
        return None

    def start():
        sys.settrace(tr)
        threading.settrace(tr)

    def stop():
        sys.settrace(None)
        threading.settrace(None)
    run_once(program, graph, start, stop)
    return seen


def run_programs(case):
    program = progs.Program(defuse(case["prog"]))
    graph = case["graph"]
    want, _ = run_once(program, graph)
    seen = reference_lines(program, graph)
    objs = values.build(graph)
    lines, fns = tps.executed_lines(program, [objs[i % len(objs)] for i in range(NV)])
    specs = tps.resolve(case["tps"], lines, fns, keep_stage=case["raw_stage"])
    for s in specs:
        # every action is of interest here, not their limits
        if case["unlimited"]:
            s["args"].update(fire_count="-1", fire_period="0")
    every = sorted(seen)
    marks = {}
    for i, n in enumerate(case["sentinels"]):
        if every:
            at = every[n % len(every)]
            marks["mark%d" % i] = at
            specs.insert(n % (len(specs) + 1), {"id": "mark%d" % i, "path": at[0], "line": at[1], "watches": [], "args": {
                "snapshot": "no_collect", "log_msg": "mark", "fire_count": "-1", "fire_period": "0"}})
    fault = injector(case.get("faults"))
    w = World(configuration(case.get("config")), logger=2, spans=2, metrics=1, decorators=1, fault=fault, push=fault)
    leaks = []
    try:
        w.install(specs)
        with DeepLog(case.get("log")):
            got, box = run_once(program, graph, w.handler.start, w.handler.shutdown)
        same(want, got, "the run")
        check(box["trace"] == w.handler.trace_call, "tracing was switched off: the trace function of the thread is %s", box["trace"], sig="tracing")
        hits = collections.Counter()
        for i in w.rec.of("log"):
            if i["plugin"] == "log0" and i["msg"] == "[deep] mark":
                hits[i["tp"]] += 1
        if not tps.leaves_generators(program):
            for m, at in marks.items():
                check(hits[m] == seen[at], "%s#%s is reached %d times, but its tracepoint acted %d times", at[0], at[1], seen[at], hits[m], sig="tracing")
        acted = collections.Counter(i["kind"] for i in w.rec.items)
        check(not leaks, "leaks %s", leaks)
        return {"nontrivial": sum(acted.values()) - sum(hits.values()) > 2,
                "labels": sorted(acted) + [k for k in ("faults", "config", "log") if case.get(k)] + (["hit-all"] if marks else []),
                "observed": dict(acted)}
    finally:
        w.close()


def configs():
    weird = {k: st.sampled_from([["raise", "E"], ["raise", "B"], "x", None, 5, ""]) for k in
             ("IN_APP_INCLUDE", "IN_APP_EXCLUDE", "APP_ROOT", "MAX_VAR_DEPTH", "MAX_STRING_LENGTH", "MAX_VARIABLES")}
    return st.fixed_dictionaries({}, optional=weird)


def program_cases():
    graph = values.graph(st, 8, min_nodes=NV, leaves=LEAVES)

    def with_exprs(s):
        return st.fixed_dictionaries({"base": st.just(s)}, optional={"w": st.lists(st.sampled_from(EXPRS), max_size=3), "c": st.sampled_from(CONDS),
                                                                    "l": st.sampled_from(LOGS)}).map(merge)

    def merge(d):
        s = dict(d["base"])
        a = dict(s["args"])
        if "w" in d:
            s["watches"] = d["w"]
        if d.get("c") is not None:
            a["condition"] = d["c"]
        if "l" in d:
            a["log_msg"] = d["l"]
        s["args"] = a
        return s
    spec = tps.spec(st, conds=None, limits=True).flatmap(with_exprs)
    return st.fixed_dictionaries({
        "prog": progs.strategy(st, values=NV, size=4), "graph": graph, "tps": st.lists(spec, min_size=1, max_size=6), "raw_stage": st.booleans(),
        "unlimited": st.sampled_from([True, True, False]), "sentinels": st.lists(st.integers(0, 200), min_size=1, max_size=3)},
        optional={"faults": st.dictionaries(st.sampled_from(OPS), st.sampled_from(sorted(FAULTS)), min_size=1, max_size=4), "config": configs(),
                  "log": st.sampled_from(["format", "raise", "base"])})


# -- frames: unusual frames, given to the handler -----------------------------------------------------------------------------
SRC = '''def target(V):
    v0 = V[0]
    v1 = [v0, V]
    try:
        v2 = v1[0].x
    except Exception as e:
        v2 = e
    for i in range(2):
        v3 = i
    return kind(V)
'''
CLASS_SRC = '''class Body(metaclass=Meta):
    v0 = V[0]
    v1 = 2
    v2 = 3
'''


class HookedGlobals(dict):
    """A globals mapping of its own type (only its dict part is used by Python)."""

    def __getitem__(self, k):
        raise InjectedFault("globals")

    def __iter__(self):
        raise InjectedBaseFault("globals")

    def keys(self):
        raise InjectedBaseFault("globals")


def kind_of(kind, exc):
    def ret(V):
        if kind == "raise":
            raise FAULTS.get(exc, ValueError)("from the host")
        return V[0]
    return ret


NAMES = ["target", "<module>", "", "a b", "é", "\ud800", "<lambda>", "<listcomp>", "x" * 3000, "\x00"]
FILES = ["/app/x/prog.py", "", "<string>", "prog.py", "/app/\ud800/prog.py", "/app/x/prog.py/", "C:\\app\\prog.py", "/" * 2000 + "prog.py", "\x00prog.py", ".",
         "<frozen importlib._bootstrap>", "/app/x/é.py"]


def run_frames(case):
    outs = []
    for agent in (False, True):
        outs.append(one_frames(case, agent))
    want, (got, stats) = outs[0][0], outs[1]
    same(want, got, "the frame")
    return {"nontrivial": stats["acted"] > 0, "labels": [case["globals"], case["style"]] + (["acted"] if stats["acted"] else []), "observed": stats}


DRIVER = bottom.compile_driver('''
try:
    start()
    out.append(call())
except BaseException as e:
    out.append(e)
finally:
    stop()
''')


def one_frames(case, agent):
    objs = values.build(case["graph"])
    V = [objs[i % len(objs)] for i in range(NV)]
    name, file = NAMES[case["name"]], FILES[case["file"]]
    kind = kind_of(case["kind"], case["exc"])
    g = {"V": V, "kind": kind}
    if case["globals"] == "hooked":
        g = HookedGlobals(g)
    elif case["globals"] == "named":
        dict.update(g, {"__name__": 5, "__file__": V[0], "__builtins__": __builtins__})
    elif case["globals"] == "builtins":
        g["__builtins__"] = {"range": range, "Exception": Exception, "__build_class__": __build_class__}
    elif case["globals"] == "shadow":
        g.update({k: V[0] for k in ("len", "str", "type", "isinstance", "logging", "deep", "id", "frame", "eval", "locals", "dict")})
    ns = {}
    if case["style"] == "class":
        from props.c06 import Prep, namespace
        g["Meta"] = type("Meta", (Prep,), {"ns": staticmethod(namespace(case["ns"]))})
        g.setdefault("__name__", "app")
        code = compile(CLASS_SRC, "prog.py", "exec").replace(co_filename=file)
        if "__builtins__" not in g:
            dict.__setitem__(g, "__builtins__", __builtins__)

        def call():
            exec(code, g)
    elif case["style"] == "exec":
        # the body of the function, run as a module with a mapping of its own for the locals
        from props.c06 import AllNs, BadNs
        body = "".join(ln[4:] + "\n" for ln in SRC.split("\n")[1:-2]) + "last = 1\n"
        code = compile(body, "prog.py", "exec").replace(co_filename=file, co_name=name)
        if "__builtins__" not in g:
            dict.__setitem__(g, "__builtins__", __builtins__)
        loc = {"keys": type("Ns", (BadNs,), {"mode": "keys"}), "all": AllNs}.get(case["ns"], dict)()

        def call():
            exec(code, g, loc)
            return sorted(dict.keys(loc), key=str)
    else:
        exec(compile(SRC, "prog.py", "exec"), {"__builtins__": __builtins__}, ns)
        code = ns["target"].__code__.replace(co_filename=file, co_name=name)
        if case["style"] == "noline":
            code = code.replace(co_linetable=b"")
        fn = types.FunctionType(code, g)

        def call():
            return fn(V)
    before = sorted(map(str, dict.keys(g)))
    specs = []
    base = file.replace("\\", "/").rsplit("/", 1)[-1]
    for i, t in enumerate(case["tps"]):
        a = dict(t["args"])
        a.update(fire_count="-1", fire_period="0")
        path = {"file": file, "base": base}.get(t["path"], t["path"])
        if t["at"] == "method":
            a["method_name"] = name
        s = {"id": "tp%d" % i, "path": path, "line": t["at"] if isinstance(t["at"], int) else 1, "args": a, "watches": t["watches"], "via": "custom"}
        if t.get("metrics"):
            s["metrics"] = t["metrics"]
        specs.append(s)
    stats = {"acted": 0, "events": 0}
    out = []
    if not agent:
        bottom.run_in_thread(DRIVER, {"start": lambda: None, "stop": lambda: None, "call": call, "out": out})
    else:
        fault = injector(case.get("faults"))
        w = World(configuration(case.get("config")), decorators=1, fault=fault, push=fault)
        try:
            for s in specs:
                try:
                    w.install([s] if s["via"] == "custom" else [])
                except Exception:  # noqa: B902
                    # a registration that cannot be understood may be refused
                    pass
            with DeepLog(case.get("log")):
                tr = Tracer(w)
                bottom.run_in_thread(DRIVER, {"start": tr.start, "stop": tr.stop, "call": call, "out": out})
            check(not tr.raised, "the handler raised into the application: %r", [(e[0], safe_str(e[3])) for e in tr.raised[:1]], sig="raised")
            if len(w.config.tracepoints.current_config) or w.custom:
                check(tr.untraced_frames == 0, "tracing was switched off for %d frames", tr.untraced_frames, sig="tracing")
            stats["acted"] = len(w.rec.items)
            stats["events"] = tr.events
        finally:
            w.close()
    r = out[0]
    extra = sorted(set(map(str, dict.keys(g))) - set(before))
    data = {"result": progs.exc_chain(r).split("@")[0] if progs.is_a(r, BaseException) else progs.show(r), "new globals": extra, "values": [drained(v) for v in V]}
    return data, stats


def frame_cases():
    tp = st.fixed_dictionaries({
        "path": st.sampled_from(["base", "file", "base", "base", "base", "file", "prog.py", "", "/", "x"]),
        "at": st.one_of(st.sampled_from([2, 3, 4, "method"]), st.integers(1, 11), st.sampled_from([2, 3, "method", "method", 0, -1, 10 ** 6])),
        "args": tps.args(st, limits=False, conds=CONDS), "watches": st.lists(st.sampled_from(EXPRS), max_size=3)},
        optional={"metrics": st.lists(tps.metric(st), min_size=1, max_size=2)})
    return st.fixed_dictionaries({
        "graph": values.graph(st, 6, min_nodes=NV, leaves=LEAVES), "name": st.sampled_from([0, 0, 0] + list(range(len(NAMES)))), "file": st.sampled_from([0, 0, 0, 0] + list(range(len(FILES)))),
        "globals": st.sampled_from(["bare", "named", "builtins", "hooked", "shadow"]), "style": st.sampled_from(["function", "function", "class", "exec", "noline"]),
        "kind": st.sampled_from(["return", "raise"]), "exc": st.sampled_from(sorted(FAULTS) + ["V"]),
        "ns": st.sampled_from(["keys", "iter", "items", "getitem", "list", "all"]), "tps": st.lists(tp, min_size=1, max_size=4)},
        optional={"faults": st.dictionaries(st.sampled_from(OPS), st.sampled_from(sorted(FAULTS)), min_size=1, max_size=4), "config": configs(),
                  "log": st.sampled_from(["format", "raise", "base"])})


# -- headroom: the host is close to the recursion limit ------------------------------------------------------------------------
DEEP_SRC = '''def target(x):
    v0 = x
    return v0
def down(n, used):
    if n:
        return down(n - 1, used)
    return target(used)
'''
HEAD_DRIVER = bottom.compile_driver('''
import sys
try:
    if start:
        start()
    try:
        out.append(down(n, 5))
    except BaseException as e:
        out.append(type(e).__name__)
    out.append(sys.gettrace())
finally:
    if stop:
        stop()
''')
KNOWN_HEADROOM = 12


def deepest():
    """How deep `down` can go in a run without the agent."""
    lo, hi = 10, sys.getrecursionlimit() + 10
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if headroom_run(mid, None)[0] == 5:
            lo = mid
        else:
            hi = mid - 1
    return lo


def headroom_run(n, w):
    ns = {"__name__": "app"}
    exec(compile(DEEP_SRC, "/app/x/prog.py", "exec"), ns)
    out = []
    bottom.run_in_thread(HEAD_DRIVER, {"__name__": "driver", "down": ns["down"], "n": n, "out": out, "start": w and w.handler.start,
                                       "stop": w and w.handler.shutdown})
    return out


_DEEPEST = []


def run_headroom(case):
    if not _DEEPEST:
        _DEEPEST.append(deepest())
    w = World({"APP_ROOT": "/app"}, decorators=1)
    try:
        specs = []
        for i, t in enumerate(case["tps"]):
            specs.append({"id": "tp%d" % i, "path": "prog.py", "line": t["line"], "args": {"fire_count": "-1", "fire_period": "0", **t["args"]}, "watches": t["watches"],
                          "metrics": t.get("metrics", [])})
        w.install(specs)
        with DeepLog(case.get("log")):
            out = headroom_run(_DEEPEST[0] - case["headroom"], w)
        sig = "recursion-headroom" if case["headroom"] < KNOWN_HEADROOM else "headroom"
        check(out[0] == 5, "with %d frames left to the recursion limit the program gives %s, and 5 without the agent", case["headroom"], out[0], sig=sig)
        check(out[1] == w.handler.trace_call, "with %d frames left to the recursion limit tracing is switched off", case["headroom"], sig=sig)
        return {"nontrivial": case["headroom"] < 150, "observed": {"acted": len(w.rec.items)}}
    finally:
        w.close()


def headroom_cases(tier):
    kinds = [[{"line": 3, "args": {}, "watches": ["v0"]}],
             [{"line": 3, "args": {"log_msg": "a {v0}", "snapshot": "no_collect", "condition": "v0 > 1"}, "watches": []}],
             [{"line": 2, "args": {"span": "line", "stage": "line_capture"}, "watches": ["v0"], "metrics": [{"name": "m", "type": "COUNTER", "expr": "v0"}]}],
             [{"line": 1, "args": {"method_name": "target", "span": "method", "stage": "method_capture"}, "watches": []}, {"line": 1, "args": {"method_name": "down", "fire_count": "1"}, "watches": []}],
             [{"line": 70, "args": {}, "watches": []}]]
    for h in list(range(0, 60)) + list(range(60, 200, 9 if tier == "quick" else 1)):
        for i, k in enumerate(kinds):
            yield {"headroom": h, "tps": k, **({"log": "format"} if (h + i) % 3 == 0 else {})}


# -- lifetimes: the agent keeps nothing of the host alive ----------------------------------------------------------------------
LIFE_SRC = '''def target(make):
    v0 = make('first')
    v1 = [v0]
    inner(make, v0)
    v2 = 3
    return v2
def inner(make, v9):
    v8 = make('second')
    v7 = {'k': v8}
    raise_it(make) if mode == 'raise' else None
    return 5
def raise_it(make):
    v5 = make('third')
    raise ValueError(v5)
def handled(make):
    v0 = make('handled')
    try:
        raise_it(make)
    except ValueError:
        v1 = 'handled'
    finally:
        v2 = [v0]
    return len(v2)
def gen(make):
    v0 = make('gen')
    yield 1
    v1 = [v0]
    yield 2
def loop(make):
    n = 0
    for v3 in gen(make):
        n += v3
    return n
class Owner:
    def __init__(self, make):
        self.v0 = make('owned')
        self.v1 = [self.v0]
    def use(self):
        v0 = self.v0
        v1 = (lambda: v0)
        return len(v1().name)
def own(make):
    v0 = Owner(make)
    return v0.use()
def rec(make, n):
    v0 = make('rec%d' % n)
    if n == 0:
        return 0
    return rec(make, n - 1) + 1
def cyc(make):
    v0 = make('cycle')
    v1 = [v0]
    v1.append(v1)
    v2 = len(v1)
    return v2
'''
LIFE_FNS = ["target", "target", "handled", "loop", "own", "rec", "cyc"]
LIFE_DRIVER = bottom.compile_driver('''
try:
    start()
    for fn, args in calls:
        try:
            fn(make, *args)
        except ValueError:
            pass
        seen.append(alive())
finally:
    stop()
''')


def run_lifetimes(case):
    """When the functions have ended, their objects are gone at once (no collector run is needed)."""
    ns = {"__name__": "app", "mode": case["mode"]}
    exec(compile(LIFE_SRC, "/app/x/prog.py", "exec"), ns)
    calls = [(ns[f], (2,) if f == "rec" else ()) for f in case.get("fns", ["target"])]
    refs, seen, plain = [], [], []

    def make(name):
        o = values.Plain()
        o.name = name
        refs.append(weakref.ref(o))
        return o

    def alive():
        return [r().name for r in refs if r() is not None]
    specs = [{"id": "tp%d" % i, "path": "prog.py", "line": t["line"], "args": dict(t["args"], fire_count="-1", fire_period="0"), "watches": t["watches"],
              "via": t.get("via", "service"), "metrics": t.get("metrics", [])} for i, t in enumerate(case["tps"])]
    fault = injector(case.get("faults"))
    w = World({"APP_ROOT": "/app"}, decorators=1, fault=fault, push=fault)
    auto = gc.isenabled()
    gc.collect()
    gc.disable()
    try:
        bottom.run_in_thread(LIFE_DRIVER, {"__name__": "driver", "calls": calls, "make": make, "alive": alive, "seen": plain, "start": lambda: None,
                                           "stop": lambda: None})
        del refs[:]
        w.install(specs)
        with DeepLog(case.get("log")):
            bottom.run_in_thread(LIFE_DRIVER, {"__name__": "driver", "calls": calls, "make": make, "alive": alive, "seen": seen,
                                               "start": w.handler.start, "stop": w.handler.shutdown})
        acted = len(w.rec.items)
        check(seen == plain, "objects that exist when the functions have ended (no collector runs): %s, without the agent %s", seen, plain, sig="leak")
        gc.collect()
        after = alive()
        check(not after, "the agent keeps objects of the host: %s", after, sig="leak")
        return {"nontrivial": acted > 0, "labels": ["acted"] if acted else [], "observed": {"acted": acted, "alive": seen}}
    finally:
        if auto:
            gc.enable()
        w.close()


def lifetime_cases():
    tp = st.fixed_dictionaries({"line": st.integers(1, len(LIFE_SRC.splitlines())), "args": tps.args(st, limits=False), "watches": st.lists(st.sampled_from(
        ["v0", "v1", "[v0]", "v9", "v8", "v7", "(lambda: v0)", "1/0", "v5", "[q for q in (v0, v9)]", "nope", "locals()"]), max_size=3)},
        optional={"via": st.sampled_from(["service", "custom"]), "metrics": st.lists(tps.metric(st), min_size=1, max_size=1)})
    return st.fixed_dictionaries({"mode": st.sampled_from(["raise", "return"]), "fns": st.lists(st.sampled_from(LIFE_FNS), min_size=2, max_size=5),
                                  "tps": st.lists(tp, min_size=1, max_size=6)},
                                 optional={"faults": st.dictionaries(st.sampled_from(OPS), st.sampled_from(sorted(FAULTS)), min_size=1, max_size=3),
                                           "log": st.sampled_from(["format", "raise"])})


# -- witness: values that see how they are used --------------------------------------------------------------------------------
WIT_SRC = '''def target(v0, v1, v2, self):
    x = (v0, v1)
    y = [v2]
    inner(v0, y)
    try:
        boom(v1)
    except BaseException as e:
        z = e
    n = 0
    for q in gen(v0, v2):
        n += 1
    Owner(v2).use(v1)
    return v0
def inner(self, p):
    a = p
    return self
def boom(v1):
    k = v1
    raise error
def gen(v0, v1):
    yield v0
    g = {"k": v1}
    yield v1
class Owner:
    def __init__(self, v2):
        self.v2 = v2
        self.__p = [v2]
    def use(self, v1):
        w = self.v2
        return (lambda: w)()
def last(v0):
    raise error
'''
WIT_DRIVER = bottom.compile_driver('''
try:
    start()
    record(True)
    try:
        out.append(target(*args))
        last(args[0])
    except BaseException as e:
        out.append(e)
    finally:
        record(False)
finally:
    stop()
''')
WIT_EXPRS = ["v0", "v1", "v2", "self", "x", "y", "z", "p", "q", "k", "g", "w", "a", "e", "(v0, v1)", "[v2]", "{'k': v0}", "v0 is v1", "nope", "error"]
# "self" names the object of the class whose name is shown
WIT_SELF = {"read __class__", "__getattribute__:__class__", "meta __getattribute__:__name__"}
# an object that is to be a number or text is asked for it
WIT_NUMBER = {"__float__", "__int__", "__index__"}


def run_witness(case):
    from vlib import witness
    logs, outs = [], []
    acted = 0
    metrics = any(t.get("metrics") for t in case["tps"])
    for agent in (False, True):
        log = []
        vals, record = witness.build(case["values"], log)
        get = lambda n: vals[n % len(vals)]  # noqa: E731
        errors = [v for v in vals if progs.is_a(v, BaseException)] or [ValueError(get(0))]
        ns = {"__name__": "app", "error": errors[case["error"] % len(errors)]}
        exec(compile(WIT_SRC, "/app/x/prog.py", "exec"), ns)
        out = []
        w = World({"APP_ROOT": "/app"}, logger=1, decorators=1)
        try:
            w.install([{"id": "tp%d" % i, "path": "prog.py", "line": t["line"], "args": dict(t["args"], fire_count="-1", fire_period="0"), "watches": t["watches"],
                        "via": t.get("via", "service"), "metrics": t.get("metrics", [])} for i, t in enumerate(case["tps"])])
            bottom.run_in_thread(WIT_DRIVER, {"__name__": "driver", "target": ns["target"], "last": ns["last"], "args": [get(n) for n in case["args"]],
                                              "out": out, "record": record, "start": w.handler.start if agent else lambda: None,
                                              "stop": w.handler.shutdown if agent else lambda: None})
            acted = len(w.rec.items)
        finally:
            w.close()
        logs.append(log)
        outs.append([id(o) in {id(v): 1 for v in vals} and [i for i, v in enumerate(vals) if v is o][0] for o in out])
    selves = ["%s%d" % (s["base"], i) for i, s in enumerate(case["values"]) if i in (case["args"][0] % len(vals), case["args"][3] % len(vals))]

    def counts(x):
        return not (x[1] in WIT_SELF and x[0] in selves or metrics and x[1] in WIT_NUMBER)
    extra = [x for x in logs[1] if counts(x)]
    base = [x for x in logs[0] if counts(x)]
    check(extra == base, "the agent uses the values of the application: %s, without the agent %s", sorted(set(extra) - set(base))[:5] or extra[:5], base[:5],
          sig="used")
    check(outs[0] == outs[1], "the function gives %s, without the agent %s", outs[1], outs[0], sig="differs")
    return {"nontrivial": acted > 1, "labels": sorted({s["base"] for s in case["values"]}) + (["acted"] if acted else []), "observed": {"acted": acted}}


def witness_cases():
    from vlib import witness
    value = st.fixed_dictionaries({"base": st.sampled_from(sorted(witness.BASES))}, optional={
        "kids": st.lists(st.integers(0, 5), max_size=3), "meta": st.booleans(), "slots": st.booleans(), "props": st.booleans(), "as_key": st.booleans(),
        "bad": st.sampled_from(["E", "B", "A"]), "wrap": st.sampled_from(["list", "tuple", "dict", "set", "key", "holder"])})
    metric = st.fixed_dictionaries({"name": st.just("m"), "type": st.sampled_from(["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]), "labels": st.lists(
        st.fixed_dictionaries({"key": st.just("l"), "expr": st.sampled_from(WIT_EXPRS)}), max_size=1)}, optional={"expr": st.sampled_from(WIT_EXPRS)})
    tp = st.fixed_dictionaries({
        "line": st.sampled_from([2, 3, 4, 6, 8, 11, 12, 13, 15, 16, 18, 19, 21, 22, 23, 26, 27, 29, 30, 32]),
        "args": tps.args(st, limits=False, log=False).flatmap(lambda a: st.fixed_dictionaries({}, optional={
            "log_msg": st.sampled_from(["{v0} {v1}", "{self}", "{e} {nope}", "{x}"]), "condition": st.sampled_from(["v0", "v1", "self", "True", "v0 is not None"]),
            "method_name": st.sampled_from(["target", "inner", "boom", "gen", "use", "last", "<lambda>", "__init__"])}).map(lambda b: {**a, **b})),
        "watches": st.lists(st.sampled_from(WIT_EXPRS), max_size=3)}, optional={"via": st.sampled_from(["service", "custom"]),
                                                                                  "metrics": st.lists(metric, min_size=1, max_size=1)})
    return st.fixed_dictionaries({"values": st.lists(value, min_size=1, max_size=6), "args": st.lists(st.integers(0, 5), min_size=4, max_size=4),
                                  "error": st.integers(0, 5), "tps": st.lists(tp, min_size=1, max_size=4)})


# -- around: what the application can see of its process and thread, with the plugins that are built in -------------------------
AROUND_SRC = '''def target(v0):
    a = v0
    note("a")
    b = [a]
    note("b")
    try:
        inner(b)
    except ValueError:
        note("handled")
        c = 1
        note("still handled")
    finally:
        note("finally")
    for d in gen(b):
        note(d)
    return b
def inner(x):
    note("inner")
    y = x[0]
    raise ValueError(y)
def gen(x):
    note("gen")
    yield "one"
    z = x
    yield "two"
async def co(v0):
    a = v0
    note("co")
    await other(a)
    b = a
    note("co end")
    return b
async def other(x):
    import asyncio
    await asyncio.sleep(0)
    y = x
    note("other")
'''
AROUND_DRIVER = '''
def go():
    try:
        start()
        try:
            target(value)
            if use_asyncio:
                import asyncio
                asyncio.run(co(value))
        finally:
            stop()
        end("end")
    except BaseException as e:
        failed(e)
    finally:
        done.set()
'''


def surroundings():
    import decimal
    import faulthandler
    import locale
    import os
    import socket
    return {
        "dummy threads": sorted(t.name for t in threading.enumerate() if isinstance(t, threading._DummyThread)), "threads": threading.active_count(),
        "random": hash(random.getstate()), "decimal": str(decimal.getcontext()), "exception": sys.exc_info()[0], "recursion": sys.getrecursionlimit(),
        "switch": sys.getswitchinterval(), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "cwd": os.getcwd(), "env": dict(os.environ),
        "warnings": len(warnings.filters), "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions),
        "hooks": (sys.getprofile(), sys.excepthook, sys.unraisablehook, threading.excepthook, sys.displayhook, sys.breakpointhook, [getattr(h, "__qualname__", h) for h in sys.get_asyncgen_hooks()],
                  sys.get_coroutine_origin_tracking_depth()), "digits": sys.get_int_max_str_digits(), "locale": locale.setlocale(locale.LC_ALL),
        "timeout": socket.getdefaulttimeout(), "stack": threading.stack_size(), "faulthandler": faulthandler.is_enabled(), "fds": len(os.listdir("/proc/self/fd")),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "path": list(sys.path), "argv": list(sys.argv), "builtins": len(dir(__builtins__)),
        "tracemalloc": __import__("tracemalloc").is_tracing(), "thread name": getattr(threading._active.get(threading.get_ident()), "name", None)}


def around_thread(kind, g):
    import _thread
    exec(bottom.compile_driver(AROUND_DRIVER), g)
    g["done"] = done = threading.Event()
    if kind == "raw":
        _thread.start_new_thread(g["go"], ())
    elif kind == "executor":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(1, "host") as ex:
            ex.submit(g["go"]).result()
    else:
        t = threading.Thread(target=g["go"], name="host")
        t.start()
        t.join()
    if not done.wait(60):
        raise HarnessError("the thread does not end")


def setup_around():
    from opentelemetry import trace
    from opentelemetry.sdk.trace import TracerProvider
    trace.set_tracer_provider(TracerProvider())
    # the SDK adds a filter for its own warnings here
    trace.get_tracer("app")


def run_around(case):
    import contextvars
    from deep.api.plugin import load_plugins
    logs = []
    acted = 0
    w = World({"APP_ROOT": "/app"})
    # the plugins are loaded once, as they are when the agent starts
    plugins = load_plugins(w.config)
    try:
        for agent in (False, True):
            log = []

            def note(what):
                if what == "two" and case["draw"]:
                    random.random()
                log.append((what, surroundings()))

            def end(what):
                note(what)
                log.append(("context", [v.name for v in contextvars.copy_context()]))
            ns = {"__name__": "app", "note": note}
            exec(compile(AROUND_SRC, "/app/x/prog.py", "exec"), ns)
            if agent:
                w.config.plugins = list(w.plugins) + plugins
                w.install([{"id": "tp%d" % i, "path": "prog.py", "line": t["line"], "args": dict(t["args"], fire_count="-1", fire_period="0"), "watches": t["watches"],
                            "metrics": t.get("metrics", [])} for i, t in enumerate(case["tps"])])
            for t in list(threading.enumerate()):
                if isinstance(t, threading._DummyThread):
                    threading._active.pop(t.ident, None)
            # a raw thread traces itself only if the application asks for it
            errors = []
            random.seed(9)
            with DeepLog(case.get("log")):
                around_thread(case["thread"], {
                    "__name__": "driver", "target": ns["target"], "co": ns["co"], "value": 10 ** 5000 if case["value"] == "big" else case["value"], "use_asyncio": case["asyncio"] and case["thread"] != "raw",
                    "start": (lambda: sys.settrace(w.handler.trace_call)) if agent else lambda: None, "stop": (lambda: sys.settrace(None)) if agent else lambda: None,
                    "end": end, "failed": errors.append})
            if errors:
                raise HarnessError("the program failed: %r" % errors[0]) from errors[0]
            logs.append(log)
        acted = len(w.rec.items)
        check([n for n, _ in logs[0]] == [n for n, _ in logs[1]], "the program does %s, without the agent %s", logs[1], logs[0], sig="around")
        for (what, a), (_, b) in zip(*logs):
            if what == "context":
                check(a == b, "the context variables of the thread are %s, without the agent %s", b, a, sig="around")
                continue
            # in a thread that Python does not know, any use of the logging module makes one known
            skip = ("dummy threads", "threads", "thread name") if case["thread"] == "raw" and (case.get("log") or any(
                "log_msg" in t["args"] for t in case["tps"])) else ()
            diff = [k for k in a if a[k] != b[k] and k not in skip]
            check(not diff, "at %s the application sees %s of %s, without the agent %s", what, [b[k] for k in diff[:2]], diff, [a[k] for k in diff[:2]], sig="around")
        return {"nontrivial": acted > 1, "labels": [case["thread"]] + (["acted"] if acted else []), "observed": {"acted": acted}}
    finally:
        w.close()


def around_cases():
    lines = [n + 1 for n, ln in enumerate(AROUND_SRC.splitlines()) if ln.startswith("    ")]
    tp = st.fixed_dictionaries({
        "line": st.sampled_from(lines),
        "args": tps.args(st, limits=False).flatmap(lambda a: st.fixed_dictionaries({}, optional={
            "method_name": st.sampled_from(["target", "inner", "gen", "co", "other"])}).map(lambda b: {**a, **b})),
        "watches": st.lists(st.sampled_from(["a", "b", "v0", "x", "nope", "1/0", "len(b)", "y"]), max_size=2)}, optional={
            "metrics": st.lists(st.fixed_dictionaries({"name": st.sampled_from(["am1", "am2"]), "type": st.sampled_from(["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]),
                                                       "labels": st.just([])}, optional={"expr": st.sampled_from(["a", "1", "nope"])}), min_size=1, max_size=1)})
    return st.fixed_dictionaries({"thread": st.sampled_from(["raw", "thread", "executor"]), "asyncio": st.booleans(), "draw": st.booleans(),
                                  "value": st.sampled_from([3, "text", "big", 1.5]), "tps": st.lists(tp, min_size=1, max_size=4)},
                                 optional={"log": st.sampled_from(["format", "raise"])})


# -- known: what CPython's frame.f_locals does to the host (before Python 3.13) -------------------------------------------------
KNOWN_SRC = '''def deleted(log):
    class D:
        def __del__(self):
            log.append('deleted')
    d = D()
    inside()
    d = None
    log.append('after')
def locals_kept(log):
    d = locals()
    inside()
    x = 5
    inside()
    log.append('x' in d)
def inside():
    y = 1
    return y
def warned(log):
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        inside()
    log.append(len(w))
'''
KNOWN_SIGS = {"warned": "syntax-warning"}


def run_known(case):
    outs = []
    for agent in (False, True):
        ns = {"__name__": "app"}
        exec(compile(KNOWN_SRC, "/app/x/prog.py", "exec"), ns)
        log = []
        w = World({"APP_ROOT": "/app"})
        try:
            w.install([{"id": "tp", "path": "prog.py", "line": 17, "args": {"fire_count": "-1", "fire_period": "0", "frame_type": "all_frame"}, "watches": case.get("watches", [])}])
            bottom.run_in_thread(bottom.compile_driver("start and start()\nfn(log)\nstop and stop()\n"), {
                "fn": ns[case["fn"]], "log": log, "start": agent and w.handler.start, "stop": agent and w.handler.shutdown})
            if agent and not w.rec.of("snap"):
                raise HarnessError("the tracepoint did not act")
        finally:
            w.close()
        outs.append(log)
    check(outs[0] == outs[1], "%s: without the agent %s, with it %s", case["fn"], outs[0], outs[1], sig=KNOWN_SIGS.get(case["fn"], "f_locals-" + case["fn"]))
    return {"nontrivial": True}


PARTS = [
    Part("programs", run_programs, program_cases, quick=1600, thorough=30000, shards=6, thorough_shards=8,
         rule="the agent did more than two actions in the program"),
    Part("frames", run_frames, frame_cases, quick=2400, thorough=40000, shards=3, thorough_shards=8, rule="an unusual frame in which the agent acted"),
    Part("headroom", run_headroom, exhaustive_cases=headroom_cases, shards=2, rule="less than 150 frames are left"),
    Part("lifetimes", run_lifetimes, lifetime_cases, quick=500, thorough=8000, shards=2, thorough_shards=4, rule="the agent acted"),
    Part("witness", run_witness, witness_cases, quick=600, thorough=12000, shards=2, thorough_shards=4, rule="the agent acted more than once"),
    Part("around", run_around, around_cases, quick=240, thorough=4000, shards=2, thorough_shards=4, setup=setup_around, rule="the agent acted more than once"),
    Part("known", run_known, cases=[{"fn": "deleted"}, {"fn": "locals_kept"}, {"fn": "warned", "watches": ["y is 1"]}], rule="reproductions of listed findings"),
    Part("process", run_process, process_cases, quick=36, thorough=400, shards=4, thorough_shards=8, case_timeout=200,
         rule="the agent acted in the process"),
]
