"""C06 Collection is total and per-tracepoint independent."""
import collections

from hypothesis import strategies as st

from vlib import boot, bottom, crossing, snaplab, snapref, values
from vlib.core import InjectedBaseFault, InjectedFault, Part, check
from vlib.world import Tracer, World

META = {"assumptions": [
    "objects do not change by being looked at (mocks do: only that they are survived is asserted)",
    "any text is accepted as the placeholder of a value whose text cannot be read",
    "a value whose own __str__ does not return is out of reach",
]}


# -- hostile: any value, alone and in structures ------------------------------------------------------------------------
def run_hostile(case):
    stats = snaplab.run(case)
    return {"nontrivial": stats["entries"] > 3, "labels": [k for k, v in stats.items() if v],
            "observed": stats}


LIMITS = {"MAX_VAR_DEPTH": st.sampled_from(["5", "2", "3", "x", ""]), "MAX_COLLECTION_SIZE": st.sampled_from(["10", "1", "x"]),
          "MAX_STRING_LENGTH": st.sampled_from(["1024", "5", "x"]), "MAX_VARIABLES": st.sampled_from(["1000", "10", "x"]),
          "MAX_TP_PROCESS_TIME": st.sampled_from(["100", "x", "1000"])}


def hostile_cases():
    return snaplab.cases(st, values.graph(st, 10, min_nodes=2), limits=LIMITS, ntps=2, hits=2)


def each_leaf(tier):
    """Every leaf and every hostile operation, in every position and style."""
    items = [["leaf", n] for n in sorted(values.LEAVES)] + [["hostile", op, e] for op in values.HOSTILE for e in sorted(values.EXC)]
    for i, it in enumerate(items):
        yield {"graph": [["leaf", "int"], it, ["list", [1, 0], 0], ["dict", [1, 0], 0], ["obj", [1, 0], 0], ["tuple", [1, 0], 0],
                         ["exc", [1, 0], 0], ["leaf", "str"]],
               "names": [0, 1, 2, 3, 5, 7, 8, 6][:8], "refs": [0, 1, 2, 3, 4, 5, 6, 7], "style": snaplab.STYLES[i % len(snaplab.STYLES)],
               "hits": 1, "tps": [{"args": {}, "n": 1, "m": 0, "watches": ["{n}", "[{n}, {m}]", "{n}.x", "len({n})"], "log": "{{{n}}} {{{m}}}"}]}


# -- multi: several tracepoints at one event ------------------------------------------------------------------------------
def multi_cases():
    limits = {"MAX_VAR_DEPTH": st.sampled_from(["5", "2", "3", "4"]), "MAX_COLLECTION_SIZE": st.sampled_from(["10", "1", "3"]),
              "MAX_STRING_LENGTH": st.sampled_from(["1024", "2"]), "MAX_VARIABLES": st.sampled_from(["1000", "3", "8", "20"])}
    g = st.one_of(values.graph(st, 8, hostile_ops=False, leaves=values.SAFE_LEAVES, min_nodes=2), values.graph(st, 8, min_nodes=2))
    return snaplab.cases(st, g, limits=limits, ntps=5, min_tps=2, hits=2)


def run_multi(case):
    stats = snaplab.run(case)
    return {"nontrivial": len({str(sorted(t["args"].items())) for t in case["tps"]}) > 1, "labels": ["tps:%d" % len(case["tps"])],
            "observed": stats}


# -- shared: data that is shared so often that its text has no end -----------------------------------------------------
def dag(desc):
    """Layers of containers; every layer refers several times to the one below."""
    out = values.Plain()
    for kind, n in desc:
        if kind == "list":
            out = [out] * n
        elif kind == "tuple":
            out = (out,) * n
        elif kind == "dict":
            out = {"k%d" % i: out for i in range(n)}
        elif kind == "obj":
            p = values.Plain()
            for i in range(n):
                setattr(p, "a%d" % i, out)
            out = p
    return out


def run_dag(case):
    build = values.build
    values.build = lambda desc: [dag(case["layers"]), "intact"]
    try:
        stats = snaplab.run({"graph": [], "names": [0, 1], "refs": [0, 1], "style": case["style"], "hits": 1, "tps": case["tps"]})
    finally:
        values.build = build
    return {"nontrivial": True, "labels": [], "observed": stats}


def dag_cases():
    layer = st.tuples(st.sampled_from(["list", "dict", "tuple", "obj", "list"]), st.integers(2, 4)).map(list)
    tp = st.fixed_dictionaries({"args": snaplab.args(st, {"MAX_VAR_DEPTH": st.sampled_from(["5", "40"])}), "n": st.integers(0, 1),
                                "m": st.integers(0, 1), "watches": st.lists(st.sampled_from(["{n}", "[{n}, {n}]", "len({n})", "V"]), max_size=2)})
    return st.fixed_dictionaries({"layers": st.lists(layer, min_size=40, max_size=60), "style": st.sampled_from(snaplab.STYLES),
                                  "tps": st.lists(tp, min_size=1, max_size=2)})


# -- slow: data that takes long to read ---------------------------------------------------------------------------------
class Slow(values.Plain):
    """Reading the text of this takes time (of the clock of the harness)."""

    def __init__(self, ms):
        self.ms = ms

    def __str__(self):
        if boot.CLOCK.advance is not None:
            boot.CLOCK.advance(self.ms * 1000000)
        return "slow"


def run_slow(case):
    build = values.build
    objs = [Slow(ms) for ms in case["slow"]] + [[1, 2], "intact", {"k": 3}]
    values.build = lambda desc: objs
    try:
        stats = snaplab.run({"graph": [], "names": case["names"], "refs": case["refs"], "style": case["style"], "hits": case["hits"],
                             "tps": case["tps"]})
    finally:
        values.build = build
    limits = [int(t["args"]["MAX_TP_PROCESS_TIME"]) for t in case["tps"]]
    return {"nontrivial": sum(case["slow"]) > min(limits) and len(limits) > 1, "labels": ["tps:%d" % len(limits)], "observed": stats}


def slow_cases():
    """The limit of the processing time is that of each tracepoint; it is looked at before each frame."""
    def fix(t):
        # the frames after the first are only complete if the own data is read in time
        a = t["args"]
        if a["frame_type"] == "all_frame":
            a = {**a, "MAX_TP_PROCESS_TIME": "1000000", "MAX_VARIABLES": "100000"}
        return {**t, "args": a}
    tp = st.fixed_dictionaries({
        "args": st.fixed_dictionaries({"frame_type": st.sampled_from(["single_frame", "single_frame", "all_frame", "no_frame"]),
                                       "MAX_TP_PROCESS_TIME": st.sampled_from(["100", "0", "1", "1000"])}),
        "n": st.integers(0, 6), "m": st.integers(0, 6),
        "watches": st.lists(st.sampled_from(["{n}", "[{n}, {m}]", "str({n})", "V"]), max_size=2)},
        optional={"via": st.sampled_from(["service", "custom"]), "log": st.sampled_from(snaplab.LOGS),
                  "cond": st.sampled_from(["str(V[0]) != ''", "True"])}).map(fix)
    return st.fixed_dictionaries({
        "slow": st.lists(st.sampled_from([0, 1, 99, 101, 500, 5000]), min_size=1, max_size=3),
        "names": st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True),
        "refs": st.lists(st.integers(0, 6), min_size=7, max_size=7), "style": st.sampled_from(snaplab.STYLES),
        "hits": st.integers(1, 2), "tps": st.lists(tp, min_size=1, max_size=4)})


# -- restless: data that changes while it is read ------------------------------------------------------------------------
class Restless:
    """Reading the text of this changes something."""

    def __init__(self, do):
        self.do = do
        self.n = 0

    def __str__(self):
        self.n += 1
        if self.n < 20:
            self.do(self.n)
        return "restless"
    __repr__ = __str__


def restless(kind, ns):
    """A container whose parts change it when they are read."""
    if kind[0] in ("grow", "shrink", "swap"):
        how, what = kind
        box = {"list": [], "dict": {}, "keys": {}, "set": set(), "deque": collections.deque(), "obj": values.Plain(), "globals": ns, "exc": ValueError(),
               "odict": collections.OrderedDict()}[what]
        inner = vars(box) if what == "obj" else box

        def do(n):
            if what == "exc":
                box.args = box.args + (n,) if how == "grow" else ()
            elif isinstance(inner, dict):
                mine = [k for k in dict.keys(inner) if type(k) is Restless or type(k) is str and k.startswith("r")]
                if how != "grow" and mine:
                    dict.pop(inner, mine[-1])
                if how != "shrink":
                    inner["rn%d" % n] = n
            elif isinstance(inner, set):
                inner.add(n) if how == "grow" else inner.clear()
            elif how == "grow":
                inner.append(n)
            elif how == "shrink":
                inner.clear()
            elif inner:
                inner.rotate(1) if what == "deque" else inner.insert(0, inner.pop())
        for i in range(3):
            r = Restless(do)
            if what == "exc":
                box.args = box.args + (r,)
            elif what == "keys":
                box[r] = i
            elif isinstance(inner, dict):
                inner["r%d" % i] = r
            elif isinstance(inner, set):
                inner.add(r)
            else:
                inner.append(r)
        return box if what != "globals" else [box["r0"]]
    raise AssertionError(kind)


def run_restless(case):
    styles = case["style"]
    lb = snaplab.lab.Lab(["v0", "v1", "v2"], [], styles)
    lb.values[:] = [restless(case["a"], lb.g), restless(case["b"], lb.g), "intact"]
    specs = [{"id": "tp%d" % i, "path": "prog.py", "line": lb.line, "via": t["via"], "watches": t["watches"],
              "args": {"fire_count": "-1", "fire_period": "0", "frame_type": t["ft"], "MAX_VARIABLES": "100000", **({"log_msg": t["log"]} if t["log"] else {})}} for i, t in enumerate(case["tps"])]
    w = World({"APP_ROOT": "/app"})
    try:
        w.install(specs)
        lb.run(w)
        snaps = [i["snapshot"] for i in w.rec.of("snap")]
        by = collections.Counter(s.tracepoint.id for s in snaps)
        check(by == collections.Counter(s["rid"] for s in specs), "snapshots of %s, one of each of %s is due", dict(by), [s["rid"] for s in specs], sig="due")
        from deep.push import convert_snapshot
        for s, spec in [(x, y) for x in snaps for y in specs if x.tracepoint.id == y["rid"]]:
            snapref.closed(s)
            mine = {v.name: s.var_lookup[v.vid] for v in s.frames[0].variables}
            if spec["args"]["frame_type"] != "no_frame":
                check({"v0", "v1", "v2"} <= set(mine), "the locals are %s", sorted(mine), sig="locals")
                check(mine["v2"].value == "intact", "v2 is %r", mine["v2"].value, sig="locals")
                # what was there before and is there after the reading
                for name, kind in (("v0", case["a"]), ("v1", case["b"])):
                    want = {"list": ["0", "1", "2"], "dict": ["r0", "r1", "r2"], "keys": ["restless"] * 3, "obj": ["r0", "r1", "r2"], "exc": ["0", "1", "2"]}
                    if kind[0] == "grow" and kind[1] in want:
                        left = collections.Counter(want[kind[1]])
                        left.subtract(c.name for c in mine[name].children)
                        check(max(left.values()) <= 0, "%s (%s) has the children %s", name, kind, [c.name for c in mine[name].children], sig="children")
            got = [x for x in s.watches if x.source == "WATCH"]
            check([x.expression for x in got] == spec["watches"], "the watches are %s", [x.expression for x in got], sig="watches")
            for x in got:
                if x.expression == "v2":
                    check(x.error is None and s.var_lookup[x.result.vid].value == "intact", "watch v2: %s", x.error, sig="watches")
            p = convert_snapshot(s)
            check(p is not None, "a snapshot cannot be converted for delivery", sig="not-delivered")
            check(len(p.var_lookup) == len(s.var_lookup) and len(p.watches) == len(s.watches), "the message is not complete", sig="message")
        return {"nontrivial": True, "labels": [case["a"][0]], "observed": {"snapshots": len(snaps)}}
    finally:
        w.close()


def restless_cases():
    kind = st.tuples(st.sampled_from(["grow", "grow", "shrink", "swap"]), st.sampled_from(["list", "dict", "keys", "set", "deque", "obj", "globals", "exc", "odict"])).map(list)
    watch = st.sampled_from(["v0", "v2", "str(v0)", "[v1, v2]", "v1", "V.append(1)", "locals().update(q=1)", "V[:1]", "dict(v0)", "list(v1)"])
    tp = st.fixed_dictionaries({"via": st.sampled_from(["service", "custom"]), "ft": st.sampled_from(["single_frame", "all_frame", "single_frame", "no_frame"]),
                                "watches": st.lists(watch, max_size=3), "log": st.sampled_from([None, None, "m {v0} {v2}", "m {str(v1)}"])})
    return st.fixed_dictionaries({"a": kind, "b": kind, "style": st.sampled_from(snaplab.STYLES), "tps": st.lists(tp, min_size=1, max_size=3)})


# -- names: text that is no valid unicode, wherever a name or text comes from ------------------------------------------------
ODD = ["", "\udcff", "a\ud800", "é", "\x00", "\U0001f600", "a b", "\n", "x" * 3000]


def run_names(case):
    o = [ODD[i] for i in case["odd"]]
    cls = type("Meta", (type,), {"__name__": property(lambda c: "M" + o[0])})("K", (), {})
    self = cls()
    self.__dict__.update({"attr" + o[1]: 1, "_K__p" + o[1]: 2})

    def fail():
        raise ValueError("e" + o[3])
    src = "def target(self, V):\n    v0 = V\n    mark = 1\n    return late()\n"
    ns = {"__name__": "app" + o[2], "late": lambda: o[3], "fail": fail}
    exec(compile(src, "/app/" + o[4].replace("\x00", "") + "/prog.py", "exec"), ns)
    ns["target"].__code__ = ns["target"].__code__.replace(co_name="target" + o[5], co_qualname="Q." + o[5])
    watches = ["'%s'" % o[6], "v0", "mark" + o[6], "{'k%s': 1}" % o[6], "fail()"]
    specs = [{"id": "tp0", "path": "prog.py", "line": 4, "via": "custom", "watches": watches, "args": {"log_msg": "m {mark} %s {v0}" % o[7], "note" + o[8]: o[8]}},
             {"id": "tp1", "path": "prog.py", "line": 4, "via": case["via"], "watches": ["v0"], "args": {"stage": "line_capture", "frame_type": case["ft"]}}]
    for s in specs:
        s["args"].update(fire_count="-1", fire_period="0")
    w = World({"APP_ROOT": "/app"}, decorators=1)
    failed = []
    try:
        w.install(specs)
        tr = Tracer(w, None, None)
        bottom.run_in_thread(NAMES_DRIVER, {"__name__": "driver", "target": lambda: ns["target"](self, [1, {"k" + o[1]: o[3]}]), "start": tr.start, "stop": tr.stop, "failed": failed.append})
        for e in tr.errors + failed:
            raise e
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        snaps = [i["snapshot"] for i in w.rec.of("snap")]
        by = collections.Counter(s.tracepoint.id for s in snaps)
        check(by == collections.Counter(s["rid"] for s in specs), "snapshots of %s, one of each of %s is due", dict(by), [s["rid"] for s in specs], sig="due")
        check(len(w.rec.of("log")) == 1, "%d log messages, one is due", len(w.rec.of("log")), sig="due")
        from deep.push import convert_snapshot
        for s in snaps:
            snapref.closed(s)
            if s.tracepoint.id == specs[0]["rid"] or case["ft"] != "no_frame":
                check({"self", "V", "v0", "mark"} == {v.name for v in s.frames[0].variables}, "the locals are %s", [v.name for v in s.frames[0].variables], sig="locals")
            p = convert_snapshot(s)
            check(p is not None, "a snapshot cannot be converted for delivery", sig="not-delivered")
            check(len(p.var_lookup) == len(s.var_lookup) and len(p.watches) == len(s.watches) and len(p.frames) == len(s.frames), "the message is not complete", sig="message")
            p.SerializeToString()
        return {"nontrivial": "\udcff" in o or "a\ud800" in o, "labels": [], "observed": {"snapshots": len(snaps)}}
    finally:
        w.close()


NAMES_DRIVER = bottom.compile_driver("start()\ntry:\n    target()\nexcept BaseException as e:\n    failed(e)\nfinally:\n    stop()\n")


def names_cases():
    return st.fixed_dictionaries({"odd": st.lists(st.one_of(st.sampled_from([0, 1, 1, 2]), st.integers(0, len(ODD) - 1)), min_size=9, max_size=9),
                                  "via": st.sampled_from(["service", "custom"]), "ft": st.sampled_from(["single_frame", "all_frame", "no_frame"])})


# -- ends: return values and exceptions -----------------------------------------------------------------------------------
END_SRC = """
def target(V):
    mine = [1, 2]
    if kind == 'return':
        return V[0]
    if kind == 'raise':
        raise V[0]
    if kind == 'yield':
        return list(gen(V))
    if kind == 'class':
        class Body(metaclass=Meta):
            attr = V[0]
            last = 2
    return 5
def gen(V):
    yield V[0]
"""


class BadNs(dict):
    """A class body namespace that cannot be read as a whole."""
    mode = None

    def keys(self):
        if self.mode == "keys":
            raise InjectedFault("keys")
        return dict.keys(self)

    def items(self):
        raise InjectedBaseFault("items")

    def __iter__(self):
        if self.mode == "iter":
            raise InjectedBaseFault("iter")
        return dict.__iter__(self)

    def __len__(self):
        raise InjectedFault("len")

    def __getitem__(self, k):
        if self.mode == "getitem" and k == "attr":
            raise InjectedBaseFault("getitem")
        return dict.__getitem__(self, k)


class ListNs:
    """A namespace that is no dict."""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v


class AllNs(dict):
    """A namespace with a value for every name."""

    def __missing__(self, k):
        if k.startswith("__") or k in ("V", "kind"):
            raise KeyError(k)
        return "made up %s" % k


class Prep(type):
    ns = None

    @classmethod
    def __prepare__(mcs, name, bases):
        return mcs.ns()

    def __new__(mcs, name, bases, ns):
        return type.__new__(mcs, name, bases, {})


def namespace(mode):
    if mode == "list":
        return ListNs
    if mode == "all":
        return AllNs
    return type("Ns", (BadNs,), {"mode": mode})


RAISES = [["leaf", n] for n in ("exc", "excargs", "excctx", "excempty", "excbad", "kbd", "sysexit", "keyerror", "excgroup", "unicodeerr",
                                "nestedexc", "excls")]
DRIVER = bottom.compile_driver("try:\n    start()\n    target(V)\nexcept BaseException as e:\n    out.append(e)\nfinally:\n    stop()\n")


def run_ends(case):
    objs = values.build(case["graph"])
    value = objs[-1]
    if case["kind"] == "raise":
        value = values.build([case["raise"]])[0]
        if isinstance(value, BaseException) and case["graph"] and case["raise"][1] in ("exc", "excargs", "kbd"):
            value.args = tuple(objs[:3])
    ns = {"__name__": "app", "kind": case["kind"], "Meta": type("Meta", (Prep,), {"ns": staticmethod(namespace(case["ns"]))})}
    exec(compile(END_SRC, "/app/x/prog.py", "exec"), ns)
    a = {"fire_count": "-1", "fire_period": "0", "MAX_VARIABLES": "10000"}
    if case["kind"] == "class":
        specs = [{"id": "tp0", "path": "prog.py", "line": 13, "args": dict(a, log_msg="x {attr} {mine} {nope}"),
                  "watches": ["attr", "V", "last", "nope"]}]
    else:
        specs = [{"id": "tp0", "path": "prog.py", "line": 1, "args": dict(a, method_name="target", stage="method_capture"),
                  "watches": ["V"]},
                 {"id": "tp1", "path": "prog.py", "line": 3, "args": dict(a, stage="line_capture"), "watches": []},
                 {"id": "tp2", "path": "prog.py", "line": 1, "args": dict(a, method_name="gen", stage="method_capture"), "watches": []}]
    for s, ft in zip(specs, case["frame_types"]):
        s["args"]["frame_type"] = ft
    w = World({"APP_ROOT": "/app"})
    refs, snaps, dumps = {}, [], []
    try:
        w.install(specs)

        def before(frame, event, arg):
            if frame.f_code.co_filename != "/app/x/prog.py":
                return None
            name = frame.f_code.co_name
            if case["kind"] == "class":
                if event == "line" and frame.f_lineno == 13:
                    refs["tp0"] = frame
                return None
            due = []
            if event == "call" and name == "target":
                due.append(specs[0])
            if event == "line" and frame.f_lineno == 3 and name == "target":
                due.append(specs[1])
            if event == "call" and name == "gen" and "tp2" not in refs:
                due.append(specs[2])
            for r in snapref.Ref.many(frame, due, {"APP_ROOT": "/app"}, now=w.tick()):
                refs[r.spec["rid"]] = r
            if event == "return":
                for k, fn in (("tp0", "target"), ("tp2", "gen")):
                    if fn == name and k in refs and not refs[k].captures and not raised:
                        refs[k].capture("return", arg)
            if event == "exception" and name == "target":
                raised.append(arg)
            return None

        def after(frame, event, arg, tok, items):
            for i in items:
                # a generator that continues may count as an entry
                if i["kind"] == "snap" and i["snapshot"].ts_nanos in [getattr(r, "now", 0) for r in refs.values()] + [world0]:
                    snaps.append(i["snapshot"])
                    dumps.append(snapref.dump(i["snapshot"]))
        raised, world0 = [], w.now
        tr = Tracer(w, before, after)
        out = []
        bottom.run_in_thread(DRIVER, {"__name__": "driver", "target": ns["target"], "V": [value], "start": tr.start, "stop": tr.stop, "out": out})
        for e in tr.errors:
            raise e
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        by = collections.Counter(s.tracepoint.id for s in snaps)
        want = collections.Counter(refs.keys())
        check(by == want, "snapshots of %s, due are %s", dict(by), dict(want), sig="due")
        from deep.push import convert_snapshot
        for s, d in zip(snaps, dumps):
            if case["kind"] == "class":
                snapref.closed(s)
                check([x.expression for x in s.watches if x.source == "WATCH"] == specs[0]["watches"], "the watches are %s",
                      [x.expression for x in s.watches], sig="watches")
                check([f.method_name for f in s.frames][:2] == ["Body", "target"], "stack %s", [f.method_name for f in s.frames][:3], sig="stack")
                if case["frame_types"][0] == "all_frame":
                    check({"mine", "V"} <= {v.name for v in s.frames[1].variables}, "the caller has the variables %s",
                          [v.name for v in s.frames[1].variables], sig="locals")
            else:
                ref = refs[s.tracepoint.id]
                exact = case["kind"] != "raise" and s.tracepoint.id != "tp1"
                snapref.compare(ref, s, captures=exact, meta=False)
                if case["kind"] == "raise" and s.tracepoint.id == "tp0" and raised:
                    check_exception(s, raised[0])
            check(snapref.dump(s) == d, "a snapshot changed after it was delivered", sig="changed-later")
            p = convert_snapshot(s)
            check(p is not None, "a snapshot cannot be converted for delivery", sig="not-delivered")
            check(len(p.var_lookup) == len(s.var_lookup) and len(p.watches) == len(s.watches), "the message is not complete", sig="message")
        return {"nontrivial": True, "labels": [case["kind"]], "observed": {"snapshots": len(snaps)}}
    finally:
        w.close()


def check_exception(s, triple):
    """The captured exception is in the snapshot: somewhere below the capture is an entry with its type."""
    cap = [x for x in s.watches if x.source == "CAPTURE" and x.result is not None]
    types = set()
    for x in cap:
        e = s.var_lookup[x.result.vid]
        types.add(e.type)
        types |= {s.var_lookup[c.vid].type for c in e.children}
    check(snapref.real_type_name(triple[1]) in types, "the exception is a %s, captured is %s", snapref.real_type_name(triple[1]), types,
          sig="exception")


def end_cases():
    return st.fixed_dictionaries({
        "graph": values.graph(st, 6, min_nodes=1), "kind": st.sampled_from(["return", "raise", "yield", "class"]),
        "raise": st.one_of(st.sampled_from(RAISES), st.sampled_from(RAISES)),
        "ns": st.sampled_from(["keys", "iter", "items", "getitem", "list", "all"]),
        "frame_types": st.lists(st.sampled_from(["single_frame", "all_frame", "no_frame"]), min_size=3, max_size=3)})


def each_end(tier):
    for leaf in sorted(values.LEAVES):
        yield {"graph": [["leaf", leaf]], "kind": "return", "raise": RAISES[0], "ns": "keys", "frame_types": ["single_frame"] * 3}
    for r in RAISES:
        yield {"graph": [["leaf", "int"], ["hostile", "all", "E"]], "kind": "raise", "raise": r, "ns": "keys", "frame_types": ["single_frame"] * 3}


PARTS = [
    Part("hostile", run_hostile, hostile_cases, quick=5000, thorough=60000, shards=4, thorough_shards=8, exhaustive_cases=each_leaf,
         rule="every leaf of the universe once, then generated structures of them; at least four variables compared"),
    Part("multi", run_multi, multi_cases, quick=3000, thorough=40000, shards=4, thorough_shards=8,
         rule="at least two tracepoints with different settings at one event"),
    Part("crossing", crossing.run, crossing.cases("snap", steps=9000), quick=250, thorough=5000, shards=2, thorough_shards=4,
         rule="the threads were switched inside the agent"),
    Part("dag", run_dag, dag_cases, quick=40, thorough=400, shards=1, thorough_shards=4, case_timeout=30,
         rule="40 or more layers of sharing"),
    Part("restless", run_restless, restless_cases, quick=800, thorough=10000, shards=2, thorough_shards=4,
         rule="containers that change while they are read"),
    Part("names", run_names, names_cases, quick=300, thorough=5000, shards=1, thorough_shards=4,
         rule="a file, function, class, attribute, watch, log message or argument with text that is no valid unicode"),
    Part("slow", run_slow, slow_cases, quick=800, thorough=10000, shards=2, thorough_shards=4,
         rule="several tracepoints, and the values take longer to read than the processing time of one"),
    Part("ends", run_ends, end_cases, quick=2000, thorough=20000, shards=2, thorough_shards=8, exhaustive_cases=each_end,
         rule="a value returned, raised or yielded, or a class body with a strange namespace"),
]
