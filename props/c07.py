"""C07 The variable table is closed and de-duplicated by object identity."""
from hypothesis import strategies as st

from vlib import bottom, crossing, lab, snaplab, snapref, values
from vlib.core import Part, check
from vlib.world import Tracer, World

META = {"assumptions": [
    "a capture (return value, exception) is read after the frame, so the identities of the frame's objects start again for it",
    "objects inside values whose contents are not specified (C02) are checked for closure only",
]}

LEAVES = ["int", "big", "str", "uni", "none", "true", "float", "bytes", "emptylist", "emptytuple", "emptydict", "withrepr", "cls", "gen",
          "function", "nt", "odict", "exc", "s1025"]
LIMITS = {"MAX_VARIABLES": st.one_of(st.integers(0, 12), st.integers(0, 60)).map(str), "MAX_VAR_DEPTH": st.sampled_from(["2", "3", "5", "7"]),
          "MAX_COLLECTION_SIZE": st.sampled_from(["1", "3", "10"])}
WATCHES = ["{n}", "{n}", "{m}", "[{n}, {m}]", "[{n}, {n}]", "({n}, [{n}])", "{{'k': {n}, 'm': {n}}}", "V", "self", "[V, [V]]", "locals()", "{n}[0]",
           "[[[[[{n}]]]]]", "list(range(300, 304))", "[[], []]", "[object()]", "object()", "[1.5 * 2]", "'x' * 40", "(lambda: {n})", "nope", "{n}.x",
           "[i for i in ({n}, {m})]", "dict({n}={n})", "{n} is {m}"]


def run_graph(case):
    stats = snaplab.run(case, convert=False)
    return {"nontrivial": stats["shared"] > 0, "labels": [k for k, v in stats.items() if v], "observed": stats}


def graph_cases():
    g = st.one_of(values.graph(st, 10, hostile_ops=False, leaves=LEAVES, min_nodes=2, refs=6),
                  # few nodes with many references: dense sharing and cycles
                  values.graph(st, 5, hostile_ops=False, leaves=["int", "str", "emptylist"], min_nodes=2, refs=8,
                               containers=["list", "dict", "obj", "tuple", "ns", "exc"]))
    lim = st.one_of(st.just({}), st.just(LIMITS))
    return lim.flatmap(lambda li: snaplab.cases(st, g, limits=li, ntps=3, watches=5, hits=2, nwatch=WATCHES))


# -- objects that only exist while they are looked at: their identities can be used again ---------------------------------------
class Leaf:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Fresh:
    """The contents are made when they are asked for, so nothing but the reader keeps them alive."""

    def __init__(self, tag, spec):
        object.__setattr__(self, "here", None)
        TAGS[id(self)] = (tag, spec)

    @property
    def __dict__(self):
        tag, spec = TAGS[id(self)]
        return {"c%d" % i: make("%s.%d" % (tag, i), s, made=True) for i, s in enumerate(spec)}

    __slots__ = ("here", "__weakref__")

    def __str__(self):
        return TAGS[id(self)][0]


class Cleaner:
    """Its text is made by dropping what some list holds, and making other things."""

    __slots__ = ("tag", "target")

    def __init__(self, tag, target):
        self.tag, self.target = tag, target

    def __str__(self):
        n = len(self.target)
        del self.target[:]
        OTHERS.extend(Leaf("leaf other %d" % i) for i in range(n))
        return self.tag


TAGS = {}
DROPPED, OTHERS = [], []


def make(tag, s, made=False):
    k = s[0]
    if k == "s":
        return "".join(["text ", tag])
    if k == "leaf":
        return Leaf("leaf " + tag)
    if k == "n":
        return 100000.5 + sum(ord(c) * 31 ** i for i, c in enumerate(tag)) % 1000003
    if k == "l":
        return [make("%s.%d" % (tag, i), x, made) for i, x in enumerate(s[1])]
    if k == "d":
        return {"k%d" % i: make("%s.%d" % (tag, i), x, made) for i, x in enumerate(s[1])}
    if k == "x":
        return Cleaner(tag, DROPPED)
    if k == "drop":
        # (the list is the same for all)
        DROPPED.extend(Leaf("leaf dropped %d" % i) for i in range(6 - len(DROPPED)))
        return DROPPED
    if k == "others":
        return OTHERS
    f = Fresh.__new__(Fresh)
    f.__init__(tag, s[1])
    return f


def verify(snap, var, tag, s, seen, path):
    k = s[0]
    check(var.vid in snap.var_lookup, "%s: the id %s is not in the table", path, var.vid, sig="closed")
    v = snap.var_lookup[var.vid]
    tag = {"drop": "dropped", "others": "others"}.get(k, tag)
    check(seen.setdefault(var.vid, tag) == tag, "%s: two objects (%s, %s) have the id %s", path, seen[var.vid], tag, var.vid, sig="shared-id")
    if k in ("drop", "others"):
        # what it holds depends on when it is read, but its contents are its own
        word = {"drop": "dropped", "others": "other"}[k]
        for c in v.children:
            check(c.vid in snap.var_lookup, "%s: the id %s is not in the table", path, c.vid, sig="closed")
            got = snap.var_lookup[c.vid].value
            check(got.startswith("leaf " + word), "%s.%s: the value is %r", path, c.name, got, sig="fresh-value")
            check(seen.setdefault(c.vid, got) == got, "%s: two objects (%s, %s) have the id %s", path, seen[c.vid], got, c.vid, sig="shared-id")
        return
    want = {"s": "text " + tag, "leaf": "leaf " + tag, "f": tag, "x": tag}.get(k)
    if k == "n":
        want = str(make(tag, s))
    if k in ("l", "d"):
        want = "Size: %d" % len(s[1])
    check(v.value == want, "%s: the value is %r, expected %r", path, v.value, want, sig="fresh-value")
    if k in ("l", "d", "f"):
        names = [c.name for c in v.children]
        expect = [{"l": "%d", "d": "k%d", "f": "c%d"}[k] % i for i in range(len(s[1]))]
        check(names == expect, "%s: the children are %s, expected %s", path, names, expect, sig="fresh-children")
        for i, c in enumerate(v.children):
            verify(snap, c, "%s.%d" % (tag, i), s[1][i], seen, "%s.%s" % (path, c.name))


def run_fresh(case):
    TAGS.clear()
    del DROPPED[:], OTHERS[:]
    names = ["v%d" % i for i in range(len(case["locals"]))]
    vals = [make("L%d" % i, s) for i, s in enumerate(case["locals"])]
    # Fresh objects of the case itself stay alive; those that they make do not, and their tags are kept by id: made anew each time
    watches = ["v%d" % (i % len(names)) for i in case["watches"]]
    lb = lab.Lab(names, vals, "function")
    limits = {"MAX_VAR_DEPTH": "20", "MAX_VARIABLES": "5000", "MAX_COLLECTION_SIZE": "50"}
    w = World({"APP_ROOT": "/app"})
    try:
        w.install([{"id": "tp%d" % i, "path": "prog.py", "line": lb.line, "args": {"fire_count": "-1", "fire_period": "0", "frame_type": ft, **limits}, "watches": watches}
                   for i, ft in enumerate(case["tps"])])
        lb.run(w)
        snaps = [i["snapshot"] for i in w.rec.of("snap")]
        check(len(snaps) == len(case["tps"]), "%d snapshots, %d are due", len(snaps), len(case["tps"]), sig="due")
        n = 0
        for snap in snaps:
            seen = {}
            mine = {v.name: v for v in snap.frames[0].variables}
            for i, nm in enumerate(names):
                if mine:
                    check(nm in mine, "the local %s is missing", nm, sig="fresh-value")
                    verify(snap, mine[nm], "L%d" % i, case["locals"][i], seen, nm)
            for x, r in zip(watches, snap.watches):
                check(r.error is None, "the watch %s: %s", x, r.error, sig="fresh-value")
                verify(snap, r.result, "L" + x[1:], case["locals"][int(x[1:])], seen, "watch " + x)
            n += len(snap.var_lookup)
        deep = sum(1 for s in case["locals"] if s[0] == "f" and any(c[0] in ("l", "d", "f") for c in s[1]))
        return {"nontrivial": deep > 0, "labels": ["several"] if deep > 1 else [], "observed": {"entries": n}}
    finally:
        w.close()


def fresh_cases():
    leaf = st.sampled_from([["s"], ["leaf"], ["n"], ["x"], ["drop"], ["others"]])

    def node(d):
        if d == 0:
            return leaf
        sub = st.lists(node(d - 1), max_size=3)
        return st.one_of(leaf, st.tuples(st.sampled_from(["l", "d", "f", "f", "f"]), sub).map(list))
    top = st.one_of(st.tuples(st.sampled_from(["f", "f", "f", "l", "d"]), st.lists(node(3), min_size=1, max_size=4)).map(list), st.sampled_from([["drop"], ["others"], ["x"]]))
    return st.fixed_dictionaries({"locals": st.lists(top, min_size=1, max_size=4), "watches": st.lists(st.integers(0, 3), max_size=3),
                                  "tps": st.lists(st.sampled_from(["single_frame", "single_frame", "all_frame", "no_frame"]), min_size=1, max_size=3)})


# -- captures: what the paused function held is gone when its result is captured, and the result is made in the same memory ---------------------
CAPTURE_SRC = """def target(box):
    mark = 1
    return late(box)
def late(box):
    mark = 2
    del box[:]
    return result()
"""
CAPTURE_FILE = "/app/x/capture.py"
CAPTURE_CODE = compile(CAPTURE_SRC, CAPTURE_FILE, "exec")
CAPTURE_DRIVER = bottom.compile_driver("""
start()
try:
    for i in range(hits):
        try:
            call()
        except Late:
            pass
except BaseException as e:
    failed(e)
finally:
    stop()
""")


class Late(Exception):
    def __str__(self):
        return "late"


def run_capture(case):
    early, late = case["early"], case["late"]

    def result():
        v = make("R", late)
        if case["how"] == "raise":
            raise Late(v)
        return v
    ns = {"__name__": "app", "result": result, "make": lambda i: make("W%d" % i, case["watches"][i])}
    exec(CAPTURE_CODE, ns)
    watches = ["make(%d)" % i for i in range(len(case["watches"]))]
    args = {"fire_count": "-1", "fire_period": "0", "MAX_VAR_DEPTH": "20", "MAX_VARIABLES": "5000", "MAX_COLLECTION_SIZE": "50"}
    place = {"line": {"stage": "line_capture", "line": 3}, "method": {"stage": "method_capture", "line": 1}}
    w = World({"APP_ROOT": "/app"})
    failed = []
    try:
        w.install([{"id": "tp%d" % i, "path": "capture.py", "line": place[s]["line"], "watches": watches,
                    "args": {**args, "stage": place[s]["stage"], **({"method_name": "target"} if s == "method" else {})}}
                   for i, s in enumerate(case["stages"])])
        tr = Tracer(w, None, None)
        bottom.run_in_thread(CAPTURE_DRIVER, {"__name__": "driver", "hits": case["hits"], "Late": Late, "start": tr.start, "stop": tr.stop, "failed": failed.append,
                                              "call": lambda: ns["target"]([make("E%d" % i, s) for i, s in enumerate(early)])})
        for e in tr.errors + failed:
            raise e
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        snaps = [i["snapshot"] for i in w.rec.of("snap")]
        check(len(snaps) == len(case["stages"]) * case["hits"], "%d snapshots, %d are due", len(snaps), len(case["stages"]) * case["hits"], sig="due")
        for snap in snaps:
            snapref.closed(snap)
            seen = {}
            box = {v.name: v for v in snap.frames[0].variables}["box"]
            kids = snap.var_lookup[box.vid].children
            check([c.name for c in kids] == [str(i) for i in range(len(early))], "box has the children %s", [c.name for c in kids], sig="fresh-children")
            for i, c in enumerate(kids):
                verify(snap, c, "E%d" % i, early[i], seen, "box.%d" % i)
            for i, r in enumerate([x for x in snap.watches if x.source == "WATCH"]):
                verify(snap, r.result, "W%d" % i, case["watches"][i], seen, "watch %d" % i)
            got = [x for x in snap.watches if x.source == "CAPTURE"]
            check(len(got) == 1 and got[0].error is None, "captured is %s", [(x.expression, x.error) for x in got], sig="capture")
            var = got[0].result
            if case["how"] == "raise":
                exc = snap.var_lookup[var.vid].children[1]
                entry = snap.var_lookup[exc.vid]
                check(entry.type == "Late" and len(entry.children) == 1, "the exception is a %s with %d children", entry.type, len(entry.children), sig="capture")
                var = entry.children[0]
            verify(snap, var, "R", late, seen, "capture")
        return {"nontrivial": len(early) + len(watches) > 1, "labels": [case["how"]], "observed": {"snapshots": len(snaps)}}
    finally:
        w.close()


def capture_cases():
    leaf = st.sampled_from([["s"], ["leaf"], ["leaf"], ["n"]])

    def node(d):
        if d == 0:
            return leaf
        return st.one_of(leaf, st.tuples(st.sampled_from(["l", "d", "l"]), st.lists(node(d - 1), max_size=8)).map(list))
    many = st.tuples(st.sampled_from(["l", "d", "l"]), st.lists(node(2), max_size=20)).map(list)
    return st.fixed_dictionaries({"early": st.lists(node(2), max_size=20), "late": many, "watches": st.lists(many, max_size=2), "how": st.sampled_from(["return", "return", "raise"]),
                                  "stages": st.lists(st.sampled_from(["line", "method"]), min_size=1, max_size=2), "hits": st.integers(1, 2)})


PARTS = [
    Part("crossing", crossing.run, crossing.cases("snap", steps=9000), quick=250, thorough=5000, shards=2, thorough_shards=4,
         rule="the threads were switched inside the agent"),
    Part("capture", run_capture, capture_cases, quick=800, thorough=12000, shards=2, thorough_shards=4,
         rule="a function that drops its data before the result, made in the same memory, is captured"),
    Part("fresh", run_fresh, fresh_cases, quick=1200, thorough=20000, shards=2, thorough_shards=4, rule="contents that are made when they are asked for, of several levels"),
    Part("graphs", run_graph, graph_cases, quick=4000, thorough=80000, shards=8, thorough_shards=8,
         rule="at least one object was reached by two references"),
]
assert snapref
