"""C02 Snapshot fidelity: a snapshot truthfully describes the paused frame."""
import collections

from hypothesis import strategies as st

from vlib import crossing, progs, snaplab, snapref, tps, values
from vlib.core import Part, check
from vlib.model import Model
from vlib.world import Tracer, World

META = {"assumptions": [
    "the reference is read from the same frame immediately before the agent handles the event, in the same thread",
    "objects with a stateful __str__ are not used; a value whose text cannot be read is covered by C06",
    "how the contents of a subclass of dict/list/tuple/set, of a class, or of an exception that is no Exception are shown is not asserted",
    "the stack_type argument is not asserted",
]}

CFGS = [{"APP_ROOT": "/app"}, {"APP_ROOT": "/app/x"}, {"APP_ROOT": ""}, {"APP_ROOT": "/none", "IN_APP_INCLUDE": "/app/y"},
        {"APP_ROOT": "/app", "IN_APP_EXCLUDE": "/app/x/"}, {"APP_ROOT": "/none", "IN_APP_INCLUDE": ["/app/x/prog", "/app/y"],
                                                            "IN_APP_EXCLUDE": ["/app/rt"]},
        {"APP_ROOT": "/app", "IN_APP_INCLUDE": "/app/x,/app", "IN_APP_EXCLUDE": "/app/y,/usr"}]


# -- programs: every snapshot of a generated program ------------------------------------------------------------------
WATCHES = [e for e in tps.EXPRS if e not in ("", "x =")] + ["v0", "v1", "a", "self", "V[0]", "V", "[a, a]", "{'a': a, 'b': [b]}", "locals()"]


def run_programs(case):
    vals = values.build(case["graph"])
    program = progs.Program(case["prog"])
    lines, fns = tps.executed_lines(program, values.build(case["graph"]))
    specs = tps.resolve(case["tps"], lines, fns, unlimited=True)
    for s in specs:
        s["args"].pop("snapshot", None)
        if s["args"].get("frame_type") == "all_frame":
            s["args"]["MAX_VARIABLES"] = "1000000"
        s.pop("metrics", None)
    cfg = CFGS[case["cfg"]]
    w = World(cfg)
    stats = collections.Counter()
    try:
        w.install(specs)
        model = Model(specs)
        waiting, dumps, cost = {}, [], [0]

        def before(frame, event, arg):
            now = w.tick()
            due, unknown = model.due(frame, event, now)
            todo = [tp.spec for tp, act in due if act.kind == "snap"]
            open_ = [tp.spec for tp in unknown if any(a.kind == "snap" for a in tp.actions)]
            if not todo and not open_:
                return ()
            refs = snapref.Ref.many(frame, todo + open_, cfg, now=now)
            for r in refs:
                waiting[(r.spec["rid"], now)] = r
            return refs[:len(todo)]

        def after(frame, event, arg, refs, items):
            for i in items:
                if i["kind"] != "snap":
                    continue
                s = i["snapshot"]
                ref = waiting.pop((s.tracepoint.id, s.ts_nanos), None)
                check(ref is not None, "a snapshot of %s is not due", s.tracepoint.id, sig="due")
                r = snapref.compare(ref, s, captures=False)
                stats["snapshots"] += 1
                stats["expanded"] += bool(r["expanded"])
                stats["shared"] += bool(r["shared"])
                stats["deep-stack"] += len(ref.frames) > 8
                stats["with-class"] += any(f.classes != [None] for f in ref.frames)
                dumps.append((s, snapref.dump(s)))
                cost[0] += len(ref.objs) + 20
            if cost[0] > 60000 and model.tps:
                # bound the cost of a case
                model.tps = []
                w.uninstall()
            for ref in refs:
                if not ref.spec["args"].get("stage", "").endswith("capture"):
                    check((ref.spec["rid"], ref.now) not in waiting, "no snapshot of %s at %s#%s", ref.spec["id"],
                          frame.f_code.co_filename, frame.f_lineno, sig="due")
        tr = Tracer(w, before, after)
        tr.run(program.instantiate(vals))
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        for s, d in dumps:
            check(snapref.dump(s) == d, "a snapshot changed after it was delivered", sig="changed-later")
        return {"nontrivial": stats["snapshots"] > 1 and stats["expanded"] > 0, "labels": [k for k, v in stats.items() if v],
                "observed": dict(stats)}
    finally:
        w.close()


def program_cases():
    return st.fixed_dictionaries({
        "prog": progs.strategy(st, values=6), "graph": values.graph(st, 8, hostile_ops=False, leaves=values.SAFE_LEAVES, min_nodes=3),
        "cfg": st.integers(0, len(CFGS) - 1),
        "tps": st.lists(tps.spec(st, metrics=False, log=False, limits=False, spans=False, stages=(
            "line_start", "line_capture", "method_start", "method_capture")).flatmap(
                lambda s: st.lists(st.sampled_from(WATCHES), max_size=3).map(lambda ws: {**s, "watches": ws})),
            min_size=3, max_size=6)})


# -- graphs: local variables of every shape ---------------------------------------------------------------------------
def run_graphs(case):
    stats = snaplab.run(case, CFGS[case["cfg"]], convert=False, meta=True)
    return {"nontrivial": stats["expanded"] > 0, "labels": [k for k, v in stats.items() if v], "observed": stats}


LEAVES = [n for n in sorted(values.LEAVES)]


def graph_cases():
    limits = {"MAX_VAR_DEPTH": st.sampled_from(["5", "2", "3", "8"]), "MAX_COLLECTION_SIZE": st.sampled_from(["10", "1", "3", "100"]),
              "MAX_STRING_LENGTH": st.sampled_from(["1024", "5", "50000", "1", "0"])}
    return snaplab.cases(st, st.one_of(values.graph(st, 12, hostile_ops=False, leaves=values.SAFE_LEAVES, min_nodes=2),
                                       values.graph(st, 10, hostile_ops=False, leaves=LEAVES, min_nodes=2)),
                         limits=limits, ntps=2).flatmap(
        lambda c: st.integers(0, len(CFGS) - 1).map(lambda i: {**c, "cfg": i}))


# -- stack: chains of calls of every kind through files of every name -------------------------------------------------
DIRS = ["/app", "/app/x", "/app/x/y", "/srv/lib", "/app2", "", "/usr/lib/python3", "rel/dir", "/app/x.y", "/opt/é", "/app//z"]
FILES = ["prog.py", "mod.py", "__init__.py", "a b.py", "noext", "prog.pyc", "é.py"]
KINDS = ["func", "method", "classmethod", "static", "lambda", "comp", "gen", "class", "exec", "closure", "selfless", "selfnone", "selfint",
         "property", "dunder", "recurse", "deco", "async", "finally", "map", "selflater", "nested", "inner", "meta", "selfclass", "proxy", "renamed", "falsy", "deep", "deeper"]
SELF = {"method": "Own"}


def chain_source(kind, i):
    """Source with a function step<i>(nxt) that calls nxt() in a frame of the given kind."""
    name = "step%d" % i
    t = {
        "func": "def {n}(nxt):\n    here = {i}\n    return nxt()\n",
        "method": "class Own{i}:\n    def run(self, nxt):\n        mine = [self]\n        return nxt()\ndef {n}(nxt): return Own{i}().run(nxt)\n",
        "classmethod": "class Cm{i}:\n    @classmethod\n    def run(cls, nxt):\n        return nxt()\ndef {n}(nxt): return Cm{i}.run(nxt)\n",
        "static": "class St{i}:\n    @staticmethod\n    def run(nxt):\n        return nxt()\ndef {n}(nxt): return St{i}().run(nxt)\n",
        "lambda": "{n} = lambda nxt: [nxt()][0]\n",
        "comp": "def {n}(nxt):\n    return [nxt() for q in (1,)][0]\n",
        "gen": "def {n}(nxt):\n    return next(nxt() for q in (1,))\n",
        "class": "def {n}(nxt):\n    class Body{i}:\n        attr = 5\n        out = nxt()\n    return Body{i}.out\n",
        "exec": "def {n}(nxt):\n    ns = {{'nxt': nxt, 'self': {i}}}\n    exec('x = 1\\ny = nxt()', ns)\n    return ns['y']\n",
        "closure": "def {n}(nxt):\n    free = 'free'\n    def inner():\n        return (free, nxt())[1]\n    return inner()\n",
        "selfless": "def {n}(self):\n    return self()\n",
        "selfnone": "def {n}(nxt):\n    self = None\n    return nxt()\n",
        "selfint": "def {n}(nxt):\n    self = {i}\n    return nxt()\n",
        "property": "class Pr{i}:\n    def __init__(self, nxt): self.nxt = nxt\n    @property\n    def p(self):\n        return self.nxt()\n"
                    "def {n}(nxt): return Pr{i}(nxt).p\n",
        "dunder": "class Du{i}:\n    def __init__(self, nxt): self.__nxt = nxt\n    def __len__(self):\n        self.__nxt()\n        return 1\n"
                  "def {n}(nxt): return len(Du{i}(nxt))\n",
        "recurse": "def {n}(nxt, k=5):\n    return nxt() if k == 0 else {n}(nxt, k - 1)\n",
        "deco": "def wrap(f):\n    def wrapped(*a, **k):\n        return f(*a, **k)\n    return wrapped\n@wrap\ndef {n}(nxt):\n    return nxt()\n",
        "async": "async def co{i}(nxt):\n    return nxt()\ndef {n}(nxt):\n    try:\n        co{i}(nxt).send(None)\n    except StopIteration as e:\n"
                 "        return e.value\n",
        "finally": "def {n}(nxt):\n    try:\n        raise ValueError('v')\n    except ValueError as err:\n        return nxt()\n    finally:\n"
                   "        done = 1\n",
        "map": "def {n}(nxt):\n    return list(map(lambda q: nxt(), (1,)))[0]\n",
        "selflater": "class Sl{i}:\n    def run(this, nxt):\n        self = this\n        del this\n        return nxt()\n"
                     "def {n}(nxt): return Sl{i}().run(nxt)\n",
        "deeper": "def {n}(nxt, k=560):\n    return nxt() if k == 0 else {n}(nxt, k - 1)\n",
        "deep": "def {n}(nxt, k=70):\n    return nxt() if k == 0 else {n}(nxt, k - 1)\n",
        "nested": "class Ou{i}:\n    class In{i}:\n        def run(self, nxt):\n            return nxt()\n"
                  "def {n}(nxt): return Ou{i}.In{i}().run(nxt)\n",
        "inner": "def {n}(nxt):\n    class Lo{i}:\n        def run(self):\n            return nxt()\n    return Lo{i}().run()\n",
        "meta": "class Ty{i}(type):\n    def run(self, nxt):\n        return nxt()\nclass Mt{i}(metaclass=Ty{i}): pass\n"
                "def {n}(nxt): return Mt{i}.run(nxt)\n",
        "selfclass": "def {n}(nxt):\n    self = KeyError\n    return nxt()\n",
        "proxy": "class Px{i}:\n    __class__ = property(lambda self: dict)\n    def run(self, nxt):\n        return nxt()\n"
                 "def {n}(nxt): return Px{i}().run(nxt)\n",
        "renamed": "class Rn{i}:\n    def run(self, nxt):\n        return nxt()\nRn{i}.__name__ = 'Other'\nRn{i}.__qualname__ = 'a.b.Q'\n"
                   "def {n}(nxt): return Rn{i}().run(nxt)\n",
        "falsy": "class Fa{i}(list):\n    def __bool__(self): return False\n    def __eq__(self, o): return True\n    def run(self, nxt):\n"
                 "        return nxt()\ndef {n}(nxt): return Fa{i}().run(nxt)\n",
    }[kind]
    return t.format(n=name, i=i), name


def run_stack(case):
    from vlib import bottom
    vals = values.build(case["graph"])
    g = {"V": vals}
    steps = []
    for i, (kind, d, f) in enumerate(case["chain"]):
        kinds = [k for k, _, _ in case["chain"]]
        if kind in ("deep", "deeper") and "deeper" in kinds and kinds.index("deeper") != i:
            # (there has to be room below the recursion limit)
            kind = "recurse"
        src, name = chain_source(kind, i)
        path = DIRS[d] + ("/" if DIRS[d] else "") + FILES[f]
        ns = {"__name__": "m%d" % i}
        exec(compile(src, path, "exec"), ns)
        steps.append(ns[name])
    leaf_src = "def leaf():\n    value = V[0]\n    other = [value]\n    return other\n"
    leaf = DIRS[case["leaf"][0]] + ("/" if DIRS[case["leaf"][0]] else "") + FILES[case["leaf"][1]]
    exec(compile(leaf_src, leaf, "exec"), g)
    fn = g["leaf"]
    for s in reversed(steps):
        def fn(s=s, nxt=fn):
            return s(nxt)
    base = FILES[case["leaf"][1]]
    specs = [{"id": "tp0", "path": base, "line": 4, "args": {"fire_count": "-1", "fire_period": "0"}, "watches": ["value"]},
             {"id": "tp1", "path": base, "line": 1, "args": {"fire_count": "-1", "fire_period": "0", "method_name": "leaf", "stage": "method_start"},
              "watches": []}]
    for s, ft in zip(specs, case["frame_types"]):
        if ft:
            s["args"]["frame_type"] = ft
        if ft == "all_frame":
            s["args"]["MAX_VARIABLES"] = "1000000"
    cfg = {k: v for k, v in case["cfg"].items() if v is not None}
    cfg.setdefault("APP_ROOT", "")
    w = World(cfg)
    stats = collections.Counter()
    try:
        w.install(specs)

        def before(frame, event, arg):
            if frame.f_code.co_filename != leaf or frame.f_code.co_name != "leaf":
                return None
            todo = [s for s in specs if (event == "call" and s["line"] == 1) or (event == "line" and frame.f_lineno == s["line"] == 4)]
            return snapref.Ref.many(frame, todo, cfg, now=w.now)

        def after(frame, event, arg, refs, items):
            snaps = {i["snapshot"].tracepoint.id: i["snapshot"] for i in items if i["kind"] == "snap"}
            for ref in refs or ():
                check(ref.spec["rid"] in snaps, "no snapshot of %s", ref.spec["id"], sig="due")
                snapref.compare(ref, snaps[ref.spec["rid"]])
                stats["snapshots"] += 1
                stats["app"] += sum(snapref.path_of(cfg, f.file)[0] for f in ref.frames)
                stats["not-app"] += sum(not snapref.path_of(cfg, f.file)[0] for f in ref.frames)
                stats["classes"] += sum(f.classes != [None] for f in ref.frames)
        tr = Tracer(w, before, after)
        err = []
        bottom.run_in_thread(STACK_DRIVER, {"__name__": "driver", "fn": fn, "start": tr.start, "stop": tr.stop, "err": err.append})
        for e in tr.errors + err:
            raise e
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        check(stats["snapshots"] == 2, "%d snapshots, two are due", stats["snapshots"], sig="due")
        return {"nontrivial": len(case["chain"]) > 1 and stats["app"] and stats["not-app"], "labels": sorted({k for k, _, _ in case["chain"]}),
                "observed": dict(stats)}
    finally:
        w.close()


def _driver():
    from vlib import bottom
    return bottom.compile_driver("try:\n    start()\n    fn()\nexcept BaseException as e:\n    err(e)\nfinally:\n    stop()\n")


STACK_DRIVER = _driver()
PREFIXES = ["/app", "/app/", "/app/x", "/srv/lib", "/usr", "", "rel", "/app/x/prog.py", "/nowhere", "/verif", "/app2", "/opt/é"]


def stack_fixed(tier):
    for k, n in ((4, 0), (0, 5)):
        yield {"chain": [["func", k, 0], ["deeper", k, 0]] + [["method", 0, 0]] * n, "leaf": [0, 0], "graph": [["leaf", "int"]],
               "frame_types": [None, "single_frame"], "cfg": {"APP_ROOT": "/app", "IN_APP_INCLUDE": None, "IN_APP_EXCLUDE": None}}


def stack_cases():
    lst = st.lists(st.sampled_from(PREFIXES), max_size=3)
    setting = st.one_of(st.none(), lst, lst.map(",".join), lst.map(lambda x: " , ".join(x)), lst.map(tuple).map(list))
    return st.fixed_dictionaries({
        "chain": st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, len(DIRS) - 1), st.integers(0, len(FILES) - 1)).map(list),
                          min_size=0, max_size=7),
        "leaf": st.tuples(st.integers(0, len(DIRS) - 1), st.integers(0, len(FILES) - 1)).map(list),
        "graph": values.graph(st, 4, hostile_ops=False, leaves=values.SAFE_LEAVES),
        "frame_types": st.lists(st.sampled_from([None, "single_frame", "all_frame", "no_frame"]), min_size=2, max_size=2),
        "cfg": st.fixed_dictionaries({"APP_ROOT": st.one_of(st.none(), st.sampled_from(PREFIXES)), "IN_APP_INCLUDE": setting,
                                      "IN_APP_EXCLUDE": setting})})


PARTS = [
    Part("programs", run_programs, program_cases, quick=800, thorough=8000, shards=6, thorough_shards=8,
         rule="a generated program with values; at least two snapshots compared, one with an expanded value"),
    Part("graphs", run_graphs, graph_cases, quick=1500, thorough=12000, shards=2, thorough_shards=8,
         rule="a paused function with generated values of which some have children"),
    Part("crossing", crossing.run, crossing.cases("snap", steps=9000), quick=250, thorough=6000, shards=2, thorough_shards=8,
         exhaustive_cases=crossing.each_switch([{"watches": ["tag", "G"]}], 4700, 13), rule="the threads were switched inside the agent"),
    Part("stack", run_stack, stack_cases, exhaustive_cases=stack_fixed, quick=900, thorough=8000, shards=2, thorough_shards=8,
         rule="a chain of at least two calls through files that are and are not application files"),
]
