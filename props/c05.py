"""C05 Collection is bounded and spends its budget breadth-first."""
import collections

from hypothesis import strategies as st

from vlib import snaplab, snapref, values
from vlib.core import Part, check

META = {"assumptions": [
    "depth: the locals of a frame are at depth 2 (below the frame), a watch result at depth 1; the limit is the last depth recorded",
    "with several collected frames the order is asserted for the variables of the top frame",
]}

LEAVES = ["int", "big", "float", "str", "empty", "long", "uni", "true", "none", "bytes", "withrepr", "longstr", "s1024", "s1025", "date",
          "function", "cls", "deep", "biglist", "bigdict", "bigset", "emptylist", "gen", "listiter"]
CONT = ["list", "dict", "obj", "tuple", "list", "dict", "obj", "set", "exc", "data", "ns", "frozenset", "slots"]
LIMITS = {"MAX_VARIABLES": st.one_of(st.integers(0, 30), st.integers(0, 120)).map(str),
          "MAX_VAR_DEPTH": st.sampled_from(["1", "2", "3", "4", "5", "6", "9"]),
          "MAX_COLLECTION_SIZE": st.sampled_from(["0", "1", "2", "9", "10", "11", "100", "1000"]),
          "MAX_STRING_LENGTH": st.sampled_from(["0", "1", "3", "5", "1023", "1024", "1025", "2999", "3000", "10000"])}


def run_limits(case):
    tight = collections.Counter()

    def judge(ref, snap, r):
        tight["left-out"] += snapref.spent_in_order(ref, snap, r)
        tight["cut"] += bool(r["cut"])
        if ref.count() <= ref.limits.vars:
            tight["complete"] += 1
    stats = snaplab.run(case, judge=judge, convert=False)
    return {"nontrivial": bool(tight["left-out"] or tight["cut"]), "labels": [k for k, v in tight.items() if v],
            "observed": {**stats, **tight}}


def limit_cases():
    return snaplab.cases(st, values.graph(st, 16, hostile_ops=False, leaves=LEAVES, min_nodes=2, containers=CONT, refs=8), limits=LIMITS, ntps=2,
                         hits=1, nwatch=["{n}", "[{n}, {m}]", "'y' * 1500", "list(range(30))", "[[[[[{n}]]]]]", "nope", "{n}", "[{n}] * 30"])


# -- big: structures much larger than every limit, in any order of declaration ------------------------------------------
def big(desc):
    kind, n = desc
    if kind == "list":
        return list(range(1000, 1000 + n))
    if kind == "tuple":
        return tuple(object() for _ in range(n))
    if kind == "set":
        return {"item %d" % i for i in range(n)}
    if kind == "frozenset":
        return frozenset(range(1000, 1000 + n))
    if kind == "dict":
        return {"key %d" % i: [i] for i in range(n)}
    if kind == "str":
        return "s" * n
    if kind == "bytes":
        return b"b" * n
    if kind == "nest":
        out = ["leaf"]
        for _ in range(n):
            out = [out, 1]
        return out
    if kind == "dictnest":
        out = {"end": 1}
        for _ in range(n):
            out = {"in": out, "x": "y"}
        return out
    if kind == "objnest":
        out = None
        for i in range(n):
            p = values.Plain()
            p.next, p.i = out, i
            out = p
        return out
    if kind == "wide-obj":
        p = values.Plain()
        for i in range(n):
            setattr(p, "a%d" % i, [i, str(i)])
        return p
    if kind == "exc":
        return values.Boom(*range(1000, 1000 + n))
    if kind == "tree":
        def tree(d):
            return [] if d == 0 else [tree(d - 1) for _ in range(6)]
        return tree(4)
    if kind == "cycle":
        a = [[] for _ in range(n)]
        for i, x in enumerate(a):
            x += [a[(i + 1) % n], a, "x%d" % i]
        return a
    if kind == "dag":
        out = ["end"]
        for _ in range(n):
            out = [out, out]
        return out
    raise ValueError(kind)


BIG = ["list", "tuple", "set", "frozenset", "dict", "str", "bytes", "nest", "dictnest", "objnest", "wide-obj", "exc", "tree", "cycle", "dag"]


def run_big(case):
    import vlib.values as v
    objs = []
    for d in case["data"]:
        objs.append(big(d) if d[0] in BIG else v.LEAVES[d[0]]())
    build = v.build
    v.build = lambda desc: objs
    counts = collections.Counter()

    def judge(ref, snap, r):
        counts["left-out"] += snapref.spent_in_order(ref, snap, r)
        n = len(ref.frames[0].locals)
        if ref.frames[0].collect and ref.limits.depth >= 2 and ref.limits.vars > n:
            check(len(snap.frames[0].variables) == n, "%d of the %d locals are recorded, the limit is %d variables",
                  len(snap.frames[0].variables), n, ref.limits.vars, sig="crowded-out")
            counts["all-locals"] += 1
        counts["vars"] = max(counts["vars"], len(snap.var_lookup))
    try:
        n = len(objs)
        stats = snaplab.run({"graph": case["data"], "names": list(range(n)), "refs": list(range(n)), "style": case["style"], "hits": 1,
                             "tps": case["tps"]}, judge=judge, convert=False)
    finally:
        v.build = build
    return {"nontrivial": counts["left-out"] > 0 or stats["cut"] > 0, "labels": [k for k, c in counts.items() if c],
            "observed": {**stats, **counts}}


def big_cases():
    item = st.one_of(st.tuples(st.sampled_from(BIG), st.one_of(st.integers(1, 40), st.integers(1, 3000))).map(
        lambda t: [t[0], min(t[1], 300 if t[0] in ("objnest", "nest", "dictnest", "wide-obj", "cycle", "dag") else 3000)]),
        st.sampled_from(["int", "str", "none", "float", "withstr"]).map(lambda n: [n, 0]))
    limits = dict(LIMITS, MAX_VARIABLES=st.one_of(st.integers(5, 40), st.sampled_from([100, 500, 1000, 999, 1001])).map(str))
    tp = st.fixed_dictionaries({"args": snaplab.args(st, limits), "n": st.integers(0, 6), "m": st.integers(0, 6),
                                "watches": st.lists(st.sampled_from(["{n}", "V", "nope", "[{n}] * 30"]), max_size=2)})
    return st.fixed_dictionaries({"data": st.lists(item, min_size=1, max_size=8), "style": st.sampled_from(["function", "method", "closure", "gen"]),
                                  "tps": st.lists(tp, min_size=1, max_size=2)})


PARTS = [
    Part("limits", run_limits, limit_cases, quick=5000, thorough=60000, shards=4, thorough_shards=8,
         rule="a limit took effect: variables were left out or a text was cut"),
    Part("big", run_big, big_cases, quick=2000, thorough=30000, shards=4, thorough_shards=8,
         rule="variables were left out or a text was cut"),
]
