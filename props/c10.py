"""C10 Conditions and expressions: gate firing, frame scope, errors contained."""
import builtins
import builtins
import collections
import importlib
import pkgutil

from hypothesis import strategies as st

from vlib import crossing, lab, progs, tps
from vlib.core import Part, check
from vlib.model import Failed, Model, evaluate
from vlib.world import Tracer, World

from props.c03 import expand, name_maps, observed

META = {"assumptions": [
    "the truth of a condition is only asserted for results that are True/False, 1/0, None or empty, and for conditions "
    "that fail; how other values (2, lists, objects) are read is not specified",
    "a metric label whose expression fails has some text as its value; which text is not asserted",
    "a local name that is not yet bound but also exists as a global is not used",
]}

CONDS = ["True", "False", "v0 == 1", "a > 0", "nope > 1", "1/0", "len(v1) == 2", "v2 == 'text'", "a is not None",
         "isinstance(v0, int)", "v3['k'] == 1", "1", "0", "None", "not v1", "any(q == a for q in range(3))", "deep is not None",
         "G0.endswith('prog.py')", "x =", "", "   ", "G0 == 'global of ' + __file__", "a == b", "v0 is v0", "(lambda: a > 1)()",
         "[z for z in (a,) if z == a] == [a]", "trigger_context is None", "len(v1) > 1 and v2 is not None", "v3['self'] is None",
         "self is not None", "bool(v1)", "''", "not nope", "os is not None", "raise x", "True\n", " a > 0 ", "a\n> 0", "(a >\n0)",
         "'#' not in str(v2)", "v2 != '#'  # a comment", "a > 0 # 'x'", "\na > 0", "a > 0\n# more\n", "True;", "v2 == \"te\" 'xt'", "\ta > 0", "a\\\n> 0", "(yield)", "a := 1", "(q := a) == a",
         "f'{a}' == str(a)", "f'{a!r:>3}' != '#'", "True #", "# True", "1 if a else 0"]


# -- gate: which hits of a program act ------------------------------------------------------------------------------
def run_gate(case):
    program = progs.Program(case["prog"])
    lines, fns = tps.executed_lines(program)
    specs = tps.resolve(case["tps"], lines, fns)
    for s in specs:
        s["args"]["fire_period"] = "0"
        if s["args"].get("stage", "").endswith("capture"):
            s["args"]["stage"] = s["args"]["stage"].replace("capture", "start")
        s["metrics"] = [dict(m, ns="NS" + s["id"]) for m in s.get("metrics", [])][:1]
    w = World()
    try:
        w.install(specs)
        model = Model(specs)
        ids = name_maps(specs)
        stats = collections.Counter()

        def before(frame, event, arg):
            for tp in model.tps:
                if tp.at(frame, event) and tp.condition and tp.actions:
                    stats["held" if tp.condition_holds(frame) else "rejected"] += 1
                    if type(evaluate(tp.condition, frame)) is Failed:
                        stats["failed"] += 1
            return model.due(frame, event, w.now)

        def after(frame, event, arg, tok, items):
            due, unknown = tok
            exp = expand(due)
            got = collections.Counter()
            for (tp, kind), n in observed(items).items():
                got[(ids.get(tp, tp), kind)] += n
            for tp in unknown:
                # whether a continued generator counts is open, so its budget is open too
                for act in tp.actions:
                    if got.get((tp.spec["id"], act.kind)):
                        act.fire(w.now)
                for k in [k for k in got if k[0] == tp.spec["id"]]:
                    del got[k]
            check(got == exp, "at %s#%s event %s expected %s but saw %s (conditions %s)", frame.f_code.co_filename,
                  frame.f_lineno, event, dict(exp), dict(got),
                  {t.spec["id"]: t.condition for t in model.tps}, sig="gate")
        tr = Tracer(w, before, after)
        tr.run(program.instantiate())
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        return {"nontrivial": stats["held"] > 0 and stats["rejected"] > 0,
                "labels": [k for k in stats] or ["none"], "observed": dict(stats)}
    finally:
        w.close()


def gate_cases():
    return st.fixed_dictionaries({
        "prog": progs.strategy(st),
        "tps": st.lists(tps.spec(st, watches=False, conds=CONDS, need_cond=True, stages=("line_start", "line_end", "method_start")),
                        min_size=3, max_size=6)})


# -- history: one location, scripted condition values, limited budgets ------------------------------------------------
class BadBool:
    def __bool__(self):
        raise KeyboardInterrupt("bool")

    def __str__(self):
        raise SystemExit("str")


def stop(kind=KeyboardInterrupt):
    raise kind("stop")


def recurse():
    return recurse()


TRUTH = [True, False, 1, 0, None, "", "raise", "exit", "interrupt", "generator", "bad", "recursion"]


class Script:
    """What the condition `ok()` gives at each hit."""

    def __init__(self, steps):
        self.steps, self.pos = steps, 0

    def value(self):
        s = self.steps[self.pos]
        if s == "raise":
            raise ValueError("condition")
        if s == "exit":
            raise SystemExit(3)
        if s == "interrupt":
            raise KeyboardInterrupt()
        if s == "generator":
            raise GeneratorExit()
        if s == "bad":
            return BadBool()
        if s == "recursion":
            return recurse()
        return s


FORMS = ["ok()", "  ok()  ", "(lambda: ok())()", "[ok() for q in (1,)][0]", "v0.value()", "ok() if True else nope",
         "True and ok()"]


def run_history(case):
    script = Script(case["steps"])
    lb = lab.Lab(["v0"], [script], case["style"], hits=len(case["steps"]), extra={"ok": script.value})
    specs = []
    for i, t in enumerate(case["tps"]):
        a = {"fire_count": t["count"], "fire_period": "0"}
        if t["cond"] is not None:
            a["condition"] = t["cond"]
        s = {"id": "tp%d" % i, "path": "prog.py", "line": lb.line, "args": a, "via": t["via"], "watches": [], "metrics": []}
        if "log" in t["kinds"]:
            a["log_msg"] = "m"
        if "snap" not in t["kinds"]:
            a["snapshot"] = "no_collect"
        if "span" in t["kinds"]:
            a["span"] = "line"
        if "metric" in t["kinds"]:
            s["metrics"] = [{"name": "m", "type": "COUNTER", "ns": "NStp%d" % i}]
        specs.append(s)
    w = World()
    try:
        w.install(specs)
        ids = name_maps(specs)
        left = {s["id"]: (None if s["args"]["fire_count"] == "-1" else int(s["args"]["fire_count"])) for s in specs}
        stats = collections.Counter()
        lb_hits = [0]

        def before(frame):
            step = case["steps"][script.pos]
            exp = collections.Counter()
            for s, t in zip(specs, case["tps"]):
                holds = t["cond"] is None or not t["cond"].strip() or step is True or (step == 1 and step is not False)
                n = left[s["id"]]
                stats["held" if holds else "rejected"] += 1
                if holds and (n is None or n > 0):
                    if n is not None:
                        left[s["id"]] = n - 1
                    for k in t["kinds"]:
                        exp[(s["id"], k)] += 1
            return exp

        def after(frame, exp, items):
            got = collections.Counter({(ids.get(k[0], k[0]), k[1]): n for k, n in observed(items).items()})
            check(got == exp, "hit %d (condition gives %r): expected %s, saw %s", script.pos,
                  case["steps"][script.pos], dict(exp), dict(got), sig="history")
            lb_hits[0] += 1

        def each(h):
            script.pos = h
            w.now += 1_000_000
        lb.run(w, before, after, each)
        return {"nontrivial": stats["held"] > 1 and stats["rejected"] > 0, "labels": [],
                "observed": {"hits": lb_hits[0]}}
    finally:
        w.close()


def history_cases():
    tp = st.fixed_dictionaries({
        "cond": st.one_of(st.sampled_from(FORMS), st.sampled_from(FORMS), st.sampled_from([None, "", " "])),
        "count": st.sampled_from(["1", "2", "3", "-1", "1"]), "via": st.sampled_from(["service", "custom"]),
        "kinds": st.lists(st.sampled_from(["snap", "log", "metric", "span"]), min_size=1, max_size=4, unique=True)})
    return st.fixed_dictionaries({
        "steps": st.lists(st.sampled_from(TRUTH + [True, False, True]), min_size=3, max_size=9),
        "tps": st.lists(tp, min_size=1, max_size=3), "style": st.sampled_from(["function", "method", "closure", "gen"])})


# -- expressions: what watches, conditions, log fields and metrics see ------------------------------------------------
class Thing:
    cls_attr = "ca"

    def __init__(self):
        self.name = "thing"
        self._hidden = 7

    def greet(self, who="you"):
        return "hi " + who

    def boom(self, kind):
        raise kind("from %s" % self.name)

    @property
    def prop(self):
        raise LookupError("prop")


class BadText(Exception):
    def __str__(self):
        raise RuntimeError("no text")


NAMES = ["v0", "v1", "v2", "obj", "x"]
GOOD = ["v0", "v1", "v2", "obj", "x", "v0 + v0", "[v0, v1]", "len(v1)", "obj.name", "obj.greet()", "obj.greet(who='a')",
        "helper(v0)", "G0", "G1['k']", "[i for i in v1]", "[i for i in v1 if i != v0]", "{k: v0 for k in 'ab'}",
        "{v for v in v1}", "sum(1 for i in v1 if v0 is not None)", "(lambda: v0)()", "(lambda q, w=v1: (q, w, x))(1)",
        "[[v0 for a in v1] for b in v1]", "max(v1, key=lambda i: str(i) + str(v2))", "sorted(v1, key=str)", "__name__",
        "Thing.cls_attr", "obj._hidden", "str", "len", "print", "type(v0)", "isinstance(obj, Thing)", "v0 if v1 else v2",
        "f'{v0} {obj.name!r}'", "None", "...", "1 if v0 == v0 else 2", "(y := v0)", "[(y := i) for i in v1]", "locals().get('v0')",
        "globals().get('G0')", "list(map(lambda i: (i, v2), v1))", "next(iter(v1), x)", "any(i is v0 for i in [v0])",
        "dict(zip('ab', v1))", "bonly", "bonly", "[bonly, v0]", "len(v1)", "__builtins__ is not None", "eval('v0')", "v2 * 3", "NotImplemented", "x.__class__", "shadow",
        "ValueError", "ValueError('a value, not an error')", "KeyError", "Exception('stored')", "stored", "[stored]", "(v0,)", "{}"]
BAD = ["nope", "v0.nope", "1/0", "obj.boom(ValueError)", "obj.boom(KeyboardInterrupt)", "obj.boom(SystemExit)",
       "obj.boom(GeneratorExit)", "obj.boom(StopIteration)", "obj.boom(MemoryError)", "obj.boom(AssertionError)", "obj.prop",
       "raise_bad()", "v0 = 1", "x =", "", "import os", "def f(): pass", "yield v0", "return v0", "await v0", "pass", "a b", "(", ")",
       "\x00", "v0\x00", "recurse()", "'\ud800", "lambda", "v1[99]", "G1['zz']", "int('z')", "obj()", "helper(1, 2, 3)", "os", "sys",
       "logging", "deep", "frame", "self", "trigger_context", "expression", "watch", "event", "arg", "config", "uuid", "var_processor",
       "result", "error", "frame_locals", "*v1", "for i in v1: pass", "1 +", "é€", "\ud800"]


def raise_bad():
    raise BadText()


def pool(i):
    return [1, -3, 2.5, "text", "", [1, 2], [], {"k": 1}, (1, 2), None, True, b"b", {3}, 10 ** 25][i % 14]


def numeric(v):
    """The number a metric reports for a result, or None when that is not specified."""
    if type(v) is Failed or v is None or isinstance(v, (list, tuple, dict, set, type)):
        return 1
    if isinstance(v, bool) or type(v) in (int, float):
        return float(v)
    return None


def run_expr(case):
    vals = [pool(i) for i in case["seed"]] + [Thing(), "local x"]
    stored = ValueError("stored error")
    extra = {"G0": "global0", "G1": {"k": 5}, "helper": lambda q: [q, "helped"], "Thing": Thing, "raise_bad": raise_bad,
             "recurse": recurse, "x": "global x", "shadow": "host", "stored": stored}
    # names that the agent uses inside, here defined by the application
    for n in case["shadow"]:
        extra[n] = "host value of %s" % n
    if case.get("own_builtins"):
        # the module runs with builtins of its own: one more name, one replaced, one missing
        own = dict(vars(builtins), bonly=("builtin", "of", "host"), len=lambda v: ["host len"])
        del own["sorted"]
        extra["__builtins__"] = own
    lb = lab.Lab(NAMES, vals, case["style"], hits=1, extra=extra)
    watches = case["watches"]
    via = case["via"]
    texts = watches + case["labels"] + [case["metric"], case["cond"] or ""]
    if any(not encodable(t) for t in texts):
        via = "custom"
    spec = {"id": "tp-x", "path": "prog.py", "line": lb.line, "via": via, "watches": watches,
            "args": {"fire_count": "-1", "fire_period": "0", "span": "line"},
            "metrics": [{"name": "m", "type": "GAUGE", "expr": case["metric"] or None, "ns": "NS",
                         "labels": [{"key": "l%d" % i, "expr": e} for i, e in enumerate(case["labels"]) if e]}]}
    if case["log"]:
        fields = [e for e in watches if not set(e) & set("{}!:=\x00") and e.strip()]
        spec["args"]["log_msg"] = "|".join("{%s}" % f for f in fields)
    else:
        fields = None
    if case["cond"] is not None:
        spec["args"]["condition"] = case["cond"]
    w = World()
    stats = collections.Counter()
    try:
        w.install([spec])

        def before(frame):
            res = {}
            for e in set(texts + (fields or [])):
                res[e] = evaluate(e, frame)
            return res, dict(frame.f_locals)

        def after(frame, tok, items):
            res, loc = tok
            kinds = collections.Counter(i["kind"] for i in items)
            c = case["cond"]
            if c is not None and c.strip():
                r = res[c]
                if type(r) is Failed or r is None or r is False or (type(r) is int and r == 0):
                    check(not kinds, "the condition %r does not hold, but the agent did %s", c, dict(kinds), sig="cond")
                    stats["rejected"] += 1
                    return
                if r is not True and not (type(r) is int and r == 1):
                    stats["open-condition"] += 1
                    if not kinds:
                        return
            check(kinds["snap"] == 1 and kinds["metric"] == 1 and kinds["open"] == 1, "one snapshot, metric and span are "
                  "due, the agent did %s", dict(kinds), sig="due")
            s = [i for i in items if i["kind"] == "snap"][0]["snapshot"]
            ws = [x for x in s.watches if x.source == "WATCH"]
            check([x.expression for x in ws] == watches, "watches %r, expected %r", [x.expression for x in ws], watches,
                  sig="watches")
            for x in ws + [y for y in s.watches if y.source == "LOG"]:
                r = res[x.expression]
                if type(r) is Failed:
                    stats["failing"] += 1
                    check(x.result is None and x.error is not None, "%r fails with %r, but the result is %r (error %r)",
                          x.expression, r.exc, x.result and s.var_lookup.get(x.result.vid), x.error, sig="error-as-value")
                    check(type(x.error) is str and (r.text() is None or x.error == r.text() or address_text(r)),
                          "%r: error text %r, expected %r", x.expression, x.error, r.text(), sig="error-text")
                else:
                    stats["valid"] += 1
                    check(x.error is None and x.result is not None, "%r evaluates to %r, but the agent reports the error %r",
                          x.expression, r, x.error, sig="value-as-error")
                    v = s.var_lookup.get(x.result.vid)
                    check(v is not None, "%r: no variable", x.expression)
                    check(v.type == type(r).__name__, "%r: type %r, expected %r", x.expression, v.type, type(r).__name__,
                          sig="type")
                    if type(r) in (int, float, str, bool, type(None), bytes):
                        check(v.value == str(r), "%r: value %r, expected %r", x.expression, v.value, str(r), sig="value")
                    if type(r) in (list, tuple, dict, set):
                        check(v.value == "Size: %d" % len(r), "%r: value %r of %r", x.expression, v.value, r, sig="value")
                        if type(r) in (list, tuple) and len(r) and type(r[0]) in (int, str, float):
                            kid = s.var_lookup[v.children[0].vid]
                            check(kid.value == str(r[0]), "%r: first element %r of %r", x.expression, kid.value, r,
                                  sig="value")
            if fields:
                lw = [x.expression.strip() for x in s.watches if x.source == "LOG"]
                check(lw == [f.strip() for f in fields], "log fields %r, expected %r", lw, fields, sig="log-fields")
            m = [i for i in items if i["kind"] == "metric"][0]
            n = numeric(res[case["metric"]]) if case["metric"] else 1
            if n is not None:
                check(m["value"] == n, "metric %r reports %r, expected %r", case["metric"], m["value"], n, sig="metric")
            for i, e in enumerate(case["labels"]):
                if not e:
                    continue
                got = m["labels"].get("l%d" % i)
                r = res[e]
                check(type(got) is str, "label %r is %r", e, got, sig="label")
                if type(r) is not Failed and type(r) in (int, str, float, bool, list, dict, tuple, type(None)):
                    check(got == str(r), "label %r is %r, expected %r", e, got, str(r), sig="label")
            now = frame.f_locals
            check(set(now) == set(loc) and all(now[k] is loc[k] for k in loc),
                  "the variables of the frame changed from %r to %r", sorted(loc), sorted(now), sig="locals-changed")
        g0 = set(lb.g)
        lb.run(w, before, after)
        new = set(lb.g) - g0 - {"target", "enter", "Owner", "Body", "LINE0", "__builtins__"} - set(NAMES)
        check(not new, "new global names %r", new, sig="locals-changed")
        return {"nontrivial": stats["valid"] > 0 and stats["failing"] > 0 or stats["rejected"] > 0,
                "labels": [k for k in stats], "observed": dict(stats)}
    finally:
        w.close()


def address_text(r):
    return " at 0x" in (r.text() or "")


def encodable(t):
    try:
        t.encode("utf-8")
        return True
    except UnicodeEncodeError:
        return False


def expr_cases():
    e = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(BAD))
    return st.fixed_dictionaries({
        "seed": st.lists(st.integers(0, 13), min_size=3, max_size=3), "style": st.sampled_from(lab.STYLES),
        "watches": st.lists(e, min_size=1, max_size=6), "labels": st.lists(e, max_size=2),
        "metric": st.one_of(e, st.sampled_from(["v0", "v1", "v2", "True", "2.5", ""])),
        "cond": st.one_of(st.none(), st.none(), st.sampled_from(["True", "x == x", "1", "None"] + BAD), e),
        "log": st.booleans(), "via": st.sampled_from(["service", "custom"]),
        "own_builtins": st.sampled_from([False, False, False, True]),
        "shadow": st.lists(st.sampled_from(["logging", "deep", "frame", "event", "config", "uuid", "os", "sys", "watch",
                                            "expression", "trigger_context", "frame_locals", "LocationAction", "str2bool",
                                            "TriggerContext", "time_ns"]), max_size=4, unique=True)})


# -- names of the agent ----------------------------------------------------------------------------------------------
def agent_names():
    """Every global name of a deep module and every local name of a deep function."""
    import deep
    names = set()
    mods = ["deep"] + [m.name for m in pkgutil.walk_packages(deep.__path__, "deep.")]

    def code_names(code):
        names.update(n for n in code.co_varnames + code.co_freevars + code.co_cellvars if n.isidentifier())
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                code_names(c)
    for name in mods:
        try:
            m = importlib.import_module(name)
        except BaseException:  # noqa: B902 - optional dependencies
            continue
        names.update(n for n in vars(m) if n.isidentifier())
        for o in list(vars(m).values()):
            if getattr(o, "__module__", None) != name:
                continue
            for f in [o] + list(vars(o).values() if isinstance(o, type) else ()):
                f = getattr(f, "fget", None) or getattr(f, "__func__", None) or f
                if hasattr(f, "__code__"):
                    code_names(f.__code__)
    import keyword
    return sorted(n for n in names if not keyword.iskeyword(n))


def run_names(case):
    names = case["names"]
    lb = lab.Lab(["v0"], [1], "function", extra={})
    how = case["how"]
    specs = []
    for i, n in enumerate(names):
        s = {"id": "tp%d" % i, "path": "prog.py", "line": lb.line, "via": "service",
             "args": {"fire_count": "-1", "fire_period": "0"}, "watches": [], "metrics": []}
        if how == "watch":
            s["watches"] = [n, "[%s for q in (1,)]" % n]
        elif how == "cond":
            s["args"]["condition"] = "%s is None or True" % n
        elif how == "log":
            s["args"].update(log_msg="{%s}" % n, snapshot="no_collect")
        else:
            s["args"]["snapshot"] = "no_collect"
            s["metrics"] = [{"name": "m", "type": "COUNTER", "ns": "NStp%d" % i, "expr": "[%s] and 77" % n,
                             "labels": [{"key": "l", "expr": "'visible' if [%s] else ''" % n}]}]
        specs.append(s)
    w = World()
    n_fail = [0]
    try:
        w.install(specs)

        def before(frame):
            return {n: evaluate(n, frame) for n in names}

        def after(frame, res, items):
            for i, n in enumerate(names):
                bad = type(res[n]) is Failed
                n_fail[0] += bad
                mine = [x for x in items if x.get("tp") == "tp%d" % i or x.get("namespace") == "NStp%d" % i]
                if how == "cond":
                    check(len(mine) == (0 if bad else 1), "condition on the name %r, which is %s: %d snapshots", n,
                          "not visible" if bad else "visible", len(mine), sig="agent-name")
                    continue
                check(len(mine) == 1, "%d actions for %r", len(mine), n)
                if how == "watch":
                    for x in mine[0]["snapshot"].watches:
                        check((x.error is not None) == bad, "watch %r: error %r, but the name is %s", x.expression, x.error,
                              "not visible" if bad else "visible", sig="agent-name")
                elif how == "log":
                    t = "name %r is not defined" % n
                    check((t in mine[0]["msg"]) == bad, "log field %r gives %r", n, mine[0]["msg"], sig="agent-name")
                else:
                    check((mine[0]["value"] == 77) == (not bad), "metric of %r reports %r", n, mine[0]["value"],
                          sig="agent-name")
                    check((mine[0]["labels"]["l"] == "visible") == (not bad), "label of %r is %r", n, mine[0]["labels"],
                          sig="agent-name")
        lb.run(w, before, after)
        return {"nontrivial": n_fail[0] > 0, "labels": [how], "observed": {"names": len(names), "not visible": n_fail[0]}}
    finally:
        w.close()


def names_cases(tier):
    names = agent_names()
    size = 40
    out = []
    for how in ("watch", "cond", "log", "metric"):
        for i in range(0, len(names), size):
            out.append({"how": how, "names": names[i:i + size]})
    return out


assert "len" in vars(builtins)

PARTS = [
    Part("gate", run_gate, gate_cases, quick=800, thorough=12000, shards=3, thorough_shards=8,
         rule="in one program some hits are accepted by a condition and some rejected"),
    Part("history", run_history, history_cases, quick=1200, thorough=15000, shards=2, thorough_shards=8,
         rule="several accepted hits and at least one rejected"),
    Part("expr", run_expr, expr_cases, quick=2400, thorough=40000, shards=3, thorough_shards=8,
         rule="valid and failing expressions in the same snapshot, or a condition that rejects"),
    Part("crossing", crossing.run, crossing.cases("cond", steps=9000), quick=300, thorough=6000, shards=2, thorough_shards=8,
         exhaustive_cases=crossing.each_switch([{"cond": "num % 2 == 0", "snap": True, "log": ["tag"], "watches": ["G"]}], 4000, 11),
         rule="the threads were switched inside the agent"),
    Part("names", run_names, None, exhaustive_cases=names_cases, shards=2, thorough_shards=2,
         rule="some of the names is not visible to the application (all names of the agent are enumerated)"),
]
