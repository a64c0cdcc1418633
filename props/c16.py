"""C16 Log tracepoints emit the template with every field evaluated in place."""
import logging

from hypothesis import strategies as st

from vlib import crossing, lab, progs, tps
from vlib.core import Part, check, pair
from vlib.model import Failed, Model, evaluate
from vlib.world import Tracer, World

META = {"assumptions": [
    "fields that carry a conversion or a format specification ({x!r}, {x:>4}) and empty fields are not specified",
    "a brace that belongs to no field and is not doubled is not specified",
    "values whose text is not deterministic are not used",
]}

NAMES = ["v0", "v1", "v2", "v3", "obj", "fn", "bad"]


class Thing:
    def __init__(self):
        self.name = "thing"
        self.items = [1, 2, 3]
        self.inner = {"k": "deep value", "{b}": 7}

    def greet(self, who="you"):
        return "hi " + who

    def fail(self):
        raise RuntimeError("it failed {here}")

    def __str__(self):
        return "<Thing {x}>"


class BadStr:
    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


def values(seed):
    pool = [1, -2.5, "text", "br{a}ce", "", "héllo \U0001f600", [1, "x"], {"k": 1}, (1,), None, True, b"ab", {1}, 10 ** 30,
            "line\nbreak", "%s %d", "}}", "{{"]
    return [pool[s % len(pool)] for s in seed] + [Thing(), (lambda x=1: x * 2), BadStr()]


# (expression, deterministic text?) - braces, quotes, colons and exclamation marks inside expressions are legal
EXPRS = ["v0", "v1", "v2", "v3", "obj", "obj.name", "obj.items[1]", "obj.inner['k']", "obj.greet()", "obj.greet('you all')",
         "fn(3)", "fn()", "v0 == v1", "v0 != v1", "len(obj.items)", "obj.items[0:2]", "[x for x in obj.items if x != 2]",
         "{'a': 1}", "{'a': {'b': 2}}['a']['b']", "{1, 1}", "{k: v for k, v in obj.inner.items()}", "obj.inner['{b}']",
         "'}'", "'{'", "'{}'", "\"{'x'}\"", "(lambda: v0)()", "(lambda x: x)(v1)", "f'{v0}'", "' '", "'a' 'b'", " v0 ", " v2",
         "G0", "str(v0)", "type(v0).__name__", "v0 if v1 else v2", "not v0", "None", "1.5", "[v0, v1]", "(v2,)",
         "obj.inner.get('nope')", "'%s' % v0", "'%d%%'", "sorted([3, 1, 2])", "max(obj.items)", "v0 is v0",
         "dict(a=v0)", "', '.join(['a', 'b'])", "'ab' * 700", "v0 * 600", "list(range(400))", "{'k': 'x' * 2000}",
         " + ".join(["len('text')"] * 20), "len('" + "text " * 120 + "')", "{" + ", ".join("'k%d': %d" % (i, i) for i in range(70)) + "}"]
FAILING = ["nope", "v0.nope", "1/0", "obj.fail()", "obj.items[99]", "obj.inner['zz']", "int('z')", "undefined()", "deep", "self",
           "raise_base()", "(1).x", "obj.inner['z' * 1500]", "obj.greet(1, 2, 3)",
           "1 +", "v0 v1", "for", "x " * 100, "(v0", "v0 = 1", "a b (" + "c " * 600 + ")"]
LITERALS = ["", "text", " ", "a b", "100%", "%s", "%(x)s", "é\U0001f600", "'quoted'", "\n", ":", "!", "[deep]", "$", "\\", "\t",
            "\ud800"]


def template():
    seg = st.one_of(
        st.tuples(st.just("lit"), st.sampled_from(LITERALS)).map(list),
        st.tuples(st.just("lit"), st.text(alphabet=st.characters(exclude_characters="{}", codec="utf-8"), max_size=6)).map(list),
        st.just(["open"]), st.just(["close"]),
        st.tuples(st.just("f"), st.sampled_from(EXPRS)).map(list),
        st.tuples(st.just("f"), st.sampled_from(EXPRS)).map(list),
        st.tuples(st.just("f"), st.sampled_from(FAILING)).map(list),
    )
    return st.lists(seg, max_size=7)


def assemble(segs):
    """Template text, read from left to right: two braces are an escaped one, one brace starts a field."""
    out, fields = "", []
    for s in segs:
        if s[0] == "lit":
            t = s[1]
        elif s[0] == "open":
            t = "{{"
        elif s[0] == "close":
            t = "}}"
        else:
            e = s[1]
            # `{{'a': 1}}` would read as an escaped brace: a field starts with one brace
            if e.startswith("{"):
                e = " " + e
            if e.endswith("}"):
                e = e + " "
            t = "{%s}" % e
        if s[0] == "f":
            fields.append(("f", t[1:-1]))
        elif s[0] == "lit":
            fields.append(("lit", s[1]))
        else:
            fields.append(("lit", "{" if s[0] == "open" else "}"))
        out += t
    return out, fields


def text_of(value):
    if type(value) is Failed:
        return value.text()
    try:
        return str(value)
    except BaseException:  # noqa: B902
        return None


def matches(parts, text):
    """parts: list of known texts or None (any text). Is `text` their concatenation?"""
    import re
    return re.fullmatch("".join(re.escape(p) if p is not None else ".*" for p in parts), text, re.S) is not None


def raise_base():
    raise KeyboardInterrupt("stop")


def run_template(case):
    template_text, fields = assemble(case["tpl"])
    via = case["via"]
    if via == "service":
        template_text.encode("utf-8", "ignore")
        try:
            template_text.encode("utf-8")
        except UnicodeEncodeError:
            via = "custom"  # text with surrogates cannot come from the service
    vals = values(case["seed"])
    lb = lab.Lab(NAMES, vals, case["style"], hits=2, extra={"G0": "global0", "raise_base": raise_base})
    collect = case["collect"]
    args = {"log_msg": template_text, "fire_count": "2", "fire_period": "0"}
    if not collect:
        args["snapshot"] = "no_collect"
    # the limits of the collection are not limits of the message
    args.update(case.get("limits", {}))
    limit = int(args.get("MAX_STRING_LENGTH", 1024))
    spec = {"id": "tp-log", "path": "prog.py", "line": lb.line, "args": args, "via": via, "watches": case["watches"]}
    other = {"id": "tp-other", "path": "prog.py", "line": lb.line, "via": "service",
             "args": {"log_msg": "other", "snapshot": "no_collect", "fire_count": "-1", "fire_period": "0"}}
    w = World(logger=case["loggers"], decorators=1)
    seen = []
    try:
        w.install([spec, other] if case["order"] else [other, spec])

        def before(frame):
            exp = []
            for kind, t in fields:
                exp.append(t if kind == "lit" else text_of(evaluate(t.strip(), frame)))
            ok = [type(evaluate(t.strip(), frame)) is Failed for kind, t in fields if kind == "f"]
            return exp, ok

        def after(frame, tok, items):
            exp, failed = tok
            exp = ["[deep] "] + exp
            logs = [i for i in items if i["kind"] == "log"]
            mine = [i for i in logs if i["tp"] == spec["rid"]]
            rest = [i for i in logs if i["tp"] != spec["rid"]]
            check(len(mine) == (1 if case["loggers"] else 0), "template %r: %d messages for the tracepoint: %r",
                  template_text, len(mine), [(i["tp"], i["msg"]) for i in logs], sig="log-count")
            if case["loggers"]:
                check([i["tp"] for i in rest] == ["tp-other"], "the other tracepoint logged %r",
                      [(i["tp"], i["msg"]) for i in rest], sig="log-other")
                check(rest[0]["msg"] == "[deep] other", "other message %r", rest[0]["msg"], sig="log-other")
            if mine:
                check(type(mine[0]["msg"]) is str and matches(exp, mine[0]["msg"]),
                      "template %r logged %r, expected %r", template_text, mine[0]["msg"], exp, sig="log-text")
                check(mine[0]["plugin"] == "log0", "message sent to logger %s", mine[0]["plugin"], sig="log-logger")
                check(len({i["ctx"] for i in logs}) == 1, "different context ids in one event", sig="log-ctx")
                check(mine[0]["ctx"] not in seen and mine[0]["ctx"] not in ("tp-log", spec["rid"]),
                      "context id %r is not of this event", mine[0]["ctx"], sig="log-ctx")
                seen.append(mine[0]["ctx"])
            snaps = [i for i in items if i["kind"] == "snap"]
            check(len(snaps) == (1 if collect else 0), "%d snapshots", len(snaps), sig="log-snap")
            if snaps:
                s = snaps[0]["snapshot"]
                check(s.log_msg is not None and matches(exp, s.log_msg), "template %r: snapshot message %r, expected %r",
                      template_text, s.log_msg, exp, sig="log-snaptext")
                if mine:
                    check(s.log_msg == mine[0]["msg"], "snapshot message %r, logged %r", s.log_msg, mine[0]["msg"],
                          sig="log-snaptext")
                    check(s.attributes.get("context") == mine[0]["ctx"], "snapshot context %r, logged %r",
                          s.attributes.get("context"), mine[0]["ctx"], sig="log-ctx")
                check(s.tracepoint.id == spec["rid"], "snapshot of %r", s.tracepoint.id)
                flds = [t for kind, t in fields if kind == "f"]
                lw = [x for x in s.watches if x.source == "LOG"]
                ow = [x for x in s.watches if x.source != "LOG"]
                check([x.expression.strip() for x in lw] == [f.strip() for f in flds],
                      "template %r: log watches %r, fields %r", template_text, [x.expression for x in lw], flds,
                      sig="log-watches")
                check([x.expression for x in ow] == case["watches"], "watches %r", [x.expression for x in ow],
                      sig="log-watches")
                texts = [exp[1:][i] for i, (kind, _) in enumerate(fields) if kind == "f"]
                for x, bad, t in zip(lw, failed, texts):
                    if bad:
                        check(x.result is None and x.error is not None and (t is None or x.error == t),
                              "field %r: result %r error %r, expected error %r", x.expression, x.result, x.error, t,
                              sig="log-watch-error")
                    else:
                        check(x.error is None and x.result is not None and x.result.vid in s.var_lookup,
                              "field %r: error %r", x.expression, x.error, sig="log-watch-value")
                        v = s.var_lookup[x.result.vid]
                        if t is not None and v.type not in ("list", "tuple", "set", "frozenset", "dict"):
                            check(v.value == t[:limit], "field %r recorded as %r, logged %r", x.expression, v.value, t,
                                  sig="log-watch-value")
        lb.run(w, before, after)
        check(len(w.rec.of("log")) == (4 if case["loggers"] else 0), "%d messages over two hits",
              len(w.rec.of("log")), sig="log-count")
        n = len([f for f in fields if f[0] == "f"])
        return {"nontrivial": n >= 1 and len(fields) > n,
                "labels": ["collect" if collect else "log-only", "fields:%d" % min(n, 4), via],
                "observed": {"template": template_text, "message": next(
                    (i["msg"] for i in w.rec.of("log") if i["tp"] == spec["rid"]), None)}}
    finally:
        w.close()


def template_cases():
    return st.fixed_dictionaries({
        "tpl": template(), "seed": st.lists(st.integers(0, 17), min_size=4, max_size=4),
        "collect": st.booleans(), "style": st.sampled_from(lab.STYLES), "via": st.sampled_from(["service", "custom"]),
        "watches": st.lists(st.sampled_from(["v0", "nope", "obj.name"]), max_size=2),
        "loggers": st.sampled_from([1, 1, 1, 2, 0]), "order": st.booleans(),
        "limits": st.one_of(st.just({}), st.fixed_dictionaries({}, optional={
            "MAX_STRING_LENGTH": st.sampled_from(["0", "3", "1100"]), "MAX_COLLECTION_SIZE": st.sampled_from(["0", "1", "20"]),
            "MAX_VAR_DEPTH": st.sampled_from(["0", "1"])}))})


def run_program(case):
    """Log tracepoints in whole programs: one message per permitted hit, text from the paused frame."""
    program = progs.Program(case["prog"])
    lines, fns = tps.executed_lines(program)
    specs = tps.resolve(case["tps"], lines, fns)
    texts = {}
    for s, segs in zip(specs, case["tpls"]):
        s["args"]["log_msg"], fields = assemble(segs)
        texts[s["id"]] = fields
    specs = specs[:len(case["tpls"])]
    w = World()
    try:
        w.install(specs)
        ids = {s["rid"]: s["id"] for s in specs}
        model = Model(specs)
        stats = [0, 0]

        def before(frame, event, arg):
            due, unknown = model.due(frame, event, w.now)
            out = []
            for tp, act in due:
                if act.kind in ("log", "snap"):
                    out.append((tp.spec["id"], ["[deep] "] + [
                        t if k == "lit" else text_of(evaluate(t.strip(), frame)) for k, t in texts[tp.spec["id"]]]))
            return out, {tp.spec["id"] for tp in unknown}

        def after(frame, event, arg, tok, items):
            exp, unknown = tok
            got = [(ids.get(i["tp"], i["tp"]), i["msg"]) for i in items if i["kind"] == "log"]
            got = [g for g in got if g[0] not in unknown]
            check(sorted(g[0] for g in got) == sorted(e[0] for e in exp), "event %s: logged %r, expected %r", event,
                  got, exp, sig="prog-count")
            alone, _ = pair(exp, got, lambda e, g: g[0] == e[0] and matches(e[1], g[1]))
            check(not alone, "event %s: expected %r, logged %r", event, alone[:1], got, sig="prog-text")
            stats[0] += len(exp)
            stats[1] += sum(len(e[1]) > 2 for e in exp)

        tr = Tracer(w, before, after)
        tr.run(program.instantiate())
        check(not tr.raised, "raised into the application: %r", tr.raised[:1])
        return {"nontrivial": stats[1] > 0, "labels": ["logs" if stats[0] else "none"], "observed": {"logs": stats[0]}}
    finally:
        w.close()


PEXPR = ["v0", "v1", "v2", "v3", "a", "b", "len(v1)", "v3['k']", "v1[0]", "nope", "G0", "G1", "{'x': a}", "str(v0)",
         "[q for q in (a, 1)]", "v0 == a", "type(v0).__name__"]


def program_cases():
    seg = st.one_of(st.tuples(st.just("lit"), st.sampled_from(["x=", " ", "100%"])).map(list), st.just(["open"]),
                    st.just(["close"]), st.tuples(st.just("f"), st.sampled_from(PEXPR)).map(list))
    return st.fixed_dictionaries({
        "prog": progs.strategy(st),
        "tps": st.lists(tps.spec(st, watches=False, metrics=False, spans=False, log=True, conds=tps.CONDS,
                                 stages=("line_start", "method_start", "line_capture", "method_capture")),
                        min_size=3, max_size=3),
        "tpls": st.lists(st.lists(seg, min_size=1, max_size=5), min_size=1, max_size=3)})


def run_python_plugin(case):
    """The built-in logger plugin: the message reaches the deep logger with the ids in their places."""
    from deep.api.plugin.python import PythonPlugin
    records = []

    class H(logging.Handler):
        def emit(self, record):
            records.append(record.getMessage())

    logger = logging.getLogger("deep")
    level, handlers = logger.level, list(logger.handlers)
    h = H()
    logger.addHandler(h)
    logger.setLevel(logging.INFO)
    w = World(logger=0)
    try:
        w.config.plugins = w.plugins + [PythonPlugin(config=w.config)]
        msg, fields = assemble(case["tpl"])
        lb = lab.Lab(NAMES, values(case["seed"]), "function")
        spec = {"id": case["id"], "path": "prog.py", "line": lb.line, "via": "service", "args": {"log_msg": msg}}
        w.install([spec])
        exp = []
        lb.run(w, lambda frame: exp.extend(
            ["[deep] "] + [t if k == "lit" else text_of(evaluate(t.strip(), frame)) for k, t in fields]))
        snaps = w.rec.of("snap")
        check(len(snaps) == 1, "%d snapshots", len(snaps))
        snap = snaps[0]["snapshot"]
        ctx = snap.attributes.get("context")
        mine = [r for r in records if r.startswith("[deep] ")]
        check(len(mine) == 1, "messages of the python logger: %r", mine, sig="py-count")
        check(matches(exp + [" ctx=%s tracepoint=%s" % (ctx, case["id"])], mine[0]), "logged %r, expected %r",
              mine[0], exp + [" ctx=%s tracepoint=%s" % (ctx, case["id"])], sig="py-text")
        return {"nontrivial": True, "observed": {"message": mine[0]}}
    finally:
        w.close()
        logger.removeHandler(h)
        logger.setLevel(level)


def plugin_cases():
    seg = st.one_of(st.tuples(st.just("lit"), st.sampled_from(["a", "100% %s %d", "{", " "])).map(
        lambda s: s if s[1] != "{" else ["open"]), st.tuples(st.just("f"), st.sampled_from(["v0", "obj.name", "nope"])).map(list))
    return st.fixed_dictionaries({"tpl": st.lists(seg, min_size=1, max_size=4), "id": st.sampled_from(["tp-1", "x%sy", "id"]),
                                  "seed": st.lists(st.integers(0, 17), min_size=4, max_size=4)})


PARTS = [
    Part("template", run_template, template_cases, quick=8000, thorough=40000, shards=4, thorough_shards=8,
         rule="a template with at least one field and some literal text"),
    Part("crossing", crossing.run, crossing.cases("log"), quick=400, thorough=6000, shards=2, thorough_shards=8,
         exhaustive_cases=crossing.each_switch([{"snap": False, "log": ["tag", "G"]}], 830, 2), rule="the threads were switched inside the agent"),
    Part("program", run_program, program_cases, quick=500, thorough=8000, shards=2, thorough_shards=8,
         rule="a template with fields is due at some event"),
    Part("python_plugin", run_python_plugin, plugin_cases, quick=200, thorough=2000, shards=1,
         rule="every case logs one message"),
]
