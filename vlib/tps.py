"""Generated tracepoint configurations."""
import os
import sys

from . import progs

EXPRS = ["v0", "v1", "v2", "v3", "a", "b", "self", "G0", "G1", "len(v1)", "v0 + 1", "v3['k']", "v1[0]", "nope", "1/0",
         "[q for q in (v0, 1)]", "(lambda: v2)()", "str(v0)", "__name__", "err", "{'x': v0}", "v2.upper()", "F",
         "sorted([3, 1])", "v0 if v1 else v2", "trigger_context", "frame", "logging", "deep", "x =", "", "()",
         "sum(i for i in range(3) if i != v0)", "type(v2).__name__", "self.x", "int('z')",
         "'a#b'", "v0 # it", "\nv0", "v0\n", "v0;", "f'{v0}{{x}}'", "(w := v0)", "(yield)", "# v0", "v1[\n0]"]

CONDS = [None, None, None, "", "True", "False", "v0 == 1", "a > 0", "nope > 1", "1/0", "len(v1) == 2", "v2 == 'text'",
         "a is not None", "isinstance(v0, int)", "v3['k'] == 1", "1", "0", "None", "not v1", "any(q == a for q in range(3))",
         "deep is not None", "G0.endswith('prog.py')", "x ="]

LOGS = ["plain", "v0={v0} v1={v1}", "{{literal}} {v2}", "{nope} and {a}", "", "{1/0}", "t {v0!r} {a:>4}", "{v3['k']}",
        "100% {G0}", "{a}{b}"]


def metric(st):
    label = st.fixed_dictionaries({"key": st.sampled_from(["l1", "l2", "l3"])}, optional={
        "static": st.sampled_from(["s", 3, 2.5, True, ""]), "expr": st.sampled_from(EXPRS)})
    return st.fixed_dictionaries({
        "name": st.sampled_from(["m1", "m2", "m3"]), "type": st.sampled_from(["COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"]),
        "labels": st.lists(label, max_size=3, unique_by=lambda d: d["key"]),
    }, optional={"expr": st.sampled_from(EXPRS + ["a * 2", "3.5", "'7'", "True", "'x'"]),
                 "ns": st.sampled_from(["ns", ""]), "help": st.sampled_from(["help me", ""]), "unit": st.sampled_from(["ms", ""])})


def where(st):
    return st.one_of(
        st.tuples(st.just("hit"), st.integers(0, 60)).map(list),
        st.tuples(st.just("hit"), st.integers(0, 60)).map(list),
        st.tuples(st.just("line"), st.integers(0, 1), st.integers(1, 70)).map(list),
        st.tuples(st.just("fn"), st.integers(0, 1), st.integers(0, 11)).map(list),
        st.tuples(st.just("fn"), st.integers(0, 1), st.integers(0, 11)).map(list),
    )


def args(st, limits=True, need_cond=False, stages=("line_start", "line_end", "line_capture", "method_start", "method_end",
                                  "method_capture"), spans=True, log=True, conds=None, frame_types=True):
    opt = {}
    if log:
        opt["log_msg"] = st.sampled_from(LOGS)
        opt["snapshot"] = st.sampled_from(["no_collect", "collect", "no_collect"])
    if spans:
        opt["span"] = st.sampled_from(["line", "method"])
    if limits:
        opt["fire_count"] = st.sampled_from(["-1", "1", "2", "3", "0", "x", ""])
        opt["fire_period"] = st.sampled_from(["0", "1", "1000", "x", "-5"])
    if conds is not None:
        opt["condition"] = st.sampled_from([c for c in conds if c is not None])
    if stages:
        opt["stage"] = st.sampled_from(stages)
    if frame_types:
        opt["frame_type"] = st.sampled_from(["single_frame", "all_frame", "no_frame", "other"])
    need = {}
    if need_cond:
        need["condition"] = opt.pop("condition")
    return st.fixed_dictionaries(need, optional=opt)


def spec(st, watches=True, metrics=True, custom=True, **kw):
    d = {"where": where(st), "args": args(st, **kw)}
    opt = {}
    if watches:
        opt["watches"] = st.lists(st.sampled_from(EXPRS), max_size=3)
    if metrics:
        opt["metrics"] = st.lists(metric(st), min_size=1, max_size=2)
    if custom:
        opt["via"] = st.sampled_from(["service", "custom"])
    return st.fixed_dictionaries(d, optional=opt)


def executed_lines(program, values=None):
    """(basename, line) and (basename, function) that a run reaches, sorted."""
    lines, fns, top = set(), set(), set()
    inst = program.instantiate(values)

    def tr(frame, event, arg):
        fn = frame.f_code.co_filename
        if fn in progs.FILES:
            base = os.path.basename(fn)
            if event == "line":
                (top if frame.f_code.co_name in ("<module>", "main") else lines).add((base, frame.f_lineno))
            elif event == "call":
                fns.add((base, frame.f_code.co_name))
        return tr

    import threading

    def start():
        sys.settrace(tr)
        threading.settrace(tr)

    def stop():
        sys.settrace(None)
        threading.settrace(None)
    inst.run_main_thread_safe(start, stop)
    # lines of function bodies are more interesting than those of modules
    body = sorted(lines)
    return body * 3 + sorted(top), sorted(fns)


BASES = ["prog.py", "other.py"]


def resolve(abstract, lines, fns, unlimited=False, keep_stage=False):
    """Concrete specs from abstract ones, for a program that reaches the given lines and functions."""
    out = []
    for i, s in enumerate(abstract):
        s = {k: v for k, v in s.items()}
        w = s.pop("where")
        a = dict(s.get("args", {}))
        s["args"] = a
        s["id"] = "tp%d" % i
        stage = a.get("stage", "")
        if w[0] == "fn":
            if w[2] >= 10 or not fns:
                base, name = BASES[w[1]], "missing"
            else:
                base, name = fns[w[2] % len(fns)]
            s["path"], s["line"] = base, 1
            a["method_name"] = name
            if stage.startswith("line") and not keep_stage:
                a["stage"] = stage.replace("line", "method")
        else:
            if w[0] == "hit" and lines:
                s["path"], s["line"] = lines[w[1] % len(lines)]
            else:
                s["path"], s["line"] = BASES[w[1] % 2], w[-1]
            if not keep_stage:
                if stage.startswith("method"):
                    a["stage"] = stage.replace("method", "line")
                if a.get("span") == "method" and "stage" not in a:
                    a["stage"] = "line_start"
        if unlimited:
            a["fire_count"], a["fire_period"] = "-1", "0"
        out.append(s)
    return out


def leaves_generators(program):
    """Can the program drop a generator that has not ended?

    When an object is destroyed while the trace function runs, Python does not trace its finaliser, so two runs of such a program need
    not show the same events.
    """
    shape = not program.prog["funcs"]
    return any(" = asgen(" in s or shape and ("yield" in s or "__del__" in s) for s in program.sources.values())
