"""Snapshots of generated object graphs: a lab run with several tracepoints, each snapshot compared with its reference."""
from . import lab, snapref, values
from .core import check
from .world import World

NAMES = ["v0", "v1", "v2", "_p", "__q", "self", "é", "a", "items", "type", "Size", "locals"]
WATCHES = ["{n}", "{n}", "[{n}, {m}]", "({n},)", "{{'k': {n}, 'm': {n}}}", "{n}.x", "len({n})", "nope", "{n}[0]", "V", "[[[[[{n}]]]]]",
           "(lambda: {n})", "iter([{n}])", "dict(a={n})", "[{n}] * 3", "{n}['k0']", "{n}.args", "str({n})", "{n}.__dict__", "type({n})",
           "[[{n}], [{m}], {n}, {m}]", "1/0", "x =", "None", "'y' * 1500", "{n}.items()", "list(range(30))", "{{1, 2}}", "[V, [V]]", "self"]
LOGS = ["plain", "{{{n}}}", "{{{n}}} {{nope}} {{[{m}]}}", ""]
STYLES = ["function", "method", "module", "class", "closure", "gen"]


def fields_of(log):
    return [] if log is None else [p.split("}")[0] for p in log.split("{")[1:]]


def specs_of(case, lb):
    """Concrete tracepoints of a case."""
    names = lb.names or ["V"]
    out = []
    for i, t in enumerate(case["tps"]):
        fill = lambda e: e.format(n=names[t["n"] % len(names)], m=names[t["m"] % len(names)])  # noqa: E731
        a = {"fire_count": "-1", "fire_period": "0", **t.get("args", {})}
        s = {"id": "tp%d" % i, "path": "prog.py", "line": lb.line, "args": a, "watches": [fill(w) for w in t["watches"]],
             "via": t.get("via", "service")}
        if t.get("log") is not None:
            a["log_msg"] = fill(t["log"])
            s["log_fields"] = fields_of(a["log_msg"])
        if t.get("cond"):
            a["condition"] = t["cond"]
        out.append(s)
    return out


def run(case, cfg=None, judge=None, convert=True, extra_world=None, meta=False):
    """Returns statistics. judge(ref, snap, result) may check more."""
    objs = values.build(case["graph"])
    names = [NAMES[i] for i in dict.fromkeys(case["names"])]
    vals = [objs[r % len(objs)] for r in case["refs"]][:len(names)] if objs else []
    names = names[:len(vals)]
    hits = case.get("hits", 1)
    lb = lab.Lab(names, vals, case["style"], hits=hits)
    specs = specs_of(case, lb)
    cfg = dict(cfg or {"APP_ROOT": "/app"})
    w = World(cfg, **(extra_world or {}))
    stats = {"entries": 0, "expanded": 0, "placeholders": 0, "shared": 0, "cut": 0, "partial": 0, "snaps": 0}
    dumps = []
    try:
        w.install(specs)

        def before(frame):
            return snapref.Ref.many(frame, specs, cfg, now=w.now)

        def after(frame, refs, items):
            snaps = [i["snapshot"] for i in items if i["kind"] == "snap"]
            by_id = {}
            for s in snaps:
                by_id.setdefault(s.tracepoint.id, []).append(s)
            for ref in refs:
                got = by_id.pop(ref.spec["rid"], [])
                check(len(got) == 1, "%d snapshots of tracepoint %s, one is due (the graph is %s)", len(got), ref.spec["id"],
                      case["graph"], sig="due")
                r = snapref.compare(ref, got[0], meta=meta)
                for k in ("entries", "expanded", "placeholders", "shared", "cut", "partial"):
                    stats[k] += r[k]
                stats["snaps"] += 1
                named = dict(got[0].attributes).get("tracepoint", got[0].tracepoint.id)
                check(named == got[0].tracepoint.id, "the attributes of the snapshot of tracepoint %s name the tracepoint %s", got[0].tracepoint.id, named, sig="attributes")
                dumps.append((got[0], snapref.dump(got[0])))
                if judge:
                    judge(ref, got[0], r)
            check(not by_id, "snapshots of %s are not due", list(by_id), sig="due")

        def each(h):
            w.now += 5_000_000
        lb.run(w, before, after, each)
        check(stats["snaps"] == hits * len(specs), "%d snapshots, %d are due", stats["snaps"], hits * len(specs), sig="due")
        for s, d in dumps:
            check(snapref.dump(s) == d, "a snapshot changed after it was delivered", sig="changed-later")
        if convert:
            from deep.push import convert_snapshot
            for s, d in dumps:
                p = convert_snapshot(s)
                check(p is not None, "a snapshot cannot be converted for delivery", sig="not-delivered")
                check(len(p.var_lookup) == len(d[2]) and len(p.frames) == len(d[1]) and len(p.watches) == len(d[3]),
                      "the message has %d variables, %d frames and %d watches; the snapshot %d, %d and %d", len(p.var_lookup),
                      len(p.frames), len(p.watches), len(d[2]), len(d[1]), len(d[3]), sig="message")
                p.SerializeToString()
        return stats
    finally:
        w.close()


def args(st, limits=None, frame_types=True):
    opt = {}
    if frame_types:
        opt["frame_type"] = st.sampled_from(["single_frame", "all_frame", "no_frame", "single_frame"])
    opt.update(limits or {})
    return st.fixed_dictionaries({}, optional=opt).map(
        lambda a: {**a, "MAX_VARIABLES": a.get("MAX_VARIABLES", "100000")} if a.get("frame_type") == "all_frame" else a)


def cases(st, graph, limits=None, frame_types=True, ntps=3, watches=3, logs=True, hits=2, min_tps=1, styles=STYLES, names=7, nwatch=None):
    opt = {"via": st.sampled_from(["service", "custom"])}
    if logs:
        opt["log"] = st.sampled_from(LOGS)
    tp = st.fixed_dictionaries({"args": args(st, limits, frame_types), "n": st.integers(0, 6), "m": st.integers(0, 6),
                                "watches": st.lists(st.sampled_from(nwatch or WATCHES), max_size=watches)}, optional=opt)
    return st.fixed_dictionaries({
        "graph": graph, "names": st.lists(st.integers(0, len(NAMES) - 1), min_size=1, max_size=names, unique=True),
        "refs": st.lists(st.integers(0, 20), min_size=names, max_size=names), "style": st.sampled_from(styles),
        "hits": st.integers(1, hits), "tps": st.lists(tp, min_size=min_tps, max_size=ntps)})
