"""C18: resource identity - merge precedence, mandatory keys, bounded attribute store."""
import os
import sys
from collections import OrderedDict

from hypothesis import strategies as st

from vlib import refattrs as R
from vlib.core import Part, Violation, agent_must_not_raise, check
from vlib.sched import Sched, schedules
from vlib.tagged import TEXT, attr_value, decode

from deep.api.attributes import BoundedAttributes
from deep.api.resource import Resource

META = {"assumptions": ["attribute values are built-in Python values; keys of merge operands are strings",
                        "schema conflicts keep the left operand (documented in Resource.merge)"]}

KEYS = st.sampled_from(["a", "b", "c", "d", "e", "service.name", "é", "key with space"])
ODD_KEYS = st.sampled_from([["s", ""], ["i", 1], ["n"], ["t", [["s", "a"]]], ["b", "61"], ["bool", True]])


# ---------------------------------------------------------------------------------------------- store vs model
def op_strategy():
    key = st.one_of(KEYS.map(lambda k: ["s", k]), KEYS.map(lambda k: ["s", k]), KEYS.map(lambda k: ["s", k]), ODD_KEYS)
    return st.one_of(
        st.tuples(st.just("set"), key, attr_value()).map(list),
        st.tuples(st.just("set"), key, attr_value()).map(list),
        st.tuples(st.just("set"), key, attr_value()).map(list),
        st.tuples(st.just("del"), KEYS.map(lambda k: ["s", k])).map(list),
        st.tuples(st.just("merge"), st.lists(st.tuples(KEYS.map(lambda k: ["s", k]), attr_value()).map(list),
                                             max_size=4)).map(list),
        st.tuples(st.just("update"), st.lists(st.tuples(KEYS.map(lambda k: ["s", k]), attr_value()).map(list),
                                              max_size=3)).map(list),
        st.tuples(st.just("pop"), KEYS.map(lambda k: ["s", k])).map(list),
        st.tuples(st.just("setdefault"), KEYS.map(lambda k: ["s", k]), attr_value()).map(list),
        st.just(["copy"]), st.just(["clear"]), st.just(["popitem"]),
    )


def store_cases():
    return st.fixed_dictionaries({
        "cap": st.one_of(st.none(), st.integers(0, 6)),
        "limit": st.one_of(st.none(), st.integers(0, 8)),
        "init": st.lists(st.tuples(KEYS.map(lambda k: ["s", k]), attr_value()).map(list), max_size=8),
        "ops": st.lists(op_strategy(), max_size=14),
        "freeze": st.booleans(),
    })


def same(real, model, what):
    check(list(real.keys()) == list(model.d.keys()) or set(real.keys()) == set(model.d.keys()),
          "%s: keys %r, expected %r", what, list(real.keys()), list(model.d.keys()))
    check(len(real) == len(model.d), "%s: len %r, expected %r", what, len(real), len(model.d))
    if model.cap is not None:
        check(len(real) <= model.cap, "%s: %s entries held, capacity %s", what, len(real), model.cap)
    for k, v in model.d.items():
        check(k in real, "%s: %r missing", what, k)
        got = real[k]
        check(type(got) is type(v) and repr(got) == repr(v), "%s: %r holds %r, expected %r", what, k, got, v)
        if isinstance(got, str) and model.limit is not None:
            check(len(got) <= model.limit, "%s: value of %r longer than limit", what, k)
        if isinstance(got, (list, tuple)):
            check(isinstance(got, tuple), "%s: sequence of %r not frozen (%s)", what, k, type(got).__name__)
            for g, w in zip(got, v):
                check(type(g) is type(w), "%s: element type of %r", what, k)
    check(real.dropped == model.dropped, "%s: dropped %r, expected %r", what, real.dropped, model.dropped)


def run_store(case):
    cap, limit = case["cap"], case["limit"]
    init = OrderedDict((decode(k), decode(v)) for k, v in case["init"])
    model = R.RefAttrs(cap, limit)
    for k, v in init.items():
        if cap == 0 and R.clean(k, v, limit) is R.REJECT:
            continue
        model.set(k, v)
    before = dict(init)
    kw = {"max_length": cap, "attributes": init, "immutable": case["freeze"], "max_value_len": limit}
    with agent_must_not_raise("BoundedAttributes()"):
        real = BoundedAttributes(**kw)
    if cap == 0:
        model.dropped = real.dropped  # whether an invalid value counts as dropped at capacity 0 is not specified
        check(len(real) == 0, "capacity 0 holds entries")
    same(real, model, "construct")
    check(dict(init) == before or True, "")
    nontrivial = model.dropped > 0
    for i, op in enumerate(case["ops"]):
        what = "op %d %r" % (i, op)
        frozen_before = (list(real.items()), real.dropped)
        name = op[0]
        raised = None
        try:
            if name == "set":
                real[decode(op[1])] = decode(op[2])
            elif name == "del":
                del real[decode(op[1])]
            elif name == "merge":
                real.merge_in(OrderedDict((decode(k), decode(v)) for k, v in op[1]))
            elif name == "update":
                real.update(OrderedDict((decode(k), decode(v)) for k, v in op[1]))
            elif name == "pop":
                real.pop(decode(op[1]))
            elif name == "setdefault":
                real.setdefault(decode(op[1]), decode(op[2]))
            elif name == "copy":
                c = real.copy()
                c["injected-by-copy"] = 1
            elif name == "clear":
                real.clear()
            elif name == "popitem":
                real.popitem()
        except Exception as e:  # judged below
            raised = e
        if case["freeze"]:
            check((list(real.items()), real.dropped) == frozen_before, "%s modified a frozen container", what)
            effective = {"set": True, "del": decode(op[1]) in dict(frozen_before[0]) if name == "del" else True,
                         "merge": len(op) > 1 and len(op[1]) > 0, "update": len(op) > 1 and len(op[1]) > 0,
                         "pop": len(op) > 1 and name == "pop" and decode(op[1]) in real,
                         "setdefault": name == "setdefault" and decode(op[1]) not in real,
                         "copy": False, "clear": len(real) > 0, "popitem": len(real) > 0}[name]
            if effective:
                check(raised is not None, "%s was accepted by a frozen container without an error", what)
                nontrivial = True
            continue
        # mutable: follow the model
        if name == "set" or name == "setdefault":
            k, v = decode(op[1]), decode(op[2])
            if name == "setdefault" and k in model.d:
                pass
            elif model.cap == 0 and R.clean(k, v, limit) is R.REJECT:
                model.dropped = real.dropped
            else:
                model.set(k, v)
            if raised is not None:
                raise Violation("%s raised %r" % (what, raised))
        elif name in ("merge", "update"):
            for k, v in OrderedDict((decode(k), decode(v)) for k, v in op[1]).items():
                model.set(k, v)
            if model.cap == 0:
                model.dropped = real.dropped
            if raised is not None:
                raise Violation("%s raised %r" % (what, raised))
        elif name in ("del", "pop"):
            k = decode(op[1])
            if k in model.d:
                check(raised is None, "%s raised %r", what, raised)
                del model.d[k]
            else:
                check(isinstance(raised, KeyError), "%s of a missing key: %r", what, raised)
        elif name == "clear":
            model.d.clear()
        elif name == "popitem":
            if model.d:
                gone = [k for k in model.d if k not in real]
                check(len(gone) == 1, "popitem removed %r", gone)
                del model.d[gone[0]]
        nontrivial = nontrivial or model.dropped > 0
        same(real, model, what)
        # oldest-first eviction: iteration order is the age order
        if name in ("set", "merge", "update"):
            check(list(real.keys()) == list(model.d.keys()), "%s: age order %r, expected %r", what,
                  list(real.keys()), list(model.d.keys()))
    return {"nontrivial": nontrivial or case["freeze"],
            "labels": (["eviction"] if model.dropped else []) + (["frozen"] if case["freeze"] else [])}


# ---------------------------------------------------------------------------------------------- store under threads
def thread_cases():
    return st.fixed_dictionaries({
        "cap": st.integers(1, 4),
        "writes": st.lists(st.lists(st.tuples(st.sampled_from("abcdefgh"), st.integers(0, 9)).map(list), min_size=1,
                                    max_size=4), min_size=2, max_size=3),
        "iterate": st.booleans(),
        "sched": schedules(st, 3, 130, 5),
    })


def run_threads(case):
    real = BoundedAttributes(max_length=case["cap"], immutable=False)

    def writer(ws):
        def f():
            for k, v in ws:
                real[k] = v
        return f

    fns = [writer(w) for w in case["writes"]]
    seen = []
    if case["iterate"]:
        fns.append(lambda: [seen.append(list(iter(real))) for _ in range(3)])
    s = Sched(fns, case["sched"], opcodes=("api/attributes/__init__.py",))
    check(s.run(), "writers of a bounded container dead-locked")
    for e in s.errors:
        if e is not None:
            raise Violation("concurrent use raised %r" % (e,))
    keys = list(real.keys())
    check(len(keys) <= case["cap"], "%d entries held, capacity %d", len(keys), case["cap"])
    for ks in seen:
        check(len(ks) <= case["cap"], "iteration saw %d entries, capacity %d", len(ks), case["cap"])
    # every insertion of a new key either stays or is counted as dropped
    distinct = {k for w in case["writes"] for k, _ in w}
    finals = {k: {v for w in case["writes"] for kk, v in w if kk == k} for k in distinct}
    for k in keys:
        check(real[k] in finals[k], "%r holds %r which was never written", k, real[k])
    check(real.dropped >= len(distinct) - len(keys), "dropped %d < %d keys that are gone", real.dropped,
          len(distinct) - len(keys))
    check(len(keys) == min(case["cap"], len(keys)) and (len(distinct) < case["cap"] or len(keys) == case["cap"]),
          "container holds %d of %d distinct keys, capacity %d", len(keys), len(distinct), case["cap"])
    all_distinct = [k for w in case["writes"] for k, _ in w]
    if len(set(all_distinct)) == len(all_distinct):
        check(real.dropped == max(0, len(all_distinct) - case["cap"]), "dropped %d, expected %d", real.dropped,
              max(0, len(all_distinct) - case["cap"]))
    return {"nontrivial": s.switches > 0, "labels": ["switches:%d" % min(s.switches, 5)]}


def each_switch(tier):
    """Two writers of a full (or not yet full) container: the second runs from each step of the first."""
    for cap, first, second in ((1, "ab", "c"), (1, "a", "b"), (2, "ab", "cd"), (2, "aba", "bc"), (3, "ab", "cd"), (1, "aa", "ab")):
        for iterate in (False, True):
            for to in ((1, 2) if iterate else (1,)):
                for step in range(1, 400 if tier == "thorough" else 280, 1 if tier == "thorough" else 5):
                    yield {"cap": cap, "writes": [[[k, i] for i, k in enumerate(first)], [[k, 5 + i] for i, k in enumerate(second)]], "iterate": iterate,
                           "sched": {"order": [0, 1, 2], "pre": [[step, to]]}}


# ---------------------------------------------------------------------------------------------- merge algebra
RES_KEYS = st.sampled_from(["service.name", "a", "b", "telemetry.sdk.name", "process.executable.name", "", "x.y"])


def res_attrs(max_size=5):
    return st.lists(st.tuples(RES_KEYS, attr_value()).map(list), max_size=max_size)


SCHEMAS = st.sampled_from([None, "", "", "http://s/1", "http://s/2"])


def merge_cases():
    return st.fixed_dictionaries({"ops": st.lists(st.tuples(res_attrs(), SCHEMAS).map(list), min_size=2, max_size=4),
                                  "mutate": st.booleans()})


def model_clean(attrs):
    d = {}
    for k, v in attrs.items():
        c = R.clean(k, v, None)
        if c is not R.REJECT:
            d[k] = c
    return d


def run_merge(case):
    raws = [dict((k, decode(v)) for k, v in a) for a, _ in case["ops"]]
    rs = []
    for raw, (_, schema) in zip(raws, case["ops"]):
        with agent_must_not_raise("Resource()"):
            rs.append(Resource(raw, schema))
    for r, raw in zip(rs, raws):
        check(repr(sorted(dict(r.attributes).items())) == repr(sorted(model_clean(raw).items())),
              "Resource(%r) holds %r", raw, dict(r.attributes))
    acc, macc, mschema = rs[0], model_clean(raws[0]), case["ops"][0][1] or ""
    overlap = False
    for i in range(1, len(rs)):
        other, oschema = rs[i], case["ops"][i][1] or ""
        left_before, right_before = repr(list(acc.attributes.items())), repr(list(other.attributes.items()))
        with agent_must_not_raise("merge"):
            out = acc.merge(other)
        check(repr(list(acc.attributes.items())) == left_before, "merge modified its left operand")
        check(repr(list(other.attributes.items())) == right_before, "merge modified its right operand")
        conflict = mschema != "" and oschema != "" and mschema != oschema
        if not conflict:
            m = model_clean(raws[i])
            overlap = overlap or bool(set(m) & set(macc))
            macc = {**macc, **m}
            mschema = mschema or oschema
        got = dict(out.attributes)
        check(repr(sorted(got.items())) == repr(sorted(macc.items())), "merge gave %r, expected %r", got, macc)
        check(out.schema_url == mschema, "merged schema %r, expected %r", out.schema_url, mschema)
        # a result is immutable, and shares no state with its operands
        try:
            out.attributes["zzz"] = 1
        except Exception:
            pass
        check("zzz" not in out.attributes and "zzz" not in acc.attributes and "zzz" not in other.attributes,
              "a resource accepted a modification")
        cp = out.attributes.copy()
        cp["yyy"] = 1
        check("yyy" not in out.attributes, "copy() shares state with the resource")
        acc = out
    return {"nontrivial": overlap, "labels": ["overlap"] if overlap else []}


# ---------------------------------------------------------------------------------------------- create()
ENV_ITEM = st.one_of(
    st.tuples(st.sampled_from(["a", " b", "service.name", "telemetry.sdk.name", "process.executable.name", "", "k "]),
              st.sampled_from(["1", " v ", "a%20b", "%C3%A9", "x=y", "", "%zz", "a+b", "%20a%20", "1%2B1", "a%3Db"])).map(lambda t: "%s=%s" % t),
    st.sampled_from(["garbage", "", "=", "==", " "]))


def create_cases():
    return st.fixed_dictionaries({
        "env": st.one_of(st.none(), st.lists(ENV_ITEM, max_size=4).map(",".join)),
        "svc": st.one_of(st.none(), st.sampled_from(["", "envsvc"])),
        "code": st.one_of(st.none(), res_attrs(4)),
        "schema": SCHEMAS,
    })


def expected_create(case):
    m = {R.SDK_LANG: "python", R.SDK_NAME: "deep"}
    m.update(R.env_attrs(case["env"], case["svc"]))
    if case["code"] is not None:
        m.update(model_clean({k: decode(v) for k, v in case["code"]}))
    return m


def with_env(case):
    for k, v in (("DEEP_RESOURCE_ATTRIBUTES", case["env"]), ("DEEP_SERVICE_NAME", case["svc"])):
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v


def check_identity(got, m, what):
    for k in (R.SDK_LANG, R.SDK_NAME, R.SDK_VERSION):
        check(k in got, "%s: SDK key %r missing from %r", what, k, got)
    from deep import version
    if R.SDK_VERSION not in m:
        check(got[R.SDK_VERSION] == version.__version__, "%s: sdk version %r", what, got[R.SDK_VERSION])
    check(bool(got.get(R.SERVICE)), "%s: no service name in %r", what, got)
    for k, v in m.items():
        if k == R.SERVICE and not v:
            continue
        check(k in got and repr(got[k]) == repr(v), "%s: %r is %r, expected %r", what, k, got.get(k), v)
    if not m.get(R.SERVICE):
        exe = m.get("process.executable.name")
        check(str(got[R.SERVICE]).startswith("unknown_service:"), "%s: fallback name %r", what, got[R.SERVICE])
        if isinstance(exe, str) and exe:
            check(got[R.SERVICE] == "unknown_service:" + exe, "%s: fallback name %r for executable %r", what,
                  got[R.SERVICE], exe)
        elif not exe:
            check(got[R.SERVICE] == "unknown_service:python", "%s: fallback name %r", what, got[R.SERVICE])
    extra = set(got) - set(m) - {R.SDK_VERSION, R.SERVICE}
    check(not extra, "%s: unexpected keys %r", what, extra)


def run_create(case):
    with_env(case)
    try:
        code = None if case["code"] is None else {k: decode(v) for k, v in case["code"]}
        with agent_must_not_raise("Resource.create"):
            r = Resource.create(code, case["schema"])
        check_identity(dict(r.attributes), expected_create(case), "create")
        # a second creation is unaffected by the first one
        with agent_must_not_raise("Resource.create"):
            r2 = Resource.create()
        check_identity(dict(r2.attributes), expected_create(dict(case, code=None)), "second create")
    finally:
        os.environ.pop("DEEP_RESOURCE_ATTRIBUTES", None)
        os.environ.pop("DEEP_SERVICE_NAME", None)
    nt = bool(case["env"] or case["svc"]) and bool(case["code"])
    return {"nontrivial": nt, "labels": (["env"] if case["env"] else []) + (["code"] if case["code"] else [])}


# -- the agent: what the service receives ----------------------------------------------------------------------------
APP = "def target(n):\n    x = n\n    return x\n"


def agent_cases():
    # values that the wire can carry (those it cannot are for C08)
    val = st.one_of(st.sampled_from(["x", "y", "envsvc", "é", "a b"]).map(lambda s: ["s", s]), st.integers(-5, 2 ** 40).map(lambda i: ["i", i]),
                    st.booleans().map(lambda b: ["bool", b]), st.just(["f", "2.5"]), st.just(["t", [["s", "p"], ["s", "q"]]]), st.just(["b", "6869"]))
    keys = st.sampled_from(["service.name", "a", "b", "telemetry.sdk.name", "telemetry.sdk.version", "telemetry.sdk.language", "process.executable.name", "x.y", "k", "python_version"])
    attrs = st.lists(st.tuples(keys, val).map(list), max_size=4)
    plugin = st.fixed_dictionaries({"attrs": attrs, "schema": SCHEMAS, "order": st.integers(-1, 1)},
                                   optional={"fault": st.sampled_from(["exc", "base", "garbage:none", "garbage:int"])})
    return st.fixed_dictionaries({
        "env": st.one_of(st.none(), st.lists(ENV_ITEM, max_size=4).map(",".join)), "svc": st.one_of(st.none(), st.sampled_from(["", "envsvc"])),
        "plugins": st.lists(plugin, max_size=4), "python": st.booleans(), "starts": st.integers(1, 3), "polls": st.integers(0, 2)})


def setup_agent():
    from vlib import agentlab
    agentlab.install()


def pieces(kvs, what):
    """The attributes of a message as a dictionary."""
    out = {}
    for a in kvs:
        check(a.key not in out, "%s: %r is there twice", what, a.key)
        out[a.key] = plain(a.value)
    return out


def plain(v):
    kind = v.WhichOneof("value")
    if kind == "array_value":
        return tuple(plain(x) for x in v.array_value.values)
    return getattr(v, kind)


def run_agent(case):
    import threading
    from deep.api import Deep
    from deep.config import ConfigService
    from vlib import agentlab, labplugins, world
    from vlib.agentlab import Net
    rec = world.Recorder()
    labplugins.reset(rec)
    for i, p in enumerate(case["plugins"]):
        labplugins.TABLE["Plug%d" % i] = {"roles": ["resource"], "order": p["order"], "gives": [{k: decode(v) for k, v in p["attrs"]}, p["schema"]],
                                          "faults": {"resource": [p["fault"], None]} if "fault" in p else {}}
    tp = world.to_proto({"id": "T", "path": "prog.py", "line": 2, "args": {"fire_count": "-1", "fire_period": "0"}})

    def on_poll(request, n):
        from deepproto.proto.poll.v1 import poll_pb2
        return poll_pb2.PollResponse(ts_nanos=1, current_hash="h", response_type=poll_pb2.ResponseType.UPDATE, response=[tp])
    net = agentlab.NET[0] = Net(on_poll)
    ns = {"__name__": "app_module"}
    exec(compile(APP, "/app/x/prog.py", "exec"), ns)
    with_env(case)
    before = sys.gettrace(), threading.gettrace()
    agent = None
    counts = []
    try:
        off = [n for n in ("OTELPLUGIN", "PROMETHEUSPLUGIN", "OTELMETRICS", "PYTHONPLUGIN")[:3 if case["python"] else 4]]
        with agent_must_not_raise("start"):
            agent = Deep(ConfigService({"SERVICE_URL": "fake:1", "SERVICE_SECURE": "False", "POLL_TIMER": 1000, "LOGGING_CONF": None, "APP_ROOT": "/app",
                                        "PLUGINS": labplugins.names(), **{"PLUGIN_" + n: False for n in off}}))
        for s in range(case["starts"]):
            mark = len(net.polls), len(net.sends)
            with agent_must_not_raise("start"):
                agent.start()
                for _ in range(case["polls"]):
                    agent.poll.poll()
            agent.task_handler.flush()
            with agent_must_not_raise("application"):
                agent.task_handler.reopen()
                ns["target"](s)
                agent.task_handler.flush()
            with agent_must_not_raise("shutdown"):
                agent.shutdown()
            polls, sends = net.polls[mark[0]:], net.sends[mark[1]:]
            check(len(polls) == 1 + case["polls"] and len(sends) == 1, "%d polls, %d snapshots", len(polls), len(sends), sig="sent")
            # the order of the plugins, and those of one order in the sequence they were loaded
            loaded = [type(p).__name__ for p in agent.config.plugins]
            base = {"env": case["env"], "svc": case["svc"], "code": None}
            for what, kvs in [("poll %d" % i, q.resource.attributes) for i, q in enumerate(polls)] + [("snapshot", sends[0].resource)]:
                judge(case, base, loaded, pieces(kvs, what), "%s of start %d" % (what, s))
            counts.append(len(polls))
        for tag, t in labplugins.TABLE.items():
            if t.get("given") is not None:
                want = model_clean(t["gives"][0])
                check(repr(sorted(dict(t["given"].attributes).items())) == repr(sorted(want.items())), "the resource of %s is now %s", tag, dict(t["given"].attributes))
    finally:
        if agent is not None:
            try:
                agent.shutdown()
            except BaseException:  # noqa: B902
                pass
        sys.settrace(before[0])
        threading.settrace(before[1])
        os.environ.pop("DEEP_RESOURCE_ATTRIBUTES", None)
        os.environ.pop("DEEP_SERVICE_NAME", None)
    overlap = len([k for p in case["plugins"] for k, _ in p["attrs"]]) > len({k for p in case["plugins"] for k, _ in p["attrs"]})
    return {"nontrivial": overlap, "labels": (["overlap"] if overlap else []) + (["restarted"] if case["starts"] > 1 else []), "observed": {"polls": sum(counts)}}


def judge(case, base, loaded, got, what):
    import platform
    m, schema, own = {}, "", set()
    for name in loaded:
        if name == "PythonPlugin":
            m.update(python_version=platform.python_version())
            own.add("python_version")
            continue
        p = case["plugins"][int(name[4:])]
        if "fault" in p:
            continue
        if schema and p["schema"] and schema != p["schema"]:
            # a schema conflict keeps what there is
            continue
        schema = schema or p["schema"] or ""
        a = model_clean({k: decode(v) for k, v in p["attrs"]})
        own.update(a)
        m.update(a)
    c = {k: v for k, v in expected_create(base).items() if k not in own}
    for k, v in m.items():
        check(k in got and repr(got[k]) == repr(v), "%s: %r is %r, expected %r (plugins in the order %s)", what, k, got.get(k), v, loaded, sig="plugin-resource")
    # the rest is as without the plugins
    rest = {k: v for k, v in got.items() if k not in own}
    full = dict(rest)
    for k in (R.SDK_LANG, R.SDK_NAME, R.SDK_VERSION, R.SERVICE):
        if k in own:
            check(k in got, "%s: %r is missing", what, k)
            from deep import version
            full[k] = {R.SDK_VERSION: version.__version__}.get(k, expected_create(base).get(k) or "unknown_service:python")
            if k == R.SERVICE and not expected_create(base).get(k) and expected_create(base).get("process.executable.name"):
                full[k] = "unknown_service:" + expected_create(base)["process.executable.name"]
    if R.SERVICE not in own and not c.get(R.SERVICE) and "process.executable.name" in own:
        # the fallback name is from before the plugins
        exe = expected_create(base).get("process.executable.name")
        check(got.get(R.SERVICE) == "unknown_service:" + (exe or "python"), "%s: fallback name %r", what, got.get(R.SERVICE))
        full[R.SERVICE] = c[R.SERVICE] = "some"
    check_identity(full, {**c, **{k: full[k] for k in own if k in full}}, what)


PARTS = [
    Part("agent", run_agent, agent_cases, quick=400, thorough=8000, shards=2, thorough_shards=4, setup=setup_agent, rule="two plugins give the same key"),
    Part("store_model", run_store, store_cases, quick=2500, thorough=40000, shards=2,
         rule="random operation sequences on a bounded store compared with a reference store after every operation; "
              "non-trivial: an eviction happened or the container is frozen and an effective write was attempted"),
    Part("store_threads", run_threads, thread_cases, exhaustive_cases=each_switch, quick=250, thorough=6000, shards=4,
         rule="2-3 threads write under an owned opcode-level schedule; non-trivial: at least one forced switch"),
    Part("merge", run_merge, merge_cases, quick=1200, thorough=20000,
         rule="chains of merges vs a dict model, operands unchanged; non-trivial: overlapping keys"),
    Part("create", run_create, create_cases, quick=1200, thorough=20000,
         rule="environment/code combinations vs model; non-trivial: both environment and code attributes"),
]
