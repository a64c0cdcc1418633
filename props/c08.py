"""C08 Wire fidelity: the service receives every snapshot field intact, with auth."""
import base64
import copy
import math
import threading

from hypothesis import strategies as st

from vlib import authlab, sched, snaplab, values, world
from vlib.core import HarnessError, Part, check
from vlib.service import FakeChannel, FakeGrpc, Service
from vlib.world import InlineTasks, wait_until

META = {"assumptions": [
    "text that UTF-8 cannot encode may be escaped in any way that keeps the other characters, in order",
    "a field that is None is not set (or empty, where the message has no presence); numbers that the message type cannot hold may arrive as anything, "
    "but the snapshot arrives",
    "integers beyond 64 bits may arrive in another form",
    "the agent may ask the auth provider once and use the answer for all requests; if the provider supplied different answers, any of them is accepted",
    "while the provider has supplied nothing (it fails), no request is sent",
]}


# --- what is expected of a message --------------------------------------------------------------------------------------

def plain(v):
    """What str's own text is (collected strings may be subclasses)."""
    return str.__str__(v) if isinstance(v, str) else v


def same_text(got, want, what):
    want = "" if want is None else plain(want)
    if not isinstance(want, str):
        want = str(want)
    try:
        want.encode("utf-8")
        check(got == want, "%s arrives as %r, it is %r", what, got, want, sig="text")
    except UnicodeEncodeError:
        it = iter(got)
        keep = want.encode("utf-8", "ignore").decode()
        check(all(c in it for c in keep), "%s arrives as %r, which misses characters of %r", what, got, want, sig="text")


def optional(msg, field, want, what):
    check(msg.HasField(field) == (want is not None), "%s is %r, but the field is %s", what, want, "set" if msg.HasField(field) else "not set", sig="presence")
    same_text(getattr(msg, field), want, what)


def number(got, want, what, top=0xFFFFFFFF):
    want = 0 if want is None else want
    if 0 <= want <= top:
        check(got == want, "%s arrives as %r, it is %r", what, got, want, sig="number")


def any_value(got, want, what):
    kind = got.WhichOneof("value")
    if want is None:
        check(kind is None, "%s arrives as %s, it is None", what, kind, sig="value")
    elif isinstance(want, bool):
        check(kind == "bool_value" and got.bool_value is want, "%s arrives as %s, it is %r", what, got, want, sig="value")
    elif isinstance(want, str):
        check(kind == "string_value", "%s arrives as %s, it is %r", what, kind, want, sig="value")
        same_text(got.string_value, want, what)
    elif isinstance(want, int):
        if -2 ** 63 <= want < 2 ** 63:
            check(kind == "int_value" and got.int_value == want, "%s arrives as %s, it is %r", what, got, want, sig="value")
        else:
            check(kind is not None, "%s does not arrive", what, sig="value")
    elif isinstance(want, float):
        same = kind == "double_value" and (got.double_value == want and math.copysign(1, got.double_value) == math.copysign(1, want)
                                           or math.isnan(want) and math.isnan(got.double_value))
        check(same, "%s arrives as %s, it is %r", what, got, want, sig="value")
    elif isinstance(want, bytes):
        check(kind == "bytes_value" and got.bytes_value == want, "%s arrives as %s, it is %r", what, got, want, sig="value")
    elif isinstance(want, (list, tuple)):
        check(kind == "array_value" and len(got.array_value.values) == len(want), "%s arrives as %s, it is %r", what, got, want, sig="value")
        for i, v in enumerate(want):
            any_value(got.array_value.values[i], v, "%s[%d]" % (what, i))
    elif isinstance(want, dict):
        check(kind == "kvlist_value", "%s arrives as %s, it is %r", what, kind, want, sig="value")
        key_values(got.kvlist_value.values, want, what)
    else:
        raise HarnessError("attribute of type %s" % type(want))


def key_values(got, want, what):
    check(len(got) == len(want), "%s: %d arrive, there are %d", what, len(got), len(want), sig="attributes")
    for kv, (k, v) in zip(got, want.items()):
        same_text(kv.key, k, "%s key" % what)
        any_value(kv.value, v, "%s %r" % (what, k))


def variable_id(got, want, what):
    same_text(got.ID, want.vid, what + " id")
    same_text(got.name, want.name, what + " name")
    check(len(got.modifiers) == len(want.modifiers), "%s modifiers arrive as %s, they are %s", what, list(got.modifiers), want.modifiers, sig="modifiers")
    for a, b in zip(got.modifiers, want.modifiers):
        same_text(a, b, what + " modifier")
    optional(got, "original_name", want.original_name, what + " original name")


def ids(got, want, what):
    check(len(got) == len(want), "%s: %d arrive, there are %d", what, len(got), len(want), sig="ids")
    for i, (a, b) in enumerate(zip(got, want)):
        variable_id(a, b, "%s[%d]" % (what, i))


class Copy:
    """The public fields of a snapshot as they are now (they must not change, and the message is compared with them)."""

    def __init__(self, s):
        self.id, self.ts, self.duration, self.log = s.id, s.ts_nanos, s.duration_nanos, s.log_msg
        tp = s.tracepoint
        self.tp = (tp.id, tp.path, tp.line_no, dict(tp.args), list(tp.watches))
        self.frames = [(f, list(f.variables)) for f in s.frames]
        self.table = {k: (v, list(v.children)) for k, v in s.var_lookup.items()}
        self.watches = list(s.watches)
        self.attributes = dict(s.attributes.items())
        self.resource = dict(s.resource.attributes.items())


def compare(msg, c):
    check(msg.ID == c.id.to_bytes(16, "big"), "the id arrives as %r, it is %r", msg.ID, c.id, sig="id")
    check(msg.ts_nanos == c.ts, "the timestamp arrives as %r, it is %r", msg.ts_nanos, c.ts, sig="time")
    if c.duration >= 0:
        check(msg.duration_nanos == c.duration, "the duration arrives as %r, it is %r", msg.duration_nanos, c.duration, sig="time")
    t = msg.tracepoint
    same_text(t.ID, c.tp[0], "tracepoint id")
    same_text(t.path, c.tp[1], "tracepoint path")
    number(t.line_number, c.tp[2], "tracepoint line")
    args = {k: v for k, v in c.tp[3].items() if v is not None}
    check(len(t.args) == len(args), "%d tracepoint arguments arrive, there are %d", len(t.args), len(args), sig="args")
    for k, v in args.items():
        if encodable(k):
            check(k in t.args, "tracepoint argument %r does not arrive", k, sig="args")
            same_text(t.args[k], v, "tracepoint argument %r" % k)
    check(len(t.watches) == len(c.tp[4]), "tracepoint watches arrive as %s, they are %s", list(t.watches), c.tp[4], sig="watches")
    for a, b in zip(t.watches, c.tp[4]):
        same_text(a, b, "tracepoint watch")
    check(len(msg.frames) == len(c.frames), "%d frames arrive, there are %d", len(msg.frames), len(c.frames), sig="frames")
    for i, (m, (f, variables)) in enumerate(zip(msg.frames, c.frames)):
        w = "frame %d " % i
        same_text(m.file_name, f.file_name, w + "file")
        same_text(m.short_path, f.short_path, w + "short path")
        same_text(m.method_name, f.method_name, w + "method")
        number(m.line_number, f.line_number, w + "line")
        optional(m, "class_name", f.class_name, w + "class")
        check(m.is_async == bool(f.is_async), "%s is_async arrives as %r, it is %r", w, m.is_async, f.is_async, sig="async")
        check(m.app_frame == bool(f.app_frame), "%s app_frame arrives as %r, it is %r", w, m.app_frame, f.app_frame, sig="app-frame")
        number(m.column_number, f.column_number, w + "column")
        same_text(m.transpiled_file_name, f.transpiled_file_name, w + "transpiled file")
        number(m.transpiled_line_number, f.transpiled_line_number, w + "transpiled line")
        number(m.transpiled_column_number, f.transpiled_column_number, w + "transpiled column")
        ids(m.variables, variables, w + "variables")
    check(len(msg.var_lookup) == len(c.table), "%d variables arrive, there are %d", len(msg.var_lookup), len(c.table), sig="table")
    for k, (v, children) in c.table.items():
        if not encodable(k):
            continue
        check(k in msg.var_lookup, "variable %r does not arrive", k, sig="table")
        m = msg.var_lookup[k]
        w = "variable %s " % k
        same_text(m.type, v.type, w + "type")
        same_text(m.value, v.value, w + "value")
        same_text(m.hash, v.hash, w + "hash")
        check(m.truncated == bool(v.truncated), "%s truncated arrives as %r, it is %r", w, m.truncated, v.truncated, sig="truncated")
        ids(m.children, children, w + "children")
    check(len(msg.watches) == len(c.watches), "%d watch results arrive, there are %d", len(msg.watches), len(c.watches), sig="results")
    sources = {"WATCH": 0, "LOG": 1, "METRIC": 2, "CAPTURE": 3}
    for i, (m, r) in enumerate(zip(msg.watches, c.watches)):
        w = "watch result %d (%r) " % (i, r.expression)
        same_text(m.expression, r.expression, w + "expression")
        check(m.source == sources[r.source], "%s source arrives as %r, it is %r", w, m.source, r.source, sig="source")
        kind = m.WhichOneof("result")
        if r.result is not None:
            check(kind == "good_result", "%s arrives as %s, it has a value", w, kind, sig="results")
            variable_id(m.good_result, r.result, w)
        elif r.error is not None:
            check(kind == "error_result", "%s arrives as %s, it is the error %r", w, kind, r.error, sig="results")
            same_text(m.error_result, r.error, w + "error")
    key_values(msg.attributes, c.attributes, "attributes")
    key_values(msg.resource, c.resource, "resource")
    optional(msg, "log_msg", c.log, "log message")


def encodable(t):
    try:
        plain(t).encode("utf-8")
        return True
    except UnicodeEncodeError:
        return False


def deliver(snapshots, metadata=()):
    """Hands the snapshots to the delivery of the agent; what the service receives (parsed from bytes)."""
    from deep.push import PushService
    got = []

    def handler(method, request, md):
        got.append((method, request, md))
        from deepproto.proto.tracepoint.v1 import tracepoint_pb2
        return tracepoint_pb2.SnapshotResponse()

    push = PushService(FakeGrpc(handler, metadata), InlineTasks())
    for s in snapshots:
        push.push_snapshot(s)
    check([m for m, _, _ in got] == ["send"] * len(snapshots), "%d snapshots were handed over, the service received %s", len(snapshots), [m for m, _, _ in got],
          sig="sent")
    return got


# --- built: snapshots with any content ----------------------------------------------------------------------------------

def build(case):
    from deep.api.resource import Resource
    from deep.api.tracepoint import EventSnapshot, StackFrame, Variable, VariableId, WatchResult
    from deep.api.tracepoint.tracepoint_config import TracePointConfig

    def vid(v):
        return VariableId(v["vid"], v["name"], list(v.get("mods", [])), v.get("orig"))
    t = case["tp"]
    tp = TracePointConfig(t["id"], t["path"], t["line"], dict(t["args"]), list(t["watches"]), [])
    frames = [StackFrame(f["file"], f["short"], f["method"], f["line"], [vid(v) for v in f["vars"]], f.get("cls"), f.get("async", False), f.get("col", 0),
                         f.get("tfile"), f.get("tline", 0), f.get("tcol", 0), f.get("app", False)) for f in case["frames"]]
    table = {k: Variable(v["type"], v["value"], v["hash"], [vid(c) for c in v["children"]], v["cut"]) for k, v in case["table"].items()}
    s = EventSnapshot(tp, case["ts"], Resource(case["resource"]), frames, table)
    for k, v in case["attributes"].items():
        s.attributes[k] = bytes.fromhex(v[6:]) if isinstance(v, str) and v.startswith("bytes:") else v
    for r in case["results"]:
        s.add_watch_result(WatchResult(r["source"], r["expr"], vid(r["good"]) if r.get("good") else None, r.get("error")))
    if case.get("merge"):
        s.merge_var_lookup({k: Variable("t", "v", "1", [], False) for k in case["merge"]})
    if "log" in case:
        s.log_msg = case["log"]
    if case["complete"]:
        world.boot.CLOCK.ns = lambda: case["ts"] + case["complete"]
        try:
            s.complete()
        finally:
            world.boot.CLOCK.ns = None
    return s


def run_built(case):
    from deep.push import convert_snapshot
    s = build(case)
    c = Copy(s)
    if case["complete"]:
        check(s.duration_nanos == case["complete"], "the duration is %r, %r ns passed", s.duration_nanos, case["complete"], sig="duration")
    (_, msg, md), = deliver([s], [("k", "v")])
    compare(msg, c)
    check(list(md) == [("k", "v")], "the metadata arrives as %r", md, sig="metadata")
    data = msg.SerializeToString(deterministic=True)
    check(type(msg).FromString(data) == msg, "the message does not survive serialisation", sig="bytes")
    check(convert_snapshot(s) is not None, "cannot convert twice", sig="twice")
    return {"nontrivial": len(case["frames"]) + len(case["table"]) + len(case["results"]) > 1, "labels": [k for k in ("log", "merge") if case.get(k)],
            "observed": {"bytes": len(data)}}


def texts():
    # hypothesis does not make surrogates unless asked for
    any_char = st.characters(codec=None, exclude_categories=())
    return st.one_of(st.sampled_from(["", "a", "x" * 3000, "\0", "\ud83d\ude00", "\udce9caf", "caf\udce9", "é\U0001f600", "a\nb\tc", "{}", "%s", "1"]),
                     st.text(max_size=12), st.text(any_char, max_size=6))


def built():
    text = texts()
    opt_text = st.one_of(st.none(), text)
    num = st.one_of(st.integers(0, 2000), st.sampled_from([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]))
    odd = st.one_of(num, num, st.sampled_from([-1, 2 ** 32, 2 ** 70, None]))
    vid = st.fixed_dictionaries({"vid": text, "name": text}, optional={"mods": st.lists(text, max_size=3), "orig": opt_text})
    frame = st.fixed_dictionaries({"file": text, "short": text, "method": text, "line": odd, "vars": st.lists(vid, max_size=3)},
                                  optional={"cls": opt_text, "async": st.booleans(), "col": odd, "tfile": opt_text, "tline": odd, "tcol": odd,
                                            "app": st.booleans()})
    var = st.fixed_dictionaries({"type": text, "value": text, "hash": st.one_of(text, st.just("1234567890")), "children": st.lists(vid, max_size=3),
                                 "cut": st.booleans()})
    scalar = st.one_of(st.booleans(), st.integers(-10, 10), st.sampled_from([2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 80, 0]), st.floats(), text)
    value = st.one_of(scalar, scalar, st.lists(st.booleans(), max_size=3), st.lists(st.integers(-2 ** 63, 2 ** 63 - 1), max_size=3), st.lists(text, max_size=3),
                      st.lists(st.floats(), max_size=3), st.lists(st.one_of(st.none(), st.just("x")), max_size=3), st.just("bytes:616263"))
    attrs = st.dictionaries(text, value, max_size=4)
    result = st.one_of(
        st.fixed_dictionaries({"source": st.sampled_from(["WATCH", "LOG", "METRIC", "CAPTURE"]), "expr": text, "good": vid}),
        st.fixed_dictionaries({"source": st.sampled_from(["WATCH", "LOG", "METRIC", "CAPTURE"]), "expr": text, "error": text}))
    return st.fixed_dictionaries({
        "tp": st.fixed_dictionaries({"id": text, "path": text, "line": num | st.just(-1), "args": st.dictionaries(text, opt_text, max_size=3),
                                     "watches": st.lists(text, max_size=3)}),
        "ts": st.one_of(st.just(world.T0), st.integers(0, 2 ** 63)), "complete": st.one_of(st.just(0), st.integers(1, 2 ** 40), st.just(1)),
        "frames": st.lists(frame, max_size=4), "table": st.dictionaries(text, var, max_size=5), "results": st.lists(result, max_size=4),
        "attributes": attrs, "resource": attrs},
        optional={"log": opt_text, "merge": st.lists(text, min_size=1, max_size=2)})


# --- large: the same with one part repeated many times -------------------------------------------------------------------

def repeat(items, n, fallback):
    items = items or [fallback]
    return [items[i % len(items)] for i in range(n)]


def run_large(case):
    c = copy.deepcopy(case["snapshot"])
    n = case["n"]
    v = {"vid": "1", "name": "v"}
    var = {"type": "int", "value": "1", "hash": "1", "children": [], "cut": False}
    frame = {"file": "f.py", "short": "f", "method": "m", "line": 3, "vars": [v]}
    if "frames" in case["of"]:
        c["frames"] = [dict(f, line=i) for i, f in enumerate(repeat(c["frames"], n, frame))]
    if "vars" in case["of"]:
        c["frames"] = [dict(repeat(c["frames"], 1, frame)[0], vars=[dict(x, name="%s%d" % (x["name"], i)) for i, x in enumerate(repeat([v], n, v))])]
    if "table" in case["of"]:
        c["table"] = {str(i): x for i, x in enumerate(repeat(list(c["table"].values()), n, var))}
    if "children" in case["of"]:
        c["table"] = {"1": dict(var, children=[dict(v, vid=str(i)) for i in range(n)])}
    if "results" in case["of"]:
        c["results"] = repeat(c["results"], n, {"source": "WATCH", "expr": "x", "good": v})
    if "args" in case["of"]:
        c["tp"]["args"] = {"a%d" % i: "v%d" % i for i in range(n)}
    if "watches" in case["of"]:
        c["tp"]["watches"] = ["w%d" % i for i in range(n)]
    if "attributes" in case["of"]:
        c["attributes"] = {"k%d" % i: i for i in range(n)}
    if "resource" in case["of"]:
        c["resource"] = {"k%d" % i: "v%d" % i for i in range(n)}
    if "modifiers" in case["of"]:
        c["frames"] = [dict(frame, vars=[dict(v, mods=["m%d" % i for i in range(n)])])]
    if "text" in case["of"]:
        c["log"] = "l\u00e9" * n * 20
        c["table"] = {"1": dict(var, value="\U0001f600x" * n * 20)}
        c["tp"]["args"] = {"a": "b" * n * 20}
    res = run_built(c)
    return dict(res, nontrivial=n > 60, labels=list(case["of"]))


def large():
    return st.fixed_dictionaries({
        "snapshot": built(), "n": st.one_of(st.integers(1, 40), st.integers(60, 140), st.sampled_from([127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 1500])),
        "of": st.lists(st.sampled_from(["frames", "frames", "vars", "table", "table", "children", "results", "args", "watches", "attributes", "resource", "modifiers",
                                        "text"]), min_size=1, max_size=3, unique=True)})


# --- collected: what the agent collects of any values -------------------------------------------------------------------

def run_collected(case):
    from deep.api.resource import Resource
    sent = [0]

    def judge(ref, snap, r):
        c = Copy(snap)
        (_, msg, _), = deliver([snap])
        compare(msg, c)
        check(dict(snap.resource.attributes.items()) == {"service.name": "caf\udce9", "list": ("a", None)}, "the snapshot has resource %s",
              dict(snap.resource.attributes.items()), sig="resource")
        sent[0] += 1

    stats = snaplab.run(case, convert=False, judge=judge, extra_world={
        "decorators": 1, "resource": Resource({"service.name": "caf\udce9", "list": ["a", None]})})
    return {"nontrivial": stats["entries"] > 3, "labels": ["placeholders"] if stats["placeholders"] else [], "observed": {"sent": sent[0], **stats}}


def collected():
    return snaplab.cases(st, values.graph(st, 9, min_nodes=2), limits={"MAX_STRING_LENGTH": st.sampled_from(["1024", "5"])}, ntps=2, hits=1)


# --- auth: every request carries what the provider supplies --------------------------------------------------------------

def run_auth(case):
    """Polls and snapshots through the agent's own connection object, whose channel is replaced."""
    from deep.config import ConfigService
    from deep.config.tracepoint_config import TracepointConfigService
    from deep.api.resource import Resource
    from deep.grpc import GRPCService
    from deep.poll import LongPoll
    from deep.push import PushService
    from deepproto.proto.poll.v1 import poll_pb2
    from deepproto.proto.tracepoint.v1 import tracepoint_pb2
    authlab.reset(case["script"])
    config = ConfigService({"SERVICE_URL": "127.0.0.1:1", "SERVICE_SECURE": "False", **case["config"]}, tracepoints=TracepointConfigService())
    config.resource = Resource.get_empty()
    got = []

    def handler(method, request, md):
        got.append((method, md))
        if case["fail"] and len(got) % 3 == 0:
            raise RuntimeError("the service is not there")
        return tracepoint_pb2.SnapshotResponse() if method == "send" else poll_pb2.PollResponse(response_type=0)

    grpc = GRPCService(config)
    grpc.channel = FakeChannel(handler)
    poll, push = LongPoll(config, grpc), PushService(grpc, InlineTasks())
    n = sent = refused = 0
    for op in case["ops"]:
        before, given = len(got), len(authlab.GIVEN)
        try:
            if op == "poll":
                poll.poll()
            else:
                push.push_snapshot(build(SMALL))
        except BaseException as e:  # noqa: B902
            if not isinstance(e, (RuntimeError, authlab.AuthFault, SystemExit, KeyError, ImportError, AttributeError, ValueError)):
                raise
        n += 1
        new = got[before:]
        check(len(new) <= 1, "%d requests for one %s", len(new), op, sig="once")
        want = expected_metadata(case)
        if want == "nothing":
            check(not new, "the provider supplies nothing, but a %s was sent with %s", op, new, sig="unauthenticated")
            refused += 1
        else:
            check(len(new) == 1, "no request was sent for a %s (%d answers of the provider)", op, len(authlab.GIVEN), sig="sent")
            md = [tuple(x) for x in (new[0][1] or [])]
            check(any(md == w for w in want), "a %s carries %s, the provider supplied %s", op, md, want, sig="metadata")
            sent += 1
        if given and len(authlab.GIVEN) < given:
            raise HarnessError("script")
    return {"nontrivial": sent > 1 and bool(md), "labels": ["refused"] if refused else [], "observed": {"sent": sent, "refused": refused}}


def expected_metadata(case):
    """The answers a request may carry; "nothing" when it must not be sent."""
    cfg = case["config"]
    provider = cfg.get("SERVICE_AUTH_PROVIDER")
    if not provider:
        return [[]]
    if provider.endswith("BasicAuthProvider"):
        u, p = cfg.get("SERVICE_USERNAME"), cfg.get("SERVICE_PASSWORD")
        if u is None or p is None:
            return [[]]
        return [[("authorization", "Basic%20" + base64.b64encode((u + ":" + p).encode()).decode())]]
    if provider.endswith("Scripted"):
        return list(authlab.GIVEN) or "nothing"
    return "nothing"


SMALL = {"tp": {"id": "tp", "path": "prog.py", "line": 3, "args": {}, "watches": []}, "ts": world.T0, "complete": 5, "frames": [], "table": {}, "results": [],
         "attributes": {}, "resource": {}}


def configs():
    """(config, script) pairs."""
    user = st.one_of(st.sampled_from(["", "bob", "a:b", "jos\u00e9", "x" * 100, "%20", "\U0001f600"]), st.text(max_size=6).filter(encodable))
    basic = st.fixed_dictionaries({"SERVICE_AUTH_PROVIDER": st.just("deep.api.auth.BasicAuthProvider")},
                                  optional={"SERVICE_USERNAME": user, "SERVICE_PASSWORD": user})
    key = st.sampled_from(["authorization", "x-token", "x-tenant", "data-bin"])
    md = st.lists(st.tuples(key, st.text("abcXYZ019-_. %", min_size=1, max_size=9).map(str.strip).filter(bool)).map(list), min_size=1, max_size=3)
    give = st.tuples(st.sampled_from(["give", "give", "give-tuple"]), md).map(list)
    fail = st.tuples(st.just("raise"), st.sampled_from(["error", "base", "key"])).map(list)
    script = st.one_of(st.lists(give, min_size=1, max_size=1), st.lists(give, min_size=1, max_size=3),
                       st.builds(lambda f, g: f + g, st.lists(fail, min_size=1, max_size=3), st.lists(give, min_size=1, max_size=1)), st.lists(fail, min_size=1, max_size=1))
    scripted = st.builds(lambda s: {"config": {"SERVICE_AUTH_PROVIDER": "vlib.authlab.Scripted"}, "script": s}, script)
    other = st.sampled_from([None, "", "vlib.authlab.FailsToConstruct", "vlib.authlab.Missing", "no.such.module.Provider", "notdotted"]).map(
        lambda p: {"config": {"SERVICE_AUTH_PROVIDER": p} if p is not None else {}, "script": [["give", [["k", "v"]]]]})
    return st.one_of(basic.map(lambda c: {"config": c, "script": [["give", []]]}), scripted, scripted, other)


def auths():
    return st.builds(lambda c, ops, f: {**c, "ops": ops, "fail": f}, configs(), st.lists(st.sampled_from(["poll", "push"]), min_size=2, max_size=7),
                     st.sampled_from([False, False, True]))


# --- crossing: requests that are made at the same time --------------------------------------------------------------------

def run_crossing(case):
    from deep.api.resource import Resource
    from deep.config import ConfigService
    from deep.config.tracepoint_config import TracepointConfigService
    from deep.grpc import GRPCService
    from deep.poll import LongPoll
    from deep.push import PushService
    from deepproto.proto.poll.v1 import poll_pb2
    from deepproto.proto.tracepoint.v1 import tracepoint_pb2
    authlab.reset(case["script"])
    config = ConfigService({"SERVICE_URL": "127.0.0.1:1", "SERVICE_SECURE": "False", **case["config"]}, tracepoints=TracepointConfigService())
    config.resource = Resource({"service.name": "crossing"})
    got = []

    def handler(method, request, md):
        got.append((threading.get_ident(), method, request, md))
        return tracepoint_pb2.SnapshotResponse() if method == "send" else poll_pb2.PollResponse(response_type=0)

    grpc = GRPCService(config)
    grpc.channel = FakeChannel(handler)
    poll, push = LongPoll(config, grpc), PushService(grpc, InlineTasks())
    idents = {}
    work = [[build(different(n * 10 + m)) if op == "push" else op for m, op in enumerate(ops)] for n, ops in enumerate(case["threads"])]
    copies = [[Copy(x) if x != "poll" else x for x in ops] for ops in work]

    def worker(n):
        def go():
            idents[n] = threading.get_ident()
            for x in work[n]:
                try:
                    if x == "poll":
                        poll.poll()
                    else:
                        push.push_snapshot(x)
                except (RuntimeError, authlab.AuthFault, SystemExit, KeyError):
                    pass
        return go
    sc = sched.Sched([worker(n) for n in range(len(work))], case["schedule"], extra_files=[authlab.__file__])
    if not sc.run():
        raise HarnessError("threads did not finish")
    for e in sc.errors:
        if e is not None:
            raise e
    failures = authlab.CALLS[0] - len(authlab.GIVEN)
    want = expected_metadata(case)
    missing = 0
    for n, ops in enumerate(copies):
        mine = [g[1:] for g in got if g[0] == idents[n]]
        expected = list(ops)
        for method, request, md in mine:
            md = [tuple(x) for x in (md or [])]
            check(want != "nothing" and any(md == w for w in want), "a %s carries %s while another request is made, the provider supplied %s", method, md, want, sig="metadata")
            c = next((c for c in expected if (c == "poll") == (method == "poll") and (c == "poll" or c.id.to_bytes(16, "big") == request.ID)), None)
            check(c is not None, "a %s is sent that was not asked for: %s", method, request, sig="sent")
            expected.remove(c)
            if c == "poll":
                check([(kv.key, kv.value.string_value) for kv in request.resource.attributes] == [("service.name", "crossing")], "a poll carries %s", request, sig="resource")
            else:
                compare(request, c)
        missing += len(expected)
    check(len(got) + missing == sum(map(len, work)), "%d requests", len(got), sig="once")
    check(missing <= failures, "%d of %d requests were not sent, the provider failed %d times", missing, sum(map(len, work)), failures, sig="sent")
    return {"nontrivial": sc.switches > 0 and len(got) > 1, "labels": ["switched"] if sc.switches else [], "observed": {"sent": len(got), "steps": sc.steps}}


def different(i):
    v = {"vid": str(i), "name": "v%d" % i}
    return {"tp": {"id": "tp%d" % i, "path": "f%d.py" % i, "line": i, "args": {"a%d" % i: "v"}, "watches": ["w%d" % i]}, "ts": world.T0 + i, "complete": 5 + i,
            "frames": [{"file": "f%d" % i, "short": "s%d" % i, "method": "m", "line": i, "vars": [v]}],
            "table": {str(i): {"type": "t%d" % i, "value": "value%d" % i, "hash": "h", "children": [dict(v, vid="c%d" % i)], "cut": False}},
            "results": [{"source": "WATCH", "expr": "e%d" % i, "good": v}], "attributes": {"k%d" % i: i}, "resource": {"r%d" % i: "x"}, "log": "log%d" % i}


def crossings():
    return st.builds(lambda c, t, s: {**c, "threads": t, "schedule": s}, configs().filter(
        lambda c: c["config"].get("SERVICE_AUTH_PROVIDER") in (None, "deep.api.auth.BasicAuthProvider", "vlib.authlab.Scripted")),
        st.lists(st.lists(st.sampled_from(["poll", "push"]), min_size=1, max_size=2), min_size=2, max_size=3),
        st.one_of(sched.schedules(st, 3, 900, 5), sched.spread(st, 3, 200)))


def each_switch(tier):
    scripts = [[["give", [["k", "v"]]]], [["give", [["k", "v"]]], ["give", [["k", "w"]]]], [["raise", "error"], ["give", [["k", "v"]]]]]
    for script in scripts if tier == "thorough" else scripts[:1]:
        for threads in ([["push"], ["push"]], [["poll"], ["push"]], [["push"], ["poll"]]):
            for step in range(1, 400 if threads[0] == ["push"] else 40):
                yield {"config": {"SERVICE_AUTH_PROVIDER": "vlib.authlab.Scripted"}, "script": script, "threads": threads,
                       "schedule": {"order": [0, 1], "pre": [[step, 1]]}}


# --- wire: the whole agent and a real gRPC service ------------------------------------------------------------------------

APP = '''def target(values, n):
    a = values
    b = n
    return b
'''
_APP = {"__name__": "app_module"}
exec(compile(APP, "/app/x/prog.py", "exec"), _APP)


def run_wire(case):
    import deep
    authlab.reset(case["script"])
    svc = Service()
    agent = None
    try:
        want = None
        agent = deep.start({"SERVICE_URL": svc.url, "SERVICE_SECURE": "False", "POLL_TIMER": 0.02, "LOGGING_CONF": None, **case["config"]})
        handed = []
        h = agent.trigger_handler
        tps = []
        for i, t in enumerate(case["tps"]):
            tps.append(agent.register_tracepoint("prog.py", 3, {"fire_count": "-1", "fire_period": "0", **t["args"]}, t["watches"]))
        provider_fails = case["script"][0][0] == "raise" and case["config"].get("SERVICE_AUTH_PROVIDER", "").endswith("Scripted") or \
            case["config"].get("SERVICE_AUTH_PROVIDER", "") in ("no.such.module.Provider", "notdotted", "vlib.authlab.FailsToConstruct", "vlib.authlab.Missing")
        never = provider_fails and not (case["script"][-1][0].startswith("give") and case["config"]["SERVICE_AUTH_PROVIDER"].endswith("Scripted"))
        vals = values.build(case["graph"])
        done = []

        def app():
            for n in range(case["hits"]):
                done.append(_APP["target"](vals, n))
        # the registrations are applied in the background: pass the location until it acts
        acted = [0]
        orig = agent.push.push_snapshot

        def push(s):
            acted[0] += 1
            handed.append((s, Copy(s)))
            return orig(s)
        agent.push.push_snapshot = push
        if not never:
            check(svc.wait(polls=2), "no polls arrive", sig="polls")

        def pass_by():
            t = threading.Thread(target=app)
            t.start()
            t.join()
            return len(handed) >= len(tps) * case["hits"]
        wait_until(pass_by, 5)
        check(len(handed) > 0 or not tps, "nothing is collected", sig="collected")
        agent.shutdown()
        stopped = agent
        agent = None
        want = expected_metadata(case)
        with svc.lock:
            polls, snaps = list(svc.polls), list(svc.snapshots)
        if want == "nothing":
            check(not polls and not snaps, "the provider supplies nothing, but %d polls and %d snapshots arrive", len(polls), len(snaps), sig="unauthenticated")
            return {"nontrivial": False, "labels": ["refused"], "observed": {}}
        for what, (req, md) in [("poll", p) for p in polls] + [("snapshot", p) for p in snaps]:
            mine = [(m.key, m.value) for m in md if m.key not in ("user-agent",) and not m.key.startswith("grpc-")]
            check(any(sorted(mine) == sorted(w) for w in want), "a %s arrives with %s, the provider supplied %s", what, mine, want, sig="metadata")
        by_id = {}
        for m, _ in snaps:
            check(m.ID not in by_id, "a snapshot arrives twice", sig="twice")
            by_id[m.ID] = m
        for s, c in handed:
            m = by_id.pop(c.id.to_bytes(16, "big"), None)
            if m is None and provider_fails:
                continue
            check(m is not None, "a snapshot does not arrive", sig="arrives")
            compare(m, c)
        check(not by_id, "snapshots arrive that were not collected", sig="arrives")
        del h, stopped
        return {"nontrivial": bool(handed), "labels": ["auth"] if want != [[]] else [], "observed": {"polls": len(polls), "snapshots": len(snaps)}}
    finally:
        if agent is not None:
            agent.shutdown()
        svc.close()


def wires():
    tp = st.fixed_dictionaries({"args": st.fixed_dictionaries({}, optional={"log_msg": st.sampled_from(["n={n}", "{nope}"]),
                                                                            "frame_type": st.sampled_from(["all_frame", "no_frame"])}),
                                "watches": st.lists(st.sampled_from(["n", "nope", "values", "len(values)"]), max_size=3)})
    return st.builds(lambda c, t, g, h: {**c, "tps": t, "graph": g, "hits": h}, configs(), st.lists(tp, min_size=1, max_size=3),
                     values.graph(st, 5, hostile_ops=False, leaves=values.SAFE_LEAVES, min_nodes=1), st.integers(1, 3))


PARTS = [
    Part("built", run_built, built, quick=6000, thorough=60000, shards=3, thorough_shards=8, rule="more than one frame, variable or watch result"),
    Part("large", run_large, large, quick=400, thorough=6000, shards=2, thorough_shards=8, rule="more than 60 of one kind"),
    Part("collected", run_collected, collected, quick=1800, thorough=20000, shards=3, thorough_shards=8, rule="more than three variables"),
    Part("crossing", run_crossing, crossings, quick=800, thorough=20000, shards=2, thorough_shards=8, exhaustive_cases=each_switch,
         rule="switched between requests that are made at the same time"),
    Part("auth", run_auth, auths, quick=3000, thorough=20000, shards=1, thorough_shards=4, rule="at least two requests with metadata"),
    Part("wire", run_wire, wires, quick=160, thorough=2000, shards=2, thorough_shards=8, rule="a snapshot arrives"),
]
