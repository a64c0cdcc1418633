"""C19 Configuration resolves with documented precedence and works from the environment."""
NO_PRELOAD = True
import base64
import functools
import os
import sys
import tempfile
import threading
import time

from hypothesis import strategies as st

from vlib import boot, world
from vlib.core import HarnessError, Part, check
from vlib.world import wait_until

META = {"assumptions": [
    "a value of None in code counts as not given; empty texts in the environment are not generated",
    "the environment does not change after the agent was imported",
    "what POLL_TIMER does when it is not a positive number is open, but the agent polls on and it is the same from code and environment",
    "a prefix is a prefix of the text of the file name; when several prefixes match any of them can be the matched prefix",
    "the prefix of the interpreter is excluded unless IN_APP_EXCLUDE is given in code (then it is open)",
    "an empty application root is open; the calculated application root is a folder that holds the file that calls deep.start",
]}

ZYGOTE = []


def setup():
    from vlib.zygote import Zygote
    ZYGOTE[:] = [Zygote("props.c19", "child")]


def ask(case):
    r = ZYGOTE[0].ask(case)
    if "ok" not in r:
        # what the child does is either the agent, or the harness failing
        if "/src/deep/" in r.get("trace", "") and "HarnessError" not in r["error"]:
            check(False, "the agent fails: %s\n%s", r["error"], r["trace"], sig="raise")
        raise HarnessError("%s %s" % (r["error"], r["trace"]))
    return r["ok"]


# --- the child: a fresh interpreter state -------------------------------------------------------------------------------------------

class Holder:
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def __call__(self):
        return self.v


def in_code(d, counts):
    """A value as it is given in code."""
    how, v = d
    if how == "lit":
        return v
    if how == "lambda":
        return lambda: v
    if how == "partial":
        return functools.partial(lambda x: x, v)
    if how == "method":
        return Holder(v).get
    if how == "object":
        return Holder(v)
    if how == "def":
        def f(a=1, *args, **kw):
            return v
        return f
    raise KeyError(how)


def child(case):
    for k, v in case["env"].items():
        os.environ["DEEP_" + k] = v
    if case["what"] == "resolve":
        return child_resolve(case)
    return child_agent(case)


def check_tree():
    import deep
    if not os.path.abspath(deep.__file__).startswith(boot.DEEP_DIR):
        raise HarnessError("deep was imported from %s" % deep.__file__)


def enc(v):
    return [type(v).__name__, v if isinstance(v, (str, int, float, bool, list, type(None))) else repr(v)]


def child_resolve(case):
    check_tree()
    from deep.config import ConfigService
    out = []
    for c in case["configs"]:
        custom = {k: in_code(d, None) for k, d in c.items()}
        cfg = ConfigService(custom) if c or case["give_empty"] else ConfigService()
        out.append({k: [enc(getattr(cfg, k)), enc(getattr(cfg, k))] for k in case["keys"]})
    return out


APP = '''def target(n):
    a = n
    return a


def start(custom):
    import deep
    return deep.start(custom) if custom is not None else deep.start()
'''


def child_agent(case):
    """Starts the agent with the settings and reports what it does."""
    from vlib import agentlab
    agentlab.install()
    seen = {"metadata": []}
    net = agentlab.NET[0] = agentlab.Net()
    handle = net.handle

    def handler(method, request, md):
        if method == "poll":
            seen["metadata"].append([list(x) for x in md or []])
        return handle(method, request, md)
    net.handle = handler
    check_tree()
    custom = {k: in_code(d, None) for k, d in case["code"].items()}
    ns = {"__name__": "app_module"}
    exec(compile(APP, case["caller"], "exec"), ns)
    before = sys.gettrace(), threading.gettrace()
    threads = threading.enumerate()
    agent = ns["start"](custom if custom or case["give_empty"] else None)
    out = {"started": agent.started}
    out["hooks"] = [sys.gettrace() is not before[0], threading.gettrace() is not before[1]]
    sys.settrace(None)
    threading.settrace(None)
    out["url"] = [c.url for c in net.channels]
    # which constructor was used: NetChannel does not know, so look at how it was opened
    out["how"] = [getattr(c, "how", None) for c in net.channels]
    out["metadata"] = seen["metadata"][:1]
    out["plugins"] = sorted(type(p).__name__ for p in agent.config.plugins)
    if case["fast"]:
        out["polls"] = 3 if wait_until(lambda: len(net.polls) >= 3, 8) else len(net.polls)
    else:
        time.sleep(0.03)
        out["polls"] = len(net.polls)
    out["timer"] = wait_until(lambda: any(t not in threads and "ThreadPool" not in t.name for t in threading.enumerate()) or bool(agentlab.in_agent_code()), 2)
    out["frames"] = [list(agent.config.is_app_frame(p)) for p in case["paths"]]
    out["snapshot"] = None
    # a snapshot of a stack of the given files
    from deep.api.tracepoint.trigger import build_trigger
    stack = case["stack"]
    prev = None
    for i, f in enumerate(reversed(stack)):
        env = {"prev": prev, "__name__": "m"}
        body = "def fn():\n    a = 1\n    return a\n" if prev is None else "def fn():\n    return prev()\n"
        exec(compile(body, f, "exec"), env)
        prev = env["fn"]
    got = []

    class Push:
        def push_snapshot(self, s):
            got.append(s)
    from deep.processor.trigger_handler import TriggerHandler
    h = TriggerHandler(agent.config, Push())
    h.new_config([build_trigger("T", os.path.basename(stack[-1]), 2, {"fire_count": "-1", "fire_period": "0"}, [], [])])
    sys.settrace(h.trace_call)
    try:
        prev()
    finally:
        sys.settrace(None)
    if got:
        mine = got[0].frames[:len(stack)]
        out["snapshot"] = [[f.file_name, f.short_path, bool(f.app_frame)] for f in mine]
    agent.shutdown()
    out["log"] = os.path.exists(case["log_file"]) and os.path.getsize(case["log_file"]) > 0 if case.get("log_file") else None
    return out


# --- precedence ----------------------------------------------------------------------------------------------------------------------

DEFAULTS = {"LOGGING_CONF": None, "POLL_TIMER": 10, "SERVICE_URL": "deep:43315", "SERVICE_SECURE": "True", "SERVICE_AUTH_PROVIDER": None, "APP_ROOT": "",
            "IN_APP_INCLUDE": [], "IN_APP_EXCLUDE": []}
UNKNOWN = ["MY_KEY", "NO_TRACE", "PLUGIN_PYTHONPLUGIN", "SERVICE_USERNAME", "X1", "lower_case", "POLL_TIMER2", "SERVICE", "_UNDER", "DEEP_TWICE"]


def as_list(v):
    if v is None:
        return []
    if isinstance(v, str):
        v = v.split(",")
    return [x for x in (str(i).strip() for i in v) if x]


def canonical(key, v):
    """Documented settings can be normalised by the agent, as long as they mean the same."""
    if key == "POLL_TIMER":
        try:
            return float(v)
        except (TypeError, ValueError):
            return str(v)
    if key == "SERVICE_SECURE":
        return str(v).strip().lower() in ("yes", "true", "t", "1", "y")
    if key == "IN_APP_INCLUDE":
        return as_list(v)
    if key == "IN_APP_EXCLUDE":
        return [x for x in as_list(v) if x != sys.exec_prefix]
    if key in DEFAULTS and key != "LOGGING_CONF" and v is not None:
        return str(v)
    return v


def run_resolve(case):
    keys = list(DEFAULTS) + UNKNOWN
    got = ask(dict(case, what="resolve", keys=keys))
    used = set()
    for c, answers in zip(case["configs"], got):
        for k in keys:
            if k in c and c[k][1] is not None:
                want, src = c[k][1], "code"
            elif k in c and c[k][0] != "lit":
                continue    # a function that gives None: open
            elif k in case["env"]:
                want, src = case["env"][k], "env"
            elif k in DEFAULTS:
                want, src = DEFAULTS[k], "default"
            else:
                want, src = None, "absent"
            used.add(("%s/env" % src) if src == "code" and k in case["env"] else src)
            for typ, g in answers[k]:
                if k in DEFAULTS:
                    ok = canonical(k, g) == canonical(k, want)
                else:
                    ok = g == want and typ == type(want).__name__
                check(ok, "%s resolves to %r (%s), expected %r from %s; code gives %s, the environment %r", k, g, typ, want, src, c.get(k), case["env"].get(k),
                      sig="resolve:%s" % k)
    return {"nontrivial": len(used) > 2, "labels": sorted(used)}


TEXT = st.sampled_from(["a", "b c", "True", "False", "0", "1", "10", "x,y", "ünï", "/app/x", "host:1", "None", " padded ", "a,b, c", "2.5"])
VALUE = st.one_of(TEXT, TEXT, st.integers(-5, 100), st.booleans(), st.sampled_from([0, 0.5, "", [], ["a", "b"], ["/x"], None]))
GIVEN = st.one_of(st.tuples(st.just("lit"), VALUE), st.tuples(st.just("lit"), VALUE), st.tuples(st.sampled_from(["lambda", "partial", "method", "object", "def"]),
                                                                                             VALUE)).map(list)


def valid(k, d):
    """Values that make sense for the documented settings."""
    how, v = d
    if k in ("IN_APP_INCLUDE", "IN_APP_EXCLUDE"):
        return isinstance(v, (str, list)) or v is None
    if k in DEFAULTS:
        return not isinstance(v, list)
    return True


def resolves():
    keys = list(DEFAULTS) + UNKNOWN
    config = st.dictionaries(st.sampled_from(keys), GIVEN, max_size=10).map(lambda c: {k: d for k, d in c.items() if valid(k, d)})
    env = st.dictionaries(st.sampled_from(keys), TEXT, max_size=10)
    return st.fixed_dictionaries({"env": env, "configs": st.lists(config, min_size=1, max_size=4), "give_empty": st.booleans()})


# --- frames: what is an application frame -----------------------------------------------------------------------------------------------

ROOTS = ["/app", "/app/x", "/srv/site", "C:\\app", "/app/x/y", "/ünï/app", "rel/app", "/", "<frozen", "/app/x/", "/apple"]
DIRS = ROOTS + ["/app/x/vendor", "/usr/lib/python3", "/application", "/opt/lib", sys.exec_prefix, sys.exec_prefix + "/lib", "", "/App/X", "/APP", "/opt;lib", "/opt;/app"]
FILES = ["", "/prog.py", "/sub/prog.py", "prog.py", "/a b/ünï.py", "\\win.py", "/x/prog.py", "<string>", "/app/x/prog.py"]


def classify(path, include, exclude, root, root_open=False):
    """[(app frame, short path)] that are right for this path; None when it is open."""
    ex = [e for e in exclude if path.startswith(e)]
    if ex:
        return [[False, path[len(e):]] for e in ex]
    inc = [i for i in include if path.startswith(i)]
    if root and path.startswith(root):
        inc = inc + [root]
    if inc:
        return [[True, path[len(i):]] for i in inc]
    if not root or root_open:
        return None
    return [[False, path]]


def short(path, match):
    """is_app_frame answers with the matched prefix."""
    app, m = match
    return [app, path if m is None else path[len(m):]]


def expected(case, path):
    """From the settings as they were given (code over environment over default)."""
    def pick(k):
        if k in case["code"]:
            return case["code"][k][1], "code"
        if k in case["env"]:
            return case["env"][k], "env"
        return None, "default"
    include = as_list(pick("IN_APP_INCLUDE")[0])
    ev, esrc = pick("IN_APP_EXCLUDE")
    exclude = as_list(ev)
    if esrc != "code":
        exclude = exclude + [sys.exec_prefix]
    elif path.startswith(sys.exec_prefix):
        return None
    root, rsrc = pick("APP_ROOT")
    if rsrc == "default":
        # calculated: a folder above the caller
        ex = [e for e in exclude if path.startswith(e)]
        inc = [i for i in include if path.startswith(i)]
        if ex or inc:
            return [[False, path[len(e):]] for e in ex] if ex else None
        return None
    return classify(path, include, exclude, root)


def run_frames(case):
    """ConfigService and a collected snapshot, with the settings given in code."""
    from deep.config import ConfigService
    from vlib.world import World
    custom = {k: in_code(d, None) for k, d in case["code"].items()}
    cfg = ConfigService(dict(custom))
    kinds = set()
    for p in case["paths"]:
        want = expected(case, p)
        got = short(p, cfg.is_app_frame(p))
        if want is None:
            kinds.add("open")
            continue
        check(got in want, "%r is (app frame, short path) %s, expected %s with %s", p, got, want, case["code"], sig="classify")
        kinds.add("app" if want[0][0] else "excluded" if want[0][1] != p else "other")
    w = World(custom=custom, logger=0, spans=0, metrics=0)
    try:
        from deep.api.tracepoint.trigger import build_trigger
        stack = [p for p in case["paths"] if os.path.basename(p)][:6]
        if stack:
            prev = None
            for f in reversed(stack):
                env = {"prev": prev, "__name__": "m"}
                exec(compile("def fn():\n    a = 1\n    return a\n" if prev is None else "def fn():\n    return prev()\n", f, "exec"), env)
                prev = env["fn"]
            w.handler.new_config([build_trigger("T", os.path.basename(stack[-1]), 2, {"fire_count": "-1", "fire_period": "0"}, [], [])])
            sys.settrace(w.handler.trace_call)
            try:
                prev()
            finally:
                sys.settrace(None)
            snaps = w.rec.of("snap")
            check(snaps, "no snapshot of %s", stack, sig="snapshot")
            mine = snaps[-1]["snapshot"].frames[:len(stack)]
            for f, p in zip(mine, reversed(stack)):
                want = expected(case, p)
                check(f.file_name == p, "the file of the frame is %r, expected %r", f.file_name, p, sig="file")
                if want is not None:
                    check([bool(f.app_frame), f.short_path] in want, "the frame of %r has app_frame %s, short_path %r; expected %s with %s", p, f.app_frame,
                          f.short_path, want, case["code"], sig="snapshot")
    finally:
        w.close()
    return {"nontrivial": len(kinds - {"open"}) > 1, "labels": sorted(kinds)}


def prefixes():
    d = st.sampled_from([x for x in DIRS if x])
    text = st.lists(d, min_size=1, max_size=4).map(lambda xs: ",".join(xs))
    padded = st.lists(d, min_size=1, max_size=3).map(lambda xs: " , ".join(xs) + ",")
    return text, padded, st.lists(d, max_size=4)


def paths():
    return st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(FILES)).map("".join), min_size=4, max_size=14)


def frame_cases():
    text, padded, lists = prefixes()
    how = st.sampled_from(["lit", "lit", "lambda", "method"])
    val = st.tuples(how, st.one_of(text, padded, lists)).map(list)
    root = st.tuples(how, st.sampled_from(ROOTS)).map(list)
    code = st.fixed_dictionaries({"APP_ROOT": root}, optional={"IN_APP_INCLUDE": val, "IN_APP_EXCLUDE": val})
    return st.fixed_dictionaries({"env": st.just({}), "code": code, "paths": paths()})


# --- the same from code and environment ---------------------------------------------------------------------------------------------------

LOG_CONF = """[loggers]
keys=root,deep
[handlers]
keys=file
[formatters]
keys=plain
[logger_root]
level=WARNING
handlers=
[logger_deep]
level=DEBUG
handlers=file
propagate=0
qualname=deep
[handler_file]
class=FileHandler
level=DEBUG
formatter=plain
args=(%r, 'a')
[formatter_plain]
format=%%(message)s
"""


def effective(case, k):
    if k in case["code"] and case["code"][k][1] is not None:
        return case["code"][k][1]
    if k in case["env"]:
        return case["env"][k]
    return DEFAULTS.get(k)


def run_agent(case):
    scratch = tempfile.mkdtemp(prefix="c19-")
    try:
        logs = os.path.join(scratch, "deep.log")
        conf = os.path.join(scratch, "logging.conf")
        with open(conf, "w") as f:
            f.write(LOG_CONF % logs)
        case = dict(case, code={k: list(v) for k, v in case["code"].items()}, env=dict(case["env"]))
        for src in ("code", "env"):
            v = case[src].get("LOGGING_CONF")
            if v is not None:
                if src == "code":
                    v[1] = conf if v[1] == "good" else os.path.join(scratch, "missing.conf")
                else:
                    case[src]["LOGGING_CONF"] = conf if v == "good" else os.path.join(scratch, "missing.conf")
        interval = effective(case, "POLL_TIMER")
        try:
            interval = float(interval)
            usable = interval > 0
        except (TypeError, ValueError):
            usable = False
        fast = usable and interval < 0.1
        stack = [p for p in case["paths"] if os.path.basename(p)][:4] + ["/app/x/innermost.py"]
        got = ask(dict(case, what="agent", fast=fast, stack=stack, log_file=logs))
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    check(got["started"], "the agent is not started", sig="started")
    url = str(effective(case, "SERVICE_URL"))
    check(got["url"] == [url], "connected to %s, expected %r", got["url"], url, sig="SERVICE_URL")
    secure = canonical("SERVICE_SECURE", effective(case, "SERVICE_SECURE"))
    check(got["how"] == ["secure" if secure else "insecure"], "the connection is %s, SERVICE_SECURE is %r", got["how"], effective(case, "SERVICE_SECURE"),
          sig="SERVICE_SECURE")
    check(got["timer"], "no poll timer is alive with POLL_TIMER %r", effective(case, "POLL_TIMER"), sig="POLL_TIMER")
    if fast:
        check(got["polls"] >= 3, "%d polls with the interval %r", got["polls"], effective(case, "POLL_TIMER"), sig="POLL_TIMER")
    else:
        check(got["polls"] == 1, "%d polls with the interval %r", got["polls"], effective(case, "POLL_TIMER"), sig="POLL_TIMER")
    provider = effective(case, "SERVICE_AUTH_PROVIDER")
    user, password = effective(case, "SERVICE_USERNAME"), effective(case, "SERVICE_PASSWORD")
    want = []
    if provider and user is not None and password is not None:
        want = [["authorization", "Basic%20" + base64.b64encode(("%s:%s" % (user, password)).encode()).decode()]]
    check(got["metadata"] == [want], "the metadata is %s, expected %s (user %r)", got["metadata"], want, user, sig="SERVICE_AUTH_PROVIDER")
    no_trace = effective(case, "NO_TRACE")
    off = str(no_trace).strip().lower() in ("true", "yes", "1", "t") if no_trace is not None else False
    check(got["hooks"] == [not off, not off], "trace functions are installed: %s, NO_TRACE is %r", got["hooks"], no_trace, sig="NO_TRACE")
    for p in ("PYTHONPLUGIN", "OTELPLUGIN"):
        v = effective(case, "PLUGIN_" + p)
        on = v is None or str(v).strip().lower() in ("true", "yes", "1", "t")
        there = any(x.upper() == p for x in got["plugins"])
        check(there == on, "plugin %s is %s, its setting is %r", p, "loaded" if there else "not loaded", v, sig="PLUGIN")
    lc = case["code"].get("LOGGING_CONF", [None, None])[1] or case["env"].get("LOGGING_CONF")
    check(got["log"] == bool(lc and lc.endswith("logging.conf")), "the log file of the logging configuration is %s, LOGGING_CONF is %s",
          "written" if got["log"] else "not written", lc, sig="LOGGING_CONF")
    # frames
    kinds = set()
    for p, m in zip(case["paths"], got["frames"]):
        want = expected(case, p)
        if want is not None:
            check(short(p, m) in want, "%r is (app frame, short path) %s, expected %s with %s and the environment %s", p, short(p, m), want, case["code"],
                  case["env"], sig="classify")
            kinds.add("app" if want[0][0] else "not app")
    check(got["snapshot"] is not None, "no snapshot", sig="snapshot")
    for f, p in zip(got["snapshot"], reversed(stack)):
        want = expected(case, p)
        check(f[0] == p, "the file of the frame is %r, expected %r", f[0], p, sig="file")
        if want is not None:
            check([f[2], f[1]] in want, "the frame of %r has app_frame %s, short_path %r; expected %s with %s and the environment %s", p, f[2], f[1], want,
                  case["code"], case["env"], sig="snapshot")
    if "APP_ROOT" not in case["code"] and "APP_ROOT" not in case["env"] and "IN_APP_EXCLUDE" not in case["code"] and "IN_APP_EXCLUDE" not in case["env"]:
        app, m = got["frames"][case["paths"].index(case["caller"])]
        check(app, "the file that starts the agent is not an application frame by default (matched %r)", m, sig="APP_ROOT")
    srcs = set()
    for k in set(case["code"]) | set(case["env"]):
        srcs.add("both" if k in case["code"] and k in case["env"] else "code" if k in case["code"] else "env")
    return {"nontrivial": "env" in srcs or "both" in srcs, "labels": sorted(srcs) + sorted(kinds)}


SETTINGS = {
    "SERVICE_URL": ["host:1", "127.0.0.1:43315", "dns:///x.y:5", "deep:1"],
    "SERVICE_SECURE": ["True", "False", "true", "false", "0", "1", "no", "yes", True, False, "TRUE", "FALSE"],
    "POLL_TIMER": ["0.004", 0.004, "1000", 1000, 3600.5, "0.02", "60", "abc", "0", 0, -1, "-1", "nan", "1e-3", " 30 ", 10],
    "SERVICE_AUTH_PROVIDER": ["deep.api.auth.BasicAuthProvider"],
    "SERVICE_USERNAME": ["bob", "ünï", "a:b", 12, "x y"],
    "SERVICE_PASSWORD": ["secret", "pä:ss", 1234, "p,w"],
    "NO_TRACE": ["True", "False", "true", "false", True, False, "1", "0"],
    "PLUGIN_PYTHONPLUGIN": ["True", "False", True, False, "false"],
    "PLUGIN_OTELPLUGIN": ["False", False, "true"],
    "LOGGING_CONF": ["good", "good", "missing"],
    "APP_ROOT": [r for r in ROOTS],
}


def agents():
    text, padded, lists = prefixes()
    how = st.sampled_from(["lit", "lit", "lambda", "object"])
    code, env = {}, {}
    for k, vs in SETTINGS.items():
        code[k] = st.tuples(how, st.sampled_from(vs)).map(list)
        env[k] = st.sampled_from([str(v) for v in vs])
    for k in ("IN_APP_INCLUDE", "IN_APP_EXCLUDE"):
        code[k] = st.tuples(how, st.one_of(text, padded, lists)).map(list)
        env[k] = st.one_of(text, padded)

    def settings(d):
        return st.lists(st.sampled_from(sorted(d)), max_size=6, unique=True).flatmap(lambda ks: st.fixed_dictionaries({k: d[k] for k in ks}))

    def fix(case):
        # credentials are only looked at together with the provider
        if ("SERVICE_USERNAME" in case["code"] or "SERVICE_USERNAME" in case["env"]) and "SERVICE_AUTH_PROVIDER" not in case["code"]:
            case["env"].setdefault("SERVICE_AUTH_PROVIDER", "deep.api.auth.BasicAuthProvider")
            case["env"].setdefault("SERVICE_PASSWORD", "pw")
        case["paths"] = case["paths"] + [case["caller"]]
        # APP_ROOT given in code stays as it is; an interval that is too short is not of interest
        return case
    return st.fixed_dictionaries({"code": settings(code), "env": settings(env), "paths": paths(), "give_empty": st.booleans(),
                                  "caller": st.sampled_from(["/app/x/main.py", "/srv/site/pkg/run.py", "/home/me/project/src/app/__main__.py"])}).map(fix)


def setup_frames():
    import deep  # noqa: F401
    check_tree()


PARTS = [
    Part("resolve", run_resolve, resolves, quick=500, thorough=8000, shards=2, thorough_shards=6, setup=setup, clock=False,
         rule="values come from more than two of: code, environment, default, code over environment, nowhere"),
    Part("frames", run_frames, frame_cases, quick=1500, thorough=24000, shards=2, thorough_shards=4, setup=setup_frames,
         rule="the paths are of more than one kind (application, excluded, other)"),
    Part("agent", run_agent, agents, quick=500, thorough=8000, shards=4, thorough_shards=8, setup=setup, rule="a setting comes from the environment"),
]
