"""Whole processes with and without the agent: the same script, its output, exit code and the state it leaves."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from . import boot
from .core import check
from .service import Service

# each snippet is one function of the script; it prints with P and has no output that depends on time
SNIPPETS = {
    "recursion": '''
def recursion(n):
    if n <= 0:
        return [n]
    below = recursion(n - 1)
    below.append(n)
    return below
def run_recursion():
    P(recursion(6))
''',
    "errors": '''
def inner_error(n):
    values = [1, 2]
    return values[n]
def run_errors():
    import traceback
    for n in (0, 5):
        try:
            try:
                P(inner_error(n))
            except IndexError as e:
                raise ValueError("outer %d" % n) from e
        except ValueError as e:
            caught = e
            P(type(caught.__cause__).__name__, caught)
            traceback.print_exc()
''',
    "generators": '''
def numbers(n):
    try:
        for i in range(n):
            got = yield i
            if got:
                P("sent", got)
    finally:
        P("closed", n)
def run_generators():
    g = numbers(4)
    P(next(g), g.send("x"))
    g.close()
    P(list(numbers(3)))
    it = iter([1, 2, 3])
    first = next(it)
    P(first, list(it))
''',
    "threads": '''
def thread_work(n, out):
    total = 0
    for i in range(n):
        total += i
    out.append(total)
def run_threads():
    import threading
    out = []
    ts = [threading.Thread(target=thread_work, args=(i, out), name="host-%d" % i) for i in (3, 5)]
    for t in ts:
        t.start()
        t.join()
    P(out)
''',
    "thread_error": '''
def thread_fails(n):
    text = "thread %d" % n
    raise KeyError(text)
def run_thread_error():
    import threading
    t = threading.Thread(target=thread_fails, args=(1,), name="failing")
    t.start()
    t.join()
    P("joined")
''',
    "asyncio": '''
async def produce(q, n):
    import asyncio
    for i in range(n):
        await q.put(i)
        await asyncio.sleep(0)
    await q.put(None)
async def consume(q):
    out = []
    while True:
        item = await q.get()
        if item is None:
            return out
        out.append(item)
async def both():
    import asyncio
    q = asyncio.Queue()
    r = await asyncio.gather(produce(q, 3), consume(q))
    try:
        await asyncio.wait_for(asyncio.Event().wait(), 0.01)
    except asyncio.TimeoutError:
        r.append("timeout")
    return r
def run_asyncio():
    import asyncio
    P(asyncio.run(both()))
''',
    "random": '''
def draw():
    import random
    return random.random(), random.randint(1, 1000)
def run_random():
    import random
    random.seed(5)
    P([draw() for _ in range(3)], random.choice("abcdef"))
''',
    "logging": '''
def log_it(n):
    import logging
    logging.getLogger("host").info("info %d", n)
    logging.getLogger("host.sub").warning("warning %d", n)
    logging.getLogger("early").error("early %d", n)
    logging.error("root %d", n)
def run_logging():
    import logging
    log_it(1)
    logging.basicConfig(level=logging.INFO, format="%(name)s %(levelname)s %(message)s")
    log_it(2)
''',
    "hostile": '''
class Hostile:
    def __str__(self):
        raise KeyError("str")
    __repr__ = __len__ = __bool__ = __str__
    def __getattribute__(self, name):
        raise ValueError(name)
def hold(h):
    local = h
    other = [local, {"k": local}]
    return len(other)
def run_hostile():
    P(hold(Hostile()))
''',
    "warn": '''
def warn_it():
    import warnings
    warnings.warn("host warning", UserWarning)
def run_warn():
    warn_it()
    P("warned")
''',
    "signals": '''
def on_signal(num, frame):
    P("signal", num, frame.f_code.co_name)
def waits():
    import os, signal
    os.kill(os.getpid(), signal.SIGUSR1)
    done = 1
    return done
def run_signals():
    import signal
    signal.signal(signal.SIGUSR1, on_signal)
    P(waits())
''',
    "atexit": '''
def at_end(n):
    P("at exit", n)
def run_atexit():
    import atexit
    atexit.register(at_end, 1)
    atexit.register(at_end, 2)
''',
    "late_thread": '''
def late():
    import threading
    # (a sleep would make the output depend on how fast the program ends)
    threading.main_thread().join()
    P("late thread")
def run_late_thread():
    import threading
    threading.Thread(target=late, name="late").start()
''',
    "child": '''
def run_child():
    import subprocess, sys
    code = "import os, sys; print(sorted(k for k in os.environ if k.startswith(('DEEP', 'GRPC'))), sys.gettrace())"
    P(subprocess.run([sys.executable, "-c", code], capture_output=True, text=True).stdout.strip())
''',
    "fork": '''
def in_child(n):
    value = n * 2
    return value
def run_fork():
    import os, warnings
    r, w = os.pipe()
    with warnings.catch_warnings():
        # other threads are something to warn of
        warnings.simplefilter("ignore")
        pid = os.fork()
    if pid == 0:
        try:
            os.write(w, str(in_child(4)).encode())
        finally:
            os._exit(3)
    os.close(w)
    P(os.read(r, 100), os.waitpid(pid, 0)[1])
''',
    "context": '''
class Manager:
    def __enter__(self):
        P("enter")
        return self
    def __exit__(self, kind, value, tb):
        P("exit", kind and kind.__name__)
        return kind is KeyError
def in_with(fail):
    with Manager() as m:
        if fail:
            raise KeyError("inside")
    try:
        return "tried"
    finally:
        P("finally")
def run_context():
    P(in_with(False), in_with(True))
''',
    "profile": '''
def profiled():
    x = 1
    return x
def run_profile():
    import sys
    seen = []
    def prof(frame, event, arg):
        if frame.f_code.co_name == "profiled":
            seen.append(event)
    sys.setprofile(prof)
    profiled()
    sys.setprofile(None)
    P(seen)
''',
    "threadlocal": '''
def run_threadlocal():
    import threading, contextvars
    var = contextvars.ContextVar("v", default=1)
    tl = threading.local()
    tl.x = 5
    ctx = contextvars.copy_context()
    ctx.run(var.set, 7)
    P(tl.x, var.get(), ctx[var], len(list(contextvars.copy_context().items())))
''',
    "cwd": '''
def run_cwd():
    import os
    with open("made.txt", "w") as f:
        f.write("x")
    P(sorted(os.listdir(".")))
''',
}

STATE = '''
def state():
    import sys, os, gc, signal, threading, decimal, socket, logging, warnings, locale
    root = logging.getLogger()
    P("state", sys.getrecursionlimit(), sys.getswitchinterval(), sys.excepthook is sys.__excepthook__,
      sys.unraisablehook is sys.__unraisablehook__, threading.excepthook is threading.__excepthook__, sys.stdout is sys.__stdout__,
      sys.stderr is sys.__stderr__, gc.isenabled(), gc.get_threshold(), decimal.getcontext().prec, socket.getdefaulttimeout(),
      threading.stack_size(), sys.getprofile(), sys.displayhook is sys.__displayhook__)
    P("signals", [signal.getsignal(s) for s in (signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE)], signal.getsignal(signal.SIGINT) is signal.default_int_handler)
    P("logging", root.level, len(root.handlers), root.filters, root.disabled, logging.getLogger("early").disabled, logging.root.manager.disable,
      logging.getLoggerClass().__name__, logging.getLogRecordFactory() is logging.LogRecord, logging.raiseExceptions, logging.getLevelName(10),
      logging.lastResort.level, logging.getLogger("early").level, len(logging.getLogger("early").handlers))
    P("env", sorted((k, v) for k, v in os.environ.items() if k not in HIDDEN), os.getcwd(), sys.argv[1:])
    P("path", [p for p in sys.path if p not in EXTRA], locale.setlocale(locale.LC_ALL), os.umask(0o22))
    P("main", sys.modules["__main__"].__name__, __name__)
'''

ENDINGS = {"return": "", "exit0": "import sys\nsys.exit(0)\n", "exit3": "import sys\nsys.exit(3)\n", "exittext": "raise SystemExit('ended by text')\n",
           "error": "def last(n):\n    text = [n]\n    return text[n]\nlast(4)\n", "interrupt": "raise KeyboardInterrupt()\n",
           "_exit": "import os, sys\nsys.stdout.flush()\nos._exit(7)\n"}

RUNNER = '''
import json, os, runpy, sys
opts = json.loads(sys.argv[1])
script = sys.argv[2]
sys.argv = [script, "one", "two"]
sys.path[0] = os.path.dirname(script)
import logging
logging.getLogger("early").setLevel(logging.WARNING)
if opts["quiet"]:
    # a process that forks while another thread writes to the same stream may leave its child with the locked stream: that is so in any
    # CPython program, so the agent's threads do not write to stdout in the programs that fork
    logging.getLogger("deep").addHandler(logging.NullHandler())
    logging.getLogger("deep").propagate = False
agent = None
if opts["agent"]:
    sys.path.insert(1, opts["src"])   # before a deep that is installed
    import deep
    agent = deep.start(opts["config"])
    for t in opts["tps"]:
        agent.register_tracepoint("script.py", t["line"], t["args"], t["watches"])
    # the registrations are applied in the background
    import time
    time.sleep(0.4)
try:
    runpy.run_path(script, init_globals={"HIDDEN": opts["hidden"], "EXTRA": [opts["src"]]}, run_name="__main__")
finally:
    if agent is not None and opts["shutdown"]:
        agent.shutdown()
'''


def script_of(case):
    names = list(dict.fromkeys(case["snippets"]))
    text = "def P(*a):\n    print('H|', *a, flush=True)\n"
    text += "".join(SNIPPETS[n] for n in names) + STATE
    text += "state()\n" if case["state"] != "end" else ""
    for n in names:
        text += "run_%s()\n" % n
    text += "state()\n"
    return text + ENDINGS[case["ending"]]


FRAME = re.compile(r'\n  File "<frozen runpy>".*?(?=\n  File|\n\S)|\n  File "[^"]*runner\.py".*?(?=\n  File|\n\S)', re.S)


# what the gRPC core itself logs (a C library of the environment: it notes a fork while its threads run)
GRPC_LOG = re.compile(r"^(?:[IWE]\d{4} .*\.cc:\d+\] .*|WARNING: All log messages before absl::InitializeLog.*)\n?", re.M)


def outcome(p):
    out = "\n".join(ln for ln in p.stdout.split("\n") if ln.startswith("H|"))
    return {"exit": p.returncode, "stdout": out, "stderr": FRAME.sub("", GRPC_LOG.sub("", p.stderr))}


_SERVICE = []


def run_process(case):
    if not _SERVICE:
        _SERVICE.append(Service())
    svc = _SERVICE[0]
    svc.clear()
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        text = script_of(case)
        n = text.count("\n")
        script = os.path.join(d, "script.py")
        with open(script, "w") as f:
            f.write(text)
        runner = os.path.join(d, "runner.py")
        with open(runner, "w") as f:
            f.write(RUNNER)
        tps = []
        for i, t in enumerate(case["tps"]):
            a = dict(t["args"], fire_count="-1", fire_period="0")
            lines = [k + 1 for k, ln in enumerate(text.split("\n")) if ln.startswith("    ") and k > 2]
            tps.append({"line": lines[t["line"] % len(lines)], "args": a, "watches": t["watches"]})
            if t.get("method"):
                defs = re.findall(r"def (\w+)\(", text)
                a["method_name"] = defs[t["line"] % len(defs)]
                a.pop("stage", None)
        url = {"up": svc.url, "down": "127.0.0.1:1", "bad": "not a url"}[case["service"]]
        res = []
        for agent in (False, True):
            work = os.path.join(d, "work")
            os.makedirs(work)
            opts = {"agent": agent, "src": boot.SRC, "hidden": ["DEEP_POLL_TIMER"], "tps": tps, "shutdown": case["shutdown"], "quiet": "fork" in case["snippets"],
                    "config": {"SERVICE_URL": url, "SERVICE_SECURE": "False", "POLL_TIMER": 1, **case.get("config", {})}}
            env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
            env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            try:
                p = subprocess.run([sys.executable, runner, json.dumps(opts), script], cwd=work, env=env, capture_output=True, text=True, timeout=60,
                                   errors="replace")
            except subprocess.TimeoutExpired as e:
                check(agent is False, "the process with the agent does not end: %s", (e.stdout or b"")[-500:], sig="hang")
                raise
            res.append(outcome(p))
            shutil.rmtree(work)
        for k in ("exit", "stdout", "stderr"):
            if res[0][k] != res[1][k]:
                a, b = str(res[0][k]).split("\n"), str(res[1][k]).split("\n")
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                check(False, "the %s of the process differs: without the agent %r, with it %r", k, a[i:i + 4], b[i:i + 4], sig="process")
        n = len(svc.snapshots)
        return {"nontrivial": n > 0, "labels": [case["service"], case["ending"]] + (["snapshots"] if n else []), "observed": {"snapshots": n}}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def process_cases():
    tp = st.fixed_dictionaries({
        "line": st.integers(0, 150), "watches": st.lists(st.sampled_from(["n", "out", "1/0", "h", "local", "total", "self", "sys"]), max_size=2),
        "args": st.fixed_dictionaries({}, optional={"log_msg": st.sampled_from(["n={n}", "{nope}"]), "frame_type": st.sampled_from(["all_frame", "no_frame"]),
                                                    "condition": st.sampled_from(["True", "n > 1", "1/0"]), "span": st.just("line"),
                                                    "snapshot": st.sampled_from(["collect", "no_collect"]),
                                                    "stage": st.sampled_from(["line_start", "line_capture"])})},
        optional={"method": st.just(True)})
    return st.fixed_dictionaries({
        "snippets": st.lists(st.sampled_from(sorted(SNIPPETS)), min_size=2, max_size=7), "tps": st.lists(tp, min_size=1, max_size=5),
        "ending": st.sampled_from(["return"] + sorted(ENDINGS)), "state": st.sampled_from(["both", "end"]), "service": st.sampled_from(["up", "up", "up", "down", "bad"]),
        "shutdown": st.booleans()},
        optional={"config": st.fixed_dictionaries({}, optional={"NO_TRACE": st.just("False"), "PLUGINS": st.just([]), "APP_ROOT": st.just("/")})})
