"""C15 Deferred work (spans, captures) is completed exactly once, in its own thread."""
import collections
import sys
import threading
import warnings

from hypothesis import strategies as st

from vlib import bottom, progs, sched, snapref, tps
from vlib.core import HarnessError, InjectedBaseFault, InjectedFault, Part, check, safe_str
from vlib.model import Model
from vlib.world import Tracer, World, plugin_classes

META = {"assumptions": [
    "work opened at a line is completed at the next line, exception or return event of the same invocation, work opened at the entry of a "
    "function when that invocation returns or unwinds; giving up control in a generator (yield, await) may count as returning",
    "that a generator continues is also a 'call' event for Python; whether it opens something is not asserted, if it does, it must be completed",
    "the order of completions within one event is not asserted",
    "a captured exception is shown as the (type, exception, traceback) that Python delivers",
]}

TL = threading.local()
MON = sys.monitoring
TOOL = 4


def monitoring():
    """Ask the interpreter (not the trace hook under test) how each frame is left. It tells so right after the 'return' event."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "verif")

    def left(kind):
        def cb(code, offset, value):
            todo = getattr(TL, "todo", None)
            if todo is not None:
                TL.todo = None
                todo(kind, value, code)
        return cb
    E = MON.events
    MON.register_callback(TOOL, E.PY_RETURN, left("return"))
    MON.register_callback(TOOL, E.PY_YIELD, left("yield"))
    MON.register_callback(TOOL, E.PY_UNWIND, left("unwind"))
    MON.set_events(TOOL, E.PY_RETURN | E.PY_YIELD | E.PY_UNWIND)


class Opening:
    def __init__(self, what, tp, inv, thread, event, no, name):
        self.what, self.tp, self.inv, self.thread, self.event, self.no, self.name = what, tp, inv, thread, event, no, name

    def __str__(self):
        return "%s of %s (opened at the %r event of invocation %s of %s)" % (self.what, self.tp, self.event, self.inv, self.name)


class Judge:
    """Follows openings and completions over the events of all threads."""

    def __init__(self, world, specs, remove_at=None, step=None):
        self.w, self.specs = world, specs
        self.model = Model(specs)
        self.by_rid = {s["rid"]: s for s in specs}
        self.inv, self.invs, self.no = {}, 0, 0
        self.pending, self.maybe = {}, {}
        self.stats = collections.Counter()
        self.remove_at = remove_at
        self.step = step
        self.closed_spans = set()
        self.errors = []
        self.seen = {}
        self.unseen = 0

    def before(self, frame, event, arg):
        if getattr(TL, "todo", None) is not None:
            TL.todo = None
            raise HarnessError("how a frame is left is not known")
        if self.step is not None:
            self.step()
        self.no += 1
        if self.remove_at is not None and self.no == self.remove_at:
            self.w.uninstall()
            self.model.tps = []
        now = self.w.tick()
        due, unknown = self.model.due(frame, event, now)
        if id(frame) not in self.inv:
            self.invs += 1
            self.inv[id(frame)] = self.invs
        seen = self.seen.setdefault(self.inv[id(frame)], [])
        if event == "exception":
            seen.append((self.no, arg[1]))
        if event == "line" and sys.exc_info()[1] is not None:
            seen.append((self.no, sys.exc_info()[1]))
        return now, due, unknown, self.no, self.inv[id(frame)]

    def after(self, frame, event, arg, tok, items):
        if tok is None:
            return
        if event != "return":
            return self.judge(frame, event, arg, tok, items, None)

        def todo(*left):
            try:
                if left[2] is not frame.f_code:
                    raise HarnessError("how %s is left is not known: %r" % (frame.f_code.co_name, left))
                self.judge(frame, event, arg, tok, items, left)
            except BaseException as e:  # noqa: B902
                self.errors.append(e)
        TL.todo = todo

    def judge(self, frame, event, arg, tok, items, left):
        now, due, unknown, no, inv = tok
        me = self.w.rec.me()
        name = frame.f_code.co_name
        kind = left[0] if left else None

        def new(what, tp):
            return Opening(what, tp, inv, me, event, no, name)

        for tp, act in due:
            if act.kind == "snap" and tp.deferred:
                self.pending["snap", tp.spec["rid"], now] = new("capture", tp.spec["id"])
                self.stats["captures"] += 1
        for tp in unknown:
            if tp.deferred:
                self.maybe["snap", tp.spec["rid"], now] = new("capture", tp.spec["id"])
        at = "%r event of invocation %s of %s (line %s)" % (kind or event, inv, name, frame.f_lineno)
        for i in items:
            if i["kind"] == "open":
                self.pending["span", i["plugin"], i["serial"]] = new("span", i["tp"])
                self.stats["spans"] += 1
            elif i["kind"] == "close":
                key = "span", i["plugin"], i["serial"]
                check(key not in self.closed_spans, "the span of %s is closed twice, now at the %s", i["tp"], at, sig="twice")
                o = self.pending.pop(key, None)
                check(o is not None, "a span of %s is closed at the %s, but was not opened", i["tp"], at, sig="twice")
                self.closed_spans.add(key)
                self.complete(o, i, event, kind, inv, no, me, at)
            elif i["kind"] == "snap":
                snap = i["snapshot"]
                spec = self.by_rid.get(snap.tracepoint.id)
                if spec is None or not spec["args"].get("stage", "").endswith("_capture"):
                    continue
                key = "snap", snap.tracepoint.id, snap.ts_nanos
                o = self.pending.pop(key, None) or self.maybe.pop(key, None)
                check(o is not None, "a capture of %s is sent at the %s, but is not pending", spec["id"], at, sig="twice")
                self.complete(o, i, event, kind, inv, no, me, at)
                self.captured(o, snap, spec, event, kind, left, arg, at)
        if kind in ("return", "unwind"):
            # the invocation has ended
            left_open = [o for o in self.pending.values() if o.inv == inv]
            check(not left_open, "%s is still pending after the %s", "; ".join(map(str, left_open)), at, sig="late")
            del self.inv[id(frame)]
            self.seen.pop(inv, None)
            if kind == "unwind":
                self.stats["unwound"] += 1

    def complete(self, o, item, event, kind, inv, no, me, at):
        check(o.thread == me, "the %s is completed by another thread", o, sig="thread")
        check(no > o.no, "the %s is completed before the program has moved on", o, sig="early")
        check(inv == o.inv, "the %s is completed at the %s", o, at, sig="invocation")
        if o.event == "line":
            check(event in ("line", "exception", "return"), "the %s is completed at the %s", o, at, sig="early")
        else:
            check(event == "return", "the %s is completed at the %s", o, at, sig="early")
        self.stats["completed-" + (kind or event)] += 1
        if o.no + 1 < no:
            self.stats["events-between"] += 1

    def captured(self, o, snap, spec, event, kind, left, arg, at):
        got = [x for x in snap.watches if x.source not in ("WATCH", "LOG")]
        if event == "line":
            check(not got, "the %s has a result (%s) although the line did not return or raise", o,
                  [(x.expression, snap.var_lookup[x.result.vid].value if x.result else x.error) for x in got], sig="result")
            return
        check(len(got) == 1 and got[0].source == "CAPTURE", "the %s is completed at the %s with the results %s", o, at,
              [(x.source, x.expression) for x in got], sig="result")
        x = got[0]
        raised = event == "exception" or kind == "unwind"
        check(x.expression == ("exception" if raised else "return"), "the %s is completed at the %s as %r", o, at, x.expression, sig="result")
        sub = snapref.Ref.__new__(snapref.Ref)
        sub.limits, sub.objs, sub.captures, sub.spec, sub.frames = snapref.Limits(spec["args"]), {}, [], spec, []
        exc = left[1] if kind == "unwind" else arg[1] if raised else None
        if kind == "unwind" and not any(e is exc and no >= o.no for no, e in self.seen[o.inv]):
            # nothing the interpreter reports to a trace function after the opening has shown this exception
            self.stats["unwound-unseen"] += 1
            if x.result is None or exception_text(snap, x) != (type(exc).__name__, safe_str(exc, 1024)):
                self.unseen += 1
            return
        value = (type(exc), exc, exc.__traceback__) if raised else arg
        sub.capture("exception" if raised else "return", value)
        objs = sub.captures[0][2]
        partial = len(snap.var_lookup) + len(objs) > sub.limits.vars
        if raised:
            if x.result is None:
                check(partial, "the %s has no result: %r", o, x.error, sig="result")
                return
            var = snap.var_lookup[x.result.vid]
            check(var.type == "tuple", "the %s reports a %s as the exception", o, var.type, sig="result")
            kids = {c.name: snap.var_lookup[c.vid] for c in var.children}
            if partial and set(kids) != {"0", "1", "2"}:
                return
            check(set(kids) == {"0", "1", "2"}, "the %s reports the exception as %s", o, sorted(kids), sig="result")
            check(kids["0"].value == str(type(exc)) and kids["1"].type == type(exc).__name__ and kids["1"].value == safe_str(exc, 1024),
                  "the %s is completed by %r, it reports %r", o, exc, (kids["0"].value, kids["1"].value), sig="result")
            self.stats["captured-exception"] += 1
        else:
            snapref.results(snapref.Walk(sub, snap, objs, partial), [x], [("return", value)], partial)
            self.stats["captured-value"] += 1

    def end(self):
        for e in self.errors:
            raise e
        check(not self.pending, "at the end %s pending", "; ".join(map(str, self.pending.values())), sig="left")
        check(not self.unseen, "%d captures report another exception than the one that ended the invocation; it was in flight already when the "
              "tracepoint on the 'with' line was hit on the way out", self.unseen, sig="capture-with-exit")


def exception_text(snap, x):
    kids = {c.name: snap.var_lookup[c.vid] for c in snap.var_lookup[x.result.vid].children}
    return (kids["1"].type, kids["1"].value) if "1" in kids else None


def faulty(which):
    if not which:
        return None, None
    kind = {"close": InjectedFault, "close-base": InjectedBaseFault, "push": InjectedFault, "push-base": InjectedBaseFault}[which]

    def fault(tag, op):
        if op == "close" and tag == "span0" and which.startswith("close"):
            raise kind("close")

    def push(tag, op):
        raise kind("push")
    return fault, push if which.startswith("push") else None


def prepare(case, program, keep=()):
    lines, fns = tps.executed_lines(program)
    specs = tps.resolve(case["tps"], lines, fns, unlimited=True)
    for s in specs:
        a = s["args"]
        if "_" in a.get("stage", "") and a["stage"].endswith("end"):
            a["stage"] = a["stage"].replace("end", "capture")
        if a.get("stage", "").endswith("capture"):
            a.pop("snapshot", None)
    return specs


def result(j, extra=()):
    stats = dict(j.stats)
    done = stats.get("spans", 0) + stats.get("captures", 0)
    return {"nontrivial": done >= 2 and stats.get("events-between", 0) > 0, "labels": sorted(k for k, v in stats.items() if v) + list(extra),
            "observed": stats}


def run_program(case, program, instances=1):
    specs = prepare(case, program)
    fault, push = faulty(case.get("fault"))
    w = World(spans=case.get("spans", 1), fault=fault, push=push)
    try:
        w.install(specs)
        j = Judge(w, specs, case.get("remove"))
        for _ in range(instances):
            tr = Tracer(w, j.before, j.after)
            tr.run(program.instantiate())
            check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
            j.end()
        return result(j)
    finally:
        w.close()


def run_programs(case):
    return run_program(case, progs.Program(case["prog"]), case.get("runs", 1))


def spec_st(logs=False):
    return tps.spec(st, metrics=False, limits=False, watches=False, log=logs, frame_types=False, stages=(
        "line_capture", "method_capture", "line_start", "line_capture", "method_capture"))


def program_cases():
    return st.fixed_dictionaries(
        {"prog": progs.strategy(st), "tps": st.lists(spec_st(), min_size=2, max_size=7)},
        optional={"fault": st.sampled_from(["close", "close-base", "push", "push-base"]), "spans": st.integers(1, 2),
                  "remove": st.integers(5, 150), "runs": st.integers(1, 2)})


# -- shapes: hand-written programs with generated tracepoints on every line -------------------------------------------
SHAPES = ['''
def fact(n):
    if n <= 0:
        return 1
    r = n * fact(n - 1)
    return r
def odd(n):
    return n and even(n - 1)
def even(n):
    return not n or odd(n - 1)
def boom(n):
    if n == 0:
        raise ValueError("deep")
    try:
        return boom(n - 1)
    finally:
        n = -n
def main():
    fact(4)
    odd(5)
    try:
        boom(3)
    except ValueError as e:
        OUT.append(exc(e))
    return [fact(i) for i in range(3)]
''', '''
def swallow():
    try:
        raise ValueError("lost")
    except ValueError:
        pass
    return "kept"
def swap():
    try:
        raise ValueError("first")
    except ValueError:
        raise KeyError("second")
def swapped():
    try:
        swap()
    finally:
        raise Boom("third")
def override():
    try:
        raise ValueError("gone")
    finally:
        return "value"
def bare():
    try:
        raise ValueError("again")
    except ValueError as e:
        keep = e
        try:
            raise KeyError("inner")
        except KeyError:
            pass
        raise
def later():
    try:
        raise ValueError("stored")
    except ValueError as e:
        keep = e
    x = 1
    raise keep
def suppressed():
    with CM(ValueError):
        raise ValueError("suppressed")
    return 5
def none():
    try:
        raise ValueError("handled")
    except ValueError:
        return None
def handled_then_none():
    try:
        {}["k"]
    except KeyError:
        pass
def cond():
    try:
        raise ValueError(1)
    except KeyError:
        return 1
def chained():
    try:
        try:
            raise ValueError(1)
        except ValueError as e:
            raise KeyError(2) from e
    except KeyError as k:
        raise k.__cause__
def main():
    for f in (swallow, swap, swapped, override, bare, later, suppressed, none, handled_then_none, cond, chained):
        try:
            OUT.append(show(f()))
        except Exception as e:
            OUT.append(exc(e))
''', '''
def gen(n):
    for i in range(n):
        got = yield i
        if got:
            return got
def outer(n):
    r = yield from gen(n)
    yield r
def stops():
    yield 1
    raise StopIteration("inside")
def closes():
    try:
        yield 1
        yield 2
    finally:
        done = 1
def catches():
    while True:
        try:
            yield 1
        except ValueError:
            yield "caught"
def nothing():
    return
    yield
def genret():
    yield 1
    return "result"
def main():
    OUT.append(show(list(gen(3))))
    OUT.append(show(list(outer(2))))
    for make in (stops, closes, catches, nothing, genret):
        for ops in (("n", "n", "n"), ("n", "t", "n"), ("n", "c"), ("t",), ("n",), ("c", "n")):
            g = make()
            for op in ops:
                try:
                    if op == "n":
                        OUT.append(show(next(g)))
                    elif op == "t":
                        OUT.append(show(g.throw(ValueError("thrown"))))
                    else:
                        OUT.append(show(g.close()))
                except (ValueError, RuntimeError, StopIteration) as e:
                    OUT.append(exc(e))
    g = gen(5)
    next(g)
    OUT.append(g.send("sent") if False else "x")
    try:
        g.send("sent")
    except StopIteration as e:
        OUT.append(e.value)
    return any(q > 1 for q in gen(4))
''', '''
class Ctx:
    def __init__(self, n):
        self.n = n
    def __enter__(self):
        return self
    def __exit__(self, *a):
        OUT.append("exit %s" % self.n)
        return self.n == 2
    @property
    def value(self):
        return self.n * 2
    def __add__(self, o):
        return Ctx(self.n + o.n)
    def __iter__(self):
        yield self.n
        yield self.value
    def __del__(self):
        self.n = None
def use():
    with Ctx(1) as a, Ctx(2) as b:
        (a + b).value
        raise ValueError("in with")
    return list(a)
def one(n): return n + 1
def lambdas():
    f = lambda q: one(q); g = lambda q: f(f(q))
    return sorted([3, 1, 2], key=lambda v: -g(v))
def nested():
    def inner(k):
        def innermost():
            return k
        return innermost() + one(k)
    return [inner(i) for i in range(2)]
def loop():
    total = 0
    for i in range(3): total += one(i)
    while total > 4: total = one(total) - 3
    return total
def main():
    use()
    lambdas()
    nested()
    return loop()
''', '''
class Later:
    def __init__(self, v): self.v = v
    def __await__(self):
        r = yield self.v
        return r
async def leaf(n):
    r = await Later(n)
    if n == 2:
        raise ValueError("async %s" % n)
    return r
async def top(n):
    total = 0
    for i in range(n):
        try:
            total += await leaf(i)
        except ValueError:
            total -= 1
    return total
async def agen(n):
    for i in range(n):
        yield i
async def consume():
    out = []
    async for i in agen(2):
        out.append(i)
    return [j async for j in agen(2)] + out
def run(c):
    v = None
    while True:
        try:
            v = c.send(1 if v is not None else None)
        except StopIteration as s:
            return s.value
def main():
    OUT.append(show(run(top(4))))
    OUT.append(show(run(consume())))
    a, b = top(2), top(3)
    a.send(None)
    b.send(None)
    run2 = [a, b]
    for c in run2:
        try:
            c.send(5)
        except StopIteration:
            pass
    a.close()
    try:
        b.throw(KeyError("thrown"))
    except KeyError as e:
        OUT.append(exc(e))
''', '''
import threading
def work(n, box):
    for i in range(n):
        box.append(i)
    if n == 2:
        raise ValueError("in thread")
    return n
def gen(n):
    for i in range(n):
        x = yield i
def run(f, *a):
    try:
        return f(*a)
    except ValueError:
        return "failed"
def advance(g, box):
    box.append(next(g, None))
def main():
    box = []
    g = gen(4)
    next(g)
    for n in range(4):
        t = threading.Thread(target=run, args=(work, n, box))
        t.start()
        t.join()
        t = threading.Thread(target=run, args=(advance, g, box))
        t.start()
        t.join()
    next(g, None)
    return len(box)
''', '''
def many(n):
    a = one(n); b = one(a)
    return (a,
            one(b),
            [one(c) for c in (a, b)])
def one(n):
    return n + 1
def exit_early():
    for i in range(3):
        try:
            if i == 1:
                continue
            if i == 2:
                break
        finally:
            one(i)
    else:
        return "no"
    return i
def group():
    try:
        raise ExceptionGroup("g", [ValueError(1), KeyError(2)])
    except* ValueError:
        one(1)
def match(x):
    match x:
        case [a, b]:
            return one(a)
        case {"k": v}:
            return v
        case _:
            raise Boom(x)
def fails_in_args():
    return one(one("text"))
def asserts():
    assert one(1) == 3, one(5)
def deletes():
    v = one(1)
    del v
    return v
def main():
    for f, a in ((many, (1,)), (exit_early, ()), (group, ()), (match, ([1, 2],)), (match, ({"k": 5},)), (match, (7,)), (fails_in_args, ()),
                 (asserts, ()), (deletes, ())):
        try:
            OUT.append(show(f(*a)))
        except Exception as e:
            OUT.append(type(e).__name__)
''', '''
def down(n):
    if n == 0:
        return leaf(n)
    return via(down, n - 1)
def via(f, n):
    return f(n)
def leaf(n):
    raise Boom("bottom")
def main():
    try:
        down(34)
    except Boom as e:
        OUT.append(exc(e))
''']


class Shape(progs.Program):
    def __init__(self, text):
        self.prog = {"funcs": [], "fuel": 10}
        self.sources = {f: "" for f in progs.FILES}
        self.sources[progs.FILES[0]] = text
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.codes = {f: compile(s, f, "exec") for f, s in self.sources.items()}


_SHAPES = {}


def shape(i):
    if i not in _SHAPES:
        _SHAPES[i] = Shape(SHAPES[i])
    return _SHAPES[i]


def run_shapes(case):
    return run_program(case, shape(case["shape"]), case.get("runs", 1))


def every(i):
    """A capture, and a span, on every line and every function of a shape."""
    p = shape(i)
    lines, fns = tps.executed_lines(p)
    lines = sorted(set(lines))
    for n, (path, line) in enumerate(lines):
        yield {"shape": i, "tps": [{"where": ["hit", 0], "args": {"stage": "line_capture"}, "at": [path, line]},
                                   {"where": ["hit", 0], "args": {"snapshot": "no_collect", "span": "line"}, "at": [path, line]}]}
    for n, (path, fn) in enumerate(fns):
        yield {"shape": i, "tps": [{"where": ["fn", 0, n], "args": {"stage": "method_capture", "span": "method"}}]}


def run_every(case):
    program = shape(case["shape"])
    specs = prepare(case, program)
    for s, t in zip(specs, case["tps"]):
        if "at" in t:
            s["path"], s["line"] = t["at"]
        s.pop("at", None)
    w = World()
    try:
        w.install(specs)
        j = Judge(w, specs)
        tr = Tracer(w, j.before, j.after)
        tr.run(program.instantiate())
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        j.end()
        r = result(j)
        r["nontrivial"] = j.stats["spans"] + j.stats["captures"] > 0
        return r
    finally:
        w.close()


def every_case(tier):
    for i in range(len(SHAPES)):
        yield from every(i)


def shape_cases():
    return st.fixed_dictionaries(
        {"shape": st.integers(0, len(SHAPES) - 1), "tps": st.lists(spec_st(), min_size=3, max_size=12)},
        optional={"fault": st.sampled_from(["close", "close-base", "push", "push-base"]), "spans": st.integers(1, 2),
                  "remove": st.integers(5, 300), "runs": st.integers(1, 2)})


# -- threads: several programs at once, switched at chosen events -----------------------------------------------------
class Turn:
    """One thread runs at a time; the schedule says at which of its events it gives the turn to which other thread."""

    def __init__(self, starters, schedule):
        self.starters, self.schedule = starters, list(schedule)
        self.n = len(starters)
        self.sem = [threading.Semaphore(0) for _ in starters]
        self.threads = [None] * self.n
        self.done = [False] * self.n
        self.ended = threading.Semaphore(0)
        self.next = None
        self.switches = 0
        self.me = threading.local()

    def begin(self, i):
        self.me.i = i
        self.sem[i].acquire()

    def step(self):
        i = getattr(self.me, "i", None)
        if i is None or not self.schedule:
            return
        s = self.schedule.pop(0)
        if s == 0:
            return
        others = [t for t in range(self.n) if t != i and not self.done[t]]
        if not others:
            return
        t = others[s % len(others)]
        self.switches += 1
        self.give(t)
        self.sem[i].acquire()

    def give(self, t):
        if self.threads[t] is None:
            self.threads[t] = self.starters[t]()
        self.sem[t].release()

    def end(self, i):
        self.done[i] = True
        self.last = i
        self.ended.release()

    def run(self):
        self.give(0)
        while True:
            if not self.ended.acquire(timeout=60):
                raise HarnessError("the turn was lost")
            # let the thread end really, so that its ident can be used again
            self.threads[self.last].join()
            rest = [t for t in range(self.n) if not self.done[t]]
            if not rest:
                return
            self.give(rest[0])


def run_threads(case):
    program = shape(case["shape"]) if "shape" in case else progs.Program(case["prog"])
    specs = prepare(case, program)
    fault, push = faulty(case.get("fault"))
    w = World(fault=fault, push=push)
    try:
        w.install(specs)
        turn = Turn([None] * case["n"], case["schedule"])
        j = Judge(w, specs, case.get("remove"), turn.step)
        tr = Tracer(w, j.before, j.after, serial=False)
        boxes = []

        def starter(i):
            def start():
                turn.begin(i)
                sys.settrace(tr.trace)

            def stop():
                sys.settrace(None)
                turn.end(i)

            def go():
                g = program.instantiate()._globals()
                g["start"], g["stop"] = start, stop
                boxes.append(g["box"])
                return bottom.start_in_thread(progs.DRIVER, g)
            return go
        turn.starters = [starter(i) for i in range(case["n"])]
        turn.run()
        for e in tr.errors + [b["error"] for b in boxes if "error" in b]:
            raise e
        check(not tr.raised, "the handler raised into the application: %r", tr.raised[:1], sig="raised")
        j.end()
        r = result(j, ["switched"] if turn.switches else [])
        r["nontrivial"] = r["nontrivial"] and turn.switches > 1
        return r
    finally:
        w.close()


def thread_cases():
    schedule = st.one_of(st.lists(st.sampled_from([0, 1, 2]), min_size=10, max_size=200),
                         st.lists(st.sampled_from([0, 0, 0, 0, 0, 1, 2]), min_size=10, max_size=300))
    return st.one_of(
        st.fixed_dictionaries({"prog": progs.strategy(st, threads=False), "n": st.integers(2, 4), "schedule": schedule,
                               "tps": st.lists(spec_st(), min_size=2, max_size=6)},
                              optional={"fault": st.sampled_from(["close", "push"]), "remove": st.integers(5, 150)}),
        st.fixed_dictionaries({"shape": st.sampled_from([0, 1, 2, 3, 4, 6]), "n": st.integers(2, 4), "schedule": schedule,
                               "tps": st.lists(spec_st(), min_size=2, max_size=8)}))


# -- live: the real hooks; the span plugin looks at the host frames itself --------------------------------------------
def host_frame():
    f = sys._getframe(1)
    while f is not None and not f.f_code.co_filename.startswith("/app/"):
        f = f.f_back
    return f


def run_live(case):
    program = shape(case["shape"]) if "shape" in case else progs.Program(case["prog"])
    specs = prepare(case, program)
    model = Model(specs)
    expected = collections.Counter()
    unsure = {tp.spec["id"] for tp in model.tps if tp.nameless or tps.leaves_generators(program)}

    def rec(frame, event, arg):
        if frame.f_code.co_filename.startswith("/app/"):
            due, unknown = model.due(frame, event, 0)
            for tp, act in due:
                expected[tp.spec["id"], act.kind] += 1
            unsure.update(tp.spec["id"] for tp in unknown)
        return rec

    def start():
        sys.settrace(rec)
        threading.settrace(rec)

    def stop():
        sys.settrace(None)
        threading.settrace(None)
    runs = case.get("runs", 1)
    for _ in range(runs):
        program.instantiate().run_main_thread_safe(start, stop)
    w = World(spans=0)
    errors = []
    state = {"open": {}, "n": 0, "closed": 0}
    base = plugin_classes()["span"]
    from deep.api.plugin.span import Span

    class LiveSpan(Span):
        def __init__(self, tp, frame):
            self.tp, self.thread, self.frame, self.where = tp, w.rec.me(), id(frame), (frame.f_code.co_name, frame.f_lineno)
            self.closed = 0

        name = property(lambda s: "n")
        trace_id = property(lambda s: "t")
        span_id = property(lambda s: "s")

        def add_attribute(self, key, value):
            pass

        def add_event(self, name, attributes=None):
            pass

        def close(self):
            frame = host_frame()
            self.closed += 1
            if self.closed != 1:
                errors.append("the span of %s is closed again" % self.tp)
            if self.thread != w.rec.me():
                errors.append("the span of %s is closed by another thread" % self.tp)
            elif id(frame) != self.frame:
                errors.append("the span of %s opened in %s is closed in %s" % (self.tp, self.where, frame and frame.f_code.co_name))
            state["closed"] += 1

    class LiveSpans(base):
        def create_span(self, name, context_id, tracepoint_id):
            s = LiveSpan(tracepoint_id, host_frame())
            spans.append(s)
            return s

    spans = []
    w.config.plugins = list(w.plugins) + [LiveSpans(config=w.config).setup(w.rec, "live")]
    try:
        w.install(specs)
        for r in range(runs):
            box = program.instantiate().run_main_thread_safe(w.handler.start if r == 0 else None, w.handler.shutdown if r == runs - 1 else None)
            if "error" in box:
                raise box["error"]
            check(not errors, "%s", errors[:3], sig="live")
            left = [s for s in spans if not s.closed]
            check(not left, "the span of %s opened in %s is never closed", left and left[0].tp, left and left[0].where, sig="live")
        to_id = {s["rid"]: s["id"] for s in specs}
        got = collections.Counter((to_id[s.tp], "span") for s in spans)
        got.update((to_id[i["tp"]], "snap") for i in w.rec.of("snap"))
        for key in set(expected) | set(got):
            if key[0] not in unsure and key[1] in ("span", "snap"):
                check(got[key] == expected[key], "%s of %s: %d, expected %d", key[1], key[0], got[key], expected[key], sig="live-count")
        return {"nontrivial": len(spans) + sum(expected.values()) > 2, "labels": ["spans"] if spans else [],
                "observed": {"spans": len(spans), "snapshots": len(w.rec.of("snap"))}}
    finally:
        w.close()


def live_cases():
    return st.one_of(
        *[st.fixed_dictionaries({"prog": progs.strategy(st, gens=g), "tps": st.lists(spec_st(), min_size=2, max_size=6)},
                                optional={"runs": st.integers(1, 3)}) for g in (True, False)],
        st.fixed_dictionaries({"shape": st.integers(0, len(SHAPES) - 1), "tps": st.lists(spec_st(), min_size=2, max_size=8)},
                              optional={"runs": st.integers(1, 3)}))


# -- otel: the span processor that is built in, with the SDK of OpenTelemetry ----------------------------------------------
_SINK = []


def setup_otel():
    from opentelemetry import trace
    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider

    class Sink(SpanProcessor):
        def on_start(self, span, parent_context=None):
            _SINK[0](span, True)

        def on_end(self, span):
            _SINK[0](span, False)
    provider = TracerProvider()
    provider.add_span_processor(Sink())
    trace.set_tracer_provider(provider)


def run_otel(case):
    from deep.api.plugin.otel import OTelPlugin
    from opentelemetry import trace
    program = shape(case["shape"]) if "shape" in case else progs.Program(case["prog"])
    specs = prepare(case, program)
    w = World(decorators=0)
    state, errors, ours = {}, [], set()

    def sink(span, started):
        key = (span.context.trace_id, span.context.span_id)
        frame = host_frame()
        if started:
            state[key] = {"name": span.name, "attributes": dict(span.attributes), "thread": w.rec.me(), "frame": id(frame), "ended": 0,
                          "where": frame and (frame.f_code.co_name, frame.f_lineno)}
            if span.name != "host":
                w.rec.add("otel-open", tp=span.attributes.get("tracepoint"))
            return
        s = state[key]
        s["ended"] += 1
        if key in ours:
            return
        w.rec.add("otel-close", tp=s["attributes"].get("tracepoint"))
        if s["ended"] != 1:
            errors.append("the span %s is ended again" % s)
        if s["thread"] != w.rec.me():
            errors.append("the span %s is ended by another thread" % s)
        elif s["frame"] != id(frame):
            errors.append("the span %s is ended in %s" % (s, frame and frame.f_code.co_name))
    _SINK[:] = [sink]
    w.config.plugins = list(w.plugins) + [OTelPlugin(config=w.config)]
    try:
        w.install(specs)
        tracer = trace.get_tracer("app")
        after = {}

        def start():
            if case["host"]:
                span = after["span"] = tracer.start_span("host")
                ours.add((span.context.trace_id, span.context.span_id))
                after["cm"] = trace.use_span(span, end_on_exit=False)
                after["cm"].__enter__()
            w.handler.start()

        def stop():
            w.handler.shutdown()
            after["current"] = trace.get_current_span()
            if case["host"]:
                after["cm"].__exit__(None, None, None)
            after["left"] = trace.get_current_span()
        box = program.instantiate().run_main_thread_safe(start, stop)
        if "error" in box:
            raise box["error"]
        check(not errors, "%s", errors[:3], sig="otel")
        want = after["span"] if case["host"] else trace.INVALID_SPAN
        check(after["current"] is want, "when the program ends the current span is %s and not that of the application", after["current"], sig="otel-context")
        check(after["left"] is trace.INVALID_SPAN, "when the application has left its span the current span is %s", after["left"], sig="otel-context")
        if case["host"]:
            key = (after["span"].context.trace_id, after["span"].context.span_id)
            check(not state[key]["ended"], "the span of the application is ended", sig="otel")
            after["span"].end()
            check(state[key]["ended"] == 1, "the span of the application cannot be ended", sig="otel")
        left = [s for k, s in state.items() if not s["ended"]]
        check(not left, "the span %s is never ended", left[:1], sig="otel")
        # next to another span processor: the same spans, and they end together
        per = {}
        for i in w.rec.items:
            if i["kind"] in ("open", "otel-open", "close", "otel-close"):
                per.setdefault((i["thread"], i["tp"]), []).append(i["kind"])
        n = 0
        for (_, tp), kinds in per.items():
            a = [k for k in kinds if not k.startswith("otel")]
            b = [k[5:] for k in kinds if k.startswith("otel")]
            n += len(b)
            check(a == b, "the spans of %s: one processor gets %s, OpenTelemetry gets %s", tp, a[:20], b[:20], sig="otel")
            pairs = [sorted(kinds[k:k + 2]) for k in range(0, len(kinds), 2)]
            check(all(p[1] == "otel-" + p[0] for p in pairs), "the spans of %s do not start and end together: %s", tp, pairs[:10], sig="otel")
        return {"nontrivial": n > 1, "labels": (["spans"] if n else []) + (["host span"] if case["host"] else []), "observed": {"events": n}}
    finally:
        w.close()
        _SINK[:] = [lambda s, b: None]


def otel_cases():
    return st.one_of(
        st.fixed_dictionaries({"prog": progs.strategy(st), "tps": st.lists(spec_st(), min_size=2, max_size=6), "host": st.booleans()}),
        st.fixed_dictionaries({"shape": st.integers(0, len(SHAPES) - 1), "tps": st.lists(spec_st(), min_size=2, max_size=8), "host": st.booleans()}))


# -- preempt: switches inside the agent's event handler ----------------------------------------------------------------
BODY = "".join("def %s():\n    r = 0\n    yield 1\n    yield 2\n    yield 3\n\n" % n for n in ("alpha", "beta", "gamma"))
_NS = {}
exec(compile(BODY, "/app/x/prog.py", "exec"), _NS)
LEVELS = ["alpha", "beta", "gamma"]


def run_preempt(case):
    specs = []
    for i, t in enumerate(case["tps"]):
        a = {"fire_count": "-1", "fire_period": "0"}
        s = {"id": "tp%d" % i, "path": "prog.py", "line": 1, "args": a, "via": "service"}
        if t["line"]:
            s["line"] = 6 * t["level"] + 2 + t["line"]
        else:
            a["method_name"] = LEVELS[t["level"]]
        if t["kind"] in ("span", "both"):
            a["span"] = "line" if t["line"] else "method"
        if t["kind"] in ("capture", "both"):
            a["stage"] = ("line" if t["line"] else "method") + "_capture"
        else:
            a["snapshot"] = "no_collect"
            a["stage"] = ("line" if t["line"] else "method") + "_start"
        specs.append(s)
    w = World()
    try:
        w.install(specs)
        errors = []
        logs = []

        def body(script, values):
            log = []
            logs.append(log)

            def deliver(gen, level, event, arg=None):
                mark = w.rec.mark()
                w.tick()
                try:
                    w.handler.trace_call(gen.gi_frame, event, arg)
                except BaseException as e:  # noqa: B902
                    errors.append("the handler raised %r" % e)
                log.append((id(gen), level, event, gen.gi_frame.f_lineno, arg, w.rec.since(mark), w._mine.now))

            def go():
                stack = []
                for op in script:
                    if op == "call" and len(stack) < 3:
                        g = _NS[LEVELS[len(stack)]]()
                        stack.append(g)
                        deliver(g, len(stack) - 1, "call")
                    elif op == "line" and stack:
                        if next(stack[-1], None) is None:
                            deliver(stack[-1], 0, "x") if False else None
                            stack[-1].close()
                            stack.pop()
                            continue
                        deliver(stack[-1], len(stack) - 1, "line")
                    elif op == "exc" and stack:
                        e = ValueError(len(log))
                        deliver(stack[-1], len(stack) - 1, "exception", (ValueError, e, None))
                    elif op == "ret" and stack:
                        deliver(stack[-1], len(stack) - 1, "return", values + len(log))
                        keep.append(stack.pop())
                while stack:
                    deliver(stack[-1], len(stack) - 1, "return", values + len(log))
                    keep.append(stack.pop())
            return go
        keep = []
        fns = [body(clean(s), 1000 * (i + 1)) for i, s in enumerate(case["scripts"])]
        sc = sched.Sched(fns, case["schedule"])
        if not sc.run():
            raise HarnessError("threads did not finish")
        for e in sc.errors:
            if e is not None:
                raise e
        check(not errors, "%s", errors[:2], sig="raised")
        n = 0
        for log in logs:
            pending = {}
            for gen, level, event, line, arg, items, now in log:
                for i in items:
                    if i["kind"] == "open":
                        pending["span", i["serial"]] = (gen, event)
                        n += 1
                    elif i["kind"] in ("close", "snap"):
                        key = ("span", i["serial"]) if i["kind"] == "close" else ("snap", i["tp"], i["snapshot"].ts_nanos)
                        o = pending.pop(key, None)
                        check(o is not None, "%s of %s is completed in a thread where it is not pending", i["kind"], i["tp"], sig="thread")
                        check(o[0] == gen and (event == "return" if o[1] == "call" else event in ("line", "exception", "return")),
                              "%s of %s opened at %r is completed at %r of %s", i["kind"], i["tp"], o[1], event, LEVELS[level], sig="early")
                        if i["kind"] == "snap" and event == "return":
                            cap = [x for x in i["watches"] if x.source == "CAPTURE"]
                            check(len(cap) == 1 and i["snapshot"].var_lookup[cap[0].result.vid].value == str(arg),
                                  "%s captured %r, returned was %r", i["tp"], cap, arg, sig="result")
                for s in specs:
                    a = s["args"]
                    if a["stage"].endswith("capture") and event == ("call" if "method_name" in a else "line") and (
                            a.get("method_name") == LEVELS[level] or "method_name" not in a and s["line"] == line):
                        pending["snap", s["id"], now] = (gen, event)
                        n += 1
                if event == "return":
                    check(not [o for o in pending.values() if o[0] == gen], "%s is pending after the return of %s",
                          [k for k, o in pending.items() if o[0] == gen], LEVELS[level], sig="late")
            check(not pending, "%s pending at the end", list(pending), sig="left")
        return {"nontrivial": n > 2 and sc.switches > 0, "labels": ["switched"] if sc.switches else [], "observed": {"openings": n, "switches": sc.switches}}
    finally:
        w.close()


def clean(script):
    """At most three lines for each invocation."""
    out, depth = [], []
    for op in script:
        if op == "call" and len(depth) < 3:
            depth.append(0)
        elif op == "line" and depth:
            if depth[-1] == 3:
                continue
            depth[-1] += 1
        elif op == "exc" and depth and depth[-1]:
            pass
        elif op == "ret" and depth:
            depth.pop()
        else:
            continue
        out.append(op)
    return out


def preempt_cases():
    script = st.lists(st.sampled_from(["call", "call", "line", "line", "line", "ret", "exc"]), min_size=3, max_size=14)
    tp = st.fixed_dictionaries({"kind": st.sampled_from(["span", "capture", "both"]), "level": st.integers(0, 2), "line": st.integers(0, 3)})
    return st.fixed_dictionaries({"tps": st.lists(tp, min_size=1, max_size=6), "scripts": st.lists(script, min_size=2, max_size=3),
                                  "schedule": sched.schedules(st, 3, 1200, 6)})


def preempt_each(tier):
    """Two threads in the same function: the second runs from each step of the first."""
    for n, kinds in enumerate((["both"], ["span"], ["capture", "span"])):
        tps = [{"kind": k, "level": 0, "line": l} for k in kinds for l in (0, 1)]
        scripts = [["call", "line", "line", "ret"], ["call", "line", "exc", "ret"]]
        for step in range(1 + n, 6000, 3 if tier == "thorough" else 29):
            yield {"tps": tps, "scripts": scripts, "schedule": {"order": [0, 1], "pre": [[step, 1]]}}


PARTS = [
    Part("programs", run_programs, program_cases, quick=700, thorough=10000, shards=4, thorough_shards=8, setup=monitoring,
         rule="at least two openings in a generated program, one completed after other events"),
    Part("shapes", run_shapes, shape_cases, quick=300, thorough=4000, shards=2, thorough_shards=8, setup=monitoring,
         rule="at least two openings in a hand-written program, one completed after other events"),
    Part("every", run_every, None, exhaustive_cases=every_case, shards=2, setup=monitoring,
         rule="every line and function of the hand-written programs; something is opened"),
    Part("threads", run_threads, thread_cases, quick=300, thorough=4000, shards=3, thorough_shards=8, setup=monitoring,
         rule="as programs, with at least two switches between threads"),
    Part("live", run_live, live_cases, quick=300, thorough=4000, shards=2, thorough_shards=8,
         rule="more than two openings under the real trace hooks"),
    Part("otel", run_otel, otel_cases, quick=200, thorough=3000, shards=2, thorough_shards=4, setup=setup_otel, rule="a span was opened"),
    Part("preempt", run_preempt, preempt_cases, exhaustive_cases=preempt_each, quick=400, thorough=4000, shards=2, thorough_shards=8,
         rule="more than two openings, with a switch inside the event handler"),
]
