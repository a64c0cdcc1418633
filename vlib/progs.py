"""Generated host programs: a JSON program is rendered to source, compiled under application file names and run.

Programs are deterministic, terminate (fuel per thread) and write their observable output to OUT. The runtime helpers
that they use live in C or in a module of another file name, so that the events of a program are its own.
"""
import linecache
import sys
import threading
import warnings

from . import boot, bottom

FILES = ["/app/x/prog.py", "/app/y/prog.py", "/app/x/other.py"]
VARS = ["v0", "v1", "v2", "v3"]
FNAMES = ["alpha", "beta", "gamma", "alpha", "run"]
EXCS = ["ValueError", "KeyError", "Boom", "StopIteration", "SystemExit"]


# -- generation ----------------------------------------------------------------------------------------------------
def strategy(st, max_funcs=4, depth=3, threads=True, gens=True, values=0, size=5):
    """A strategy of programs. `values` > 0 lets programs refer to V[0..values-1]."""

    var = st.sampled_from(VARS)
    small = st.integers(-2, 5)

    atom = [var.map(lambda v: ["v", v]), small.map(lambda i: ["i", i]), st.just(["a"]), st.just(["b"]),
            st.sampled_from(["", "x", "héllo", "y{z}"]).map(lambda s: ["s", s])]
    if values:
        atom.append(st.integers(0, values - 1).map(lambda i: ["V", i]))
        atom.append(st.integers(0, values - 1).map(lambda i: ["V", i]))
    leaf = st.one_of(atom)

    expr = st.recursive(leaf, lambda e: st.one_of(
        st.tuples(st.just("add"), e, e).map(list),
        st.tuples(st.just("list"), st.lists(e, max_size=3)).map(list),
        st.tuples(st.just("tup"), st.lists(e, max_size=2)).map(list),
        st.tuples(st.just("dict"), st.lists(st.tuples(st.sampled_from(["k", "m", "n"]), e).map(list), max_size=2)).map(list),
        st.tuples(st.just("len"), e).map(list),
        st.tuples(st.just("idx"), e, small).map(list),
        st.tuples(st.just("comp"), e, st.integers(0, 3)).map(list),
        st.tuples(st.just("lam"), e).map(list),
        st.tuples(st.just("obj"), e, e).map(list),
        st.tuples(st.just("call"), st.integers(0, max_funcs - 1), e, e).map(list),
    ), max_leaves=4)

    expr = st.one_of(leaf, leaf, expr)
    cond = st.one_of(st.tuples(st.just("lt"), var, small).map(list), st.just(["true"]), st.just(["false"]),
                     st.tuples(st.just("truthy"), var).map(list))

    simple = [
        st.tuples(st.just("asg"), var, expr).map(list),
        st.tuples(st.just("asg"), var, expr).map(list),
        st.tuples(st.just("emit"), expr).map(list),
        st.tuples(st.just("call"), var, st.integers(0, max_funcs - 1), expr, expr).map(list),
        st.tuples(st.just("call"), var, st.integers(0, max_funcs - 1), expr, expr).map(list),
        st.tuples(st.just("ret"), expr).map(list),
        st.tuples(st.just("raise"), st.sampled_from(EXCS), small).map(list),
        st.tuples(st.just("aug"), var, small).map(list),
        st.tuples(st.just("del"), var).map(list),
        st.tuples(st.just("multi"), var, expr, expr).map(list),
        st.tuples(st.just("unpack"), var, var, expr).map(list),
        st.just(["pass"]),
        st.tuples(st.just("mut"), var, expr).map(list),
    ]
    if gens:
        simple.append(st.tuples(st.just("yield"), var, expr).map(list))
        simple.append(st.tuples(st.just("yfrom"), var, st.integers(0, max_funcs - 1)).map(list))
        simple.append(st.tuples(st.just("gen"), st.integers(0, max_funcs - 1), st.lists(st.sampled_from(
            ["next", "next", "send", "throw", "close", "list", "drop"]), min_size=1, max_size=5)).map(list))
    if threads:
        simple.append(st.tuples(st.just("thread"), st.integers(0, max_funcs - 1), small).map(list))
    simple_stmt = st.one_of(simple)
    loopctl = st.sampled_from([["brk"], ["cont"]])

    hend = st.sampled_from([[], [], [], [["reraise"]], [["raise", "Boom", 9]]])

    def block(d, low=1):
        if d <= 0:
            return st.lists(simple_stmt, min_size=1, max_size=3)
        inner = block(d - 1)
        opt = st.one_of(st.none(), inner)
        body = inner
        lbody = st.tuples(inner, st.one_of(st.just([]), st.tuples(cond, loopctl).map(
            lambda t: [["if", t[0], [t[1]], None]]))).map(lambda t: t[0] + t[1])
        handlers = st.lists(st.tuples(st.sampled_from(["ValueError", "KeyError", "Exception", "Boom", "TypeError"]),
                                      st.tuples(inner, hend).map(lambda t: t[0] + t[1])).map(list), max_size=2)
        compound = st.one_of(
            st.tuples(st.just("if"), cond, body, opt).map(list),
            st.tuples(st.just("for"), var, st.integers(0, 3), lbody).map(list),
            st.tuples(st.just("while"), st.integers(0, 3), lbody).map(list),
            st.tuples(st.just("try"), body, handlers, opt, opt).map(list),
            st.tuples(st.just("try"), body, handlers, opt, opt).map(list),
            st.tuples(st.just("with"), st.sampled_from(["", "ValueError", "KeyError"]), body).map(list),
            st.tuples(st.just("deff"), var, inner).map(list),
            st.tuples(st.just("cls"), var, inner).map(list),
        )
        return st.lists(st.one_of(simple_stmt, compound), min_size=low, max_size=max(size, low))

    func = st.fixed_dictionaries({
        "name": st.integers(0, len(FNAMES) - 1), "mod": st.integers(0, len(FILES) - 1),
        "kind": st.sampled_from(["func", "func", "method", "deco", "async", "static", "gen", "gen"]), 
        "init": st.sampled_from([True, True, True, False]), "body": block(depth, 3)})
    return st.fixed_dictionaries({
        "funcs": st.lists(func, min_size=min(2, max_funcs), max_size=max_funcs),
        "main": st.lists(st.tuples(st.integers(0, max_funcs - 1), small, small).map(list), min_size=2, max_size=5),
        "fuel": st.integers(5, 40),
    })


# -- rendering -----------------------------------------------------------------------------------------------------
class Renderer:
    def __init__(self, prog):
        self.prog = prog
        self.nf = len(prog["funcs"])
        self.files = {f: [] for f in FILES}
        self.names = []  # (file, function name)
        self.tmp = 0

    def e(self, x):
        k = x[0]
        if k == "v":
            return x[1]
        if k in ("a", "b"):
            return k
        if k == "i":
            return str(x[1])
        if k == "s":
            return repr(x[1])
        if k == "V":
            return "V[%d]" % x[1]
        if k == "add":
            return "(%s + %s)" % (self.e(x[1]), self.e(x[2]))
        if k == "list":
            return "[%s]" % ", ".join(self.e(i) for i in x[1])
        if k == "tup":
            return "(%s)" % "".join(self.e(i) + ", " for i in x[1])
        if k == "dict":
            return "{%s}" % ", ".join("%r: %s" % (kk, self.e(i)) for kk, i in x[1])
        if k == "len":
            return "len(%s)" % self.e(x[1])
        if k == "idx":
            return "%s[%d]" % (self.e(x[1]), x[2])
        if k == "comp":
            return "[(q, %s) for q in range(%d)]" % (self.e(x[1]), x[2])
        if k == "lam":
            return "(lambda w: [w, a])(%s)" % self.e(x[1])
        if k == "obj":
            return "Obj(%s, %s)" % (self.e(x[1]), self.e(x[2]))
        if k == "call":
            return self.call(x[1], x[2], x[3])
        raise ValueError(k)

    def call(self, f, a, b):
        f %= self.nf
        # lists in lists in lists: the text of a value would grow with the power of the depth of the calls
        c = "F[%d](%s)" % (f, ", ".join(self.e(x) if x[0] in "is" else "small(%s)" % self.e(x) for x in (a, b)))
        if self.prog["funcs"][f]["kind"] == "async":
            c = "drive(%s)" % c
        return "(%s if next(T.fuel, None) is not None else None)" % c

    def kind(self, f):
        return self.prog["funcs"][f % self.nf]["kind"]

    def c(self, x):
        if x[0] == "lt":
            return "%s < %d" % (x[1], x[2])
        if x[0] == "truthy":
            return x[1]
        return "True" if x[0] == "true" else "False"

    def block(self, out, ind, body, kind, loop=False):
        if not body:
            out.append("%spass" % ind)
        for s in body:
            self.stmt(out, ind, s, kind, loop)

    def stmt(self, out, ind, s, kind, loop):
        k = s[0]
        w = lambda t: out.append(ind + t)  # noqa: E731
        nxt = ind + "    "
        if k == "asg":
            w("%s = %s" % (s[1], self.e(s[2])))
        elif k == "aug":
            w("%s += %d" % (s[1], s[2]))
        elif k == "del":
            w("del %s" % s[1])
        elif k == "emit":
            w("OUT.append(show(%s))" % self.e(s[1]))
        elif k == "call":
            w(("%s = asgen_list(%s)" if self.kind(s[2]) == "gen" else "%s = %s") % (s[1], self.call(s[2], s[3], s[4])))
        elif k == "ret":
            w("return %s" % self.e(s[1]) if kind != "class" else "pass")
        elif k == "raise":
            w("raise %s(%d)" % (s[1], s[2]))
        elif k == "reraise":
            w("raise" if kind != "class" else "pass")
        elif k == "multi":
            w("%s = pair(" % s[1])
            w("    %s," % self.e(s[2]))
            w("    %s" % self.e(s[3]))
            w(")")
        elif k == "unpack":
            w("%s, %s = %s, 1" % (s[1], s[2], self.e(s[3])))
        elif k == "mut":
            w("%s.append(%s)" % (s[1], self.e(s[2])))
        elif k == "pass":
            w("pass")
        elif k == "brk":
            w("break" if loop else "pass")
        elif k == "cont":
            w("continue" if loop else "pass")
        elif k == "yield":
            if kind == "async":
                w("%s = await Aw(%s)" % (s[1], self.e(s[2])))
            elif kind != "gen":
                w("%s = %s" % (s[1], self.e(s[2])))
            else:
                w("%s = yield %s" % (s[1], self.e(s[2])))
        elif k == "yfrom":
            if kind != "gen":
                w("%s = %s" % (s[1], self.call(s[2], ["i", 1], ["i", 2])))
            else:
                w("%s = yield from aslist(%s)" % (s[1], self.call(s[2], ["i", 1], ["i", 2])))
        elif k == "gen":
            g = "g%d" % self.tmp
            self.tmp += 1
            w("%s = asgen(%s)" % (g, self.call(s[1], ["i", 1], ["v", "a"])))
            for op in s[2]:
                if op == "drop":
                    w("%s = None" % g)
                    break
                code = {"next": "next(%s)" % g, "send": "%s.send(3)" % g, "throw": "%s.throw(ValueError('t'))" % g,
                        "close": "%s.close()" % g, "list": "list(%s)" % g}[op]
                w("try:")
                w("    OUT.append(show(%s))" % code)
                w("except (ValueError, TypeError, StopIteration, RuntimeError) as ge:")
                w("    OUT.append(type(ge).__name__)")
        elif k == "thread":
            w("OUT.append(thread(%d, %d))" % (s[1] % self.nf, s[2]))
        elif k == "if":
            w("if %s:" % self.c(s[1]))
            self.block(out, nxt, s[2], kind, loop)
            if s[3] is not None:
                w("else:")
                self.block(out, nxt, s[3], kind, loop)
        elif k == "for":
            w("for %s in range(%d):" % (s[1], s[2]))
            self.block(out, nxt, s[3], kind, True)
        elif k == "while":
            n = "n%d" % self.tmp
            self.tmp += 1
            w("%s = %d" % (n, s[1]))
            w("while %s > 0:" % n)
            out.append("%s%s -= 1" % (nxt, n))
            self.block(out, nxt, s[2], kind, True)
        elif k == "try":
            handlers, els, fin = s[2], s[3], s[4]
            if not handlers and fin is None:
                handlers = [["Exception", [["pass"]]]]
            w("try:")
            self.block(out, nxt, s[1], kind, loop)
            for n, (exc, body) in enumerate(handlers):
                w("except %s as err:" % exc)
                out.append("%sOUT.append(type(err).__name__)" % nxt)
                self.block(out, nxt, body, kind, loop)
            if els is not None and handlers:
                w("else:")
                self.block(out, nxt, els, kind, loop)
            if fin is not None:
                w("finally:")
                self.block(out, nxt, fin, kind, loop)
        elif k == "with":
            w("with CM(%s) as cm:" % (s[1] or "()"))
            self.block(out, nxt, s[2], kind, loop)
        elif k == "deff":
            fn = "inner%d" % self.tmp
            self.tmp += 1
            w("def %s(p, a=a):" % fn)
            self.block(out, nxt, s[2], "gen" if self.tmp % 2 else "func", False)
            w("%s = asgen_list(%s(%s))" % (s[1], fn, "7"))
        elif k == "cls":
            cn = "Local%d" % self.tmp
            self.tmp += 1
            w("class %s(Obj):" % cn)
            out.append("%sa = 1" % nxt)
            self.block(out, nxt, s[2], "class", False)
            w("%s = %s.__name__" % (s[1], cn))
        else:
            raise ValueError(k)

    def init(self, out, ind, fn):
        if fn.get("init"):
            out += [ind + "v0 = a", ind + "v1, v2 = [b, a], 'text'", ind + "v3 = {'k': v1, 'self': None}"]

    def render(self):
        for f in FILES:
            self.files[f] += ["G0 = 'global of %s'" % f, "G1 = [1, 2]"]
        for i, fn in enumerate(self.prog["funcs"]):
            out = self.files[FILES[fn["mod"]]]
            name, kind = FNAMES[fn["name"]], fn["kind"]
            self.names.append((FILES[fn["mod"]], name))
            if kind == "method" or kind == "static":
                out.append("class C%d(Obj):" % i)
                if kind == "static":
                    out.append("    @staticmethod")
                out.append("    def %s(%sa, b):" % (name, "self, " if kind == "method" else ""))
                self.init(out, "        ", fn)
                self.block(out, "        ", fn["body"], kind)
                out.append("F[%d] = C%d(%d, 'c').%s" % (i, i, i, name))
            else:
                if kind == "deco":
                    out.append("@deco")
                out.append("%sdef %s(a, b):" % ("async " if kind == "async" else "", name))
                self.init(out, "    ", fn)
                self.block(out, "    ", fn["body"], kind)
                out.append("F[%d] = %s" % (i, name))
        m = self.files[FILES[0]]
        m.append("def main():")
        for k, (f, a, b) in enumerate(self.prog["main"]):
            m.append("    try:")
            m.append("        r%d = asgen_list(%s)" % (k, self.call(f, ["i", a], ["i", b])))
            m.append("        OUT.append(show(r%d))" % k)
            m.append("    except (Exception, SystemExit) as me:")
            m.append("        OUT.append(exc(me))")
        m.append("    return len(OUT)")
        return {f: "\n".join(ls) + "\n" for f, ls in self.files.items()}


RUNTIME = '''
class Boom(Exception):
    pass


class Obj:
    def __init__(self, x, y):
        self.x = x
        self._y = y
        self.__z = x


class CM:
    def __init__(self, suppress):
        self.suppress = suppress

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.suppress or ())


class Aw:
    def __init__(self, v):
        self.v = v

    def __await__(self):
        got = yield self.v
        return got


def deco(f):
    def wrapper(a, b):
        return f(a, b)
    return wrapper


def pair(a, b):
    return [a, b]


def drive(c):
    n = 0
    try:
        while n < 50:
            n += 1
            c.send(None if n == 1 else n)
    except StopIteration as s:
        return s.value
    finally:
        c.close()


def aslist(x):
    return x if isinstance(x, list) or type(x).__name__ == 'generator' else [x]


def asgen(x):
    return x if type(x).__name__ == 'generator' else iter([x])


def asgen_list(x):
    if type(x).__name__ != 'generator':
        return x
    out = []
    for i in x:
        out.append(i)
        if len(out) > 30:
            break
    x.close()
    return out
'''


def is_a(v, cls):
    """isinstance, without asking the object or its class."""
    return any(c is cls for c in type.__dict__["__mro__"].__get__(type(v)))


def small(v):
    """The value, or 'large' if its text would be too large to use."""
    def size(v, path):
        nonlocal left
        left -= 1
        if left < 0 or len(path) > 60:
            raise OverflowError
        t = type(v)
        if (t is list or t is tuple or t is dict) and id(v) not in path:
            path = path | {id(v)}
            for i in list(v.values()) if t is dict else list(v):
                size(i, path)
    left = 2000
    try:
        size(v, frozenset())
    except OverflowError:
        return "large"
    return v


def show(v, depth=0):
    """A deterministic text of plain data (no user code is called)."""
    t = type(v)
    if t is int and v.bit_length() > 9000:
        return hex(v)
    if any(t is c for c in (int, str, float, bool, type(None), bytes)):
        return repr(v)
    if depth > 4:
        return "..."
    if t is list or t is tuple:
        return "%s(%s)" % (t.__name__, ",".join(show(i, depth + 1) for i in v[:30]))
    if t is dict:
        return "dict(%s)" % ",".join("%s:%s" % (show(k, depth + 1), show(i, depth + 1)) for k, i in list(v.items())[:30])
    try:
        d = object.__getattribute__(v, "__dict__")
    except BaseException:  # noqa: B902
        d = None
    n = type.__dict__["__name__"].__get__(t)
    if type(d) is dict and not is_a(v, type):
        return "%s<%s>" % (n, ",".join("%s=%s" % (show(k, depth + 1), show(d[k], depth + 1)) for k in list(d)[:30]))
    return n


def exc_chain(e, depth=0):
    """Type, args, where it was raised, and the same for its cause and context."""
    tb, where = e.__traceback__, []
    while tb is not None:
        where.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    text = "%s%s@%s" % (type(e).__name__, show(BaseException.args.__get__(e)),
                        ";".join("%s:%s:%s" % w for w in where if not w[0].startswith(boot.VERIF + "/")))
    if depth < 3:
        if e.__cause__ is not None:
            text += " cause " + exc_chain(e.__cause__, depth + 1)
        if e.__context__ is not None:
            text += " context " + exc_chain(e.__context__, depth + 1)
    return text


# the fuel belongs to the thread that runs the program
DRIVER = bottom.compile_driver("""
T.fuel = iter(fuel)
try:
    if start:
        start()
    try:
        try:
            for code, module in codes:
                exec(code, module)
            box['r'] = ('ret', mod['main']())
        except BaseException as e:
            box['r'] = ('exc', exc(e))
    finally:
        box['trace'] = gettrace()
        if stop:
            stop()
except BaseException as e:
    box['error'] = e
""")
_RT = compile(RUNTIME, "/app/rt/runtime_support.py", "exec")
# show/exc are run without being traced as far as the program is concerned: they are in a file of the harness


class Program:
    """A rendered program that can be run several times, each time in a fresh namespace."""

    def __init__(self, prog):
        self.prog = prog
        r = Renderer(prog)
        self.sources = r.render()
        self.names = r.names
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.codes = {f: compile(s, f, "exec") for f, s in self.sources.items()}
        self.nlines = {f: s.count("\n") for f, s in self.sources.items()}

    def functions(self):
        """All function names by file."""
        out = {}

        def walk(code, f):
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    out.setdefault(f, set()).add(c.co_name)
                    walk(c, f)
        for f, c in self.codes.items():
            walk(c, f)
        return out

    def instantiate(self, values=None):
        return Instance(self, values)


class Instance:
    def __init__(self, program, values=None):
        self.program = program
        for f, src in program.sources.items():  # as for real files: the source of a frame can be looked up
            linecache.cache[f] = (len(src), None, src.splitlines(True), f)
        self.out = []
        self.F = [None] * len(program.prog["funcs"])
        self.T = threading.local()
        self.threads = 0
        self.fuel = program.prog["fuel"]
        rt = {"__name__": "runtime_support"}
        exec(_RT, rt)
        self.mods = {}
        for f in FILES:
            g = {"__name__": "app_" + f.strip("/").replace("/", "_")[:-3], "__file__": f, "F": self.F, "OUT": self.out,
                 "T": self.T, "V": values if values is not None else [], "show": show, "small": small, "exc": exc_chain,
                 "thread": self.thread}
            for k in ("Boom", "Obj", "CM", "Aw", "deco", "pair", "drive", "aslist", "asgen", "asgen_list"):
                g[k] = rt[k]
            self.mods[f] = g

    def thread(self, f, arg):
        if self.threads >= 3:
            return "no more threads"
        self.threads += 1
        box = []

        def body():
            self.T.fuel = iter(range(6))
            try:
                r = self.F[f](arg, 2)
                if type(r).__name__ == "coroutine":
                    r.close()
                box.append(show(r))
            except BaseException as e:  # noqa: B902
                box.append(exc_chain(e))

        t = threading.Thread(target=body)
        t.start()
        t.join()
        return box[0] if box else "nothing"

    def _globals(self):
        self.T.fuel = iter(range(self.fuel))
        return {"__name__": "driver", "codes": tuple((self.program.codes[f], self.mods[f]) for f in FILES),
                "mod": self.mods[FILES[0]], "exc": exc_chain, "box": {}, "fuel": range(self.fuel), "T": self.T,
                "start": None, "stop": None, "gettrace": sys.gettrace}

    def run(self):
        """Run all of it (module bodies and main) in the calling thread."""
        g = self._globals()
        exec(DRIVER, g)
        return g["box"]["r"]

    def run_main_thread_safe(self, start=None, stop=None):
        """Run in a fresh thread, with `start`/`stop` called in that thread around it."""
        g = self._globals()
        g["start"], g["stop"] = start, stop
        bottom.run_in_thread(DRIVER, g)
        if "error" in g["box"]:
            raise g["box"]["error"]
        return g["box"]
