"""An independent description of a paused frame, and the comparison of a snapshot with it.

`Ref` is taken from the frame before the agent sees it. It reads the program with the most direct means there are (type(),
exact container iteration, the real instance dictionary) and follows the documented rules, not the code of the agent.
"""
import os
import re
import sys
import types
import unittest.mock

from . import model
from .core import check, safe_str
from .model import Failed

DEFAULTS = {"MAX_VAR_DEPTH": 5, "MAX_VARIABLES": 1000, "MAX_COLLECTION_SIZE": 10, "MAX_STRING_LENGTH": 1024}
LIST_LIKE = (list, tuple, set, frozenset)
ITERATORS = (type(iter([])), type(reversed([])))
NO_CHILDREN = (str, int, float, bool, type, types.ModuleType, type(None), types.TracebackType) + ITERATORS
_name_of = type.__dict__["__name__"].__get__


class Limits:
    def __init__(self, args):
        get = lambda k: model.to_int(args.get(k, DEFAULTS[k]), DEFAULTS[k])  # noqa: E731
        self.depth, self.vars, self.coll, self.string = (get(k) for k in DEFAULTS)


def real_type_name(v):
    return _name_of(type(v))


def text_of(v):
    """The text of a value: (texts that are right, or None when it has none that works)."""
    t = type(v)
    if t is dict or any(t is x for x in LIST_LIKE):
        return ["Size: %d" % len(v)]
    if any(t is x for x in ITERATORS):
        return ["Iterator of type: %s" % t]
    try:
        s = str(v)
        s = str.__str__(s)
    except BaseException:  # noqa: B902
        return None
    out = [s]
    if issubclass(t, (dict,) + LIST_LIKE):
        out.append("Size: %d" % (dict if issubclass(t, dict) else t_base(t)).__len__(v))
    return out


def t_base(t):
    for b in LIST_LIKE:
        if issubclass(t, b):
            return b
    raise TypeError(t)


def key_text(k):
    """Names a dictionary key can have, or None (any)."""
    try:
        if issubclass(type(k), str):
            return [str.__str__(k)]
        return [str.__str__(str(k))]
    except BaseException:  # noqa: B902
        return None


def attr_names(cls, attr):
    """(names an attribute can be shown with)."""
    if type(attr) is not str:
        return key_text(attr)
    own = "_" + _name_of(cls).lstrip("_")
    if own != "_" and attr.startswith(own + "__"):
        return [attr[len(own):]]
    if attr.startswith("_") and not attr.startswith("__") and "__" in attr[1:]:
        # the mangled name of another class: shown as it is, or without the class
        return [attr, attr[attr.index("__", 1):]]
    return [attr]


def dict_overridden(t):
    for c in type.__dict__["__mro__"].__get__(t):
        d = type.__dict__["__dict__"].__get__(c).get("__dict__")
        if d is not None and type(d) is not types.GetSetDescriptorType:
            return True
    return False


class Obj:
    """One object: what its entry in the table must look like."""
    __slots__ = ("obj", "tname", "texts", "children", "open", "candidates", "size", "depth", "fresh")

    def __init__(self, obj):
        self.obj = obj
        self.tname = real_type_name(obj)
        self.texts = text_of(obj)
        self.children = None  # [(accepted names or None, object, real name)]; None: not expanded
        self.open = False
        self.candidates = None  # name -> objects, for objects whose children are not specified
        self.size = None
        self.fresh = False  # made by an expression, so another evaluation gives it another address
        self.depth = None  # the least depth at which it is reached
        if issubclass(type(obj), (unittest.mock.NonCallableMock, unittest.mock._CallList)) \
                or (type(obj) is dict and dict.__contains__(obj, "_mock_children")):
            # every look at a mock changes it (and what it records, and its attributes)
            self.texts, self.open, self.candidates, self.children = None, True, {}, []

    def expand(self, coll):
        if self.children is not None:
            return
        v, t = self.obj, type(self.obj)
        if any(t is x for x in NO_CHILDREN):
            self.children = []
        elif t is dict:
            self.children = [(key_text(k), x, None) for k, x in list(dict.items(v))]
        elif any(t is x for x in LIST_LIKE):
            self.size = t.__len__(v)
            items = list(t.__iter__(v))[:coll]
            self.children = [([str(i)], x, None) for i, x in enumerate(items)]
        elif issubclass(t, Exception):
            self.children = [([str(i)], x, None) for i, x in enumerate(BaseException.args.__get__(v)[:coll])]
        elif issubclass(t, (BaseException, type, dict) + LIST_LIKE) or dict_overridden(t):
            self.open_children(v, t)
        else:
            try:
                d = object.__getattribute__(v, "__dict__")
            except BaseException:  # noqa: B902
                self.children = []
                return
            if type(d) is not dict:
                self.open_children(v, t)
            else:
                self.children = [(attr_names(t, k), x, k) for k, x in list(dict.items(d))]

    def open_children(self, v, t):
        self.open = True
        cand = {}
        try:
            d = object.__getattribute__(v, "__dict__")
            if type(d) is dict:
                for k, x in list(d.items()):
                    for n in attr_names(t, k) or []:
                        cand.setdefault(n, []).append(x)
        except BaseException:  # noqa: B902
            pass
        try:
            if issubclass(t, dict):
                for k, x in list(dict.items(v)):
                    for n in key_text(k) or []:
                        cand.setdefault(n, []).append(x)
            elif issubclass(t, LIST_LIKE):
                for i, x in enumerate(t_base(t).__iter__(v)):
                    cand.setdefault(str(i), []).append(x)
            elif issubclass(t, BaseException):
                for i, x in enumerate(BaseException.args.__get__(v)):
                    cand.setdefault(str(i), []).append(x)
        except BaseException:  # noqa: B902
            pass
        self.candidates = cand
        self.children = []


def modifiers(name):
    return ["private"] if name.startswith("__") else ["protected"] if name.startswith("_") else []


def as_list(v):
    if v is None:
        return []
    if isinstance(v, str):
        v = v.split(",")
    return [x for x in (str(i).strip() for i in v) if x]


def path_of(cfg, filename):
    """(app frame?, accepted short paths) for the configuration in force."""
    exc = as_list(cfg.get("IN_APP_EXCLUDE", os.getenv("DEEP_IN_APP_EXCLUDE"))) + [sys.exec_prefix]
    inc = as_list(cfg.get("IN_APP_INCLUDE", os.getenv("DEEP_IN_APP_INCLUDE")))
    hit = [p for p in exc if filename.startswith(p)]
    if hit:
        return False, [filename[len(p):] for p in hit]
    hit = [p for p in inc if filename.startswith(p)]
    if hit:
        return True, [filename[len(p):] for p in hit]
    root = cfg.get("APP_ROOT", os.getenv("DEEP_APP_ROOT", ""))
    if filename.startswith(root):
        return True, [filename[len(root):]]
    return False, [filename]


class Frame:
    def __init__(self, frame, collect):
        self.file = frame.f_code.co_filename
        self.func = frame.f_code.co_name
        self.line = frame.f_lineno
        try:
            self.locals = dict(frame.f_locals)
        except BaseException:  # noqa: B902
            self.locals = None
        self.collect = collect
        self.classes = class_names(self.locals)


def class_names(loc):
    """Accepted names of the class of self."""
    if loc is None:
        return None
    s = loc.get("self")
    if s is None:
        return [None]
    out = [real_type_name(s)]
    try:
        n = s.__class__.__name__
        if isinstance(n, str):
            out.append(str.__str__(n))
    except BaseException:  # noqa: B902
        pass
    return out


class Ref:
    """The description of a paused frame for one tracepoint."""

    def __init__(self, frame, spec, cfg=None, now=None, watches=True, evaluate=model.evaluate):
        self.spec = spec
        self.cfg = dict(cfg or {})
        self.now = now
        args = spec["args"]
        self.limits = Limits(args)
        self.objs = {}
        ft = args.get("frame_type")
        self.frames = []
        f = frame
        while f is not None:
            n = len(self.frames)
            self.frames.append(Frame(f, ft != "no_frame" and (ft == "all_frame" or n == 0)))
            f = f.f_back
        self.watch_texts = list(spec.get("watches", []))
        self.results = [(w, evaluate(w, frame)) for w in self.watch_texts] if watches else []
        self.logs = [(w, evaluate(w, frame)) for w in spec.get("log_fields", [])] if watches else []
        self.captures = []

    @staticmethod
    def many(frame, specs, *args, **kw):
        """Evaluate for all tracepoints first: an evaluation can change what is described."""
        refs = [Ref(frame, s, *args, **kw) for s in specs]
        for r in refs:
            r.seal()
        return refs

    def seal(self):
        roots = [(x, 2) for fr in self.frames if fr.collect and fr.locals is not None for x in fr.locals.values()]
        roots += [(r, 1) for _, r in self.results + self.logs if type(r) is not Failed]
        self.freeze(roots)
        known = set(self.objs) if not self.results and not self.logs else reach(
            self.objs, [x for fr in self.frames if fr.collect and fr.locals is not None for x in fr.locals.values()])
        for k, o in self.objs.items():
            o.fresh = k not in known
        return self

    def freeze(self, roots):
        """Describe everything that the roots reach within the depth limit."""
        level = {}
        for x, d in roots:
            level.setdefault(d, []).append(x)
        done = {}
        for d in range(1, self.limits.depth + 1):
            for x in level.get(d, ()):
                if id(x) in done:
                    continue
                done[id(x)] = d
                o = self.objs.get(id(x))
                if o is None:
                    o = self.objs[id(x)] = Obj(x)
                    o.depth = d
                if d < self.limits.depth:
                    o.expand(self.limits.coll)
                    nxt = level.setdefault(d + 1, [])
                    nxt.extend(c[1] for c in o.children)
                    if o.candidates:
                        for xs in o.candidates.values():
                            nxt.extend(xs)

    def capture(self, kind, value):
        """What a deferred snapshot must report on completion."""
        sub = Ref.__new__(Ref)
        sub.limits, sub.objs, sub.captures = self.limits, {}, []
        sub.freeze([(value, 1)])
        self.captures.append((kind, value, sub.objs))

    def count(self):
        """How many variables a full collection records at most (every collected frame counts once)."""
        return len(self.objs) + sum(1 for f in self.frames if f.collect) + sum(len(c[2]) for c in self.captures)


def reach(objs, roots):
    seen = set()
    todo = list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen or id(x) not in objs:
            continue
        seen.add(id(x))
        o = objs[id(x)]
        todo += [c[1] for c in o.children or ()]
        for xs in (o.candidates or {}).values():
            todo += xs
    return seen


def same_text(got, want, o):
    return got == want or o.fresh and ADDRESS.sub("0x", got) == ADDRESS.sub("0x", want)


ADDRESS = re.compile("0x[0-9a-f]*")


class Walk:
    """One identity epoch: references of the snapshot against live objects."""

    def __init__(self, ref, snap, objs, partial):
        self.ref, self.snap, self.objs, self.partial = ref, snap, objs, partial
        self.v2o, self.o2v = {}, {}
        self.entered = 0
        self.expanded = 0
        self.placeholders = 0
        self.shared = 0
        self.cut = 0

    def bind(self, vid, obj, where):
        """True when this pair is new."""
        if vid in self.v2o:
            known = self.v2o[vid]
            check(known is obj, "%s: id %s is used for two different objects: a %s and a %s", where, vid,
                  real_type_name(known), real_type_name(obj), sig="shared-id")
            self.shared += 1
            return False
        check(id(obj) not in self.o2v, "%s: one object (%s) is recorded with the ids %s and %s", where,
              real_type_name(obj), self.o2v.get(id(obj)), vid, sig="two-ids")
        self.v2o[vid] = obj
        self.o2v[id(obj)] = vid
        return True

    def entry(self, vid, where):
        check(type(vid) is str and vid in self.snap.var_lookup, "%s: the reference %r is not in the table of variables", where, vid,
              sig="dangling")
        return self.snap.var_lookup[vid]

    def one(self, vid, obj, where):
        """Check the entry of an object on its own."""
        e = self.entry(vid, where)
        o = self.objs.get(id(obj))
        check(o is not None, "%s: nested deeper than %d", where, self.ref.limits.depth, sig="depth")
        check(e.type == o.tname, "%s: type %r, the object is a %r", where, e.type, o.tname, sig="type")
        check(type(e.value) is str, "%s: the value is a %s", where, type(e.value).__name__, sig="value-text")
        lim = self.ref.limits.string
        check(len(e.value) <= lim, "%s: a value of %d characters, the limit is %d", where, len(e.value), lim, sig="string-limit")
        if o.texts is None:
            self.placeholders += 1
        else:
            check(any(same_text(e.value, t[:lim], o) for t in o.texts), "%s: value %r, expected %r", where, e.value[:200],
                  safe_str(o.texts)[:200], sig="value")
            check(any(same_text(e.value, t[:lim], o) and bool(e.truncated) == (len(t) > lim) for t in o.texts),
                  "%s: truncated is %r for a text of length %s, the limit is %d", where, e.truncated, [len(t) for t in o.texts], lim,
                  sig="truncated")
            if len(o.texts[0]) > lim:
                self.cut += 1
        self.entered += 1
        return o, e

    def root(self, pairs, depth):
        """Breadth-first over references from a root; pairs = [(vid, object, where)]."""
        queue = [(vid, obj, depth, where) for vid, obj, where in pairs]
        i = 0
        while i < len(queue):
            vid, obj, d, where = queue[i]
            i += 1
            self.entry(vid, where)
            if not self.bind(vid, obj, where):
                continue
            o, e = self.one(vid, obj, where)
            queue += self.children(o, e, d, where)

    def children(self, o, e, d, where):
        kids = e.children
        coll = self.ref.limits.coll
        if o.children is None:
            check(len(kids) == 0, "%s: has children at depth %d, the limit is %d", where, d, self.ref.limits.depth, sig="depth")
            return []
        if o.open:
            out = []
            for k in kids:
                c = o.candidates.get(k.name)
                if c and len(c) == 1 and id(c[0]) in self.objs:
                    out.append((k.vid, c[0], d + 1, "%s.%s" % (where, k.name)))
                else:
                    self.entry(k.vid, "%s.%s" % (where, safe_str(k.name)))
            return out
        if d >= self.ref.limits.depth and not kids:
            # first reached at the deepest level: what another way to it would allow is open
            return []
        if o.size is not None:
            check(len(kids) <= coll, "%s: %d elements, the limit is %d", where, len(kids), coll, sig="collection-limit")
        want = o.children
        if self.partial:
            check(len(kids) <= len(want), "%s: children %r, the object has %r", where, [k.name for k in kids][:20],
                  [w[0] for w in want][:20], sig="children")
        else:
            check(len(kids) == len(want), "%s: children %r, the object has %r", where, [k.name for k in kids][:20],
                  [w[0] for w in want][:20], sig="children")
        if want:
            self.expanded += 1
        return [(k.vid, w[1], d + 1, "%s.%s" % (where, k.name)) for k, w in match(kids, want, where, o)]


def match(kids, want, where, o):
    """Pair references with the children they must be for, by name."""
    out = []
    rest = list(want)
    for k in kids:
        check(type(k.name) is str, "%s: a child with the name %r", where, safe_str(k.name), sig="name")
        i = next((i for i, w in enumerate(rest) if w[0] is None or k.name in w[0]), None)
        # a name that is known goes before one that cannot be read
        j = next((i for i, w in enumerate(rest) if w[0] is not None and k.name in w[0]), None)
        i = i if j is None else j
        check(i is not None, "%s: unexpected child %r, the object has %r", where, k.name, [w[0] for w in want][:20], sig="children")
        w = rest.pop(i)
        mods = list(k.modifiers or [])
        check(mods == modifiers(k.name), "%s.%s: modifiers %r", where, k.name, mods, sig="modifiers")
        real = w[2]
        if type(real) is str:
            if k.name != real:
                check(k.original_name == real, "%s.%s: original name %r, the attribute is %r", where, k.name, k.original_name, real,
                      sig="original-name")
            else:
                check(k.original_name in (None, real), "%s.%s: original name %r", where, k.name, k.original_name, sig="original-name")
        out.append((k, w))
    return out


def named(ref, snap):
    """The snapshot names its tracepoint and the time."""
    spec, tp = ref.spec, snap.tracepoint
    want_id = spec.get("rid", spec["id"])
    check(tp.id == want_id and tp.path == spec["path"] and tp.line_no == spec["line"], "the snapshot names tracepoint %r %r:%r, "
          "expected %r %r:%r", tp.id, tp.path, tp.line_no, want_id, spec["path"], spec["line"], sig="tracepoint")
    check(dict(tp.args) == dict(spec["args"]), "the snapshot names the arguments %r, expected %r", tp.args, spec["args"],
          sig="tracepoint-args")
    check(list(tp.watches) == list(spec.get("watches", [])), "the snapshot names the watches %r, expected %r", tp.watches,
          spec.get("watches", []), sig="tracepoint-watches")
    if ref.now is not None:
        check(snap.ts_nanos == ref.now, "time %r, expected %r", snap.ts_nanos, ref.now, sig="ts")


def compare(ref, snap, partial=None, captures=True, meta=True):
    """Check a snapshot against the description; returns counters. partial: the budget may have cut something."""
    if partial is None:
        partial = ref.count() > ref.limits.vars or (
            any(o.open for o in ref.objs.values()) and len(snap.var_lookup) + sum(f.collect for f in ref.frames) > ref.limits.vars)
    spec = ref.spec
    if meta:
        named(ref, snap)
    frames = snap.frames
    got = [(f.file_name, f.method_name, f.line_number) for f in frames]
    want = [(f.file, f.func, f.line) for f in ref.frames]
    check(got == want, "stack is %s, expected %s", got[:8], want[:8], sig="stack")
    check(len(snap.var_lookup) <= ref.limits.vars + 1, "%d variables, the limit is %d", len(snap.var_lookup), ref.limits.vars,
          sig="budget")
    walk = Walk(ref, snap, ref.objs, partial)
    n_locals = 0
    for i, (f, r) in enumerate(zip(frames, ref.frames)):
        where = "frame %d (%s)" % (i, r.func)
        if meta and r.classes is not None:
            check(f.class_name in r.classes, "%s: class of self is %r, expected %r", where, f.class_name, r.classes, sig="class")
        if meta:
            app, short = path_of(ref.cfg, r.file)
            check(bool(f.app_frame) == app, "%s: app frame is %r for %s with %r", where, f.app_frame, r.file, ref.cfg, sig="app-frame")
            check(f.short_path in short, "%s: short path %r, expected %r", where, f.short_path, short, sig="short-path")
        names = [v.name for v in f.variables]
        if not r.collect:
            check(not names, "%s: variables %s, but the frame type is %r", where, names, spec["args"].get("frame_type"),
                  sig="frame-type")
            continue
        if r.locals is None:
            continue
        want = [(key_text(k), v, None) for k, v in r.locals.items()]
        if ref.limits.depth < 2:
            check(not names, "%s: variables at depth 2", where, sig="depth")
            continue
        if not partial:
            check(len(names) == len(want), "%s: variables %s, expected %s", where, sorted(names), [w[0] for w in want], sig="locals")
        n_locals += len(names)
        pairs = match(f.variables, want, where, None)
        walk.root([(k.vid, w[1], "%s.%s" % (where, k.name)) for k, w in pairs], 2)
    watches = [x for x in snap.watches if x.source == "WATCH"]
    check([x.expression for x in watches] == ref.watch_texts, "watches %r, expected %r", [x.expression for x in watches],
          ref.watch_texts, sig="watches")
    results(walk, watches, ref.results, partial)
    logs = [x for x in snap.watches if x.source == "LOG"]
    if "log_fields" in spec:
        check([x.expression for x in logs] == [t for t, _ in ref.logs], "log fields %r, expected %r", [x.expression for x in logs],
              spec["log_fields"], sig="log-fields")
        results(walk, logs, ref.logs, partial)
    captured = [x for x in snap.watches if x.source not in ("WATCH", "LOG")]
    check(not captures or len(captured) == len(ref.captures), "captured %r, expected %r", [(x.source, x.expression) for x in captured],
          [c[0] for c in ref.captures], sig="captures")
    for x, (kind, value, objs) in zip(captured if captures else (), ref.captures):
        # a capture is read at another time than the frame, so identity starts again
        check(x.source == "CAPTURE", "the source of a capture is %r", x.source, sig="captures")
        results(Walk(ref, snap, objs, partial), [x], [(kind, value)], partial)
    closed(snap)
    return {"entries": walk.entered, "expanded": walk.expanded, "placeholders": walk.placeholders, "shared": walk.shared,
            "cut": walk.cut, "frames": len(frames), "locals": n_locals, "walk": walk, "partial": partial}


def results(walk, got, want, partial):
    for x, (expr, r) in zip(got, want):
        where = "%s %r" % (x.source, x.expression)
        check(x.expression == expr, "%s: expected %r", where, expr, sig="watches")
        if type(r) is Failed:
            check(x.result is None and type(x.error) is str, "%s fails with %r, reported as %r / %r", where, r.exc, x.result, x.error,
                  sig="watch-failed")
            continue
        if partial and x.result is None:
            check(x.error is not None, "%s has neither result nor error", where, sig="watch-empty")
            continue
        check(x.result is not None and x.error is None, "%s evaluates to a %s, reported as the error %r", where, real_type_name(r),
              x.error, sig="watch-value")
        check(x.result.name == expr, "%s: name %r", where, x.result.name, sig="watch-name")
        walk.root([(x.result.vid, r, where)], 1)


def closed(snap):
    """Every reference of a snapshot is in its table."""
    table = snap.var_lookup
    for f in snap.frames:
        for v in f.variables:
            check(v.vid in table, "frame %s: variable %r refers to %r, which is not in the table", f.method_name, v.name, v.vid,
                  sig="dangling")
    for key, e in table.items():
        check(type(key) is str, "the table has the key %r", key, sig="table")
        for c in e.children:
            check(c.vid in table, "variable %s (%s): child %r refers to %r, which is not in the table", key, e.type, c.name, c.vid,
                  sig="dangling")
    for x in snap.watches:
        if x.result is not None:
            check(x.result.vid in table, "watch %r refers to %r, which is not in the table", x.expression, x.result.vid, sig="dangling")


def levels(ref, roots, first):
    """[ids of the objects at each depth], from these roots."""
    out, seen, cur = [], set(), list(roots)
    d = first
    while cur:
        ids, nxt = set(), []
        for x in cur:
            if id(x) in seen:
                continue
            seen.add(id(x))
            ids.add(id(x))
            if d < ref.limits.depth:
                nxt += [c[1] for c in ref.objs[id(x)].children]
        out.append(ids)
        cur = nxt
        d += 1
    return out


def all_recorded(ref):
    """The objects a collection without a budget records: one root after the other, nothing twice."""
    seen = set()
    roots = [(list(f.locals.values()), 2) for f in ref.frames if f.collect and f.locals is not None]
    roots += [([r], 1) for _, r in ref.results + ref.logs if type(r) is not Failed]
    for cur, d in roots:
        while cur and d <= ref.limits.depth:
            nxt = []
            for x in cur:
                if id(x) not in seen:
                    seen.add(id(x))
                    if d < ref.limits.depth:
                        nxt += [c[1] for c in ref.objs[id(x)].children]
            cur, d = nxt, d + 1
    return seen


def spent_in_order(ref, snap, r):
    """The budget is used up before anything is left out, and everything at one depth comes before anything deeper."""
    recorded = set(r["walk"].o2v)
    left_out = all_recorded(ref) - recorded
    fr = ref.frames[0]
    if not left_out:
        return 0
    n = len(snap.var_lookup) + sum(1 for f in ref.frames if f.collect)
    check(n >= ref.limits.vars, "%d variables are recorded and %d left out, the limit is %d", len(snap.var_lookup), len(left_out),
          ref.limits.vars, sig="left-out")
    if not fr.collect or fr.locals is None:
        return 1
    lv = levels(ref, fr.locals.values(), 2)
    for i, ids in enumerate(lv):
        missing = ids - recorded
        if not missing:
            continue
        for j, deeper in enumerate(lv[i + 1:], i + 1):
            got = deeper & recorded
            check(not got, "%d variables at depth %d are left out (%s), but %d at depth %d are recorded", len(missing), i + 2,
                  [ref.objs[x].tname for x in missing][:5], len(got), j + 2, sig="order")
    return 1


def dump(snap):
    """A picture of a snapshot that does not change with the snapshot."""
    def ref(v):
        return (v.vid, v.name, tuple(v.modifiers or ()), v.original_name)
    return (snap.id, [(f.file_name, f.short_path, f.method_name, f.line_number, f.class_name, f.app_frame, [ref(v) for v in f.variables])
                      for f in snap.frames],
            {k: (e.type, e.value, e.truncated, [ref(c) for c in e.children]) for k, e in snap.var_lookup.items()},
            [(w.source, w.expression, w.result and ref(w.result), w.error) for w in snap.watches], snap.log_msg)


def by_name(snap):
    """A picture of the variables without ids: names lead to contents (back references as the first path)."""
    seen = {}

    def go(v, path):
        e = snap.var_lookup.get(v.vid)
        if e is None:
            return (v.name, "dangling")
        if v.vid in seen:
            return (v.name, "see", seen[v.vid])
        seen[v.vid] = path
        return (v.name, e.type, e.value, e.truncated, None)

    out = []
    todo = [(v, (i, n)) for i, f in enumerate(snap.frames) for n, v in enumerate(f.variables)]
    while todo:
        v, path = todo.pop(0)
        new = v.vid not in seen
        out.append((path, go(v, path)))
        if new and v.vid in snap.var_lookup:
            todo += [(c, path + (n,)) for n, c in enumerate(snap.var_lookup[v.vid].children)]
    return out

