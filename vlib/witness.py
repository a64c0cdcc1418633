"""Values that record every use of them, except that their text is built."""
from .core import InjectedBaseFault, InjectedFault

NAMES = [
    "len bool iter next eq ne lt le gt ge hash getattr getattribute contains getitem setitem delitem missing reversed call enter exit await aiter anext "
    "add radd sub mul mod and or xor neg pos abs invert int float complex index round trunc floor ceil bytes length_hint copy deepcopy reduce reduce_ex getstate "
    "setstate sizeof dir instancecheck subclasscheck get set delete setattr delattr format fspath getnewargs concat iadd"][0].split()
PLAIN = ["items", "keys", "values", "get", "pop", "append", "copy", "read", "close", "send", "with_traceback", "add_note", "encode", "lower", "strip", "is_set",
         "isoformat", "tolist", "startswith", "endswith", "split", "join", "format", "replace", "count", "index"]
BASES = {"object": object, "list": list, "dict": dict, "tuple": tuple, "set": set, "frozenset": frozenset, "str": str, "int": int, "float": float,
         "bytes": bytes, "Exception": Exception, "ValueError": ValueError, "BaseException": BaseException, "KeyError": KeyError}
META_NAMES = ["call", "eq", "hash", "bool", "len", "iter", "contains", "getitem", "instancecheck", "subclasscheck", "getattribute", "dir", "lt", "or", "format"]


EXC_STATE = ("__traceback__", "__context__", "__cause__")


def text_of(tag, bad):
    def text(self):
        if bad:
            raise {"E": InjectedFault, "B": InjectedBaseFault, "A": AttributeError}[bad]("text of %s" % tag)
        return "text of %s" % tag
    return text


def make_class(base, log, tag, meta=False, slots=False, props=True, bad=None):
    """A class that adds (tag, what) to log when it is used."""
    on = [False]

    def rec(what):
        if on[0]:
            log.append((tag, what))

    def method(dunder):
        def fn(self, *a, **kw):
            if dunder in ("__setattr__", "__delattr__") and a[0] in EXC_STATE:
                # done by Python itself
                return base.__setattr__(self, *a)
            rec(dunder + (":" + str(a[0]) if dunder in ("__getattribute__", "__getattr__") else ""))
            sup = getattr(base, dunder, None)
            if sup is None:
                if dunder == "__getattr__":
                    raise AttributeError(a[0])
                return 3 if dunder in ("__len__", "__int__", "__index__", "__hash__") else True if dunder == "__bool__" else 2.5 if dunder == "__float__" \
                    else iter(()) if dunder in ("__iter__", "__reversed__") else None
            return sup(self, *a, **kw)
        fn.__name__ = dunder
        return fn
    ns = {"__str__": text_of(tag, bad), "__repr__": text_of(tag, bad)}
    if slots and base in (object, list, dict, set):
        ns["__slots__"] = ("s0", "s1")
    skip = {"await", "get", "set", "delete", "enter", "exit"} if base is not object else {"set", "delete", "get"}
    for n in NAMES:
        if n not in skip:
            ns["__%s__" % n] = method("__%s__" % n)
    for n in PLAIN:
        if base is object or hasattr(base, n):
            ns[n] = method(n)
    if props:
        def cls(self):
            rec("read __class__")
            return C
        ns["__class__"] = property(cls)

        def attr(self):
            rec("read prop")
            return 5
        ns["prop"] = property(attr)
    M = type
    if meta:
        def mmethod(dunder):
            def fn(cls, *a, **kw):
                rec("meta " + dunder + (":" + str(a[0]) if dunder == "__getattribute__" else ""))
                sup = getattr(type, dunder, None)
                return sup(cls, *a, **kw) if sup is not None else 0 if dunder == "__len__" else True if dunder == "__bool__" else iter(()) \
                    if dunder == "__iter__" else None
            return fn
        mns = {"__%s__" % n: mmethod("__%s__" % n) for n in META_NAMES}
        mns["mro_prop"] = property(lambda cls: rec("meta prop"))
        M = type("Meta", (type,), mns)
    C = type.__call__(M, "W_" + tag, (base,), ns) if M is not type else type("W_" + tag, (base,), ns)
    return C, on


def build(specs, log):
    """Values of the specs. They may hold each other: every value only holds earlier ones. Recording starts when the returned switch is called."""
    vals, switches = [], []
    for i, s in enumerate(specs):
        base = BASES[s["base"]]
        C, on = make_class(base, log, "%s%d" % (s["base"], i), s.get("meta", False), s.get("slots", False), s.get("props", True), s.get("bad"))
        kids = [vals[k % len(vals)] for k in s.get("kids", ())] if vals else []
        b = s["base"]
        if b in ("list", "tuple"):
            v = base.__new__(C, kids)
            if b == "list":
                list.__init__(v, kids)
        elif b == "set":
            v = set.__new__(C)
            set.__init__(v, kids[:1])
        elif b == "frozenset":
            v = frozenset.__new__(C, kids[:1])
        elif b == "dict":
            v = dict.__new__(C)
            for n, k in enumerate(kids):
                dict.__setitem__(v, k if n == 0 and s.get("as_key") else "k%d" % n, k)
        elif b in ("str", "int", "float", "bytes"):
            v = base.__new__(C, {"str": "abc", "int": 7, "float": 1.5, "bytes": b"xy"}[b])
        elif b == "object":
            v = object.__new__(C)
        else:
            v = base.__new__(C, *kids)
            base.__init__(v, *kids)
        if not (s.get("slots") and base in (object, list, dict, set)) or b not in ("object", "list", "dict", "set"):
            try:
                d = object.__getattribute__(v, "__dict__")
            except AttributeError:
                d = None
            if d is not None:
                for n, k in enumerate(kids):
                    d["a%d" % n] = k
        vals.append(v)
        switches.append(on)
    # plain containers of them
    plain = []
    for s in specs:
        w = s.get("wrap")
        if w is None:
            plain.append(vals[len(plain)])
            continue
        v = vals[len(plain)]
        plain.append([v, v] if w == "list" else (v,) if w == "tuple" else {"k": v, 1: [v]} if w == "dict" else {v} if w == "set" else {v: 1} if w == "key"
                     else Holder(v))

    def record(flag):
        for o in switches:
            o[0] = flag
    return plain, record


class Holder:
    def __init__(self, v):
        self.held = v
        self.__priv = v
