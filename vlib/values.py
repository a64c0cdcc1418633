"""A universe of program values: JSON graph descriptions are built into live objects, with sharing and cycles."""
import array
import asyncio
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import io
import itertools
import re
import sys
import threading
import types
import unittest.mock
import weakref

from .core import InjectedBaseFault, InjectedFault


class Plain:
    class_attr = "shared by all"

    def method(self):
        return 1


class _Under(Plain):
    pass


class __Dunder(Plain):
    pass


class Child(Plain):
    pass


class Slots:
    __slots__ = ("a", "b")


class SlotsAndDict(Slots):
    pass


class WithRepr:
    def __repr__(self):
        return "<custom repr>"


class WithStr:
    def __str__(self):
        return "custom str é\U0001f600"


class LongStr:
    def __str__(self):
        return "long" * 600


class Boom(Exception):
    pass


class BoomArgs(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.extra = "attribute"


def hostile(kind, exc):
    """A class with one hostile operation that raises exc."""
    def fail(self, *a, **k):
        raise exc("hostile %s" % kind)
    ns = {"__init__": lambda self: None}
    bases = (object,)
    if kind in ("__str__", "__repr__", "__getattribute__", "__hash__", "__eq__", "__bool__", "__len__", "__iter__", "__getattr__",
                "__format__", "__dir__", "__sizeof__", "__reduce__", "__del__x", "__contains__", "__getitem__"):
        ns[kind] = fail
    if kind == "__eq__":
        ns["__hash__"] = lambda self: 7
    if kind in ("__dict__", "__class__", "__slots__x", "__name__", "__module__x"):
        ns[kind] = property(fail)
    if kind == "all":
        for op in ("__str__", "__repr__", "__getattribute__", "__hash__", "__eq__", "__ne__", "__bool__", "__len__", "__iter__",
                   "__format__", "__lt__", "__contains__", "__getitem__", "__call__", "__int__", "__float__", "__index__"):
            ns[op] = fail
        ns["__dict__"] = ns["__class__"] = property(fail)
    return type("Hostile", bases, ns)


HOSTILE = ["__str__", "__repr__", "__getattribute__", "__getattr__", "__hash__", "__eq__", "__bool__", "__len__", "__iter__", "__format__",
           "__dict__", "__class__", "__name__", "all"]
EXC = {"E": InjectedFault, "B": InjectedBaseFault, "A": AttributeError, "K": KeyboardInterrupt, "S": SystemExit, "R": RecursionError,
       "I": StopIteration, "G": GeneratorExit}


class NonStr:
    def __str__(self):
        return 42


class NoneStr:
    def __str__(self):
        return None


class EvilStr(str):
    def __len__(self):
        raise InjectedFault("len")

    def __getitem__(self, i):
        raise InjectedFault("getitem")

    def __str__(self):
        raise InjectedFault("str")

    def __format__(self, spec):
        raise InjectedFault("format")

    def startswith(self, *a):
        raise InjectedFault("startswith")

    def encode(self, *a):
        raise InjectedFault("encode")


class StrOfEvil:
    """str() gives an instance of a subclass of str."""

    def __str__(self):
        return EvilStr("evil text")


class StrSub(str):
    pass


class IntSub(int):
    pass


class ListSub(list):
    pass


class ListSubBadLen(list):
    def __len__(self):
        raise InjectedFault("len")

    def __iter__(self):
        raise InjectedFault("iter")


class DictSub(dict):
    pass


class DictSubBad(dict):
    def items(self):
        raise InjectedFault("items")

    def __str__(self):
        raise InjectedFault("str")

    def __len__(self):
        raise InjectedBaseFault("len")


class TupleSub(tuple):
    pass


class SetSub(set):
    pass


class LyingClass:
    @property
    def __class__(self):
        return dict


class ListClass:
    @property
    def __class__(self):
        return list


class DictNotDict:
    """__dict__ of the instance hidden by a class attribute that is no dict."""
    __dict__ = 5


class DictEmptyProperty:
    def __init__(self):
        pass

    @property
    def __dict__(self):
        return {"not": "real"}


class GetattrAll:
    def __getattr__(self, name):
        return name


class Recursive:
    def __str__(self):
        return str(self)


class Meta(type):
    @property
    def __name__(cls):
        raise InjectedFault("name")

    def __repr__(cls):
        raise InjectedFault("repr")

    def __eq__(cls, other):
        raise InjectedFault("eq")

    def __hash__(cls):
        return 3

    def __instancecheck__(cls, o):
        raise InjectedFault("instancecheck")

    def __subclasscheck__(cls, o):
        raise InjectedFault("subclasscheck")

    def __getattribute__(cls, n):
        raise InjectedFault("getattribute")


class MetaEqAll(type):
    """Classes that claim to be equal to every type."""

    def __eq__(cls, other):
        return True

    def __hash__(cls):
        return hash(list)


OddMeta = Meta("OddMeta", (), {"__str__": lambda self: "odd meta"})
EqAll = MetaEqAll("EqAll", (), {"__str__": lambda self: "eq all"})


def named(name, **ns):
    return type(name, (), ns)


class MyEnum(enum.Enum):
    A = 1
    B = "b"


class MyFlag(enum.IntFlag):
    X = 1
    Y = 2


NT = collections.namedtuple("NT", "x y")


@dataclasses.dataclass
class Data:
    x: object = None
    y: object = 2


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: object = 1


def gen_fn():
    yield 1
    yield 2


async def coro_fn():
    return 1


async def agen_fn():
    yield 1


def dead_proxy():
    p = Plain()
    r = weakref.proxy(p)
    del p
    return r


_keep = []


def live_weak():
    p = Plain()
    _keep.append(p)
    del _keep[:-50]
    return weakref.ref(p)


def tb():
    try:
        raise Boom("tb")
    except Boom as e:
        return e.__traceback__


def exc_with_context():
    try:
        try:
            raise Boom("inner", 1)
        except Boom as e:
            raise ValueError("outer") from e
    except ValueError as e:
        return e


def deep_list(n, leaf):
    out = leaf
    for _ in range(n):
        out = [out]
    return out


def deep_deque():
    out = collections.deque()
    for _ in range(5000):
        out = collections.deque([out])
    return out


def partial_init(cls):
    return cls.__new__(cls)


def exc_bad_args():
    class E(Exception):
        @property
        def args(self):
            raise InjectedFault("args")

        def __str__(self):
            raise InjectedFault("str")
    return E("real", "args")


def proxy_of(o):
    class Proxy:
        def __getattribute__(self, n):
            return getattr(o, n)
    return Proxy()


def evil_dict_keys():
    d = {}
    k = hostile("__str__", InjectedFault)()
    d[k] = "bad str key"
    d[hostile("__repr__", InjectedBaseFault)()] = "bad repr key"
    d[EvilStr("evil key")] = "evil key value"
    d[StrSub("sub key")] = 1
    d[NonStr()] = 2
    return d


class EvilKey:
    """A key that can only be compared and hashed while it is inserted."""

    armed = False

    def __hash__(self):
        if self.armed:
            raise InjectedFault("hash of a key")
        return 7

    def __eq__(self, other):
        if self.armed:
            raise InjectedFault("comparison of a key")
        return self is other

    def __bool__(self):
        raise InjectedFault("truth of a key")

    def __lt__(self, other):
        raise InjectedFault("order of keys")


def odd_keys():
    a, b = EvilKey(), EvilKey()
    d = {float("nan"): 1, float("inf"): 2, "b": 3, b"b": 4, 1: 5, "1": 6, a: 7, b: 8, frozenset([1]): 9, Plain: 10, "": 11, None: 12, "None": 13}
    a.armed = b.armed = True
    return d


def none_values():
    return {"a": None, "b": 0, "c": "", "d": [], "e": False, "f": {}, "g": float("nan"), "h": ()}


def odd_attr_names():
    o = Plain()
    o.__dict__.update({"": 1, "with space": 2, "__dunder__": 3, "_p": 4, "__q": 5, "_Plain__mangled": 6, "_Plain_": 7, "é": 8,
                       "_Other__m": 9, "\ud800": 10, "_Plain__": 11, "__Plain__z": 12, "x_Plain__y": 13, "a_Plain__": 14, "_PLAIN__u": 15})
    return o


def non_str_attr():
    o = Plain()
    o.__dict__[5] = "int attribute"
    o.__dict__[(1, 2)] = "tuple attribute"
    return o


class Descr:
    """Class attributes that raise when read through the instance."""
    @property
    def bad(self):
        raise InjectedFault("property")

    def __init__(self):
        self.fine = 1


def cell():
    x = 5

    def f():
        return x
    return f.__closure__[0]


LEAVES = {
    "oddkeys": odd_keys, "nonevalues": none_values, "nonelist": lambda: [None, 0, "", [], False, {}, float("nan"), ()],
    "nanset": lambda: {float("nan"), float("nan"), 1, None, False}, "bigtuple": lambda: tuple(range(40)), "bigfs": lambda: frozenset(range(40)),
    "manyattrs": lambda: _attrs(Plain(), 60),
    "int": lambda: 5, "big": lambda: 10 ** 40, "neg": lambda: -3, "float": lambda: 2.5, "nan": lambda: float("nan"),
    "str": lambda: "text", "empty": lambda: "", "long": lambda: "x" * 3000, "surrogate": lambda: "a\ud800b", "uni": lambda: "é\U0001f600\x00",
    "nul": lambda: "a\x00b", "s1024": lambda: "y" * 1024, "s1025": lambda: "y" * 1025, "true": lambda: True, "none": lambda: None,
    "bytes": lambda: b"ab\xff", "bytearray": lambda: bytearray(b"xy"), "complex": lambda: 1 + 2j, "ellipsis": lambda: ...,
    "notimpl": lambda: NotImplemented, "range": lambda: range(3), "slice": lambda: slice(1, 2), "hugeint": lambda: 1 << 20000,
    "slots": Slots, "slotsset": lambda: _slots(), "slotsdict": lambda: _slots(SlotsAndDict), "withrepr": WithRepr, "withstr": WithStr,
    "longstr": LongStr, "nonstr": NonStr, "nonestr": NoneStr, "evilstr": lambda: EvilStr("evil"), "strofevil": StrOfEvil,
    "strsub": lambda: StrSub("sub"), "intsub": lambda: IntSub(4), "lying": LyingClass, "listclass": ListClass, "dictnotdict": DictNotDict,
    "dictprop": DictEmptyProperty, "getattrall": GetattrAll, "recursive": Recursive, "oddmeta": lambda: type.__call__(OddMeta),
    "oddmetacls": lambda: OddMeta, "eqall": lambda: EqAll(), "eqallcls": lambda: EqAll, "namedlist": lambda: named("list")(),
    "nameddict": lambda: named("dict")(), "namedstr": lambda: named("str")(), "namednone": lambda: named("NoneType")(),
    "namedset": lambda: _attrs(named("set")()), "namedtuple_": lambda: _attrs(named("tuple")()), "namedfs": lambda: named("frozenset")(),
    "namedexc": lambda: named("Exception")(), "nameditr": lambda: named("list_iterator")(), "badname": lambda: named("has space")(),
    "enum": lambda: MyEnum.A, "flag": lambda: MyFlag.X | MyFlag.Y, "gen": gen_fn, "genstarted": lambda: _started(), "coro": lambda: _coro(),
    "agen": agen_fn, "listiter": lambda: iter([1, 2]), "reviter": lambda: reversed([1, 2]), "dictiter": lambda: iter({"a": 1}),
    "dictkeys": lambda: {"a": 1}.keys(), "dictitems": lambda: {"a": 1}.items(), "map": lambda: map(str, [1]), "zip": lambda: zip([1], [2]),
    "filter": lambda: filter(None, [1]), "enumerate": lambda: enumerate([1]), "count": lambda: itertools.count(),
    "tee": lambda: itertools.tee([1])[0], "setiter": lambda: iter({1}), "tupleiter": lambda: iter((1, 2)), "rangeiter": lambda: iter(range(3)),
    "striter": lambda: iter("ab"), "file": lambda: io.StringIO("text"), "fileclosed": lambda: _closed(), "lock": threading.Lock,
    "rlock": threading.RLock, "module": lambda: sys.modules["json"] if "json" in sys.modules else sys, "function": lambda: gen_fn,
    "lambda": lambda: (lambda: 1), "builtin": lambda: len, "cls": lambda: Plain, "excls": lambda: ValueError, "method": lambda: Plain().method,
    "property": lambda: property(lambda s: 1), "partial": lambda: functools.partial(print, 1), "deque": lambda: collections.deque([1, 2]),
    "deepdeque": deep_deque, "odict": lambda: collections.OrderedDict(a=1), "ddict": lambda: collections.defaultdict(list, a=[1]),
    "counter": lambda: collections.Counter("aab"), "nt": lambda: NT(1, [2]), "data": Data, "frozen": Frozen, "weakref": live_weak,
    "deadproxy": dead_proxy, "deadref": lambda: weakref.ref(Plain()), "memoryview": lambda: memoryview(b"ab"), "mvreleased": lambda: _mv(),
    "date": lambda: datetime.datetime(2020, 1, 2), "decimal": lambda: decimal.Decimal("1.5"), "fraction": lambda: fractions.Fraction(1, 3),
    "mock": unittest.mock.MagicMock, "mock2": unittest.mock.Mock, "local": threading.local, "match": lambda: re.match("a", "abc"),
    "regex": lambda: re.compile("a+"), "tb": tb, "code": lambda: gen_fn.__code__, "mapproxy": lambda: types.MappingProxyType({"a": 1}),
    "array": lambda: array.array("i", [1, 2]), "super": lambda: _super(), "simplens": lambda: types.SimpleNamespace(a=1, b=[2]),
    "exc": lambda: Boom("boom", 2, [3]), "excargs": lambda: BoomArgs("x"), "excctx": exc_with_context, "excempty": ValueError,
    "excbad": exc_bad_args, "kbd": lambda: KeyboardInterrupt("stop", 5), "sysexit": lambda: SystemExit(3), "keyerror": lambda: KeyError("k"),
    "excgroup": lambda: _group(), "unicodeerr": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), "proxy": lambda: proxy_of([1, 2]),
    "evilkeys": evil_dict_keys, "oddattrs": odd_attr_names, "nonstrattr": non_str_attr, "descr": Descr, "cell": cell, "partialinit": lambda: partial_init(Data),
    "emptylist": list, "emptydict": dict, "emptytuple": tuple, "emptyset": set, "frozenset": lambda: frozenset([1, 2]),
    "listbad": lambda: ListSubBadLen([1, 2]), "dictbad": lambda: DictSubBad(a=1), "listsub": lambda: ListSub([1, 2]),
    "dictsub": lambda: DictSub(a=1), "tuplesub": lambda: TupleSub([1, 2]), "setsub": lambda: SetSub([1]), "deep": lambda: deep_list(3000, 1),
    "intkeys": lambda: {1: "a", 2.5: "b", None: "c", (1, 2): "d", True: "e"}, "surrkeys": lambda: {"\ud800": 1, "\x00": 2},
    "biglist": lambda: list(range(500)), "bigdict": lambda: {"k%d" % i: i for i in range(60)}, "bigset": lambda: set(range(40)),
    "future": lambda: _future(), "userlist": lambda: collections.UserList([1]), "userdict": lambda: collections.UserDict(a=1),
    "chainmap": lambda: collections.ChainMap({"a": 1}), "environ": lambda: os_environ(), "type": lambda: type, "object": object, "thread": lambda: threading.Thread(),
    "abc": lambda: collections.abc.Mapping, "enumcls": lambda: MyEnum, "under": lambda: _mangled(_Under), "dunder": lambda: _mangled(__Dunder_()),
    "child": lambda: _mangled(Child), "nestedexc": lambda: Exception(Exception(Exception("inner"), [1])), "strkeys": lambda: {"": 1, "a b": 2, "__p": 3, "_q": 4},
}


def __Dunder_():
    return globals()["__Dunder"]


def _mangled(cls):
    o = cls()
    base = cls.__name__.lstrip("_")
    o.__dict__.update({"_%s__secret" % base: "own", "_Plain__secret": "base", "_protected": 1, "__raw": 2, "public": 3,
                       "_%s_single" % base: 4})
    return o


def os_environ():
    import os
    return type(os.environ)


def _future():
    from concurrent.futures import Future
    return Future()


def _group():
    return ExceptionGroup("g", [ValueError(1), KeyError("k")])


def _slots(cls=Slots):
    s = cls()
    s.a = [1, 2]
    if cls is SlotsAndDict:
        s.extra = "in dict"
    return s


def _attrs(o, n=0):
    o.x = 1
    o.y = [2]
    for i in range(n):
        setattr(o, "a%d" % i, i)
    return o


def _started():
    g = gen_fn()
    next(g)
    return g


def _coro():
    c = coro_fn()
    c.close()
    return c


def _closed():
    f = io.StringIO("x")
    f.close()
    return f


def _mv():
    m = memoryview(b"ab")
    m.release()
    return m


def _super():
    c = Child()
    return super(Child, c)


assert asyncio

# kinds whose text or attributes change by themselves, or that are not worth a node
CONTAINERS = ["list", "tuple", "dict", "set", "frozenset", "obj", "exc", "listsub", "dictsub", "slots", "data", "ns", "deque", "odd"]
CLASSES = [Plain, Child, _Under, BoomArgs]


def build(desc):
    """desc: list of nodes; a node is ["leaf", name] | ["hostile", op, exc] | [container, [refs...], variant]. Refs are node indexes
    (modulo): backward references and self references always work; forward references work for mutable containers."""
    n = len(desc)
    objs = [None] * n
    later = []
    for i, d in enumerate(desc):
        k = d[0]
        if k == "leaf":
            objs[i] = LEAVES[d[1]]()
        elif k == "hostile":
            objs[i] = hostile(d[1], EXC[d[2]])()
        elif k == "list":
            objs[i] = []
            later.append((objs[i].extend, [r % n for r in d[1]]))
        elif k == "listsub":
            objs[i] = ListSub()
            later.append((objs[i].extend, [r % n for r in d[1]]))
        elif k == "deque":
            objs[i] = collections.deque()
            later.append((objs[i].extend, [r % n for r in d[1]]))
        elif k in ("dict", "dictsub"):
            objs[i] = {} if k == "dict" else DictSub()
            later.append((functools.partial(_fill_dict, objs[i], d[2]), [r % n for r in d[1]]))
        elif k in ("obj", "ns", "odd"):
            objs[i] = types.SimpleNamespace() if k == "ns" else CLASSES[d[2] % len(CLASSES)]()
            later.append((functools.partial(_fill_obj, objs[i], d[2]), [r % n for r in d[1]]))
        elif k == "data":
            objs[i] = Data()
            later.append((functools.partial(_fill_data, objs[i]), [r % n for r in d[1]]))
        elif k == "slots":
            objs[i] = SlotsAndDict()
            later.append((functools.partial(_fill_obj, objs[i], 0), [r % n for r in d[1]]))
        elif k == "exc":
            objs[i] = Boom()
            later.append((functools.partial(_fill_exc, objs[i]), [r % n for r in d[1]]))
        elif k == "tuple":
            refs = [objs[r % i] for r in d[1]] if i else []
            objs[i] = tuple(refs)
        elif k in ("set", "frozenset"):
            refs = [objs[r % i] for r in d[1]] if i else []
            out = []
            for r in refs:
                try:
                    hash(r)
                    if not any(r is q or type(r) not in (int, str, float, bool, type(None), bytes) for q in out) or not out:
                        out.append(r)
                except BaseException:  # noqa: B902
                    pass
            try:
                objs[i] = set(out) if k == "set" else frozenset(out)
            except BaseException:  # noqa: B902
                objs[i] = set() if k == "set" else frozenset()
        else:
            raise ValueError(d)
    for fill, refs in later:
        fill([objs[r] for r in refs])
    return objs


KEYS = ["k", "m", "_p", "__q", "a b", "", 1, None, (1, 2), "é", 2.5, True]


def _fill_dict(d, variant, items):
    for i, it in enumerate(items):
        key = "k%d" % i if variant % 3 == 0 else KEYS[(i + variant) % len(KEYS)]
        d[key] = it


ATTRS = ["x", "_y", "_Plain__z", "_Child__z", "__raw", "items", "name", "_Under__u", "deep", "n9"]


def _fill_obj(o, variant, items):
    for i, it in enumerate(items):
        o.__dict__[ATTRS[(i + variant) % len(ATTRS)] if i < len(ATTRS) else "a%d" % i] = it


def _fill_data(o, items):
    for f, it in zip(("x", "y"), items):
        setattr(o, f, it)


def _fill_exc(e, items):
    e.args = tuple(items)


SAFE_LEAVES = ["int", "big", "neg", "float", "str", "empty", "long", "uni", "true", "none", "bytes", "range", "withrepr", "withstr", "s1024",
               "s1025", "date", "function", "cls", "enum", "data", "emptylist", "emptydict", "child", "exc", "nt", "deque", "odict", "gen",
               "listiter", "listsub", "under", "complex"]


def graph(st, nodes=12, hostile_ops=True, leaves=None, refs=5, min_nodes=1, containers=None):
    """A strategy of graph descriptions."""
    names = leaves or sorted(LEAVES)
    leaf = st.sampled_from(names).map(lambda n: ["leaf", n])
    opts = [leaf, leaf]
    ref = st.integers(0, 40)
    cont = st.tuples(st.sampled_from(containers or ["list", "dict", "obj", "tuple", "list", "dict", "obj", "set", "exc", "data",
                                                    "ns", "listsub", "dictsub", "frozenset", "slots", "deque"]),
                     st.lists(ref, max_size=refs), st.integers(0, 11)).map(list)
    opts += [cont, cont]
    if hostile_ops:
        opts.append(st.tuples(st.just("hostile"), st.sampled_from(HOSTILE), st.sampled_from(sorted(EXC))).map(list))
    return st.lists(st.one_of(opts), min_size=min_nodes, max_size=nodes)
