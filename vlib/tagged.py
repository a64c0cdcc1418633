"""JSON-able encoding of plain Python values used in cases."""
from hypothesis import strategies as st


def decode(t):
    k = t[0]
    if k in ("s", "i", "bool"):
        return t[1]
    if k == "f":
        return float(t[1])
    if k == "b":
        return bytes.fromhex(t[1])
    if k == "ba":
        return bytearray.fromhex(t[1])
    if k == "n":
        return None
    if k == "l":
        return [decode(x) for x in t[1]]
    if k == "t":
        return tuple(decode(x) for x in t[1])
    if k == "set":
        return {decode(x) for x in t[1]}
    if k == "d":
        return {decode(a): decode(b) for a, b in t[1]}
    if k == "o":
        return object()
    if k == "c":
        return complex(0, 1)
    raise ValueError(k)


TEXT = st.text(alphabet=st.characters(codec="utf-8"), max_size=12)
SHORT = st.text(alphabet="abcxyz.-_ é%", max_size=6)


def prim(text=TEXT):
    return st.one_of(
        text.map(lambda s: ["s", s]),
        st.integers(-2 ** 63, 2 ** 63 - 1).map(lambda i: ["i", i]),
        st.integers(-3, 3).map(lambda i: ["i", i]),
        st.booleans().map(lambda b: ["bool", b]),
        st.floats(allow_nan=False).map(lambda f: ["f", repr(f)]),
    )


def bts():
    return st.one_of(TEXT.map(lambda s: ["b", s.encode().hex()]), st.binary(max_size=6).map(lambda b: ["b", b.hex()]))


def homogeneous(elem_kinds=None):
    kinds = [TEXT.map(lambda s: ["s", s]), st.integers(-2 ** 63, 2 ** 63 - 1).map(lambda i: ["i", i]),
             st.booleans().map(lambda b: ["bool", b]), st.floats(allow_nan=False).map(lambda f: ["f", repr(f)]), bts()]
    return st.one_of([st.lists(k, max_size=4) for k in kinds])


def sequence():
    return st.one_of(
        st.tuples(st.sampled_from(["l", "t"]), homogeneous()).map(list),
        st.tuples(st.sampled_from(["l", "t"]),
                  homogeneous().map(lambda xs: xs + [["n"]])).map(list),
        st.tuples(st.sampled_from(["l", "t"]), st.lists(st.one_of(prim(), bts(), st.just(["n"])), max_size=4)).map(list),
        st.tuples(st.sampled_from(["l", "t"]), st.lists(st.one_of(st.just(["o"]), st.just(["l", [["i", 1]]]),
                                                                  st.just(["s", "x"])), max_size=3)).map(list),
    )


def attr_value():
    return st.one_of(prim(), bts(), sequence(), st.sampled_from([["n"], ["o"], ["c"], ["d", [[["s", "a"], ["i", 1]]]],
                                                                 ["set", [["i", 1]]]]))
