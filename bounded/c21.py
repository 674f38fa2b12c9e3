from .reg import bounded
from .model import *
import itertools, collections

G = "awkward0/generate.py:"
FUN = [G + c + "." + m for c in ("UnknownFillable", "SimpleFillable", "JaggedFillable", "TableFillable", "MaskedFillable", "UnionFillable") for m in ("append", "finalize", "matches") if (c, m) not in (("SimpleFillable", "finalize"), ("UnknownFillable", "matches"), ("SimpleFillable", "matches"), ("JaggedFillable", "matches"), ("UnionFillable", "matches"))] + [G + c + ".finalize" for c in ("BoolFillable", "NumberFillable", "StringFillable", "BytesFillable")] + [G + "typeof", G + "fromiter", "awkward0/array/base.py:AwkwardArray.tolist"]


def strict(got, want, path="result"):
    """equal nested data: bool, number, str, bytes, None, list and dict are different kinds"""
    if isinstance(want, tuple):
        want = list(want)
    if want == {} and isinstance(want, dict):
        want = None
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            raise Fail("%s: got %.200r, expected %.200r" % (path, got, want))
        for k in want:
            strict(got[k], want[k], "%s[%r]" % (path, k))
    elif isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            raise Fail("%s: got %.200r, expected %.200r" % (path, got, want))
        for i, (x, y) in enumerate(zip(got, want)):
            strict(x, y, "%s[%d]" % (path, i))
    elif want is None or isinstance(want, (bool, str, bytes)):
        if type(got) is not type(want) or got != want:
            raise Fail("%s: got %.200r, expected %.200r" % (path, got, want))
    else:
        if isinstance(got, bool) or not isinstance(got, (int, float, complex)) or got != want:
            raise Fail("%s: got %.200r, expected %.200r" % (path, got, want))


ATOMS = {"int": [0, 1, -5, 2 ** 40], "float": [0.5, -1.25, 1e300, 0.0], "bool": [True, False], "str": ["", "a", "hé", "two", "a\x00"], "none": [None], "list": [[]], "dict": [{}], "bytes": [b"", b"x\x01"], "complex": [1j]}


def value_(rng, depth, kinds):
    k = rng.choice(kinds)
    if k == "list":
        if depth == 0:
            return []
        sub = rng.choice([kinds, kinds, [rng.choice(kinds)], [rng.choice(kinds), "none"]])
        return [value_(rng, depth - 1, sub) for _ in range(rng.choice([0, 1, 2, 3]))]
    if k == "tuple":
        return {"__tuple__": [value_(rng, depth - 1, kinds) for _ in range(rng.choice([0, 1, 2]))]} if depth else {"__tuple__": []}
    if k == "dict":
        if depth == 0:
            return {}
        names = rng.choice([["x"], ["x", "y"], ["x", "y"], ["y"], ["a", "b", "c"], []])
        return {n: value_(rng, depth - 1, kinds) for n in names}
    if k == "bytes":
        return {"__bytes__": rng.choice(["", "x", "a\x01", "x\x00"])}
    return rng.choice(ATOMS[k])


def decode(x):
    if isinstance(x, dict):
        if "__tuple__" in x:
            return tuple(decode(y) for y in x["__tuple__"])
        if "__bytes__" in x:
            return x["__bytes__"].encode()
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(y) for y in x]
    return x


def canonical(a, where="top"):
    """the documented canonical form of optional and sum types"""
    if isinstance(a, MaskedArray):
        c = a._content
        if isinstance(c, MaskedArray):
            raise Fail("MaskedArray directly within a MaskedArray")
        heavy = isinstance(c, (Table, ObjectArray, UnionArray)) and not isinstance(c, StringArray)
        if heavy and not isinstance(a, IndexedMaskedArray):
            raise Fail("%s masked without an IndexedMaskedArray" % type(c).__name__)
        canonical(c)
    elif isinstance(a, UnionArray):
        for c in a._contents:
            if isinstance(c, (UnionArray, MaskedArray)):
                raise Fail("%s directly within a UnionArray" % type(c).__name__)
            canonical(c)
    elif isinstance(a, StringArray):
        pass
    elif isinstance(a, (JaggedArray, IndexedArray)):
        canonical(a._content)
    elif isinstance(a, Table):
        if list(a._contents) != sorted(a._contents):
            raise Fail("columns not sorted")
        for c in a._contents.values():
            canonical(c)


BASE = [1, 2.5, True, "s", None, [], [1], ["s"], [None], [[]], {"x": 1}, {"x": None}, {"x": []}, {"x": "s"}, {"y": 1}, {"x": 1, "y": 2}, {}, {"__bytes__": "b"}, {"x": {"x": 1}}, [{"x": 1}], [True]]


def check(c):
    data = decode(c["data"])
    kw = {}
    if c.get("dictencoding") is not None:
        kw["dictencoding"] = c["dictencoding"] if c["dictencoding"] != "fn" else (lambda d: len(d) > 2)
    if c.get("maskedwhen") is not None:
        kw["maskedwhen"] = c["maskedwhen"]
    src = decode(c["data"])
    a = run(lambda: aw.fromiter(iter(data) if c.get("it") else data, **kw), "fromiter")
    if data != src:
        raise Fail("fromiter changed its argument")
    if len(a) != len(data):
        raise Fail("length %d, expected %d" % (len(a), len(data)))
    strict(run(lambda: a.tolist(), "tolist"), data)
    want = denote1(strip(data))
    expect(a, want, "structure")
    canonical(a)


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()} if x else None
    if isinstance(x, (list, tuple)):
        return [strip(y) for y in x]
    return x


@bounded("C21", FUN, "all sequences of length <=3 over 21 representative values (9,723), in every order of first appearance")
class Orders(object):
    @staticmethod
    def gen(rng, tier):
        cases = [list(p) for n in range(0, 4) for p in itertools.product(BASE, repeat=n)]
        if tier == "quick":
            short = [c for c in cases if len(c) <= 2]
            cases = short + rng.sample(cases, 2500)
        for c in cases:
            yield dict(data=c)

    check = staticmethod(check)


@bounded("C21", FUN, "random nested data of depth <=4 and up to 12 items per level, of 9 kinds, with all options (dictionary encoding, masks); iterators as well as lists")
class Nested(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 40000):
            kinds = rng.choice([["int", "float", "none"], ["int", "str", "bool", "none", "list"], ["int", "float", "bool", "str", "none", "list", "dict"], ["list", "int"], ["list", "int", "none"], ["dict", "int", "none"], ["dict", "list", "none", "str"], ["list"], ["dict", "list", "int", "str"], ["int", "float", "bool", "str", "none", "list", "dict", "tuple", "bytes"]])
            yield dict(data=[value_(rng, rng.randint(0, 4), kinds) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))], dictencoding=rng.choice([None, None, None, True, False, "fn"]), maskedwhen=rng.choice([None, None, True, False]), it=rng.random() < 0.3)

    check = staticmethod(check)


@bounded("C21", [G + "UnionFillable.append", G + "UnionFillable.finalize", G + "typeof"], "1..300 different record types in one list")
class ManyTypes(object):
    @staticmethod
    def gen(rng, tier):
        for n in (1, 2, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300):
            yield dict(n=n, again=rng.randint(0, 5))

    @staticmethod
    def check(c):
        data = [{"k%d" % i: i} for i in range(c["n"])]
        data += [data[(i * 37) % c["n"]] for i in range(c["again"])]
        try:
            a = aw.fromiter(data)
        except (ValueError, OverflowError, TypeError):
            if c["n"] > 256:
                return        # more types than a tag can tell apart: refused
            raise
        strict(a.tolist(), data)
