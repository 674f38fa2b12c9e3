from .reg import bounded
from .model import *
from awkward0 import type as T
import copy

TP = "awkward0/type.py:"
A = "awkward0/array/"
GET = [A + f + "._gettype" for f in ("jagged.py:JaggedArray", "masked.py:MaskedArray", "indexed.py:IndexedArray", "indexed.py:SparseArray", "union.py:UnionArray", "chunked.py:ChunkedArray", "table.py:Table", "objects.py:StringArray", "objects.py:ObjectArray", "virtual.py:VirtualArray")]


def leaf_ok(t, x):
    """is scalar x an element of leaf type t"""
    if isinstance(t, np.dtype):
        if t.names is not None:
            return isinstance(x, (dict, tuple))
        if t.kind == "b":
            return isinstance(x, bool)
        if t.kind in "iu":
            return isinstance(x, int) and not isinstance(x, bool)
        if t.kind == "f":
            return isinstance(x, float)
        if t.kind == "U":
            return isinstance(x, str)
        if t.kind == "S":
            return isinstance(x, bytes)
        return True
    if t is str:
        return isinstance(x, str)
    if t is bytes:
        return isinstance(x, bytes)
    return callable(t)


def conforms(t, x, d=0):
    if isinstance(t, T.ArrayType):
        return isinstance(x, list) and (t.takes == np.inf or t.takes == len(x)) and all(conforms(t.to, y, d + 1) for y in x)
    if isinstance(t, T.TableType):
        return isinstance(x, dict) and set(x) == set(t.columns) and all(conforms(t[n], x[n], d + 1) for n in x)
    if isinstance(t, T.OptionType):
        return x is None or conforms(t.type, x, d + 1)
    if isinstance(t, T.UnionType):
        return any(conforms(y, x, d + 1) for y in t)
    return leaf_ok(t, x)


class Forget(dict):
    def __setitem__(self, k, v):
        pass


def relayout(rng, s, a):
    """a differently stored array of the same items (same items in the same order)"""
    n = len(a)
    k = rng.choice(["idx", "idxperm", "virt", "virtevict", "slice", "copy", "deep", "chunk", "take"] + (["compact", "startsstops", "shuffle"] if isinstance(a, JaggedArray) and type(a) is JaggedArray else []))
    if k == "idx":
        return IndexedArray(np.arange(n), a)
    if k == "idxperm":
        p = np.array(rng.sample(range(n), n), dtype=int)
        inv = np.argsort(p) if n else p
        return IndexedArray(inv, a[p]) if n else a
    if k == "virt":
        return VirtualArray(lambda: a)
    if k == "virtevict":
        return VirtualArray(lambda: build(s), cache=Forget())
    if k == "slice":
        return a[:]
    if k == "copy":
        return copy.copy(a)
    if k == "deep":
        return a if isinstance(a, VirtualArray) else copy.deepcopy(a)
    if k == "chunk":
        i = rng.randint(0, n)
        return ChunkedArray([a[:i], a[i:]])
    if k == "take":
        return a[np.arange(n)]
    if k == "compact":
        return a.compact()
    if k == "startsstops":
        return JaggedArray(a.starts, a.stops, a.content)
    if k == "shuffle":
        p = list(range(n))
        rng.shuffle(p)
        inv = np.argsort(p).astype(int) if n else np.array([], dtype=int)
        return a[np.array(p, dtype=int)].compact()[inv]
    raise AssertionError(k)


@bounded("C23", [TP + "fromarray", TP + "_fromarray", TP + "_resolve", A + "base.py:AwkwardArray.type", A + "base.py:AwkwardArray.shape", A + "base.py:AwkwardArray.dtype"] + GET,
         "random arrays of every class nested up to depth 3, up to 6 items; the type is compared with every element, and with the type of a different storage of the same items")
class describes(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(100000):
            n = rng.randint(1, 6)
            s = rand_spec(rng, n, rng.randint(0, 3))
            yield {"a": s, "r": rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        a = build(c["a"])
        if not isinstance(a, AwkwardArray) and not isinstance(a, np.ndarray):
            return
        want = value(c["a"])
        t = run(lambda: T.fromarray(a), "fromarray")
        if t.takes != len(want):
            raise Fail("type has length %r, array %d" % (t.takes, len(want)))
        if not conforms(t, denote(a)):
            raise Fail("type %s does not describe %.200r" % (str(t).replace("\n", " "), denote(a)))
        if isinstance(a, AwkwardArray):
            t2 = run(lambda: a.type, "type")
            if t2 != t:
                raise Fail("array.type differs from fromarray: %s %s" % (t2, t))
            sh = run(lambda: a.shape, "shape")
            if sh[0] != len(want) or a.ndim != len(sh):
                raise Fail("shape %r of an array of %d items" % (sh, len(want)))
            v = denote(a)
            for i, d in enumerate(sh[1:]):
                v = [y for x in v for y in x]
            # beyond the shape
        if hasunion(c["a"]) or "sparse" in repr(c["a"]):
            return   # selections of these may return a simpler array (documented simplification)
        if "'chunk'" in repr(c["a"]) and c["a"]["k"] != "chunk":
            return   # a chunked content of which no element is left has the default type
        b = run(lambda: relayout(rng, c["a"], a), "relayout")
        tb = run(lambda: T.fromarray(b), "type of another layout")
        if not (tb == t and t == tb) or tb != t or hash(tb) != hash(t):
            raise Fail("same items stored as %s: type %s, expected %s" % (type(b).__name__, str(tb).replace("\n", " "), str(t).replace("\n", " ")))
        if isinstance(a, AwkwardArray) and isinstance(b, AwkwardArray):
            if b.shape != a.shape:
                raise Fail("same items stored as %s: shape %r, expected %r" % (type(b).__name__, b.shape, a.shape))
            try:
                da = a.dtype
            except TypeError:
                return
            if b.dtype != da:
                raise Fail("same items stored as %s: dtype %r, expected %r" % (type(b).__name__, b.dtype, da))


def hasunion(s):
    return "union" in repr(s)


# ------------------------------------------------------------------ types by themselves

def rand_type(rng, d, shared):
    """a JSON type tree"""
    if d <= 0 or rng.random() < 0.2:
        return {"t": "leaf", "x": rng.choice(["i8", "f8", "?", "i4", "str", "bytes"])}
    if shared and rng.random() < 0.15:
        return {"t": "ref", "to": rng.randint(0, 3)}
    k = rng.choice(["arr", "arr", "jag", "table", "union", "opt"])
    sub = lambda: rand_type(rng, d - 1, shared)
    if k == "arr":
        return {"t": "arr", "n": rng.choice([0, 2, 3]), "to": sub()}
    if k == "jag":
        return {"t": "arr", "n": None, "to": sub()}
    if k == "table":
        return {"t": "table", "f": [[n, sub()] for n in rng.sample(["x", "y", "z"], rng.randint(1, 3))]}
    if k == "union":
        return {"t": "union", "p": [sub() for _ in range(rng.randint(1, 3))]}
    return {"t": "opt", "to": sub()}


def mk(t, stack, rng=None):
    """build the type; a ref points to an enclosing (or the outermost) node: a recursive type"""
    if t["t"] == "leaf":
        return {"str": str, "bytes": bytes}.get(t["x"]) or np.dtype(t["x"])
    if t["t"] == "ref":
        return stack[min(t["to"], len(stack) - 1)]
    if t["t"] == "arr":
        o = T.ArrayType.__new__(T.ArrayType)
        o._takes = np.inf if t["n"] is None else t["n"]
        o._to = mk(t["to"], stack + [o], rng)
    elif t["t"] == "table":
        o = T.TableType()
        fs = list(t["f"])
        if rng:
            rng.shuffle(fs)
        for n, x in fs:
            o[n] = mk(x, stack + [o], rng)
    elif t["t"] == "union":
        o = T.UnionType()
        ps = list(t["p"])
        if rng:
            rng.shuffle(ps)
        for x in ps:
            o.append(mk(x, stack + [o], rng))
    else:
        o = T.OptionType.__new__(T.OptionType)
        o._type = mk(t["to"], stack + [o], rng)
    return o


def unroll(t, stack, depth):
    """the (infinite) tree a type means, cut at a depth: an oracle for equality, without awkward0's own code"""
    if t["t"] == "ref":
        k = min(t["to"], len(stack) - 1)
        return unroll(stack[k], stack[:k], depth)
    st = stack + [t]
    if t["t"] == "leaf":
        return t["x"] if t["x"] not in ("str", "bytes") else "callable"
    if depth == 0:
        return "..."
    if t["t"] == "arr":
        return ("arr", t["n"], unroll(t["to"], st, depth - 1))
    if t["t"] == "table":
        return ("table", tuple(sorted((n, unroll(x, st, depth - 1)) for n, x in t["f"])))
    if t["t"] == "union":
        return ("union", tuple(sorted((unroll(x, st, depth - 1) for x in t["p"]), key=repr)))
    return ("opt", unroll(t["to"], st, depth - 1))


def mutate(rng, t):
    t = copy.deepcopy(t)
    nodes = []

    def walk(x):
        nodes.append(x)
        for y in ([x["to"]] if x["t"] in ("arr", "opt") else [z for _, z in x["f"]] if x["t"] == "table" else x["p"] if x["t"] == "union" else []):
            walk(y)
    walk(t)
    x = rng.choice(nodes)
    if x["t"] == "leaf":
        x["x"] = rng.choice([y for y in ["i8", "f8", "?", "i4"] if y != x["x"]])
    elif x["t"] == "arr":
        x["n"] = {None: 2, 0: 3, 2: None, 3: 0}[x["n"]]
    elif x["t"] == "table":
        x["f"] = x["f"][:-1] + [["w", x["f"][-1][1]]]
    elif x["t"] == "union":
        x["p"] = x["p"] + [{"t": "leaf", "x": "c16"}]
    elif x["t"] == "opt":
        y = x["to"]
        x.clear()
        x.update(y if y["t"] not in ("ref",) else {"t": "leaf", "x": "M8[s]"})
    return t


def guarded(t):
    """every reference passes through a table or a jagged level, and nesting that awkward0 identifies is avoided"""
    def walk(x, chain):
        if x["t"] == "ref":
            if not chain:
                return False
            k = min(x["to"], len(chain) - 1)
            return any(c == "jag" for c in chain[k:])
        if x["t"] == "leaf":
            return True
        tag = "jag" if x["t"] == "arr" and x["n"] is None else x["t"]
        if chain and tag in ("opt", "union") and chain[-1] == tag:
            return False
        if x["t"] == "table" and all(y["t"] == "arr" for _, y in x["f"]):
            return False
        subs = [x["to"]] if x["t"] in ("arr", "opt") else [z for _, z in x["f"]] if x["t"] == "table" else x["p"]
        if x["t"] == "table" and any(y["t"] == "ref" for y in subs):
            return False
        if x["t"] in ("opt", "union") and any(y["t"] == "ref" for y in subs):
            return False
        return all(walk(y, chain + [tag]) for y in subs)
    return walk(t, [])


@bounded("C23", [TP + "Type.__eq__", TP + "Type.__hash__", TP + "ArrayType._eq", TP + "TableType._eq", TP + "UnionType._eq", TP + "OptionType._eq", TP + "Type._canonical"],
         "random types of depth up to 4, with and without recursion; equality against the unrolled tree up to depth 9, symmetry, hashing, representation")
class equality(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(100000):
            rec = rng.random() < 0.4
            t = rand_type(rng, rng.randint(1, 4), rec)
            if not guarded(t):
                continue
            u = mutate(rng, t) if rng.random() < 0.6 else rand_type(rng, 2, False)
            if not guarded(u):
                continue
            yield {"t": t, "u": u, "r": rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        t, t2, u = mk(c["t"], []), mk(c["t"], [], rng), mk(c["u"], [])
        if not isinstance(t, T.Type) or not isinstance(u, T.Type):
            return
        before = repr(t)
        if not (t == t) or t != t:
            raise Fail("a type is not equal to itself: %r" % t)
        if not (t == t2) or not (t2 == t) or t != t2:
            raise Fail("equal types compare unequal: %r %r" % (t, t2))
        if hash(t) != hash(t2):
            raise Fail("equal types hash differently: %r %r" % (t, t2))
        same = unroll(c["t"], [], 9) == unroll(c["u"], [], 9)
        for x, y in ((t, u), (u, t), (t2, u)):
            if (x == y) != same or (x != y) == same:
                raise Fail("%r == %r gives %r, expected %r" % (x, y, x == y, same))
        if same and hash(t) != hash(u):
            raise Fail("equal types hash differently: %r %r" % (t, u))
        run(lambda: str(t), "str")
        if repr(t) != before:
            raise Fail("comparing changed the type")
        for n in ("x", "y", "z", "w"):
            run(lambda: t.hascolumn(n), "hascolumn")
        run(lambda: t.isnumpy, "isnumpy")


@bounded("C23", [TP + "Type._canonical"], "identities of the type language: union flattening, optional of optional, fixed-size arrays of tables")
class identities(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2000):
            yield {"ts": [rand_type(rng, 2, False) for _ in range(3)], "k": rng.choice(["opt", "union", "perm", "table"]), "n": rng.randint(1, 3), "r": rng.randint(0, 99)}

    @staticmethod
    def check(c):
        rng = random.Random(c["r"])
        a, b, d = [mk(t, []) for t in c["ts"]]
        if c["k"] == "opt":
            x, y = T.OptionType(a), T.OptionType(a)
            for _ in range(c["n"]):
                y = T.OptionType(y)
        elif c["k"] == "union":
            x, y = T.UnionType(a, b, d), T.UnionType(a, T.UnionType(b, d))
            if c["n"] > 1:
                y = T.UnionType(T.UnionType(T.UnionType(a), b), d)
        elif c["k"] == "perm":
            p = [a, b, d]
            rng.shuffle(p)
            x, y = T.UnionType(a, b, d), T.UnionType(*p)
        else:
            x = T.TableType(x=T.ArrayType(c["n"], a), y=T.ArrayType(c["n"], b))
            y = T.ArrayType(c["n"], T.TableType(x=a, y=b))
        if not (x == y and y == x) or x != y or hash(x) != hash(y):
            raise Fail("%r and %r must be equal with equal hashes: %r %r %r" % (x, y, x == y, y == x, hash(x) == hash(y)))


@bounded("C23", [A + "virtual.py:VirtualArray._gettype", TP + "_fromarray"], "tables and unions of up to 6 virtual columns with an evicting cache")
class evicting(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2000):
            n = rng.randint(1, 4)
            yield {"cols": [rand_spec(rng, n, rng.randint(0, 1), ["np", "jag", "str", "mask"]) for _ in range(rng.randint(1, 6))], "u": rng.random() < 0.3}

    @staticmethod
    def check(c):
        vs = [VirtualArray((lambda s: lambda: build(s))(s), cache=Forget()) for s in c["cols"]]
        want = [T.fromarray(build(s)).to for s in c["cols"]]
        if c["u"]:
            n = len(vs)
            u = UnionArray(np.arange(n) % n, np.zeros(n, dtype=int), vs)
            got = list(u.type.to)
        else:
            t = Table({})
            for i, v in enumerate(vs):
                t["c%d" % i] = v
            got = [t.type.to["c%d" % i] for i in range(len(vs))]
        for g, w in zip(got, want):
            if not (T.ArrayType(2, g) == T.ArrayType(2, w)):
                raise Fail("type of an evicted column: %s, expected %s" % (g, w))
