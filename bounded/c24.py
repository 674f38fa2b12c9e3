from .reg import bounded
from .model import *
import copy, operator, pickle

A = "awkward0/array/"


def _uf(f):
    return lambda a, r: f(a)


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def getint(a, r): return a[r.randint(-len(a), len(a) - 1)] if len(a) else None


@op
def getslice(a, r): return a[r.choice([slice(None), slice(1, None), slice(None, None, -1), slice(0, None, 2), slice(-2, None)])]


@op
def getmask(a, r): return a[np.array([r.random() < 0.5 for _ in range(len(a))], dtype=bool)]


@op
def gettake(a, r): return a[np.array([r.randint(-len(a), len(a) - 1) for _ in range(3)] if len(a) else [], dtype=int)]


@op
def gettuple(a, r): return a[:, r.choice([0, -1])] if r.random() < 0.5 else a[:, r.choice([slice(None), slice(1, None), slice(None, None, -1)])]


@op
def getjagged(a, r): return a[a > 0]


@op
def getjaggedint(a, r): return a[a.argmax()] if r.random() < 0.5 else a[a.argsort()]


@op
def getcolumn(a, r): return a[r.choice(a.columns)]


@op
def getcolumns(a, r): return a[list(a.columns)]


@op
def addself(a, r): return a + a


@op
def addscalar(a, r): return a + 1


@op
def addflat(a, r): return np.arange(len(a)) + a


@op
def cmp(a, r): return (a == a, a > 0, a != 3)


@op
def neg(a, r): return -a


@op
def npsqrt(a, r): return np.sqrt(a)


@op
def npabs(a, r): return np.absolute(a)


@op
def npwhere(a, r): return np.isnan(a)


for _n in ("sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "mean", "var", "std", "argmin", "argmax", "flatten", "compact", "tolist", "distincts", "pairs", "argpairs", "argdistincts", "argsort", "deepcopy", "boolmask", "regular", "isunmasked", "isvalid"):
    OPS[_n] = (lambda n: lambda a, r: (lambda x: x() if callable(x) else x)(getattr(a, n)))(_n)


@op
def flatten1(a, r): return a.flatten(axis=1)


@op
def pad(a, r): return a.pad(r.randint(0, 3), clip=r.random() < 0.5)


@op
def fillna(a, r): return a.fillna(0)


@op
def padfill(a, r): return a.pad(2).fillna(-1)


@op
def choose(a, r): return a.choose(2)


@op
def cross(a, r): return a.cross(a)


@op
def argcross(a, r): return a.argcross(a)


@op
def zipself(a, r): return type(a).zip(a, a)


@op
def concat0(a, r): return a.concatenate([a])


@op
def concat1(a, r): return a.concatenate([a], axis=1)


@op
def tojagged(a, r): return a.tojagged(np.arange(len(a)))


@op
def tojaggedself(a, r): return a.tojagged(a)


@op
def iterate_(a, r): return [x for x in a]


@op
def type_(a, r): return (str(a.type), hash(a.type), a.layout)


@op
def repr_(a, r): return (repr(a), str(a))


@op
def copy_(a, r): return copy.copy(a)


@op
def nbytes(a, r): return (a.nbytes, a.shape, a.dtype)


@op
def caches(a, r): return (a.offsets, a.counts, a.parents, a.index)


@op
def localindex(a, r): return a.localindex


@op
def serialize(a, r):
    from awkward0 import persist
    return persist.deserialize(persist.serialize(a, {}), {}) if False else persist.serialize(a, {})


@op
def pickled(a, r): return pickle.loads(pickle.dumps(a)).tolist()


@op
def invert(a, r): return a.invert


@op
def simplify(a, r): return a.simplify()


@op
def global2local(a, r): return a.global2local(np.arange(len(a)))


@op
def reduceadd(a, r): return a.reduce(np.add, 0)


@op
def where_(a, r): return np.array(a)


@op
def boolmaskF(a, r): return a.boolmask(maskedwhen=r.random() < 0.5)


@op
def regular_(a, r): return a.regular()


NAMES = sorted(OPS)


@bounded("C24", [A + f for f in ("jagged.py:JaggedArray", "masked.py:MaskedArray", "masked.py:BitMaskedArray", "masked.py:IndexedMaskedArray", "indexed.py:IndexedArray", "indexed.py:SparseArray", "union.py:UnionArray", "chunked.py:ChunkedArray", "table.py:Table", "objects.py:StringArray", "virtual.py:VirtualArray", "base.py:AwkwardArray")],
         "random arrays of every class nested up to depth 3, up to 6 items, and every reading operation of the public interface (%d operations), each applied twice; buffers and items compared before and after" % len(NAMES))
class reads(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(200000):
            k = rng.random()
            n = rng.randint(0, 6)
            if k < 0.45:
                s = jag_layout(rng, rand_counts(rng, n, 3), (lambda m: flat(rng, m, rng.choice(["i8", "f8", "?"]))) if rng.random() < 0.6 else (lambda m: rand_spec(rng, m, 1)))
            elif k < 0.6:
                s = rand_spec(rng, n, 2, ["np", "mask", "bit", "imask", "idx", "jag"])
            else:
                s = rand_spec(rng, n, rng.randint(1, 3))
            yield {"a": s, "ops": [rng.choice(NAMES) for _ in range(rng.randint(1, 3))], "r": rng.randint(0, 10 ** 6)}

    @staticmethod
    def check(c):
        a = build(c["a"])
        if not isinstance(a, AwkwardArray):
            return
        before = denote(a)
        fp = fingerprint(a)
        for o in c["ops"]:
            outs = []
            for rep in range(2):
                r = random.Random(c["r"])
                try:
                    x = OPS[o](a, r)
                except Fail:
                    raise
                except Exception as e:
                    x = e
                check_fingerprint(fp, o)
                if not eq(denote(a), before):
                    raise Fail("%s changed its operand: %.200r, was %.200r" % (o, denote(a), before))
                outs.append(x)
            x, y = outs
            if isinstance(x, Exception) or isinstance(y, Exception):
                if type(x) is not type(y):
                    raise Fail("%s applied twice: first %.150r, then %.150r" % (o, x, y))
            else:
                try:
                    dx = denote1(x)
                except Exception:
                    continue
                if not eq(dx, denote1(y)) and repr(dx) != repr(denote1(y)) and "0x" not in repr(dx) and o not in ("type_",):
                    raise Fail("%s applied twice: first %.150r, then %.150r" % (o, dx, denote1(y)))


def sel(rng, n):
    s = rand_selector(rng, n, kinds=("mask", "idx"))
    return s


@bounded("C24", [A + f + ".__getitem__" for f in ("jagged.py:JaggedArray", "masked.py:MaskedArray", "masked.py:BitMaskedArray", "masked.py:IndexedMaskedArray", "indexed.py:IndexedArray", "indexed.py:SparseArray", "union.py:UnionArray", "chunked.py:ChunkedArray", "table.py:Table", "objects.py:StringArray", "virtual.py:VirtualArray")],
         "random arrays and selectors: NumPy and awkward index arrays (jagged, masked) and second operands; buffers of both operands before and after")
class operands(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(200000):
            n = rng.randint(1, 6)
            k = rng.choice(["flat", "jagmask", "jagidx", "maskedidx", "list", "tuple", "ufunc", "jagufunc"])
            if k in ("jagmask", "jagidx", "jagufunc"):
                cs = rand_counts(rng, n, 3)
                s = jag_layout(rng, cs, lambda m: flat(rng, m, rng.choice(["i8", "f8"])))
                if k == "jagufunc":
                    o = jag_layout(rng, cs, lambda m: flat(rng, m, "i8"))
                elif k == "jagmask":
                    o = jag_layout(rng, cs, lambda m: flat(rng, m, "?"))
                else:
                    o = jag_layout(rng, [rng.randint(0, 3) if x else 0 for x in cs], lambda m: {"k": "np", "dt": "i8", "data": [rng.choice([0, -1]) for _ in range(m)]})
            else:
                s = rand_spec(rng, n, rng.randint(1, 2))
                if k == "maskedidx":
                    o = {"k": rng.choice(["mask", "imask"]), "mask": [rng.random() < 0.3 for _ in range(n)], "mw": True, "content": {"k": "np", "dt": "i8", "data": [rng.randint(-n, n - 1) for _ in range(n)]}}
                    if o["k"] == "imask":
                        o["mask"], o["mw"] = [-1 if m else i for i, m in enumerate(o["mask"])], -1
                elif k == "ufunc":
                    o = flat(rng, n, "f8")
                else:
                    o = sel(rng, n)
            yield {"a": s, "k": k, "o": o, "r": rng.randint(0, 99)}

    @staticmethod
    def check(c):
        a = build(c["a"])
        if not isinstance(a, AwkwardArray):
            return
        k = c["k"]
        o = realsel(c["o"]) if "t" in c["o"] else build(c["o"])
        o2 = copy.deepcopy(o) if isinstance(o, list) else o
        before, fa, fo = denote(a), fingerprint(a), fingerprint(o)
        lo = None if "t" in c["o"] else denote(o)
        for rep in range(2):
            try:
                if k in ("ufunc", "jagufunc"):
                    [lambda: a + o, lambda: o * a, lambda: np.maximum(a, o), lambda: a == o][c["r"] % 4]()
                elif k == "tuple":
                    a[o, :1] if c["r"] % 2 else a[o, 0]
                else:
                    a[o]
            except Exception:
                pass
            check_fingerprint(fa, "first operand of " + k)
            check_fingerprint(fo, "second operand of " + k)
            if not eq(denote(a), before) or (lo is not None and not eq(denote(o), lo)):
                raise Fail("%s changed the items of an operand" % k)
            if isinstance(o, list) and o != o2:
                raise Fail("%s changed a list used as index" % k)


@bounded("C24", ["awkward0/array/jagged.py:JaggedArray.__array_ufunc__", "awkward0/array/base.py:AwkwardArray"],
         "the result of a reading operation is written to (when it is a fresh computation: ufuncs, reducers, concatenate, pad, combinatorics): operands must not change")
class fresh(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(50000):
            cs = rand_counts(rng, rng.randint(1, 5), 3)
            yield {"a": jag_layout(rng, cs, lambda m: flat(rng, m, rng.choice(["i8", "f8"]))), "op": rng.choice(["sum", "max", "min", "prod", "count", "addscalar", "neg", "addself", "concat0", "mean"])}

    @staticmethod
    def check(c):
        a = build(c["a"])
        fp = fingerprint(a)
        before = denote(a)
        x = OPS[c["op"]](a, random.Random(0))
        b = x.content if isinstance(x, JaggedArray) else x
        if isinstance(b, np.ndarray) and b.flags.writeable and b.dtype.kind in "if":
            b[...] = 77
        check_fingerprint(fp, "writing to the result of " + c["op"])
        if not eq(denote(a), before):
            raise Fail("writing to the result of %s changed its operand" % c["op"])
