from .reg import bounded
from .model import *
from .c11 import encodings
from .c07 import fold, REDS, apply_red
import operator, copy

M = "awkward0/array/masked.py:"
BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "lt": operator.lt, "eq": operator.eq, "maximum": np.maximum, "truediv": operator.truediv, "npadd": np.add, "divmod": divmod}
UN = {"neg": operator.neg, "abs": abs, "sqrt": np.sqrt, "isnan": np.isnan, "square": np.square, "modf": np.modf}
CLS = ("MaskedArray", "BitMaskedArray", "IndexedMaskedArray")


def rehide(rng, s):
    """the same array with other values behind its masked entries"""
    s = copy.deepcopy(s)
    c = s["content"]
    if c["k"] != "np":
        return s
    d = c["data"]
    hot = [float("nan"), float("inf"), -1e300, 12345.0] if c["dt"].startswith("f") else ([True, False] if c["dt"] == "?" else [99, -99, 0, 1])
    if s["k"] == "imask":
        used = set(i for i in s["mask"] if i != s["mw"])
        hid = [i for i in range(len(d)) if i not in used]
    else:
        hid = [i for i in range(len(d)) if i >= len(s["mask"]) or s["mask"][i] == s["mw"]]
    for i in hid:
        d[i] = rng.choice(hot)
    return s


def holes(rng, n):
    p = rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])
    return [rng.random() < p for _ in range(n)]


def one(rng, n, dt=None, missing=None):
    missing = holes(rng, n) if missing is None else missing
    e = rng.choice(encodings(rng, missing, flat(rng, n, dt)))
    return rehide(rng, e)


def typ(x, dt):
    return None if x is None else np.dtype(dt).type(x)


def lift(f, *xs):
    if any(x is None for x in xs):
        return None
    with np.errstate(all="ignore"):
        return f(*xs)


def out(x, k=None):
    if isinstance(x, tuple):
        return None if k is None else scalar(x[k])
    return scalar(x)


@bounded("C12", [M + "MaskedArray.__array_ufunc__"], "15 operations over every encoding, lengths 0..17: masked/masked (mixed encodings), masked/flat, masked/scalar on either side, unary, multi-output; each also with other values hidden behind the masked entries")
class Elementwise(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(5000 if tier == "quick" else 30000):
            n = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 17])
            if rng.random() < 0.25:
                a = one(rng, n)
                yield dict(op=rng.choice(sorted(UN)), a=a, a2=rehide(rng, a), kind="un", b=None, swap=False)
                continue
            a = one(rng, n)
            kind = rng.choice(["masked", "masked", "flat", "scalar", "npscalar", "list"])
            b = one(rng, n) if kind == "masked" else flat(rng, n if kind in ("flat", "list") else 1)
            yield dict(op=rng.choice(sorted(BIN)), a=a, a2=rehide(rng, a), b=b, kind=kind, swap=rng.random() < 0.4)

    @staticmethod
    def check(c):
        for key in ("a", "a2"):
            a, va = build(c[key]), [typ(x, c[key]["content"]["dt"]) for x in value(c[key])]
            fp = fingerprint(a)
            if c["kind"] == "un":
                f = UN[c["op"]]
                got = run(lambda: f(a), c["op"])
                want = [lift(f, x) for x in va]
            else:
                f = BIN[c["op"]]
                b = build(c["b"])
                if c["kind"] == "masked":
                    vb = [typ(x, c["b"]["content"]["dt"]) for x in value(c["b"])]
                elif c["kind"] in ("flat", "list"):
                    vb = list(b)
                    if c["kind"] == "list":
                        if not len(b):
                            return
                        b = b.tolist()
                        vb = list(np.array(b))
                else:
                    x = b[0]
                    b = x.item() if c["kind"] == "scalar" else x
                    vb = [x] * len(va)
                fb = fingerprint(b)
                # a plain Python scalar has a weak type: compare values only
                if c["swap"]:
                    got = run(lambda: f(b, a), "%s %s swapped" % (c["op"], c["kind"]))
                    want = [lift(f, y, x) for x, y in zip(va, vb)]
                else:
                    got = run(lambda: f(a, b), "%s %s" % (c["op"], c["kind"]))
                    want = [lift(f, x, y) for x, y in zip(va, vb)]
                check_fingerprint(fb, c["op"])
            if c["op"] in ("divmod", "modf"):
                for k, g in enumerate(got):
                    w = [None if x is None else scalar(x[k]) for x in want]
                    if not eq(denote1(g), w, tol=True):
                        raise Fail("%s output %d: got %r, expected %r" % (c["op"], k, denote1(g), w))
            else:
                w = [scalar(x) for x in want]
                if not eq(denote1(got), w, tol=True):
                    raise Fail("%s %s: got %r, expected %r" % (c["op"], c["kind"], denote1(got), w))
            check_fingerprint(fp, c["op"])


@bounded("C12", [M + c + "." + f for c in ("MaskedArray", "IndexedMaskedArray") for f in ("_reduce", "_prepare", "argmin", "argmax", "fillna", "regular", "counts")], "reducers, argmin/argmax, fillna, regular over every encoding, lengths 0..17, with two different sets of hidden values")
class Reduce(object):
    @staticmethod
    def gen(rng, tier):
        fns = ["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax", "fillna", "regular"]
        for _ in range(4500 if tier == "quick" else 30000):
            n = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 17])
            dt = rng.choice(["i8", "f8", "i4", "f8", "?"])
            fn = rng.choice(fns)
            if dt == "?" and fn in ("prod", "min", "max", "argmin", "argmax", "fillna", "regular"):
                dt = "i8"
            a = one(rng, n, dt)
            if fn == "prod" or True:
                c = a["content"]
                c["data"] = [x if isinstance(x, bool) else type(x)(x % 5 - 2) if x == x and abs(x) < 1000 else x for x in c["data"]]
            yield dict(a=a, a2=rehide(rng, a), fn=fn, dt=dt, x=rng.choice([0, -5, 7]))

    @staticmethod
    def check(c):
        for key in ("a", "a2"):
            a, v, fn = build(c[key]), value(c[key]), c["fn"]
            keep = [x for x in v if x is not None]
            fp = fingerprint(a)
            if fn in ("argmin", "argmax"):
                if not keep:
                    return
                w = v.index((min if fn == "argmin" else max)(keep))
                got = run(lambda: getattr(a, fn)(), fn)
            elif fn == "fillna":
                got, w = run(lambda: a.fillna(c["x"]), fn), [c["x"] if x is None else x for x in v]
            elif fn == "regular":
                got, w = run(lambda: a.regular(), fn), [float("nan") if x is None else x for x in v]
            else:
                got, w = run(lambda: getattr(a, fn)(), fn), fold(fn, keep, c["dt"] if c["dt"] != "?" else "i8")
            if isinstance(got, AwkwardArray):
                raise Fail("%s returned %r" % (fn, got))
            if not eq(denote1(got), w, tol=True):
                raise Fail("%s of %r: got %r, expected %r" % (fn, v, denote1(got), w))
            check_fingerprint(fp, fn)
            expect(a, v, "array after " + fn)


@bounded("C12", ["awkward0/array/jagged.py:JaggedArray._reduce (masked content)", "awkward0/array/jagged.py:JaggedArray.flatten", "awkward0/array/jagged.py:JaggedArray.__getitem__"], "jagged arrays with masked content in every encoding and layout: reducers skip the holes; flatten, element access, slicing and counts keep them; ufuncs propagate them")
class JaggedMasked(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(4000 if tier == "quick" else 25000):
            counts = rand_counts(rng, rng.randint(0, 6))
            dt = rng.choice(["i8", "f8"])
            a = jag_layout(rng, counts, lambda m: one(rng, m, dt))
            for_ = a["content"]["content"]
            for_["data"] = [type(x)(x % 5 - 2) if x == x and abs(x) < 1000 else x for x in for_["data"]]
            b = dict(a, content=rehide(rng, a["content"]))
            fn = rng.choice(["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "flatten", "slice", "first", "outer", "add", "addj", "fillna", "compact"])
            yield dict(a=a, a2=b, fn=fn, dt=dt, s=rand_selector(rng, 0, kinds=("slice",)), o=rand_selector(rng, len(counts), kinds=("slice", "mask", "idx")))

    @staticmethod
    def check(c):
        for key in ("a", "a2"):
            a, v, fn = build(c[key]), value(c[key]), c["fn"]
            fp = fingerprint(a)
            if fn in REDS:
                got = run(lambda: getattr(a, fn)(), fn)
                want = [fold(fn, [x for x in l if x is not None], c["dt"]) for l in v]
            elif fn == "flatten":
                got, want = run(lambda: a.flatten(), fn), [x for l in v for x in l]
            elif fn == "compact":
                got, want = run(lambda: a.compact(), fn), v
            elif fn == "slice":
                s = slice(*c["s"]["s"])
                got, want = run(lambda: a[:, s], fn), [l[s] for l in v]
            elif fn == "first":
                if any(not l for l in v):
                    return
                got, want = run(lambda: a[:, 0], fn), [l[0] for l in v]
            elif fn == "outer":
                got, want = run(lambda: a[realsel(c["o"])], fn), pysel(v, c["o"])
            elif fn == "add":
                got, want = run(lambda: a + 10, fn), [[None if x is None else x + 10 for x in l] for l in v]
            elif fn == "addj":
                got, want = run(lambda: a + a, fn), [[None if x is None else x + x for x in l] for l in v]
            else:
                got, want = run(lambda: a.fillna(-77), fn), [[-77 if x is None else x for x in l] for l in v]
            if not eq(denote1(got), want, tol=True):
                raise Fail("%s of %r: got %r, expected %r" % (fn, v, denote1(got), want))
            check_fingerprint(fp, fn)


@bounded("C12", [M + "MaskedArray.flatten", M + "IndexedMaskedArray.flatten", M + "MaskedArray.counts", M + "IndexedMaskedArray.counts"], "masked arrays of lists: flatten axis 0/1 keeps one hole per missing list, counts is -1 for missing, element access inside present lists")
class MaskedJagged(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(3000 if tier == "quick" else 20000):
            n = rng.randint(0, 9)
            fn = rng.choice(["flatten", "flatten", "flatten1", "counts", "tolist", "sum", "max"])
            inner = (lambda m: jag_layout(rng, rand_counts(rng, m, 3), distinct)) if fn != "flatten1" else (lambda m: jag_layout(rng, rand_counts(rng, m, 2), lambda q: jag_layout(rng, rand_counts(rng, q, 2), distinct)))
            e = rng.choice(encodings(rng, holes(rng, n), inner(n)))
            if e["k"] == "mask" and rng.random() < 0.3:
                e = dict(e, content=inner(n + 1))
            yield dict(a=e, fn=fn)

    @staticmethod
    def check(c):
        a, v, fn = build(c["a"]), value(c["a"]), c["fn"]
        fp = fingerprint(a)
        if fn == "flatten":
            got, want = run(lambda: a.flatten(), fn), [y for l in v for y in ([None] if l is None else l)]
        elif fn == "flatten1":
            got, want = run(lambda: a.flatten(axis=1), fn), [None if l is None else [z for y in l for z in y] for l in v]
        elif fn == "counts":
            got, want = run(lambda: a.counts, fn), [-1 if l is None else len(l) for l in v]
        elif fn == "tolist":
            expect_list(run(lambda: a.tolist(), fn), v, fn)
            return
        else:
            got, want = run(lambda: getattr(a, fn)(), fn), [None if l is None else fold(fn, l, "i8") for l in v]
        expect(got, want, fn)
        check_fingerprint(fp, fn)
