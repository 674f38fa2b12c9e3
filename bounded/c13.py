from .reg import bounded
from .model import *
from .c07 import apply_red, fold
import operator

I = "awkward0/array/indexed.py:"
BIN = {"add": operator.add, "mul": operator.mul, "lt": operator.lt, "eq": operator.eq, "maximum": np.maximum, "sub": operator.sub}


def sub(rng, m):
    k = rng.choice(["flat", "flat", "jag", "str", "mask", "chunk", "table", "idx", "union"])
    if k == "flat":
        return flat(rng, m)
    if k == "jag":
        return jag_layout(rng, rand_counts(rng, m, 3), distinct)
    if k == "table":
        return {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None}
    return rand_spec(rng, m, 1, [k])


def indexed(rng, n, content=None):
    m = rng.randint(1, n + 3)
    c = (content or sub)(rng, m)
    m = len(value(c))
    if m == 0:
        n = 0
    return {"k": "idx", "index": [rng.randint(0, m - 1) for _ in range(n)], "content": c}


def sparse(rng, n, dt=None, default="rand"):
    ix = sorted(rng.sample(range(n), rng.choice([0, 1, n // 2, n]) if n > 1 else rng.randint(0, n)))
    c = flat(rng, len(ix) + rng.choice([0, 0, 1]), dt)
    return {"k": "sparse", "length": n, "index": ix, "content": c, "default": rng.choice([0, 7, None]) if default == "rand" else default}


def val(s):
    v = value(s)
    if s["k"] == "sparse" and s["default"] is None:
        z = {"f8": 0.0, "i8": 0, "i4": 0}[s["content"]["dt"]]
        v = [z if x is None else x for x in v]
    return v


@bounded("C13", [I + "IndexedArray.__getitem__", I + "IndexedArray.__iter__", I + "IndexedArray._valid", I + "IndexedArray.copy"], "contents of 9 kinds, indexes of length 0..7 with repeats; 6 selectors each, in and out of range, chained pairs")
class IndexedSelect(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(900 if tier == "quick" else 6000):
            a = indexed(rng, rng.randint(0, 7))
            n = len(value(a))
            for _ in range(5):
                yield dict(a=a, sel=rand_selector(rng, n, bad=0.2), again=rng.random() < 0.4, r=rng.random())

    @staticmethod
    def check(c):
        import random
        a, v = build(c["a"]), value(c["a"])
        fp = fingerprint(a)
        expect(len(a), len(v), "len")
        expect_list(iterate(a), v, "iteration")
        expect(a, v, "denotation")
        if not eq(run(lambda: a.tolist(), "tolist"), v):
            raise Fail("tolist: %r, expected %r" % (a.tolist(), v))
        got = check_select(a, v, c["sel"])
        if got is not None and c["again"] and c["sel"]["t"] != "int":
            w = pysel(v, c["sel"])
            check_select(got, w, rand_selector(random.Random(c["r"]), len(w)), "selection twice")
        check_fingerprint(fp, "selection")


@bounded("C13", [I + "IndexedArray." + f for f in ("__array_ufunc__", "flatten", "counts", "regular", "pad", "_reduce", "_prepare", "argmin", "argmax", "boolmask", "pairs", "distincts", "cross", "_concatenate_axis0")], "operations on random indexed arrays of length 0..7 equal those on the gathered list")
class IndexedOps(object):
    @staticmethod
    def gen(rng, tier):
        flatops = ["add", "mul", "lt", "eq", "maximum", "sub", "sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax", "concat"]
        jagops = ["flatten", "counts", "jsum", "jmax", "jcount", "pairs", "distincts", "cross", "jadd", "pad", "jargmax", "concat"]
        for _ in range(4000 if tier == "quick" else 20000):
            n = rng.randint(0, 7)
            if rng.random() < 0.5:
                op = rng.choice(flatops)
                a = indexed(rng, n, lambda r, m: flat(r, m))
                kind = rng.choice(["idx", "flat", "scalar"])
                m = len(a["index"])
                b = {"idx": lambda: dict(indexed(rng, m, lambda r, k: flat(r, k))), "flat": lambda: flat(rng, m), "scalar": lambda: flat(rng, 1)}[kind]()
                yield dict(a=a, op=op, b=b, kind=kind)
            elif rng.random() < 0.2:
                a = indexed(rng, n, lambda r, m: rand_spec(r, m, 1, ["mask", "imask"], "i8"))
                yield dict(a=a, op=rng.choice(["boolmask", "msum", "mmax"]), b=None, kind=None)
            elif rng.random() < 0.2:
                a = indexed(rng, n, lambda r, m: {"k": "table", "cols": {"x": distinct(m), "y": flat(r, m + 1)}, "view": r.choice([None, None, [m - 1, -1, m]]) if m else None})
                yield dict(a=a, op=rng.choice(["col", "tsum", "tadd"]), b=None, kind=None)
            else:
                mk = lambda r, m: jag_layout(r, rand_counts(r, m, 3), distinct)
                a = indexed(rng, n, mk)
                yield dict(a=a, op=rng.choice(jagops), b=indexed(rng, len(a["index"]), mk), kind="jag")

    @staticmethod
    def check(c):
        a, v, op = build(c["a"]), value(c["a"]), c["op"]
        fp = fingerprint(a)
        if op in BIN:
            b, vb = build(c["b"]), value(c["b"])
            if len(vb) != len(v) and c["kind"] != "scalar":
                return
            if c["kind"] == "scalar":
                b, vb = vb[0], vb * len(v)
            expect(run(lambda: BIN[op](a, b), op), [scalar(BIN[op](x, y)) for x, y in zip(v, vb)], op, tol=True)
            if c["kind"] != "scalar":
                expect(run(lambda: BIN[op](b, a), op), [scalar(BIN[op](y, x)) for x, y in zip(v, vb)], op + " swapped", tol=True)
        elif op in ("sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax"):
            if not v and op in ("argmin", "argmax"):
                return
            arr = np.array(v, dtype=c["a"]["content"]["dt"])
            if op in ("min", "max") and not v:
                z = arr.dtype
                want = (np.iinfo(z).max if op == "min" else np.iinfo(z).min) if z.kind in "iu" else (float("inf") if op == "min" else float("-inf"))
            elif op == "count":
                want = len(v)
            elif op == "count_nonzero":
                want = sum(1 for x in v if x)
            else:
                want = getattr(arr, op)()
            expect(run(getattr(a, op), op), scalar(want), op, tol=True)
        elif op == "concat":
            b, vb = build(c["b"]), value(c["b"])
            if c["kind"] not in ("idx", "jag"):
                return
            expect(run(lambda: a.concatenate([b]), op), v + vb, op)
        elif op == "boolmask":
            expect(run(a.boolmask, op), [x is None for x in v], op)
        elif op in ("msum", "mmax"):
            w = [x for x in v if x is not None]
            if op == "msum":
                expect(run(a.sum, op), sum(w), op)
            elif w:
                expect(run(a.max, op), max(w), op)
        elif op == "col":
            for n in ("x", "y"):
                expect(run(lambda: a[n], op), [r[n] for r in v], "column of indexed table")
            expect(run(lambda: a[["y"]], op), [{"y": r["y"]} for r in v], "columns of indexed table")
        elif op == "tsum":
            r = run(a.sum, op)
            expect(r["x"], sum(q["x"] for q in v), op)
            expect(r["y"], sum(q["y"] for q in v), op, tol=True)
        elif op == "tadd":
            expect(run(lambda: a + 1, op), [{k: x + 1 for k, x in r.items()} for r in v], op, tol=True)
        elif op == "flatten":
            expect(run(a.flatten, op), [x for l in v for x in l], op)
        elif op == "counts":
            expect(run(lambda: a.counts, op), [len(l) for l in v], op)
        elif op == "jsum":
            expect(run(a.sum, op), [sum(l) for l in v], op)
        elif op == "jmax":
            expect(run(a.max, op), [max(l) if l else np.iinfo(np.int64).min for l in v], op)
        elif op == "jargmax":
            expect(run(a.argmax, op), [[l.index(max(l))] if l else [] for l in v], op)
        elif op == "jcount":
            expect(run(a.count, op), [len(l) for l in v], op)
        elif op == "pairs":
            got = run(a.pairs, op)
            expect([[tuple(denote1(y)[k] for k in ("0", "1")) for y in l] for l in got], [[(x, y) for i, x in enumerate(l) for y in l[i:]] for l in v], op)
        elif op == "distincts":
            got = run(a.distincts, op)
            expect([[tuple(denote1(y)[k] for k in ("0", "1")) for y in l] for l in got], [[(x, y) for i, x in enumerate(l) for y in l[i + 1:]] for l in v], op)
        elif op == "cross":
            b, vb = build(c["b"]), value(c["b"])
            if len(vb) != len(v):
                return
            b = b[:]   # cross takes a JaggedArray
            got = run(lambda: a.cross(b), op)
            expect([[tuple(denote1(y)[k] for k in ("0", "1")) for y in l] for l in got], [[(x, y) for x in l for y in m] for l, m in zip(v, vb)], op)
        elif op == "jadd":
            expect(run(lambda: a + a, op), [[x + x for x in l] for l in v], op)
            expect(run(lambda: a + 3, op), [[x + 3 for x in l] for l in v], op)
        elif op == "pad":
            expect(run(lambda: a.pad(2), op), [l + [None] * (2 - len(l)) for l in v], op)
        check_fingerprint(fp, op)


@bounded("C13", [I + "IndexedArray.invert", I + "IndexedArray._invert", I + "IndexedArray.__setitem__"], "every permutation of length <=5, injections with gaps, arrays with duplicates (rejected)")
class Invert(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        for n in range(6):
            for p in itertools.permutations(range(n)):
                yield dict(p=list(p))
        for _ in range(300):
            yield dict(p=[rng.randint(0, 6) for _ in range(rng.randint(1, 6))])

    @staticmethod
    def check(c):
        p = c["p"]
        f = lambda: IndexedArray.invert(np.array(p, dtype=np.int64))
        if len(set(p)) != len(p):
            return raises(ValueError, f, "invert of %r" % p)
        q = run(f, "invert")
        for k, x in enumerate(p):
            if q[x] != k:
                raise Fail("invert(%r) = %r" % (p, q.tolist()))
        if p and sorted(p) == list(range(len(p))):
            t = Table(x=np.arange(len(p)))
            a = IndexedArray(np.array(p), t)
            a["y"] = np.arange(len(p)) * 10
            expect(a["y"], [i * 10 for i in range(len(p))], "column assigned through the index")
            expect(t["y"], [10 * p.index(i) for i in range(len(p))], "column assigned to the content")


@bounded("C13", [I + "SparseArray.__getitem__", I + "SparseArray.__iter__", I + "SparseArray.default", I + "SparseArray.dense", I + "SparseArray._getinverse", I + "SparseArray.boolmask"], "every set of defined positions for length <=4 under every selector of a sample; random lengths 0..12; chained selections")
class SparseSelect(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        for n in range(0, 5):
            for m in itertools.product([0, 1], repeat=n):
                ix = [i for i in range(n) if m[i]]
                a = {"k": "sparse", "length": n, "index": ix, "content": distinct(len(ix)), "default": rng.choice([0, 7, None])}
                sels = list(all_selectors(n)) if n <= 3 else [rand_selector(rng, n, bad=0.2) for _ in range(60)]
                rng.shuffle(sels)
                for s in sels[:60 if tier == "quick" else 1000]:
                    yield dict(a=a, sel=s, r=rng.random())
        for _ in range(1500 if tier == "quick" else 10000):
            n = rng.randint(0, 12)
            yield dict(a=sparse(rng, n), sel=rand_selector(rng, n, bad=0.2), r=rng.random())

    @staticmethod
    def check(c):
        import random
        a, v = build(c["a"]), val(c["a"])
        fp = fingerprint(a)
        expect(len(a), len(v), "len")
        expect_list(iterate(a), v, "iteration")
        expect(run(lambda: a.dense, "dense"), v, "dense")
        expect(run(lambda: a.tolist(), "tolist"), v, "tolist")
        s = c["sel"]
        got = check_select(a, v, s)
        if got is not None and s["t"] != "int":
            w = pysel(v, s)
            expect_list(iterate(got), w, "iteration of the selection")
            check_select(got, w, rand_selector(random.Random(c["r"]), len(w)), "selection twice")
        check_fingerprint(fp, "selection")


@bounded("C13", [I + "SparseArray." + f for f in ("__array_ufunc__", "_reduce", "_prepare", "argmin", "argmax", "counts", "flatten", "regular", "pad", "zeros_like", "ones_like", "empty_like", "copy")], "operations on random sparse arrays of length 0..12 equal those on the dense list; sparse boolean masks")
class SparseOps(object):
    @staticmethod
    def gen(rng, tier):
        ops = sorted(BIN) + ["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax", "regular", "flatten", "zeros_like", "ones_like", "smask"]
        for _ in range(3000 if tier == "quick" else 20000):
            n = rng.randint(0, 12)
            a = sparse(rng, n)
            kind = rng.choice(["sparse", "flat", "scalar"])
            b = sparse(rng, n) if kind == "sparse" else flat(rng, n if kind == "flat" else 1)
            op = rng.choice(ops)
            if op == "smask":
                b = sparse(rng, n, "?", False)
            yield dict(a=a, b=b, kind=kind, op=op)

    @staticmethod
    def check(c):
        a, v, op = build(c["a"]), val(c["a"]), c["op"]
        fp = fingerprint(a)
        if op in BIN:
            b, vb = build(c["b"]), val(c["b"])
            if c["kind"] == "scalar":
                b, vb = vb[0], vb * len(v)
            expect(run(lambda: BIN[op](a, b), op), [scalar(BIN[op](x, y)) for x, y in zip(v, vb)], op, tol=True)
            expect(run(lambda: BIN[op](b, a), op), [scalar(BIN[op](y, x)) for x, y in zip(v, vb)], op + " swapped", tol=True)
        elif op in ("sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax"):
            if not v and op in ("argmin", "argmax", "min", "max"):
                return
            arr = np.array(v, dtype=c["a"]["content"]["dt"])
            want = len(v) if op == "count" else sum(1 for x in v if x) if op == "count_nonzero" else getattr(arr, op)()
            expect(run(getattr(a, op), op), scalar(want), op, tol=True)
        elif op in ("regular", "flatten"):
            expect(run(getattr(a, op), op), v, op)
        elif op in ("zeros_like", "ones_like"):
            z = 0 if op == "zeros_like" else 1
            got = run(getattr(a, op), op)
            d = val(c["a"])
            # explicit elements become z; the default is kept
            ix = set(c["a"]["index"])
            expect(got, [z if i in ix else x for i, x in enumerate(d)], op)
        elif op == "smask":
            m, vm = build(c["b"]), val(c["b"])
            expect(run(lambda: a[m], op), [x for x, k in zip(v, vm) if k], "sparse boolean mask")
        check_fingerprint(fp, op)
