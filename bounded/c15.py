from .reg import bounded
from .model import *
import operator

C = "awkward0/array/chunked.py:"
BIN = {"add": operator.add, "mul": operator.mul, "lt": operator.lt, "eq": operator.eq, "maximum": np.maximum, "sub": operator.sub}
UN = {"neg": operator.neg, "abs": abs, "square": np.square, "modf": np.modf}


def sizes(rng, n):
    out, left = [], n
    while left > 0:
        s = rng.choice([0, 1, 2, 3, left])
        s = min(s, left)
        out.append(s)
        left -= s
        if len(out) > 12:
            out.append(left)
            break
    while rng.random() < 0.3:
        out.insert(rng.randint(0, len(out)), 0)
    return out


def chunk_spec(rng, kind, n, dt=None):
    dt = dt or rng.choice(["i8", "f8"])
    mk = {"flat": lambda m: flat(rng, m, dt),
          "jag": lambda m: jag_layout(rng, rand_counts(rng, m, 3), distinct),
          "str": lambda m: rand_spec(rng, m, 1, ["str"]),
          "mask": lambda m: rand_spec(rng, m, 1, ["mask"], dt),
          "table": lambda m: {"k": "table", "cols": {"x": flat(rng, m, "i8"), "y": flat(rng, m, "f8")}, "view": None}}[kind]
    return {"k": "chunk", "chunks": [mk(m) for m in sizes(rng, n)], "known": rng.choice([0, 0, 99, 1])}


def make(s):
    chunks = [build(c) for c in s["chunks"]]
    return ChunkedArray(chunks, [len(c) for c in chunks[:s.get("known", 0)]])


KINDS = ("flat", "flat", "flat", "jag", "str", "mask", "table")


@bounded("C15", [C + "ChunkedArray." + f for f in ("__getitem__", "__iter__", "__len__", "__array__", "global2chunkid", "knowchunksizes", "offsets", "copy", "_gettype", "_valid", "_slices")], "every composition of length <=4 into chunks (with empty ones) under every slice, integer, mask and short index array of a sample; random arrays of length 0..12 of 5 kinds of chunk, known and unknown sizes, chained selections")
class Select(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        comps = []
        for n in range(0, 5):
            for k in range(0, 5):
                for t in itertools.product(range(n + 1), repeat=k):
                    if sum(t) == n:
                        comps.append((n, t))
        for n, t in comps:
            pos, cs = 0, []
            for m in t:
                cs.append({"k": "np", "dt": "i8", "data": list(range(pos, pos + m))})
                pos += m
            a = {"k": "chunk", "chunks": cs, "known": rng.choice([0, 99])}
            sels = list(all_selectors(n))
            rng.shuffle(sels)
            for s in sels[:25 if tier == "quick" else 400]:
                yield dict(a=a, sel=s, r=rng.random())
        for _ in range(2500 if tier == "quick" else 20000):
            n = rng.randint(0, 12)
            a = chunk_spec(rng, rng.choice(KINDS), n)
            yield dict(a=a, sel=rand_selector(rng, n, bad=0.2), r=rng.random())

    @staticmethod
    def check(c):
        import random
        s, v = c["sel"], value(c["a"])
        a = make(c["a"])
        fp = fingerprint(a)
        got = check_select(a, v, s)      # before the sizes are known
        expect(len(a), len(v), "len")
        expect_list(iterate(a), v, "iteration")
        expect_list(run(lambda: a.tolist(), "tolist"), v, "tolist")
        if all(x["k"] == "np" for x in c["a"]["chunks"]):
            expect(run(lambda: np.array(a), "numpy.array"), v, "numpy.array")
        check_select(a, v, s)
        if got is not None and s["t"] != "int":
            w = pysel(v, s)
            expect(len(got), len(w), "len of the selection")
            expect_list(iterate(got), w, "iteration of the selection")
            check_select(got, w, rand_selector(random.Random(c["r"]), len(w)), "selection twice")
        check_fingerprint(fp, "selection")


@bounded("C15", [C + "ChunkedArray.__getitem__"], "selectors inside the elements (a[sel, k], a[sel, i:j]) for chunked jagged arrays; columns of chunked tables; jagged and chunked masks")
class Inner(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 8000):
            n = rng.randint(0, 7)
            if rng.random() < 0.5:
                a = chunk_spec(rng, "jag", n)
                yield dict(a=a, sel=rand_selector(rng, n, ("slice", "mask", "idx")), inner=[rng.choice([None, 0, 1, -1]), rng.choice([None, 1, 2, -1]), rng.choice([None, 1, -1, 2])], k=rng.choice([None, 0, -1, 1]), op="jag")
            elif rng.random() < 0.5:
                yield dict(a=chunk_spec(rng, "table", n), op="table")
            else:
                yield dict(a=chunk_spec(rng, "flat", n, "i8"), op="mask", x=rng.randint(-50, 50))

    @staticmethod
    def check(c):
        a, v = make(c["a"]), value(c["a"])
        if c["op"] == "table":
            if not c["a"]["chunks"]:
                return
            for n in ("x", "y"):
                expect(run(lambda: a[n], "column"), [r[n] for r in v], "column of chunked tables")
            expect(run(lambda: a[["y"]], "columns"), [{"y": r["y"]} for r in v], "columns of chunked tables")
        elif c["op"] == "mask":
            if c["a"]["chunks"]:
                expect(run(lambda: a[a > c["x"]], "chunked mask"), [x for x in v if x > c["x"]], "chunked mask")
        else:
            w = pysel(v, c["sel"])
            sl = slice(*c["inner"])
            if c["a"]["chunks"]:
                expect(run(lambda: a[realsel(c["sel"]), sl], "a[sel, slice]"), [x[sl] for x in w], "a[sel, slice]")
            k = c["k"]
            if k is not None and c["a"]["chunks"]:
                f = lambda: a[realsel(c["sel"]), k]
                if all(-len(x) <= k < len(x) for x in w):
                    expect(run(f, "a[sel, k]"), [x[k] for x in w], "a[sel, k]")
                else:
                    raises(IndexError, f, "a[sel, k]")


@bounded("C15", [C + "ChunkedArray.global2local", C + "ChunkedArray.local2global", C + "ChunkedArray.global2chunkid"], "every position of random chunkings of length 0..10, scalar and array forms, negative and out-of-range ones")
class LocalGlobal(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1200 if tier == "quick" else 8000):
            n = rng.randint(0, 10)
            a = chunk_spec(rng, rng.choice(("flat", "jag")), n)
            m = rng.randint(0, 5)
            yield dict(a=a, ix=[rng.randint(-n, n - 1) for _ in range(m)] if n else [], bad=rng.random() < 0.2)

    @staticmethod
    def check(c):
        v = value(c["a"])
        parts = [value(x) for x in c["a"]["chunks"]]
        where = [(k, j) for k, p in enumerate(parts) for j in range(len(p))]
        n = len(v)
        a = make(c["a"])
        for i in c["ix"]:
            chunk, j = run(lambda: a.global2local(i), "global2local")
            k, l = where[i]
            if chunk is not a._chunks[k] or j != l:
                raise Fail("global2local(%d): local %r, expected chunk %d local %d" % (i, j, k, l))
            if a.local2global(l, k) != i % n or a.local2global(l - len(parts[k]), k) != i % n:
                raise Fail("local2global(%d, %d) != %d" % (l, k, i % n))
        if c["ix"]:
            a = make(c["a"])
            ix = np.array(c["ix"])
            fp = fingerprint(ix)
            k = run(lambda: a.global2chunkid(ix), "global2chunkid")
            expect_list(k.tolist(), [where[i][0] for i in c["ix"]], "global2chunkid")
            chunks, loc = run(lambda: a.global2local(ix), "global2local of an array")
            expect_list([int(x) for x in loc], [where[i][1] for i in c["ix"]], "global2local of an array")
            for x, i in zip(chunks, c["ix"]):
                if x is not a._chunks[where[i][0]]:
                    raise Fail("global2local of an array: wrong chunk")
            check_fingerprint(fp, "global2chunkid")
            l = np.array([where[i][1] - (len(parts[where[i][0]]) if i < 0 else 0) for i in c["ix"]])
            fp = fingerprint(l)
            g = run(lambda: make(c["a"]).local2global(l, np.array([where[i][0] for i in c["ix"]])), "local2global of arrays")
            expect_list([int(x) for x in g], [i % n for i in c["ix"]], "local2global of arrays")
            check_fingerprint(fp, "local2global")
        for i in (n, -n - 1):
            raises(IndexError, lambda: make(c["a"]).global2chunkid(i), "global2chunkid(%d)" % i)
            raises(IndexError, lambda: make(c["a"]).global2chunkid(np.array([i])), "global2chunkid([%d])" % i)
        for k, p in enumerate(parts):
            for l in (len(p), -len(p) - 1):
                raises(IndexError, lambda: make(c["a"]).local2global(l, k), "local2global out of range")
                raises(IndexError, lambda: make(c["a"]).local2global(np.array([l]), np.array([k])), "local2global out of range")


@bounded("C15", [C + "ChunkedArray." + f for f in ("__array_ufunc__", "_aligned", "flatten", "counts", "boolmask", "regular", "_reduce", "_prepare", "argmin", "argmax", "pad", "astype", "fillna", "_concatenate_axis0", "pairs", "distincts", "cross", "empty_like", "zeros_like", "ones_like")], "operations on random chunked arrays of length 0..12 equal those on the concatenated list")
class Ops(object):
    @staticmethod
    def gen(rng, tier):
        fl = sorted(BIN) + sorted(UN) + ["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax", "regular", "concat", "astype", "zeros_like", "ones_like", "fillna"]
        jg = ["flatten", "counts", "jsum", "jmax", "jcount", "jany", "jargmax", "pad", "pairs", "distincts", "cross", "concat", "jadd"]
        for _ in range(5000 if tier == "quick" else 30000):
            n = rng.choice([0, 1, 2, 3, 5, 8, 12])
            if rng.random() < 0.6:
                dt = rng.choice(["i8", "f8"])
                a = chunk_spec(rng, "flat", n, dt)
                op = rng.choice(fl)
                kind = rng.choice(["aligned", "chunked", "flat", "scalar"])
                if kind == "aligned":
                    b = {"k": "chunk", "chunks": [flat(rng, len(x["data"]), dt) for x in a["chunks"]], "known": rng.choice([0, 99])}
                elif kind == "chunked":
                    b = chunk_spec(rng, "flat", n, dt)
                else:
                    b = flat(rng, n if kind == "flat" else 1)
                yield dict(a=a, b=b, kind=kind, op=op)
            else:
                a = chunk_spec(rng, rng.choice(("jag",)), n)
                op = rng.choice(jg)
                yield dict(a=a, b=chunk_spec(rng, "jag", n), kind="jag", op=op)
            if rng.random() < 0.1:
                yield dict(a=chunk_spec(rng, "mask", n, "i8"), b=None, kind="mask", op=rng.choice(["boolmask", "sum", "count"]))

    @staticmethod
    def check(c):
        a, v, op = make(c["a"]), value(c["a"]), c["op"]
        if not c["a"]["chunks"]:
            return      # no chunk: no element type
        fp = fingerprint(a)
        if op in BIN:
            if c["kind"] in ("aligned", "chunked"):
                b, vb = make(c["b"]), value(c["b"])
                if [len(x["data"]) for x in c["a"]["chunks"]] != [len(x["data"]) for x in c["b"]["chunks"]]:
                    # different boundaries: a clear refusal or the right answer
                    try:
                        r = BIN[op](a, b)
                    except ValueError:
                        return
                    expect(r, [scalar(BIN[op](x, y)) for x, y in zip(v, vb)], op + " of differently chunked arrays", tol=True)
                    return
            else:
                b = build(c["b"])
                vb = list(b)
                if c["kind"] == "scalar":
                    b, vb = vb[0], vb * len(v)
            vv = list(np.array(v, dtype=c["a"]["chunks"][0]["dt"]))
            expect(run(lambda: BIN[op](a, b), op), [scalar(BIN[op](x, y)) for x, y in zip(vv, vb)], "%s %s" % (op, c["kind"]), tol=True)
            expect(run(lambda: BIN[op](b, a), op), [scalar(BIN[op](y, x)) for x, y in zip(vv, vb)], "%s %s swapped" % (op, c["kind"]), tol=True)
        elif op in UN:
            got = run(lambda: UN[op](a), op)
            want = [UN[op](x) for x in np.array(v, dtype=c["a"]["chunks"][0]["dt"])]
            if op == "modf":
                for k in (0, 1):
                    expect(got[k], [scalar(x[k]) for x in want], op, tol=True)
            else:
                expect(got, [scalar(x) for x in want], op, tol=True)
        elif op in ("sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax"):
            if c["kind"] == "mask":
                w = [x for x in v if x is not None]
                if op == "sum":
                    expect(run(a.sum, op), sum(w), op)
                elif op == "count":
                    expect(run(a.count, op), len(w), op)
                return
            if not v and op in ("argmin", "argmax"):
                return
            arr = np.array(v, dtype=c["a"]["chunks"][0]["dt"])
            if op in ("min", "max") and not v:
                z = arr.dtype
                want = (np.iinfo(z).max if op == "min" else np.iinfo(z).min) if z.kind in "iu" else (float("inf") if op == "min" else float("-inf"))
            elif op == "count":
                want = len(v)
            elif op == "count_nonzero":
                want = sum(1 for x in v if x)
            elif op == "prod":
                want = arr.prod()
            else:
                want = getattr(arr, op)()
            expect(run(getattr(a, op), op), scalar(want), op, tol=True)
        elif op == "regular":
            expect(run(a.regular, op), v, op)
        elif op == "astype":
            r = run(lambda: a.astype(np.dtype("i4")), op)
            expect(r, [int(x) for x in v], op)
        elif op in ("zeros_like", "ones_like"):
            expect(run(getattr(a, op), op), [0 if op == "zeros_like" else 1] * len(v), op)
        elif op == "fillna":
            expect(run(lambda: a.fillna(3), op), v, op)
        elif op == "concat":
            if c["kind"] in ("aligned", "chunked", "jag"):
                b = make(c["b"])
                expect(run(lambda: a.concatenate([b]), op), v + value(c["b"]), op)
        elif op == "boolmask":
            expect(run(a.boolmask, op), [x is None for x in v], op)
        elif op == "flatten":
            expect(run(a.flatten, op), [x for l in v for x in l], op)
        elif op == "counts":
            expect(run(lambda: a.counts, op), [len(l) for l in v], op)
        elif op in ("jsum", "jmax", "jcount", "jany"):
            f = {"jsum": (a.sum, sum), "jmax": (a.max, lambda l: max(l) if l else np.iinfo(np.int64).min), "jcount": (a.count, len), "jany": (a.any, lambda l: any(l))}[op]
            r = run(f[0], op)
            expect(r, [f[1](l) for l in v], op)
        elif op == "jargmax":
            expect(run(a.argmax, op), [[l.index(max(l))] if l else [] for l in v], op)
        elif op == "pad":
            r = run(lambda: a.pad(2), op)
            expect(r, [l + [None] * (2 - len(l)) for l in v], op)
        elif op in ("pairs", "distincts"):
            o = 0 if op == "pairs" else 1
            got = run(getattr(a, op), op)
            expect([[tuple(denote1(y)[k] for k in ("0", "1")) for y in l] for l in got], [[(x, y) for i, x in enumerate(l) for y in l[i + o:]] for l in v], op)
        elif op == "cross":
            b = make({"chunks": c["a"]["chunks"][:], "known": 0})
            got = run(lambda: a.cross(b), op)
            expect([[tuple(denote1(y)[k] for k in ("0", "1")) for y in l] for l in got], [[(x, y) for x in l for y in l] for l in v], op)
        elif op == "jadd":
            expect(run(lambda: a + a, op), [[x + x for x in l] for l in v], op)
            w = np.arange(len(v))
            expect(run(lambda: a + w, op), [[x + i for x in l] for i, l in enumerate(v)], op)
        check_fingerprint(fp, op)


@bounded("C15", [C + "AppendableArray." + f for f in ("append", "extend", "chunks", "copy", "__len__", "offsets", "astype", "fillna")] + [C + "ChunkedArray." + f for f in ("__getitem__", "__array_ufunc__")], "random sequences of up to 6 append/extend calls with chunk length 1..4, then reads, selections, operations and reducers")
class Appendable(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 10000):
            steps = []
            for _ in range(rng.randint(0, 6)):
                steps.append(rng.randint(-9, 9) if rng.random() < 0.5 else [rng.randint(-9, 9) for _ in range(rng.randint(0, 9))])
            n = sum(1 if isinstance(s, int) else len(s) for s in steps)
            yield dict(chunk=rng.randint(1, 4), dt=rng.choice(["i8", "f8"]), steps=steps, sel=rand_selector(rng, n, bad=0.1), op=rng.choice(["none", "add", "addself", "flatadd", "sum", "max", "min", "count", "any", "counts", "astype", "fillna", "mask", "more", "zeros_like", "argmax", "deepcopy", "regular"]))

    @staticmethod
    def check(c):
        a = AppendableArray(c["chunk"], np.dtype(c["dt"]))
        v = []
        for s in c["steps"]:
            if isinstance(s, int):
                a.append(s)
                v.append(s)
            else:
                a.extend(s)
                v += s
            expect(len(a), len(v), "len while appending")
            expect_list(iterate(a), v, "iteration while appending")
        op = c["op"]
        expect_list(run(lambda: a.tolist(), "tolist"), v, "tolist")
        expect(run(lambda: np.array(a), "numpy.array"), v, "numpy.array")
        check_select(a, v, c["sel"])
        if op == "more":
            b = a.copy()
            b.append(5)
            expect_list(iterate(b), v + [5], "appended to a copy")
            expect_list(iterate(a), v, "original after appending to a copy")
            a.extend([6, 7])
            expect_list(iterate(a), v + [6, 7], "appended after the copy")
            return
        if op == "deepcopy":
            b = a.deepcopy()
            b.append(5)
            b.extend([8])
            expect_list(iterate(b), v + [5, 8], "appended to a deep copy")
            expect_list(iterate(a), v, "original after appending to a deep copy")
            return
        if not v:
            return
        if op == "add":
            expect(run(lambda: a + 1, op), [x + 1 for x in v], op)
        elif op == "addself":
            expect(run(lambda: a + a, op), [x + x for x in v], op)
        elif op == "flatadd":
            expect(run(lambda: a + np.arange(len(v)), op), [x + i for i, x in enumerate(v)], op)
        elif op in ("sum", "max", "min", "any"):
            expect(run(getattr(a, op), op), {"sum": sum, "max": max, "min": min, "any": any}[op](v), op)
        elif op == "count":
            expect(run(a.count, op), len(v), op)
        elif op == "argmax":
            expect(run(a.argmax, op), v.index(max(v)), op)
        elif op == "counts":
            expect(run(lambda: a.counts, op), [-1] * len(v), op)
        elif op == "regular":
            expect(run(a.regular, op), v, op)
        elif op == "astype":
            expect(run(lambda: a.astype(np.dtype("i4")), op), v, op)
        elif op == "fillna":
            expect(run(lambda: a.fillna(2), op), v, op)
        elif op == "zeros_like":
            expect(run(a.zeros_like, op), [0] * len(v), op)
        elif op == "mask":
            expect(run(lambda: a[a > 0], op), [x for x in v if x > 0], op)
