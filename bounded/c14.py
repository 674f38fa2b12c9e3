from .reg import bounded
from .model import *
import operator

U = "awkward0/array/union.py:"
BIN = {"add": operator.add, "mul": operator.mul, "lt": operator.lt, "eq": operator.eq, "maximum": np.maximum, "sub": operator.sub}
UN = {"neg": operator.neg, "abs": abs, "square": np.square, "modf": np.modf}


def union(rng, n, kinds=("flat",), k=None, sequential=None):
    """a union of length n >= 1 over k contents, tags interleaved at random, unused tags possible, index permuted, surplus index"""
    k = k or rng.choice([1, 2, 2, 3])
    tags = [rng.randrange(k) for _ in range(n)]
    if rng.random() < 0.2:
        tags = [tags[0]] * n
    used = [tags.count(t) for t in range(k)]
    size = [u + rng.choice([0, 0, 1, 2]) for u in used]
    seq = rng.random() < 0.4 if sequential is None else sequential
    pos = [list(range(s)) for s in size]
    if not seq:
        for p in pos:
            rng.shuffle(p)
    index, c = [], [0] * k
    for t in tags:
        index.append(pos[t][c[t]] if seq or rng.random() < 0.8 else rng.choice(pos[t]))
        c[t] += 1
    if not seq:
        index += [rng.randint(0, 3) for _ in range(rng.choice([0, 0, 2]))]
    contents = []
    for s in size:
        q = rng.choice(kinds)
        contents.append(flat(rng, s) if q == "flat" else jag_layout(rng, rand_counts(rng, s, 3), distinct) if q == "jag" else {"k": "table", "cols": {"x": flat(rng, s), "y": distinct(s)}, "view": None} if q == "table" else rand_spec(rng, s, 1, [q]))
    return {"k": "union", "tags": tags, "index": index, "contents": contents}


MIX = ("flat", "flat", "jag", "str", "mask", "table", "chunk")


def dts(s):
    """numpy-typed values of a union of flat contents"""
    cs = [[np.dtype(c["dt"]).type(x) for x in c["data"]] for c in s["contents"]]
    return [cs[t][i] for t, i in zip(s["tags"], s["index"])]


@bounded("C14", [U + "UnionArray.__getitem__", U + "UnionArray.__iter__", U + "UnionArray._valid"], "every tag pattern of length <=4 over 2 contents; random unions of length 1..9 over 1..3 contents of 7 kinds; 5 selectors each, in and out of range, chained")
class Select(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        for n in range(1, 5):
            for tags in itertools.product([0, 1], repeat=n):
                c, ix = [0, 0], []
                for t in tags:
                    ix.append(c[t])
                    c[t] += 1
                a = {"k": "union", "tags": list(tags), "index": ix, "contents": [distinct(c[0]), {"k": "np", "dt": "f8", "data": [0.5 + i for i in range(c[1])]}]}
                sels = list(all_selectors(n)) if n <= 2 else [rand_selector(rng, n, bad=0.2) for _ in range(30)]
                rng.shuffle(sels)
                for s in sels[:60]:
                    yield dict(a=a, sel=s, r=rng.random())
        for _ in range(900 if tier == "quick" else 6000):
            n = rng.randint(1, 9)
            a = union(rng, n, MIX)
            for _ in range(4):
                yield dict(a=a, sel=rand_selector(rng, n, bad=0.2), r=rng.random())

    @staticmethod
    def check(c):
        import random
        a, v, s = build(c["a"]), value(c["a"]), c["sel"]
        fp = fingerprint(a)
        expect(len(a), len(v), "len")
        expect_list(iterate(a), v, "iteration")
        expect_list(run(lambda: a.tolist(), "tolist"), v, "tolist")
        got = check_select(a, v, s)
        if got is not None and s["t"] != "int":
            w = pysel(v, s)
            expect_list(iterate(got), w, "iteration of the selection")
            check_select(got, w, rand_selector(random.Random(c["r"]), len(w)), "selection twice")
        check_fingerprint(fp, "selection")


@bounded("C14", [U + "UnionArray.__getitem__"], "selectors inside the elements (a[sel, k], a[sel, i:j]) for unions of jagged arrays, column selection for unions of tables")
class Inner(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 8000):
            n = rng.randint(1, 7)
            if rng.random() < 0.5:
                a = union(rng, n, ("jag",))
                sel = rand_selector(rng, n, ("slice", "mask", "idx"))
                yield dict(a=a, sel=sel, inner=[rng.choice([None, 0, 1, -1]), rng.choice([None, 1, 2, -1]), rng.choice([None, 1, -1, 2])], k=rng.choice([None, 0, -1, 1]), op="jag")
            else:
                yield dict(a=union(rng, n, ("table",)), sel=None, op="table")

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        fp = fingerprint(a)
        if c["op"] == "table":
            for n in ("x", "y"):
                expect(run(lambda: a[n], "column"), [r[n] for r in v], "column of a union of tables")
            expect(run(lambda: a[["y"]], "columns"), [{"y": r["y"]} for r in v], "columns of a union of tables")
        else:
            w = pysel(v, c["sel"])
            sl = slice(*c["inner"])
            expect(run(lambda: a[realsel(c["sel"]), sl], "a[sel, slice]"), [x[sl] for x in w], "a[sel, slice]")
            k = c["k"]
            if k is not None:
                f = lambda: a[realsel(c["sel"]), k]
                if all(-len(x) <= k < len(x) for x in w):
                    expect(run(f, "a[sel, k]"), [x[k] for x in w], "a[sel, k]")
                else:
                    raises(IndexError, f, "a[sel, k]")
        check_fingerprint(fp, "selection")


@bounded("C14", [U + "UnionArray.__array_ufunc__", U + "UnionArray._reduce", U + "UnionArray._prepare", U + "UnionArray.uniondtype"], "operations of unions with scalars, flat arrays and other unions (both sides), unary and multi-output, and reducers, over random numeric unions of length 1..9")
class Elementwise(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(3500 if tier == "quick" else 20000):
            n = rng.randint(1, 9)
            a = union(rng, n)
            kind = rng.choice(["union", "flat", "scalar", "un", "red"])
            if kind == "un":
                yield dict(a=a, kind=kind, op=rng.choice(sorted(UN)), b=None)
            elif kind == "red":
                yield dict(a=a, kind=kind, op=rng.choice(["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero"]), b=None)
            else:
                b = union(rng, n) if kind == "union" else flat(rng, n if kind == "flat" else 1)
                yield dict(a=a, kind=kind, op=rng.choice(sorted(BIN)), b=b)

    @staticmethod
    def check(c):
        a, v, op = build(c["a"]), dts(c["a"]), c["op"]
        fp = fingerprint(a)
        if c["kind"] == "un":
            got = run(lambda: UN[op](a), op)
            want = [UN[op](x) for x in v]
            if op == "modf":
                for k in (0, 1):
                    expect(got[k], [scalar(x[k]) for x in want], op, tol=True)
            else:
                expect(got, [scalar(x) for x in want], op, tol=True)
        elif c["kind"] == "red":
            w = [scalar(x) for x in v]
            want = {"sum": lambda: sum(w), "prod": lambda: float(np.prod(np.array(w, dtype=float))), "min": lambda: min(w), "max": lambda: max(w), "any": lambda: any(w), "all": lambda: all(w), "count": lambda: len(w), "count_nonzero": lambda: sum(1 for x in w if x)}[op]()
            if op == "prod" and abs(want) > 1e9:
                return
            expect(run(getattr(a, op), op), want, op, tol=True)
        else:
            b = build(c["b"])
            vb = dts(c["b"]) if c["kind"] == "union" else list(b)
            fb = fingerprint(b)
            if c["kind"] == "scalar":
                b = b[0]
                vb = [b] * len(v)
            expect(run(lambda: BIN[op](a, b), op), [scalar(BIN[op](x, y)) for x, y in zip(v, vb)], "%s %s" % (op, c["kind"]), tol=True)
            expect(run(lambda: BIN[op](b, a), op), [scalar(BIN[op](y, x)) for x, y in zip(v, vb)], "%s %s swapped" % (op, c["kind"]), tol=True)
            check_fingerprint(fb, op)
        check_fingerprint(fp, op)


@bounded("C14", [U + "UnionArray.fromtags", U + "UnionArray.issequential", U + "UnionArray.tags", U + "UnionArray.index", U + "UnionArray.contents", U + "UnionArray.copy", U + "UnionArray.counts", U + "UnionArray.regular", U + "UnionArray.pad", U + "UnionArray.boolmask"], "fromtags for every tag pattern of length <=5 over <=3 contents; counts, pad, boolmask, regular of random unions")
class FromTags(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        for n in range(1, 6):
            for tags in itertools.product([0, 1, 2], repeat=n):
                if rng.random() < (0.5 if tier == "quick" else 1.0):
                    yield dict(op="fromtags", tags=list(tags), extra=[rng.randint(0, 1) for _ in range(3)], dt=rng.choice(["u1", "i8", "i4"]))
        for _ in range(800):
            n = rng.randint(1, 7)
            op = rng.choice(["counts", "pad", "boolmask", "regular"])
            kinds = ("jag",) if op in ("counts", "pad") else ("mask", "imask", "flat") if op == "boolmask" else ("flat",)
            yield dict(op=op, a=union(rng, n, kinds))

    @staticmethod
    def check(c):
        if c["op"] == "fromtags":
            tags = c["tags"]
            k = max(tags) + 1
            contents = [[100 * t + i for i in range(tags.count(t) + c["extra"][t])] for t in range(k)]
            a = run(lambda: UnionArray.fromtags(np.array(tags, dtype=c["dt"]), [np.array(x, dtype=np.int64) for x in contents]), "fromtags")
            nxt, want = [0] * k, []
            for t in tags:
                want.append(contents[t][nxt[t]])
                nxt[t] += 1
            expect(a, want, "fromtags")
            expect(a.tolist(), want, "fromtags tolist")
            if not a.issequential:
                raise Fail("fromtags: not sequential")
            short = [x[:max(0, tags.count(t) - 1)] for t, x in enumerate(contents)]
            raises((ValueError, IndexError), lambda: UnionArray.fromtags(np.array(tags), [np.array(x, dtype=np.int64) for x in short]).tolist(), "fromtags with too short contents")
            return
        a, v, op = build(c["a"]), value(c["a"]), c["op"]
        fp = fingerprint(a)
        if op == "counts":
            expect(run(lambda: a.counts, op), [len(x) for x in v], op)
        elif op == "pad":
            expect(run(lambda: a.pad(2), op), [x + [None] * (2 - len(x)) for x in v], op)
        elif op == "boolmask":
            expect(run(a.boolmask, op), [x is None for x in v], op)
        elif op == "regular":
            expect(run(a.regular, op), v, op, tol=True)
        check_fingerprint(fp, op)
