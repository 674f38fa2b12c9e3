from .reg import bounded
from .model import *
import itertools

J = "awkward0/array/jagged.py:JaggedArray."
STY = ["offsets", "offset0", "compact", "gaps", "shuffled", "long", "allover"]


def tup(x):
    return {str(i): y for i, y in enumerate(x)}


def combos(fn, l, n=2):
    """tuples of local positions in the documented order"""
    r = range(len(l))
    if fn == "pairs":
        return [(i, j) for i in r for j in r if i <= j]
    if fn == "distincts":
        return [(i, j) for i in r for j in r if i < j]
    # choose: combinations of the first elements precede later ones
    return sorted(itertools.combinations(r, n), key=lambda t: t[::-1])


def contents(rng):
    def tab(m):
        if m and rng.random() < 0.5:
            return {"k": "table", "cols": {"x": distinct(m + 1), "y": flat(rng, m + 1)}, "view": [m - 1, -1, m]}
        return {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None}
    return rng.choice([distinct, distinct, lambda m: flat(rng, m), tab, lambda m: jag_layout(rng, rand_counts(rng, m, 2), distinct),
                       lambda m: {"k": "mask", "mask": [rng.random() < 0.3 for _ in range(m)], "mw": True, "content": distinct(m)}])


def base(rng, tier, q):
    for counts in counts_upto(3, 3):
        for style in STY:
            yield jag_layout(rng, counts, distinct, style)
    for _ in range(q if tier == "quick" else 10 * q):
        yield jag_layout(rng, rand_counts(rng, rng.randint(0, 7), 5), contents(rng))


@bounded("C09", [J + "pairs", J + "distincts", J + "argpairs", J + "argdistincts", J + "_argpairs", J + "_argdistincts"], "count vectors of <=3 lists of <=3 in 7 layouts; random <=7 lists of <=5, flat/Table/jagged/masked content, plain and nested")
class Pairs(object):
    @staticmethod
    def gen(rng, tier):
        for a in base(rng, tier, 2500):
            yield dict(a=a, fn=rng.choice(["pairs", "distincts"]), arg=rng.random() < 0.4, nested=rng.random() < 0.4)
        for c in (range(20, 90, 23) if tier == "quick" else range(5, 400, 13)):
            for fn in ("pairs", "distincts"):
                yield dict(a=jag_layout(rng, [0, c, 1], distinct, "compact"), fn=fn, arg=False, nested=False)

    @staticmethod
    def check(c):
        a, v, fn = build(c["a"]), value(c["a"]), c["fn"]
        fp = fingerprint(a)
        name = ("arg" if c["arg"] else "") + fn
        got = run(lambda: getattr(a, name)(nested=True) if c["nested"] else getattr(a, name)(), name)
        want = []
        for l in v:
            t = combos(fn, l)
            row = [tup(p if c["arg"] else [l[i] for i in p]) for p in t]
            if c["nested"]:
                firsts = range(len(l)) if fn == "pairs" else range(max(0, len(l) - 1))
                row = [[x for x, p in zip(row, t) if p[0] == f] for f in firsts]
            want.append(row)
        expect(got, want, name)
        expect_list(np.asarray(got.counts).tolist(), [len(x) for x in want], name + " counts")
        check_fingerprint(fp, name)
        if c["arg"] and not c["nested"]:
            for col in ("0", "1"):
                expect(run(lambda: a[got[col]], "indexing by " + name), [[l[q[col]] for q in w] for l, w in zip(v, want)], "indexing by " + name)


@bounded("C09", [J + "choose", J + "argchoose", J + "_argchoose"], "n=2..5 on count vectors of <=3 lists of <=3 in 7 layouts, random <=7 lists of <=7, and single lists up to 60 elements")
class Choose(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(3, 3):
            for style in STY:
                yield dict(a=jag_layout(rng, counts, distinct, style), n=rng.choice([2, 3]), arg=rng.random() < 0.5)
        for _ in range(2000 if tier == "quick" else 15000):
            yield dict(a=jag_layout(rng, rand_counts(rng, rng.randint(0, 7), rng.randint(3, 7)), contents(rng)), n=rng.choice([2, 3, 4, 5]), arg=rng.random() < 0.4)
        for c, n in ([(60, 2), (40, 3), (20, 4), (14, 5)] if tier == "quick" else [(300, 2), (100, 3), (40, 4), (22, 5)]):
            yield dict(a=jag_layout(rng, [0, c, 2], distinct, "compact"), n=n, arg=False)

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        fp = fingerprint(a)
        name = "argchoose" if c["arg"] else "choose"
        got = run(lambda: getattr(a, name)(c["n"]), name)
        want = [[tup(t if c["arg"] else [l[i] for i in t]) for t in combos("choose", l, c["n"])] for l in v]
        expect(got, want, "%s(%d)" % (name, c["n"]))
        expect_list(np.asarray(got.counts).tolist(), [len(x) for x in want], name + " counts")
        check_fingerprint(fp, name)


@bounded("C09", [J + "cross", J + "argcross", J + "_argcross"], "pairs of count vectors of <=2 lists of <=2 in mixed layouts; random <=6 lists of <=4, plain and nested; chained crosses flatten tuples")
class Cross(object):
    @staticmethod
    def gen(rng, tier):
        for c1 in counts_upto(2, 2):
            for c2 in counts_upto(2, 2):
                if len(c1) == len(c2):
                    for nested in (False, True):
                        yield dict(a=jag_layout(rng, c1, distinct), b=jag_layout(rng, c2, distinct), arg=rng.random() < 0.5, nested=nested, chain=False)
        for _ in range(2500 if tier == "quick" else 15000):
            n = rng.randint(0, 6)
            yield dict(a=jag_layout(rng, rand_counts(rng, n), contents(rng)), b=jag_layout(rng, rand_counts(rng, n), contents(rng)), arg=rng.random() < 0.3, nested=rng.random() < 0.4, chain=False)
        for _ in range(300 if tier == "quick" else 2000):
            n = rng.randint(0, 4)
            yield dict(a=jag_layout(rng, rand_counts(rng, n, 3), distinct), b=jag_layout(rng, rand_counts(rng, n, 3), distinct), arg=False, nested=False, chain=True)

    @staticmethod
    def check(c):
        a, b, va, vb = build(c["a"]), build(c["b"]), value(c["a"]), value(c["b"])
        fp = fingerprint(a, b)
        name = "argcross" if c["arg"] else "cross"
        if c["chain"]:
            got = run(lambda: a.cross(b).cross(a), "chained cross")
            expect(got, [[tup((x, y, z)) for x in l for y in m for z in l] for l, m in zip(va, vb)], "chained cross")
            return
        got = run(lambda: getattr(a, name)(b, nested=True) if c["nested"] else getattr(a, name)(b), name)
        want = []
        for l, m in zip(va, vb):
            row = [[tup((i, j) if c["arg"] else (x, y)) for j, y in enumerate(m)] for i, x in enumerate(l)]
            want.append(row if c["nested"] else [t for r in row for t in r])
        expect(got, want, name)
        expect_list(np.asarray(got.counts).tolist(), [len(x) for x in want], name + " counts")
        check_fingerprint(fp, name)
