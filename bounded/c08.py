from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."
STY = ["offsets", "offset0", "compact", "gaps", "shuffled", "long", "allover"]


def leaf(rng, m, dt, nan=False, small=True):
    if dt == "?":
        return flat(rng, m, "?")
    if dt.startswith("u"):
        d = [rng.choice([0, 0, 1, 2, 255]) for _ in range(m)]
    elif dt.startswith("i"):
        d = [rng.choice([-3, -1, 0, 0, 1, 2, 2, 5, 127, -128]) for _ in range(m)]
    else:
        d = [rng.choice([-1.5, -1.0, 0.0, 0.0, 1.0, 2.25, 7.0, float("inf"), float("-inf")] + ([float("nan")] * 3 if nan else [])) for _ in range(m)]
    return {"k": "np", "dt": dt, "data": d, "layout": rng.choice(["c", "c", "strided"])}


def gen_arrays(rng, tier, quickn, nan):
    for counts in counts_upto(3, 3):
        for style in STY:
            yield jag_layout(rng, counts, lambda m: leaf(rng, m, rng.choice(["i8", "f8"])), style), False
    for _ in range(quickn if tier == "quick" else 8 * quickn):
        dt = rng.choice(["i8", "f8", "f8", "i4", "i1", "u1", "?"])
        isn = nan and dt == "f8" and rng.random() < 0.4
        yield jag_layout(rng, rand_counts(rng, rng.randint(0, 8), 6), lambda m: leaf(rng, m, dt, isn)), isn


@bounded("C08", [J + "argmin", J + "argmax", J + "_argminmax"], "count vectors of <=3 lists of <=3 in 7 layouts with ties; random <=8 lists of <=6 over 7 dtypes incl. infinities and NaN")
class ArgMinMax(object):
    @staticmethod
    def gen(rng, tier):
        for a, isn in gen_arrays(rng, tier, 3500, True):
            yield dict(a=a, fn=rng.choice(["argmin", "argmax"]))

    @staticmethod
    def check(c):
        a, v, fn = build(c["a"]), value(c["a"]), c["fn"]
        fp = fingerprint(a)
        got = run(lambda: getattr(a, fn)(), fn)
        g = denote1(got)
        if not isinstance(got, JaggedArray) or len(g) != len(v):
            raise Fail("%s: %r of %r" % (fn, g, v))
        for l, q in zip(v, g):
            keep = [x for x in l if x == x]
            if not keep:
                if l and len(q) <= 1:
                    continue     # all NaN: no extremum to point at
                w = []
            else:
                m = min(keep) if fn == "argmin" else max(keep)
                w = [[k for k, x in enumerate(l) if x == m][0]]
            if not eq(q, w):
                raise Fail("%s: list %r gave %r, expected %r" % (fn, l, q, w))
        check_fingerprint(fp, fn)
        if all(x == x for l in v for x in l):
            ex = run(lambda: a[got], "indexing by " + fn)
            expect(ex, [[(min if fn == "argmin" else max)(l)] if l else [] for l in v], "indexing by " + fn)
        check_fingerprint(fp, fn)
        expect(getattr(a, fn)(), g, fn + " repeated")


@bounded("C08", [J + "argsort", J + "_argsort"], "as ArgMinMax, ascending and descending; result is a permutation sorting each list, NaN last")
class ArgSort(object):
    @staticmethod
    def gen(rng, tier):
        for a, isn in gen_arrays(rng, tier, 2500, True):
            yield dict(a=a, asc=rng.choice([None, True, False]))

    @staticmethod
    def check(c):
        a, v, asc = build(c["a"]), value(c["a"]), c["asc"]
        fp = fingerprint(a)
        got = run(lambda: a.argsort() if asc is None else a.argsort(ascending=asc), "argsort")
        g = denote1(got)
        expect_list(len(g), len(v), "argsort length")
        for l, q in zip(v, g):
            if sorted(q) != list(range(len(l))):
                raise Fail("argsort: %r of list %r is not a permutation" % (q, l))
            s = [l[k] for k in q]
            nn = [x for x in s if x == x]
            if any(x == x for x in s[len(nn):]):
                raise Fail("argsort: NaN not last in %r" % (s,))
            if nn != sorted(nn, reverse=not asc):
                raise Fail("argsort: list %r ordered as %r" % (l, s))
        check_fingerprint(fp, "argsort")
        so = run(lambda: a[got], "indexing by argsort")
        expect(so, [[l[k] for k in q] for l, q in zip(v, g)], "indexing by argsort")


@bounded("C08", [J + "argmin (nested)", J + "argmax (nested)", J + "argsort (nested)"], "doubly jagged arrays act at the innermost level")
class Nested(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 10000):
            yield dict(a=jag_layout(rng, rand_counts(rng, rng.randint(0, 4), 3), lambda m: jag_layout(rng, rand_counts(rng, m, 3), lambda q: leaf(rng, q, "i8"))), fn=rng.choice(["argmin", "argmax", "argsort"]))

    @staticmethod
    def check(c):
        a, v, fn = build(c["a"]), value(c["a"]), c["fn"]
        got = run(lambda: getattr(a, fn)(), fn)
        g = denote1(got)
        f = min if fn == "argmin" else max
        if fn != "argsort":
            expect_list(g, [[[l.index(f(l))] if l else [] for l in L] for L in v], fn + " nested")
        else:
            expect_list([[[l[k] for k in q] for l, q in zip(L, Q)] for L, Q in zip(v, g)], [[sorted(l, reverse=True) for l in L] for L in v], fn + " nested")
