from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."


def contents(rng):
    return rng.choice([distinct, distinct, lambda m: flat(rng, m), lambda m: {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None},
                       lambda m: jag_layout(rng, rand_counts(rng, m, 3), distinct), lambda m: rand_spec(rng, m, 1, ["mask", "idx", "chunk", "str", "imask"])])


@bounded("C02", [J + "__getitem__", J + "__iter__", J + "__len__", J + "copy"], "every selector (all integers, slices |bound|<=n+1 step<=3, masks, integer arrays of <=2) on layouts of <=3 lists; random layouts of <=8 lists with every content kind")
class Outer(object):
    @staticmethod
    def gen(rng, tier):
        for counts in ([], [0], [2], [0, 2], [2, 0], [1, 0, 2]):
            for style in ("offsets", "shuffled", "long", "overlap"):
                spec = jag_layout(rng, counts, distinct, style)
                if style == "long":
                    spec["stops"] = spec["stops"][:len(counts)] + [0, 1][:1 + len(counts) % 2]
                for s in all_selectors(len(counts)):
                    yield dict(spec=spec, sel=s)
        for _ in range(6000 if tier == "quick" else 40000):
            n = rng.randint(0, 8)
            spec = jag_layout(rng, rand_counts(rng, n), contents(rng))
            yield dict(spec=spec, sel=rand_selector(rng, n, bad=0.1))

    @staticmethod
    def check(c):
        a, want = build(c["spec"]), value(c["spec"])
        got = check_select(a, want, c["sel"])
        if isinstance(got, JaggedArray):
            w = pysel(want, c["sel"])
            expect_list(len(got), len(w), "len of the selection")
            expect_list(np.asarray(got.counts).tolist(), [len(x) for x in w], "counts of the selection")
            expect_list(iterate(got), w, "iteration of the selection")
        check_select(a, want, c["sel"], "selection repeated")


@bounded("C02", [J + "__getitem__", J + "__iter__", J + "__len__"], "len, iteration, tolist and element-by-element access of random layouts; IndexError out of range; wrong-length masks rejected")
class Access(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 10000):
            n = rng.randint(0, 8)
            yield dict(spec=jag_layout(rng, rand_counts(rng, n), contents(rng)), chain=[rand_selector(rng, 0, ["slice"]) for _ in range(2)])

    @staticmethod
    def check(c):
        a, want = build(c["spec"]), value(c["spec"])
        n = len(want)
        expect_list(len(a), n, "len")
        expect_list(iterate(a), want, "iteration")
        expect(a.tolist(), want, "tolist")
        for i in range(-n, n):
            expect(a[i], want[i], "element %d" % i)
        for i in (n, n + 1, -n - 1, -n - 5):
            raises(IndexError, lambda: a[i], "element %d of %d" % (i, n))
        if n:
            raises(IndexError, lambda: a[np.ones(n + 1, dtype=bool)], "mask longer than the array")
            raises(IndexError, lambda: a[np.array([0, n])], "integer array out of range")
        x, w = a, want
        for s in c["chain"]:
            x, w = x[realsel(s)], pysel(w, s)
            expect(x, w, "chained slices")


@bounded("C02", [J + "__getitem__ (field names)"], "jagged arrays of tables with 2 columns, name and list-of-names, before and after an outer selection")
class Fields(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(800 if tier == "quick" else 5000):
            n = rng.randint(0, 6)
            def mk(m):
                if rng.random() < 0.5 or m == 0:
                    return {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None}
                b = m + rng.randint(0, 2)
                return {"k": "table", "cols": {"x": distinct(b), "y": flat(rng, b)}, "view": {"index": [rng.randint(0, b - 1) for _ in range(m)]}}
            yield dict(spec=jag_layout(rng, rand_counts(rng, n), mk), sel=rand_selector(rng, n, ["slice", "mask", "idx"]))

    @staticmethod
    def check(c):
        a, want = build(c["spec"]), value(c["spec"])
        for nm in ("x", "y"):
            expect(a[nm], [[r[nm] for r in l] for l in want], "field")
        expect(a[["y", "x"]], want, "list of fields")
        expect(a[["x"]], [[{"x": r["x"]} for r in l] for l in want], "list of one field")
        expect(a[["x"]].columns, ["x"], "columns") if hasattr(a[["x"]], "columns") else None
        w = pysel(want, c["sel"])
        expect(a[realsel(c["sel"])]["x"], [[r["x"] for r in l] for l in w], "selection then field")
        expect(a["x"][realsel(c["sel"])], [[r["x"] for r in l] for l in w], "field then selection")
