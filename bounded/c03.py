from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."


def sub(rng):
    return rng.choice([distinct, distinct, lambda m: flat(rng, m), lambda m: {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None},
                       lambda m: rand_spec(rng, m, 1, ["mask", "idx", "chunk", "str"])])


@bounded("C03", [J + "__getitem__ (second dimension)"], "every integer |k|<=4 and every slice |bound|<=4, step in {1,2,3,-1,-2,-3,missing} on all count vectors of <=3 lists of <=3 in 3 layouts; random of <=7 lists of <=6")
class Inner(object):
    @staticmethod
    def gen(rng, tier):
        sels = [{"t": "int", "i": i} for i in range(-4, 5)] + list(all_slices(3))
        for counts in counts_upto(2 if tier == "quick" else 3, 3):
            for style in ("offsets", "shuffled", "long"):
                spec = jag_layout(rng, counts, distinct, style)
                for s in (sels if tier != "quick" else rng.sample(sels, 60)):
                    yield dict(spec=spec, sel=s)
        for _ in range(5000 if tier == "quick" else 40000):
            n = rng.randint(0, 7)
            lo = rng.choice([0, 0, 1, 2])
            counts = [rng.randint(lo, rng.choice([2, 3, 6])) if lo <= 2 else 2 for _ in range(n)]
            yield dict(spec=jag_layout(rng, counts, sub(rng)), sel=rand_selector(rng, rng.randint(0, 6), ["int", "slice"]))

    @staticmethod
    def check(c):
        a, want, s = build(c["spec"]), value(c["spec"]), c["sel"]
        if s["t"] == "int":
            k = s["i"]
            if not all(-len(l) <= k < len(l) for l in want):
                raises(IndexError, lambda: a[:, k], "[:, %d]" % k)
            else:
                expect(run(lambda: a[:, k], "[:, %d]" % k), [l[k] for l in want], "[:, %d]" % k)
        else:
            sl = slice(*s["s"])
            got = run(lambda: a[:, sl], "[:, %s]" % s["s"])
            w = [l[sl] for l in want]
            expect(got, w, "[:, %s]" % s["s"])
            expect_list(np.asarray(got.counts).tolist(), [len(x) for x in w], "counts of [:, %s]" % s["s"])


@bounded("C03", [J + "__getitem__ (selectors in both dimensions)"], "random outer selector (integer, slice, mask, integer array) with inner integer/slice/integer-array/mask; layouts of <=6 lists of <=5")
class Both(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(6000 if tier == "quick" else 40000):
            n = rng.randint(0, 6)
            mode = rng.choice(["int", "slice", "slice", "adv", "sliceidx", "slicemask"])
            if mode == "slicemask":
                k = rng.randint(0, 4)
                counts = [k] * n
            else:
                lo = rng.choice([0, 1, 2])
                counts = [rng.randint(lo, 5) for _ in range(n)]
            spec = jag_layout(rng, counts, sub(rng) if mode in ("int", "slice") else rng.choice([distinct, lambda m: flat(rng, m)]))
            if mode == "int":
                outer = rand_selector(rng, n, ["slice", "mask", "idx", "int"], bad=0.05)
                inner = {"t": "int", "i": rng.randint(-3, 3)}
            elif mode == "slice":
                outer = rand_selector(rng, n, ["slice", "mask", "idx", "int"], bad=0.05)
                inner = rand_selector(rng, 5, ["slice"])
            elif mode == "adv":
                m = rng.randint(1, 4)
                outer = {"t": "idx", "i": [rng.randint(-n, n - 1) for _ in range(m)] if n else [], "dt": "i8", "as": "np"}
                inner = {"t": "idx", "i": [rng.randint(-2, 2) for _ in range(len(outer["i"]))], "dt": "i8", "as": "np"}
            elif mode == "sliceidx":
                outer = rand_selector(rng, n, ["slice"])
                inner = {"t": "idx", "i": [rng.randint(-2, 2) for _ in range(rng.randint(0, 3))], "dt": "i8", "as": "np"}
            else:
                outer = rand_selector(rng, n, ["slice"])
                inner = {"t": "mask", "m": [rng.random() < 0.5 for _ in range(k)], "as": "np"}
            yield dict(spec=spec, outer=outer, inner=inner, mode=mode)

    @staticmethod
    def check(c):
        a, want, o, i = build(c["spec"]), value(c["spec"]), c["outer"], c["inner"]
        call = lambda: a[realsel(o), realsel(i)]
        what = "[%s, %s]" % (json_short(o), json_short(i))
        try:
            rows = pysel(want, o)
            if o["t"] == "int":
                w = pysel(rows, i)
            elif c["mode"] == "adv":
                w = [pysel(r, {"t": "int", "i": k}) for r, k in zip(rows, i["i"])]
            else:
                w = [pysel(r, i) for r in rows]
        except IndexError:
            raises(IndexError, call, what)
            return
        if c["mode"] == "slicemask" and not len(rows):
            return
        expect(run(call, what), w, what)
        fp = fingerprint(a)
        io = realsel(i)
        if isinstance(io, np.ndarray):
            keep = io.copy()
            try:
                a[realsel(o), io]
            except Exception:
                pass
            if not np.array_equal(keep, io):
                raise Fail(what + ": modified the index array")
        check_fingerprint(fp, what)


@bounded("C03", [J + "__getitem__ (nested jagged)"], "doubly jagged arrays: [:, k] and [:, a:b:c] over inner lists, [i, j, k], [:, :, k]")
class Nested(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2000 if tier == "quick" else 15000):
            n = rng.randint(0, 5)
            lo = rng.choice([0, 1])
            spec = jag_layout(rng, [rng.randint(lo, 3) for _ in range(n)], lambda m: jag_layout(rng, [rng.randint(lo, 3) for _ in range(m)], distinct))
            yield dict(spec=spec, sel=rand_selector(rng, 3, ["int", "slice"]), i=rng.randint(-3, 3), j=rng.randint(-3, 3), k=rng.randint(-2, 2))

    @staticmethod
    def check(c):
        a, want, s = build(c["spec"]), value(c["spec"]), c["sel"]
        what = "[:, %s]" % json_short(s)
        try:
            w = [pysel(r, s) for r in want]
        except IndexError:
            raises(IndexError, lambda: a[:, realsel(s)], what)
        else:
            expect(run(lambda: a[:, realsel(s)], what), w, what)
        i, j, k = c["i"], c["j"], c["k"]
        try:
            w = want[i][j][k]
        except IndexError:
            raises(IndexError, lambda: a[i, j, k], "[i,j,k]")
        else:
            expect(run(lambda: a[i, j, k], "[i,j,k]"), w, "[i,j,k]")
        try:
            w = [[x[k] for x in r] for r in want]
        except IndexError:
            raises(IndexError, lambda: a[:, :, k], "[:,:,k]")
        else:
            if len(want):
                expect(run(lambda: a[:, :, k], "[:,:,k]"), w, "[:,:,%d]" % k)
