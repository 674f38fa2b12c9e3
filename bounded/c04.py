from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."


def bools(m):
    return {"k": "np", "dt": "?", "data": [False] * m}


def relayout(rng, lists, mkdata, style=None):
    """a spec with the given nested lists in some layout: mkdata(list of scalars) -> content spec"""
    counts = [len(l) for l in lists]
    spec = jag_layout(rng, counts, lambda m: {"k": "np", "dt": "i8", "data": [None] * m}, style or rng.choice(["offsets", "offset0", "compact", "gaps", "shuffled", "long"]))
    n = len(spec["content"]["data"])
    filler = mkdata(None)
    data = [filler() for _ in range(n)]
    st = spec["starts"] if spec["k"] == "jag" else spec["offsets"][:-1]
    for s, l in zip(st, lists):
        for k, x in enumerate(l):
            data[s + k] = x
    spec["content"] = {"k": "np", "dt": mkdata("dt"), "data": data}
    return spec


def boolspec(rng, lists, style=None):
    return relayout(rng, lists, lambda q: "?" if q == "dt" else (lambda: rng.random() < 0.7), style)


def intspec(rng, lists, style=None, dt="i8"):
    return relayout(rng, lists, lambda q: dt if q == "dt" else (lambda: rng.randint(-9, 9)), style)


def contents(rng):
    return rng.choice([distinct, distinct, lambda m: flat(rng, m), lambda m: {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None},
                       lambda m: jag_layout(rng, rand_counts(rng, m, 3), distinct), lambda m: rand_spec(rng, m, 1, ["mask", "idx", "str", "imask"])])


@bounded("C04", [J + "__getitem__ (jagged mask)", J + "_tojagged"], "all masks over all count vectors of <=3 lists of <=2 in mixed layouts of both operands; random <=8 lists of <=4, every content kind")
class Mask(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        for counts in counts_upto(3, 2):
            for bits in itertools.product((False, True), repeat=sum(counts)):
                it = iter(bits)
                lists = [[next(it) for _ in range(k)] for k in counts]
                yield dict(spec=jag_layout(rng, counts, distinct), mask=boolspec(rng, lists))
        for _ in range(5000 if tier == "quick" else 40000):
            n = rng.randint(0, 8)
            counts = rand_counts(rng, n)
            p = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
            yield dict(spec=jag_layout(rng, counts, contents(rng)), mask=boolspec(rng, [[rng.random() < p for _ in range(k)] for k in counts]))

    @staticmethod
    def check(c):
        a, m = build(c["spec"]), build(c["mask"])
        fp = fingerprint(a, m)
        want = [[x for x, b in zip(l, q) if b] for l, q in zip(value(c["spec"]), value(c["mask"]))]
        got = run(lambda: a[m], "jagged mask")
        expect(got, want, "jagged mask")
        expect_list(np.asarray(got.counts).tolist(), [len(x) for x in want], "counts of jagged mask selection")
        check_fingerprint(fp, "jagged mask")
        expect(a[m], want, "jagged mask repeated")


@bounded("C04", [J + "__getitem__ (jagged integer index)", J + "_tojagged", J + "tojagged"], "random jagged integer indexes (in range, negative, out of range), both operands in every layout, <=8 lists of <=4")
class Index(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(6000 if tier == "quick" else 40000):
            n = rng.randint(0, 8)
            counts = rand_counts(rng, n)
            bad = rng.random() < 0.15
            lists = [[rng.randint(-k - (1 if bad else 0), k - 1 + (1 if bad else 0)) for _ in range(rng.choice([0, 1, 2, 3]))] if k or bad else [] for k in counts]
            yield dict(spec=jag_layout(rng, counts, contents(rng)), index=intspec(rng, lists, dt=rng.choice(["i8", "i4", "i2"])))

    @staticmethod
    def check(c):
        a, i = build(c["spec"]), build(c["index"])
        fp = fingerprint(a, i)
        va, vi = value(c["spec"]), value(c["index"])
        if any(not -len(l) <= k < len(l) for l, q in zip(va, vi) for k in q):
            raises(IndexError, lambda: a[i], "jagged index out of range")
        else:
            want = [[l[k] for k in q] for l, q in zip(va, vi)]
            got = run(lambda: a[i], "jagged index")
            expect(got, want, "jagged index")
            expect_list(np.asarray(got.counts).tolist(), [len(x) for x in want], "counts of jagged index selection")
        check_fingerprint(fp, "jagged index")


@bounded("C04", [J + "__getitem__ (structure mismatch)"], "masks and indexes whose number of lists or counts differ from the array's raise")
class Mismatch(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 8000):
            n = rng.randint(1, 6)
            counts = rand_counts(rng, n)
            kind = rng.choice(["counts", "len", "ilen", "both"])
            if kind == "counts":
                other = list(counts)
                j = rng.randrange(n)
                other[j] += rng.choice([1, 2]) if other[j] == 0 else rng.choice([-1, 1])
            elif kind == "both" and n >= 2:
                other = list(counts)
                rng.shuffle(other)
                if other == counts:
                    continue
            else:
                other = counts[:-1] if rng.random() < 0.5 else counts + [rng.choice([0, 1])]
            if kind == "ilen":
                yield dict(spec=jag_layout(rng, counts, distinct), sel=intspec(rng, [[0] if k else [] for k in other]), kind=kind)
            else:
                yield dict(spec=jag_layout(rng, counts, distinct), sel=boolspec(rng, [[True] * k for k in other]), kind=kind)

    @staticmethod
    def check(c):
        a, s = build(c["spec"]), build(c["sel"])
        raises((ValueError, IndexError), lambda: a[s], "selector of a different structure")


@bounded("C04", [J + "__getitem__ (doubly jagged selectors)"], "doubly jagged arrays with doubly jagged masks/indexes in matching layouts")
class Nested(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1200 if tier == "quick" else 8000):
            n = rng.randint(0, 4)
            inner = [[rng.randint(0, 3) for _ in range(rng.randint(0, 3))] for _ in range(n)]
            kind = rng.choice(["mask", "index"])
            flatc = [k for l in inner for k in l]
            off = [0]
            for l in inner:
                off.append(off[-1] + len(l))
            sel = [[rng.random() < 0.5 for _ in range(k)] if kind == "mask" else [rng.randint(-k, k - 1) for _ in range(rng.randint(0, 2))] if k else [] for k in flatc]
            spec = {"k": "off", "offsets": off, "content": jag_layout(rng, flatc, distinct)}
            ss = {"k": "off", "offsets": off, "content": boolspec(rng, sel) if kind == "mask" else intspec(rng, sel)}
            yield dict(spec=spec, sel=ss, kind=kind)

    @staticmethod
    def check(c):
        a, s = build(c["spec"]), build(c["sel"])
        va, vs = value(c["spec"]), value(c["sel"])
        if c["kind"] == "mask":
            want = [[[x for x, b in zip(l, q) if b] for l, q in zip(L, Q)] for L, Q in zip(va, vs)]
        else:
            want = [[[l[k] for k in q] for l, q in zip(L, Q)] for L, Q in zip(va, vs)]
        expect(run(lambda: a[s], "nested selector"), want, "nested selector")
