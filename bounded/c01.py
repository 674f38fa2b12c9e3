from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."


def off(counts):
    o = [0]
    for c in counts:
        o.append(o[-1] + c)
    return o


def views(j, starts, stops, m, what):
    """every derived encoding of j describes the lists starts/stops over content 0..m-1"""
    n = len(starts)
    counts = [b - a for a, b in zip(starts, stops)]
    expect_list(len(j), n, what + " len")
    expect_list(denote(j), [list(range(100 + a, 100 + b)) for a, b in zip(starts, stops)], what + " value")
    if n:
        expect_list(np.asarray(j.starts).tolist(), starts, what + " starts")
        expect_list(np.asarray(j.stops).tolist(), stops, what + " stops")
    expect_list(np.asarray(j.counts).tolist(), counts, what + " counts")
    contiguous = all(stops[i] == starts[i + 1] for i in range(n - 1))
    if contiguous:
        o = np.asarray(j.offsets).tolist()
        if n == 0:
            expect_list(len(o), 1, what + " offsets length")
        else:
            expect_list(o, starts + stops[-1:], what + " offsets")
    else:
        raises(ValueError, lambda: j.offsets, what + " offsets of non-contiguous lists")
    expect_list(denote(j.localindex), [list(range(c)) for c in counts], what + " localindex")
    expect_list(denote(j.index), [list(range(c)) for c in counts], what + " index") if False else None
    # parents (defined for disjoint lists)
    used = {}
    disjoint = True
    for i in range(n):
        for k in range(starts[i], stops[i]):
            if k in used:
                disjoint = False
            used[k] = i
    if disjoint:
        p = np.asarray(j.parents).tolist()
        if len(p) < (max(used) + 1 if used else 0):
            raise Fail(what + " parents shorter than the last used position: %r" % p)
        for k, x in enumerate(p):
            if x != used.get(k, -1):
                raise Fail("%s parents: got %r, position %d is in list %r" % (what, p, k, used.get(k, -1)))


@bounded("C01", [J + "fromcounts", J + "fromoffsets", J + "offsets", J + "counts", J + "parents", J + "localindex"], "all count vectors of <=5 lists of <=3 elements (quick: <=4 of <=3), surplus content 0-2, first offset 0-2; random vectors up to 12 lists of 6")
class Encodings(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(5 if tier != "quick" else 4, 3):
            for extra in (0, 1):
                for how in ("counts", "offsets", "startsstops"):
                    for first in (0, 2):
                        if how == "counts" and first:
                            continue
                        yield dict(counts=counts, extra=extra, how=how, first=first)
        for _ in range(600 if tier == "quick" else 6000):
            yield dict(counts=rand_counts(rng, rng.randint(0, 12), 6), extra=rng.randint(0, 3), how=rng.choice(["counts", "offsets", "startsstops"]), first=0)

    @staticmethod
    def check(c):
        o = [x + c["first"] for x in off(c["counts"])]
        m = o[-1] + c["extra"]
        content = np.arange(100, 100 + m)
        if c["how"] == "counts":
            j = JaggedArray.fromcounts(iarr(c["counts"]), content)
        elif c["how"] == "offsets":
            j = JaggedArray.fromoffsets(iarr(o), content)
        else:
            j = JaggedArray(iarr(o[:-1]), iarr(o[1:]), content)
        views(j, o[:-1], o[1:], m, c["how"])
        views(j.copy(), o[:-1], o[1:], m, "copy")
        # read back one encoding and rebuild from it
        views(JaggedArray.fromcounts(j.counts, content[c["first"]:]), off(c["counts"])[:-1], off(c["counts"])[1:], m, "rebuilt from counts") if c["first"] == 0 else None
        views(JaggedArray.fromoffsets(j.offsets, content), o[:-1], o[1:], m, "rebuilt from offsets") if len(c["counts"]) else None


@bounded("C01", [J + "starts", J + "stops", J + "startsstops2parents"], "random disjoint, gapped, shuffled layouts with surplus stops, up to 8 lists")
class Layouts(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(3, 2):
            for style in ("gaps", "shuffled", "long", "allover"):
                yield dict(spec=jag_layout(rng, counts, distinct, style))
        for _ in range(1500 if tier == "quick" else 12000):
            yield dict(spec=jag_layout(rng, rand_counts(rng, rng.randint(0, 8)), distinct))

    @staticmethod
    def check(c):
        s = c["spec"]
        j = build(s)
        if s["k"] == "off":
            st, sp = s["offsets"][:-1], s["offsets"][1:]
        else:
            st, sp = s["starts"], s["stops"][:len(s["starts"])]
        m = len(s["content"]["data"])
        views(j, st, sp, m, "layout")


@bounded("C01", [J + "fromparents", J + "parents2startsstops", J + "fromuniques", J + "uniques2offsetsparents", J + "fromlocalindex"], "all parents arrays of contiguous children, <=4 parents of <=2 children with gaps (-1); unique runs up to 6; random larger")
class FromParents(object):
    @staticmethod
    def gen(rng, tier):
        import itertools
        runs = []
        for k in range(4):
            for perm in itertools.permutations(range(4), k):
                for ln in itertools.product((1, 2), repeat=k):
                    runs.append([(p, l) for p, l in zip(perm, ln)])
        for r in runs:
            for gap in (0, 1):
                p = []
                for a, l in r:
                    p += [a] * l
                    p += [-1] * gap
                yield dict(kind="parents", data=p)
        for _ in range(300):
            k = rng.randint(0, 6)
            p = []
            for a in rng.sample(range(8), k):
                p += [-1] * rng.choice([0, 0, 1]) + [a] * rng.randint(1, 3)
            yield dict(kind="parents", data=p)
        for n in range(0, 6):
            for t in itertools.product((0, 1, 2), repeat=n):
                yield dict(kind="uniques", data=list(t))
        for counts in counts_upto(4, 3):
            if all(counts):
                yield dict(kind="localindex", data=counts, jagged=True)
                yield dict(kind="localindex", data=counts, jagged=False)

    @staticmethod
    def check(c):
        d = c["data"]
        if c["kind"] == "parents":
            j = JaggedArray.fromparents(iarr(d), np.arange(100, 100 + len(d)))
            n = (max(d) + 1) if d and max(d) >= 0 else 0
            want = [[100 + k for k in range(len(d)) if d[k] == i] for i in range(n)]
            expect_list(denote(j), want, "fromparents")
            expect_list(np.asarray(j.counts).tolist(), [len(x) for x in want], "counts of fromparents")
            expect_list(denote(j.localindex), [list(range(len(x))) for x in want], "localindex of fromparents")
            expect_list(np.asarray(j.parents).tolist(), d, "parents of fromparents")
            st, sp = JaggedArray.parents2startsstops(iarr(d))
            k2 = JaggedArray(st, sp, np.arange(100, 100 + len(d)))
            expect_list(denote(k2), want, "parents2startsstops")
            j2 = JaggedArray.fromcounts([0], [])
            j2 = JaggedArray(iarr([0]), iarr([0]), np.arange(100, 100 + len(d)))
            j2.counts, j2.localindex
            j2.parents = iarr(d)
            expect_list(denote(j2), want, "parents setter")
            expect_list(np.asarray(j2.counts).tolist(), [len(x) for x in want], "counts after parents setter")
        elif c["kind"] == "uniques":
            import itertools
            runs = [len(list(g)) for _, g in itertools.groupby(d)]
            j = JaggedArray.fromuniques(iarr(d), np.arange(100, 100 + len(d)))
            o = off(runs)
            views(j, o[:-1], o[1:], len(d), "fromuniques")
        else:
            idx = [k for n in d for k in range(n)]
            arg = JaggedArray.fromcounts(iarr(d), iarr(idx)) if c["jagged"] else iarr(idx)
            j = JaggedArray.fromlocalindex(arg, np.arange(100, 100 + len(idx)))
            o = off(d)
            views(j, o[:-1], o[1:], len(idx), "fromlocalindex")
            bad = list(idx)
            if len(bad) > 1:
                bad[-1] = bad[-2] + 5
                raises(ValueError, lambda: JaggedArray.fromlocalindex(iarr(bad), np.arange(len(bad))), "fromlocalindex with a jump")


@bounded("C01", [J + "fromfolding", J + "fromregular", J + "fromjagged", J + "fromiter"], "lengths 0..12, sizes 1..6; shapes up to 3x3x3")
class Folding(object):
    @staticmethod
    def gen(rng, tier):
        for n in range(13):
            for s in range(1, 7):
                yield dict(kind="fold", n=n, s=s)
        for sh in [(0, 2), (1, 0), (1, 1), (2, 3), (3, 1), (2, 2, 2), (1, 3, 2), (3, 2, 1)]:
            yield dict(kind="reg", shape=list(sh))

    @staticmethod
    def check(c):
        if c["kind"] == "fold":
            j = JaggedArray.fromfolding(np.arange(100, 100 + c["n"]), c["s"])
            o = list(range(0, c["n"], c["s"])) + [c["n"]] if c["n"] else [0]
            views(j, o[:-1], o[1:], c["n"], "fromfolding")
        else:
            a = np.arange(int(np.prod(c["shape"]))).reshape(c["shape"])
            expect(run(lambda: JaggedArray.fromregular(a), "fromregular"), a.tolist(), "fromregular")


@bounded("C01", [J + "counts setter", J + "offsets setter", J + "starts setter", J + "stops setter", J + "content setter"], "histories of <=4 setters with all encodings read in between")
class Setters(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1200 if tier == "quick" else 8000):
            hist = []
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(["counts", "offsets", "startsstops", "read", "copy", "deepcopy"])
                hist.append([k, rand_counts(rng, rng.randint(0, 4), 3), rng.choice([0, 0, 1])])
            yield dict(hist=hist)

    @staticmethod
    def check(c):
        m = 40
        content = np.arange(100, 100 + m)
        j = JaggedArray(iarr([0, 3]), iarr([3, 5]), content)
        st, sp = [0, 3], [3, 5]
        for k, counts, first in c["hist"]:
            o = [x + first for x in off(counts)]
            if k == "counts":
                j.counts = iarr(counts)
                o = off(counts)
                st, sp = o[:-1], o[1:]
            elif k == "offsets":
                j.offsets = iarr(o)
                st, sp = o[:-1], o[1:]
            elif k == "startsstops":
                o2 = [x + 1 for x in o]
                if len(counts) == 0:
                    continue
                j.starts = iarr([x + i for i, x in enumerate(o2[:-1])])
                j.stops = iarr([x + i for i, x in enumerate(o2[1:])])
                st, sp = j.starts.tolist(), j.stops.tolist()
            elif k == "copy":
                j = j.copy()
            elif k == "deepcopy":
                j = j.deepcopy()
            views(j, st, sp, m, "after " + k)
            if k == "read":
                continue


@bounded("C01", [J + "counts2offsets", J + "offsets2parents", J + "startsstops2parents"], "static converters on all count vectors of <=5 lists of <=2 and random larger")
class Converters(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(5, 2):
            yield dict(counts=counts, first=0)
            yield dict(counts=counts, first=2)
        for _ in range(200):
            yield dict(counts=rand_counts(rng, rng.randint(0, 30), 9), first=rng.randint(0, 5))

    @staticmethod
    def check(c):
        o = off(c["counts"])
        expect_list(JaggedArray.counts2offsets(iarr(c["counts"])).tolist(), o, "counts2offsets")
        o = [x + c["first"] for x in o]
        want = [-1] * c["first"] + [i for i, n in enumerate(c["counts"]) for _ in range(n)]
        expect_list(JaggedArray.offsets2parents(iarr(o)).tolist(), want, "offsets2parents")
        if c["counts"]:
            expect_list(JaggedArray.startsstops2parents(iarr(o[:-1]), iarr(o[1:])).tolist(), want, "startsstops2parents")
