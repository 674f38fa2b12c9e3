from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."


def contents(rng):
    return rng.choice([distinct, distinct, lambda m: flat(rng, m), lambda m: {"k": "table", "cols": {"x": distinct(m), "y": flat(rng, m)}, "view": None},
                       lambda m: jag_layout(rng, rand_counts(rng, m, 3), distinct), lambda m: rand_spec(rng, m, 1, ["mask", "idx", "chunk", "str", "imask", "union"])])


def storage_order(j):
    """gap-free, in order"""
    st, sp = np.asarray(j._starts).reshape(-1), np.asarray(j.stops).reshape(-1)
    return all(sp[:-1] == st[1:])


@bounded("C05", [J + "flatten", J + "compact", J + "iscompact", J + "_tojagged", J + "copy", J + "deepcopy", J + "fromjagged"], "all count vectors of <=4 lists of <=2 in 7 layouts; random of <=8 lists of <=4 with every content kind")
class Flatten(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(4, 2):
            for style in ("offsets", "offset0", "compact", "gaps", "shuffled", "long", "overlap", "allover"):
                yield dict(spec=jag_layout(rng, counts, distinct, style))
        for _ in range(4000 if tier == "quick" else 30000):
            yield dict(spec=jag_layout(rng, rand_counts(rng, rng.randint(0, 8)), contents(rng)))

    @staticmethod
    def check(c):
        a, want = build(c["spec"]), value(c["spec"])
        fp = fingerprint(a)
        flatw = [x for l in want for x in l]
        expect(run(lambda: a.flatten(), "flatten"), flatw, "flatten")
        k = run(lambda: a.compact(), "compact")
        expect(k, want, "compact")
        if not storage_order(k):
            raise Fail("compact() left gaps or disorder: starts %r stops %r" % (k._starts.tolist(), k._stops.tolist()))
        if a.iscompact != storage_order(a) and len(want):
            raise Fail("iscompact is %r for starts %r stops %r" % (a.iscompact, a._starts.tolist(), a._stops.tolist()))
        expect(k.flatten(), flatw, "flatten of compact")
        expect(a.deepcopy(), want, "deepcopy")
        expect(a.copy(), want, "copy")
        expect(JaggedArray.fromjagged(a), want, "fromjagged")
        counts = [len(l) for l in want]
        # other starts/stops, with gaps
        pos, st = 1, []
        for n in reversed(counts):
            st.append(pos)
            pos += n + 1
        st = iarr(st[::-1])
        sp = st + iarr(counts) if counts else st
        expect(run(lambda: a._tojagged(st, sp, copy=False), "relayout"), want, "relayout")
        expect(run(lambda: a._tojagged(copy=True), "relayout to own"), want, "relayout to own layout, copied")
        check_fingerprint(fp, "flatten/compact/relayout")


@bounded("C05", [J + "flatten (axis=1)"], "doubly jagged of <=4 lists of <=3 lists of <=3 in every layout at both levels")
class Axis1(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(3000 if tier == "quick" else 20000):
            yield dict(spec=jag_layout(rng, rand_counts(rng, rng.randint(0, 5), 3), lambda m: jag_layout(rng, rand_counts(rng, m, 3), contents(rng))))

    @staticmethod
    def check(c):
        a, want = build(c["spec"]), value(c["spec"])
        expect(run(lambda: a.flatten(axis=1), "flatten(axis=1)"), [[x for l in L for x in l] for L in want], "flatten(axis=1)")
        expect(run(lambda: a.flatten().flatten(), "flatten().flatten()"), [x for L in want for l in L for x in l], "flatten().flatten()")
        raises((TypeError,), lambda: a.flatten(axis=-1), "flatten(axis=-1)")


@bounded("C05", [J + "regular"], "rectangular and non-rectangular lists, 0..5 x 0..4, every layout, 1- and 2-level")
class Regular(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 15000):
            n, k = rng.randint(0, 5), rng.randint(0, 4)
            counts = [k] * n
            if rng.random() < 0.3 and n:
                counts[rng.randrange(n)] += 1
            if rng.random() < 0.7:
                spec = jag_layout(rng, counts, lambda m: flat(rng, m))
            else:
                q = rng.randint(0, 2)
                spec = jag_layout(rng, counts, lambda m: jag_layout(rng, [q] * m, distinct))
            yield dict(spec=spec)

    @staticmethod
    def check(c):
        a, want = build(c["spec"]), value(c["spec"])
        if len(set(len(l) for l in want)) > 1:
            raises(ValueError, lambda: a.regular(), "regular() of unequal lists")
            return
        got = run(lambda: a.regular(), "regular()")
        if not isinstance(got, np.ndarray):
            raise Fail("regular() is a %s" % type(got).__name__)
        expect_list(got.shape[0], len(want), "regular().shape[0]")
        expect_list(got.tolist(), want, "regular()")


@bounded("C05", [J + "tojagged"], "flat array, list, scalar, awkward and jagged operands broadcast to <=8 lists of <=4 in every layout")
class ToJagged(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(4000 if tier == "quick" else 30000):
            n = rng.randint(0, 8)
            counts = rand_counts(rng, n)
            style = rng.choice(["offsets", "offset0", "compact", "gaps", "shuffled", "long"])
            kind = rng.choice(["np", "list", "scalar", "aw", "jag", "bad"])
            if kind == "bad":
                other = [counts + [1], counts[:-1] + [counts[-1] + 1] if n else [1], list(counts)][rng.randint(0, 2)]
                if other == counts:
                    # the same number of lists and of elements, in another distribution
                    i = rng.randint(0, max(n - 1, 0))
                    if n < 2 or counts[i] == 0:
                        other = counts + [0]
                    else:
                        other[i] -= 1
                        other[(i + rng.randint(1, n - 1)) % n] += 1
                data = jag_layout(rng, other, distinct)
            elif kind == "jag":
                data = jag_layout(rng, counts, contents(rng))
            elif kind == "aw":
                data = rand_spec(rng, n, 1, ["mask", "idx", "imask", "str", "table", "chunk"])
            elif kind == "scalar":
                data = rng.randint(-9, 9)
            else:
                data = flat(rng, n)
            yield dict(spec=jag_layout(rng, counts, distinct, style), kind=kind, data=data)

    @staticmethod
    def check(c):
        a = build(c["spec"])
        counts = [len(l) for l in value(c["spec"])]
        k, d = c["kind"], c["data"]
        if k == "bad":
            b = build(d)
            raises(ValueError, lambda: a.tojagged(b), "tojagged of different counts")
            if len(a) == len(b):
                raises(ValueError, lambda: a._tojagged(b.starts, b.stops), "_tojagged of different counts")
                raises(ValueError, lambda: a + b, "a ufunc of arrays of different counts")
        elif k == "jag":
            expect(run(lambda: a.tojagged(build(d)), "tojagged(jagged)"), value(d), "tojagged(jagged)")
        elif k == "scalar":
            expect(run(lambda: a.tojagged(d), "tojagged(scalar)"), [[d] * n for n in counts], "tojagged(scalar)")
        else:
            x = build(d)
            if k == "list":
                x = x.tolist()
            v = value(d)
            if k == "list" and not len(counts):
                return
            if len(v) == 1 and len(counts) > 1:
                return
            expect(run(lambda: a.tojagged(x), "tojagged(%s)" % k), [[y] * n for y, n in zip(v, counts)], "tojagged(%s)" % k)
