from .reg import bounded
from .model import *
import itertools

M = "awkward0/array/masked.py:"


def encodings(rng, missing, content, styles=None):
    """all encodings of the same list with holes: missing positions over a content spec of the same length"""
    n = len(missing)
    out = []
    for mw in (True, False):
        extra = rng.randint(0, 2)
        c = content
        if content["k"] == "np" and extra:
            c = dict(content, data=content["data"] + content["data"][:1] * extra if content["data"] else content["data"])
        out.append({"k": "mask", "mask": [m == mw for m in missing], "mw": mw, "content": c})
        for lsb in (True, False):
            out.append({"k": "bit", "mask": [m == mw for m in missing], "mw": mw, "lsb": lsb, "pad": rng.randint(0, 1), "content": content})
    # indexed: scatter the values through a longer content
    vals = content["data"] if content["k"] == "np" else None
    if vals is not None:
        pos = list(range(n + 2))
        rng.shuffle(pos)
        data = [0] * (n + 2)
        for i, x in enumerate(vals):
            data[pos[i]] = x
        mw = rng.choice([-1, -1, -5])
        out.append({"k": "imask", "mask": [mw if m else pos[i] for i, m in enumerate(missing)], "mw": mw, "content": dict(content, data=data, layout="c")})
    else:
        out.append({"k": "imask", "mask": [-1 if m else i for i, m in enumerate(missing)], "mw": -1, "content": content})
    return out


def cases(rng, tier):
    for n in range(0, 4):
        for missing in itertools.product([False, True], repeat=n):
            for e in encodings(rng, missing, distinct(n)):
                yield e
    for _ in range(250 if tier == "quick" else 2500):
        n = rng.choice(list(range(0, 20)) + [7, 8, 9, 15, 16, 17, 24])
        p = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
        missing = [rng.random() < p for _ in range(n)]
        content = rng.choice([distinct(n), flat(rng, n), flat(rng, n, "f8"), rand_spec(rng, n, 1, ["str"]), jag_layout(rng, rand_counts(rng, n, 3), distinct), {"k": "table", "cols": {"x": distinct(n)}, "view": None}])
        for e in encodings(rng, missing, content):
            yield e


@bounded("C11", [M + c + ".__getitem__" for c in ("MaskedArray", "BitMaskedArray", "IndexedMaskedArray")] + [M + "BitMaskedArray._maskat", M + "BitMaskedArray._maskwhere"], "7 encodings of every hole pattern of length <=3 under every selector; random lengths 0..24 under 6 random selectors each (in and out of range)")
class Select(object):
    @staticmethod
    def gen(rng, tier):
        for e in cases(rng, tier):
            n = len(value(e))
            sels = list(all_selectors(n)) if n <= 2 else []
            if n <= 2:
                rng.shuffle(sels)
                sels = sels[:60 if tier == "quick" else 2000]
            for s in sels + [rand_selector(rng, n, bad=0.2) for _ in range(4)] + [{"t": "int", "i": i} for i in ([n, n + 1, n + 6, -n - 1] if rng.random() < 0.2 else [])]:
                yield dict(a=e, sel=s)

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        fp = fingerprint(a)
        s = realsel(c["sel"])
        fs = s.copy() if isinstance(s, np.ndarray) else s
        got = check_select(a, v, c["sel"], c["a"]["k"])
        if got is not None and c["sel"]["t"] != "int":
            if not isinstance(got, AwkwardArray) or len(got) != len(pysel(v, c["sel"])):
                raise Fail("selection is %r" % (got,))
            expect_list(np.asarray(got.boolmask(maskedwhen=True)).tolist(), [x is None for x in pysel(v, c["sel"])], "boolmask of the selection")
        check_fingerprint(fp, "selection")


@bounded("C11", [M + "%s.%s" % (c, f) for c in ("MaskedArray", "BitMaskedArray", "IndexedMaskedArray") for f in ("boolmask", "__iter__", "__len__", "indexed")] + [M + "BitMaskedArray.bit2bool", M + "BitMaskedArray.bool2bit", M + "BitMaskedArray.fromboolmask"], "as Select: length, iteration, tolist, boolmask both ways, ismasked, count, indexed(), conversions through boolmask, deepcopy, fillna")
class Whole(object):
    @staticmethod
    def gen(rng, tier):
        for e in cases(rng, tier):
            yield dict(a=e)

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        miss = [x is None for x in v]
        fp = fingerprint(a)
        k = c["a"]["k"]
        expect_list(len(a), len(v), "len")
        expect_list(iterate(a), v, "iteration")
        if c["a"]["content"]["k"] != "str":
            expect_list(run(lambda: a.tolist(), "tolist"), v, "tolist")
        expect_list(np.asarray(run(lambda: a.boolmask(maskedwhen=True), "boolmask")).tolist(), miss, "boolmask(True)")
        expect_list(np.asarray(a.boolmask(maskedwhen=False)).tolist(), [not m for m in miss], "boolmask(False)")
        expect_list(np.asarray(a.ismasked).tolist(), miss, "ismasked")
        expect_list(np.asarray(a.isunmasked).tolist(), [not m for m in miss], "isunmasked")
        x = run(lambda: a.indexed(), "indexed")
        expect(x, v, "indexed")
        content = a.content
        if k != "imask":
            # conversions through the boolean mask
            for mw in (True, False):
                expect(MaskedArray(a.boolmask(maskedwhen=mw), content, maskedwhen=mw), v, "MaskedArray from boolmask")
                for lsb in (True, False):
                    if len(content) == len(v):
                        b = run(lambda: BitMaskedArray.fromboolmask(a.boolmask(maskedwhen=mw), content, maskedwhen=mw, lsborder=lsb), "fromboolmask")
                        expect(b, v, "fromboolmask")
                        expect_list(np.asarray(b.boolmask(maskedwhen=True)).tolist(), miss, "boolmask of fromboolmask")
                        bits = BitMaskedArray.bool2bit(np.array(miss, bool), lsborder=lsb)
                        expect_list(BitMaskedArray.bit2bool(bits, lsborder=lsb)[:len(v)].tolist(), miss, "bit2bool of bool2bit")
        if c["a"]["content"]["k"] == "np":
            expect_list(scalar(run(lambda: a.count(), "count")), sum(1 for x in v if x is not None and x == x), "count")
            f = run(lambda: a.fillna(-77), "fillna")
            expect_list(denote1(f), [-77 if x is None else x for x in v], "fillna")
        expect(a.deepcopy(), v, "deepcopy")
        check_fingerprint(fp, "reading")
        expect(a, v, "array afterwards")


@bounded("C11", [M + c + ".fromcontent" for c in ("MaskedArray", "BitMaskedArray", "IndexedMaskedArray")], "fromcontent of lengths 0..17 with both maskedwhen conventions has no holes")
class FromContent(object):
    @staticmethod
    def gen(rng, tier):
        for n in range(18):
            for mw in (True, False):
                for k in ("mask", "bit", "bitl", "imask"):
                    yield dict(n=n, mw=mw, k=k)

    @staticmethod
    def check(c):
        d = np.arange(100, 100 + c["n"])
        a = {"mask": lambda: MaskedArray.fromcontent(d, maskedwhen=c["mw"]), "bit": lambda: BitMaskedArray.fromcontent(d, maskedwhen=c["mw"]), "bitl": lambda: BitMaskedArray.fromcontent(d, maskedwhen=c["mw"], lsborder=True), "imask": lambda: IndexedMaskedArray.fromcontent(d)}[c["k"]]()
        expect(a, d.tolist(), "fromcontent")
        expect_list(iterate(a), d.tolist(), "iteration of fromcontent")
        expect_list(np.asarray(a.boolmask(maskedwhen=True)).tolist(), [False] * c["n"], "boolmask of fromcontent")
        expect(a[:], d.tolist(), "slice of fromcontent")
