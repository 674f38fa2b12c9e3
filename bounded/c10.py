from .reg import bounded
from .model import *

J = "awkward0/array/jagged.py:JaggedArray."
STY = ["offsets", "offset0", "compact", "gaps", "shuffled", "long", "allover"]


def tab(rng, m, cols=("x", "y")):
    b = m + rng.randint(0, 2)
    view = None
    if m and rng.random() < 0.4:
        view = rng.choice([[b - 1, -1, m], {"index": [rng.randrange(b) for _ in range(m)]}])
    if view is None:
        b = m
    return {"k": "table", "cols": {c: flat(rng, b) for c in cols}, "view": view}


def mask(rng, m):
    return {"k": "mask", "mask": [rng.random() < 0.3 for _ in range(m)], "mw": rng.random() < 0.5, "content": distinct(m)}


def imask(rng, m):
    b = m + 1
    return {"k": "imask", "mask": [-1 if rng.random() < 0.3 else rng.randrange(b) for _ in range(m)], "mw": -1, "content": distinct(b)}


@bounded("C10", ["awkward0/array/base.py:AwkwardArray.concatenate", J + "_concatenate_axis0", "awkward0/array/table.py:Table._concatenate_axis0", "awkward0/array/masked.py:MaskedArray._concatenate_axis0", "awkward0/array/masked.py:IndexedMaskedArray._concatenate_axis0", "awkward0/array/objects.py:StringArray._concatenate_axis0"],
         "all pairs of count vectors of <=2 lists of <=2 in mixed layouts; random 1..4 arrays of jagged/nested/Table/masked/indexed-masked/string/mixed kinds, method and classmethod")
class Axis0(object):
    @staticmethod
    def gen(rng, tier):
        for c1 in counts_upto(2, 2):
            for c2 in counts_upto(2, 2):
                yield dict(arrays=[jag_layout(rng, c1, distinct), jag_layout(rng, c2, lambda m: flat(rng, m))], cm=rng.random() < 0.5)
        for _ in range(3000 if tier == "quick" else 20000):
            kind = rng.choice(["jag", "jag", "jagjag", "jagtab", "tab", "mask", "imask", "str", "mixed", "jagstr", "jagmask"])
            n = rng.randint(1, 4)
            arrays = []
            for _ in range(n):
                m = rng.randint(0, 4)
                k = kind if kind != "mixed" else rng.choice(["jag", "np", "str", "tab", "mask"])
                if k == "jag":
                    arrays.append(jag_layout(rng, rand_counts(rng, m), lambda q: flat(rng, q)))
                elif k == "jagjag":
                    arrays.append(jag_layout(rng, rand_counts(rng, m, 3), lambda q: jag_layout(rng, rand_counts(rng, q, 3), distinct)))
                elif k == "jagtab":
                    arrays.append(jag_layout(rng, rand_counts(rng, m, 3), lambda q: tab(rng, q)))
                elif k == "jagstr":
                    arrays.append(jag_layout(rng, rand_counts(rng, m, 3), lambda q: rand_spec(rng, q, 1, ["str"])))
                elif k == "jagmask":
                    arrays.append(jag_layout(rng, rand_counts(rng, m, 3), lambda q: mask(rng, q)))
                elif k == "tab":
                    arrays.append(tab(rng, m))
                elif k == "mask":
                    arrays.append(mask(rng, m))
                elif k == "imask":
                    arrays.append(imask(rng, m))
                elif k == "str":
                    arrays.append(rand_spec(rng, m, 1, ["str"]))
                else:
                    arrays.append(flat(rng, m))
            if kind == "mixed" and (all(a["k"] == "np" for a in arrays) or arrays[0]["k"] == "np" or not sum(len(value(a)) for a in arrays)):
                continue
            yield dict(arrays=arrays, cm=rng.random() < 0.5)

    @staticmethod
    def check(c):
        arrays = [build(a) for a in c["arrays"]]
        want = [x for a in c["arrays"] for x in value(a)]
        fp = fingerprint(*arrays)
        if c["cm"]:
            got = run(lambda: type(arrays[0]).concatenate(arrays, axis=0), "concatenate axis 0 (classmethod)")
        else:
            got = run(lambda: arrays[0].concatenate(arrays[1:]) if len(arrays) > 1 else type(arrays[0]).concatenate(arrays), "concatenate axis 0")
        expect(got, want, "concatenate axis 0")
        expect_list(len(got), len(want), "length of concatenation")
        check_fingerprint(fp, "concatenate axis 0")


@bounded("C10", [J + "_concatenate_axis1", "awkward0/array/objects.py:StringArray._concatenate_axis1"], "all pairs of count vectors of <=2 lists of <=2 in mixed layouts; random 1..4 arrays of <=6 lists, numeric (mixed dtypes), boolean, Table and string contents")
class Axis1(object):
    @staticmethod
    def gen(rng, tier):
        for c1 in counts_upto(2, 2):
            for c2 in counts_upto(2, 2):
                if len(c1) == len(c2):
                    yield dict(arrays=[jag_layout(rng, c1, distinct), jag_layout(rng, c2, lambda m: flat(rng, m))], cm=rng.random() < 0.5)
        for _ in range(2500 if tier == "quick" else 15000):
            kind = rng.choice(["num", "num", "bool", "tab", "str"])
            n, m = rng.randint(1, 4), rng.randint(0, 6)
            mk = {"num": lambda q: flat(rng, q), "bool": lambda q: flat(rng, q, "?"), "tab": lambda q: tab(rng, q)}.get(kind)
            if kind == "str":
                arrays = [rand_spec(rng, m, 1, ["str"]) for _ in range(n)]
            else:
                arrays = [jag_layout(rng, rand_counts(rng, m), mk) for _ in range(n)]
            yield dict(arrays=arrays, cm=rng.random() < 0.5)

    @staticmethod
    def check(c):
        arrays = [build(a) for a in c["arrays"]]
        vals = [value(a) for a in c["arrays"]]
        isstr = c["arrays"][0]["k"] == "str"
        want = [("" if isstr else []) for _ in vals[0]]
        for v in vals:
            want = [x + y for x, y in zip(want, v)]
        fp = fingerprint(*arrays)
        if c["cm"] or len(arrays) == 1:
            got = run(lambda: type(arrays[0]).concatenate(arrays, axis=1), "concatenate axis 1 (classmethod)")
        else:
            got = run(lambda: arrays[0].concatenate(arrays[1:], axis=1), "concatenate axis 1")
        expect(got, want, "concatenate axis 1")
        check_fingerprint(fp, "concatenate axis 1")


@bounded("C10", [J + "zip", J + "tojagged"], "all pairs of layouts for count vectors of <=3 lists of <=2; random <=6 lists with 2..3 jagged/flat/scalar columns given positionally, as dict or by keyword, class and instance method; mismatched counts raise")
class Zip(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(3, 2):
            for s in STY:
                yield dict(cols=[jag_layout(rng, counts, distinct, s), jag_layout(rng, counts, lambda m: flat(rng, m))], form="pos", inst=False, bad=False)
        for _ in range(3000 if tier == "quick" else 20000):
            counts = rand_counts(rng, rng.randint(0, 6))
            bad = rng.random() < 0.1 and len(counts) > 0
            cols = []
            for i in range(rng.randint(1, 3)):
                k = "jag" if i == 0 else rng.choice(["jag", "jag", "flat", "scalar"])
                if k == "jag":
                    cc = list(counts)
                    if bad and i == 1:
                        j = rng.randrange(len(cc))
                        cc[j] += 1
                    mk = rng.choice([distinct, lambda m: flat(rng, m), lambda m: tab(rng, m, ("p",)), lambda m: mask(rng, m)])
                    cols.append(jag_layout(rng, cc, mk))
                elif k == "flat":
                    cols.append(flat(rng, len(counts)))
                else:
                    cols.append({"k": "scalar", "v": rng.choice([3, 2.5, True])})
            if bad and (len(cols) < 2 or cols[1]["k"] not in ("jag", "off")):
                continue
            form = rng.choice(["pos", "dict", "kw"])
            if form != "pos" or True:
                order = list(range(len(cols)))
                inst = rng.random() < 0.4
                if not inst:
                    rng.shuffle(order)
                    cols = [cols[i] for i in order]
            yield dict(cols=cols, form=form, inst=inst, bad=bad)

    @staticmethod
    def check(c):
        cols = [x["v"] if x["k"] == "scalar" else build(x) for x in c["cols"]]
        js = [value(x) for x in c["cols"] if x["k"] in ("jag", "off")]
        first = js[0]
        vals = []
        for x in c["cols"]:
            if x["k"] == "scalar":
                vals.append([[x["v"]] * len(l) for l in first])
            elif x["k"] == "np":
                vals.append([[y] * len(l) for l, y in zip(first, value(x))])
            else:
                vals.append(value(x))
        fp = fingerprint(*cols)
        inst, form = c["inst"], c["form"]
        if inst:
            names = ["0"] + (["c%d" % i for i in range(1, len(cols))] if form == "kw" else [str(i) for i in range(1, len(cols))])
            call = (lambda: cols[0].zip(**dict(zip(names[1:], cols[1:])))) if form == "kw" else (lambda: cols[0].zip(*cols[1:]))
            if form == "dict":
                form = "pos"
        else:
            names = [("c%d" % i if form != "pos" else str(i)) for i in range(len(cols))]
            d = dict(zip(names, cols))
            call = {"pos": lambda: JaggedArray.zip(*cols), "dict": lambda: JaggedArray.zip(d), "kw": lambda: JaggedArray.zip(**d)}[form]
        if c["bad"]:
            raises((ValueError, IndexError), call, "zip of different counts")
            return
        got = run(call, "zip")
        want = [[dict((n, v[i][k]) for n, v in zip(names, vals)) for k in range(len(first[i]))] for i in range(len(first))]
        expect(got, want, "zip")
        check_fingerprint(fp, "zip")
        if not inst and form == "dict" and any(d[n] is not x for n, x in zip(names, cols)):
            raise Fail("zip: the dict of columns passed in was changed")


@bounded("C10", [J + "pad", "awkward0/array/base.py:AwkwardArray._util_pad"], "length 0..4, clip or not, three kinds of mask, all count vectors of <=3 lists of <=2 in 7 layouts; random contents (flat, Table, jagged, masked, 2-d) and axis 1")
class Pad(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(3, 2):
            for s in STY:
                yield dict(a=jag_layout(rng, counts, distinct, s), n=rng.randint(0, 3), clip=rng.random() < 0.5, mw=rng.choice([True, False, "ma"]), axis=0)
        for _ in range(3000 if tier == "quick" else 20000):
            mk = rng.choice([distinct, lambda m: flat(rng, m), lambda m: tab(rng, m), lambda m: jag_layout(rng, rand_counts(rng, m, 3), distinct), lambda m: mask(rng, m),
                             lambda m: {"k": "np", "dt": "i8", "data": [[10 * i, 10 * i + 1] for i in range(m)], "inner": [2]}])
            a = jag_layout(rng, rand_counts(rng, rng.randint(0, 6), 5), mk)
            ck = a["content"]["k"]
            axis = 0
            if ck in ("jag", "off") or "inner" in a["content"]:
                axis = rng.randint(0, 1)
            leaf = a["content"] if axis == 0 or "inner" in a["content"] else a["content"]["content"]
            mw = rng.choice([True, False, "ma"]) if leaf["k"] == "np" else rng.choice([True, False])
            if "inner" in a["content"] and axis == 0:
                mw = rng.choice([True, False])
            yield dict(a=a, n=rng.randint(0, 5), clip=rng.random() < 0.5, mw=mw, axis=axis)

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        n = c["n"]
        fp = fingerprint(a)
        got = run(lambda: a.pad(n, maskedwhen=np.ma.masked if c["mw"] == "ma" else c["mw"], clip=c["clip"], axis=c["axis"]), "pad")
        p = lambda l: l[:n] if c["clip"] and len(l) >= n else l + [None] * (n - len(l))
        want = [p(l) for l in v] if c["axis"] == 0 else [[p(x) for x in l] for l in v]
        expect(got, want, "pad")
        check_fingerprint(fp, "pad")
