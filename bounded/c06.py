from .reg import bounded
from .model import *
import operator

J = "awkward0/array/jagged.py:JaggedArray."

BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
       "maximum": np.maximum, "minimum": np.minimum, "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod, "hypot": np.hypot, "npadd": np.add, "npsub": np.subtract, "pow": operator.pow,
       "and": operator.and_, "or": operator.or_, "xor": operator.xor, "divmod": divmod}
UN = {"neg": operator.neg, "abs": abs, "not": operator.invert, "sqrt": np.sqrt, "square": np.square, "sign": np.sign, "isnan": np.isnan, "npneg": np.negative, "round": round, "pos": operator.pos, "modf": np.modf}


def app(f, *xs):
    """the scalar meaning of the operation, by NumPy on 1-element arrays of the operands' dtypes"""
    r = f(*xs)
    return r


def npop(name):
    return (BIN.get(name) or UN.get(name))


def mkdata(rng, m, dt):
    s = flat(rng, m, dt)
    return s


def leafapply(f, a, b=None):
    """elementwise over equal nested lists (numpy scalars at the leaves); returns nested result, tuples for multi-output"""
    if isinstance(a, list):
        return [leafapply(f, x, None if b is None else y) for x, y in zip(a, b if b is not None else a)]
    if isinstance(a, dict):
        return {k: leafapply(f, v, None if b is None else (b[k] if isinstance(b, dict) else b)) for k, v in a.items()}
    with np.errstate(all="ignore"):
        r = f(a) if b is None else f(a, b)
    return r


def typed(nested, dt):
    """replace Python leaves by numpy scalars of dtype dt"""
    if isinstance(nested, list):
        return [typed(x, dt) for x in nested]
    if isinstance(nested, dict):
        return {k: typed(v, dt) for k, v in nested.items()}
    return np.dtype(dt).type(nested)


def pick(n, k):
    if isinstance(n, list):
        return [pick(x, k) for x in n]
    if isinstance(n, tuple):
        return scalar(n[k])
    return n


def untype(n):
    if isinstance(n, list):
        return [untype(x) for x in n]
    if isinstance(n, dict):
        return {k: untype(v) for k, v in n.items()}
    return scalar(n)


def dts(rng, op):
    if op in ("and", "or", "xor", "not"):
        return rng.choice([("?", "?"), ("i8", "i8"), ("i8", "i4")])
    if op == "pow":
        return ("f8", "f8")
    if op in ("neg", "npneg", "sub", "npsub", "pos", "sign"):
        return rng.choice([("i8", "i8"), ("f8", "i8"), ("i4", "f8"), ("f8", "f8")])
    return rng.choice([("i8", "i8"), ("f8", "i8"), ("i8", "f8"), ("i4", "i8"), ("f8", "f8")])


def compare(got, want, counts, what):
    if isinstance(got, tuple):
        for k, g in enumerate(got):
            w = pick(want, k)
            if not eq(denote1(g), untype(w), tol=True):
                raise Fail("%s (output %d): got %.200r, expected %.200r" % (what, k, denote1(g), untype(w)))
        return
    if not isinstance(got, AwkwardArray):
        raise Fail("%s: result is a %s" % (what, type(got).__name__))
    if not eq(denote1(got), untype(want), tol=True):
        raise Fail("%s: got %.250r, expected %.250r" % (what, denote1(got), untype(want)))
    if isinstance(got, JaggedArray):
        expect_list(np.asarray(got.counts).tolist(), counts, what + " counts")


STY = ["offsets", "offset0", "compact", "gaps", "shuffled", "long", "allover"]


@bounded("C06", [J + "__array_ufunc__", J + "_tojagged", J + "fromcounts"], "all count vectors of <=3 lists of <=2, each operand in each layout; random <=7 lists of <=4; 33 ufuncs/operators; scalar, flat, list and jagged operands on either side")
class Binary(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(3, 2):
            for s1 in STY:
                yield dict(op="sub", a=jag_layout(rng, counts, lambda m: mkdata(rng, m, "i8"), s1), kind="jag", swap=False, b=jag_layout(rng, counts, lambda m: mkdata(rng, m, "f8"), rng.choice(STY)))
                yield dict(op="sub", a=jag_layout(rng, counts, lambda m: mkdata(rng, m, "i8"), s1), kind="flat", swap=rng.random() < 0.5, b=mkdata(rng, len(counts), "f8"))
        for _ in range(6000 if tier == "quick" else 40000):
            op = rng.choice(sorted(BIN))
            d1, d2 = dts(rng, op)
            counts = rand_counts(rng, rng.randint(0, 7))
            kind = rng.choice(["jag", "jag", "jag", "flat", "flat", "scalar", "list", "npscalar"])
            a = jag_layout(rng, counts, lambda m: mkdata(rng, m, d1))
            if kind == "jag":
                b = jag_layout(rng, counts, lambda m: mkdata(rng, m, d2))
            elif kind in ("flat", "list"):
                b = mkdata(rng, len(counts), d2)
            else:
                b = mkdata(rng, 1, d2)
            yield dict(op=op, a=a, b=b, kind=kind, swap=rng.random() < 0.4)

    @staticmethod
    def check(c):
        a, k, f = build(c["a"]), c["kind"], npop(c["op"])
        va = typed(value(c["a"]), c["a"]["content"]["dt"])
        counts = [len(l) for l in va]
        if k == "jag":
            b = build(c["b"])
            vb = typed(value(c["b"]), c["b"]["content"]["dt"])
        else:
            b = build(c["b"])
            bd = b.dtype
            if k == "list":
                if not len(b):
                    return
                b = b.tolist()
                bd = np.array(b).dtype
            elif k == "scalar":
                b = b.tolist()[0]
            elif k == "npscalar":
                b = b[0]
            per = [np.asarray(build(c["b"])).astype(bd)[0] if k in ("scalar", "npscalar") else x for x in ([0] * len(counts) if k in ("scalar", "npscalar") else np.asarray(build(c["b"])).astype(bd))]
            vb = [[x] * n for x, n in zip(per, counts)]
        if c["op"] == "pow":
            # integer powers of negative integers are an error in NumPy: use non-negative exponents
            if k == "jag":
                b = abs(b)
            elif k == "list":
                b = [abs(x) for x in b]
            else:
                b = abs(b)
            if c["swap"]:
                a = abs(a)
                va = leafapply(abs, va)
            vb = leafapply(abs, vb)
        fp = fingerprint(a, b)
        what = "%s %s %s" % (c["op"], k, "(swapped)" if c["swap"] else "")
        if c["swap"]:
            got = run(lambda: f(b, a), what)
            want = leafapply(f, vb, va)
        else:
            got = run(lambda: f(a, b), what)
            want = leafapply(f, va, vb)
        compare(got, want, counts, what)
        check_fingerprint(fp, what)


@bounded("C06", [J + "__array_ufunc__ (unary, several outputs)"], "11 unary operations on random layouts of <=7 lists of <=4, flat, nested, and table content")
class Unary(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 15000):
            op = rng.choice(sorted(UN))
            d = dts(rng, op)[0]
            if op in ("isnan", "sqrt", "modf", "round"):
                d = "f8"
            n = rng.randint(0, 7)
            kind = rng.choice(["flat", "flat", "nested", "table"])
            if op == "modf":
                kind = "flat"
            if kind == "flat":
                a = jag_layout(rng, rand_counts(rng, n), lambda m: mkdata(rng, m, d))
            elif kind == "nested":
                a = jag_layout(rng, rand_counts(rng, n), lambda m: jag_layout(rng, rand_counts(rng, m, 3), lambda q: mkdata(rng, q, d)))
            else:
                a = jag_layout(rng, rand_counts(rng, n), lambda m: {"k": "table", "cols": {"x": mkdata(rng, m, d), "y": mkdata(rng, m, d)}, "view": None})
            yield dict(op=op, a=a, kind=kind, dt=d)

    @staticmethod
    def check(c):
        a, f = build(c["a"]), npop(c["op"])
        va = typed(value(c["a"]), c["dt"])
        got = run(lambda: f(a), c["op"])
        g = f if c["op"] != "round" else np.rint
        compare(got, leafapply(g, va), [len(l) for l in va], c["op"])


@bounded("C06", [J + "__array_ufunc__ (nested and table content)"], "doubly jagged with doubly jagged, with singly jagged of equal outer counts, with flat and scalar; jagged tables with scalar, flat and jagged of equal counts")
class Deep(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 15000):
            n = rng.randint(0, 5)
            counts = rand_counts(rng, n, 3)
            tot = sum(counts)
            inner = rand_counts(rng, tot, 3)
            style = rng.choice(["offsets", "compact"])
            mk = lambda: jag_layout(rng, counts, lambda m: jag_layout(rng, inner, lambda q: mkdata(rng, q, "i8")), style)
            kind = rng.choice(["jj", "j", "flat", "scalar", "table", "tableflat", "tablej"])
            if kind == "jj":
                yield dict(kind=kind, a=mk(), b=mk())
            elif kind == "j":
                yield dict(kind=kind, a=mk(), b=jag_layout(rng, counts, lambda m: mkdata(rng, m, "f8")))
            elif kind == "flat":
                yield dict(kind=kind, a=mk(), b=mkdata(rng, n, "f8"))
            elif kind == "scalar":
                yield dict(kind=kind, a=mk(), b=rng.randint(-5, 5))
            else:
                t = jag_layout(rng, counts, lambda m: {"k": "table", "cols": {"x": mkdata(rng, m, "i8"), "y": mkdata(rng, m, "f8")}, "view": None})
                yield dict(kind=kind, a=t, b=rng.randint(-5, 5) if kind == "table" else mkdata(rng, n, "i8") if kind == "tableflat" else jag_layout(rng, counts, lambda m: mkdata(rng, m, "i8")))

    @staticmethod
    def check(c):
        a, va, k = build(c["a"]), value(c["a"]), c["kind"]
        f = operator.sub
        if k in ("jj",):
            b, vb = build(c["b"]), value(c["b"])
            want = leafapply(f, va, vb)
        elif k == "j":
            b, vb = build(c["b"]), value(c["b"])
            want = [[[x - y for x in l] for l, y in zip(L, M)] for L, M in zip(va, vb)]
        elif k == "flat":
            b, vb = build(c["b"]), value(c["b"])
            want = [[[x - y for x in l] for l in L] for L, y in zip(va, vb)]
        elif k == "scalar":
            b = c["b"]
            want = [[[x - b for x in l] for l in L] for L in va]
        elif k == "table":
            b = c["b"]
            want = [[{q: x - b for q, x in r.items()} for r in L] for L in va]
        elif k == "tableflat":
            b, vb = build(c["b"]), value(c["b"])
            want = [[{q: x - y for q, x in r.items()} for r in L] for L, y in zip(va, vb)]
        else:
            b, vb = build(c["b"]), value(c["b"])
            want = [[{q: x - y for q, x in r.items()} for r, y in zip(L, M)] for L, M in zip(va, vb)]
        got = run(lambda: a - b, "sub " + k)
        compare(got, want, [len(l) for l in va], "sub " + k)


@bounded("C06", [J + "__array_ufunc__ (rejection)"], "operands of different counts or lengths, every layout")
class Reject(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(1500 if tier == "quick" else 8000):
            counts = rand_counts(rng, rng.randint(1, 6))
            kind = rng.choice(["one", "perm", "len", "flat"])
            if kind == "one":
                o = list(counts)
                j = rng.randrange(len(o))
                o[j] += 1
            elif kind == "perm":
                o = sorted(counts)
                if o == counts:
                    o = o[::-1]
                if o == counts:
                    continue
            else:
                o = counts + [rng.choice([0, 2])]
            if kind == "flat":
                yield dict(a=jag_layout(rng, counts, distinct), b=flat(rng, len(counts) + rng.choice([1, 2])))
            else:
                yield dict(a=jag_layout(rng, counts, distinct), b=jag_layout(rng, o, distinct))

    @staticmethod
    def check(c):
        a, b = build(c["a"]), build(c["b"])
        raises(ValueError, lambda: a + b, "operands of different counts")
        raises(ValueError, lambda: b - a, "operands of different counts")
