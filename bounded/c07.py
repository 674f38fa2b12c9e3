from .reg import bounded
from .model import *
import functools

J = "awkward0/array/jagged.py:JaggedArray."
B = "awkward0/array/base.py:AwkwardArray."
STY = ["offsets", "offset0", "compact", "gaps", "shuffled", "long", "allover"]
REDS = ["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "reduce_add", "reduce_max", "reduce_mul"]


def leaf(rng, m, dt, nan=False):
    if dt == "?":
        return flat(rng, m, "?")
    s = flat(rng, m, dt, nan=nan)
    if dt.startswith("f") or dt.startswith("i"):
        s["data"] = [x if x != x else type(x)(int(x) % 7 - 3 + (0.5 if isinstance(x, float) and x != int(x) else 0)) for x in s["data"]]
    return s


def ext(dt, ismin):
    d = np.dtype(dt)
    if d.kind == "f":
        return float("inf") if ismin else float("-inf")
    i = np.iinfo(d)
    return int(i.max if ismin else i.min)


def fold(red, l, dt):
    """oracle: one list of Python scalars"""
    isnan = lambda x: isinstance(x, float) and x != x
    keep = [x for x in l if not isnan(x)]
    if red in ("sum", "reduce_add"):
        return sum(keep)
    if red in ("prod", "reduce_mul"):
        return functools.reduce(lambda a, b: a * b, keep, 1)
    if red == "min":
        return min(keep) if keep else ext(dt, True)
    if red == "max":
        return max(keep) if keep else ext(dt, False)
    if red == "reduce_max":
        return max(keep) if keep else -1000
    if red == "any":
        return any(keep)
    if red == "all":
        return all(keep)
    if red == "count":
        return len(keep)
    return len([x for x in l if x != 0])


def apply_red(a, red):
    if red == "reduce_add":
        return a.reduce(np.add, 0)
    if red == "reduce_mul":
        return a.reduce(np.multiply, 1)
    if red == "reduce_max":
        return a.reduce(np.maximum, -1000)
    return getattr(a, red)()


def deepfold(red, v, dt, depth):
    if depth == 0:
        return fold(red, v, dt)
    return [deepfold(red, x, dt, depth - 1) for x in v]


@bounded("C07", [J + "_reduce", B + "reduce", B + "sum", B + "prod", B + "min", B + "max", B + "any", B + "all", B + "count", B + "count_nonzero"], "11 reducers over all count vectors of <=4 lists of <=2 in 7 layouts (5 dtypes, NaN); random <=8 lists of <=5")
class Reduce(object):
    @staticmethod
    def gen(rng, tier):
        for counts in counts_upto(4, 2):
            for style in STY:
                for red in (REDS if tier != "quick" else rng.sample(REDS, 3)):
                    yield dict(a=jag_layout(rng, counts, lambda m: leaf(rng, m, "i8"), style), red=red, dt="i8")
        for _ in range(7000 if tier == "quick" else 50000):
            red = rng.choice(REDS)
            dt = rng.choice(["i8", "f8", "f8", "i4", "u1", "?"])
            if red.startswith("reduce") and dt in ("?", "u1"):
                dt = "f8"
            nan = dt == "f8" and red != "count_nonzero" and rng.random() < 0.5
            yield dict(a=jag_layout(rng, rand_counts(rng, rng.randint(0, 8), 5), lambda m: leaf(rng, m, dt, nan)), red=red, dt=dt)

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        fp = fingerprint(a)
        got = run(lambda: apply_red(a, c["red"]), c["red"])
        if not isinstance(got, np.ndarray) or got.shape != (len(v),):
            raise Fail("%s: result %r" % (c["red"], got))
        dt = c["dt"]
        g = got.tolist()
        for i, l in enumerate(v):
            if dt == "?" and c["red"] in ("min", "max") and not l:
                continue
            w = fold(c["red"], l, dt if dt != "?" else "i8")
            if not eq(g[i], w if not isinstance(w, bool) else w, tol=True):
                raise Fail("%s: list %d %r gave %r, expected %r" % (c["red"], i, l, g[i], w))
        check_fingerprint(fp, c["red"])
        if not eq(denote1(apply_red(a, c["red"])), g, tol=True):
            raise Fail(c["red"] + ": a second evaluation differs")


@bounded("C07", [J + "_reduce (nested, table content)", "awkward0/array/table.py:Table._reduce"], "doubly jagged reduce at the innermost level, jagged tables reduce per column; <=5 lists of <=3 of <=3")
class Deep(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 15000):
            red = rng.choice(REDS)
            dt = rng.choice(["i8", "f8"])
            kind = rng.choice(["nested", "nested", "table"])
            if kind == "nested":
                a = jag_layout(rng, rand_counts(rng, rng.randint(0, 5), 3), lambda m: jag_layout(rng, rand_counts(rng, m, 3), lambda q: leaf(rng, q, dt)))
            else:
                def mk(m):
                    if m and rng.random() < 0.4:
                        b = m + rng.randint(0, 2)
                        view = rng.choice([[b - 1, -1, m], {"index": [rng.randrange(b) for _ in range(m)]}])
                        return {"k": "table", "cols": {"x": leaf(rng, b, dt), "y": leaf(rng, b, dt)}, "view": view}
                    return {"k": "table", "cols": {"x": leaf(rng, m, dt), "y": leaf(rng, m, dt)}, "view": None}
                a = jag_layout(rng, rand_counts(rng, rng.randint(0, 5), 3), mk)
            yield dict(a=a, red=red, dt=dt, kind=kind)

    @staticmethod
    def check(c):
        a, v = build(c["a"]), value(c["a"])
        got = run(lambda: apply_red(a, c["red"]), c["red"])
        if c["kind"] == "nested":
            want = deepfold(c["red"], v, c["dt"], 2)
            # depth 2: lists of lists -> list of values
            want = [[fold(c["red"], l, c["dt"]) for l in L] for L in v]
        else:
            want = [{k: fold(c["red"], [r[k] for r in L], c["dt"]) for k in ("x", "y")} for L in v]
        if not eq(denote1(got), want, tol=True):
            raise Fail("%s: got %.200r, expected %.200r" % (c["red"], denote1(got), want))


@bounded("C07", [B + "mean", B + "var", B + "std", B + "moment"], "mean, var, std, moment with and without weights and ddof on random layouts of <=6 lists of <=5 floats")
class Moments(object):
    @staticmethod
    def gen(rng, tier):
        for _ in range(2500 if tier == "quick" else 15000):
            counts = rand_counts(rng, rng.randint(0, 6), 5)
            w = rng.choice([None, None, "flat", "jag"])
            wt = None
            if w == "flat":
                wt = {"k": "np", "dt": "f8", "data": [rng.choice([0.5, 1.0, 2.0]) for _ in counts]}
            elif w == "jag":
                wt = jag_layout(rng, counts, lambda m: {"k": "np", "dt": "f8", "data": [rng.choice([0.5, 1.0, 2.0]) for _ in range(m)]})
            yield dict(a=jag_layout(rng, counts, lambda m: leaf(rng, m, "f8", w is None and rng.random() < 0.3)), fn=rng.choice(["mean", "var", "std", "moment", "var1"]), n=rng.randint(1, 3), w=wt)

    @staticmethod
    def check(c):
        a, v, fn = build(c["a"]), value(c["a"]), c["fn"]
        kw = {}
        wts = [[1.0] * len(l) for l in v]
        if c["w"] is not None:
            kw["weight"] = build(c["w"])
            wv = value(c["w"])
            wts = [l if isinstance(l, list) else [l] * len(m) for l, m in zip(wv, v)]
        if fn == "var1":
            kw["ddof"] = 1
            fn = "var"
        call = (lambda: a.moment(c["n"], **kw)) if fn == "moment" else (lambda: getattr(a, fn)(**kw))
        got = run(call, fn)
        want = []
        for l, w in zip(v, wts):
            ps = [(x, y) for x, y in zip(l, w) if x == x]
            den = sum(y for x, y in ps)
            if not den:
                want.append(float("nan"))
                continue
            m1 = sum(x * y for x, y in ps) / den
            m2 = sum((x * y) ** 2 for x, y in ps) / den
            if fn == "mean":
                want.append(m1)
            elif fn == "moment":
                want.append(sum((x * y) ** c["n"] for x, y in ps) / den)
            else:
                r = m2 - m1 ** 2
                if "ddof" in kw:
                    r = r * den / (den - 1) if den != 1 else None
                elif fn == "std":
                    r = r ** 0.5 if r >= 0 else None
                want.append(r)
        g = denote1(got)
        for x, y in zip(g, want):
            if y is None:
                continue
            if x != x and y == y and abs(y) < 1e-6:
                continue
            if not (x != x and y != y) and not abs(x - y) <= 1e-7 * max(1, abs(y)):
                raise Fail("%s: got %r, expected %r" % (fn, g, want))
        expect_list(len(g), len(want), "length")
