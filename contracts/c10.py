from .spec import *
from .selectors import *
from . import stubs
from .c11 import mview

J = "awkward0/array/jagged.py:JaggedArray."


def concat0(k1, k2):
    def body(v):
        a, w = v.jagged("a", kind=k1)
        b, x = v.jagged("b", kind=k2)
        v.reach()
        out = v.call(lambda: a.concatenate([b]), label="concatenate")
        v.on_index = lambda i: (i, simp(i - w.n))
        v.ensure_jagged("the result", out, w.n + x.n, lambda i: z3.If(i < w.n, w.count(i), x.count(i - w.n)), lambda i, k: z3.If(i < w.n, w.item(i, k), x.item(i - w.n, k)))
        v.ensure_unmodified()
    return body


for _a in KINDS:
    for _b in KINDS:
        contract("C10", [J + "_concatenate_axis0", "awkward0/array/base.py:AwkwardArray.concatenate"], tier="thorough" if _a == "longstops" else "quick")(named("concatenate_%s_%s" % (_a, _b), concat0(_a, _b)))


@contract("C10", [J + "_concatenate_axis0", "awkward0/array/base.py:AwkwardArray.concatenate"])
def concatenate_three(v):
    (a, w), (b, x), (c, y) = v.jagged("a"), v.jagged("b", kind="offsets"), v.jagged("c")
    v.reach()
    out = v.call(lambda: v.aw.JaggedArray.concatenate([a, b, c]), label="concatenate")
    m = w.n + x.n
    pick = lambda i, f: z3.If(i < w.n, f(w, i), z3.If(i < m, f(x, i - w.n), f(y, i - m)))
    v.ensure_jagged("the result", out, m + y.n, lambda i: pick(i, lambda q, t: q.count(t)), lambda i, k: pick(i, lambda q, t: q.item(t, k)))
    v.ensure_unmodified()


def pad(kind, when):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        n = v.int("length", 0)
        stubs.counts2offsets(v) if hasattr(stubs, "counts2offsets") else None
        stubs.offsets2parents(v)
        v.reach()
        count = lambda i: zmax(w.count(i), n)
        i, k = v.skolem("i"), v.skolem("k")
        v.touch(w.start(i), w.stop(i), simp(w.start(i) + k))
        v.segments = True
        v.ghost_point(i, k)
        out = v.call(lambda: j.pad(SymInt(n), maskedwhen=when), label="pad")
        check_padded(v, out, w, count)
    return body


def clipped(kind, n):
    """pad to exactly n elements per list; n: any (symbolic) or a given number"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        N = v.int("length", 0) if n is None else IV(n)
        v.reach()
        out = v.call(lambda: j.pad(SymInt(N) if n is None else n, clip=True), label="pad")
        i, k = v.skolem("i"), v.skolem("k")
        v.touch(w.start(i), w.stop(i), simp(w.start(i) + k), simp(i * N + k), simp(i * N))
        check_padded(v, out, w, lambda i: N)
    return body


def check_padded(v, out, w, count):
    if not isinstance(out, v.aw.JaggedArray):
        v.ensure("the result is a JaggedArray", False)
        return
    o = mview(v, out._content)
    start, stop = out._starts.snapshot(), out._stops.snapshot()
    v.ensure("length", z3.And(I(vp_len(out._starts)) == w.n, I(vp_len(out._stops)) >= w.n))
    v.ensure_forall("counts", lambda i: stop(i) - start(i) == count(i), IV(0), w.n)
    v.ensure_forall("ranges inside content", lambda i: z3.And(start(i) >= 0, z3.Implies(start(i) != stop(i), stop(i) <= o.n)), IV(0), w.n)
    v.ensure_forall2("original elements first, then missing values", lambda i, k: z3.And(o.elem(start(i) + k)[0] == (k >= w.count(i)), z3.Or(k >= w.count(i), o.elem(start(i) + k)[1] == w.item(i, k))), IV(0), w.n, lambda i: IV(0), count)
    v.ensure_unmodified()


for _k in KINDS:
    contract("C10", [J + "pad"])(named("pad_%s" % _k, pad(_k, True)))
contract("C10", [J + "pad"])(named("pad_false_offsets", pad("offsets", False)))


for _k in KINDS:
    for _n in (0, 1, 2, 3):
        contract("C10", [J + "pad"], tier="quick" if _n == 2 else "thorough")(named("pad_clip%d_%s" % (_n, _k), clipped(_k, _n)))


def zipped(k1, k2):
    def body(v):
        a, w = v.jagged("a", kind=k1)
        b, x = v.jagged("b", kind=k2, n=w.n)
        v.assume_forall(lambda i: w.count(i) == x.count(i), IV(0), w.n)
        stubs.tojagged(v)
        v.reach()
        v.segments = True
        i, k = v.skolem("i"), v.skolem("k")
        v.touch(w.start(i), w.stop(i), simp(w.start(i) + k), x.start(i), x.stop(i), simp(x.start(i) + k))
        v.ghost_point(i, k)
        out = v.call(lambda: v.aw.JaggedArray.zip({"x": a, "y": b}), label="zip")
        v.total(w)
        v.ensure_jagged("the result", out, w.n, w.count, lambda i, k: (w.item(i, k), x.item(i, k)))
        v.ensure("the columns", list(out._content._contents) == ["x", "y"])
        v.ensure_unmodified()
    return body


for _a in KINDS:
    for _b in KINDS:
        contract("C10", [J + "zip"], cost=5, tier="quick" if _a == "offsets" and _b != "longstops" else "thorough", budget=600)(named("zip_%s_%s" % (_a, _b), zipped(_a, _b)))
