from .spec import *

J = "awkward0/array/jagged.py:JaggedArray."
G = [J + "__getitem__", J + "_valid", J + "_validstartsstops", J + "copy", J + "stops"]


def integer(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        i = v.int("i")
        v.reach()
        bad = z3.Or(i < -w.n, i >= w.n)
        out = v.call(lambda: j[SymInt(i)], label="getitem", raises={IndexError: bad})
        k = wrap(i, w.n)
        v.ensure_array("the list", out, w.count(k), lambda q: w.item(k, q))
        v.ensure_unmodified()
    return body


def sl(kind, form, step):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        s, a, b, c = symslice(v, form, step)
        v.reach()
        first, length = pyslice(w.n, a, b, c)
        cc = IV(1) if c is None else c
        out = v.call(lambda: j[s], label="getitem")
        v.ensure_jagged("the lists", out, length, lambda i: w.count(first + i * cc), lambda i, k: w.item(first + i * cc, k))
        v.ensure_unmodified()
    return body


def fancy(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        m = v.int("m", 0)
        idx = v.array("idx", m)
        f = idx.buf.fn
        bad, inside = v.skolem("bad"), v.ctx.bool("inside")
        v.assume_forall(lambda i: z3.Implies(inside, z3.And(-w.n <= f(i), f(i) < w.n)), IV(0), m)
        v.assume(z3.Implies(z3.Not(inside), z3.And(0 <= bad, bad < m, z3.Or(f(bad) < -w.n, f(bad) >= w.n))))
        v.reach()
        out = v.call(lambda: j[idx], label="getitem", raises={IndexError: z3.Not(inside)})
        g = lambda i: wrap(f(i), w.n)
        v.ensure_jagged("the lists", out, m, lambda i: w.count(g(i)), lambda i, k: w.item(g(i), k))
        v.ensure_unmodified()
    return body


def mask(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        mk = v.bools("mask", w.n)
        v.reach()
        out = v.call(lambda: j[mk], label="getitem")
        C, pos = pick_mask(v, mk, w.n)
        v.ensure_jagged("the lists", out, C(w.n), lambda i: w.count(pos(i)), lambda i, k: w.item(pos(i), k))
        v.ensure_unmodified()
    return body


def masklen(kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        m = v.int("m", 0)
        v.assume(m != w.n)
        v.assume(m > 0)       # NumPy itself accepts an empty mask for any array
        mk = v.bools("mask", m)
        v.reach()
        v.call(lambda: j[mk], label="getitem", raises={IndexError: True})
    return body


def field(kind):
    def body(v):
        m = v.int("m", 0)
        x, y = v.vals("x", m), v.vals("y", m)
        t = v.aw.Table.frompairs([("x", x), ("y", y)], 0)
        j, w = v.jagged("j", kind=kind, content=t)
        v.reach()
        out = v.call(lambda: j["y"], label="getitem")
        v.ensure_jagged("the column", out, w.n, w.count, lambda i, k: y.buf.fn(w.start(i) + k))
        v.ensure_unmodified()
    return body


def rows(kind):
    """lists of records: the selected lists hold the same records"""
    def body(v):
        m = v.int("m", 0)
        x, y = v.vals("x", m), v.vals("y", m)
        t = v.aw.Table.frompairs([("x", x), ("y", y)], 0)
        j, w = v.jagged("j", kind=kind, content=t)
        mk = v.bools("mask", w.n)
        v.reach()
        out = v.call(lambda: j[mk], label="getitem")
        C, pos = pick_mask(v, mk, w.n)
        v.ensure_jagged("the lists", out, C(w.n), lambda i: w.count(pos(i)), lambda i, k: w.item(pos(i), k))
        v.ensure_unmodified()
    return body


def twice(kind):
    """selections compose: a slice of a selection by mask"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        mk = v.bools("mask", w.n)
        a, b = v.int("sa", 0), v.int("sb", 0)
        v.reach()
        out = v.call(lambda: j[mk][SymInt(a):SymInt(b)], label="getitem")
        C, pos = pick_mask(v, mk, w.n)
        first, length = pyslice(C(w.n), a, b, None)
        v.ensure_jagged("the lists", out, length, lambda i: w.count(pos(first + i)), lambda i, k: w.item(pos(first + i), k))
        v.ensure_unmodified()
    return body


for _k in KINDS:
    contract("C02", G)(named("integer_" + _k, integer(_k)))
    contract("C02", G, cost=7)(named("fancy_" + _k, fancy(_k)))
    contract("C02", G, cost=7)(named("mask_" + _k, mask(_k)))
    contract("C02", G)(named("masklen_" + _k, masklen(_k)))
    contract("C02", G, arith=6, cost=80, tier="thorough" if _k == "longstops" else "quick")(named("slice_" + _k, sl(_k, "abc", None)))
    contract("C02", G, arith=6, cost=10)(named("slice_nostep_" + _k, sl(_k, "ab", None)))
    contract("C02", G, arith=6, cost=50, tier="quick" if _k == "startsstops" else "thorough")(named("slice_from_" + _k, sl(_k, "ac", None)))
    contract("C02", G, arith=6, cost=40, tier="quick" if _k == "startsstops" else "thorough")(named("slice_to_" + _k, sl(_k, "bc", None)))
    contract("C02", G, arith=6, cost=40, tier="thorough" if _k == "longstops" else "quick")(named("slice_step_" + _k, sl(_k, "c", None)))
    contract("C02", G)(named("field_" + _k, field(_k)))
    contract("C02", G, cost=7)(named("rows_" + _k, rows(_k)))
    contract("C02", G, tier="thorough", budget=500, arith=6)(named("twice_" + _k, twice(_k)))


@contract("C02", [])
def lemma_ceil(v):
    """arithmetic used by the slice specifications"""
    x, d, k, q = [v.skolem(n) for n in "xdkq"]
    v.assume(x > 0)
    v.assume(d > 0)
    v.ensure("ceil", z3.simplify(ceil_lemma(x, d)))
    v.ensure("product increasing", z3.Implies(k <= q, d * k <= d * q))
    v.ensure("product not negative", z3.Implies(k >= 0, d * k >= 0))
