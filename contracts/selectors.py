"""the contract 'a[where] is what the same selector gives on the equivalent Python list', for any array class with an element view"""
from .spec import *
from engine.sym import elementwise


class View(object):
    """n elements; elem(i) is a tuple of z3 terms, compared with eq"""

    def __init__(self, n, elem, eq=None):
        self.n, self.elem = n, elem
        self.eq = eq or (lambda a, b: z3.And(*[x == y for x, y in zip(a, b)]))


def option_eq(a, b):
    """(missing, value): the value of a missing entry is not observable"""
    return z3.And(a[0] == b[0], z3.Or(a[0], a[1] == b[1]))


def scalar_term(x):
    if isinstance(x, (SymVal, SymInt, SymBool)):
        return x.e
    if isinstance(x, SymArray) and x.ndim == 0:
        return x.buf.fn() if False else x.snapshot()()
    return None


def option_item(v, name, out, want):
    if out is None:
        v.ensure(name + " is missing", want[0])
        return
    t = scalar_term(out)
    if t is None:
        raise Unsupported("element of type %r" % type(out))
    v.ensure(name + " is present", z3.Not(want[0]))
    v.ensure(name + " value", coerce(t, want[1].sort()) == want[1])


def plain_item(v, name, out, want):
    t = scalar_term(out)
    if t is None:
        raise Unsupported("element of type %r" % type(out))
    v.ensure(name + " value", coerce(t, want[0].sort()) == want[0])


def ensure_view(v, name, got, n, elem):
    v.ensure(name + " length", got.n == Z(n))
    v.ensure_forall(name + " elements", lambda i: got.eq(got.elem(i), elem(i)), IV(0), Z(n))


def register(prop, functions, label, make, view, item, which=("integer", "slice", "mask", "fancy"), tiers={}, hint=False, divmod=False, **kw):
    """make(v) -> (array, View); view(v, result) -> View of a selection's result; item(v, name, result, element) checks one element"""
    def integer(v):
        a, w = make(v)
        i = v.int("i")
        v.touch(i, simp(i + w.n))
        v.reach()
        out = v.call(lambda: a[SymInt(i)], label="getitem", raises={IndexError: z3.Or(i < -w.n, i >= w.n)})
        item(v, "the element", out, w.elem(wrap(i, w.n)))
        v.ensure_unmodified()

    def sl(form, step):
        def body(v):
            a, w = make(v)
            s, x, y, c = symslice(v, form, step)
            v.reach()
            first, length = pyslice(w.n, x, y, c, divmod)
            cc = IV(1) if c is None else c
            out = v.call(lambda: a[s], label="getitem")

            def at(k):
                if divmod and c is not None and not z3.is_int_value(c):
                    slice_inside(v, first, length, c, w.n, k)
                return (simp(first + k * cc),) if hint or c is None or z3.is_int_value(c) else ()
            v.on_index = at
            ensure_view(v, "the slice", view(v, out), length, lambda i: w.elem(first + i * cc))
            v.ensure_unmodified()
        return body

    def mask(v):
        a, w = make(v)
        mk = v.bools("where", w.n)
        v.reach()
        C, pos = pick_mask(v, mk, w.n)
        out = v.call(lambda: a[mk], label="getitem")
        v.on_index = lambda k: (pos(k),)
        ensure_view(v, "the selection", view(v, out), C(w.n), lambda i: w.elem(pos(i)))
        v.ensure_unmodified()

    def fancy(v):
        a, w = make(v)
        m = v.int("m", 0)
        idx = v.array("where", m)
        f = idx.buf.fn
        bad, inside = v.skolem("bad"), v.ctx.bool("inside")
        v.assume_forall(lambda i: z3.Implies(inside, z3.And(-w.n <= f(i), f(i) < w.n)), IV(0), m)
        v.assume(z3.Implies(z3.Not(inside), z3.And(0 <= bad, bad < m, z3.Or(f(bad) < -w.n, f(bad) >= w.n))))
        v.reach()
        out = v.call(lambda: a[idx], label="getitem", raises={IndexError: z3.Not(inside)})
        v.on_index = lambda k: (f(k), simp(f(k) + w.n))
        ensure_view(v, "the selection", view(v, out), m, lambda i: w.elem(wrap(f(i), w.n)))
        v.ensure_unmodified()

    def reg(name, f, **k):
        k = dict(kw, **k)
        name = "%s_%s" % (name, label)
        if name in tiers:
            k["tier"] = tiers[name]
        contract(prop, functions, **k)(named(name, f))
    if "integer" in which:
        reg("integer", integer)
    if "slice" in which:
        reg("slice", sl("abc", None), arith=6)
        reg("slice_nostep", sl("ab", None), arith=6)
        reg("slice_reverse", sl("", -1), arith=6)
        reg("slice_to", sl("bc", None), arith=6)
    if "mask" in which:
        reg("mask", mask)
    if "fancy" in which:
        reg("fancy", fancy)


COMPARE = ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal")


def elementwise_term(op, *es):
    return elementwise(op, [coerce(e, Val) for e in es], Bool if op in COMPARE else Val)
