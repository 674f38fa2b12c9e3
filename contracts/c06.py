from .spec import *
from .selectors import *
from . import stubs

J = "awkward0/array/jagged.py:JaggedArray."
F = [J + "__array_ufunc__", J + "_tojagged", J + "flatten", J + "fromcounts", J + "offsets", J + "counts", J + "parents"]


def ghosts(v, out_n, w):
    i, k = v.skolem("i"), v.skolem("k")
    v.touch(w.start(i), w.stop(i), simp(w.start(i) + k))
    v.segments = True
    v.ghost_point(i, k)
    return i, k


def result(v, out, w, want):
    v.ensure_jagged("the result", out, w.n, w.count, want)
    v.ensure_unmodified()


def unary(op, kind):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        stubs.tojagged(v)
        stubs.flatten(v)
        stubs.offsets(v)
        stubs.offsets2parents(v)
        v.reach()
        v.segments = True
        out = v.call(lambda: getattr(np, op)(j), label=op)
        v.total(w)
        result(v, out, w, lambda i, k: elementwise_term(op, w.item(i, k)))
    return body


def scalar(op, kind, left=False):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        c = z3.Const("c", Val)
        stubs.tojagged(v)
        stubs.flatten(v)
        stubs.offsets(v)
        v.reach()
        v.segments = True
        u = getattr(np, op)
        out = v.call(lambda: u(SymVal(c), j) if left else u(j, SymVal(c)), label=op)
        v.total(w)
        result(v, out, w, lambda i, k: elementwise_term(op, *((c, w.item(i, k)) if left else (w.item(i, k), c))))
    return body


def flat(op, kind, left=False):
    def body(v):
        j, w = v.jagged("j", kind=kind)
        m = v.int("m", 0)
        b = v.vals("b", m)
        bf = b.buf.fn
        stubs.tojagged(v)
        stubs.flatten(v)
        stubs.offsets(v)
        stubs.offsets2parents(v)
        stubs.startsstops2parents(v)
        v.reach()
        v.segments = True
        v.total(w)
        u = getattr(np, op)
        out = v.call(lambda: u(b, j) if left else u(j, b), label=op, raises={ValueError: m != w.n})
        result(v, out, w, lambda i, k: elementwise_term(op, *((bf(i), w.item(i, k)) if left else (w.item(i, k), bf(i)))))
    return body


def both(op, kind, other):
    """two jagged operands in different layouts; equal counts or ValueError"""
    def body(v):
        j, w = v.jagged("j", kind=kind)
        n2 = v.int("n2", 0)
        h, u = v.jagged("h", kind=other, n=n2)
        same, bad = v.ctx.bool("same"), v.skolem("bad")
        v.assume_forall(lambda i: z3.Implies(same, u.count(i) == w.count(i)), IV(0), w.n)
        v.assume(z3.Implies(same, n2 == w.n))
        v.assume(z3.Implies(z3.Not(same), z3.Or(n2 != w.n, z3.And(0 <= bad, bad < w.n, u.count(bad) != w.count(bad)))))
        v.touch(w.start(bad), w.stop(bad), u.start(bad), u.stop(bad))
        stubs.tojagged(v)
        stubs.flatten(v)
        stubs.offsets(v)
        v.reach()
        v.segments = True
        v.total(w)
        f = getattr(np, op)
        out = v.call(lambda: f(j, h), label=op, raises={ValueError: z3.Not(same)})
        result(v, out, w, lambda i, k: elementwise_term(op, w.item(i, k), u.item(i, k)))
    return body


QUICK = {"negative_startsstops", "negative_offsets", "less_scalar_startsstops", "scalar_subtract_offsets", "add_flat_startsstops", "flat_subtract_offsets", "subtract_startsstops_startsstops", "subtract_startsstops_offsets", "subtract_offsets_offsets"}


def reg(name, f):
    contract("C06", F, tier="quick" if name in QUICK else "thorough")(named(name, f))


for _k in KINDS:
    reg("negative_" + _k, unary("negative", _k))
    reg("less_scalar_" + _k, scalar("less", _k))
    reg("scalar_subtract_" + _k, scalar("subtract", _k, True))
    reg("add_flat_" + _k, flat("add", _k))
    reg("flat_subtract_" + _k, flat("subtract", _k, True))
    for _o in KINDS:
        reg("subtract_%s_%s" % (_k, _o), both("subtract", _k, _o))
